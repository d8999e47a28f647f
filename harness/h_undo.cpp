// Random events on boards, forwards (B01, B02) and back and forth through
// their history (U01, U02, F02), and frames whose undone future is forgotten
// (U03, F02).
#include "fieldmodel.hpp"
#include "msgcmp.hpp"
#include "pbfill.hpp"
#include <ygopen/client/board.hpp>
#include <ygopen/client/frame.hpp>
#include <ygopen/client/frame_limbo.hpp>
#include <ygopen/client/parse_event.hpp>
#include <ygopen/client/undo_parse_event.hpp>
#include <ygopen/client/undoable.hpp>
#include <ygopen/duel/constants/phase.hpp>

using namespace vf;
using YGOpen::Proto::Duel::Chain;

namespace
{

struct PlainTraits
{
	using BlockedZonesType = std::vector<FPlace>;
	using ChainStackType = std::vector<Chain>;
	using FrameType = YGOpen::Client::BasicFrame<TCard>;
	using LPType = uint32_t;
	using PhaseType = YGOpen::Duel::Phase;
	using TurnControllerType = YGOpen::Duel::Controller;
	using TurnType = uint32_t;
	static constexpr bool undoable = false;
};

struct UndoTraits
{
	template<typename T>
	using U = YGOpen::Client::BasicUndoable<T>;
	using BlockedZonesType = U<std::vector<FPlace>>;
	using ChainStackType = U<std::vector<Chain>>;
	using FrameType = YGOpen::Client::LimboFrame<TCard>;
	using LPType = U<uint32_t>;
	using PhaseType = U<YGOpen::Duel::Phase>;
	using TurnControllerType = U<YGOpen::Duel::Controller>;
	using TurnType = U<uint32_t>;
	static constexpr bool undoable = true;
};

struct Vals
{
	uint32_t turn = 0, tc = 0, phase = 0;
	uint32_t lp[2] = {0, 0};
	std::vector<Chain> chain;
	std::vector<FPlace> blocked;
};

// What an event is about.
enum Part : unsigned
{
	P_TURN = 1,
	P_TC = 2,
	P_PHASE = 4,
	P_LP0 = 8,
	P_LP1 = 16,
	P_CHAIN = 32,
	P_BLOCKED = 64,
	P_FRAME = 128
};

struct Item
{
	FEvent ev;
	std::string what;
	unsigned parts = 0;
	Field before, after;
	Vals vbefore, vafter;
};

template<typename T>
struct Case
{
	using Board = YGOpen::Client::BasicBoard<T>;
	using F = typename T::FrameType;
	Rng& rng;
	Field m;
	Vals v;
	Tracker<F> t;
	std::unique_ptr<Board> board{new Board{}};
	int next_id = 0;
	std::vector<Item> items;
	size_t pos = 0;
	std::string hist, sig;
	bool stop = false, undone = false;

	explicit Case(Rng& r) : rng(r) { t.noise = Rng(r.next()); }

	void note(std::string const& s)
	{
		hist += s + " | ";
		trace(s);
	}
	void fail(std::initializer_list<char const*> props, std::string const& key,
	          std::string const& why)
	{
		violate(props, key,
		        why + ". History: " + hist.substr(hist.size() > 900 ? hist.size() - 900 : 0));
		stop = true;
	}

	// ---------------------------------------------------------------- events
	bool ops(OpK k, int n, std::function<void(Op const&)> const& add, std::string& what)
	{
		int done = 0;
		for(int i = 0; i < n; i++)
		{
			auto o = f_gen(rng, m, k, next_id);
			if(!o)
				continue;
			f_apply(m, *o);
			add(*o);
			what += " " + str(*o);
			done++;
		}
		return done > 0;
	}
	int many() { return static_cast<int>(rng.pick({1, 1, 1, 2, 3, 6})); }

	bool make(Item& it)
	{
		auto& e = it.ev;
		std::string w;
		auto move_op = [&](Op const& o, auto* op)
		{
			*op->mutable_old_place() = o.a;
			*op->mutable_new_place() = o.b;
		};
		auto swap_op = [&](Op const& o, auto* op)
		{
			*op->mutable_place_a() = o.a;
			*op->mutable_place_b() = o.b;
		};
		auto resize_op = [&](Op const& o, auto* op)
		{
			*op->mutable_place() = o.a;
			op->set_count(static_cast<uint32_t>(o.n));
		};
		auto k = rng.below(T::undoable ? 22 : 25);
		switch(k)
		{
		case 0:
		case 1:
		case 2:
		case 3:
		{
			it.what = "add";
			it.parts = P_FRAME;
			e.mutable_card()->set_reason(rng.next());
			return ops(OpK::ADD, many(), [&](Op const& o)
			           { *e.mutable_card()->mutable_add()->add_places() = o.a; }, it.what);
		}
		case 4:
		{
			it.what = "remove";
			it.parts = P_FRAME;
			return ops(OpK::REMOVE, many(), [&](Op const& o)
			           { *e.mutable_card()->mutable_remove()->add_places() = o.a; },
			           it.what);
		}
		case 5:
		case 6:
		case 7:
		{
			it.what = "move";
			it.parts = P_FRAME;
			return ops(OpK::MOVE, many(), [&](Op const& o)
			           { move_op(o, e.mutable_card()->mutable_move()->add_ops()); },
			           it.what);
		}
		case 8:
		{
			it.what = "swap";
			it.parts = P_FRAME;
			return ops(OpK::SWAP, many(), [&](Op const& o)
			           { swap_op(o, e.mutable_card()->mutable_exchange()->add_ops()); },
			           it.what);
		}
		case 9:
		{
			it.what = "splice";
			it.parts = P_FRAME;
			return ops(OpK::SPLICE, many(), [&](Op const& o)
			           {
				           auto* op = e.mutable_pile()->mutable_splice()->add_ops();
				           *op->mutable_from() = o.a;
				           *op->mutable_to() = o.b;
				           op->set_count(static_cast<uint32_t>(o.n));
				           op->set_reverse(o.rev);
			           }, it.what);
		}
		case 10:
		{
			it.what = "pile_swap";
			it.parts = P_FRAME;
			return ops(OpK::PSWAP, many(), [&](Op const& o)
			           { swap_op(o, e.mutable_pile()->mutable_exchange()->add_ops()); },
			           it.what);
		}
		case 11:
		case 12:
		{
			it.what = "exchange";
			it.parts = P_FRAME;
			auto* x = e.mutable_board()->mutable_exchange();
			x->set_con(static_cast<int>(rng.below(2)));
			int const p = static_cast<int>(rng.below(8));
			if((p & 1) == 0)
				ops(OpK::RESIZE, many(), [&](Op const& o)
				    { resize_op(o, x->mutable_resize()->add_ops()); }, it.what);
			if((p & 2) == 0)
				ops(OpK::REMOVE, many(), [&](Op const& o)
				    { *x->mutable_remove()->add_places() = o.a; }, it.what);
			if((p & 4) == 0)
				ops(OpK::ADD, many(), [&](Op const& o)
				    { *x->mutable_add()->add_places() = o.a; }, it.what);
			return true;
		}
		case 13:
		{
			it.what = "state";
			it.parts = P_FRAME | P_LP0 | P_LP1 | P_CHAIN;
			auto* s = e.mutable_board()->mutable_state();
			s->set_turn_counter(rng.coin() ? -1 : static_cast<int>(rng.below(1000)));
			if(rng.chance(1, 10))
				s->set_turn_counter(rng.pick({0x7FFFFFFF, 0, -2, -1000, -0x7FFFFFFF}));
			if(s->turn_counter() >= 0)
			{
				v.turn = static_cast<uint32_t>(s->turn_counter());
				it.parts |= P_TURN;
			}
			for(auto& l : v.lp)
				s->add_lps(l = rng.any<uint32_t>());
			v.chain.clear();
			for(uint64_t n = rng.below(4); n > 0; n--)
			{
				pb_fill(rng, *s->add_chains());
				v.chain.push_back(s->chains(s->chains_size() - 1));
			}
			Op c;
			c.k = OpK::CLEAR;
			f_apply(m, c);
			ops(OpK::ADD, static_cast<int>(rng.below(12)), [&](Op const& o)
			    { *s->mutable_add()->add_places() = o.a; }, it.what);
			ops(OpK::RESIZE, static_cast<int>(rng.below(6)), [&](Op const& o)
			    { resize_op(o, s->mutable_resize()->add_ops()); }, it.what);
			return true;
		}
		case 14:
		{
			it.what = "next_turn";
			it.parts = P_TURN | P_TC;
			v.turn++;
			v.tc = static_cast<uint32_t>(rng.below(2));
			e.set_next_turn(static_cast<int>(v.tc));
			return true;
		}
		case 15:
		{
			it.what = "next_phase";
			it.parts = P_PHASE;
			v.phase = rng.chance(1, 10) ? 0U : 1U << rng.below(12);
			e.set_next_phase(v.phase);
			return true;
		}
		case 16:
		case 17:
		{
			auto con = static_cast<int>(rng.below(2));
			auto& l = v.lp[con];
			it.parts = con == 0 ? P_LP0 : P_LP1;
			auto* x = e.mutable_lp();
			x->set_controller(con);
			auto a = rng.any<uint32_t>();
			auto near = [&](uint32_t n)
			{ // Around the current value.
				if(rng.coin())
					n = l + static_cast<uint32_t>(rng.pick({0, 1, -1, 2, -2}));
				return n;
			};
			switch(rng.below(4))
			{
			case 0:
				it.what = "become";
				x->set_become(a = rng.chance(1, 4) ? 0 : a);
				l = a;
				break;
			case 1:
				it.what = "damage";
				x->set_damage(a = near(a));
				l = a > l ? 0 : l - a;
				break;
			case 2:
				it.what = "pay";
				x->set_pay(a = near(a));
				l = a > l ? 0 : l - a;
				break;
			default:
				it.what = "recover";
				if(a > 0xFFFFFFFFU - l)
					a = static_cast<uint32_t>(
						rng.below(uint64_t{0xFFFFFFFFU - l} + 1));
				x->set_recover(a);
				l += a;
			}
			it.what += " " + std::to_string(con) + " " + std::to_string(a);
			return true;
		}
		case 18:
		{
			it.what = "zone_block";
			it.parts = P_BLOCKED;
			auto* z = e.mutable_zone_block();
			v.blocked.clear();
			for(uint64_t n = rng.below(6); n > 0; n--)
			{
				pb_fill(rng, *z->add_zones());
				v.blocked.push_back(z->zones(z->zones_size() - 1));
			}
			return true;
		}
		case 19:
		case 20:
		case 21:
		{
			switch(rng.below(6))
			{
			case 0: pb_fill(rng, *e.mutable_finish()); break;
			case 1: pb_fill(rng, *e.mutable_result()); break;
			case 2: e.Clear(); break;
			default: pb_fill(rng, *e.mutable_meta());
			}
			it.what = "info" + std::to_string(e.t_case());
			return true;
		}
		case 22:
		case 23:
		{
			it.parts = P_CHAIN;
			auto* c = e.mutable_chain_stack();
			if(!v.chain.empty() && rng.coin())
			{
				it.what = "pop";
				c->set_pop(rng.coin());
				v.chain.pop_back();
				return true;
			}
			it.what = "push";
			pb_fill(rng, *c->mutable_push());
			v.chain.push_back(c->push());
			return true;
		}
		default:
		{
			auto o = f_gen(rng, m, OpK::SHUFFLE, next_id);
			if(!o || std::any_of(o->cur.begin(), o->cur.end(),
			                     [](FPlace const& p) { return p.loc() == 0; }))
				return false;
			it.what = "shuffle";
			it.parts = P_FRAME;
			f_apply(m, *o);
			auto* s = e.mutable_card()->mutable_shuffle();
			for(auto& p : o->prev)
				*s->add_previous_places() = p;
			for(auto& p : o->cur)
				*s->add_current_places() = p;
			return true;
		}
		}
	}

	// Compares; `part` says where the first difference is.
	std::string compare(unsigned& part)
	{
		std::string first;
		part = 0;
		for(auto& d : differences())
		{
			if(first.empty())
			{
				first = d.second;
				part = d.first;
			}
		}
		return first;
	}

	// Everything that differs between the board and the model.
	std::vector<std::pair<unsigned, std::string>> differences()
	{
		Board const& b = *board;
		std::vector<std::pair<unsigned, std::string>> out;
		auto num = [&](unsigned part, char const* n, uint64_t got, uint64_t want)
		{
			if(got != want)
				out.emplace_back(part, std::string(n) + " is " + std::to_string(got) +
				                           " instead of " + std::to_string(want));
			return got == want;
		};
		uint32_t const turn = b.turn();
		num(P_TURN, "turn", turn, v.turn);
		YGOpen::Duel::Controller const tc = b.turn_controller();
		num(P_TC, "turn controller", static_cast<uint32_t>(tc), v.tc);
		YGOpen::Duel::Phase const ph = b.phase();
		num(P_PHASE, "phase", static_cast<uint32_t>(ph), v.phase);
		for(int i = 0; i < 2; i++)
		{
			uint32_t const lp = b.lp(static_cast<FCon>(i));
			num(i == 0 ? P_LP0 : P_LP1, i == 0 ? "LP of 0" : "LP of 1", lp, v.lp[i]);
		}
		std::vector<Chain> const& ch = b.chain_stack();
		if(num(P_CHAIN, "chain length", ch.size(), v.chain.size()))
			for(size_t i = 0; i < ch.size(); i++)
				if(auto d = pb_diff(v.chain[i], ch[i]); !d.empty())
				{
					out.emplace_back(P_CHAIN, "chain link " + std::to_string(i) + d);
					break;
				}
		std::vector<FPlace> const& bz = b.blocked_zones();
		if(num(P_BLOCKED, "blocked zones", bz.size(), v.blocked.size()))
			for(size_t i = 0; i < bz.size(); i++)
				if(!(bz[i].con() == v.blocked[i].con() && bz[i].loc() == v.blocked[i].loc() &&
				     bz[i].seq() == v.blocked[i].seq() && bz[i].oseq() == v.blocked[i].oseq()))
				{
					out.emplace_back(P_BLOCKED,
					                 "blocked zone " + std::to_string(i) + " differs");
					break;
				}
		auto e = t.compare(board->frame(), m);
		if(!e.empty())
			out.emplace_back(P_FRAME, e);
		return out;
	}

	// Cards any part of the history knows.
	void lifetimes(std::string const& what)
	{
		if(!watch().error.empty())
			return fail({"F02"}, "lifetime:history", watch().error + " by " + what);
		if(!T::undoable || watch().died.empty())
			return;
		for(auto d : watch().died)
			for(auto& [id, tag] : t.tag)
				if(tag == d)
					return fail({"F02"}, "lifetime:history",
					            what + " destroyed card #" + std::to_string(id) +
					                ", which the history can bring back");
		watch().died.clear();
	}

	bool forward()
	{
		Item it;
		it.before = m;
		it.vbefore = v;
		auto saved_id = next_id;
		if(!make(it))
		{
			m = it.before;
			v = it.vbefore;
			next_id = saved_id;
			return true;
		}
		it.after = m;
		it.vafter = v;
		if(!T::undoable)
		{
			auto a = it.before.all();
			auto b = m.all();
			std::set<int> now(b.begin(), b.end());
			if(it.what.compare(0, 5, "state") == 0)
				now.clear();
			for(int id : a)
				if(now.count(id) == 0)
					t.forget(id);
		}
		at("event " + it.what);
		note(it.what);
		sig += it.what.substr(0, 3);
		count("event_" + it.what.substr(0, it.what.find(' ')));
		YGOpen::Client::parse_event(*board, it.ev);
		auto const diffs = differences();
		for(auto& [part, e] : diffs)
		{
			auto const msg = "after " + it.what + ": " + e;
			auto const key = it.what.substr(0, it.what.find(' '));
			if(undone)
				fail({"U01"}, "after_undo:" + key, msg);
			else if((part & it.parts) == 0)
			{
				fail({"B02"}, "untouched:" + key, msg);
				if(part != P_FRAME)
					fail({"B01"}, "untouched:" + key, msg);
			}
			else if(part == P_FRAME)
				fail({"B01", "B02"}, "frame:" + key, msg);
			else
				fail({"B01"}, "value:" + key, msg);
		}
		if(!diffs.empty())
		{
			stop = true;
			return false;
		}
		count("boards_compared");
		items.push_back(std::move(it));
		pos = items.size();
		return true;
	}
	void check(char const* prop, std::string const& what)
	{
		unsigned part = 0;
		auto e = compare(part);
		if(!e.empty())
		{
			if(std::string(prop) == "U01" && !active({"U01"}))
				return; // What redoing makes of it is judged.
			if(std::string(prop) == "U01")
				fail({"U01"}, what.substr(0, what.find(' ')), "after " + what + ": " + e);
			else
				fail({"U01", "U02"}, what.substr(0, what.find(' ')),
				     "after " + what + ": " + e);
			stop = true;
		}
		count("boards_compared");
		lifetimes(what);
	}
	void undo()
	{
		if constexpr(T::undoable)
		{
			auto& it = items[--pos];
			at("undoing " + it.what);
			note("UNDO");
			sig += "<";
			undone = true;
			count("undone_" + it.what.substr(0, it.what.find(' ')));
			YGOpen::Client::undo_parse_event(*board, it.ev);
			m = it.before;
			v = it.vbefore;
			check("U01", "undo_" + it.what);
		}
	}
	void redo()
	{
		auto& it = items[pos++];
		at("redoing " + it.what);
		note("REDO");
		sig += ">";
		count("redone_" + it.what.substr(0, it.what.find(' ')));
		YGOpen::Client::parse_event(*board, it.ev);
		m = it.after;
		v = it.vafter;
		check("U02", "redo_" + it.what);
	}

	void go(bool history)
	{
		watch().reset();
		auto const n = rng.range(5, run().tier == 0 ? 50 : 120);
		for(uint64_t i = 0; i < n && !stop; i++)
		{
			if(!history || rng.chance(2, 3))
			{
				while(pos < items.size() && !stop)
					redo();
				if(!stop)
					forward();
				continue;
			}
			auto k = rng.below(12);
			for(auto u = k < 6 ? 1 : rng.below(k == 11 ? 100 : 8); u > 0 && pos > 0 && !stop; u--)
				undo();
			for(auto u = rng.below(6); u > 0 && pos < items.size() && !stop; u--)
				redo();
		}
		if(history)
		{
			while(pos > 0 && !stop)
				undo();
			if(rng.coin())
				while(pos < items.size() && !stop)
					redo();
			maxi("history", items.size());
		}
		maxi("cards", m.all().size());
		if(stop)
			return;
		at("destroying the board");
		watch().died.clear();
		board.reset();
		if(!watch().error.empty())
			fail({"F02"}, "lifetime:end", watch().error + " with the board");
		else if(!watch().live.empty())
			fail({"F02"}, "lifetime:leak", "cards outlive their board");
		count("boards");
		distinct(sig);
		sample(hist);
	}
};

// Frames whose undone future is forgotten.
struct Forget
{
	using F = YGOpen::Client::LimboFrame<TCard>;
	struct It
	{
		Op op;
		Field before, after;
	};
	Rng& rng;
	Field m;
	Tracker<F> t;
	std::unique_ptr<F> f{new F{}};
	int next_id = 0;
	std::vector<It> items;
	size_t pos = 0;
	std::string hist, sig;
	bool stop = false, forgotten = false;

	explicit Forget(Rng& r) : rng(r) { t.noise = Rng(r.next()); }
	void fail(std::initializer_list<char const*> props, std::string const& key,
	          std::string const& why)
	{
		violate(props, key,
		        why + ". History: " + hist.substr(hist.size() > 900 ? hist.size() - 900 : 0));
		stop = true;
	}
	void check(std::string const& what)
	{
		auto e = t.compare(*f, m);
		count("frames_compared");
		auto const key = what.substr(0, what.find(' '));
		if(!e.empty())
		{
			if(forgotten)
				fail({"U03"}, "frame:" + key, "after " + what + ": " + e);
			stop = true;
			return;
		}
		if(!watch().error.empty())
			return fail({"F02"}, "lifetime:forget", watch().error + " by " + what);
		for(auto d : watch().died)
			for(auto& [id, c] : t.addr)
				if(t.tag[id] == d)
					return fail({"F02", "U03"}, "lifetime:forget",
					            what + " destroyed card #" + std::to_string(id) +
					                " of the field or its past");
		watch().died.clear();
	}
	void go()
	{
		watch().reset();
		auto const n = rng.range(8, run().tier == 0 ? 70 : 150);
		for(uint64_t i = 0; i < n && !stop; i++)
		{
			auto r = rng.below(20);
			if(r < 11 || items.empty())
			{
				if(pos < items.size() || rng.chance(1, 8))
				{
					bool const behind = pos < items.size();
					hist += "FORGET | ";
					sig += "!";
					at("forgetting");
					f->erase_history();
					forgotten = forgotten || behind;
					count(behind ? "forgotten" : "forgotten_nothing");
					maxi("forgotten", items.size() - pos);
					items.resize(pos);
					// Only what is here or in the past still counts.
					std::set<int> keep;
					for(int id : m.all())
						keep.insert(id);
					for(auto& it : items)
						for(int id : it.before.all())
							keep.insert(id);
					std::vector<int> gone;
					for(auto& [id, c] : t.addr)
						if(keep.count(id) == 0)
							gone.push_back(id);
					for(int id : gone)
						t.forget(id);
					check("forgetting the future");
					if(stop || rng.chance(1, 6))
						continue;
				}
				static OpK const ks[] = {OpK::ADD,    OpK::ADD,    OpK::ADD,   OpK::REMOVE,
				                         OpK::REMOVE, OpK::MOVE,   OpK::MOVE,  OpK::SWAP,
				                         OpK::RESIZE, OpK::RESIZE, OpK::SPLICE, OpK::PSWAP,
				                         OpK::CLEAR};
				auto k = ks[rng.below(13)];
				if(k == OpK::CLEAR && rng.chance(2, 3))
					k = OpK::MOVE;
				auto o = f_gen(rng, m, k, next_id, 12);
				if(!o)
					continue;
				It it{*o, m, {}};
				at(str(*o));
				hist += str(*o) + " | ";
				sig += op_name(k)[0];
				sig += op_name(k)[2];
				f_run(*f, *o);
				f_apply(m, *o);
				it.after = m;
				items.push_back(it);
				pos = items.size();
				check(str(*o));
				count(std::string("op_") + op_name(k));
			}
			else if(r < 17)
			{
				for(auto u = rng.range(1, 6); u > 0 && pos > 0 && !stop; u--)
				{
					auto& it = items[--pos];
					at("undoing " + str(it.op));
					hist += "UNDO | ";
					sig += "<";
					f_undo(*f, it.op);
					m = it.before;
					check("undo_" + str(it.op));
				}
			}
			else
			{
				for(auto u = rng.range(1, 4); u > 0 && pos < items.size() && !stop; u--)
				{
					auto& it = items[pos++];
					at("redoing " + str(it.op));
					hist += "REDO | ";
					sig += ">";
					f_run(*f, it.op);
					m = it.after;
					check("redo_" + str(it.op));
				}
			}
		}
		while(pos > 0 && !stop)
		{
			auto& it = items[--pos];
			at("undoing " + str(it.op));
			hist += "UNDO | ";
			f_undo(*f, it.op);
			m = it.before;
			check("undo_" + str(it.op));
		}
		if(stop)
			return;
		at("destroying the frame");
		f.reset();
		if(!watch().error.empty())
			fail({"F02"}, "lifetime:end", watch().error + " with the frame");
		else if(!watch().live.empty())
			fail({"F02"}, "lifetime:leak", "cards outlive their frame");
		distinct(sig);
		sample(hist);
	}
};

// A history beyond 65536 operations, with piles beyond 65536 cards.
void long_history(Rng& rng)
{
	using Board = YGOpen::Client::BasicBoard<UndoTraits>;
	at("a long history");
	watch().reset();
	auto b = std::make_unique<Board>();
	std::vector<FEvent> es;
	// Model: sizes of two piles, life points and the turn.
	std::array<size_t, 2> n{0, 0};
	auto pile = [&](int con) -> auto const&
	{ return std::as_const(*b).frame().pile(fp(con, 0x10, 0)); };
	auto snap = [&]
	{
		uint64_t h = 0;
		auto mix = [&](uint64_t v) { h = (h ^ v) * 0x9E3779B97F4A7C15ULL + (h >> 29); };
		for(int con = 0; con < 2; con++)
		{
			for(auto* c : pile(con))
				mix(reinterpret_cast<uintptr_t>(c));
			mix(pile(con).size());
			mix(b->lp(static_cast<YGOpen::Duel::Controller>(con)));
		}
		mix(b->turn());
		return h;
	};
	std::map<size_t, uint64_t> seen;
	auto put = [&](FEvent const& e, bool record)
	{
		YGOpen::Client::parse_event(*b, e);
		if(record)
			es.push_back(e);
	};
	auto resize = [&](int con, size_t to)
	{
		FEvent e;
		auto* op = e.mutable_board()->mutable_exchange()->mutable_resize()->add_ops();
		*op->mutable_place() = fp(con, 0x10, 0);
		op->set_count(static_cast<uint32_t>(to));
		n[static_cast<size_t>(con)] = to;
		put(e, true);
	};
	resize(1, 66000 + rng.below(3000));
	size_t const total = 66000 + rng.below(3000);
	// Values cannot forget yet.
	bool const forget = active({"U03"});
	auto extend = [&](size_t until)
	{
	while(es.size() < until)
	{
		auto const con = rng.chance(1, 50) ? 1U : 0U;
		FEvent e;
		switch(rng.below(5))
		{
		case 0:
		case 1:
			if(n[con] < 20 || con == 1)
			{
				auto const at_ = con == 1 && rng.coin() ? n[1] - rng.below(std::min<size_t>(n[1], 400) + 1) : rng.below(n[con] + 1);
				*e.mutable_card()->mutable_add()->add_places() = fp(static_cast<int>(con), 0x10, at_);
				n[con]++;
				put(e, true);
				break;
			}
			[[fallthrough]];
		case 2:
			if(n[con] == 0)
				continue;
			*e.mutable_card()->mutable_remove()->add_places() =
				fp(static_cast<int>(con), 0x10, n[con] - 1 - rng.below(std::min<size_t>(n[con], 9)));
			n[con]--;
			put(e, true);
			break;
		case 3:
			if(con == 0)
				resize(0, rng.below(12));
			else if(rng.chance(1, 60)) // By what 16 bits see as nothing.
				resize(1, n[1] > 65600 ? n[1] - 65536 : n[1] + 65536);
			break;
		default:
			if(forget)
				continue;
			if(rng.coin())
				e.set_next_turn(static_cast<int>(rng.below(2)));
			else
			{
				e.mutable_lp()->set_controller(static_cast<int>(con));
				e.mutable_lp()->set_become(static_cast<uint32_t>(rng.next()));
			}
			put(e, true);
		}
		if(es.size() % 1500 == 7 || es.size() + 3 > until)
			seen[es.size()] = snap();
	}
	};
	extend(total);
	count("long_histories");
	maxi("long_history", es.size());
	for(unsigned c = 0; c < 2; c++)
		if(pile(static_cast<int>(c)).size() != n[c])
			return violate({"U01", "U02"}, "long:size",
			               "after " + std::to_string(es.size()) + " events a pile has " +
			                   std::to_string(pile(static_cast<int>(c)).size()) + " cards instead of " +
			                   std::to_string(n[c]));
	auto judge = [&](size_t i, char const* prop, char const* how)
	{
		auto it = seen.find(i);
		if(it == seen.end())
			return true;
		count("long_checkpoints");
		if(it->second == snap())
			return true;
		violate({prop}, std::string("long:") + how,
		        std::string(how) + " a history of " + std::to_string(es.size()) +
		            " events back to event " + std::to_string(i) + " gives another board");
		return false;
	};
	at("undoing a long history");
	size_t i = es.size();
	auto const low = rng.below(3000);
	for(; i > low; i--)
	{
		if(!judge(i, "U01", "undoing"))
			return;
		YGOpen::Client::undo_parse_event(*b, es[i - 1]);
	}
	at("redoing a long history");
	for(; i < es.size(); i++)
	{
		if(i > low && !judge(i, "U02", "redoing"))
			return;
		YGOpen::Client::parse_event(*b, es[i]);
	}
	if(!judge(i, "U02", "redoing"))
		return;
	if(forget)
	{
		at("forgetting the end of a long history");
		auto const keep = es.size() - 1 - rng.below(400);
		for(; i > keep; i--)
			YGOpen::Client::undo_parse_event(*b, es[i - 1]);
		b->frame().erase_history();
		es.resize(keep);
		seen.erase(seen.upper_bound(keep), seen.end());
		seen[keep] = snap();
		for(unsigned c = 0; c < 2; c++)
			n[c] = pile(static_cast<int>(c)).size();
		extend(keep + 300);
		count("long_forgotten");
		i = es.size();
		auto const back = keep - 200;
		for(; i > back; i--)
		{
			if(!judge(i, "U03", "undoing a new line of play after"))
				return;
			YGOpen::Client::undo_parse_event(*b, es[i - 1]);
		}
		for(; i < es.size(); i++)
		{
			if(!judge(i, "U03", "redoing a new line of play after"))
				return;
			YGOpen::Client::parse_event(*b, es[i]);
		}
		if(!judge(i, "U03", "redoing a new line of play after"))
			return;
	}
	b.reset();
	if(!watch().error.empty() || !watch().live.empty())
		violate({"F02"}, "lifetime:long", "cards of a long history are not destroyed once");
}

// Events over lists and piles longer than 16 bits can count.
template<typename T>
void giant(Rng& rng)
{
	using Board = YGOpen::Client::BasicBoard<T>;
	using Vec = std::vector<TCard*>;
	at("giant events");
	watch().reset();
	auto b = std::make_unique<Board>();
	static constexpr std::array<std::pair<int, uint32_t>, 3> PILES{{{0, 0x10}, {1, 0x10}, {0, 0x20}}};
	auto at_ = [&](size_t k, uint64_t seq) { return fp(PILES[k].first, PILES[k].second, seq); };
	using State = std::array<Vec, 3>;
	State want;
	std::vector<FEvent> es;
	std::vector<State> states{want};
	auto real = [&](size_t k) -> Vec const& { return std::as_const(*b).frame().pile(at_(k, 0)); };
	std::string hist;
	auto same = [&](State const& w)
	{
		for(size_t k = 0; k < 3; k++)
			if(real(k) != w[k])
				return false;
		return true;
	};
	auto const wide = [&] { return rng.range(65530, 66200); };
	for(int i = 0; i < 9; i++)
	{
		auto const x = i == 0 ? size_t{0} : rng.below(3);
		auto const y = (x + 1 + rng.below(2)) % 3;
		auto& vx = want[x];
		auto& vy = want[y];
		FEvent e;
		size_t grown = 0;
		switch(i == 0 ? 0 : rng.below(8))
		{
		case 0:
		{
			auto const to = rng.coin() || i == 0 ? vx.size() + wide()
			                : T::undoable && vx.size() >= 65536 ? vx.size() - 65536
			                                                    : vx.size() + 3;
			if(to > 400000)
				continue;
			auto* op = e.mutable_board()->mutable_exchange()->mutable_resize()->add_ops();
			*op->mutable_place() = at_(x, 0);
			op->set_count(static_cast<uint32_t>(to));
			hist += "resize ";
			if(to < vx.size())
				vx.resize(to);
			else
				grown = to - vx.size();
			break;
		}
		case 1:
		{
			auto const n = rng.coin() ? vx.size() : rng.below(vx.size() + 1);
			auto const s = rng.below(vx.size() - n + 1);
			auto const d = rng.below(vy.size() + 1);
			auto* op = e.mutable_pile()->mutable_splice()->add_ops();
			*op->mutable_from() = at_(x, s);
			*op->mutable_to() = at_(y, d);
			op->set_count(static_cast<uint32_t>(n));
			op->set_reverse(rng.coin());
			Vec part(vx.begin() + static_cast<long>(s), vx.begin() + static_cast<long>(s + n));
			if(op->reverse())
				std::reverse(part.begin(), part.end());
			vx.erase(vx.begin() + static_cast<long>(s), vx.begin() + static_cast<long>(s + n));
			vy.insert(vy.begin() + static_cast<long>(d), part.begin(), part.end());
			hist += "splice of " + std::to_string(n) + " ";
			break;
		}
		case 2:
		{
			auto* op = e.mutable_pile()->mutable_exchange()->add_ops();
			*op->mutable_place_a() = at_(x, 0);
			*op->mutable_place_b() = at_(y, 0);
			std::swap(vx, vy);
			hist += "pile_swap ";
			break;
		}
		case 3:
			grown = wide();
			for(size_t k = 0; k < grown; k++)
				*e.mutable_card()->mutable_add()->add_places() = at_(x, vx.size() + k);
			hist += "add ";
			break;
		case 4:
		{
			// A plain frame looks for each in all of its cards.
			auto const n = std::min<size_t>(vx.size(), T::undoable ? wide() : rng.range(250, 1500));
			for(size_t k = 0; k < n; k++)
				*e.mutable_card()->mutable_remove()->add_places() = at_(x, vx.size() - 1 - k);
			vx.resize(vx.size() - n);
			hist += "remove ";
			break;
		}
		case 5:
		{
			auto const n = std::min<size_t>(vx.size(), wide());
			for(size_t k = 0; k < n; k++)
			{
				auto* op = e.mutable_card()->mutable_move()->add_ops();
				*op->mutable_old_place() = at_(x, vx.size() - 1);
				*op->mutable_new_place() = at_(y, vy.size());
				vy.push_back(vx.back());
				vx.pop_back();
			}
			hist += "move ";
			break;
		}
		case 6:
		{
			auto const n = vx.empty() || vy.empty() ? 0 : wide();
			for(size_t k = 0; k < n; k++)
			{
				auto const s = rng.below(vx.size()), d = rng.below(vy.size());
				auto* op = e.mutable_card()->mutable_exchange()->add_ops();
				*op->mutable_place_a() = at_(x, s);
				*op->mutable_place_b() = at_(y, d);
				std::swap(vx[s], vy[d]);
			}
			hist += "swap ";
			break;
		}
		default:
		{
			if(!T::undoable) // It would be destroyed one by one.
				for(auto& w : want)
					if(w.size() > 1500)
						goto next;
			auto* s = e.mutable_board()->mutable_state();
			s->set_turn_counter(-1);
			s->add_lps(1);
			s->add_lps(2);
			for(auto& w : want)
				w.clear();
			grown = wide();
			for(size_t k = 0; k < grown; k++)
				*s->mutable_add()->add_places() = at_(x, k);
			hist += "state ";
		}
		}
		if(e.t_case() == 0)
			continue;
		at(hist);
		YGOpen::Client::parse_event(*b, e);
		if(grown != 0)
		{ // Who is new cannot be known, how many can.
			auto const& r = real(x);
			std::set<TCard*> news;
			for(size_t k = vx.size(); k < r.size(); k++)
				news.insert(r[k]);
			if(news.size() != grown)
				return violate({"B01", "B02", "U01", "U02"}, "giant:grown",
				               "a pile got " + std::to_string(news.size()) + " new cards instead of " +
				                   std::to_string(grown) + " by " + hist);
			vx.insert(vx.end(), r.begin() + static_cast<long>(vx.size()), r.end());
		}
		count("giant_events");
		if(!same(want))
			return violate({"B01", "B02"}, "giant", "piles differ after " + hist);
		maxi("giant_pile", std::max({want[0].size(), want[1].size(), want[2].size()}));
		es.push_back(e);
		states.push_back(want);
	next:;
	}
	if constexpr(T::undoable)
	{
		for(int lap = 0; lap < 2; lap++)
		{
			auto i = es.size();
			for(; i > 0; i--)
			{
				at("undoing " + hist);
				YGOpen::Client::undo_parse_event(*b, es[i - 1]);
				if(!same(states[i - 1]))
					return violate({"U01"}, "giant:undo",
					               "undoing event " + std::to_string(i) + " of " + hist +
					                   "gives other piles");
				count("giant_undone");
			}
			for(; i < es.size(); i++)
			{
				at("redoing " + hist);
				YGOpen::Client::parse_event(*b, es[i]);
				if(!same(states[i + 1]))
					return violate({"U02"}, "giant:redo",
					               "redoing event " + std::to_string(i + 1) + " of " + hist +
					                   "gives other piles");
				count("giant_redone");
			}
		}
	}
	at("destroying giant piles");
	b.reset();
	if(!watch().error.empty() || !watch().live.empty())
		violate({"F02"}, "lifetime:giant", "cards of giant piles are not destroyed once");
}

void one(Rng& rng)
{
	if(run().cur % 700 == 333)
		return active({"B01", "B02"}) && rng.coin() ? giant<PlainTraits>(rng)
		                                             : giant<UndoTraits>(rng);
	// Once or twice in a run.
	if(!active({"B01", "B02"}) && run().cur % 1500 == 777)
		return long_history(rng);
	if(active({"B01", "B02"}))
	{
		if(rng.coin())
			Case<PlainTraits>(rng).go(false);
		else
			Case<UndoTraits>(rng).go(false);
		return;
	}
	bool forget = active({"U03"});
	if(active({"F02", "S01"}))
		forget = rng.coin();
	if(forget)
		Forget(rng).go();
	else
		Case<UndoTraits>(rng).go(true);
}

} // namespace

int main(int argc, char** argv) { return drive(argc, argv, one); }
