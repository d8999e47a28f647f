// Monitors of the answer decoder: D01 (format), D02 (round trip), D03 (hostile
// answers, built without assertions).
#include "core_msgs.hpp"
#include "pbfill.hpp"
#include <google/protobuf/arena.h>
#include <ygopen/codec/edo9300_ocgcore_decode.hpp>
#include <ygopen/proto/duel/answer.hpp>

using namespace vf;
namespace OCG = YGOpen::Codec::Edo9300::OCGCore;
using Answer = YGOpen::Proto::Duel::Answer;
using Bytes = std::vector<uint8_t>;

namespace
{

// The output as a caller may hand it over: with leftovers, with or without
// room to spare.
Bytes used_buffer(Rng& r)
{
	Bytes b;
	if(r.chance(1, 3))
		return b;
	auto n = r.below(r.coin() ? 12 : 700);
	for(uint64_t i = 0; i < n; i++)
		b.push_back(static_cast<uint8_t>(r.next()));
	if(r.coin())
		b.shrink_to_fit();
	else
		b.reserve(b.size() + r.below(64));
	return b;
}

Bytes decode(Rng& r, Request const& rq, Answer const& a)
{
	auto out = used_buffer(r);
	OCG::decode_one_answer(rq, a, out);
	return out;
}

Bytes i32(uint32_t v)
{
	W w;
	w.u32(v);
	return w.b;
}

Bytes u64(uint64_t v)
{
	W w;
	w.u64(v);
	return w.b;
}

template<typename T>
bool get(Bytes const& b, size_t off, T& v)
{
	if(off + sizeof(T) > b.size())
		return false;
	std::memcpy(&v, b.data() + off, sizeof(T));
	return true;
}

// Reads a response of exactly one int32.
bool one_i32(Bytes const& b, int32_t& v) { return b.size() == 4 && get(b, 0, v); }

void expect(Request const& rq, Answer const& a, Bytes const& got, Bytes const& want,
            std::string const& kind)
{
	count("responses");
	count("answer_" + kind);
	distinct(kind + hex(want.data(), want.size(), 64));
	if(got != want)
		violate({"D01", "D02"}, "response:" + kind,
		        kind + ": response " + hex(got.data(), got.size()) + " instead of " +
		            hex(want.data(), want.size()) + " for answer " + a.ShortDebugString() +
		            " to " + rq.ShortDebugString().substr(0, 600));
}

// ------------------------------------------------------------------- D01
void format_case(Rng& r)
{
	Request rq;
	Answer a;
	rq.set_replier(static_cast<int>(r.below(2)));
	std::string kind;
	Bytes want;
	switch(run().cur % 24)
	{
	case 0:
	{
		kind = "attribute";
		rq.mutable_select_attribute()->set_count(1);
		auto v = r.any<uint32_t>();
		a.set_select_attribute(v);
		want = i32(v);
		break;
	}
	case 1:
	case 2:
	{
		bool const fin = run().cur % 24 == 1;
		kind = fin ? "card_finish" : "card_cancel";
		auto* q = rq.mutable_select_card();
		switch(r.below(5))
		{
		case 0: q->mutable_limbo(); break;
		case 1: q->mutable_recursive(); break;
		case 2: q->mutable_unique_range(); break;
		case 3: q->mutable_unique_sum(); break;
		default: q->mutable_unique_tributes();
		}
		// Being there is what counts.
		bool const v = r.chance(5, 6);
		if(fin)
			a.mutable_select_card()->set_finish(v);
		else
			a.mutable_select_card()->set_cancel(v);
		want = i32(0xFFFFFFFFU);
		break;
	}
	case 3:
	case 4:
	case 5:
	{
		kind = "card_indexes";
		auto* q = rq.mutable_select_card();
		switch(r.below(4))
		{
		case 0: q->mutable_limbo(); break;
		case 1: q->mutable_unique_range(); break;
		case 2: q->mutable_unique_sum(); break;
		default: q->mutable_unique_tributes();
		}
		auto n = std::max(1U, g_count(r));
		if(r.chance(1, 100))
			n = static_cast<uint32_t>(r.pick({32767, 32768, 65535, 65536, 65600}));
		W w;
		w.u32(1).u32(n);
		for(uint32_t i = 0; i < n; i++)
		{
			auto v = r.chance(1, 5) ? r.any<uint16_t>() & 0x7FFFU : r.below(300);
			a.mutable_select_card()->mutable_indexes()->add_values(v);
			w.u16(v);
		}
		maxi("indexes", n);
		want = w.b;
		break;
	}
	case 6:
	{
		kind = "card_recursive";
		auto* q = rq.mutable_select_card()->mutable_recursive();
		q->set_can_finish(r.coin());
		auto v = r.chance(1, 2) ? r.any<uint32_t>() & 0x7FFFFFFFU : r.below(60);
		a.mutable_select_card()->mutable_indexes()->add_values(v);
		W w;
		w.u32(1).u32(v);
		want = w.b;
		break;
	}
	case 7:
	{
		kind = "card_code";
		rq.mutable_select_card_code();
		auto v = r.any<uint32_t>();
		a.set_select_card_code(v);
		want = i32(v);
		break;
	}
	case 8:
	{
		kind = "effect";
		rq.mutable_select_effect();
		auto v = r.any<uint32_t>();
		a.set_select_effect(v);
		want = i32(v);
		break;
	}
	case 9:
	{
		kind = "idle_shuffle";
		rq.mutable_select_idle()->set_can_shuffle(true);
		a.mutable_select_idle()->set_shuffle(r.chance(5, 6));
		want = i32(8);
		break;
	}
	case 10:
	case 11:
	{
		bool const battle = r.coin();
		bool const end = r.coin();
		kind = std::string(battle ? "battle" : "idle") + (end ? "_end" : "_next");
		rq.mutable_select_idle()->set_is_battle_cmd(battle);
		rq.mutable_select_idle()->set_available_phase(end ? 0x200 : battle ? 0x100 : 0x80);
		a.mutable_select_idle()->set_phase(end ? 0x200U : battle ? 0x100U : 0x80U);
		want = i32(battle ? (end ? 3 : 2) : (end ? 7 : 6));
		break;
	}
	case 12:
	case 13:
	case 14:
	case 15:
	{
		bool const battle = r.coin();
		rq.mutable_select_idle()->set_is_battle_cmd(battle);
		struct Act
		{
			Answer::SelectIdle::Action a;
			uint32_t t;
			char const* n;
		};
		static const std::vector<Act> B{{Answer::SelectIdle::ACTION_ACTIVATE, 0, "activate"},
		                                {Answer::SelectIdle::ACTION_ATTACK, 1, "attack"}};
		static const std::vector<Act> I{{Answer::SelectIdle::ACTION_ACTIVATE, 5, "activate"},
		                                {Answer::SelectIdle::ACTION_SUMMON, 0, "summon"},
		                                {Answer::SelectIdle::ACTION_SPSUMMON, 1, "spsummon"},
		                                {Answer::SelectIdle::ACTION_REPOSITION, 2, "reposition"},
		                                {Answer::SelectIdle::ACTION_MSET, 3, "mset"},
		                                {Answer::SelectIdle::ACTION_SSET, 4, "sset"}};
		auto const& x = r.pick(battle ? B : I);
		kind = std::string(battle ? "battle_" : "idle_") + x.n;
		auto idx = r.chance(1, 3) ? r.any<uint16_t>() : r.below(300);
		auto* ca = a.mutable_select_idle()->mutable_card_action();
		ca->set_action(x.a);
		ca->set_index(idx);
		want = i32((static_cast<uint32_t>(idx) << 16) | x.t);
		break;
	}
	case 16:
	{
		kind = "number";
		rq.mutable_select_number();
		auto v = r.any<uint32_t>();
		a.set_select_number(v);
		want = i32(v);
		break;
	}
	case 17:
	{
		kind = "position";
		rq.mutable_select_position();
		auto v = r.any<uint32_t>();
		a.set_select_position(v);
		want = i32(v);
		break;
	}
	case 18:
	{
		// Races have 64 bits, in the request as in the response.
		kind = "race";
		rq.mutable_select_race()->set_count(1);
		auto v = r.any<uint64_t>();
		a.set_select_race(v);
		want = u64(v);
		break;
	}
	case 19:
	{
		kind = "rps";
		rq.set_select_rock_paper_scissors(true);
		auto v = r.chance(3, 4) ? r.range(1, 3) : r.any<uint32_t>();
		a.set_select_rock_paper_scissors(static_cast<int32_t>(v));
		want = i32(static_cast<uint32_t>(v));
		break;
	}
	case 20:
	{
		rq.mutable_select_to_chain()->set_forced(r.coin());
		if(r.chance(1, 3))
		{
			kind = "chain_none";
			a.mutable_select_to_chain()->set_no_op(r.chance(5, 6));
			want = i32(0xFFFFFFFFU);
		}
		else
		{
			kind = "chain";
			auto v = r.chance(1, 2) ? r.any<uint32_t>() : r.below(300);
			a.mutable_select_to_chain()->set_index(v);
			want = i32(v);
		}
		break;
	}
	case 21:
	{
		kind = "yes_no";
		rq.mutable_select_yes_no();
		bool v = r.coin();
		a.set_select_yes_no(v);
		want = i32(v ? 1 : 0);
		break;
	}
	case 22:
	{
		kind = "zone";
		a.mutable_select_zone();
		auto* q = rq.mutable_select_zone();
		auto n = r.chance(1, 12) ? r.below(60) : r.range(1, 5);
		q->set_blocking(r.coin());
		q->set_count(static_cast<uint32_t>(n));
		W w;
		for(uint64_t i = 0; i < n; i++)
		{
			auto con = r.below(2);
			bool const mz = r.coin();
			auto seq = r.below(mz ? 7 : 8);
			CorePlace c{static_cast<uint8_t>(con),
			            static_cast<uint8_t>(mz ? CL_MZONE : CL_SZONE),
			            static_cast<uint32_t>(seq), 0};
			auto* p = a.mutable_select_zone()->add_places();
			to_place(c, *p, false);
			if(r.coin()) // Clients may leave it at its default.
				p->set_oseq(0);
			*q->add_places() = *p;
			w.u8(con).u8(c.loc).u8(seq);
			if(!mz && seq == 5) count("zone_field");
			if(!mz && seq > 5) count("zone_pendulum");
		}
		want = w.b;
		break;
	}
	default:
	{
		rq.mutable_sort();
		if(r.chance(1, 4))
		{
			kind = "sort_skip";
			a.mutable_sort()->set_skip(r.chance(5, 6));
			want = i32(0xFFFFFFFFU);
			break;
		}
		kind = "sort";
		auto n = r.chance(1, 5) ? r.range(100, 127) : r.range(1, 20);
		std::vector<uint32_t> v;
		for(uint32_t i = 0; i < n; i++)
		{
			v.push_back(i);
			rq.mutable_sort()->add_places();
		}
		r.shuffle(v);
		W w;
		w.u8(n);
		for(auto x : v)
		{
			w.u8(x);
			a.mutable_sort()->mutable_indexes()->add_values(x);
		}
		want = w.b;
	}
	}
	at(kind);
	auto got = decode(r, rq, a);
	expect(rq, a, got, want, kind);
	if(run().evaluations % 997 == 0)
		sample(kind + ": " + a.ShortDebugString().substr(0, 200) + " -> " +
		       hex(got.data(), got.size(), 40));
}

// ------------------------------------------------------------------- D02
struct Trip
{
	Rng& r;
	Case const& c;
	Request const& want; // What the core offered.
	Request const& got;  // What the player was offered.

	Bytes answer(Answer const& a)
	{
		count("round_trips");
		return decode(r, got, a);
	}
	void bad(std::string const& what, Bytes const& b, Answer const& a)
	{
		violate({"D02"}, "choice:" + c.name,
		        c.name + ": " + what + "; answer " + a.ShortDebugString() + ", response " +
		            hex(b.data(), b.size()) + "; core message " +
		            hex(c.bytes.data(), c.bytes.size()) + "; request " +
		            got.ShortDebugString().substr(0, 500));
	}
	template<typename M>
	static bool same(M const& a, M const& b)
	{
		return a.SerializeAsString() == b.SerializeAsString();
	}

	// A list answered with one idle/battle command.
	template<typename L>
	void commands(L const& w, L const& g, Answer::SelectIdle::Action act, uint32_t t)
	{
		if(g.size() != w.size())
		{
			violate({"D02"}, "offered:" + c.name, c.name + ": another number of choices");
			return;
		}
		for(int k = 0; k < 12 && k < g.size(); k++)
		{
			int const i = g.size() <= 12 ? k
			                             : static_cast<int>(r.below(static_cast<uint64_t>(g.size())));
			Answer a;
			auto* x = a.mutable_select_idle()->mutable_card_action();
			x->set_action(act);
			x->set_index(static_cast<uint32_t>(i));
			auto b = answer(a);
			uint32_t v = 0;
			if(b.size() != 4 || !get(b, 0, v) || (v & 0xFFFFU) != t ||
			   static_cast<int>(v >> 16) >= w.size() ||
			   !same(w.Get(static_cast<int>(v >> 16)), g.Get(i)))
				bad("another command than the one chosen", b, a);
			count("trip_command");
		}
	}
	void phase(uint32_t ph, bool offered, int32_t code)
	{
		bool const in = (got.select_idle().available_phase() & ph) != 0;
		if(in != offered)
			violate({"D02"}, "phase:" + c.name, c.name + ": phase offered wrongly");
		if(!in)
			return;
		Answer a;
		a.mutable_select_idle()->set_phase(ph);
		auto b = answer(a);
		int32_t v = 0;
		if(!one_i32(b, v) || v != code)
			bad("another phase than the one chosen", b, a);
		count("trip_phase");
	}
	// Several cards of a list, each of them identified by what was offered.
	template<typename L>
	void cards(L const& w, L const& g)
	{
		if(g.size() != w.size())
		{
			violate({"D02"}, "offered:" + c.name, c.name + ": another number of choices");
			return;
		}
		if(g.empty())
			return;
		std::vector<uint32_t> pick;
		for(int i = 0; i < g.size(); i++)
			pick.push_back(static_cast<uint32_t>(i));
		r.shuffle(pick);
		pick.resize(1 + r.below(pick.size()));
		Answer a;
		for(auto i : pick)
			a.mutable_select_card()->mutable_indexes()->add_values(i);
		auto b = answer(a);
		uint32_t t = 9, n = 0;
		if(!get(b, 0, t) || !get(b, 4, n) || t > 2 || n != pick.size())
			return bad("not a list of as many choices", b, a);
		size_t const width = t == 0 ? 4 : t == 1 ? 2 : 1;
		if(b.size() != 8 + width * n)
			return bad("wrong size", b, a);
		for(uint32_t i = 0; i < n; i++)
		{
			uint32_t v = 0;
			std::memcpy(&v, b.data() + 8 + i * width, width);
			if(v >= static_cast<uint32_t>(w.size()))
				return bad("a card that was not offered", b, a);
			if constexpr(std::is_integral_v<std::decay_t<decltype(w.Get(0))>>)
			{
				if(w.Get(static_cast<int>(v)) != g.Get(static_cast<int>(pick[i])))
					return bad("another card than the one chosen", b, a);
			}
			else if(!same(w.Get(static_cast<int>(v)), g.Get(static_cast<int>(pick[i]))))
				return bad("another card than the one chosen", b, a);
			count("trip_card");
		}
	}
	void recursive()
	{
		auto const& w = want.select_card().recursive();
		auto const& g = got.select_card().recursive();
		std::vector<std::string> offered, shown;
		for(auto const& x : w.selectable_cards()) offered.push_back("s" + x.SerializeAsString());
		for(auto const& x : w.deselectable_cards()) offered.push_back("d" + x.SerializeAsString());
		for(auto const& x : g.selectable_cards()) shown.push_back("s" + x.SerializeAsString());
		for(auto const& x : g.deselectable_cards()) shown.push_back("d" + x.SerializeAsString());
		for(size_t k = 0; k < shown.size() && k < 12; k++)
		{
			size_t const i = shown.size() <= 12 ? k : r.below(shown.size());
			Answer a;
			a.mutable_select_card()->mutable_indexes()->add_values(static_cast<uint32_t>(i));
			auto b = answer(a);
			int32_t t = 0, v = -1;
			if(b.size() != 8 || !get(b, 0, t) || !get(b, 4, v) || t != 1 || v < 0 ||
			   static_cast<size_t>(v) >= offered.size() ||
			   offered[static_cast<size_t>(v)] != shown[i])
				bad("another card than the one chosen", b, a);
			count("trip_recursive");
		}
	}
	void index_i32(int n, std::function<void(Answer&, uint32_t)> const& set,
	               std::function<bool(int, int)> const& same_item)
	{
		for(int k = 0; k < 12 && k < n; k++)
		{
			int const i = n <= 12 ? k : static_cast<int>(r.below(static_cast<uint64_t>(n)));
			Answer a;
			set(a, static_cast<uint32_t>(i));
			auto b = answer(a);
			int32_t v = -1;
			if(!one_i32(b, v) || v < 0 || v >= n || !same_item(v, i))
				bad("another choice than the one made", b, a);
			count("trip_index");
		}
	}
	void zones()
	{
		uint32_t bits = 0;
		std::memcpy(&bits, c.bytes.data() + 3, 4);
		auto const player = c.bytes[1];
		std::set<unsigned> seen;
		auto const& places = got.select_zone().places();
		auto judge = [&](Bytes const& b, size_t off, Answer const& a) -> int
		{
			uint8_t const con = b[off], loc = b[off + 1], seq = b[off + 2];
			if(con > 1 || (loc != CL_MZONE && loc != CL_SZONE) || seq > 7)
			{
				bad("no zone of the core", b, a);
				return -1;
			}
			unsigned const bit =
				seq + (con == player ? 0U : 16U) + (loc == CL_SZONE ? 8U : 0U);
			if((bits >> bit) & 1U)
				bad("a zone that was not offered", b, a);
			count("trip_zone");
			if(loc == CL_SZONE && seq == 5) count("trip_zone_field");
			if(loc == CL_SZONE && seq > 5) count("trip_zone_pendulum");
			return static_cast<int>(bit);
		};
		for(auto const& p : places)
		{
			Answer a;
			*a.mutable_select_zone()->add_places() = p;
			auto b = answer(a);
			if(b.size() != 3)
				return bad("wrong size", b, a);
			int bit = judge(b, 0, a);
			if(bit >= 0 && !seen.insert(static_cast<unsigned>(bit)).second)
				bad("two offered zones lead to the same one", b, a);
			// And it is the very zone the player saw.
			CorePlace cp{b[0], b[1], b[2], 0};
			auto back = place_of(cp, false);
			if(back.con() != p.con() || back.loc() != p.loc() || back.seq() != p.seq())
				bad("another zone than the one chosen", b, a);
		}
		for(unsigned s = 0; s < 32; s++)
			if((s & 15U) != 7 && !((bits >> s) & 1U) && seen.count(s) == 0)
				violate({"D02"}, "zone:" + c.name,
				        c.name + ": zone bit " + std::to_string(s) +
				            " offered by the core cannot be chosen");
		if(places.size() > 1)
		{
			Answer a;
			std::vector<int> order;
			for(int i = 0; i < places.size(); i++)
				order.push_back(i);
			r.shuffle(order);
			for(int i : order)
				*a.mutable_select_zone()->add_places() = places.Get(i);
			auto b = answer(a);
			if(b.size() != order.size() * 3)
				return bad("wrong size", b, a);
			for(size_t i = 0; i < order.size(); i++)
			{
				CorePlace cp{b[3 * i], b[3 * i + 1], b[3 * i + 2], 0};
				auto back = place_of(cp, false);
				auto const& p = places.Get(order[i]);
				if(judge(b, 3 * i, a) < 0)
					return;
				if(back.con() != p.con() || back.loc() != p.loc() || back.seq() != p.seq())
					return bad("another zone than the one chosen", b, a);
			}
		}
	}

	void go()
	{
		using A = Answer::SelectIdle;
		switch(got.t_case())
		{
		case Request::kSelectCard:
		{
			auto const& w = want.select_card();
			auto const& g = got.select_card();
			if(w.t_case() != g.t_case())
			{
				violate({"D02"}, "kind:" + c.name, c.name + ": another kind of selection");
				return;
			}
			Answer a;
			a.mutable_select_card()->set_cancel(true);
			auto b = answer(a);
			int32_t v = 0;
			if(!one_i32(b, v) || v != -1)
				bad("not a cancel", b, a);
			a.mutable_select_card()->set_finish(true);
			b = answer(a);
			if(!one_i32(b, v) || v != -1)
				bad("not a finish", b, a);
			if(g.has_limbo())
				cards(w.limbo().card_codes(), g.limbo().card_codes());
			else if(g.has_unique_range())
				cards(w.unique_range().cards(), g.unique_range().cards());
			else if(g.has_unique_sum())
				cards(w.unique_sum().cards(), g.unique_sum().cards());
			else if(g.has_unique_tributes())
				cards(w.unique_tributes().cards(), g.unique_tributes().cards());
			else
				recursive();
			break;
		}
		case Request::kSelectIdle:
		{
			auto const& w = want.select_idle();
			auto const& g = got.select_idle();
			auto const n = c.bytes.size();
			if(w.is_battle_cmd())
			{
				commands(w.activable_cards(), g.activable_cards(), A::ACTION_ACTIVATE, 0);
				commands(w.can_attack_cards(), g.can_attack_cards(), A::ACTION_ATTACK, 1);
				phase(0x100, c.bytes[n - 2] != 0, 2);
				phase(0x200, c.bytes[n - 1] != 0, 3);
				break;
			}
			commands(w.summonable_cards(), g.summonable_cards(), A::ACTION_SUMMON, 0);
			commands(w.spsummonable_cards(), g.spsummonable_cards(), A::ACTION_SPSUMMON, 1);
			commands(w.repositionable_cards(), g.repositionable_cards(), A::ACTION_REPOSITION, 2);
			commands(w.msetable_cards(), g.msetable_cards(), A::ACTION_MSET, 3);
			commands(w.ssetable_cards(), g.ssetable_cards(), A::ACTION_SSET, 4);
			commands(w.activable_cards(), g.activable_cards(), A::ACTION_ACTIVATE, 5);
			phase(0x80, c.bytes[n - 3] != 0, 6);
			phase(0x200, c.bytes[n - 2] != 0, 7);
			if(g.can_shuffle())
			{
				Answer a;
				a.mutable_select_idle()->set_shuffle(true);
				auto b = answer(a);
				int32_t v = 0;
				if(!one_i32(b, v) || v != 8)
					bad("not a shuffle", b, a);
				count("trip_shuffle");
			}
			break;
		}
		case Request::kSelectZone: zones(); break;
		case Request::kSelectEffect:
		{
			auto const& w = want.select_effect().effects();
			auto const& g = got.select_effect().effects();
			if(w.size() != g.size())
				return violate({"D02"}, "offered:" + c.name, c.name + ": other effects");
			index_i32(
				g.size(), [](Answer& a, uint32_t i) { a.set_select_effect(i); },
				[&](int v, int i) { return same(w.Get(v), g.Get(i)); });
			break;
		}
		case Request::kSelectNumber:
		{
			auto const& w = want.select_number().numbers();
			auto const& g = got.select_number().numbers();
			if(w.size() != g.size())
				return violate({"D02"}, "offered:" + c.name, c.name + ": other numbers");
			index_i32(
				g.size(), [](Answer& a, uint32_t i) { a.set_select_number(i); },
				[&](int v, int i) { return w.Get(v) == g.Get(i); });
			break;
		}
		case Request::kSelectToChain:
		{
			auto const& w = want.select_to_chain().activable_cards();
			auto const& g = got.select_to_chain().activable_cards();
			if(w.size() != g.size())
				return violate({"D02"}, "offered:" + c.name, c.name + ": other cards");
			index_i32(
				g.size(),
				[](Answer& a, uint32_t i) { a.mutable_select_to_chain()->set_index(i); },
				[&](int v, int i) { return same(w.Get(v), g.Get(i)); });
			Answer a;
			a.mutable_select_to_chain()->set_no_op(true);
			auto b = answer(a);
			int32_t v = 0;
			if(!one_i32(b, v) || v != -1)
				bad("not a refusal", b, a);
			break;
		}
		case Request::kSort:
		{
			auto const n = got.sort().places_size();
			if(n != want.sort().places_size())
				return violate({"D02"}, "offered:" + c.name, c.name + ": other cards");
			// The core sorts at most 64 cards.
			if(n > 64)
				break;
			std::vector<uint32_t> v;
			Answer a;
			for(int i = 0; i < n; i++)
				v.push_back(static_cast<uint32_t>(i));
			r.shuffle(v);
			a.mutable_sort()->mutable_indexes();
			for(auto x : v)
				a.mutable_sort()->mutable_indexes()->add_values(x);
			auto b = answer(a);
			// The order comes last, whatever precedes it.
			if(b.size() < v.size())
				return bad("wrong size", b, a);
			for(size_t i = 0; i < v.size(); i++)
			{
				auto x = b[b.size() - v.size() + i];
				if(x >= n ||
				   !same(want.sort().places(x), got.sort().places(static_cast<int>(v[i]))) ||
				   x != v[i])
					return bad("another order than the one chosen", b, a);
			}
			count("trip_sort");
			break;
		}
		default:
		{
			// Masks and numbers are answered with the offered value itself.
			Answer a;
			uint32_t v = 0;
			if(got.has_select_race())
			{
				uint64_t const race = got.select_race().race() & r.next();
				a.set_select_race(race);
				auto b = answer(a);
				if(b != u64(race))
					bad("another value than the one chosen", b, a);
				count("trip_race");
				return;
			}
			if(got.has_select_attribute())
				a.set_select_attribute(v = got.select_attribute().attribute() &
				                           static_cast<uint32_t>(r.next()));
			else if(got.has_select_position())
				a.set_select_position(v = got.select_position().position() &
				                          static_cast<uint32_t>(r.next()));
			else if(got.has_select_yes_no())
				a.set_select_yes_no((v = static_cast<uint32_t>(r.below(2))) != 0);
			else if(got.t_case() == Request::kSelectRockPaperScissors)
				a.set_select_rock_paper_scissors(
					static_cast<int32_t>(v = static_cast<uint32_t>(r.range(1, 3))));
			else
				return;
			auto b = answer(a);
			if(b != i32(v))
				bad("another value than the one chosen", b, a);
			count("trip_value");
		}
		}
	}
};

void trip_case(Rng& r)
{
	static std::vector<MsgKind const*> const kinds = []
	{
		std::vector<MsgKind const*> v;
		for(auto const& k : all_kinds())
			if(k.kind == Kind::REQUEST)
				v.push_back(&k);
		return v;
	}();
	auto c = make_case(r, *kinds[run().cur % kinds.size()]);
	at(c.name);
	MockCtx ctx;
	if(c.setup)
		c.setup(ctx);
	google::protobuf::Arena arena;
	auto res = OCG::encode_one(arena, ctx, c.bytes.data());
	count("request_" + c.name);
	distinct(c.name + c.shape + std::to_string(fnv(hex(c.bytes.data(), c.bytes.size())) % 4096));
	if(res.state != St::OK || res.msg == nullptr || !res.msg->has_request() ||
	   res.msg->request().t_case() != c.want.request().t_case())
	{
		violate({"D02"}, "request:" + c.name,
		        c.name + ": not encoded as the request it is");
		return;
	}
	// The client sees the serialised form, the server keeps its own copy.
	Request got;
	if(!got.ParseFromString(res.msg->request().SerializeAsString()))
	{
		violate({"D02"}, "wire:" + c.name, c.name + ": request does not survive the wire");
		return;
	}
	Trip{r, c, c.want.request(), got}.go();
	if(run().evaluations % 499 == 0)
		sample(c.name + " offered " + got.ShortDebugString().substr(0, 300));
}

// ------------------------------------------------------------------- D03
void hostile_case(Rng& r)
{
	Request rq;
	Answer a;
	FillOpts o;
	o.wild_enums = true;
	o.max_repeat = r.chance(1, 10) ? 80 : 3;
	o.small = r.coin();
	if(r.chance(1, 2))
	{
		auto c = make_case(r, all_kinds()[r.below(all_kinds().size())]);
		if(c.kind == Kind::REQUEST)
			rq = c.want.request();
		else
			pb_fill(r, rq, o);
	}
	else
		pb_fill(r, rq, o);
	if(r.chance(1, 40))
		rq.Clear();
	pb_fill(r, a, o);
	if(r.chance(1, 3))
	{
		// As bytes from the network, damaged.
		auto s = a.SerializeAsString();
		for(auto k = r.range(1, 4); k > 0 && !s.empty(); k--)
		{
			auto i = r.below(s.size());
			switch(r.below(4))
			{
			case 0: s[i] = static_cast<char>(r.next()); break;
			case 1: s.erase(i, 1 + r.below(4)); break;
			case 2: s.insert(i, 1, static_cast<char>(r.next())); break;
			default: s[i] = static_cast<char>(s[i] ^ (1 << r.below(8)));
			}
		}
		Answer b;
		if(b.ParseFromString(s))
		{
			a = b;
			count("damaged_but_parsed");
		}
	}
	if(r.chance(1, 20))
		a.mutable_select_card()->mutable_indexes();
	if(r.chance(1, 30))
	{
		auto* v = a.mutable_sort()->mutable_indexes();
		for(auto n = r.range(200, 600); n > 0; n--)
			v->add_values(r.any<uint32_t>());
	}
	if(r.chance(1, 30))
	{
		auto* v = a.mutable_select_zone();
		for(auto n = r.range(200, 600); n > 0; n--)
			pb_fill(r, *v->add_places(), o);
	}
	if(r.chance(1, 400))
	{
		auto const n = r.pick({32766, 32768, 65535, 65537, 70000}) +
		               static_cast<int>(r.below(3));
		switch(r.below(3))
		{
		case 0:
			rq.mutable_select_card()->mutable_unique_range();
			a.mutable_select_card()->mutable_indexes()->mutable_values()->Resize(
				n, r.any<uint32_t>());
			break;
		case 1:
			a.mutable_sort()->mutable_indexes()->mutable_values()->Resize(n, r.any<uint32_t>());
			break;
		default:
			for(int i = 0; i < n; i++)
				a.mutable_select_zone()->add_places()->set_con(i & 1);
		}
		count("huge_answers");
	}
	auto sig = std::to_string(a.t_case()) + "/" + std::to_string(rq.t_case());
	bool const matches = [&]
	{
		auto const* f = rq.GetDescriptor()->FindFieldByNumber(rq.t_case());
		auto const* g = a.GetDescriptor()->FindFieldByNumber(a.t_case());
		return f != nullptr && g != nullptr && f->name() == g->name();
	}();
	count(matches ? "hostile_matching" : "hostile_mismatched");
	if(a.has_select_card())
		sig += "c" + std::to_string(a.select_card().t_case()) +
		       std::to_string(rq.select_card().t_case()) +
		       (a.select_card().indexes().values_size() == 0 ? "e" : "");
	if(a.has_select_idle())
		sig += "i" + std::to_string(a.select_idle().t_case()) + "a" +
		       std::to_string(a.select_idle().card_action().action() % 16);
	at("answer " + sig);
	auto before = used_buffer(r);
	auto out = before;
	OCG::decode_one_answer(rq, a, out);
	count("answers");
	distinct(sig + std::to_string(out.size()));
	bool const empty =
		a.t_case() == Answer::T_NOT_SET || a.has_select_counter() ||
		(a.has_select_card() && a.select_card().t_case() == Answer::SelectCard::T_NOT_SET) ||
		(a.has_select_idle() && a.select_idle().t_case() == Answer::SelectIdle::T_NOT_SET) ||
		(a.has_select_to_chain() &&
	     a.select_to_chain().t_case() == Answer::SelectToChain::T_NOT_SET);
	if(empty)
		count("empty_or_unsupported");
	if(empty && out != before)
		violate({"D03"}, "empty:" + sig,
		        "an empty or unsupported answer changed the output: " + a.ShortDebugString());
	// Touch every byte.
	uint64_t sum = 0;
	for(auto x : out)
		sum += x;
	maxi("response_size", out.size());
	if(run().evaluations % 1999 == 0)
		sample("answer " + a.ShortDebugString().substr(0, 200) + " -> " +
		       hex(out.data(), out.size(), 24) + " sum " + std::to_string(sum));
}

} // namespace

int main(int argc, char** argv)
{
	return drive(argc, argv,
	             [](Rng& r)
	             {
					 if(active({"D01"}))
						 format_case(r);
					 else if(active({"D02"}))
						 trip_case(r);
					 else if(active({"D03"}))
						 hostile_case(r);
					 else if(r.coin())
						 format_case(r);
					 else
						 trip_case(r);
				 });
}
