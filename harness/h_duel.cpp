// A model of the core plays random duels and emits core messages; the encoder
// translates them; the server context and clients fed with the serialised
// stream must mirror the core's field. C06, C07, S04 (and S01).
#include "core_msgs.hpp"
#include "msgcmp.hpp"
#include <google/protobuf/arena.h>
#include <unordered_map>
#include <ygopen/client/board.hpp>
#include <ygopen/client/card.hpp>
#include <ygopen/client/frame.hpp>
#include <ygopen/client/parse_event.hpp>
#include <ygopen/client/parse_query.hpp>
#include <ygopen/codec/edo9300_ocgcore_encode.hpp>
#include <ygopen/server/basic_encode_context.hpp>

using namespace vf;
namespace OCG = YGOpen::Codec::Edo9300::OCGCore;
using YGOpen::Duel::Controller;
using YGOpen::Duel::Location;

namespace
{

using Card = YGOpen::Client::BasicCard<YGOpen::Client::DefaultCardTraits>;
using Frame = YGOpen::Client::BasicFrame<Card>;

struct BoardTraits
{
	using BlockedZonesType = std::vector<PPlace>;
	using ChainStackType = std::vector<YGOpen::Proto::Duel::Chain>;
	using FrameType = Frame;
	using LPType = uint32_t;
	using PhaseType = YGOpen::Duel::Phase;
	using TurnControllerType = YGOpen::Duel::Controller;
	using TurnType = uint32_t;
};
using Board = YGOpen::Client::BasicBoard<BoardTraits>;

constexpr uint32_t PILES[] = {CL_DECK, CL_HAND, CL_GRAVE, CL_REMOVED, CL_EXTRA};

// ------------------------------------------------------------ the core model
struct Zone
{
	int id = -1;
	std::vector<int> mats;
};

struct Side
{
	std::map<uint32_t, std::vector<int>> pile;
	std::array<Zone, 7> mz;
	std::array<Zone, 8> sz;
};

struct Core
{
	std::array<Side, 2> side;
	std::array<uint32_t, 2> lp{};
	std::vector<YGOpen::Proto::Duel::Chain> chain;
	std::vector<PPlace> blocked;
	uint32_t turn = 0;
	int turn_con = 0;
	uint32_t phase = 0;
	bool any_turn = false, any_phase = false, any_blocked = false;
	int next_id = 1;
	int fresh() { return next_id++; }

	Zone& zone(int con, bool mzone, uint32_t seq)
	{
		return mzone ? side[con].mz[seq] : side[con].sz[seq];
	}
	size_t cards() const
	{
		size_t n = 0;
		for(auto const& s : side)
		{
			for(auto const& p : s.pile)
				n += p.second.size();
			for(auto const& z : s.mz)
				n += (z.id >= 0) + z.mats.size();
			for(auto const& z : s.sz)
				n += (z.id >= 0) + z.mats.size();
		}
		return n;
	}
};

struct ZRef
{
	int con;
	bool mz;
	uint32_t seq;
	bool operator==(ZRef const& o) const
	{
		return con == o.con && mz == o.mz && seq == o.seq;
	}
};

CorePlace zplace(ZRef z, int oseq = -1, uint32_t pos = 1)
{
	CorePlace p;
	p.con = static_cast<uint8_t>(z.con);
	p.loc = z.mz ? CL_MZONE : CL_SZONE;
	p.seq = z.seq;
	p.pos = pos;
	if(oseq >= 0)
	{
		p.loc |= CL_OVERLAY;
		p.pos = static_cast<uint32_t>(oseq);
	}
	return p;
}

CorePlace pplace(int con, uint32_t loc, size_t seq, int oseq = -1, uint32_t pos = 1)
{
	CorePlace p;
	p.con = static_cast<uint8_t>(con);
	p.loc = static_cast<uint8_t>(loc);
	p.seq = static_cast<uint32_t>(seq);
	p.pos = pos;
	if(oseq >= 0)
	{
		p.loc |= CL_OVERLAY;
		p.pos = static_cast<uint32_t>(oseq);
	}
	return p;
}

// ------------------------------------------------- what a client sees of it
struct Replica
{
	Board board;
	bool from_start = true;
	std::unordered_map<int, Card const*> at;
	std::unordered_map<Card const*, int> who;

	void forget(int id)
	{
		auto it = at.find(id);
		if(it == at.end())
			return;
		who.erase(it->second);
		at.erase(it);
	}
	void forget_all()
	{
		at.clear();
		who.clear();
	}
	std::string same(int id, Card const* c, std::string const& where)
	{
		if(c == nullptr)
			return where + ": no card where the core has one";
		auto it = at.find(id);
		if(it == at.end())
		{
			auto w = who.find(c);
			if(w != who.end())
				return where + ": a different card (the one known as #" +
				       std::to_string(w->second) + ")";
			at[id] = c;
			who[c] = id;
			return "";
		}
		if(it->second != c)
		{
			auto w = who.find(c);
			return where + ": expected card #" + std::to_string(id) + ", found " +
			       (w == who.end() ? std::string("an unknown one")
			                       : "#" + std::to_string(w->second));
		}
		return "";
	}
};

std::string pl(int con, uint32_t loc, uint32_t seq)
{
	return "player " + std::to_string(con) + " location " + std::to_string(loc) +
	       " sequence " + std::to_string(seq);
}

// Compares frame and core; identity included. `mats_only` narrows to material
// lists.
std::string compare(Core& core, Replica& r, bool& in_materials, uint64_t& seen)
{
	in_materials = false;
	Frame const& f = r.board.frame();
	// Cards no longer in the core must not be taken for known ones.
	std::unordered_map<int, bool> alive;
	for(auto& s : core.side)
	{
		for(auto& p : s.pile)
			for(int id : p.second)
				alive[id] = true;
		for(auto* zs : {&s.mz[0], &s.sz[0]})
			for(unsigned i = 0; i < (zs == &s.mz[0] ? 7U : 8U); i++)
			{
				if(zs[i].id >= 0)
					alive[zs[i].id] = true;
				for(int m : zs[i].mats)
					alive[m] = true;
			}
	}
	for(auto it = r.at.begin(); it != r.at.end();)
	{
		if(alive.count(it->first) == 0)
		{
			r.who.erase(it->second);
			it = r.at.erase(it);
		}
		else
			++it;
	}
	// Known ones first, so that unknown ones cannot claim their cards.
	for(int pass = 0; pass < 2; pass++)
		for(int con = 0; con < 2; con++)
		{
			auto& s = core.side[con];
			for(auto loc : PILES)
			{
				auto const& want = s.pile[loc];
				auto const& got =
					f.pile(static_cast<Controller>(con), static_cast<Location>(loc));
				if(want.size() != got.size())
					return pl(con, loc, 0) + ": pile has " +
					       std::to_string(got.size()) + " cards, the core has " +
					       std::to_string(want.size());
				for(size_t i = 0; i < want.size(); i++)
				{
					if((r.at.count(want[i]) != 0) != (pass == 0))
						continue;
					auto e = r.same(want[i], got[i],
					                pl(con, loc, static_cast<uint32_t>(i)));
					if(!e.empty())
						return e;
					seen++;
				}
			}
			auto zone = [&](Zone const& want, uint32_t loc, uint32_t seq) -> std::string
			{
				auto const& got = f.zone(static_cast<Controller>(con),
				                         static_cast<Location>(loc), seq);
				if((want.id >= 0) != (got.card != nullptr))
					return pl(con, loc, seq) +
					       (got.card != nullptr ? ": unexpected card"
					                            : ": no card where the core has one");
				if(want.id >= 0 && (r.at.count(want.id) != 0) == (pass == 0))
				{
					auto e = r.same(want.id, got.card, pl(con, loc, seq));
					if(!e.empty())
						return e;
					seen++;
				}
				if(want.mats.size() != got.materials.size())
				{
					in_materials = true;
					return pl(con, loc, seq) + ": " +
					       std::to_string(got.materials.size()) +
					       " materials, the core has " +
					       std::to_string(want.mats.size());
				}
				for(size_t i = 0; i < want.mats.size(); i++)
				{
					if((r.at.count(want.mats[i]) != 0) != (pass == 0))
						continue;
					auto e = r.same(want.mats[i], got.materials[i],
					                pl(con, loc, seq) + " material " +
					                    std::to_string(i));
					if(!e.empty())
					{
						in_materials = true;
						return e;
					}
					seen++;
				}
				return "";
			};
			std::string e;
			for(uint32_t i = 0; i < 7 && e.empty(); i++)
				e = zone(s.mz[i], CL_MZONE, i);
			for(uint32_t i = 0; i < 5 && e.empty(); i++)
				e = zone(s.sz[i], CL_SZONE, i);
			if(e.empty())
				e = zone(s.sz[5], PL_FIELD, 0);
			for(uint32_t i = 0; i < 2 && e.empty(); i++)
				e = zone(s.sz[6 + i], PL_PENDULUM, i);
			if(!e.empty())
				return e;
		}
	return "";
}

std::string compare_values(Core& core, Replica& r)
{
	for(int con = 0; con < 2; con++)
	{
		uint32_t v = r.board.lp(static_cast<Controller>(con));
		if(v != core.lp[con])
			return "life points of player " + std::to_string(con) + " are " +
			       std::to_string(v) + " instead of " + std::to_string(core.lp[con]);
	}
	auto const& ch = r.board.chain_stack();
	if(ch.size() != core.chain.size())
		return "chain has " + std::to_string(ch.size()) + " links instead of " +
		       std::to_string(core.chain.size());
	for(size_t i = 0; i < ch.size(); i++)
	{
		auto d = pb_diff(core.chain[i], ch[i]);
		if(!d.empty())
			return "chain link " + std::to_string(i) + d;
	}
	if(!r.from_start)
		return "";
	if(r.board.turn() != core.turn)
		return "turn " + std::to_string(r.board.turn()) + " instead of " +
		       std::to_string(core.turn);
	if(core.any_turn && static_cast<int>(r.board.turn_controller()) != core.turn_con)
		return "wrong turn player";
	if(core.any_phase && static_cast<uint32_t>(r.board.phase()) != core.phase)
		return "phase " + std::to_string(r.board.phase()) + " instead of " +
		       std::to_string(core.phase);
	return "";
}

// ----------------------------------------------------------------- the duel
struct Sim
{
	Rng& rng;
	Core core;
	YGOpen::Server::BasicEncodeContext ctx;
	std::vector<std::unique_ptr<Replica>> clients;
	google::protobuf::Arena arena;
	std::string sig;
	std::vector<std::string> hist;
	bool stop = false;
	uint32_t favourite = PILES[0]; // Where cards tend to go.
	bool crowded = false;          // Zones fill up and stay full.
	int scale = 0;                 // Piles beyond 8 (1) or 16 (2) bits.
	bool unknown_identities = false;
	std::vector<std::vector<uint8_t>>* record = nullptr;

	explicit Sim(Rng& r) : rng(r)
	{
		clients.push_back(std::make_unique<Replica>());
	}

	void fail(bool xyz, std::string const& op, std::string const& why)
	{
		std::string h;
		for(size_t i = hist.size() > 14 ? hist.size() - 14 : 0; i < hist.size(); i++)
			h += hist[i] + " | ";
		auto const msg = "after " + op + ": " + why + ". History: " + h;
		violate({"C06", "S04"}, "mirror:" + op, msg);
		if(xyz)
			violate({"C07"}, "materials:" + op, msg);
		stop = true;
	}

	// Sends one core message and compares everything.
	void emit(W& w, std::string const& op, bool xyz, St expect, std::string const& note = "")
	{
		if(stop)
			return;
		at(op + " " + note);
		hist.push_back(op + " " + note);
		trace(op + " " + note + " " + hex(w.b.data(), w.b.size(), 80));
		count("msg_" + op);
		sig += op + ",";
		if(record != nullptr)
			record->push_back(w.b);
		std::unique_ptr<uint8_t[]> buf(new uint8_t[w.b.size()]);
		std::copy(w.b.begin(), w.b.end(), buf.get());
		auto res = OCG::encode_one(arena, ctx, buf.get());
		if(res.state != expect || (expect == St::OK) != (res.msg != nullptr))
			return fail(xyz, op, "unexpected encoder result");
		if(res.msg != nullptr)
		{
			trace("  -> " + res.msg->ShortDebugString().substr(0, 600));
			at(op + " applying on the server");
			ctx.parse(*res.msg);
			auto bytes = res.msg->SerializeAsString();
			for(auto& c : clients)
			{
				PMsg m;
				at(op + " applying on a client");
				if(!m.ParseFromString(bytes))
					return fail(xyz, op, "message does not survive serialisation");
				if(m.t_case() == PMsg::kEvent)
					YGOpen::Client::parse_event(c->board, m.event());
				for(auto const& q : m.queries())
					static_cast<void>(
						YGOpen::Client::parse_query(c->board.frame(), q));
				if(m.event().board().has_state())
					c->forget_all();
			}
		}
		at(op + " comparing");
	}

	void check(std::string const& op, bool xyz)
	{
		if(stop)
			return;
		for(int con = 0; con < 2; con++)
		{
			for(auto loc : PILES)
			{
				auto n = ctx.pile_size(static_cast<Controller>(con),
				                       static_cast<Location>(loc));
				if(n != core.side[con].pile[loc].size())
					return fail(xyz, op,
					            "server board: " + pl(con, loc, 0) + ": pile has " +
					                std::to_string(n) + " cards, the core has " +
					                std::to_string(core.side[con].pile[loc].size()));
			}
			for(uint32_t i = 0; i < 7; i++)
				if(ctx.has_xyz_mat(place_of(zplace({con, true, i}))) !=
				   !core.side[con].mz[i].mats.empty())
					return fail(xyz, op,
					            "server board: materials of monster zone " +
					                std::to_string(i) + " disagree");
			for(uint32_t i = 0; i < 8; i++)
				if(ctx.has_xyz_mat(place_of(zplace({con, false, i}))) !=
				   !core.side[con].sz[i].mats.empty())
					return fail(xyz, op,
					            "server board: materials of spell zone " +
					                std::to_string(i) + " disagree");
		}
		for(auto& c : clients)
		{
			bool mats = false;
			uint64_t seen = 0;
			auto e = compare(core, *c, mats, seen);
			count("positions_compared", seen);
			if(!e.empty())
				return fail(xyz || mats, op, e);
			if(!active({"C07"}))
			{
				e = compare_values(core, *c);
				if(!e.empty())
				{
					violate({"S04"}, "values:" + op, "after " + op + ": " + e);
					stop = true;
					return;
				}
			}
		}
		count("boards_compared", clients.size());
	}

	void step(W& w, std::string const& op, bool xyz = false, St expect = St::OK,
	          std::string const& note = "")
	{
		emit(w, op, xyz, expect, note);
		check(op, xyz);
	}

	// ------------------------------------------------------------ selection
	std::vector<ZRef> zones(std::function<bool(Zone const&)> const& pred, bool mz_only = false)
	{
		std::vector<ZRef> v;
		for(int con = 0; con < 2; con++)
		{
			for(uint32_t i = 0; i < 7; i++)
				if(pred(core.side[con].mz[i]))
					v.push_back({con, true, i});
			if(!mz_only)
				for(uint32_t i = 0; i < 8; i++)
					if(pred(core.side[con].sz[i]))
						v.push_back({con, false, i});
		}
		return v;
	}
	Zone& Z(ZRef z) { return core.zone(z.con, z.mz, z.seq); }
	std::vector<std::pair<int, uint32_t>> nonempty_piles()
	{
		std::vector<std::pair<int, uint32_t>> v;
		for(int con = 0; con < 2; con++)
			for(auto loc : PILES)
				if(!core.side[con].pile[loc].empty())
					v.emplace_back(con, loc);
		return v;
	}

	// A removable thing: takes it out of the core and says where it was.
	enum Src
	{
		PILE,
		ZCARD,
		MAT
	};
	struct Taken
	{
		int id = -1;
		CorePlace from;
		Src src = PILE;
		ZRef z{};
	};
	bool take(Taken& t, bool allow_zone_with_mats, bool mats_ok, int bias_mat = 3)
	{
		auto kind = rng.below(static_cast<uint64_t>(7 + (mats_ok ? bias_mat : 0)));
		if(crowded && kind >= 4 && kind < 7 && rng.chance(3, 4))
			kind = 0;
		if(kind >= 7)
		{
			auto v = zones([](Zone const& z) { return !z.mats.empty(); });
			if(!v.empty())
			{
				t.z = rng.pick(v);
				auto& m = Z(t.z).mats;
				auto i = rng.below(m.size());
				t.from = zplace(t.z, static_cast<int>(i));
				t.id = m[i];
				t.src = MAT;
				m.erase(m.begin() + static_cast<long>(i));
				return true;
			}
			kind = rng.below(7);
		}
		if(kind >= 4)
		{
			auto v = zones(
				[&](Zone const& z)
				{ return z.id >= 0 && (allow_zone_with_mats || z.mats.empty()); });
			if(!v.empty())
			{
				t.z = rng.pick(v);
				t.from = zplace(t.z, -1, rng.pick({1U, 2U, 4U, 8U}));
				t.id = Z(t.z).id;
				t.src = ZCARD;
				Z(t.z).id = -1;
				return true;
			}
		}
		auto v = nonempty_piles();
		if(v.empty())
			return false;
		auto [con, loc] = rng.pick(v);
		auto& p = core.side[con].pile[loc];
		auto i = rng.below(p.size());
		if(rng.coin())
			i = rng.coin() ? 0 : p.size() - 1;
		t.from = pplace(con, loc, i, -1, rng.pick({1U, 2U, 4U, 8U, 10U}));
		t.id = p[i];
		t.src = PILE;
		p.erase(p.begin() + static_cast<long>(i));
		return true;
	}
	uint32_t some_pile() { return rng.coin() ? favourite : PILES[rng.below(5)]; }
	CorePlace put_pile(int id, int con, uint32_t loc, bool at_end = false)
	{
		auto& p = core.side[con].pile[loc];
		size_t i = at_end ? p.size() : rng.below(p.size() + 1);
		if(!at_end && rng.coin())
			i = rng.coin() ? 0 : p.size();
		p.insert(p.begin() + static_cast<long>(i), id);
		return pplace(con, loc, i, -1, rng.pick({1U, 2U, 4U, 8U, 5U}));
	}

	// ------------------------------------------------------------- messages
	void start()
	{
		W w;
		w.u8(4).u8(rng.next());
		for(auto& l : core.lp)
		{
			l = rng.chance(1, 4) ? rng.any<uint32_t>() & 0x7FFFFFFFU : 8000U;
			w.u32(l);
		}
		for(auto& s : core.side)
			for(auto loc : {CL_DECK, CL_EXTRA})
			{
				auto n = loc == CL_DECK ? rng.pick<uint64_t>({40, 0, 1, 60,
				                                    rng.below(20)})
				                        : rng.pick<uint64_t>({15, 0, rng.below(20)});
				if(rng.chance(1, 60))
					n = rng.range(200, 300);
				if(scale == 1 && rng.coin())
					n = rng.range(250, 1500);
				else if(scale == 2 && &s == &core.side[0])
					n = loc == CL_DECK ? rng.range(65500, 65535) : rng.below(60);
				w.u16(n);
				s.pile[loc].clear();
				for(uint64_t i = 0; i < n; i++)
					s.pile[loc].push_back(core.fresh());
				maxi("pile", n);
			}
		core.turn = 0;
		step(w, "START");
	}
	void draw()
	{
		auto con = static_cast<int>(rng.below(2));
		auto& deck = core.side[con].pile[CL_DECK];
		auto& hand = core.side[con].pile[CL_HAND];
		size_t n = rng.below(7);
		if(rng.chance(1, 25))
			n = deck.size();
		if(scale > 0 && rng.coin())
			n = rng.coin() ? deck.size() : rng.below(deck.size() + 1);
		n = std::min(n, deck.size());
		W w;
		w.u8(90).u8(con).u32(n);
		for(size_t i = 0; i < n; i++)
			w.u32(rng.next()).u32(10);
		for(size_t i = 0; i < n; i++)
		{
			hand.push_back(deck.back());
			deck.pop_back();
		}
		maxi("draw", n);
		step(w, "DRAW", false, St::OK, std::to_string(con) + "x" + std::to_string(n));
	}
	void reverse_deck()
	{
		W w;
		w.u8(37);
		for(auto& s : core.side)
			std::reverse(s.pile[CL_DECK].begin(), s.pile[CL_DECK].end());
		step(w, "REVERSE_DECK");
	}
	void swap_grave_deck(int con = -1)
	{
		if(con < 0)
			con = static_cast<int>(rng.below(2));
		auto& s = core.side[con];
		auto& gy = s.pile[CL_GRAVE];
		auto& ed = s.pile[CL_EXTRA];
		size_t pos = rng.coin() ? ed.size() : rng.below(ed.size() + 1);
		std::vector<uint8_t> bits((gy.size() + 7) / 8);
		std::vector<int> main, extra;
		unsigned const dens = static_cast<unsigned>(rng.pick({0, 2, 5, 9, 10}));
		// Either each card on its own, or in runs that also end at byte borders.
		// A giant graveyard goes in a few long ones: each takes a splice.
		uint64_t const stretch = gy.size() > 5000 ? 200 : 1;
		bool const runs = stretch > 1 || rng.chance(1, 3);
		bool in_run = rng.coin();
		uint64_t left = rng.range(1, 40);
		for(size_t i = 0; i < gy.size(); i++)
		{
			if(left-- == 0)
			{
				in_run = !in_run;
				left = rng.coin() ? rng.range(0, 40) * stretch : (7 - i % 8) + 8 * rng.below(6) * stretch;
			}
			if(runs ? in_run : rng.chance(dens, 10))
			{
				bits[i / 8] = static_cast<uint8_t>(bits[i / 8] | (1U << (i % 8)));
				extra.push_back(gy[i]);
			}
			else
				main.push_back(gy[i]);
		}
		auto note = std::to_string(con) + " gy" + std::to_string(gy.size()) + " md" +
		            std::to_string(s.pile[CL_DECK].size()) + " ex" +
		            std::to_string(extra.size());
		gy = s.pile[CL_DECK];
		s.pile[CL_DECK] = main;
		ed.insert(ed.begin() + static_cast<long>(pos), extra.begin(), extra.end());
		W w;
		w.u8(35).u8(con).u32(pos).u32(bits.size());
		for(auto b : bits)
			w.u8(b);
		step(w, "SWAP_GRAVE_DECK", false, St::OK, note);
	}
	void tag_swap(int who = -1)
	{
		auto con = who < 0 ? static_cast<int>(rng.below(2)) : who;
		auto& s = core.side[con];
		auto resize = [&](uint32_t loc, size_t n)
		{
			auto& p = s.pile[loc];
			// Another player's cards: every identity is new.
			for(auto id : p)
				for(auto& c : clients)
					c->forget(id);
			p.clear();
			for(size_t i = 0; i < n; i++)
				p.push_back(core.fresh());
		};
		auto md = rng.coin() ? rng.below(40) : s.pile[CL_DECK].size();
		auto ed = rng.coin() ? rng.below(15) : s.pile[CL_EXTRA].size();
		auto hd = rng.coin() ? rng.below(8) : s.pile[CL_HAND].size();
		if(scale == 2) // Shrinking that far takes the frame forever.
		{
			md = s.pile[CL_DECK].size();
			ed = s.pile[CL_EXTRA].size();
			hd = s.pile[CL_HAND].size();
		}
		if(scale > 0)
		{
			auto& n = who < 0 ? *rng.pick({&md, &ed, &hd}) : md;
			n = scale == 1 ? rng.range(250, 1500)
			               : std::max<uint64_t>(n, rng.range(who < 0 ? 65530 : 65537, 66000));
			maxi("pile", n);
		}
		W w;
		w.u8(161).u8(con).u32(md).u32(ed).u32(rng.below(ed + 1)).u32(hd).u32(rng.next());
		for(size_t i = 0; i < ed + hd; i++)
			w.u32(rng.next()).u32(rng.next());
		resize(CL_DECK, md);
		resize(CL_EXTRA, ed);
		resize(CL_HAND, hd);
		step(w, "TAG_SWAP", false, St::OK, std::to_string(con));
	}
	void reload()
	{
		W w;
		w.u8(162).u32(rng.next());
		for(int con = 0; con < 2; con++)
		{
			w.u32(core.lp[con]);
			for(int k = 0; k < 2; k++)
				for(uint32_t i = 0; i < (k == 0 ? 7U : 8U); i++)
				{
					auto const& z = k == 0 ? core.side[con].mz[i] : core.side[con].sz[i];
					w.u8(z.id >= 0);
					if(z.id >= 0)
						w.u8(rng.pick({1, 2, 4, 8})).u32(z.mats.size());
				}
			for(auto loc : {CL_DECK, CL_HAND, CL_GRAVE, CL_REMOVED, CL_EXTRA})
				w.u32(core.side[con].pile[loc].size());
			w.u32(rng.below(core.side[con].pile[CL_EXTRA].size() + 1));
		}
		core.chain.clear();
		auto n = rng.chance(1, 2) ? 0 : rng.below(4);
		w.u32(n);
		for(uint64_t i = 0; i < n; i++)
			w_chain(w);
		// Latecomers learn the field from here.
		bool const join = clients.size() < 4 && rng.chance(2, 3);
		if(join)
		{
			clients.push_back(std::make_unique<Replica>());
			clients.back()->from_start = false;
			count("late_clients");
		}
		step(w, "RELOAD_FIELD", false, St::OK, join ? "join" : "");
	}
	void w_chain(W& w)
	{
		YGOpen::Proto::Duel::Chain c;
		auto cp = g_place(rng);
		auto p = g_place(rng, false);
		w.u32(rng.next());
		w_loc(w, cp);
		to_place(cp, *c.mutable_card_place());
		w.u8(p.con).u8(p.loc).u32(p.seq);
		to_place(p, *c.mutable_place(), false);
		auto e = g_eff(rng);
		w_eff(w, e);
		set_eff(c.mutable_effect(), e);
		core.chain.push_back(c);
	}
	void w_move(W& w, CorePlace const& a, CorePlace const& b)
	{
		w.u8(50).u32(rng.any<uint32_t>());
		w_loc(w, a);
		w_loc(w, b);
		w.u32(rng.any<uint32_t>());
	}
	static std::string ps(CorePlace const& p)
	{
		return std::to_string(p.con) + "." + std::to_string(p.loc & 0x7F) + "." +
		       std::to_string(p.seq) +
		       ((p.loc & CL_OVERLAY) != 0 ? "." + std::to_string(p.pos) : "");
	}
	void move()
	{
		Taken t;
		if(!take(t, false, true, 2))
			return;
		bool xyz = t.src == MAT;
		CorePlace to;
		auto free = zones([](Zone const& z) { return z.id < 0 && z.mats.empty(); });
		if(t.src != PILE)
			free.erase(std::remove(free.begin(), free.end(), t.z), free.end());
		if(!free.empty() && (crowded ? rng.chance(4, 5) : rng.chance(2, 5)))
		{
			auto z = rng.pick(free);
			Z(z).id = t.id;
			to = zplace(z, -1, rng.pick({1U, 2U, 4U, 8U}));
		}
		else
			to = put_pile(t.id, static_cast<int>(rng.below(2)),
			              some_pile());
		W w;
		w_move(w, t.from, to);
		step(w, "MOVE", xyz, St::OK, ps(t.from) + ">" + ps(to));
	}
	void add_remove()
	{
		W w;
		CorePlace none;
		if(rng.coin())
		{
			CorePlace to;
			int id = core.fresh();
			auto free = zones([](Zone const& z) { return z.id < 0 && z.mats.empty(); });
			if(!free.empty() && rng.chance(2, 3))
			{
				auto z = rng.pick(free);
				Z(z).id = id;
				to = zplace(z);
			}
			else
				to = put_pile(id, static_cast<int>(rng.below(2)), some_pile());
			w_move(w, none, to);
			step(w, "ADD", false, St::OK, ps(to));
			return;
		}
		Taken t;
		if(!take(t, false, true, 1))
			return;
		w_move(w, t.from, none);
		step(w, "REMOVE", t.src == MAT, St::OK, ps(t.from));
	}
	void swap()
	{
		auto v = zones([](Zone const& z) { return z.id >= 0; });
		if(v.size() < 2)
			return;
		rng.shuffle(v);
		auto a = v[0], b = v[1];
		W w;
		w.u8(55).u32(rng.next());
		w_loc(w, zplace(a));
		w.u32(rng.next());
		w_loc(w, zplace(b));
		bool xyz = !Z(a).mats.empty() || !Z(b).mats.empty();
		std::swap(Z(a), Z(b));
		step(w, "SWAP", xyz, St::OK, ps(zplace(a)) + "<>" + ps(zplace(b)));
	}
	void shuffle_set()
	{
		// Some row with at least two cards.
		std::vector<std::pair<int, bool>> rows;
		auto occupied = [&](int con, bool mz)
		{
			std::vector<uint32_t> v;
			for(uint32_t i = 0; i < (mz ? 7U : 5U); i++)
				if(core.zone(con, mz, i).id >= 0)
					v.push_back(i);
			return v;
		};
		for(int c = 0; c < 2; c++)
			for(bool m : {false, true})
				if(occupied(c, m).size() >= 2)
					rows.emplace_back(c, m);
		if(rows.empty())
			return;
		auto [con, mz] = rng.pick(rows);
		auto seqs = occupied(con, mz);
		rng.shuffle(seqs);
		if(rng.chance(1, 3))
			seqs.resize(rng.range(2, seqs.size()));
		maxi("cards_shuffled", seqs.size());
		auto dst = seqs;
		rng.shuffle(dst);
		W w;
		w.u8(36).u8(mz ? CL_MZONE : CL_SZONE).u8(seqs.size());
		for(auto s : seqs)
			w_loc(w, zplace({con, mz, s}));
		std::vector<Zone> moved;
		for(auto s : seqs)
			moved.push_back(core.zone(con, mz, s));
		bool const all = rng.chance(1, 3);
		bool xyz = false;
		for(size_t i = 0; i < seqs.size(); i++)
		{
			// The core tells where cards with materials went.
			bool const told = all || !moved[i].mats.empty() || rng.chance(1, 6);
			xyz = xyz || !moved[i].mats.empty();
			w_loc(w, told ? zplace({con, mz, dst[i]}) : CorePlace{});
			if(!told)
				for(auto& c : clients)
					c->forget(moved[i].id);
			core.zone(con, mz, dst[i]) = moved[i];
		}
		step(w, "SHUFFLE_SET_CARD", xyz, St::OK, std::to_string(seqs.size()));
	}
	// Materials gather under a card that is still in a pile, which then comes
	// to the field.
	void xyz_summon()
	{
		auto piles = nonempty_piles();
		if(piles.empty())
			return;
		// The owner.
		int con;
		uint32_t loc;
		std::tie(con, loc) = rng.pick(piles);
		if(rng.chance(3, 4))
			for(auto const& [c, l] : piles)
				if(l == CL_EXTRA)
				{
					con = c;
					loc = l;
				}
		auto& src = core.side[con].pile[loc];
		int const owner = src[rng.below(src.size())];
		std::vector<int> mats;
		std::vector<std::pair<CorePlace, Src>> from;
		auto owner_place = [&](int oseq)
		{
			auto& p = core.side[con].pile[loc];
			auto i = static_cast<size_t>(std::find(p.begin(), p.end(), owner) - p.begin());
			return pplace(con, loc, i, oseq);
		};
		std::vector<std::pair<W, std::string>> msgs;
		auto attach = [&](int id, CorePlace const& f)
		{
			W w;
			auto to = owner_place(static_cast<int>(mats.size()));
			w_move(w, f, to);
			mats.push_back(id);
			msgs.emplace_back(w, ps(f) + ">" + ps(to));
		};
		bool rank_up = false;
		ZRef base{};
		auto with_mats = zones([](Zone const& z) { return z.id >= 0 && !z.mats.empty(); });
		if(!with_mats.empty() && rng.chance(2, 5))
		{
			// Rank up: first the materials, then the card itself.
			rank_up = true;
			base = rng.pick(with_mats);
			while(!Z(base).mats.empty())
			{
				auto i = rng.chance(3, 4) ? 0 : rng.below(Z(base).mats.size());
				int id = Z(base).mats[i];
				auto f = zplace(base, static_cast<int>(i));
				Z(base).mats.erase(Z(base).mats.begin() + static_cast<long>(i));
				attach(id, f);
			}
			int id = Z(base).id;
			Z(base).id = -1;
			attach(id, zplace(base));
		}
		auto n = rng.below(4) + (rank_up ? 0 : 1);
		bool took_mats = false;
		for(uint64_t i = 0; i < n; i++)
		{
			Taken t;
			// Not the owner itself.
			auto snapshot = core;
			if(!take(t, false, true, 2) || t.id == owner)
			{
				core = snapshot;
				continue;
			}
			took_mats = took_mats || t.src == MAT;
			attach(t.id, t.from);
		}
		if(msgs.empty())
			return;
		// Where to.
		auto free = zones([](Zone const& z) { return z.id < 0 && z.mats.empty(); });
		if(free.empty())
		{
			stop = true; // Cannot happen in practice: start another duel.
			return;
		}
		auto dst = rng.pick(free);
		if(rank_up && rng.coin())
			dst = base;
		for(auto& [w, note] : msgs)
			emit(w, "ATTACH_OUTSIDE", true, St::SWALLOWED, note);
		count("deferred_attachments", msgs.size());
		maxi("materials", mats.size());
		auto& p = core.side[con].pile[loc];
		auto i = static_cast<size_t>(std::find(p.begin(), p.end(), owner) - p.begin());
		p.erase(p.begin() + static_cast<long>(i));
		Z(dst).id = owner;
		Z(dst).mats = mats;
		W w;
		w_move(w, pplace(con, loc, i), zplace(dst));
		step(w, rank_up ? (dst == base ? "RANK_UP_SAME" : "RANK_UP") : "XYZ_SUMMON", true,
		     St::OK,
		     ps(zplace(dst)) + " with " + std::to_string(mats.size()) +
		         (took_mats ? "+stolen" : ""));
	}
	void attach_on_field()
	{
		auto owners = zones([](Zone const& z) { return z.id >= 0; });
		if(owners.empty())
			return;
		auto o = rng.pick(owners);
		int const oid = Z(o).id;
		Taken t;
		auto snapshot = core;
		if(!take(t, false, true, 4) || t.id == oid)
		{
			core = snapshot;
			return;
		}
		auto to = zplace(o, static_cast<int>(Z(o).mats.size()));
		Z(o).mats.push_back(t.id);
		maxi("materials", Z(o).mats.size());
		W w;
		w_move(w, t.from, to);
		step(w, "ATTACH", true, St::OK, ps(t.from) + ">" + ps(to));
	}
	void move_owner()
	{
		auto owners = zones([](Zone const& z) { return z.id >= 0 && !z.mats.empty(); });
		auto free = zones([](Zone const& z) { return z.id < 0 && z.mats.empty(); });
		if(owners.empty() || free.empty())
			return;
		auto o = rng.pick(owners);
		auto d = rng.pick(free);
		W w;
		w_move(w, zplace(o), zplace(d));
		std::swap(Z(o), Z(d));
		step(w, "MOVE_OWNER", true, St::OK, ps(zplace(o)) + ">" + ps(zplace(d)));
	}
	// Owners leave the field one after another, then their materials follow.
	void owners_leave()
	{
		auto owners = zones([](Zone const& z) { return z.id >= 0 && !z.mats.empty(); });
		if(owners.empty())
			return;
		rng.shuffle(owners);
		owners.resize(std::min<size_t>(owners.size(), rng.range(1, 3)));
		struct Left
		{
			std::vector<int> mats;
			int con;
			uint32_t loc;
			size_t seq;
			ZRef z;
		};
		std::vector<Left> left;
		for(auto o : owners)
		{
			int con = static_cast<int>(rng.below(2));
			uint32_t loc = rng.pick({CL_GRAVE, CL_GRAVE, CL_REMOVED, CL_EXTRA, CL_HAND,
			                         CL_DECK});
			auto z = Z(o);
			auto from = zplace(o);
			// The core keeps the materials with the card that left; the field
			// keeps them where they were until they are told to go.
			Z(o).id = -1;
			auto to = put_pile(z.id, con, loc, true);
			left.push_back({z.mats, con, loc, to.seq, o});
			W w;
			w_move(w, from, to);
			step(w, "OWNER_LEAVES", true, St::OK, ps(from) + ">" + ps(to));
			if(stop)
				return;
		}
		while(!left.empty() && !stop)
		{
			auto k = rng.coin() ? 0 : rng.below(left.size());
			auto& l = left[k];
			auto i = rng.chance(1, 2) ? 0 : rng.below(l.mats.size());
			int id = l.mats[i];
			auto from = pplace(l.con, l.loc, l.seq, static_cast<int>(i));
			l.mats.erase(l.mats.begin() + static_cast<long>(i));
			Z(l.z).mats.erase(Z(l.z).mats.begin() + static_cast<long>(i));
			CorePlace to;
			auto others = zones([](Zone const& z) { return z.id >= 0; });
			if(!others.empty() && rng.chance(1, 8))
			{
				auto o = rng.pick(others);
				to = zplace(o, static_cast<int>(Z(o).mats.size()));
				Z(o).mats.push_back(id);
			}
			else
				to = put_pile(id, static_cast<int>(rng.below(2)),
				              rng.chance(5, 6) ? CL_GRAVE : CL_REMOVED, true);
			W w;
			w_move(w, from, to);
			if(l.mats.empty())
				left.erase(left.begin() + static_cast<long>(k));
			step(w, "DETACH_AFTER", true, St::OK, ps(from) + ">" + ps(to));
			count("detached_after_leaving");
		}
	}
	void detach()
	{
		auto owners = zones([](Zone const& z) { return z.id >= 0 && !z.mats.empty(); });
		if(owners.empty())
			return;
		auto o = rng.pick(owners);
		auto& m = Z(o).mats;
		auto i = rng.below(m.size());
		int id = m[i];
		m.erase(m.begin() + static_cast<long>(i));
		auto to = put_pile(id, static_cast<int>(rng.below(2)),
		                   rng.chance(3, 4) ? CL_GRAVE : some_pile());
		W w;
		auto from = zplace(o, static_cast<int>(i));
		w_move(w, from, to);
		step(w, "DETACH", true, St::OK, ps(from) + ">" + ps(to));
	}
	void scalar()
	{
		W w;
		auto con = static_cast<int>(rng.below(2));
		auto& lp = core.lp[con];
		auto amount = rng.chance(1, 8) ? rng.any<uint32_t>() & 0x7FFFFFFFU
		                               : static_cast<uint32_t>(rng.below(3000));
		switch(rng.below(9))
		{
		case 0:
			w.u8(91).u8(con).u32(amount);
			lp = amount > lp ? 0 : lp - amount;
			return step(w, "DAMAGE");
		case 1:
			amount %= 10000;
			if(lp > 0x70000000U)
				amount = 0;
			w.u8(92).u8(con).u32(amount);
			lp += amount;
			return step(w, "RECOVER");
		case 2:
			w.u8(94).u8(con).u32(amount);
			lp = amount;
			return step(w, "LPUPDATE");
		case 3:
			w.u8(100).u8(con).u32(amount);
			lp = amount > lp ? 0 : lp - amount;
			return step(w, "PAY_LPCOST");
		case 4:
			w.u8(40).u8(con);
			core.turn++;
			core.turn_con = con;
			core.any_turn = true;
			return step(w, "NEW_TURN");
		case 5:
			core.phase = 1U << rng.below(10);
			core.any_phase = true;
			w.u8(41).u16(core.phase);
			return step(w, "NEW_PHASE");
		case 6:
		case 7:
			if(core.chain.size() < 12 && rng.coin())
			{
				w.u8(70);
				w_chain(w);
				w.u32(core.chain.size());
				return step(w, "CHAINING");
			}
			if(!core.chain.empty())
			{
				core.chain.pop_back();
				w.u8(73).u8(core.chain.size() + 1);
				return step(w, "CHAIN_SOLVED");
			}
			return;
		default:
			w.u8(56).u32(rng.any<uint32_t>());
			return step(w, "FIELD_DISABLED");
		}
	}
	// Messages that say nothing about where cards are.
	void noise()
	{
		static std::vector<MsgKind const*> const v = []
		{
			std::vector<MsgKind const*> r;
			for(auto const& k : all_kinds())
			{
				std::string n = k.name;
				if(k.kind == Kind::REQUEST || k.kind == Kind::SWALLOWED)
				{
					r.push_back(&k);
					continue;
				}
				for(char const* s :
				    {"CONFIRM_DECKTOP", "CONFIRM_CARDS", "CONFIRM_EXTRATOP", "SHUFFLE_DECK",
				     "SHUFFLE_HAND", "SHUFFLE_EXTRA", "POS_CHANGE", "SET", "SUMMONING",
				     "SPSUMMONING", "FLIPSUMMONING", "CHAINED", "CHAIN_SOLVING",
				     "CHAIN_NEGATED", "CHAIN_DISABLED", "CARD_SELECTED", "RANDOM_SELECTED",
				     "BECOME_TARGET", "CARD_TARGET", "CANCEL_TARGET", "ADD_COUNTER",
				     "REMOVE_COUNTER", "ATTACK", "TOSS_COIN", "TOSS_DICE", "HAND_RES",
				     "PLAYER_HINT", "WIN"})
					if(n == s)
						r.push_back(&k);
			}
			return r;
		}();
		auto c = make_case(rng, *rng.pick(v));
		if(c.bytes.size() > 3000)
			return;
		W w;
		w.b = c.bytes;
		step(w, "INFO", false, c.state, c.name);
	}
	void query()
	{
		auto con = static_cast<int>(rng.below(2));
		auto loc = rng.pick({CL_DECK, CL_HAND, CL_MZONE, CL_SZONE, CL_GRAVE, CL_REMOVED,
		                     CL_EXTRA});
		if(core.side[con].pile[loc].size() > 400)
			return;
		W body;
		auto block = [&](bool present, size_t mats)
		{
			if(!present)
			{
				body.u16(0);
				return;
			}
			if(rng.coin())
			{
				W p;
				p.u32(rng.next());
				w_q(body, 0x1, p);
			}
			else
			{
				PData d;
				std::string shape;
				g_query(rng, body, d, shape, mats > 0 ? -1 : 0);
				body.b.resize(body.b.size() - 6); // The end mark.
			}
			if(mats > 0)
			{
				W o;
				o.u32(mats);
				for(size_t i = 0; i < mats; i++)
					o.u32(rng.next());
				w_q(body, 0x10000, o);
			}
			body.u16(4).u32(0x80000000U);
		};
		if(loc == CL_MZONE)
			for(auto const& z : core.side[con].mz)
				block(z.id >= 0, z.id >= 0 ? z.mats.size() : 0);
		else if(loc == CL_SZONE)
			for(auto const& z : core.side[con].sz)
				block(z.id >= 0, z.id >= 0 ? z.mats.size() : 0);
		else
			for(size_t i = 0; i < core.side[con].pile[loc].size(); i++)
				block(rng.chance(4, 5), 0);
		W w;
		w.u8(6).u8(con).u8(loc).u32(body.b.size());
		w.b.insert(w.b.end(), body.b.begin(), body.b.end());
		step(w, "UPDATE_DATA", false, St::OK, std::to_string(loc));
	}
};

void play(Sim& s, Rng& rng, uint64_t n)
{
	s.start();
	s.crowded = rng.coin();
	s.favourite = rng.coin() ? CL_GRAVE : PILES[rng.below(5)];
	bool const xyz_heavy = active({"C07"}) || rng.chance(1, 3);
	for(uint64_t i = 0; i < n && !s.stop && !failed(); i++)
	{
		auto k = rng.below(xyz_heavy ? 60 : 40);
		if(k < 10) s.move();
		else if(k < 13) s.draw();
		else if(k < 14) s.reverse_deck();
		else if(k < 16) s.swap_grave_deck();
		else if(k < 17) s.tag_swap();
		else if(k < 18) s.reload();
		else if(k < 20) s.add_remove();
		else if(k < 22) s.swap();
		else if(k < 24) s.shuffle_set();
		else if(k < 27) s.scalar();
		else if(k < 29) s.noise();
		else if(k < 31) s.query();
		else if(k < 34) s.xyz_summon();
		else if(k < 36) s.attach_on_field();
		else if(k < 37) s.move_owner();
		else if(k < 38) s.owners_leave();
		else if(k < 40) s.detach();
		else if(k < 46) s.xyz_summon();
		else if(k < 51) s.attach_on_field();
		else if(k < 54) s.move_owner();
		else if(k < 57) s.owners_leave();
		else s.detach();
	}
}

// Most of what happens to piles whose sizes and positions need many bits.
void play_big(Sim& s, Rng& rng, uint64_t n)
{
	s.start();
	s.favourite = rng.coin() ? CL_GRAVE : PILES[rng.below(5)];
	for(uint64_t i = 0; i < n && !s.stop && !failed(); i++)
	{
		auto k = rng.below(16);
		if(k < 3) s.draw();
		else if(k < 4) s.reverse_deck();
		else if(k < 8) s.swap_grave_deck();
		else if(k < 10) s.tag_swap();
		else if(k < 11 && s.scale == 1) s.reload();
		else if(k < 14) s.move();
		else if(k < 15) s.add_remove();
		else s.xyz_summon();
	}
	if(s.scale == 2 && !s.stop && !failed())
	{ // A graveyard of more than 65536 cards.
		s.tag_swap(0);
		s.swap_grave_deck(0);
		maxi("grave", s.core.side[0].pile[CL_GRAVE].size());
		if(!s.stop && !failed())
			s.swap_grave_deck(0);
	}
	count(s.scale == 1 ? "big_duels" : "giant_duels");
}

#ifndef VF_DUEL_ONLY
void one(Rng& rng)
{
	Sim s(rng);
	if(run().cur % 40 == 17 || run().cur % 1200 == 133)
	{
		s.scale = run().cur % 1200 == 133 ? 2 : 1;
		play_big(s, rng, s.scale == 2 ? 8 : rng.range(10, 40));
	}
	else
		play(s, rng, run().tier == 0 ? rng.range(20, 120) : rng.range(20, 300));
	maxi("cards", s.core.cards());
	count("duels");
	count("messages", s.hist.size());
	distinct(s.sig);
	std::string h;
	for(size_t i = 0; i < s.hist.size() && i < 20; i++)
		h += s.hist[i] + " | ";
	sample(h);
}
#endif

} // namespace

#ifndef VF_DUEL_ONLY
int main(int argc, char** argv) { return drive(argc, argv, one); }
#endif
