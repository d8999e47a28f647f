// Independent description of the core's message layouts (edo9300 ocgcore) and
// of what each of them means in terms of the protocol. Written from the wire
// layouts, shares no code with the encoder under test.
#pragma once
#include "common.hpp"
#include <ygopen/codec/edo9300_ocgcore_encode.hpp>
#include <ygopen/duel/constants/controller.hpp>
#include <ygopen/duel/constants/location.hpp>
#include <ygopen/proto/duel/data.hpp>
#include <ygopen/proto/duel/msg.hpp>

namespace vf
{

namespace YD = YGOpen::Duel;
using PMsg = YGOpen::Proto::Duel::Msg;
using PPlace = YGOpen::Proto::Duel::Place;
using PData = YGOpen::Proto::Duel::Msg::Query::Data;
using Event = PMsg::Event;
using Request = PMsg::Request;

struct W
{
	std::vector<uint8_t> b;
	template<typename T>
	W& raw(T v)
	{
		uint8_t t[sizeof(T)];
		std::memcpy(t, &v, sizeof(T));
		b.insert(b.end(), t, t + sizeof(T));
		return *this;
	}
	W& u8(uint64_t v) { return raw(static_cast<uint8_t>(v)); }
	W& u16(uint64_t v) { return raw(static_cast<uint16_t>(v)); }
	W& u32(uint64_t v) { return raw(static_cast<uint32_t>(v)); }
	W& u64(uint64_t v) { return raw(static_cast<uint64_t>(v)); }
};

// Numbers of the core (common.h), on purpose not taken from the repository.
enum : uint32_t
{
	CL_DECK = 0x1,
	CL_HAND = 0x2,
	CL_MZONE = 0x4,
	CL_SZONE = 0x8,
	CL_GRAVE = 0x10,
	CL_REMOVED = 0x20,
	CL_EXTRA = 0x40,
	CL_OVERLAY = 0x80,
	PL_FIELD = 0x100,
	PL_PENDULUM = 0x200,
};

struct CorePlace // What the core calls loc_info.
{
	uint8_t con = 0;
	uint8_t loc = 0; // May carry CL_OVERLAY.
	uint32_t seq = 0;
	uint32_t pos = 0; // Overlay index if loc carries CL_OVERLAY.
};

inline void set_place(PPlace& p, int con, uint32_t loc, uint32_t seq, int oseq)
{
	p.set_con(con);
	p.set_loc(loc);
	p.set_seq(seq);
	p.set_oseq(oseq);
}

inline void to_place(CorePlace const& c, PPlace& p, bool has_pos = true)
{
	uint32_t loc = c.loc & ~static_cast<uint32_t>(CL_OVERLAY);
	uint32_t seq = c.seq;
	if(loc == CL_SZONE && seq == 5)
	{
		loc = PL_FIELD;
		seq = 0;
	}
	else if(loc == CL_SZONE && (seq == 6 || seq == 7))
	{
		loc = PL_PENDULUM;
		seq -= 6;
	}
	int oseq = -1;
	if(has_pos && (c.loc & CL_OVERLAY) != 0)
		oseq = static_cast<int>(c.pos);
	set_place(p, c.con, loc, seq, oseq);
}

inline PPlace place_of(CorePlace const& c, bool has_pos = true)
{
	PPlace p;
	to_place(c, p, has_pos);
	return p;
}

inline void w_loc(W& w, CorePlace const& c)
{
	w.u8(c.con).u8(c.loc).u32(c.seq).u32(c.pos);
}

// A place as the core may write it. `seq8`: the sequence only has 8 bits.
inline CorePlace g_place(Rng& r, bool overlay_ok = true, bool seq8 = false,
                         bool zone_only = false)
{
	CorePlace c;
	c.con = static_cast<uint8_t>(r.below(2));
	if(zone_only || r.chance(3, 5))
	{
		bool const mz = r.coin();
		c.loc = mz ? CL_MZONE : CL_SZONE;
		c.seq = static_cast<uint32_t>(r.below(mz ? 7 : 8));
		if(overlay_ok && r.chance(1, 4))
		{
			c.loc |= CL_OVERLAY;
			c.pos = static_cast<uint32_t>(
				r.chance(1, 8) ? r.range(0x7FFFFFF0U, 0x7FFFFFFFU)
							   : r.below(r.coin() ? 4 : 300));
			return c;
		}
	}
	else
	{
		c.loc = static_cast<uint8_t>(
			r.pick({CL_DECK, CL_HAND, CL_GRAVE, CL_REMOVED, CL_EXTRA}));
		c.seq = seq8 ? static_cast<uint32_t>(r.below(256)) : r.any<uint32_t>();
		if(overlay_ok && r.chance(1, 12))
		{
			c.loc |= CL_OVERLAY;
			c.pos = static_cast<uint32_t>(r.below(8));
			return c;
		}
	}
	c.pos = r.chance(1, 3) ? r.any<uint32_t>() : r.pick({1U, 2U, 4U, 8U, 0U, 10U});
	return c;
}

inline uint32_t g_count(Rng& r, uint32_t big = 300)
{
	switch(r.below(12))
	{
	case 0: return 0;
	case 1: return 1;
	case 2: return static_cast<uint32_t>(r.range(2, 3));
	case 3: return static_cast<uint32_t>(std::min<uint64_t>(big, r.range(254, 258)));
	case 4: return static_cast<uint32_t>(std::min<uint64_t>(big, r.range(100, 300)));
	default: return static_cast<uint32_t>(r.below(9));
	}
}

inline uint8_t g_count8(Rng& r)
{
	if(r.chance(1, 10))
		return static_cast<uint8_t>(r.pick({127, 128, 129, 254, 255}));
	return static_cast<uint8_t>(r.below(7));
}

struct Eff
{
	uint32_t code, index;
};
inline Eff g_eff(Rng& r) { return {r.any<uint32_t>(), r.any<uint32_t>() & 0xFFFFFU}; }
inline void w_eff(W& w, Eff e)
{
	w.u64((static_cast<uint64_t>(e.code) << 20) | e.index);
}
template<typename P>
inline void set_eff(P* p, Eff e)
{
	p->set_code(e.code);
	p->set_index(e.index);
}

using St = YGOpen::Codec::EncodeOneResult::State;

// What the stand-in context is asked and told.
struct MockCtx final : YGOpen::Codec::IEncodeContext
{
	std::array<std::map<uint32_t, size_t>, 2> piles;
	uint32_t match_reason = 0;
	bool xyz = false;
	std::vector<PPlace> deferred;
	std::map<PPlace, PPlace, YGOpen::Proto::Duel::PlaceLess> left;
	std::vector<std::string> calls; // Mutations only.
	uint64_t queries = 0;

	auto pile_size(Con c, Loc l) const noexcept -> size_t override
	{
		auto it = piles[static_cast<size_t>(c) & 1U].find(l);
		return it == piles[static_cast<size_t>(c) & 1U].end() ? 0 : it->second;
	}
	auto get_match_win_reason() const noexcept -> uint32_t override
	{
		return match_reason;
	}
	auto has_xyz_mat(Place const&) const noexcept -> bool override { return xyz; }
	auto get_xyz_left(Place const& p) const noexcept -> Place override
	{
		auto it = left.find(p);
		return it == left.end() ? Place{} : it->second;
	}
	auto match_win_reason(uint32_t r) noexcept -> void override
	{
		match_reason = r;
		calls.push_back("match_win_reason " + std::to_string(r));
	}
	static std::string s(Place const& p)
	{
		return std::to_string(p.con()) + "." + std::to_string(p.loc()) + "." +
		       std::to_string(p.seq()) + "." + std::to_string(p.oseq());
	}
	auto xyz_mat_defer(Place const& p) noexcept -> void override
	{
		deferred.push_back(p);
		calls.push_back("defer " + s(p));
	}
	auto take_deferred_xyz_mat() noexcept -> std::vector<Place> override
	{
		return std::exchange(deferred, {});
	}
	auto xyz_left(Place const& l, Place const& f) noexcept -> void override
	{
		left[l] = f;
		calls.push_back("left " + s(l) + " from " + s(f));
	}
};

enum class Kind
{
	EVENT,
	REQUEST,
	QUERY,
	SPECIAL,
	SWALLOWED,
	UNKNOWN,
	N
};

struct Case
{
	std::string name;
	Kind kind = Kind::EVENT;
	std::vector<uint8_t> bytes;
	St state = St::OK;
	PMsg want;
	bool exact = true;         // Compare the whole message with `want`.
	bool pile_places = false;  // Places denote piles: only con/loc matter.
	std::function<std::string(PMsg const&)> extra; // Additional judgement.
	std::vector<std::string> calls; // Mutations expected on the context.
	std::function<void(MockCtx&)> setup;
	uint64_t elems = 0; // Size of the biggest list.
	std::string shape;
	std::vector<PPlace> places;
};

// ---------------------------------------------------------------- queries
inline void w_q(W& w, uint32_t flag, W const& payload)
{
	w.u16(4 + payload.b.size()).u32(flag);
	w.b.insert(w.b.end(), payload.b.begin(), payload.b.end());
}

// One card's query block. Returns the overlay codes.
inline std::vector<uint32_t> g_query(Rng& r, W& w, PData& d, std::string& shape,
                                     int overlay_mode = 1) // 1 any, 0 empty, -1 none.
{
	std::vector<uint32_t> overlays;
	static const std::vector<uint32_t> FLAGS = {
		0x1, 0x2, 0x4, 0x8, 0x10, 0x20, 0x40, 0x80, 0x100, 0x200, 0x400, 0x800,
		0x4000, 0x8000, 0x10000, 0x20000, 0x40000, 0x80000, 0x100000, 0x200000,
		0x400000, 0x800000, 0x1000000, 0x2000000,
		/* unknown to the protocol: */ 0x1000, 0x2000, 0x4000000, 0x40000000};
	std::vector<uint32_t> flags;
	unsigned const density = static_cast<unsigned>(r.pick({0, 2, 6, 10}));
	// Now and then a block as large as its 16-bit size allows.
	bool huge = r.chance(1, 250);
	auto many = [&](uint32_t usual, uint32_t limit)
	{
		if(!huge || r.coin())
			return g_count(r, usual);
		huge = false;
		maxi("query_list", limit);
		return static_cast<uint32_t>(r.coin() ? limit : r.range(300, limit));
	};
	for(auto f : FLAGS)
		if(r.chance(density, 10))
			flags.push_back(f);
	if(r.chance(1, 3))
		r.shuffle(flags);
	for(auto f : flags)
	{
		if(f == 0x10000 && overlay_mode < 0)
			continue;
		W p;
		switch(f)
		{
#define VF_Q(FLAG, NAME, T, WR)                  \
	case FLAG:                                   \
	{                                            \
		auto v = r.any<T>();                     \
		p.WR(static_cast<uint64_t>(v));          \
		d.mutable_##NAME()->set_value(v);        \
		break;                                   \
	}
			VF_Q(0x1, code, uint32_t, u32)
			VF_Q(0x2, position, uint32_t, u32)
			VF_Q(0x4, alias, uint32_t, u32)
			VF_Q(0x8, type, uint32_t, u32)
			VF_Q(0x10, level, int32_t, u32)
			VF_Q(0x20, xyz_rank, uint32_t, u32)
			VF_Q(0x40, attribute, uint32_t, u32)
			VF_Q(0x80, race, uint64_t, u64)
			VF_Q(0x100, atk, int32_t, u32)
			VF_Q(0x200, def, int32_t, u32)
			VF_Q(0x400, base_atk, int32_t, u32)
			VF_Q(0x800, base_def, int32_t, u32)
			VF_Q(0x80000, status, uint32_t, u32)
			VF_Q(0x200000, pend_l_scale, uint32_t, u32)
			VF_Q(0x400000, pend_r_scale, uint32_t, u32)
			VF_Q(0x2000000, cover, uint32_t, u32)
#undef VF_Q
		case 0x4000:
		{
			auto c = g_place(r);
			w_loc(p, c);
			to_place(c, *d.mutable_equipped_to()->mutable_value());
			break;
		}
		case 0x8000:
		{
			auto n = many(20, 6552);
			p.u32(n);
			auto* t = d.mutable_targets();
			for(uint32_t i = 0; i < n; i++)
			{
				auto c = g_place(r);
				w_loc(p, c);
				to_place(c, *t->add_values());
			}
			break;
		}
		case 0x10000:
		{
			auto n = overlay_mode == 1 ? many(300, 16380) : 0U;
			p.u32(n);
			for(uint32_t i = 0; i < n; i++)
			{
				overlays.push_back(r.any<uint32_t>());
				p.u32(overlays.back());
			}
			break;
		}
		case 0x20000:
		{
			auto n = many(20, 16380);
			p.u32(n);
			auto* t = d.mutable_counters();
			for(uint32_t i = 0; i < n; i++)
			{
				auto* c = t->add_values();
				c->set_type(r.any<uint16_t>());
				c->set_count(r.any<uint16_t>());
				p.u32(c->type() | (c->count() << 16));
			}
			break;
		}
		case 0x40000:
		{
			auto v = r.below(2);
			p.u8(v);
			d.mutable_owner()->set_value(static_cast<int>(v));
			break;
		}
		case 0x100000:
		case 0x1000000:
		{
			bool v = r.coin();
			p.u8(v ? (r.chance(1, 4) ? r.range(1, 255) : 1) : 0);
			if(f == 0x100000)
				d.mutable_is_public()->set_value(v);
			else
				d.mutable_is_hidden()->set_value(v);
			break;
		}
		case 0x800000:
		{
			auto rate = r.any<uint32_t>(), arrow = r.any<uint32_t>();
			p.u32(rate).u32(arrow);
			d.mutable_link_rate()->set_value(rate);
			d.mutable_link_arrow()->set_value(arrow);
			break;
		}
		default: // Unknown flag with an arbitrary payload.
		{
			auto n = r.pick({0U, 1U, 4U, 10U, 255U, many(300, 65531)});
			for(unsigned i = 0; i < n; i++)
				p.u8(r.next());
			break;
		}
		}
		w_q(w, f, p);
		shape += std::to_string(__builtin_ctz(f)) + ",";
	}
	w.u16(4).u32(0x80000000U);
	return overlays;
}

// --------------------------------------------------------------- messages
// Which list of the next message has more elements than 16 bits can count.
inline thread_local int FORCED_LIST = -1;

struct Gen
{
	Rng& r;
	Case c;
	W w;
	bool huge = false;
	int lists = 0;
	explicit Gen(Rng& rng) : r(rng) {}

	Event* ev() { return c.want.mutable_event(); }
	Request* rq()
	{
		c.kind = Kind::REQUEST;
		auto con = r.below(2);
		w.u8(con);
		auto* q = c.want.mutable_request();
		q->set_replier(static_cast<int>(con));
		return q;
	}
	void head(char const* name, unsigned id)
	{
		c.name = name;
		w.u8(id);
	}
	uint32_t cnt(uint32_t big = 300)
	{
		auto n = g_count(r, big);
		if(FORCED_LIST >= 0 && big != 299)
		{
			huge = true;
			n = lists++ == FORCED_LIST
			        ? static_cast<uint32_t>(r.pick({65535, 65536, 65537, 65792, 66000}))
			        : std::min(n, 3U);
			if(n > 3U)
				maxi("forced_list", n);
		}
		else if(big == 300 && !huge && r.chance(1, 2500))
		{
			huge = true; // One list of a message at most.
			n = static_cast<uint32_t>(r.pick({65535, 65536, 65540}));
		}
		c.elems = std::max<uint64_t>(c.elems, n);
		return n;
	}
	uint8_t cnt8()
	{
		auto n = g_count8(r);
		c.elems = std::max<uint64_t>(c.elems, n);
		return n;
	}
	void code() { w.u32(r.any<uint32_t>()); }
	CorePlace loc(PPlace* p, bool overlay_ok = true)
	{
		auto l = g_place(r, overlay_ok);
		w_loc(w, l);
		to_place(l, *p);
		c.places.push_back(*p);
		return l;
	}
	// con u8, loc u8, seq u32/u8, no position.
	void short_loc(PPlace* p, bool seq8 = false, bool loc32 = false,
	               bool can_empty = false)
	{
		auto l = g_place(r, false, seq8);
		if(can_empty && r.chance(1, 12))
			l.loc = 0;
		w.u8(l.con);
		loc32 ? w.u32(l.loc) : w.u8(l.loc);
		seq8 ? w.u8(l.seq) : w.u32(l.seq);
		to_place(l, *p, false);
		c.places.push_back(*p);
	}
	Case done()
	{
		c.bytes = std::move(w.b);
		return std::move(c);
	}

	void zones(uint32_t bits, int first, std::vector<PPlace>& out, bool listed)
	{
		for(int half = 0; half < 2; half++)
		{
			int con = half == 0 ? first : 1 - first;
			uint32_t h = (bits >> (16 * half)) & 0xFFFFU;
			auto add = [&](unsigned bit, uint32_t loc, uint32_t seq)
			{
				if((((h >> bit) & 1U) != 0) != listed)
					return;
				PPlace p;
				set_place(p, con, loc, seq, -1);
				out.push_back(p);
			};
			for(unsigned i = 0; i < 7; i++)
				add(i, CL_MZONE, i);
			for(unsigned i = 0; i < 5; i++)
				add(8 + i, CL_SZONE, i);
			add(13, PL_FIELD, 0);
			add(14, PL_PENDULUM, 0);
			add(15, PL_PENDULUM, 1);
		}
	}
};

using GenFn = std::function<void(Gen&)>;

struct MsgKind
{
	char const* name;
	unsigned id;
	Kind kind;
	GenFn gen;
};

inline std::vector<MsgKind> const& all_kinds()
{
	static std::vector<MsgKind> const V = []
	{
		std::vector<MsgKind> v;
		auto E = [&](char const* n, unsigned id, GenFn f)
		{ v.push_back({n, id, Kind::EVENT, std::move(f)}); };
		auto R = [&](char const* n, unsigned id, GenFn f)
		{ v.push_back({n, id, Kind::REQUEST, std::move(f)}); };
		auto Q = [&](char const* n, unsigned id, GenFn f)
		{ v.push_back({n, id, Kind::QUERY, std::move(f)}); };
		auto P = [&](char const* n, unsigned id, GenFn f)
		{ v.push_back({n, id, Kind::SPECIAL, std::move(f)}); };
		auto S = [&](char const* n, unsigned id, GenFn f)
		{ v.push_back({n, id, Kind::SWALLOWED, std::move(f)}); };

		auto confirm = [](Gen& g)
		{
			auto* cf = g.ev()->mutable_meta()->mutable_confirm();
			g.w.u8(g.r.below(2));
			auto n = g.cnt();
			g.w.u32(n);
			for(uint32_t i = 0; i < n; i++)
			{
				g.code();
				g.short_loc(cf->add_places(), false, false, true);
			}
		};
		E("CONFIRM_DECKTOP", 30, confirm);
		E("CONFIRM_CARDS", 31, confirm);
		E("CONFIRM_EXTRATOP", 42, confirm);
		auto shuffle = [](uint32_t loc)
		{
			return [loc](Gen& g)
			{
				g.c.pile_places = true;
				auto con = g.r.below(2);
				g.w.u8(con);
				auto* p =
					g.ev()->mutable_meta()->mutable_shuffle_pile()->add_places();
				p->set_con(static_cast<int>(con));
				p->set_loc(loc);
				if(loc == CL_DECK)
					return;
				auto n = g.cnt();
				if(g.r.chance(1, 60))
					n = 70000;
				g.w.u32(n);
				for(uint32_t i = 0; i < n; i++)
					g.code();
			};
		};
		E("SHUFFLE_DECK", 32, shuffle(CL_DECK));
		E("SHUFFLE_HAND", 33, shuffle(CL_HAND));
		E("SHUFFLE_EXTRA", 39, shuffle(CL_EXTRA));
		E("SHUFFLE_SET_CARD", 36,
		  [](Gen& g)
		  {
			  auto* s = g.ev()->mutable_card()->mutable_shuffle();
			  bool const mz = g.r.coin();
			  g.w.u8(mz ? CL_MZONE : CL_SZONE);
			  unsigned const max = 5;
			  auto n = static_cast<uint8_t>(g.r.range(0, max));
			  g.w.u8(n);
			  auto con = static_cast<uint8_t>(g.r.below(2));
			  std::vector<uint32_t> seqs;
			  for(unsigned i = 0; i < (mz ? 7U : 5U); i++)
				  seqs.push_back(i);
			  g.r.shuffle(seqs);
			  for(int k = 0; k < 2; k++)
				  for(unsigned i = 0; i < n; i++)
				  {
					  CorePlace p{con,
					              static_cast<uint8_t>(mz ? CL_MZONE : CL_SZONE),
					              seqs[k == 0 ? i : n - 1 - i],
					              g.r.any<uint32_t>()};
					  if(k == 1 && g.r.coin())
						  p = {};
					  w_loc(g.w, p);
					  to_place(p, k == 0 ? *s->add_previous_places()
					                     : *s->add_current_places());
				  }
			  g.c.elems = n;
		  });
		E("NEW_TURN", 40,
		  [](Gen& g)
		  {
			  auto con = g.r.below(2);
			  g.w.u8(con);
			  g.ev()->set_next_turn(static_cast<int>(con));
		  });
		E("NEW_PHASE", 41,
		  [](Gen& g)
		  {
			  auto ph = g.r.chance(3, 4) ? 1U << g.r.below(10) : g.r.any<uint16_t>();
			  g.w.u16(ph);
			  g.ev()->set_next_phase(ph & 0xFFFFU);
		  });
		E("POS_CHANGE", 53,
		  [](Gen& g)
		  {
			  g.code();
			  g.short_loc(g.ev()->mutable_meta()->mutable_update()->add_places(),
			              true);
			  g.w.u8(g.r.next()).u8(g.r.next());
		  });
		E("SET", 54,
		  [](Gen& g)
		  {
			  g.code();
			  g.short_loc(g.ev()->mutable_meta()->mutable_update()->add_places());
			  g.w.u32(g.r.any<uint32_t>());
		  });
		E("SWAP", 55,
		  [](Gen& g)
		  {
			  auto* op = g.ev()->mutable_card()->mutable_exchange()->add_ops();
			  g.code();
			  g.loc(op->mutable_place_a());
			  g.code();
			  g.loc(op->mutable_place_b());
		  });
		E("FIELD_DISABLED", 56,
		  [](Gen& g)
		  {
			  // In this message a set bit is a disabled zone (in selections of
			  // zones it is one that cannot be selected).
			  auto bits = g.r.any<uint32_t>();
			  g.w.u32(bits);
			  std::vector<PPlace> set;
			  g.zones(bits, 0, set, true);
			  auto* zb = g.ev()->mutable_zone_block();
			  for(auto const& p : set)
				  *zb->add_zones() = p;
		  });
		auto summoning = [](uint64_t reason)
		{
			return [reason](Gen& g)
			{
				g.code();
				auto* u = g.ev()->mutable_meta()->mutable_update();
				g.loc(u->add_places());
				u->set_reason(reason);
			};
		};
		E("SUMMONING", 60, summoning(0x10));
		E("SPSUMMONING", 62, summoning(0x800));
		E("FLIPSUMMONING", 64, summoning(0x2000));
		E("CHAINING", 70,
		  [](Gen& g)
		  {
			  auto* p = g.ev()->mutable_chain_stack()->mutable_push();
			  g.code();
			  g.loc(p->mutable_card_place());
			  g.short_loc(p->mutable_place());
			  auto e = g_eff(g.r);
			  w_eff(g.w, e);
			  set_eff(p->mutable_effect(), e);
			  g.w.u32(g.r.below(300));
		  });
		auto status = [](YGOpen::Proto::Duel::ChainStatus s)
		{
			return [s](Gen& g)
			{
				g.w.u8(g.r.next());
				g.ev()->mutable_meta()->set_chain_status(s);
			};
		};
		E("CHAINED", 71, status(YGOpen::Proto::Duel::CHAIN_STATUS_CHAINED));
		E("CHAIN_SOLVING", 72, status(YGOpen::Proto::Duel::CHAIN_STATUS_SOLVING));
		E("CHAIN_NEGATED", 75,
		  status(YGOpen::Proto::Duel::CHAIN_STATUS_ACT_NEGATED));
		E("CHAIN_DISABLED", 76,
		  status(YGOpen::Proto::Duel::CHAIN_STATUS_EFF_NEGATED));
		E("CHAIN_SOLVED", 73,
		  [](Gen& g)
		  {
			  g.w.u8(g.r.next());
			  g.ev()->mutable_chain_stack()->set_pop(true);
		  });
		auto lp = [](int which)
		{
			return [which](Gen& g)
			{
				auto con = g.r.below(2);
				auto v = g.r.any<uint32_t>();
				g.w.u8(con).u32(v);
				auto* l = g.ev()->mutable_lp();
				l->set_controller(static_cast<int>(con));
				if(which == 0)
					l->set_damage(v);
				else if(which == 1)
					l->set_recover(v);
				else if(which == 2)
					l->set_become(v);
				else
					l->set_pay(v);
			};
		};
		E("DAMAGE", 91, lp(0));
		E("RECOVER", 92, lp(1));
		E("LPUPDATE", 94, lp(2));
		E("PAY_LPCOST", 100, lp(3));
		auto selected = [](bool with_player)
		{
			return [with_player](Gen& g)
			{
				if(with_player)
					g.w.u8(g.r.below(2));
				auto* s = g.ev()->mutable_meta()->mutable_selection();
				auto n = g.cnt();
				g.w.u32(n);
				for(uint32_t i = 0; i < n; i++)
					g.loc(s->add_selected_places());
			};
		};
		E("CARD_SELECTED", 80, selected(false));
		E("RANDOM_SELECTED", 81, selected(true));
		E("BECOME_TARGET", 83, selected(false));
		auto target = [](Gen& g)
		{
			auto* s = g.ev()->mutable_meta()->mutable_selection();
			g.loc(s->mutable_selector());
			g.loc(s->add_selected_places());
		};
		E("CARD_TARGET", 96, target);
		E("CANCEL_TARGET", 97, target);
		auto counter = [](Gen& g)
		{
			g.w.u16(g.r.next());
			g.short_loc(g.ev()->mutable_meta()->mutable_update()->add_places(),
			            true);
			g.w.u16(g.r.next());
		};
		E("ADD_COUNTER", 101, counter);
		E("REMOVE_COUNTER", 102, counter);
		E("ATTACK", 110,
		  [](Gen& g)
		  {
			  auto* a = g.ev()->mutable_meta()->mutable_attack();
			  g.loc(a->mutable_attacker());
			  if(g.r.coin())
				  g.loc(a->mutable_attack_target());
			  else
				  g.w.u8(0).u8(0).u32(0).u32(0);
		  });
		E("TOSS_COIN", 130,
		  [](Gen& g)
		  {
			  auto* x = g.ev()->mutable_result()->mutable_coin();
			  auto con = g.r.below(2);
			  auto n = g.cnt8();
			  g.w.u8(con).u8(n);
			  x->set_actor(static_cast<int>(con));
			  for(unsigned i = 0; i < n; i++)
			  {
				  bool v = g.r.coin();
				  g.w.u8(v);
				  x->add_values(v);
			  }
		  });
		E("TOSS_DICE", 131,
		  [](Gen& g)
		  {
			  auto* x = g.ev()->mutable_result()->mutable_dice();
			  auto con = g.r.below(2);
			  auto n = g.cnt8();
			  g.w.u8(con).u8(n);
			  x->set_actor(static_cast<int>(con));
			  for(unsigned i = 0; i < n; i++)
			  {
				  auto v = g.r.range(1, 6);
				  g.w.u8(v);
				  x->add_values(static_cast<uint32_t>(v));
			  }
		  });
		E("HAND_RES", 133,
		  [](Gen& g)
		  {
			  auto a = g.r.range(1, 3), b = g.r.range(1, 3);
			  g.w.u8(a | (b << 2));
			  auto* x = g.ev()->mutable_result()->mutable_rps();
			  x->add_values(static_cast<int>(a));
			  x->add_values(static_cast<int>(b));
		  });
		auto op_pile = [](YGOpen::Proto::Duel::Msg_Event_Pile_Resize* rz, int con,
		                  uint32_t loc, uint32_t n)
		{
			auto* op = rz->add_ops();
			set_place(*op->mutable_place(), con, loc, 0, -1);
			op->set_count(n);
		};
		E("START", 4,
		  [op_pile](Gen& g)
		  {
			  auto* s = g.ev()->mutable_board()->mutable_state();
			  g.w.u8(g.r.next());
			  s->set_turn_counter(0);
			  for(int i = 0; i < 2; i++)
			  {
				  auto v = g.r.any<uint32_t>();
				  g.w.u32(v);
				  s->add_lps(v);
			  }
			  for(int i = 0; i < 2; i++)
				  for(auto l : {CL_DECK, CL_EXTRA})
				  {
					  auto n = g.r.any<uint16_t>();
					  g.w.u16(n);
					  op_pile(s->mutable_resize(), i, l, n);
				  }
		  });
		E("TAG_SWAP", 161,
		  [op_pile](Gen& g)
		  {
			  auto* x = g.ev()->mutable_board()->mutable_exchange();
			  auto con = static_cast<int>(g.r.below(2));
			  x->set_con(con);
			  auto md = g.r.any<uint32_t>();
			  auto ed = g.cnt(), hd = g.cnt();
			  g.w.u8(con).u32(md).u32(ed).u32(g.r.below(ed + 1)).u32(hd);
			  op_pile(x->mutable_resize(), con, CL_DECK, md);
			  op_pile(x->mutable_resize(), con, CL_EXTRA, ed);
			  op_pile(x->mutable_resize(), con, CL_HAND, hd);
			  g.code();
			  for(uint32_t i = 0; i < ed + hd; i++)
				  g.w.u32(g.r.any<uint32_t>()).u32(g.r.any<uint32_t>());
		  });
		E("RELOAD_FIELD", 162,
		  [op_pile](Gen& g)
		  {
			  auto* s = g.ev()->mutable_board()->mutable_state();
			  auto flags = g.r.any<uint32_t>();
			  if(g.r.coin())
				  flags = (g.r.coin() ? 0x400000U : 0U) | (g.r.coin() ? 0x800U : 0U) |
				          (g.r.coin() ? 0x1000U : 0U) | (g.r.coin() ? 0x2000U : 0U);
			  g.w.u32(flags);
			  s->mutable_shape()->set_three_columns((flags & 0x400000U) != 0);
			  s->mutable_shape()->set_has_pzones((flags & 0x800U) != 0);
			  s->mutable_shape()->set_has_separate_pzones((flags & 0x1000U) != 0);
			  s->mutable_shape()->set_has_emzones((flags & 0x2000U) != 0);
			  s->set_turn_counter(-1);
			  for(int con = 0; con < 2; con++)
			  {
				  auto v = g.r.any<uint32_t>();
				  g.w.u32(v);
				  s->add_lps(v);
				  for(int k = 0; k < 2; k++)
					  for(unsigned seq = 0; seq < (k == 0 ? 7U : 8U); seq++)
					  {
						  if(g.r.coin())
						  {
							  g.w.u8(0);
							  continue;
						  }
						  g.w.u8(g.r.chance(1, 6) ? g.r.range(1, 255) : 1);
						  g.w.u8(g.r.next());
						  unsigned mats = g.r.chance(1, 3) ? g_count(g.r, g.r.chance(1, 12) ? 299 : 20) : 0;
						  if(FORCED_LIST >= 0)
							  mats = g.cnt(20);
						  g.w.u32(mats);
						  CorePlace cp{static_cast<uint8_t>(con),
						               static_cast<uint8_t>(k == 0 ? CL_MZONE
						                                           : CL_SZONE),
						               seq, 1};
						  to_place(cp, *s->mutable_add()->add_places());
						  cp.loc |= CL_OVERLAY;
						  for(unsigned o = 0; o < mats; o++)
						  {
							  cp.pos = o;
							  to_place(cp, *s->mutable_add()->add_places());
						  }
					  }
				  for(auto l : {CL_DECK, CL_HAND, CL_GRAVE, CL_REMOVED, CL_EXTRA})
				  {
					  auto n = g.r.any<uint32_t>();
					  g.w.u32(n);
					  op_pile(s->mutable_resize(), con, l, n);
				  }
				  g.w.u32(g.r.below(5));
			  }
			  auto n = g.cnt(40);
			  g.w.u32(n);
			  for(uint32_t i = 0; i < n; i++)
			  {
				  auto* ch = s->add_chains();
				  g.code();
				  g.loc(ch->mutable_card_place());
				  g.short_loc(ch->mutable_place());
				  auto e = g_eff(g.r);
				  w_eff(g.w, e);
				  set_eff(ch->mutable_effect(), e);
			  }
			  for(auto const& p : s->add().places())
				  g.c.places.push_back(p);
		  });
		E("PLAYER_HINT", 165,
		  [](Gen& g)
		  {
			  auto* d = g.ev()->mutable_meta()->mutable_description();
			  auto con = g.r.below(2);
			  bool add = g.r.coin();
			  g.w.u8(con).u8(add ? 6 - 5 : 2);
			  d->set_con(static_cast<int>(con));
			  auto e = g_eff(g.r);
			  w_eff(g.w, e);
			  set_eff(add ? d->mutable_add() : d->mutable_remove(), e);
		  });
		// ---- special events judged on their direct content
		P("WIN", 5,
		  [](Gen& g)
		  {
			  auto* f = g.ev()->mutable_finish();
			  auto who = g.r.below(3);
			  auto reason = g.r.any<uint8_t>();
			  g.w.u8(who).u8(reason);
			  f->set_win_reason(reason);
			  auto match = g.r.coin() ? g.r.any<uint32_t>() : 0U;
			  f->set_match_win_reason(match);
			  g.c.setup = [match](MockCtx& c) { c.match_reason = match; };
			  if(who == 2)
				  f->set_draw(true);
			  else
				  f->set_winner(static_cast<int>(who));
		  });
		P("DECK_TOP", 38,
		  [](Gen& g)
		  {
			  auto con = g.r.below(2);
			  auto size = g.r.range(1, 100), from_top = g.r.below(size);
			  g.w.u8(con).u32(from_top);
			  g.code();
			  g.w.u32(g.r.next());
			  auto* p = g.ev()->mutable_meta()->mutable_update()->add_places();
			  set_place(*p, static_cast<int>(con), CL_DECK,
			            static_cast<uint32_t>(size - 1 - from_top), -1);
			  g.c.places.push_back(*p);
			  g.c.setup = [con, size](MockCtx& c) { c.piles[con][CL_DECK] = size; };
		  });
		P("DRAW", 90,
		  [](Gen& g)
		  {
			  auto con = g.r.below(2);
			  auto size = g.cnt();
			  auto n = static_cast<uint32_t>(g.r.below(size + 1));
			  if(FORCED_LIST >= 0)
				  n = size;
			  g.w.u8(con).u32(n);
			  for(uint32_t i = 0; i < n; i++)
				  g.w.u32(g.r.next()).u32(g.r.next());
			  auto hand = g.r.below(20);
			  g.c.setup = [=](MockCtx& c)
			  {
				  c.piles[con][CL_DECK] = size;
				  c.piles[con][CL_HAND] = hand;
				  c.piles[1 - con][CL_DECK] = 7;
				  c.piles[1 - con][CL_HAND] = 3;
			  };
			  g.c.exact = false; // The splices themselves are judged by C06.
			  g.c.extra = [=](PMsg const& m) -> std::string
			  {
				  if(m.event().t_case() != Event::kPile)
					  return "not a pile event";
				  if(m.event().pile().reason() != 0x2000000U)
					  return "reason is not draw";
				  uint64_t total = 0;
				  for(auto const& op : m.event().pile().splice().ops())
				  {
					  if(op.from().con() != static_cast<int>(con) ||
					     op.to().con() != static_cast<int>(con))
						  return "wrong player";
					  total += op.count();
				  }
				  return total == n ? "" : "wrong number of cards drawn";
			  };
		  });
		P("REVERSE_DECK", 37,
		  [](Gen& g)
		  {
			  g.c.setup = [](MockCtx& c)
			  {
				  c.piles[0][CL_DECK] = 5;
				  c.piles[1][CL_DECK] = 9;
			  };
			  g.c.exact = false;
			  g.c.extra = [](PMsg const& m) -> std::string
			  {
				  if(m.event().t_case() != Event::kPile)
					  return "not a pile event";
				  return m.event().pile().reason() == 0x40U ? "" : "reason is not effect";
			  };
		  });
		P("SWAP_GRAVE_DECK", 35,
		  [](Gen& g)
		  {
			  auto con = g.r.below(2);
			  auto gy = g.cnt(60), md = g.cnt(60), ed = g.cnt(15);
			  g.w.u8(con).u32(g.r.below(ed + 1));
			  auto bytes = (gy + 7) / 8;
			  g.w.u32(bytes);
			  for(uint32_t i = 0; i < bytes; i++)
				  g.w.u8(g.r.next());
			  g.c.setup = [=](MockCtx& c)
			  {
				  c.piles[con][CL_DECK] = md;
				  c.piles[con][CL_GRAVE] = gy;
				  c.piles[con][CL_EXTRA] = ed;
			  };
			  g.c.exact = false;
			  g.c.extra = [con](PMsg const& m) -> std::string
			  {
				  if(m.event().t_case() != Event::kPile)
					  return "not a pile event";
				  for(auto const& op : m.event().pile().splice().ops())
					  if(op.from().con() != static_cast<int>(con) ||
					     op.to().con() != static_cast<int>(con))
						  return "wrong player";
				  return "";
			  };
		  });
		P("MOVE", 50,
		  [](Gen& g)
		  {
			  // Plain moves, additions and removals of non-materials; materials
			  // are the subject of C07.
			  g.code();
			  auto a = g_place(g.r, false), b = g_place(g.r, false);
			  auto const k = g.r.below(6);
			  if(k == 0 || k == 2)
				  a.loc = 0;
			  if(k == 1 || k == 2)
				  b.loc = 0;
			  w_loc(g.w, a);
			  w_loc(g.w, b);
			  auto reason = g.r.any<uint32_t>();
			  g.w.u32(reason);
			  if(k == 2)
			  {
				  g.c.state = St::SWALLOWED;
				  g.c.shape = "limbo-limbo";
				  return;
			  }
			  auto* card = g.ev()->mutable_card();
			  card->set_reason(reason);
			  if(k == 0)
				  to_place(b, *card->mutable_add()->add_places());
			  else if(k == 1)
				  to_place(a, *card->mutable_remove()->add_places());
			  else
			  {
				  auto* op = card->mutable_move()->add_ops();
				  to_place(a, *op->mutable_old_place());
				  to_place(b, *op->mutable_new_place());
			  }
			  g.c.shape = k == 0 ? "add" : k == 1 ? "remove" : "move";
			  if(k != 0)
				  g.c.places.push_back(place_of(a));
			  if(k != 1)
				  g.c.places.push_back(place_of(b));
		  });
		// ---- queries
		Q("UPDATE_DATA", 6,
		  [](Gen& g)
		  {
			  auto con = static_cast<uint8_t>(g.r.below(2));
			  auto loc = static_cast<uint8_t>(g.r.pick(
				  {CL_DECK, CL_HAND, CL_MZONE, CL_SZONE, CL_GRAVE, CL_REMOVED,
			       CL_EXTRA}));
			  unsigned n = loc == CL_MZONE   ? 7
			               : loc == CL_SZONE ? 8
			                                 : static_cast<unsigned>(
				                                   g.r.chance(1, 8) ? g.r.below(300)
				                                                    : g.r.below(12));
			  bool const wide = FORCED_LIST >= 0 && loc != CL_MZONE && loc != CL_SZONE;
			  if(wide)
			  {
				  n = static_cast<unsigned>(g.r.range(65537, 66000));
				  maxi("forced_list", n);
			  }
			  W body;
			  for(unsigned i = 0; i < n; i++)
			  {
				  if(wide ? i + 3 < n && g.r.chance(499, 500) : g.r.chance(1, 3))
				  {
					  body.u16(0);
					  if(!wide)
						  g.c.shape += "_";
					  continue;
				  }
				  auto* q = g.c.want.add_queries();
				  CorePlace cp{con, loc, i, 1};
				  to_place(cp, *q->mutable_place());
				  g.c.places.push_back(q->place());
				  std::string sh;
				  auto ov = g_query(g.r, body, *q->mutable_data(), sh,
				                    loc == CL_MZONE || loc == CL_SZONE);
				  g.c.shape += sh + ";";
				  for(size_t o = 0; o < ov.size(); o++)
				  {
					  auto* oq = g.c.want.add_queries();
					  CorePlace op{con, static_cast<uint8_t>(loc | CL_OVERLAY), i,
					               static_cast<uint32_t>(o)};
					  to_place(op, *oq->mutable_place());
					  g.c.places.push_back(oq->place());
					  oq->mutable_data()->mutable_code()->set_value(ov[o]);
				  }
			  }
			  g.w.u8(con).u8(loc).u32(body.b.size());
			  g.w.b.insert(g.w.b.end(), body.b.begin(), body.b.end());
			  g.c.elems = n;
		  });
		Q("UPDATE_CARD", 7,
		  [](Gen& g)
		  {
			  auto* q = g.c.want.add_queries();
			  auto cp = g_place(g.r, false, true);
			  g.w.u8(cp.con).u8(cp.loc).u8(cp.seq);
			  to_place(cp, *q->mutable_place(), false);
			  g.c.places.push_back(q->place());
			  auto ov = g_query(g.r, g.w, *q->mutable_data(), g.c.shape,
			                    cp.loc == CL_MZONE || cp.loc == CL_SZONE);
			  for(size_t o = 0; o < ov.size(); o++)
			  {
				  auto* oq = g.c.want.add_queries();
				  CorePlace op{cp.con, static_cast<uint8_t>(cp.loc | CL_OVERLAY),
				               cp.seq, static_cast<uint32_t>(o)};
				  to_place(op, *oq->mutable_place());
				  oq->mutable_data()->mutable_code()->set_value(ov[o]);
			  }
		  });
		// ---- requests
		R("ANNOUNCE_ATTRIB", 141,
		  [](Gen& g)
		  {
			  auto* x = g.rq()->mutable_select_attribute();
			  auto n = g.r.any<uint8_t>();
			  auto v = g.r.any<uint32_t>();
			  g.w.u8(n).u32(v);
			  x->set_count(n);
			  x->set_attribute(v);
		  });
		R("ANNOUNCE_RACE", 140,
		  [](Gen& g)
		  {
			  auto* x = g.rq()->mutable_select_race();
			  auto n = g.r.any<uint8_t>();
			  auto v = g.r.any<uint64_t>();
			  g.w.u8(n).u64(v);
			  x->set_count(n);
			  x->set_race(v);
		  });
		R("ANNOUNCE_NUMBER", 143,
		  [](Gen& g)
		  {
			  auto* x = g.rq()->mutable_select_number();
			  auto n = g.cnt8();
			  g.w.u8(n);
			  x->set_count(1);
			  for(unsigned i = 0; i < n; i++)
			  {
				  auto v = g.r.any<uint64_t>();
				  g.w.u64(v);
				  x->add_numbers(v);
			  }
		  });
		R("SELECT_CARD", 15,
		  [](Gen& g)
		  {
			  auto* x = g.rq()->mutable_select_card();
			  bool cancel = g.r.coin();
			  auto mn = g.r.any<uint32_t>(), mx = g.r.any<uint32_t>();
			  auto n = std::max(1U, g.cnt());
			  g.w.u8(cancel).u32(mn).u32(mx).u32(n);
			  if(g.r.chance(2, 3))
			  {
				  auto* u = x->mutable_unique_range();
				  u->set_can_cancel(cancel);
				  u->set_min(mn);
				  u->set_max(mx);
				  for(uint32_t i = 0; i < n; i++)
				  {
					  auto* k = u->add_cards();
					  auto code = g.r.any<uint32_t>();
					  g.w.u32(code);
					  k->set_code(code);
					  g.loc(k->mutable_place());
				  }
				  g.c.shape = "range";
			  }
			  else
			  {
				  auto* l = x->mutable_limbo();
				  l->set_can_cancel(cancel);
				  l->set_min(mn);
				  l->set_max(mx);
				  for(uint32_t i = 0; i < n; i++)
				  {
					  auto code = g.r.any<uint32_t>();
					  g.w.u32(code);
					  l->add_card_codes(code);
					  g.w.u8(g.r.below(2)).u8(0).u32(g.r.chance(1, 2) ? 0 : g.r.next())
						  .u32(g.r.chance(1, 2) ? 0 : g.r.next());
				  }
				  g.c.shape = "limbo";
			  }
		  });
		R("SELECT_UNSELECT_CARD", 26,
		  [](Gen& g)
		  {
			  auto* x = g.rq()->mutable_select_card()->mutable_recursive();
			  bool a = g.r.coin(), b = g.r.coin();
			  auto mn = g.r.any<uint32_t>(), mx = g.r.any<uint32_t>();
			  g.w.u8(a).u8(b).u32(mn).u32(mx);
			  x->set_can_finish(a);
			  x->set_accept(b);
			  x->set_min(mn);
			  x->set_max(mx);
			  for(int k = 0; k < 2; k++)
			  {
				  auto n = g.cnt();
				  g.w.u32(n);
				  for(uint32_t i = 0; i < n; i++)
				  {
					  auto* s = k == 0 ? x->add_selectable_cards()
					                   : x->add_deselectable_cards();
					  auto code = g.r.any<uint32_t>();
					  g.w.u32(code);
					  s->set_code(code);
					  g.loc(s->mutable_place());
				  }
			  }
		  });
		R("SELECT_TRIBUTE", 20,
		  [](Gen& g)
		  {
			  auto* x = g.rq()->mutable_select_card()->mutable_unique_tributes();
			  bool cancel = g.r.coin();
			  auto mn = g.r.any<uint32_t>(), mx = g.r.any<uint32_t>();
			  auto n = g.cnt();
			  g.w.u8(cancel).u32(mn).u32(mx).u32(n);
			  x->set_can_cancel(cancel);
			  x->set_tribute_min(mn);
			  x->set_tribute_max(mx);
			  for(uint32_t i = 0; i < n; i++)
			  {
				  auto* s = x->add_cards();
				  auto code = g.r.any<uint32_t>();
				  g.w.u32(code);
				  s->set_code(code);
				  g.short_loc(s->mutable_place());
				  auto k = g.r.any<uint8_t>();
				  g.w.u8(k);
				  s->set_count_as(k);
			  }
		  });
		R("SELECT_OPTION", 14,
		  [](Gen& g)
		  {
			  auto* x = g.rq()->mutable_select_effect();
			  auto n = g.cnt8();
			  g.w.u8(n);
			  x->set_count(1);
			  for(unsigned i = 0; i < n; i++)
			  {
				  auto e = g_eff(g.r);
				  w_eff(g.w, e);
				  set_eff(x->add_effects(), e);
			  }
		  });
		auto act_short = [](Gen& g, YGOpen::Proto::Duel::Msg_Request__ActCard* a)
		{
			g.code();
			g.short_loc(a->mutable_place());
			auto e = g_eff(g.r);
			w_eff(g.w, e);
			set_eff(a->mutable_effect(), e);
			g.w.u8(g.r.next());
		};
		R("SELECT_BATTLECMD", 10,
		  [act_short](Gen& g)
		  {
			  auto* x = g.rq()->mutable_select_idle();
			  x->set_is_battle_cmd(true);
			  auto n = g.cnt();
			  g.w.u32(n);
			  for(uint32_t i = 0; i < n; i++)
				  act_short(g, x->add_activable_cards());
			  n = g.cnt();
			  g.w.u32(n);
			  for(uint32_t i = 0; i < n; i++)
			  {
				  auto* a = x->add_can_attack_cards();
				  g.code();
				  g.short_loc(a->mutable_place(), true);
				  bool d = g.r.coin();
				  g.w.u8(d);
				  a->set_can_attack_directly(d);
			  }
			  bool m2 = g.r.coin(), ep = g.r.coin();
			  g.w.u8(m2).u8(ep);
			  x->set_available_phase((m2 ? 0x100U : 0U) | (ep ? 0x200U : 0U));
		  });
		R("SELECT_IDLECMD", 11,
		  [act_short](Gen& g)
		  {
			  auto* x = g.rq()->mutable_select_idle();
			  for(int k = 0; k < 5; k++)
			  {
				  auto n = g.cnt();
				  g.w.u32(n);
				  for(uint32_t i = 0; i < n; i++)
				  {
					  g.code();
					  auto* p = k == 0   ? x->add_summonable_cards()
					            : k == 1 ? x->add_spsummonable_cards()
					            : k == 2 ? x->add_repositionable_cards()
					            : k == 3 ? x->add_msetable_cards()
					                     : x->add_ssetable_cards();
					  g.short_loc(p, k == 2);
				  }
			  }
			  auto n = g.cnt();
			  g.w.u32(n);
			  for(uint32_t i = 0; i < n; i++)
				  act_short(g, x->add_activable_cards());
			  bool bp = g.r.coin(), ep = g.r.coin(), sh = g.r.coin();
			  g.w.u8(bp).u8(ep).u8(sh);
			  x->set_available_phase((bp ? 0x80U : 0U) | (ep ? 0x200U : 0U));
			  x->set_can_shuffle(sh);
		  });
		R("SELECT_POSITION", 19,
		  [](Gen& g)
		  {
			  auto* x = g.rq()->mutable_select_position();
			  auto code = g.r.any<uint32_t>();
			  auto pos = g.r.any<uint8_t>();
			  g.w.u32(code).u8(pos);
			  x->set_count(1);
			  x->set_code(code);
			  x->set_position(pos);
		  });
		R("ROCK_PAPER_SCISSORS", 132,
		  [](Gen& g) { g.rq()->set_select_rock_paper_scissors(true); });
		R("SELECT_CHAIN", 16,
		  [](Gen& g)
		  {
			  auto* x = g.rq()->mutable_select_to_chain();
			  auto spe = g.r.pick({0U, 1U, 0x7FU, 0x80U, 0x81U, 0xFFU, 2U, 0x40U});
			  bool forced = g.r.coin();
			  g.w.u8(spe).u8(forced).u32(g.r.next()).u32(g.r.next());
			  x->set_triggering((spe & 0x7FU) != 0);
			  x->set_forced(forced);
			  auto n = g.cnt();
			  g.w.u32(n);
			  for(uint32_t i = 0; i < n; i++)
			  {
				  auto* a = x->add_activable_cards();
				  g.code();
				  g.loc(a->mutable_place());
				  auto e = g_eff(g.r);
				  w_eff(g.w, e);
				  set_eff(a->mutable_effect(), e);
				  g.w.u8(g.r.next());
			  }
		  });
		R("SELECT_EFFECTYN", 12,
		  [](Gen& g)
		  {
			  auto* x = g.rq()->mutable_select_yes_no();
			  auto code = g.r.any<uint32_t>();
			  g.w.u32(code);
			  x->set_code(code);
			  g.loc(x->mutable_place());
			  auto e = g_eff(g.r);
			  w_eff(g.w, e);
			  set_eff(x->mutable_effect(), e);
		  });
		R("SELECT_YESNO", 13,
		  [](Gen& g)
		  {
			  auto* x = g.rq()->mutable_select_yes_no();
			  auto e = g_eff(g.r);
			  w_eff(g.w, e);
			  set_eff(x->mutable_effect(), e);
		  });
		auto sel_place = [](bool blocking)
		{
			return [blocking](Gen& g)
			{
				auto* q = g.rq();
				auto* x = q->mutable_select_zone();
				auto n = g.r.any<uint8_t>();
				auto bits = g.r.any<uint32_t>();
				g.w.u8(n).u32(bits);
				x->set_blocking(blocking);
				x->set_count(n);
				std::vector<PPlace> v;
				g.zones(bits, q->replier(), v, false);
				for(auto& p : v)
					*x->add_places() = p;
				g.c.places = v;
				g.c.shape = std::to_string(q->replier());
			};
		};
		R("SELECT_PLACE", 18, sel_place(false));
		R("SELECT_DISFIELD", 24, sel_place(true));
		auto sort = [](Gen& g)
		{
			auto* x = g.rq()->mutable_sort();
			auto n = g.cnt();
			g.w.u32(n);
			for(uint32_t i = 0; i < n; i++)
			{
				g.code();
				g.short_loc(x->add_places(), false, true);
			}
		};
		R("SORT_CHAIN", 21, sort);
		R("SORT_CARD", 25, sort);
		// ---- swallowed
		auto nothing = [](Gen&) {};
		S("RETRY", 1, nothing);
		S("SUMMONED", 61, nothing);
		S("SPSUMMONED", 63, nothing);
		S("FLIPSUMMONED", 65, nothing);
		S("CHAIN_END", 74, nothing);
		S("ATTACK_DISABLED", 112, nothing);
		S("DAMAGE_STEP_START", 113, nothing);
		S("DAMAGE_STEP_END", 114, nothing);
		S("BATTLE", 111,
		  [](Gen& g)
		  {
			  for(int i = 0; i < 2; i++)
			  {
				  w_loc(g.w, g_place(g.r));
				  g.w.u32(g.r.next()).u32(g.r.next()).u8(g.r.next());
			  }
		  });
		S("EQUIP", 93,
		  [](Gen& g)
		  {
			  w_loc(g.w, g_place(g.r));
			  w_loc(g.w, g_place(g.r));
		  });
		S("MISSED_EFFECT", 120,
		  [](Gen& g)
		  {
			  w_loc(g.w, g_place(g.r));
			  g.code();
		  });
		S("AI_NAME", 163,
		  [](Gen& g)
		  {
			  auto n = g.r.chance(1, 20) ? g.r.range(60000, 65535) : g.cnt(299);
			  g.w.u16(n);
			  for(uint64_t i = 0; i < n; i++)
				  g.w.u8(g.r.range('a', 'z'));
			  g.w.u8(0);
		  });
		S("HINT", 2,
		  [](Gen& g) { g.w.u8(g.r.next()).u8(g.r.below(2)).u64(g.r.next()); });
		S("CARD_HINT", 160,
		  [](Gen& g)
		  {
			  w_loc(g.w, g_place(g.r));
			  g.w.u8(g.r.range(1, 7)).u64(g.r.next());
		  });
		S("MATCH_KILL", 170,
		  [](Gen& g)
		  {
			  auto v = g.r.any<uint32_t>();
			  g.w.u32(v);
			  g.c.calls.push_back("match_win_reason " + std::to_string(v));
		  });
		return v;
	}();
	return V;
}

inline Case make_case(Rng& r, MsgKind const& k)
{
	Gen g(r);
	g.c.kind = k.kind;
	g.head(k.name, k.id);
	if(k.kind == Kind::SWALLOWED)
		g.c.state = St::SWALLOWED;
	k.gen(g);
	g.c.kind = k.kind;
	return g.done();
}

// Numbers the core never uses or that no longer exist.
inline Case make_unknown(Rng& r)
{
	Case c;
	c.name = "UNKNOWN";
	c.kind = Kind::UNKNOWN;
	c.state = St::UNKNOWN;
	auto id = r.pick({0U, 3U, 8U, 9U, 17U, 27U, 28U, 29U, 34U, 43U, 49U, 51U, 52U,
	                  66U, 77U, 82U, 95U, 121U, 122U, 123U, 164U, 166U, 171U, 180U,
	                  200U, 254U, 255U});
	c.bytes.push_back(static_cast<uint8_t>(id));
	c.shape = std::to_string(id);
	return c;
}

} // namespace vf
