// A plain list-based model of a duel field, a generator of operations valid on
// it, and a card type that watches its own lifetime.
#pragma once
#include "common.hpp"
#include <optional>
#include <ygopen/proto/duel/data.hpp>
#include <ygopen/proto/duel/msg.hpp>

namespace vf
{

using FPlace = YGOpen::Proto::Duel::Place;
using FEvent = YGOpen::Proto::Duel::Msg::Event;
using FCon = YGOpen::Duel::Controller;
using FLoc = YGOpen::Duel::Location;

// ------------------------------------------------------------ lifetime watch
struct Watch
{
	uint64_t next = 1;
	uint64_t born = 0;
	std::set<uint64_t> live;
	std::vector<uint64_t> died; // Since last cleared.
	std::string error;
	uint64_t birth()
	{
		born++;
		live.insert(next);
		return next++;
	}
	void death(uint64_t tag)
	{
		if(live.erase(tag) == 0)
			error = "card #" + std::to_string(tag) + " was destroyed twice";
		died.push_back(tag);
	}
	void reset() { *this = Watch{}; }
};

inline Watch& watch()
{
	static Watch w;
	return w;
}

struct TCard
{
	uint64_t tag;
	uint64_t data = 0;
	std::unique_ptr<uint64_t> owned; // So that ASan sees misuse.
	TCard() : tag(watch().birth()), owned(new uint64_t(tag)) {}
	TCard(TCard&& o) noexcept
		: tag(std::exchange(o.tag, 0)), data(o.data), owned(std::move(o.owned))
	{}
	TCard(TCard const& o)
		: tag(watch().birth()), data(o.data), owned(new uint64_t(tag))
	{}
	TCard& operator=(TCard&& o) noexcept
	{
		if(tag != 0)
			watch().death(tag);
		tag = std::exchange(o.tag, 0);
		data = o.data;
		owned = std::move(o.owned);
		return *this;
	}
	~TCard()
	{
		if(tag != 0)
			watch().death(tag);
	}
};

// -------------------------------------------------------------------- model
constexpr uint32_t F_PILES[] = {0x1, 0x2, 0x10, 0x20, 0x40};
struct ZoneKind
{
	uint32_t loc;
	uint32_t n;
};
constexpr ZoneKind F_ZONES[] = {{0x4, 7}, {0x8, 5}, {0x100, 1}, {0x200, 2}, {0x400, 1}};

struct FZone
{
	int card = -1;
	std::vector<int> mats;
	bool operator==(FZone const& o) const { return card == o.card && mats == o.mats; }
	bool empty() const { return card < 0 && mats.empty(); }
};

struct Field
{
	std::map<std::pair<int, uint32_t>, std::vector<int>> piles;
	std::map<std::pair<int, uint32_t>, std::vector<FZone>> zones;
	Field()
	{
		for(int c = 0; c < 2; c++)
		{
			for(auto l : F_PILES)
				piles[{c, l}];
			for(auto k : F_ZONES)
				zones[{c, k.loc}].resize(k.n);
		}
	}
	std::vector<int>& pile(FPlace const& p) { return piles.at({p.con(), p.loc()}); }
	FZone& zone(FPlace const& p) { return zones.at({p.con(), p.loc()}).at(p.seq()); }
	std::vector<int> all() const
	{
		std::vector<int> v;
		for(auto& p : piles)
			v.insert(v.end(), p.second.begin(), p.second.end());
		for(auto& zs : zones)
			for(auto& z : zs.second)
			{
				if(z.card >= 0)
					v.push_back(z.card);
				v.insert(v.end(), z.mats.begin(), z.mats.end());
			}
		return v;
	}
	bool operator==(Field const& o) const { return piles == o.piles && zones == o.zones; }
};

inline bool f_pile(uint32_t loc) { return (loc & 0x73U) != 0; }

inline FPlace fp(int con, uint32_t loc, uint64_t seq, int oseq = -1)
{
	FPlace p;
	p.set_con(con);
	p.set_loc(loc);
	p.set_seq(static_cast<uint32_t>(seq));
	p.set_oseq(oseq);
	return p;
}

inline std::string str(FPlace const& p)
{
	return std::to_string(p.con()) + "." + std::to_string(p.loc()) + "." +
	       std::to_string(p.seq()) + (p.oseq() >= 0 ? "." + std::to_string(p.oseq()) : "");
}

enum class OpK
{
	ADD,
	REMOVE,
	MOVE,
	SWAP,
	SHUFFLE,
	RESIZE,
	SPLICE,
	PSWAP,
	CLEAR,
	COUNT
};
inline char const* op_name(OpK k)
{
	static char const* n[] = {"add",    "remove", "move",      "swap", "shuffle",
	                          "resize", "splice", "pile_swap", "clear"};
	return n[static_cast<int>(k)];
}

struct Op
{
	OpK k = OpK::ADD;
	FPlace a, b;
	size_t n = 0;
	bool rev = false;
	std::vector<FPlace> prev, cur; // SHUFFLE
	std::vector<int> ids;          // Cards created by it.
};

inline std::string str(Op const& o)
{
	std::string s = op_name(o.k);
	s += " " + str(o.a) + (o.k == OpK::ADD || o.k == OpK::REMOVE ? "" : ">" + str(o.b)) + " n" +
	     std::to_string(o.n) + (o.rev ? "r" : "");
	for(size_t i = 0; i < o.prev.size(); i++)
		s += " " + str(o.prev[i]) + ">" + str(o.cur[i]);
	return s;
}

// ---------------------------------------------------------------- generation
struct FGen
{
	Rng& rng;
	Field const& f;

	FPlace any_pile(uint64_t seq = 0)
	{
		return fp(static_cast<int>(rng.below(2)), F_PILES[rng.below(5)], seq);
	}
	std::vector<FPlace> zones(std::function<bool(FZone const&)> const& pred) const
	{
		std::vector<FPlace> v;
		for(auto& [k, zs] : f.zones)
			for(size_t i = 0; i < zs.size(); i++)
				if(pred(zs[i]))
					v.push_back(fp(k.first, k.second, i));
		return v;
	}
	FZone const& Z(FPlace const& p) const { return f.zones.at({p.con(), p.loc()}).at(p.seq()); }
	std::vector<int> const& P(FPlace const& p) const { return f.piles.at({p.con(), p.loc()}); }

	std::optional<FPlace> pick(std::vector<FPlace> const& v)
	{
		if(v.empty())
			return {};
		return rng.pick(v);
	}
	// Any place that holds a card.
	std::optional<FPlace> card(bool mats = true)
	{
		for(int t = 0; t < 4; t++)
		{
			auto k = rng.below(6);
			if(k < 2)
			{
				auto z = pick(zones([](FZone const& x) { return x.card >= 0; }));
				if(z)
					return z;
			}
			else if(k < 4 && mats)
			{
				auto z = pick(zones([](FZone const& x) { return !x.mats.empty(); }));
				if(z)
				{
					z->set_oseq(static_cast<int>(index(Z(*z).mats.size())));
					return z;
				}
			}
			else
			{
				auto p = any_pile();
				auto n = P(p).size();
				if(n == 0)
					continue;
				p.set_seq(static_cast<uint32_t>(index(n)));
				return p;
			}
		}
		return {};
	}
	// Index below n, ends preferred.
	uint64_t index(uint64_t n)
	{
		auto r = rng.below(4);
		return r == 0 ? 0 : r == 1 ? n - 1 : rng.below(n);
	}
	// A place where a card can be put, given the field without the moved card.
	std::optional<FPlace> target(Field const& g)
	{
		auto k = rng.below(6);
		FGen o{rng, g};
		if(k < 2)
			return o.pick(o.zones([](FZone const& x) { return x.card < 0; }));
		if(k < 4)
		{
			// Materials, of a card preferably.
			auto z = o.pick(o.zones([&](FZone const& x)
			                        { return x.card >= 0 || !x.mats.empty(); }));
			if(!z && rng.chance(1, 3))
				z = o.pick(o.zones([](FZone const&) { return true; }));
			if(z && rng.coin()) // Build up stacks of many materials.
				for(auto& q : o.zones([](FZone const& x) { return !x.mats.empty(); }))
					if(o.Z(q).mats.size() > o.Z(*z).mats.size())
						z = q;
			if(z)
				z->set_oseq(static_cast<int>(o.index(o.Z(*z).mats.size() + 1)));
			return z;
		}
		auto p = any_pile();
		p.set_seq(static_cast<uint32_t>(o.index(o.P(p).size() + 1)));
		return p;
	}
};

inline int f_take(Field& f, FPlace const& p)
{
	int id;
	if(f_pile(p.loc()))
	{
		auto& v = f.pile(p);
		id = v.at(p.seq());
		v.erase(v.begin() + p.seq());
		return id;
	}
	auto& z = f.zone(p);
	if(p.oseq() < 0)
		return std::exchange(z.card, -1);
	id = z.mats.at(static_cast<size_t>(p.oseq()));
	z.mats.erase(z.mats.begin() + p.oseq());
	return id;
}

inline void f_put(Field& f, FPlace const& p, int id)
{
	if(f_pile(p.loc()))
	{
		auto& v = f.pile(p);
		v.insert(v.begin() + p.seq(), id);
		return;
	}
	auto& z = f.zone(p);
	if(p.oseq() < 0)
		z.card = id;
	else
		z.mats.insert(z.mats.begin() + p.oseq(), id);
}

inline int& f_slot(Field& f, FPlace const& p)
{
	if(f_pile(p.loc()))
		return f.pile(p).at(p.seq());
	auto& z = f.zone(p);
	return p.oseq() < 0 ? z.card : z.mats.at(static_cast<size_t>(p.oseq()));
}

// Applies to the model. Shuffled cards nobody was told about are left to the
// caller (`unknown`: places whose card is any of those).
inline void f_apply(Field& f, Op const& o, std::vector<FPlace>* unknown = nullptr)
{
	switch(o.k)
	{
	case OpK::ADD: f_put(f, o.a, o.ids.at(0)); break;
	case OpK::REMOVE: f_take(f, o.a); break;
	case OpK::MOVE:
		if(!f_pile(o.a.loc()) && !f_pile(o.b.loc()) && o.a.oseq() < 0 && o.b.oseq() < 0)
		{
			std::swap(f.zone(o.a), f.zone(o.b));
			break;
		}
		f_put(f, o.b, f_take(f, o.a));
		break;
	case OpK::SWAP:
		if(!f_pile(o.a.loc()) && !f_pile(o.b.loc()) && o.a.oseq() < 0 && o.b.oseq() < 0)
			std::swap(f.zone(o.a), f.zone(o.b));
		else
			std::swap(f_slot(f, o.a), f_slot(f, o.b));
		break;
	case OpK::SHUFFLE:
	{
		std::vector<FZone> from;
		std::set<uint32_t> left;
		for(auto& p : o.prev)
		{
			from.push_back(f.zone(p));
			left.insert(p.seq());
		}
		for(size_t i = 0; i < o.cur.size(); i++)
			if(o.cur[i].loc() != 0)
			{
				f.zone(o.cur[i]) = from[i];
				left.erase(o.cur[i].seq());
			}
		auto it = left.begin();
		for(size_t i = 0; i < o.cur.size(); i++)
			if(o.cur[i].loc() == 0)
			{
				auto p = fp(o.prev[0].con(), o.prev[0].loc(), *it++);
				f.zone(p) = from[i];
				if(unknown != nullptr)
					unknown->push_back(p);
			}
		break;
	}
	case OpK::RESIZE:
	{
		auto& p = f.pile(o.a);
		if(o.n < p.size())
			p.resize(o.n);
		else
			for(size_t i = 0; p.size() < o.n; i++)
				p.push_back(o.ids.at(i));
		break;
	}
	case OpK::SPLICE:
	{
		auto& a = f.pile(o.a);
		std::vector<int> v(a.begin() + o.a.seq(),
		                   a.begin() + o.a.seq() + static_cast<long>(o.n));
		a.erase(a.begin() + o.a.seq(), a.begin() + o.a.seq() + static_cast<long>(o.n));
		if(o.rev)
			std::reverse(v.begin(), v.end());
		auto& b = f.pile(o.b);
		b.insert(b.begin() + o.b.seq(), v.begin(), v.end());
		break;
	}
	case OpK::PSWAP: std::swap(f.pile(o.a), f.pile(o.b)); break;
	default:
		for(auto& p : f.piles)
			p.second.clear();
		for(auto& zs : f.zones)
			for(auto& z : zs.second)
				z = FZone{};
	}
}

// A random operation of the given kind that is valid on `f`.
inline std::optional<Op> f_gen(Rng& rng, Field const& f, OpK k, int& next_id,
                               size_t max_pile = 24)
{
	FGen g{rng, f};
	Op o;
	o.k = k;
	switch(k)
	{
	case OpK::ADD:
	{
		auto t = g.target(f);
		if(!t)
			return {};
		o.a = *t;
		o.ids = {next_id++};
		return o;
	}
	case OpK::REMOVE:
	{
		auto p = g.card();
		if(!p)
			return {};
		o.a = *p;
		return o;
	}
	case OpK::MOVE:
	{
		auto p = g.card();
		if(!p)
			return {};
		o.a = *p;
		bool const zcard = !f_pile(p->loc()) && p->oseq() < 0;
		Field rest = f;
		if(zcard && rng.coin())
		{
			// With its materials.
			auto t = g.pick(g.zones([](FZone const& z) { return z.empty(); }));
			if(!t)
				return {};
			o.b = *t;
			return o;
		}
		f_take(rest, *p);
		auto t = g.target(rest);
		if(!t)
			return {};
		o.b = *t;
		bool const to_zcard = !f_pile(t->loc()) && t->oseq() < 0;
		if(zcard && to_zcard)
		{
			if(!f.zones.at({t->con(), t->loc()}).at(t->seq()).empty())
				return {};
		}
		return o;
	}
	case OpK::SWAP:
	{
		auto a = g.card(), b = g.card();
		if(!a || !b)
			return {};
		auto heavy = [&](FPlace const& p)
		{ return !f_pile(p.loc()) && p.oseq() < 0 && !g.Z(p).mats.empty(); };
		if((heavy(*a) && f_pile(b->loc())) || (heavy(*b) && f_pile(a->loc())))
			return {};
		o.a = *a;
		o.b = *b;
		return o;
	}
	case OpK::SHUFFLE:
	{
		auto con = static_cast<int>(rng.below(2));
		auto zk = F_ZONES[rng.below(2)];
		if(rng.chance(1, 10))
			zk = F_ZONES[rng.below(5)];
		std::vector<FPlace> p;
		for(uint32_t i = 0; i < zk.n; i++)
			if(g.Z(fp(con, zk.loc, i)).card >= 0 && rng.chance(4, 5))
				p.push_back(fp(con, zk.loc, i));
		if(p.empty())
			return {};
		rng.shuffle(p);
		o.prev = p;
		rng.shuffle(p);
		unsigned known = static_cast<unsigned>(rng.pick({0, 3, 10, 10}));
		for(auto& x : p)
			if(!rng.chance(known, 10))
				x = fp(0, 0, 0, -1);
		o.cur = p;
		o.a = o.prev[0];
		return o;
	}
	case OpK::RESIZE:
	{
		o.a = g.any_pile();
		auto n = g.P(o.a).size();
		switch(rng.below(5))
		{
		case 0: o.n = 0; break;
		case 1: o.n = n; break;
		case 2: o.n = rng.below(n + 1); break;
		default: o.n = std::max<size_t>(n, rng.below(max_pile + 1));
		}
		// Few piles are large, and those soon shrink again.
		if(n < 60 && rng.chance(1, 60))
			o.n = rng.range(60, 320);
		else if(n >= 60 && rng.chance(1, 2))
			o.n = rng.below(n);
		maxi("pile_resized", std::max(n, o.n));
		for(size_t i = n; i < o.n; i++)
			o.ids.push_back(next_id++);
		return o;
	}
	case OpK::SPLICE:
	{
		o.a = g.any_pile();
		o.b = rng.chance(1, 3) ? o.a : g.any_pile();
		auto n = g.P(o.a).size();
		o.a.set_seq(static_cast<uint32_t>(rng.coin() ? 0 : rng.below(n + 1)));
		o.n = rng.coin() ? n - o.a.seq() : rng.below(n - o.a.seq() + 1);
		bool const same = o.a.con() == o.b.con() && o.a.loc() == o.b.loc();
		auto m = same ? n - o.n : g.P(o.b).size();
		o.b.set_seq(static_cast<uint32_t>(g.index(m + 1)));
		o.rev = rng.coin();
		return o;
	}
	case OpK::PSWAP:
		o.a = g.any_pile();
		o.b = g.any_pile();
		return o;
	default: return o;
	}
}

// --------------------------------------------------------------- application
template<typename F>
void f_run(F& frame, Op const& o)
{
	switch(o.k)
	{
	case OpK::ADD: static_cast<void>(frame.card_add(o.a)); break;
	case OpK::REMOVE: frame.card_remove(o.a); break;
	case OpK::MOVE: static_cast<void>(frame.card_move(o.a, o.b)); break;
	case OpK::SWAP: frame.card_swap(o.a, o.b); break;
	case OpK::SHUFFLE: frame.card_shuffle(o.prev.cbegin(), o.cur.cbegin(), o.prev.size()); break;
	case OpK::RESIZE: frame.pile_resize(o.a, o.n); break;
	case OpK::SPLICE: frame.pile_splice(o.a, o.n, o.b, o.rev); break;
	case OpK::PSWAP: frame.pile_swap(o.a, o.b); break;
	default: frame.clear();
	}
}

template<typename F>
void f_undo(F& frame, Op const& o)
{
	switch(o.k)
	{
	case OpK::ADD: static_cast<void>(frame.undo_card_add(o.a)); break;
	case OpK::REMOVE: static_cast<void>(frame.undo_card_remove(o.a)); break;
	case OpK::MOVE: static_cast<void>(frame.card_move(o.b, o.a)); break;
	case OpK::SWAP: frame.card_swap(o.a, o.b); break;
	case OpK::RESIZE: frame.undo_pile_resize(o.a, o.n); break;
	case OpK::SPLICE: frame.pile_splice(o.b, o.n, o.a, o.rev); break;
	case OpK::PSWAP: frame.pile_swap(o.a, o.b); break;
	default: frame.undo_clear();
	}
}

// --------------------------------------------------------------- comparison
template<typename F>
struct Tracker
{
	using Card = typename F::CardType;
	std::map<int, Card*> addr;
	std::map<Card*, int> who;
	std::map<int, uint64_t> tag, data;
	Rng noise{12345};
	uint64_t seen = 0;

	std::string learn(int id, Card* c)
	{
		auto w = who.find(c);
		if(w != who.end())
			return "new card #" + std::to_string(id) + " is the object of card #" +
			       std::to_string(w->second);
		if(watch().live.count(c->tag) == 0)
			return "new card #" + std::to_string(id) + " is not a live object";
		addr[id] = c;
		who[c] = id;
		tag[id] = c->tag;
		data[id] = c->data = noise.next();
		return "";
	}
	void forget(int id)
	{
		auto it = addr.find(id);
		if(it == addr.end())
			return;
		who.erase(it->second);
		addr.erase(it);
	}
	std::string one(int id, Card* c, std::string const& where)
	{
		seen++;
		if(c == nullptr)
			return where + ": no card";
		auto it = addr.find(id);
		if(it == addr.end())
		{
			auto e = learn(id, c);
			return e.empty() ? e : where + ": " + e;
		}
		if(it->second != c)
		{
			auto w = who.find(c);
			return where + ": expected card #" + std::to_string(id) + ", found " +
			       (w == who.end() ? std::string("an unknown one")
			                       : "#" + std::to_string(w->second));
		}
		if(c->tag != tag[id] || c->data != data[id] || !c->owned || *c->owned != c->tag)
			return where + ": contents of card #" + std::to_string(id) + " changed";
		return "";
	}
	// Known cards first, so that a new one cannot claim their object.
	std::string compare(F& frame, Field& m)
	{
		F const& cf = frame;
		std::string e;
		for(int pass = 0; pass < 2; pass++)
		{
			for(auto& [k, want] : m.piles)
			{
				auto const& got =
					cf.pile(static_cast<FCon>(k.first), static_cast<FLoc>(k.second));
				auto const w = "player " + std::to_string(k.first) + " location " +
				               std::to_string(k.second);
				if(got.size() != want.size())
					return w + ": " + std::to_string(got.size()) +
					       " cards instead of " + std::to_string(want.size());
				for(size_t i = 0; i < want.size(); i++)
					if((addr.count(want[i]) != 0) == (pass == 0))
						if(!(e = one(want[i], got[i], w + " sequence " +
						                                  std::to_string(i)))
						        .empty())
							return e;
			}
			for(auto& [k, zs] : m.zones)
				for(size_t s = 0; s < zs.size(); s++)
				{
					auto const& want = zs[s];
					auto const& got =
						cf.zone(static_cast<FCon>(k.first),
					            static_cast<FLoc>(k.second),
					            static_cast<uint32_t>(s));
					auto const w = "player " + std::to_string(k.first) +
					               " location " + std::to_string(k.second) +
					               " sequence " + std::to_string(s);
					if((want.card >= 0) != (got.card != nullptr))
						return w + (got.card != nullptr ? ": unexpected card"
						                                : ": card missing");
					if(want.card >= 0 && (addr.count(want.card) != 0) == (pass == 0))
						if(!(e = one(want.card, got.card, w)).empty())
							return e;
					if(got.materials.size() != want.mats.size())
						return w + ": " + std::to_string(got.materials.size()) +
						       " materials instead of " +
						       std::to_string(want.mats.size());
					for(size_t i = 0; i < want.mats.size(); i++)
						if((addr.count(want.mats[i]) != 0) == (pass == 0))
							if(!(e = one(want.mats[i], got.materials[i],
							             w + " material " +
							                 std::to_string(i)))
							        .empty())
								return e;
				}
		}
		return e;
	}
	// Which of the cards of `unknown` places is where is up to the frame.
	void resolve(F& frame, Field& m, std::vector<FPlace> const& unknown)
	{
		std::map<Card*, FZone> left;
		for(auto& p : unknown)
			if(addr.count(m.zone(p).card) != 0)
				left[addr[m.zone(p).card]] = m.zone(p);
		if(left.size() != unknown.size())
			return;
		std::vector<std::pair<FPlace, FZone>> fix;
		for(auto& p : unknown)
		{
			auto it = left.find(frame.zone(p).card);
			if(it == left.end())
				return; // The comparison will tell.
			fix.emplace_back(p, it->second);
			left.erase(it);
		}
		for(auto& [p, z] : fix)
			m.zone(p) = z;
	}
};

} // namespace vf
