// Random queries applied to cards of random fields. Q01, Q02 (and S01).
#include "fieldmodel.hpp"
#include "msgcmp.hpp"
#include "pbfill.hpp"
#include <ygopen/client/card.hpp>
#include <ygopen/client/default_card_traits.hpp>
#include <ygopen/client/frame.hpp>
#include <ygopen/client/frame_limbo.hpp>
#include <ygopen/client/parse_query.hpp>
#include <ygopen/client/undoable.hpp>

using namespace vf;
using YGOpen::Proto::Duel::Counter;
using Query = YGOpen::Proto::Duel::Msg::Query;
using Hit = YGOpen::Client::QueryCacheHit;

namespace
{

// The harness's own list of the attributes.
#define SCALARS(X)                         \
	X(CODE, Code, code)                    \
	X(POSITION, Position, position)        \
	X(ALIAS, Alias, alias)                 \
	X(TYPE, Type, type)                    \
	X(LEVEL, Level, level)                 \
	X(RANK, XyzRank, xyz_rank)             \
	X(ATTRIBUTE, Attribute, attribute)     \
	X(RACE, Race, race)                    \
	X(ATTACK, Atk, atk)                    \
	X(DEFENSE, Def, def)                   \
	X(BASE_ATTACK, BaseAtk, base_atk)      \
	X(BASE_DEFENSE, BaseDef, base_def)     \
	X(OWNER, Owner, owner)                 \
	X(STATUS, Status, status)              \
	X(IS_PUBLIC, IsPublic, is_public)      \
	X(LSCALE, PendLScale, pend_l_scale)    \
	X(RSCALE, PendRScale, pend_r_scale)    \
	X(IS_HIDDEN, IsHidden, is_hidden)      \
	X(COVER, Cover, cover)                 \
	X(LINK_RATE, LinkRate, link_rate)      \
	X(LINK_ARROW, LinkArrow, link_arrow)

struct UTraits
{
	using D = YGOpen::Client::DefaultCardTraits;
	template<typename T>
	using U = YGOpen::Client::BasicUndoable<T>;
#define X(NAME, Name, name) using Name##Type = U<D::Name##Type>;
	SCALARS(X)
#undef X
	using EquippedToType = U<D::EquippedToType>;
#ifndef VF_MINIMAL
	using TargetsType = U<D::TargetsType>;
	using CountersType = U<D::CountersType>;
#else // Uses no more of the types than the repository does itself.
	using TargetsType = D::TargetsType;
	using CountersType = D::CountersType;
#endif
};

struct Snap
{
	std::map<std::string, uint64_t> num;
	FPlace equipped;
	std::vector<FPlace> targets;
	std::vector<Counter> counters;
};

template<typename T, typename C>
struct Val
{
	static T get(C const& c) { return static_cast<T const&>(c); }
};

using D = YGOpen::Client::DefaultCardTraits;

template<typename Card>
Snap take(Card const& c)
{
	Snap s;
#define X(NAME, Name, name)                                           \
	{                                                                 \
		D::Name##Type const v = c.name();                             \
		s.num[#name] = static_cast<uint64_t>(v);                      \
	}
	SCALARS(X)
#undef X
	s.equipped = static_cast<FPlace const&>(c.equipped_to());
	s.targets = static_cast<std::vector<FPlace> const&>(c.targets());
	s.counters = static_cast<std::vector<Counter> const&>(c.counters());
	return s;
}

bool same_place(FPlace const& a, FPlace const& b)
{
	return a.con() == b.con() && a.loc() == b.loc() && a.seq() == b.seq() &&
	       a.oseq() == b.oseq();
}

std::string diff(Snap const& want, Snap const& got)
{
	for(auto& [k, v] : want.num)
		if(got.num.at(k) != v)
			return k + " is " + std::to_string(got.num.at(k)) + " instead of " +
			       std::to_string(v);
	if(!same_place(want.equipped, got.equipped))
		return "equipped_to differs";
	if(want.targets.size() != got.targets.size())
		return "number of targets differs";
	for(size_t i = 0; i < want.targets.size(); i++)
		if(!same_place(want.targets[i], got.targets[i]))
			return "target " + std::to_string(i) + " differs";
	if(want.counters.size() != got.counters.size())
		return "number of counters differs";
	for(size_t i = 0; i < want.counters.size(); i++)
		if(want.counters[i].type() != got.counters[i].type() ||
		   want.counters[i].count() != got.counters[i].count())
			return "counter " + std::to_string(i) + " differs";
	return "";
}

// Another list: anything, or the old one with a difference (or none).
template<typename T, typename New, typename Change>
void vary(Rng& rng, std::vector<T>& v, New fresh, Change change)
{
	auto add = [&]
	{
		T t;
		fresh(t);
		v.push_back(t);
	};
	if(v.empty() || rng.coin())
	{
		v.clear();
		for(auto k = rng.chance(1, 20) ? rng.below(60) : rng.below(4); k > 0; k--)
			add();
		return;
	}
	switch(rng.below(6))
	{
	case 0: change(v[rng.below(v.size())]); break;
	case 1: std::swap(v[rng.below(v.size())], v[rng.below(v.size())]); break;
	case 2: v.pop_back(); break;
	case 3: v.erase(v.begin()); break;
	case 4: add(); break;
	default: break;
	}
	count("lists_varied");
}

template<typename Frame>
void go(Rng& rng, char const* kind)
{
	Field m;
	Frame f;
	int next_id = 0;
	for(auto n = rng.range(1, 25); n > 0; n--)
	{
		auto o = f_gen(rng, m, rng.chance(1, 4) ? OpK::MOVE : OpK::ADD, next_id);
		if(!o)
			continue;
		f_run(f, *o);
		f_apply(m, *o);
	}
	auto const ids = m.all();
	std::vector<FPlace> places;
	for(auto& [k, p] : m.piles)
		for(size_t i = 0; i < p.size(); i++)
			places.push_back(fp(k.first, k.second, i));
	for(auto& [k, zs] : m.zones)
		for(size_t s = 0; s < zs.size(); s++)
		{
			if(zs[s].card >= 0)
				places.push_back(fp(k.first, k.second, s));
			for(size_t i = 0; i < zs[s].mats.size(); i++)
				places.push_back(fp(k.first, k.second, s, static_cast<int>(i)));
		}
	if(places.empty())
		return;
	std::vector<Snap> model;
	Frame const& cf = f;
	for(auto& p : places)
		model.push_back(take(cf.card(p)));
	std::string sig;
	for(auto n = rng.range(1, 40); n > 0; n--)
	{
		if(rng.chance(1, 6))
		{ // Cards take what is known of them along.
			auto const a = rng.below(places.size()), b = rng.below(places.size());
			if(a != b && YGOpen::Proto::Duel::is_pile(places[a]) &&
			   YGOpen::Proto::Duel::is_pile(places[b]))
			{
				f.card_swap(places[a], places[b]);
				std::swap(model[a], model[b]);
				count("swapped");
			}
		}
		auto const w = rng.coin() ? 0 : rng.below(places.size());
		auto& s = model[w];
		auto const old = s;
		Query q;
		*q.mutable_place() = places[w];
		auto& d = *q.mutable_data();
		uint64_t want = 0, present = 0;
		auto const density = static_cast<unsigned>(rng.pick({1, 3, 8, 10}));
		std::string what;
#define X(NAME, Name, name)                                                         \
	if(rng.chance(density, 10))                                                     \
	{                                                                               \
		using V = decltype(d.name().value());                                       \
		V v = static_cast<V>(rng.any<uint64_t>());                                  \
		if(rng.chance(2, 5))                                                        \
			v = static_cast<V>(s.num[#name]);                                       \
		else if(rng.chance(1, 4))                                                   \
			v = static_cast<V>(s.num[#name] ^ (1ULL << rng.below(8 * sizeof(V))));  \
		d.mutable_##name()->set_value(v);                                           \
		uint64_t const as = static_cast<uint64_t>(static_cast<D::Name##Type>(v));   \
		present |= static_cast<uint64_t>(Hit::NAME);                                \
		if(as == s.num[#name])                                                      \
			want |= static_cast<uint64_t>(Hit::NAME);                               \
		s.num[#name] = as;                                                          \
		what += #name " ";                                                          \
	}
		SCALARS(X)
#undef X
		if(rng.chance(density, 10))
		{
			auto p = s.equipped;
			if(rng.chance(2, 5))
				switch(rng.below(4))
				{ // One field differs.
				case 0: p.set_con(p.con() ^ 1); break;
				case 1: p.set_loc(p.loc() ^ 4U); break;
				case 2: p.set_seq(p.seq() ^ 1U); break;
				default: p.set_oseq(p.oseq() ^ 1);
				}
			else if(rng.coin())
				p = fp(static_cast<int>(rng.below(2)), rng.any<uint32_t>(), rng.below(9),
				       static_cast<int>(rng.below(3)) - 1);
			*d.mutable_equipped_to()->mutable_value() = p;
			present |= static_cast<uint64_t>(Hit::EQUIP_CARD);
			if(same_place(p, s.equipped))
				want |= static_cast<uint64_t>(Hit::EQUIP_CARD);
			s.equipped = p;
			what += "equipped_to ";
		}
		if(rng.chance(density, 10))
		{
			auto& l = *d.mutable_targets();
			vary(rng, s.targets, [&](auto& t) { pb_fill(rng, t); },
			     [&](auto& t)
			     {
					 switch(rng.below(4))
					 {
					 case 0: t.set_con(t.con() ^ 1); break;
					 case 1: t.set_loc(t.loc() ^ 4U); break;
					 case 2: t.set_seq(t.seq() ^ 1U); break;
					 default: t.set_oseq(t.oseq() ^ 1);
					 }
				 });
			for(auto const& t : s.targets)
				*l.add_values() = t;
			what += "targets ";
			count("target_lists");
		}
		if(rng.chance(density, 10))
		{
			auto& l = *d.mutable_counters();
			vary(rng, s.counters, [&](auto& t) { pb_fill(rng, t); },
			     [&](auto& t)
			     {
					 if(rng.coin())
						 t.set_count(t.count() + 1);
					 else
						 t.set_type(t.type() ^ 1U);
				 });
			for(auto const& t : s.counters)
				*l.add_values() = t;
			what += "counters ";
			count("counter_lists");
		}
		bool const cache = rng.coin();
		at("query");
		auto const before = q.SerializeAsString();
		auto const hits = static_cast<uint64_t>(
			cache ? YGOpen::Client::parse_query<true>(f, q)
				  : YGOpen::Client::parse_query<false>(f, q));
		count("queries");
		count("hits_expected", static_cast<uint64_t>(__builtin_popcountll(cache ? want : 0)));
		count("misses_expected",
		      static_cast<uint64_t>(__builtin_popcountll(cache ? present & ~want : 0)));
		sig += std::to_string(present * 2 + cache) + ",";
		if(hits != (cache ? want : 0))
		{
			violate({"Q02"}, cache ? "hits" : "hits_uncached",
			        std::string(kind) + " query of " + str(places[w]) + " with " + what +
			            ": hits " + std::to_string(hits) + " instead of " +
			            std::to_string(cache ? want : 0));
			return;
		}
		for(size_t i = 0; i < places.size(); i++)
		{
			auto e = diff(model[i], take(cf.card(places[i])));
			count("cards_compared");
			if(e.empty())
				continue;
			// Both ways have to give the same.
			violate({"Q01"}, i == w ? "value" : "other_card",
			        std::string(kind) + " card at " + str(places[i]) + " after the query of " +
			            str(places[w]) + " with " + what + ": " + e);
			violate({"Q02"}, "cached_value",
			        std::string(kind) + (cache ? " cached" : " uncached") + " query: " + e);
			return;
		}
		if(q.SerializeAsString() != before)
		{
			violate({"Q01"}, "query_changed", "the query itself was changed");
			return;
		}
		if(n == 1)
			sample(std::string(kind) + " " + str(places[w]) + ": " + what);
	}
	distinct(sig);
	static_cast<void>(ids);
}

void one(Rng& rng)
{
	static bool const flags = []
	{
		std::vector<uint64_t> v{static_cast<uint64_t>(Hit::EQUIP_CARD)};
#define X(NAME, Name, name) v.push_back(static_cast<uint64_t>(Hit::NAME));
		SCALARS(X)
#undef X
		uint64_t all = 0;
		for(auto x : v)
		{
			if(x == 0 || (x & (x - 1)) != 0 || (all & x) != 0)
				return false;
			all |= x;
		}
		return true;
	}();
	if(!flags)
		return violate({"Q02"}, "flags", "hit flags are not distinct bits");
	using PCard = YGOpen::Client::BasicCard<D>;
	using UCard = YGOpen::Client::BasicCard<UTraits>;
	switch(rng.below(3))
	{
	case 0: return go<YGOpen::Client::BasicFrame<PCard>>(rng, "plain");
	case 1: return go<YGOpen::Client::BasicFrame<UCard>>(rng, "undoable card");
	default: return go<YGOpen::Client::LimboFrame<UCard>>(rng, "undoable");
	}
}

} // namespace

int main(int argc, char** argv) { return drive(argc, argv, one); }
