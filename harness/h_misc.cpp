// Bit helpers (M01), places (M02), undoable values (U04) (and S01).
#include "fieldmodel.hpp"
#include <tuple>
#include <ygopen/bit.hpp>
#include <ygopen/client/frame.hpp>
#include <ygopen/client/undoable.hpp>

using namespace vf;

namespace
{

// ----------------------------------------------------------------------- M01
template<typename T>
void bits(T x, char const* w)
{
	std::vector<int> set; // Least significant first.
	for(int i = 0; i < static_cast<int>(sizeof(T) * 8); i++)
		if(((static_cast<uint64_t>(x) >> i) & 1U) != 0)
			set.push_back(i);
	at(std::string("bits of ") + w);
	count(std::string("values_") + w);
	if(YGOpen::Bit::popcnt(x) != set.size())
		return violate({"M01"}, "popcnt", std::string("popcnt of ") + w + " " + std::to_string(x) +
		                                      " is " + std::to_string(YGOpen::Bit::popcnt(x)));
	auto counts = std::vector<unsigned>{0, 1, 2, 3, static_cast<unsigned>(set.size()),
	                                    static_cast<unsigned>(set.size() + 1), sizeof(T) * 8,
	                                    sizeof(T) * 8 + 1, 0xFFFFFFFFU};
	if(!set.empty())
		counts.push_back(static_cast<unsigned>(set.size() - 1));
	for(unsigned k = 4; k < 64; k += 5)
		counts.push_back(k);
	for(auto n : counts)
	{
		uint64_t l = 0, r = 0;
		for(size_t i = 0; i < set.size() && i < n; i++)
		{
			r |= uint64_t{1} << set[i];
			l |= uint64_t{1} << set[set.size() - 1 - i];
		}
		T const gl = YGOpen::Bit::choosel(n, x), gr = YGOpen::Bit::chooser(n, x);
		count("choices");
		if(gl != static_cast<T>(l))
			return violate({"M01"}, "choosel",
			               std::string("choosel(") + std::to_string(n) + ", " + w + " " +
			                   std::to_string(x) + ") is " + std::to_string(gl) +
			                   " instead of " + std::to_string(l));
		if(gr != static_cast<T>(r))
			return violate({"M01"}, "chooser",
			               std::string("chooser(") + std::to_string(n) + ", " + w + " " +
			                   std::to_string(x) + ") is " + std::to_string(gr) +
			                   " instead of " + std::to_string(r));
	}
}

void m01(Rng& rng)
{
	auto const i = run().cur;
	bits(static_cast<uint8_t>(i), "8");
	bits(static_cast<uint16_t>(i * 40503U), "16");
	auto x = rng.any<uint64_t>();
	bits(static_cast<uint32_t>(rng.coin() ? x : rng.any<uint32_t>()), "32");
	bits(x, "64");
	bits(static_cast<unsigned long long>(rng.next()), "64");
	bits(static_cast<unsigned long>(rng.next() & rng.next() & rng.next()), "64");
	distinct(x);
	sample("8: " + std::to_string(i & 255) + ", 64: " + std::to_string(x));
}

// ----------------------------------------------------------------------- M02
void m02(Rng& rng)
{
	using namespace YGOpen::Proto::Duel;
	auto gen = [&]
	{
		FPlace p;
		bool const wide = rng.chance(1, 3);
		p.set_con(wide ? rng.any<int32_t>() : static_cast<int>(rng.below(2)));
		p.set_loc(wide ? rng.any<uint32_t>() : 1U << rng.below(11));
		p.set_seq(wide ? rng.any<uint32_t>() : static_cast<uint32_t>(rng.below(3)));
		p.set_oseq(wide ? rng.any<int32_t>() : static_cast<int>(rng.below(4)) - 1);
		return p;
	};
	auto mutate = [&](FPlace p)
	{
		switch(rng.below(5))
		{
		case 0: p.set_con(gen().con()); break;
		case 1: p.set_loc(gen().loc()); break;
		case 2: p.set_seq(gen().seq()); break;
		case 3: p.set_oseq(gen().oseq()); break;
		default: break;
		}
		return p;
	};
	auto key = [](FPlace const& p)
	{ return std::make_tuple(p.con(), p.loc(), p.seq(), p.oseq()); };
	std::vector<FPlace> v{gen()};
	while(v.size() < 10)
		v.push_back(rng.chance(3, 4) ? mutate(rng.pick(v)) : gen());
	PlaceLess const less{};
	auto bad = [&](char const* k, FPlace const& a, FPlace const& b)
	{ violate({"M02"}, k, std::string(k) + " fails for " + str(a) + " and " + str(b)); };
	at("comparing places");
	for(auto& a : v)
		for(auto& b : v)
		{
			bool const eq = key(a) == key(b);
			bool const l = less(a, b), g = less(b, a);
			count("pairs");
			if(l && g)
				return bad("asymmetry", a, b);
			if(eq != (!l && !g))
				return bad("consistency with equality", a, b);
			if((a == b) != eq)
				return bad("operator==", a, b);
			for(auto& c : v)
				if(l && less(b, c) && !less(a, c))
					return bad("transitivity", a, c);
		}
	std::set<FPlace, PlaceLess> s(v.begin(), v.end());
	std::set<std::tuple<int32_t, uint32_t, uint32_t, int32_t>> t;
	for(auto& p : v)
		t.insert(key(p));
	if(s.size() != t.size())
		return violate({"M02"}, "set", "a set keyed by places has the wrong size");
	// Locations.
	using namespace YGOpen::Duel;
	struct L
	{
		Location loc;
		bool pile;
		size_t lim;
	};
	static L const ls[] = {
		{LOCATION_MAIN_DECK, true, 0},  {LOCATION_HAND, true, 0},
		{LOCATION_GRAVEYARD, true, 0},  {LOCATION_BANISHED, true, 0},
		{LOCATION_EXTRA_DECK, true, 0}, {LOCATION_MONSTER_ZONE, false, 7},
		{LOCATION_SPELL_ZONE, false, 5}, {LOCATION_FIELD_ZONE, false, 1},
		{LOCATION_PENDULUM_ZONE, false, 2}, {LOCATION_SKILL_ZONE, false, 1}};
	YGOpen::Client::BasicFrame<TCard> frame;
	for(auto& l : ls)
	{
		auto p = gen();
		p.set_loc(l.loc);
		count("locations");
		at("location " + std::to_string(l.loc));
		if(is_pile(l.loc) != l.pile || is_zone(l.loc) == l.pile || is_empty(l.loc) ||
		   is_pile(p) != l.pile || is_zone(p) == l.pile || is_empty(p))
			return violate({"M02"}, "classification",
			               "location " + std::to_string(l.loc) + " is misclassified");
		if(get_con(p) != static_cast<Controller>(p.con()) || get_loc(p) != l.loc)
			return violate({"M02"}, "accessors", "accessors of " + str(p));
		if(l.pile)
			static_cast<void>(frame.pile(CONTROLLER_0, l.loc));
		else
		{
			if(YGOpen::Client::zone_seq_lim(l.loc) != l.lim)
				return violate({"M02"}, "zones",
				               "location " + std::to_string(l.loc) + " has " +
				                   std::to_string(YGOpen::Client::zone_seq_lim(l.loc)) +
				                   " zones");
			static_cast<void>(
				frame.zone(CONTROLLER_1, l.loc, static_cast<uint32_t>(l.lim - 1)));
		}
	}
	FPlace none = gen();
	none.set_loc(0);
	if(!is_empty(none) || is_pile(none) || is_zone(none))
		return violate({"M02"}, "classification", "no location is misclassified");
	std::string sig;
	for(auto& p : v)
		sig += str(p) + " ";
	distinct(sig);
	sample(sig);
}

// ----------------------------------------------------------------------- U04
template<typename T>
T value(Rng& rng)
{
	if constexpr(std::is_same_v<T, std::string>)
		return std::string(rng.below(40), static_cast<char>('a' + rng.below(26)));
	else if constexpr(std::is_same_v<T, std::vector<uint64_t>>)
	{
		std::vector<uint64_t> v(rng.below(20));
		for(auto& x : v)
			x = rng.next();
		return v;
	}
	else
		return static_cast<T>(rng.any<uint64_t>());
}

template<typename T>
void u04(Rng& rng, char const* kind)
{
	YGOpen::Client::BasicUndoable<T> u;
	std::vector<T> rec{T{}};
	size_t cur = 0;
	std::string hist, sig;
	bool const endless = run().cur % 5000 == 1234; // Beyond 65536 entries.
	for(auto n = endless ? 140000 : rng.range(1, 80); n > 0; n--)
	{
		if(endless)
		{
			hist.clear();
			sig.clear();
			count("endless_steps");
		}
		auto const r = endless && n % 512 != 0 ? 5 : rng.below(rng.chance(1, 8) ? 4 : 10);
		if(r < 3 && cur > 0)
		{
			for(auto k = rng.range(1, 5); k > 0 && cur > 0; k--)
			{
				at("undo");
				u.undo();
				cur--;
				hist += "undo ";
				sig += "<";
				count("undos");
			}
		}
		else
		{
			auto v = value<T>(rng);
			bool const end = cur + 1 == rec.size();
			// On the way forward the same value again, or whatever.
			if(!end && rng.coin())
				v = rec[cur + 1];
			at("assign");
			if constexpr(std::is_class_v<T>)
			{
				if(rng.coin())
					u.assign(v.begin(), v.end());
				else
					u = v;
			}
			else
				u = v;
			if(end)
				rec.push_back(v);
			cur++;
			hist += end ? "new " : "forward ";
			sig += end ? "+" : ">";
			count(end ? "appends" : "redos");
		}
		T const& now = u;
		count("reads");
		if(!(now == rec[cur]) || !(u == rec[cur]))
			return violate({"U04"}, "value",
			               std::string(kind) + " does not hold entry " + std::to_string(cur) +
			                   " of " + std::to_string(rec.size()) + " after " +
			                   hist.substr(hist.size() > 300 ? hist.size() - 300 : 0));
	}
	while(cur > 0)
	{
		u.undo();
		cur--;
		T const& now = u;
		if(!(now == rec[cur]))
			return violate({"U04"}, "unwind",
			               std::string(kind) + " loses entry " + std::to_string(cur));
	}
	distinct(kind + sig);
	sample(std::string(kind) + ": " + hist);
}

void one(Rng& rng)
{
	bool const all = active({"S01"});
	if(all || active({"M01"}))
		m01(rng);
	if(all || active({"M02"}))
		m02(rng);
	if(all || active({"U04"}))
		switch(rng.below(4))
		{
		case 0: return u04<uint32_t>(rng, "number");
		case 1: return u04<std::string>(rng, "string");
		case 2: return u04<std::vector<uint64_t>>(rng, "list");
		default: return u04<YGOpen::Duel::Location>(rng, "enum");
		}
}

} // namespace

int main(int argc, char** argv) { return drive(argc, argv, one); }
