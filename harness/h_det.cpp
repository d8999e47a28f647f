// S03: the same inputs processed in differently filled memory, at different
// places, after other duels and interleaved with other duels.
#include "work.hpp"
#include <malloc.h>

#ifndef VF_NO_FILL
namespace
{
uint8_t g_fill = 0;
long g_live = 0;
}
// All dynamic memory, protobuf's included, starts with the chosen bytes.
void* operator new(size_t n)
{
	void* p = std::malloc(n == 0 ? 1 : n);
	if(p == nullptr)
		std::abort();
	std::memset(p, g_fill, n);
	g_live++;
	return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept
{
	g_live -= p != nullptr ? 1 : 0;
	std::free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
#endif

namespace
{

__attribute__((noinline)) void fill_stack(uint8_t v)
{
	volatile uint8_t a[96 * 1024];
	for(size_t i = 0; i < sizeof a; i++)
		a[i] = v;
}

template<typename F>
work::Digest whole(F make, work::Env const& e)
{
#ifndef VF_NO_FILL
	g_fill = e.fill;
#endif
	auto w = make(e);
	fill_stack(e.fill);
	while(w->step())
		fill_stack(e.fill);
	auto d = std::move(w->out);
	return d;
}

// S01: once everything that is set up lazily is, a whole duel or room gives all
// of its memory back.
template<typename F>
void leak_case(std::string const& what, F make)
{
#ifndef VF_NO_FILL
	for(int k = 0; k < 3; k++)
	{
		at("leaks of a " + what);
		auto const before = g_live;
		{
			auto w = make(work::Env{});
			while(w->step())
				;
		}
		auto const kept = g_live - before;
		count("lifetimes");
		if(k > 0 && kept != 0)
			return violate({"S01"}, "leak:" + what,
			               "a whole " + what + " left " + std::to_string(kept) +
			                   " memory blocks behind");
	}
	distinct(static_cast<uint64_t>(run().cur));
#else
	(void)what, (void)make;
#endif
}

void det_case(Rng& r)
{
	at("generating");
	bool const rooms = r.chance(1, 3);
	auto const seed_a = r.next(), seed_b = r.next();
	work::Script a, b;
	if(!rooms)
	{
		a = work::make_script(r, r.range(15, 60));
		b = work::make_script(r, r.range(15, 60));
		for(int k = 0; k < 6; k++) // Any other message; boards get those too.
		{
			auto c = make_case(r, all_kinds()[r.below(all_kinds().size())]);
			if(c.kind == Kind::REQUEST || c.kind == Kind::SWALLOWED)
				a.insert(a.begin() + static_cast<long>(r.below(a.size() + 1)), c.bytes);
		}
	}
	std::string const what = rooms ? "room" : "duel";
	if(active({"S01"}))
	{
		if(rooms)
			leak_case(what, [&](work::Env const& e)
			          { return std::make_unique<work::Room>(seed_a, e); });
		else
			leak_case(what, [&](work::Env const& e)
			          { return std::make_unique<work::Duel>(a, seed_a, e); });
		return;
	}
	auto check = [&](work::Digest const& x, work::Digest const& y, char const* how)
	{
		count("comparisons");
		count("outputs_compared", x.v.size());
		auto d = work::diff(x, y);
		if(!d.empty())
			violate({"S03"}, what + ":" + how, what + " differs when " + how + ": " + d);
	};
	auto go = [&](auto make_a, auto make_b)
	{
		// What follows the input: zeros, ones, anything.
		auto const some = r.next() / 3 * 3;
		work::Env const e0{0x00, 0, some}, e1{0x5A, 3, some + 1}, e2{0xFF, 6, some + 2};
		at(what + " first");
		auto const ref = whole(make_a, e0);
		at(what + " other");
		auto const ref_b = whole(make_b, e1);
		at(what + " filled with 5a");
		check(ref, whole(make_a, e1), "memory held 0x5a");
		{
			std::vector<std::unique_ptr<char[]>> noise;
			for(int i = 0; i < 40; i++)
				noise.emplace_back(new char[1 + r.below(3000)]);
			at(what + " filled with ff");
			check(ref, whole(make_a, e2), "memory held 0xff");
		}
		at(what + " interleaved");
#ifndef VF_NO_FILL
		g_fill = 0x33;
#endif
		auto x = make_a(work::Env{0x33, 1, r.next()});
		auto y = make_b(work::Env{0xCC, 2, r.next()});
		bool mx = true, my = true;
		while(mx || my)
		{
			if(mx && (!my || r.coin()))
				mx = x->step();
			else
				my = y->step();
		}
		check(ref, x->out, "interleaved with another one");
		check(ref_b, y->out, "interleaved with another one");
		std::string sig;
		for(auto const& [k, v] : ref.v)
			sig += std::to_string(v) + ",";
		distinct(sig);
		if(run().evaluations % 37 == 0)
			sample(what + " of " + std::to_string(ref.v.size()) + " outputs, digest " +
			       std::to_string(fnv(sig)));
	};
	if(rooms)
		go([&](work::Env const& e) { return std::make_unique<work::Room>(seed_a, e); },
		   [&](work::Env const& e) { return std::make_unique<work::Room>(seed_b, e); });
	else
		go([&](work::Env const& e) { return std::make_unique<work::Duel>(a, seed_a, e); },
		   [&](work::Env const& e) { return std::make_unique<work::Duel>(b, seed_b, e); });
	count(what + "s");
}

} // namespace

int main(int argc, char** argv) { return drive(argc, argv, det_case); }
