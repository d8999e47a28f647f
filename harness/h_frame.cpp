// Random valid operations on the client frame against a list-based model, for
// the plain frame and the one with undo support. F01, F02 (and S01).
#include "fieldmodel.hpp"
#include <ygopen/client/frame.hpp>
#include <ygopen/client/frame_limbo.hpp>

using namespace vf;

namespace
{

// A builder with a state of its own.
struct Builder
{
	uint64_t mark;
	uint64_t built = 0;
	explicit Builder(uint64_t m) : mark(m) {}
	TCard build() noexcept
	{
		built++;
		return TCard{};
	}
};

template<typename F>
struct IsLimbo : std::false_type
{};
template<typename C, typename B>
struct IsLimbo<YGOpen::Client::LimboFrame<C, B>> : std::true_type
{};
template<typename F>
constexpr bool is_limbo = IsLimbo<F>::value;

template<typename F>
struct Case
{
	Rng& rng;
	Field m;
	Tracker<F> t;
	static constexpr bool is_built =
		std::is_same_v<std::decay_t<decltype(std::declval<F&>().builder())>, Builder>;
	uint64_t mark = 0;
	std::unique_ptr<F> frame;
	int next_id = 0;
	std::string hist, sig;
	bool stop = false;
	char const* kind = is_limbo<F> ? "limbo" : "plain";

	explicit Case(Rng& r) : rng(r)
	{
		t.noise = Rng(r.next());
		if constexpr(is_built)
			frame.reset(new F{Builder(mark = r.next())});
		else
			frame.reset(new F{});
	}

	void fail(std::initializer_list<char const*> props, std::string const& what,
	          std::string const& why)
	{
		violate(props, std::string(kind) + ":" + what,
		        why + ". History: " + hist.substr(hist.size() > 700 ? hist.size() - 700 : 0));
		stop = true;
	}

	void look(Op const& o)
	{
		// The other ways to look at a place.
		F& f = *frame;
		F const& cf = f;
		FGen g{rng, m};
		for(int i = 0; i < 3; i++)
		{
			FPlace p;
			bool want;
			int id = -1;
			if(rng.coin())
			{
				p = g.any_pile(rng.below(30));
				if(rng.chance(1, 3))
					p.set_seq(rng.any<uint32_t>());
				auto const& v = m.pile(p);
				want = p.seq() < v.size();
				if(want)
					id = v[p.seq()];
			}
			else
			{
				auto zk = F_ZONES[rng.below(5)];
				p = fp(static_cast<int>(rng.below(2)), zk.loc, rng.below(zk.n));
				auto const& z = m.zone(p);
				if(rng.coin())
					p.set_oseq(static_cast<int>(rng.below(z.mats.size() + 2)));
				want = p.oseq() < 0 ? z.card >= 0
				                    : static_cast<size_t>(p.oseq()) < z.mats.size();
				if(want)
					id = f_slot(m, p);
			}
			at(std::string("looking ") + str(p));
			if(cf.has_card(p) != want)
				return fail({"F01"}, "has_card",
				            "has_card(" + str(p) + ") is wrong after " + str(o));
			count(want ? "looked_up" : "looked_up_empty");
			if(!want)
				continue;
			if(&f.card(p) != t.addr[id] || &cf.card(p) != t.addr[id])
				return fail({"F01"}, "card", "card(" + str(p) + ") is another card");
			if(f_pile(p.loc()))
			{
				if(&f.pile(p) != &cf.pile(p) ||
				   &cf.pile(p) != &cf.pile(static_cast<FCon>(p.con()),
				                           static_cast<FLoc>(p.loc())) ||
				   &f.pile(static_cast<FCon>(p.con()), static_cast<FLoc>(p.loc())) !=
				       &f.pile(p))
					return fail({"F01"}, "pile", "piles of " + str(p) + " differ");
			}
			else if(&f.zone(p) != &cf.zone(p) ||
			        &cf.zone(p) != &cf.zone(static_cast<FCon>(p.con()),
			                                static_cast<FLoc>(p.loc()), p.seq()))
				return fail({"F01"}, "zone", "zones of " + str(p) + " differ");
		}
	}

	void step(OpK k)
	{
		auto o = f_gen(rng, m, k, next_id, rng.chance(1, 30) ? 90 : 24);
		if(o)
			step(k, o);
	}

	// A card with many materials.
	void stack()
	{
		auto zk = F_ZONES[rng.below(5)];
		auto const p = fp(static_cast<int>(rng.below(2)), zk.loc, rng.below(zk.n));
		auto const n = rng.chance(1, 12) ? rng.range(250, 300) : rng.range(5, 40);
		for(uint64_t i = 0; i <= n && !stop; i++)
		{
			Op o;
			o.k = OpK::ADD;
			o.a = p;
			if(i != 0)
				o.a.set_oseq(static_cast<int>(rng.below(i)));
			o.ids = {next_id++};
			if(i < 3 || i % 16 == 0 || i == n)
			{
				step(o.k, o);
				continue;
			}
			f_run(*frame, o); // Judged by the next step.
			f_apply(m, o);
		}
	}

	void step(OpK k, std::optional<Op> const& o)
	{
		auto const before = m.all();
		auto const born = watch().born;
		watch().died.clear();
		at(std::string(kind) + " " + str(*o));
		hist += str(*o) + " | ";
		sig += op_name(k)[0];
		sig += op_name(k)[1];
		trace(hist);
		count(std::string(op_name(k)));
		if(k == OpK::MOVE)
			count(std::string("move_") + (f_pile(o->a.loc()) ? "pile" : o->a.oseq() < 0 ? "zone" : "mat") +
			      "_to_" + (f_pile(o->b.loc()) ? "pile" : o->b.oseq() < 0 ? "zone" : "mat"));
		TCard* returned = nullptr;
		if(k == OpK::ADD)
			returned = &frame->card_add(o->a);
		else if(k == OpK::MOVE)
			returned = &frame->card_move(o->a, o->b);
		else
			f_run(*frame, *o);
		std::vector<FPlace> unknown;
		f_apply(m, *o, &unknown);
		if(!unknown.empty())
			t.resolve(*frame, m, unknown);
		// Lifetimes first: the comparison looks at the cards.
		std::vector<uint64_t> want_dead;
		{
			auto now = m.all();
			std::set<int> alive(now.begin(), now.end());
			for(int id : before)
				if(alive.count(id) == 0)
				{
					if(!is_limbo<F>)
					{
						want_dead.push_back(t.tag[id]);
						t.forget(id);
					}
					count(is_limbo<F> ? "cards_to_limbo" : "cards_destroyed");
				}
		}
		auto dead = watch().died;
		std::sort(dead.begin(), dead.end());
		std::sort(want_dead.begin(), want_dead.end());
		if(!watch().error.empty())
			return fail({"F02"}, "lifetime", watch().error + " by " + str(*o));
		if(dead != want_dead)
			return fail({"F02"}, "lifetime",
			            str(*o) + " destroyed " + std::to_string(dead.size()) +
			                " cards, " + std::to_string(want_dead.size()) +
			                " are gone from the field");
		if(watch().born - born != o->ids.size())
			return fail({"F02"}, "lifetime",
			            str(*o) + " constructed " +
			                std::to_string(watch().born - born) + " cards instead of " +
			                std::to_string(o->ids.size()));
		if constexpr(is_built)
		{
			F const& cf = *frame;
			if(cf.builder().built != static_cast<uint64_t>(next_id) ||
			   frame->builder().mark != mark || &cf.builder() != &frame->builder())
				return fail({"F02"}, "builder",
				            "the builder has built " + std::to_string(cf.builder().built) +
				                " cards instead of " + std::to_string(next_id) + " after " +
				                str(*o));
			count("built_by_builder", o->ids.size());
		}
		auto e = t.compare(*frame, m);
		if(!e.empty())
		{
			bool const contents = e.find("contents of") != std::string::npos;
			return fail({contents ? "F02" : "F01"}, op_name(k), "after " + str(*o) + ": " + e);
		}
		if(returned != nullptr && returned != t.addr[f_slot(m, k == OpK::ADD ? o->a : o->b)])
			return fail({"F01"}, "returned", str(*o) + " returned another card");
		look(*o);
	}

	void go()
	{
		watch().reset();
		auto const n = rng.range(5, run().tier == 0 ? 90 : 200);
		if(rng.chance(1, 16))
			stack();
		for(uint64_t i = 0; i < n && !stop; i++)
		{
			auto r = rng.below(60);
			step(r < 14   ? OpK::ADD
			     : r < 18 ? OpK::REMOVE
			     : r < 38 ? OpK::MOVE
			     : r < 43 ? OpK::SWAP
			     : r < 46 ? OpK::SHUFFLE
			     : r < 51 ? OpK::RESIZE
			     : r < 56 ? OpK::SPLICE
			     : r < 59 ? OpK::PSWAP
			              : (rng.chance(1, 3) ? OpK::CLEAR : OpK::MOVE));
		}
		maxi("cards", m.all().size());
		for(auto& zs : m.zones)
			for(auto& z : zs.second)
				maxi("materials", z.mats.size());
		count("comparisons", t.seen);
		if(stop)
			return;
		auto live = watch().live.size();
		if(!is_limbo<F> && live != m.all().size())
			return fail({"F02"}, "lifetime", "cards live that are not on the field");
		at("destroying the frame");
		frame.reset();
		if(!watch().error.empty())
			return fail({"F02"}, "lifetime", watch().error + " with the frame");
		if(!watch().live.empty())
			return fail({"F02"}, "leak",
			            std::to_string(watch().live.size()) +
			                " cards outlive their frame");
		count("frames");
		distinct(sig);
		sample(std::string(kind) + ": " + hist);
	}
};

// Piles beyond 65536 cards, or beyond 256 only, and materials beyond 256.
template<typename F>
void huge(Rng& rng, bool wide)
{
	at("huge piles");
	watch().reset();
	auto f = std::make_unique<F>();
	using Vec = std::vector<TCard*>;
	std::array<Vec, 3> want;
	static constexpr std::array<uint32_t, 2> LOC{0x10, 0x20};
	FPlace const mat = fp(1, 4, 2, 0);
	auto at_ = [&](size_t k, uint64_t seq) { return fp(static_cast<int>(k), LOC[k], seq); };
	auto real = [&](size_t k) -> Vec const&
	{
		return k == 2 ? std::as_const(*f).zone(mat).materials
					  : std::as_const(*f).pile(at_(k, 0));
	};
	// Both in one step and from a few.
	f->pile_resize(at_(0, 0), rng.below(300));
	auto const first = wide ? 65836 + rng.below(4000) : 300 + rng.below(7000);
	f->pile_resize(at_(0, 0), first);
	f->pile_resize(at_(1, 0), rng.below(400));
	f->card_add(fp(1, 4, 2, -1));
	if(real(0).size() != first)
		return violate({"F01"}, "huge:resize",
		               "a pile resized to " + std::to_string(first) + " has " +
		                   std::to_string(real(0).size()) + " cards");
	for(size_t k = 0; k < 2; k++)
		want[k] = real(k);
	std::string hist;
	for(int i = 0; i < 40; i++)
	{
		auto const a = rng.below(2), b = rng.below(2);
		auto& va = want[a];
		auto& vb = want[b];
		auto const near = [&](size_t n)
		{ return n == 0 ? 0 : rng.chance(1, 4) ? rng.below(std::min<size_t>(n, 3)) : rng.coin() ? n - 1 - rng.below(std::min<size_t>(n, 70)) : rng.below(n); };
		switch(i < 4 ? 6 : rng.below(7))
		{
		case 0:
		{
			auto const s = near(va.size() + 1);
			va.insert(va.begin() + static_cast<long>(s), &f->card_add(at_(a, s)));
			hist += "add ";
			break;
		}
		case 1:
		{
			if(va.empty()) break;
			auto const s = near(va.size());
			f->card_remove(at_(a, s));
			va.erase(va.begin() + static_cast<long>(s));
			hist += "remove ";
			break;
		}
		case 2:
		{
			if(va.empty()) break;
			auto const s = near(va.size());
			auto* c = va[s];
			va.erase(va.begin() + static_cast<long>(s));
			auto const d = near(vb.size() + 1);
			vb.insert(vb.begin() + static_cast<long>(d), c);
			hist += "move ";
			if(&f->card_move(at_(a, s), at_(b, d)) != c)
				return violate({"F01"}, "huge:move", "moving within huge piles moves another card");
			break;
		}
		case 3:
		{
			if(va.empty() || vb.empty()) break;
			auto const s = near(va.size()), d = near(vb.size());
			f->card_swap(at_(a, s), at_(b, d));
			std::swap(va[s], vb[d]);
			hist += "swap ";
			break;
		}
		case 4:
		{
			if(a == b || va.empty()) break;
			auto const s = near(va.size());
			auto const n = rng.below(va.size() - s + 1);
			auto const d = near(vb.size() + 1);
			bool const rev = rng.coin();
			f->pile_splice(at_(a, s), n, at_(b, d), rev);
			Vec part(va.begin() + static_cast<long>(s), va.begin() + static_cast<long>(s + n));
			if(rev)
				std::reverse(part.begin(), part.end());
			va.erase(va.begin() + static_cast<long>(s), va.begin() + static_cast<long>(s + n));
			vb.insert(vb.begin() + static_cast<long>(d), part.begin(), part.end());
			hist += "splice ";
			break;
		}
		case 5:
			f->pile_swap(at_(0, 0), at_(1, 0));
			std::swap(want[0], want[1]);
			hist += "pile_swap ";
			break;
		default: // Some become materials, of which some go back.
			for(int k = 0; k < 80 && !va.empty(); k++)
			{
				bool const back = rng.chance(1, 5) && !want[2].empty();
				if(back)
				{
					auto const s = near(want[2].size());
					f->card_move(fp(1, 4, 2, static_cast<int>(s)), at_(a, va.size()));
					va.push_back(want[2][s]);
					want[2].erase(want[2].begin() + static_cast<long>(s));
				}
				else
				{
					auto const s = near(want[2].size() + 1);
					f->card_move(at_(a, va.size() - 1), fp(1, 4, 2, static_cast<int>(s)));
					want[2].insert(want[2].begin() + static_cast<long>(s), va.back());
					va.pop_back();
				}
			}
			hist += "materials ";
		}
		for(size_t k = 0; k < 3; k++)
			if(real(k) != want[k])
				return violate({"F01"}, "huge",
				               "piles of tens of thousands of cards differ after " + hist);
		for(size_t k = 0; k < 2; k++)
		{
			auto const s = near(want[k].size());
			if(!want[k].empty() && (!f->has_card(at_(k, s)) || &f->card(at_(k, s)) != want[k][s] ||
			                        f->has_card(at_(k, want[k].size()))))
				return violate({"F01"}, "huge:card", "looking up a card in a huge pile");
		}
		count(wide ? "huge_steps" : "big_steps");
		maxi("huge_pile", std::max(want[0].size(), want[1].size()));
		maxi("huge_materials", want[2].size());
	}
	at("destroying huge piles");
	f.reset();
	if(!watch().error.empty() || !watch().live.empty())
		violate({"F02"}, "lifetime:huge", "cards of huge piles are not destroyed once");
}

void one(Rng& rng)
{
	if(run().cur % 1500 == 777 || run().cur % 60 == 31)
	{
		bool const wide = run().cur % 1500 == 777;
		if(rng.coin())
			return huge<YGOpen::Client::BasicFrame<TCard>>(rng, wide);
		return huge<YGOpen::Client::LimboFrame<TCard>>(rng, wide);
	}
	using namespace YGOpen::Client;
	switch(rng.below(4))
	{
	case 0: return Case<BasicFrame<TCard>>(rng).go();
	case 1: return Case<LimboFrame<TCard>>(rng).go();
	case 2: return Case<BasicFrame<TCard, Builder>>(rng).go();
	default: return Case<LimboFrame<TCard, Builder>>(rng).go();
	}
}

} // namespace

int main(int argc, char** argv) { return drive(argc, argv, one); }
