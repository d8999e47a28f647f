// Misuse of frames and boards in forked children: it has to end at an
// assertion, before any sanitizer has something to say. F03.
#include "fieldmodel.hpp"
#include <csignal>
#include <poll.h>
#include <sys/wait.h>
#include <ygopen/client/board.hpp>
#include <ygopen/client/frame.hpp>
#include <ygopen/client/frame_limbo.hpp>
#include <ygopen/client/undoable.hpp>
#include <ygopen/duel/constants/phase.hpp>

using namespace vf;

namespace
{

struct BoardTraits
{
	using BlockedZonesType = std::vector<FPlace>;
	using ChainStackType = std::vector<YGOpen::Proto::Duel::Chain>;
	using FrameType = YGOpen::Client::BasicFrame<TCard>;
	using LPType = uint32_t;
	using PhaseType = YGOpen::Duel::Phase;
	using TurnControllerType = YGOpen::Duel::Controller;
	using TurnType = uint32_t;
};

struct Bad
{
	std::string what; // Category, stable.
	std::string args;
	std::function<void()> go;
};

template<typename F>
struct Gen
{
	Rng& rng;
	Field& m;
	F& f;
	FGen g{rng, m};

	uint32_t bad_loc()
	{
		return rng.pick({0U, 0x80U, 0x800U, 0x1000U, 0x80000000U, 0x10000U});
	}
	uint32_t beyond(size_t n)
	{
		switch(rng.below(4))
		{
		case 0: return static_cast<uint32_t>(n);
		case 1: return static_cast<uint32_t>(n + 1);
		case 2: return 0xFFFFFFFFU;
		default: return static_cast<uint32_t>(n + rng.below(1000));
		}
	}
	int beyond_i(size_t n)
	{
		switch(rng.below(4))
		{
		case 0: return static_cast<int>(n);
		case 1: return static_cast<int>(n + 1);
		case 2: return 0x7FFFFFFF;
		default: return static_cast<int>(n + rng.below(1000));
		}
	}
	int bad_con() { return rng.pick({2, 3, 7, 255, 0x7FFFFFFF}); }
	FPlace any_zone()
	{
		auto k = F_ZONES[rng.below(5)];
		return fp(static_cast<int>(rng.below(2)), k.loc, rng.below(k.n));
	}
	// A place that does not exist. `insert`: that cannot be inserted at.
	FPlace nowhere(bool insert, std::string& what)
	{
		switch(rng.below(5))
		{
		case 0:
		{
			what = "location";
			return fp(static_cast<int>(rng.below(2)), bad_loc(), rng.below(4),
			          rng.chance(1, 4) ? 0 : -1);
		}
		case 1:
		{
			what = "controller";
			auto p = rng.coin() ? g.any_pile() : any_zone();
			p.set_con(bad_con());
			return p;
		}
		case 2:
		{
			what = "pile_sequence";
			auto p = g.any_pile();
			p.set_seq(beyond(g.P(p).size() + insert));
			return p;
		}
		case 3:
		{
			what = "zone_sequence";
			auto k = F_ZONES[rng.below(5)];
			return fp(static_cast<int>(rng.below(2)), k.loc, beyond(k.n),
			          rng.chance(1, 4) ? 0 : -1);
		}
		default:
		{
			what = "material_index";
			auto p = any_zone();
			p.set_oseq(beyond_i(g.Z(p).mats.size() + insert));
			return p;
		}
		}
	}
	Bad make()
	{
		Bad b;
		F* fr = &f;
		std::string w;
		for(;;)
		{
			auto k = rng.below(20);
			switch(k)
			{
			case 0: // Lookups.
			{
				auto p = nowhere(false, w);
				bool c = rng.coin();
				if(w == "controller" && !c)
					w = "controller_has";
				// Being absent is something has_card can tell.
				if(!c && (w == "pile_sequence" || w == "material_index"))
					continue;
				b.what = std::string(c ? "card:" : "has_card:") + w;
				b.args = str(p);
				bool const cst = rng.coin();
				b.go = [=]
				{
					if(c && cst)
						static_cast<void>(std::as_const(*fr).card(p));
					else if(c)
						static_cast<void>(fr->card(p));
					else
						static_cast<void>(fr->has_card(p));
				};
				return b;
			}
			case 1:
			{
				auto p = any_zone();
				auto r = rng.below(3);
				if(r == 0)
					p.set_con(bad_con());
				else if(r == 1)
					p.set_seq(beyond(F_ZONES[p.loc() == 4   ? 0
					                         : p.loc() == 8 ? 1
					                         : p.loc() == 0x100 ? 2
					                         : p.loc() == 0x200 ? 3
					                                            : 4]
					                     .n));
				else
					p.set_loc(rng.coin() ? bad_loc() : F_PILES[rng.below(5)]);
				b.what = std::string("zone:") +
				         (r == 0 ? "controller" : r == 1 ? "sequence" : "location");
				b.args = str(p);
				bool const cst = rng.coin();
				b.go = [=]
				{
					if(cst)
						static_cast<void>(std::as_const(*fr).zone(p));
					else
						static_cast<void>(fr->zone(p));
				};
				return b;
			}
			case 2:
			{
				auto p = g.any_pile();
				bool r = rng.coin();
				if(r)
					p.set_con(bad_con());
				else
					p.set_loc(rng.coin() ? bad_loc() : F_ZONES[rng.below(5)].loc);
				b.what = std::string("pile:") + (r ? "controller" : "location");
				b.args = str(p);
				bool const cst = rng.coin();
				b.go = [=]
				{
					if(cst)
						static_cast<void>(std::as_const(*fr).pile(p));
					else
						static_cast<void>(fr->pile(p));
				};
				return b;
			}
			case 3:
			case 4:
			{
				auto p = nowhere(true, w);
				b.what = "card_add:" + w;
				b.args = str(p);
				b.go = [=] { static_cast<void>(fr->card_add(p)); };
				return b;
			}
			case 5:
			{
				auto p = g.pick(g.zones([](FZone const& z) { return z.card >= 0; }));
				if(!p)
					continue;
				auto q = *p;
				b.what = "card_add:occupied";
				b.args = str(q);
				b.go = [=] { static_cast<void>(fr->card_add(q)); };
				return b;
			}
			case 6:
			case 7:
			{
				auto p = nowhere(false, w);
				b.what = "card_remove:" + w;
				b.args = str(p);
				b.go = [=] { fr->card_remove(p); };
				return b;
			}
			case 8:
			{
				auto p = g.pick(g.zones([](FZone const& z) { return z.card < 0; }));
				if(!p)
					continue;
				auto q = *p;
				auto to = g.any_pile();
				auto r = rng.below(3);
				b.what = r == 0   ? "card_remove:empty"
				         : r == 1 ? "card_move:empty"
				                  : "card_swap:empty";
				b.args = str(q);
				auto o = g.card();
				if(!o)
					continue;
				auto oo = *o;
				b.go = [=]
				{
					if(r == 0)
						fr->card_remove(q);
					else if(r == 1)
						static_cast<void>(fr->card_move(q, to));
					else
						fr->card_swap(q, oo);
				};
				return b;
			}
			case 9:
			case 10:
			{
				auto p = nowhere(false, w);
				auto to = any_zone();
				if(rng.coin())
					to = g.any_pile();
				b.what = "card_move_from:" + w;
				b.args = str(p) + ">" + str(to);
				b.go = [=] { static_cast<void>(fr->card_move(p, to)); };
				return b;
			}
			case 11:
			case 12:
			{
				auto from = g.card();
				if(!from)
					continue;
				auto fr_ = *from;
				Field rest = m;
				f_take(rest, fr_);
				FGen h{rng, rest};
				Gen o{rng, rest, f, h};
				auto p = o.nowhere(true, w);
				// A zone's own materials come along, or are judged as they are.
				b.what = "card_move_to:" + w;
				b.args = str(fr_) + ">" + str(p);
				b.go = [=] { static_cast<void>(fr->card_move(fr_, p)); };
				return b;
			}
			case 13:
			{
				auto from = g.card();
				auto p = g.pick(g.zones([](FZone const& z) { return z.card >= 0; }));
				if(!p || !from)
					continue;
				auto a = *from, q = *p;
				if(a.con() == q.con() && a.loc() == q.loc() && a.seq() == q.seq())
					continue;
				b.what = "card_move_to:occupied";
				b.args = str(a) + ">" + str(q);
				b.go = [=] { static_cast<void>(fr->card_move(a, q)); };
				return b;
			}
			case 14:
			{
				auto p = nowhere(false, w);
				auto c = g.card();
				if(!c)
					continue;
				auto q = *c;
				bool first = rng.coin();
				b.what = "card_swap:" + w;
				b.args = str(p) + "," + str(q);
				b.go = [=]
				{
					if(first)
						fr->card_swap(p, q);
					else
						fr->card_swap(q, p);
				};
				return b;
			}
			case 15:
			{
				auto p = rng.coin() ? any_zone() : fp(0, bad_loc(), 0);
				auto q = g.any_pile();
				auto r = rng.below(5);
				auto n = rng.below(4);
				b.what = std::string("pile_op:location") + std::to_string(r);
				b.args = str(p);
				b.go = [=]
				{
					switch(r)
					{
					case 0: fr->pile_resize(p, n); break;
					case 1: fr->pile_swap(p, q); break;
					case 2: fr->pile_swap(q, p); break;
					case 3: fr->pile_splice(p, 0, q, false); break;
					default: fr->pile_splice(q, 0, p, false);
					}
				};
				return b;
			}
			case 16:
			{
				auto p = g.any_pile();
				p.set_con(bad_con());
				auto q = g.any_pile();
				auto r = rng.below(4);
				b.what = std::string("pile_op:controller") + std::to_string(r);
				b.args = str(p);
				b.go = [=]
				{
					switch(r)
					{
					case 0: fr->pile_resize(p, 3); break;
					case 1: fr->pile_swap(q, p); break;
					case 2: fr->pile_splice(p, 0, q, false); break;
					default: fr->pile_splice(q, 0, p, false);
					}
				};
				return b;
			}
			case 17:
			{
				auto p = g.any_pile();
				auto q = rng.chance(1, 3) ? p : g.any_pile();
				auto n = g.P(p).size();
				p.set_seq(static_cast<uint32_t>(rng.below(n + 3)));
				size_t cnt;
				bool const dest = rng.coin();
				bool const same = p.con() == q.con() && p.loc() == q.loc();
				if(!dest)
				{
					cnt = (p.seq() > n ? 0 : n - p.seq()) + 1 + rng.below(40);
					if(rng.chance(1, 8))
						cnt = 100000;
				}
				else
				{
					if(p.seq() > n)
						p.set_seq(0);
					cnt = rng.below(n - p.seq() + 1);
					auto rest = same ? n - cnt : g.P(q).size();
					q.set_seq(beyond(rest + 1));
				}
				bool rev = rng.coin();
				b.what = dest ? "pile_splice:destination" : "pile_splice:range";
				b.args = str(p) + " n" + std::to_string(cnt) + " > " + str(q);
				b.go = [=] { fr->pile_splice(p, cnt, q, rev); };
				return b;
			}
			case 18:
			{
				// Shuffling cards that are not there, too many or piles.
				auto r = rng.below(4);
				auto con = static_cast<int>(rng.below(2));
				std::vector<FPlace> prev, cur;
				for(uint32_t i = 0; i < 7; i++)
					if(g.Z(fp(con, 4, i)).card >= 0)
						prev.push_back(fp(con, 4, i));
				cur = prev;
				if(r == 0)
				{
					auto z = g.pick(g.zones([](FZone const& x) { return x.card < 0; }));
					if(!z || z->loc() != 4 || z->con() != con)
						continue;
					prev.push_back(*z);
					cur.push_back(*z);
					b.what = "card_shuffle:empty";
				}
				else if(r == 1)
				{
					if(prev.empty())
						continue;
					while(prev.size() < 8)
						prev.push_back(prev[0]);
					cur = prev;
					b.what = "card_shuffle:count";
				}
				else if(r == 2)
				{
					if(prev.empty())
						continue;
					cur.back().set_seq(beyond(7));
					b.what = "card_shuffle:sequence";
				}
				else
				{
					prev = cur = {g.any_pile(), g.any_pile()};
					b.what = "card_shuffle:pile";
				}
				b.go = [=] { fr->card_shuffle(prev.cbegin(), cur.cbegin(), prev.size()); };
				return b;
			}
			default:
			{
				auto con = static_cast<FCon>(rng.pick({2, 3, 4, 100, 255}));
				bool const cst = rng.coin();
				b.what = cst ? "const_lp:controller" : "lp:controller";
				b.args = std::to_string(con);
				b.go = [=]
				{
					static YGOpen::Client::BasicBoard<BoardTraits> board;
					if(cst)
					{
						auto volatile lp = std::as_const(board).lp(con);
						static_cast<void>(lp);
					}
					else
						board.lp(con) = 1;
				};
				return b;
			}
			}
		}
	}
};

// What became of it: "" if stopped by an assertion.
std::string judge(Bad const& b)
{
	int fd[2];
	if(::pipe(fd) != 0)
		std::exit(2);
	std::fflush(nullptr);
	pid_t const pid = ::fork();
	if(pid < 0)
		std::exit(2);
	if(pid == 0)
	{
		::dup2(fd[1], 2);
		::close(fd[0]);
		::alarm(60);
		b.go();
		::_exit(0);
	}
	::close(fd[1]);
	std::string err;
	char buf[4096];
	for(ssize_t n; (n = ::read(fd[0], buf, sizeof buf)) > 0;)
		if(err.size() < 20000)
			err.append(buf, static_cast<size_t>(n));
	::close(fd[0]);
	int st = 0;
	::waitpid(pid, &st, 0);
	for(char const* s : {"AddressSanitizer", "runtime error", "UndefinedBehavior"})
	{
		auto i = err.find(s);
		if(i != std::string::npos)
			return "reached the sanitizer: " +
			       err.substr(err.rfind('\n', i) + 1, 300);
	}
	if(WIFEXITED(st))
		return "went unnoticed";
	if(!WIFSIGNALED(st) || WTERMSIG(st) != SIGABRT)
		return "ended with wait status " + std::to_string(st);
	if(err.find("ssertion") == std::string::npos)
		return "aborted without an assertion: " + err.substr(0, 300);
	return "";
}

template<typename F>
void go(Rng& rng, char const* kind)
{
	watch().reset();
	Field m;
	F f;
	int next_id = 0;
	auto const n = rng.range(0, 60);
	auto last = std::string();
	for(uint64_t i = 0; i < n; i++)
	{
		auto r = rng.below(14);
		auto k = r < 7 ? OpK::ADD : r < 10 ? OpK::MOVE : r < 11 ? OpK::SWAP : r < 12 ? OpK::RESIZE
		         : r < 13 ? OpK::SPLICE : OpK::SHUFFLE;
		auto o = f_gen(rng, m, k, next_id);
		if(!o || std::any_of(o->cur.begin(), o->cur.end(),
		                     [](FPlace const& p) { return p.loc() == 0; }))
			continue;
		at("valid " + str(*o));
		f_run(f, *o);
		f_apply(m, *o);
		count("valid_operations");
	}
	// Everything that exists can be used.
	for(int con = 0; con < 2; con++)
	{
		for(auto loc : F_PILES)
			for(size_t i = 0; i < m.piles[{con, loc}].size(); i++)
			{
				at("looking at an existing place");
				static_cast<void>(f.card(fp(con, loc, i)));
				count("valid_lookups");
			}
		for(auto k : F_ZONES)
			for(uint32_t s = 0; s < k.n; s++)
			{
				auto p = fp(con, k.loc, s);
				auto const& z = m.zone(p);
				static_cast<void>(f.zone(p));
				if(f.has_card(p))
					static_cast<void>(f.card(p));
				for(size_t i = 0; i < z.mats.size(); i++)
				{
					p.set_oseq(static_cast<int>(i));
					static_cast<void>(f.card(p));
					count("valid_lookups");
				}
			}
	}
	for(int i = 0; i < 4; i++)
	{
		Gen<F> g{rng, m, f};
		auto b = g.make();
		at("misuse " + b.what);
		auto e = judge(b);
		count("misuses");
		count("misuse_" + b.what.substr(0, b.what.find(':')));
		distinct(std::string(kind) + b.what + b.args);
		if(!e.empty())
		{
			violate({"F03"}, b.what, std::string(kind) + " " + b.what + " (" + b.args + ") " + e);
			return;
		}
		sample(std::string(kind) + " " + b.what + " (" + b.args + ")");
	}
}

void one(Rng& rng)
{
	if(rng.coin())
		go<YGOpen::Client::BasicFrame<TCard>>(rng, "plain");
	else
		go<YGOpen::Client::LimboFrame<TCard>>(rng, "limbo");
}

} // namespace

int main(int argc, char** argv) { return drive(argc, argv, one); }
