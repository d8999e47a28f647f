// S06: what is only read is not changed, so that several threads may read it at
// the same time: boards, contexts, messages, answers and input buffers. Under
// ThreadSanitizer, against reading them one after another.
#include "tasks.hpp"
#include <atomic>
#include <thread>

namespace
{

using namespace work::tasks;
using work::UBoard;
using Answer = YGOpen::Proto::Duel::Answer;

// All there is to read.
struct Shared
{
	std::vector<std::vector<uint8_t>> buffers; // One core message each, in order.
	std::vector<PMsg> messages;                // As received.
	std::vector<std::pair<Request, Answer>> answers;
	Board board;
	UBoard uboard;
	YGOpen::Server::BasicEncodeContext ctx;
};

std::string context_s(YGOpen::Server::BasicEncodeContext const& ctx)
{
	std::string o;
	for(int con = 0; con < 2; con++)
	{
		for(auto loc : PILES)
			o += std::to_string(
					 ctx.pile_size(static_cast<Controller>(con), static_cast<Location>(loc))) +
			     " ";
		for(uint32_t i = 0; i < 7; i++)
			o += ctx.has_xyz_mat(place_of(zplace({con, true, i}))) ? "x" : "-";
	}
	return o + std::to_string(ctx.get_match_win_reason());
}

// Every place of every pile, one by one.
template<typename F>
std::string places_s(F const& f)
{
	std::string o;
	for(int con = 0; con < 2; con++)
		for(auto loc : PILES)
			for(uint32_t i = 0;; i++)
			{
				PPlace p;
				set_place(p, con, loc, i, -1);
				if(!f.has_card(p))
					break;
				o += &f.card(p) == f.pile(p)[i] ? "." : "?";
			}
	return o;
}

// What one reader sees, in an order of its own; results are in a fixed order.
std::vector<uint64_t> read_all(Shared const& s, unsigned how)
{
	std::vector<uint64_t> v(6);
	for(unsigned k = 0; k < 6; k++)
	{
		auto const what = (k + how) % 6;
		std::string o;
		switch(what)
		{
		case 0: o = work::dump(s.board) + places_s(s.board.frame()); break;
		case 1: o = work::dump(s.uboard) + places_s(s.uboard.frame()); break;
		case 2: o = context_s(s.ctx); break;
		case 3:
			for(auto const& [q, a] : s.answers)
			{
				std::vector<uint8_t> b{1, 2, 3};
				OCG::decode_one_answer(q, a, b);
				o.append(b.begin(), b.end());
				o += ";";
			}
			break;
		case 4: // A client of its own, fed with shared messages.
		{
			Board b;
			UBoard u;
			for(auto const& m : s.messages)
			{
				if(m.t_case() == PMsg::kEvent)
				{
					YGOpen::Client::parse_event(b, m.event());
					if(m.event().t_case() != Event::kChainStack)
						YGOpen::Client::parse_event(u, m.event());
				}
				for(auto const& q : m.queries())
					o += std::to_string(static_cast<uint64_t>(
							 YGOpen::Client::parse_query<true>(b.frame(), q))) +
					     ",";
			}
			o += work::dump(b) + work::dump(u);
			break;
		}
		default: // A server of its own, fed with shared buffers.
		{
			google::protobuf::Arena arena;
			YGOpen::Server::BasicEncodeContext ctx;
			for(auto const& b : s.buffers)
			{
				auto r = OCG::encode_one(arena, ctx, b.data());
				o += std::to_string(static_cast<int>(r.state)) + ",";
				if(r.msg == nullptr)
					continue;
				o += r.msg->SerializeAsString();
				ctx.parse(*r.msg);
			}
			o += context_s(ctx);
		}
		}
		v[what] = fnv(o);
	}
	return v;
}

std::string inputs_s(Shared const& s)
{
	std::string o;
	for(auto const& b : s.buffers)
		o.append(b.begin(), b.end());
	for(auto const& m : s.messages)
		o += m.SerializeAsString() + "|";
	for(auto const& [q, a] : s.answers)
		o += q.SerializeAsString() + "|" + a.SerializeAsString() + "|";
	return o;
}

void readers_case(Rng& r)
{
	at("generating");
	auto const gen_seed = r.next();
	int status = 0;
	auto const packed = in_child(
		[&]
		{
			Rng g(gen_seed);
			std::vector<Task> v(1);
			auto& t = v[0];
			t.seed = g.next();
			t.script = work::make_script(g, g.range(15, 50));
			for(int k = 0; k < 8; k++)
			{
				auto c = make_case(g, all_kinds()[g.below(all_kinds().size())]);
				if(c.bytes.size() < 4000 && (c.kind == Kind::REQUEST || c.kind == Kind::SWALLOWED))
					t.script.insert(t.script.begin() +
					                    static_cast<long>(g.below(t.script.size() + 1)),
					                c.bytes);
			}
			return pack(v);
		},
		status);
	if(!WIFEXITED(status) || WEXITSTATUS(status) != 0)
	{
		std::fprintf(stderr, "generator ended with %d\n", status);
		std::abort();
	}
	auto const n_threads = static_cast<unsigned>(r.range(2, 6));
	auto const how = static_cast<unsigned>(r.next() % 6);
	auto const same = r.coin(); // Everyone reads in the same order.
	auto const cut_seed = r.next(), warm_seed = r.next();
	at("reading");
	auto const result = in_child(
		[&]
		{
			auto const tasks = unpack(packed);
			warm(Rng(warm_seed));
			Rng g(cut_seed);
			auto const& script = tasks[0].script;
			auto const cut = g.range(script.size() / 2, script.size());
			Shared s;
			Board quiet; // Nobody looks at it before the end.
			UBoard uquiet;
			google::protobuf::Arena arena;
			size_t at = 0;
			auto advance = [&](size_t end, bool keep)
			{
				for(; at < end; at++)
				{
					std::vector<uint8_t> buf(script[at]);
					buf.resize(buf.size() + 96);
					auto res = OCG::encode_one(arena, s.ctx, buf.data());
					if(keep)
						s.buffers.push_back(buf);
					if(res.msg == nullptr)
						continue;
					s.ctx.parse(*res.msg);
					PMsg m;
					m.ParseFromString(res.msg->SerializeAsString());
					auto feed = [&](auto& board, auto& uboard)
					{
						if(m.t_case() == PMsg::kEvent)
						{
							YGOpen::Client::parse_event(board, m.event());
							if(m.event().t_case() != Event::kChainStack)
								YGOpen::Client::parse_event(uboard, m.event());
						}
						for(auto const& q : m.queries())
							(void)YGOpen::Client::parse_query<true>(board.frame(), q);
					};
					feed(s.board, s.uboard);
					feed(quiet, uquiet);
					if(m.t_case() == PMsg::kRequest &&
					   m.request().t_case() != Request::T_NOT_SET && keep)
						for(int k = 0; k < 2; k++)
						{
							auto a = work::answer_for(m.request(), g);
							if(a.t_case() != 0)
								s.answers.emplace_back(m.request(), a);
						}
					if(keep)
						s.messages.push_back(m);
				}
			};
			advance(cut, true);
			auto const before = inputs_s(s);
			std::vector<std::vector<uint64_t>> par(n_threads);
			std::atomic<unsigned> ready{0};
			std::vector<std::thread> th;
			for(unsigned k = 0; k < n_threads; k++)
				th.emplace_back(
					[&, k]
					{
						ready.fetch_add(1, std::memory_order_relaxed);
						while(ready.load(std::memory_order_relaxed) < n_threads)
							std::this_thread::yield();
						par[k] = read_all(s, same ? how : how + k);
					});
			for(auto& t : th)
				t.join();
			auto const ref = read_all(s, how);
			static constexpr char const* WHAT[] = {
				"the board", "the undoable board", "the context", "responses",
				"boards fed with shared messages", "encoding shared buffers"};
			std::string o;
			for(auto const& p : par)
				for(size_t i = 0; i < ref.size(); i++)
					if(p[i] != ref[i] && o.empty())
						o = std::string(WHAT[i]) + " read in parallel differ";
			if(o.empty() && inputs_s(s) != before)
				o = "inputs were changed by reading them";
			advance(script.size(), false);
			if(o.empty() && (work::dump(s.board) != work::dump(quiet) ||
			                 work::dump(s.uboard) != work::dump(uquiet)))
				o = "boards that were read behave differently afterwards";
			return o + "\n" + std::to_string(s.messages.size()) + "\n" +
			       std::to_string(s.answers.size()) + "\n" + std::to_string(ref[0]) + "\n.";
		},
		status);
	if(!WIFEXITED(status) || WEXITSTATUS(status) != 0 || result.empty() || result.back() != '.')
	{
		std::fprintf(stderr, "reading child ended with status %d\n", status);
		std::abort();
	}
	std::vector<std::string> l;
	for(size_t a = 0, b; (b = result.find('\n', a)) != std::string::npos; a = b + 1)
		l.push_back(result.substr(a, b - a));
	if(!l[0].empty())
		violate({"S06"}, "readers", l[0]);
	count("rounds");
	count("threads", n_threads);
	count("results_compared", n_threads * 6);
	count("shared_messages", std::stoull(l[1]));
	count("shared_answers", std::stoull(l[2]));
	distinct(l[3] + "/" + std::to_string(n_threads));
	if(run().evaluations % 11 == 0)
		sample(std::to_string(n_threads) + " readers of " + l[1] + " messages, " + l[2] +
		       " answers, board digest " + l[3]);
}

} // namespace

int main(int argc, char** argv) { return drive(argc, argv, readers_case); }
