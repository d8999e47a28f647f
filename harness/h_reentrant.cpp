// S02: independent duels and rooms processed by several threads at the same
// time, under ThreadSanitizer, against the same ones processed one by one.
#include "tasks.hpp"
#include <atomic>
#include <thread>

namespace
{

using namespace work::tasks;

void reentrant_case(Rng& r)
{
	at("generating");
	auto const gen_seed = r.next();
	auto const n_threads = static_cast<unsigned>(r.range(2, 6));
	auto const n_tasks = n_threads * static_cast<unsigned>(r.range(1, 3));
	auto const same = r.chance(1, 4); // Everyone the same duel, in step.
	int status = 0;
	auto const packed = in_child(
		[&]
		{
			Rng g(gen_seed);
			std::vector<Task> v;
			for(unsigned i = 0; i < n_tasks; i++)
			{
				Task t;
				t.room = g.chance(1, 4);
				t.seed = g.next();
				if(!t.room)
				{
					t.script = work::make_script(g, g.range(15, 50));
					for(int k = 0; k < 5; k++)
					{
						auto c = make_case(g, all_kinds()[g.below(all_kinds().size())]);
						if(c.bytes.size() < 4000 &&
						   (c.kind == Kind::REQUEST || c.kind == Kind::SWALLOWED))
							t.script.insert(
								t.script.begin() +
									static_cast<long>(g.below(t.script.size() + 1)),
								c.bytes);
					}
				}
				v.push_back(std::move(t));
			}
			if(same)
				for(auto& t : v)
					t = v[0];
			return pack(v);
		},
		status);
	if(!WIFEXITED(status) || WEXITSTATUS(status) != 0)
	{
		std::fprintf(stderr, "generator ended with %d\n", status);
		std::abort();
	}
	at("in parallel");
	uint64_t const warm_seed = r.next();
	std::vector<unsigned> order;
	for(unsigned i = 0; i < n_tasks; i++)
		order.push_back(i % n_threads);
	auto const result = in_child(
		[&]
		{
			auto const tasks = unpack(packed);
			warm(Rng(warm_seed));
			std::vector<work::Digest> par(tasks.size());
			std::vector<unsigned> ended(tasks.size());
			std::atomic<unsigned> ready{0}, ticket{0};
			std::vector<std::thread> th;
			for(unsigned k = 0; k < n_threads; k++)
				th.emplace_back(
					[&, k]
					{
						// Relaxed: nothing here may order the threads.
						ready.fetch_add(1, std::memory_order_relaxed);
						while(ready.load(std::memory_order_relaxed) < n_threads)
							std::this_thread::yield();
						for(size_t i = 0; i < tasks.size(); i++)
						{
							if(order[i] != k)
								continue;
							par[i] = process(tasks[i], work::Env{0, k, 1});
							ended[ticket.fetch_add(1, std::memory_order_relaxed)] =
								static_cast<unsigned>(i);
						}
					});
			for(auto& t : th)
				t.join();
			std::string o;
			for(auto x : ended)
				o += std::to_string(x) + ",";
			o += "\n";
			uint64_t outputs = 0;
			for(size_t i = 0; i < tasks.size(); i++)
			{
				auto seq = process(tasks[i], work::Env{0, 0, 1});
				outputs += seq.v.size();
				auto d = work::diff(seq, par[i]);
				if(!d.empty())
					o += std::string(tasks[i].room ? "room" : "duel") + " " +
					     std::to_string(i) + " of " + std::to_string(tasks.size()) + ": " + d +
					     "; ";
			}
			return o + "\n" + std::to_string(outputs) + "\n.";
		},
		status);
	if(!WIFEXITED(status) || WEXITSTATUS(status) != 0 || result.empty() || result.back() != '.')
	{
		// ThreadSanitizer or a crash: the report is on stderr.
		std::fprintf(stderr, "parallel child ended with status %d\n", status);
		std::abort();
	}
	auto const l1 = result.find('\n'), l2 = result.find('\n', l1 + 1);
	auto const ended = result.substr(0, l1), bad = result.substr(l1 + 1, l2 - l1 - 1);
	if(!bad.empty())
		violate({"S02"}, "parallel", "results differ from those one after another: " + bad);
	count("outputs_compared", std::stoull(result.substr(l2 + 1)));
	count("rounds");
	count("threads", n_threads);
	count("duels_and_rooms", n_tasks);
	distinct(std::to_string(gen_seed) + ended);
	maxi("threads_at_once", n_threads);
	if(run().evaluations % 11 == 0)
		sample(std::to_string(n_threads) + " threads, " + std::to_string(n_tasks) +
		       " duels and rooms, ended in the order " + ended);
}

} // namespace

int main(int argc, char** argv) { return drive(argc, argv, reentrant_case); }
