// S07: what a duel keeps in memory is its state. Living through the same history
// again and again, or going back and forth in it, needs no more memory the
// hundredth time than the tenth.
#include "work.hpp"
#include <malloc.h>

namespace
{
long g_bytes = 0;
long g_blocks = 0;
}
void* operator new(size_t n)
{
	void* p = std::malloc(n == 0 ? 1 : n);
	if(p == nullptr)
		std::abort();
	g_bytes += static_cast<long>(malloc_usable_size(p));
	g_blocks++;
	return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept
{
	if(p == nullptr)
		return;
	g_bytes -= static_cast<long>(malloc_usable_size(p));
	g_blocks--;
	std::free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

namespace
{

using namespace vf;

struct Use
{
	long bytes, blocks;
};

Use now() { return {g_bytes, g_blocks}; }

// Runs `lap` 8, 16, 32 and 64 times and looks how much has come to stay.
// Containers that take turns may go on growing for a while: what looks like
// more and more has to go on at the same rate for a thousand laps.
template<typename F>
void laps(char const* what, F lap, std::string const& story)
{
	at(what);
	std::vector<Use> u;
	auto const base = now();
	int n = 0;
	auto until = [&](int laps)
	{
		for(; n < laps; n++)
		{
			lap();
			count("laps");
		}
		u.push_back(now());
	};
	auto grows = [&](auto f, long per_lap)
	{
		double first = 0, last = 0; // Per lap.
		for(size_t k = 1; k < u.size(); k++)
		{
			long const more = f(u[k]) - f(u[k - 1]), in = 4L << k;
			if(more < in * per_lap)
				return false;
			last = static_cast<double>(more) / static_cast<double>(in);
			if(k == 1)
				first = last;
		}
		return last >= first / 3;
	};
	auto more_and_more = [&]
	{
		return grows([](Use const& x) { return x.bytes; }, 8) ||
		       grows([](Use const& x) { return x.blocks; }, 1);
	};
	for(int k = 8; k <= 64; k *= 2)
		until(k);
	bool bad = more_and_more();
	if(bad)
	{
		count("suspicious");
		for(int k = 128; bad && k <= 1024; k *= 2)
		{
			until(k);
			bad = more_and_more();
		}
	}
	maxi(what, static_cast<uint64_t>(u[3].bytes > base.bytes ? u[3].bytes - base.bytes : 0));
	if(!bad)
		return;
	std::string nums;
	for(auto const& x : u)
		nums += " " + std::to_string(x.bytes - base.bytes) + " bytes in " +
		        std::to_string(x.blocks - base.blocks) + " blocks;";
	violate({"S07"}, what,
	        std::string(what) + " keeps more and more: after 8, 16, 32, ... 1024 times" + nums +
	            " " + story);
}

void one(Rng& r)
{
	at("generating");
	auto s = work::make_script(r, r.range(10, 40));
	for(int k = 0; k < 4; k++)
	{
		auto c = make_case(r, all_kinds()[r.below(all_kinds().size())]);
		if(c.kind == Kind::REQUEST || c.kind == Kind::SWALLOWED)
			s.insert(s.begin() + static_cast<long>(r.below(s.size() + 1)), c.bytes);
	}
	for(auto& b : s)
		b.resize(b.size() + 64);
	auto const story = std::to_string(s.size()) + " messages";
	std::vector<PMsg> msgs;
	{
		YGOpen::Server::BasicEncodeContext ctx;
		laps("a context and its board",
		     [&]
		     {
				 google::protobuf::Arena arena;
				 auto const first = msgs.empty();
				 for(auto const& b : s)
				 {
					 auto res = OCG::encode_one(arena, ctx, b.data());
					 if(res.msg == nullptr)
						 continue;
					 ctx.parse(*res.msg);
					 if(first)
						 msgs.emplace_back().ParseFromString(res.msg->SerializeAsString());
				 }
				 count("encoded", s.size());
			 },
		     story);
	}
	if(failed())
		return;
	{
		Board b;
		laps("a client's board",
		     [&]
		     {
				 for(auto const& m : msgs)
				 {
					 if(m.t_case() == PMsg::kEvent)
						 YGOpen::Client::parse_event(b, m.event());
					 for(auto const& q : m.queries())
						 static_cast<void>(
							 YGOpen::Client::parse_query<true>(b.frame(), q));
				 }
			 },
		     story);
	}
	if(failed())
		return;
	{
		std::vector<std::pair<Request, YGOpen::Proto::Duel::Answer>> answers;
		for(auto const& m : msgs)
			if(m.t_case() == PMsg::kRequest && m.request().t_case() != Request::T_NOT_SET)
				for(int k = 0; k < 3; k++)
				{
					auto a = work::answer_for(m.request(), r);
					if(a.t_case() != 0)
						answers.emplace_back(m.request(), a);
				}
		std::vector<uint8_t> out;
		laps("answering",
		     [&]
		     {
				 for(auto const& [q, a] : answers)
					 OCG::decode_one_answer(q, a, out);
				 count("answered", answers.size());
			 },
		     story);
	}
	if(failed())
		return;
	{
		work::UBoard b;
		std::vector<Event const*> es;
		at("history");
		// Shuffles and chains cannot be undone.
		for(auto const& m : msgs)
		{
			if(m.t_case() != PMsg::kEvent || m.event().t_case() == Event::kChainStack)
				continue;
			YGOpen::Client::parse_event(b, m.event());
			if(m.event().card().has_shuffle())
				es.clear();
			else
				es.push_back(&m.event());
		}
		auto forth = [&]
		{
			for(auto const* e : es)
				YGOpen::Client::parse_event(b, *e);
		};
		laps("going back and forth",
		     [&]
		     {
				 for(size_t i = es.size(); i-- > 0;)
					 YGOpen::Client::undo_parse_event(b, *es[i]);
				 forth();
				 count("undone", es.size());
			 },
		     story);
	}
	distinct(fnv(std::string(s.back().begin(), s.back().end())) ^ s.size());
	if(run().evaluations % 23 == 0)
		sample(story);
}

} // namespace

int main(int argc, char** argv) { return drive(argc, argv, one); }
