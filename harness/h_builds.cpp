// S05: what the library computes does not depend on how it was built. This
// process is the reference; the others, the same source built by other compilers,
// with other settings and without assertions, are named by VF_PEERS.
#include "tasks.hpp"
#include <csignal>
#include <sys/wait.h>

namespace
{

using namespace work::tasks;

bool get(int fd, void* p, size_t n)
{
	auto* c = static_cast<char*>(p);
	while(n > 0)
	{
		auto k = ::read(fd, c, n);
		if(k <= 0)
			return false;
		c += k;
		n -= static_cast<size_t>(k);
	}
	return true;
}

void put_block(int fd, std::string const& s)
{
	uint32_t const n = static_cast<uint32_t>(s.size());
	put(fd, std::string(reinterpret_cast<char const*>(&n), 4) + s);
}

bool get_block(int fd, std::string& s)
{
	uint32_t n = 0;
	if(!get(fd, &n, 4))
		return false;
	s.resize(n);
	return n == 0 || get(fd, s.data(), n);
}

std::string answers(std::vector<Task> const& v, std::vector<work::Digest>* keep)
{
	std::string o;
	for(auto const& t : v)
	{
		auto d = process(t, work::Env{0, 0, 1});
		uint32_t const n = static_cast<uint32_t>(d.v.size());
		o.append(reinterpret_cast<char const*>(&n), 4);
		for(auto const& [k, x] : d.v)
			o.append(reinterpret_cast<char const*>(&x), 8);
		if(keep != nullptr)
			keep->push_back(std::move(d));
	}
	return o;
}

int serve()
{
	std::string s;
	while(get_block(0, s))
		put_block(1, answers(unpack(s), nullptr));
	return 0;
}

struct Peer
{
	std::string name, exe;
	pid_t pid = -1;
	int in = -1, out = -1;

	void start()
	{
		int a[2], b[2];
		if(::pipe2(a, O_CLOEXEC) != 0 || ::pipe2(b, O_CLOEXEC) != 0)
			std::_Exit(3);
		pid = ::fork();
		if(pid == 0)
		{
			::dup2(a[0], 0);
			::dup2(b[1], 1);
			::execl(exe.c_str(), exe.c_str(), "--serve", nullptr);
			std::_Exit(3);
		}
		::close(a[0]);
		::close(b[1]);
		out = a[1];
		in = b[0];
	}
	void stop()
	{
		if(pid < 0)
			return;
		::close(out);
		::close(in);
		int st = 0;
		::waitpid(pid, &st, 0);
		pid = -1;
	}
};

std::vector<Peer>& peers()
{
	static std::vector<Peer> v = []
	{
		std::vector<Peer> v;
		char const* e = std::getenv("VF_PEERS");
		std::string s = e == nullptr ? "" : e;
		while(!s.empty())
		{
			auto const end = s.find(';');
			auto const one = s.substr(0, end);
			s = end == std::string::npos ? "" : s.substr(end + 1);
			auto const eq = one.find('=');
			if(eq == std::string::npos)
				continue;
			Peer p;
			p.name = one.substr(0, eq);
			p.exe = one.substr(eq + 1);
			v.push_back(p);
		}
		return v;
	}();
	return v;
}

void builds_case(Rng& r)
{
	at("generating");
	std::vector<Task> v(4);
	for(auto& t : v)
		t.seed = r.next();
	v[0].script = work::make_script(r, r.chance(1, 8) ? r.range(120, 260) : r.range(15, 60));
	for(int k = 0; k < 6; k++)
	{
		auto c = make_case(r, all_kinds()[r.below(all_kinds().size())]);
		if(c.kind == Kind::REQUEST || c.kind == Kind::SWALLOWED)
			v[0].script.insert(v[0].script.begin() +
			                       static_cast<long>(r.below(v[0].script.size() + 1)),
			                   c.bytes);
	}
	v[1].room = true;
	v[2].extra = 1;
	for(int k = 0; k < 12; k++)
	{
		auto const& all = all_kinds();
		v[2].script.push_back(make_case(r, all[(run().cur * 12 + k) % all.size()]).bytes);
	}
	v[3].extra = 2;
	auto const packed = pack(v);
	static constexpr char const* WHAT[] = {"duel", "room", "messages", "numbers"};
	at("reference");
	std::vector<work::Digest> mine;
	auto const ref = answers(v, &mine);
	count("duels");
	count("rooms");
	count("messages", v[2].script.size());
	for(auto const& d : mine)
		count("outputs", d.v.size());
	for(auto& p : peers())
	{
		at("the build " + p.name);
		if(p.pid < 0)
			p.start();
		std::string got;
		put_block(p.out, packed);
		if(!get_block(p.in, got))
		{
			p.stop();
			return violate({"S05"}, p.name + ":ended",
			               "the build " + p.name + " ended abnormally on the same input");
		}
		count("compared_" + p.name);
		if(got == ref)
			continue;
		size_t at = 0;
		for(size_t i = 0; i < mine.size(); i++)
		{
			uint32_t n = 0;
			if(at + 4 > got.size())
				break;
			std::memcpy(&n, got.data() + at, 4);
			at += 4;
			for(size_t k = 0; k < mine[i].v.size(); k++)
			{
				uint64_t x = 0;
				if(k < n && at + 8 * k + 8 <= got.size())
					std::memcpy(&x, got.data() + at + 8 * k, 8);
				if(k >= n || x != mine[i].v[k].second)
					return violate({"S05"}, p.name + ":" + mine[i].v[k].first,
					               std::string("the ") + WHAT[i] + ": output " +
					                   std::to_string(k) + " (" + mine[i].v[k].first +
					                   ") differs in the build " + p.name);
			}
			at += 8 * size_t{n};
		}
		return violate({"S05"}, p.name + ":outputs", "outputs differ in the build " + p.name);
	}
	distinct(ref);
	if(run().evaluations % 17 == 0)
		sample("duel of " + std::to_string(mine[0].v.size()) + " outputs, room of " +
		       std::to_string(mine[1].v.size()) + ", digest " + std::to_string(fnv(ref)));
}

} // namespace

int main(int argc, char** argv)
{
	std::signal(SIGPIPE, SIG_IGN);
	if(argc > 1 && std::string(argv[1]) == "--serve")
		return serve();
	if(peers().empty())
	{
		std::fprintf(stderr, "no other builds in VF_PEERS\n");
		return 2;
	}
	auto const rc = drive(argc, argv, builds_case);
	for(auto& p : peers())
		p.stop();
	return rc;
}
