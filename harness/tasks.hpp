// Duels, rooms and more as packed tasks for other processes.
#pragma once
#include "work.hpp"
#include <sys/wait.h>
#include <ygopen/bit.hpp>

namespace work::tasks
{

inline void put(int fd, std::string const& s)
{
	size_t off = 0;
	while(off < s.size())
	{
		auto n = ::write(fd, s.data() + off, s.size() - off);
		if(n <= 0)
			std::_Exit(3);
		off += static_cast<size_t>(n);
	}
}

struct Task
{
	bool room = false;
	uint8_t extra = 0; // Instead: 1 stream, 2 numbers and places.
	uint64_t seed = 0;
	work::Script script;
};

inline std::string pack(std::vector<Task> const& v)
{
	W w;
	w.u32(v.size());
	for(auto const& t : v)
	{
		w.u8(t.room).u8(t.extra).u64(t.seed).u32(t.script.size());
		for(auto const& m : t.script)
		{
			w.u32(m.size());
			w.b.insert(w.b.end(), m.begin(), m.end());
		}
	}
	return std::string(w.b.begin(), w.b.end());
}

inline std::vector<Task> unpack(std::string const& s)
{
	std::vector<Task> v;
	size_t at = 0;
	auto num = [&](size_t n) -> uint64_t
	{
		uint64_t x = 0;
		if(at + n > s.size())
			std::_Exit(3);
		std::memcpy(&x, s.data() + at, n);
		at += n;
		return x;
	};
	v.resize(num(4));
	for(auto& t : v)
	{
		t.room = num(1) != 0;
		t.extra = static_cast<uint8_t>(num(1));
		t.seed = num(8);
		t.script.resize(num(4));
		for(auto& m : t.script)
		{
			m.resize(num(4));
			if(at + m.size() > s.size())
				std::_Exit(3);
			std::memcpy(m.data(), s.data() + at, m.size());
			at += m.size();
		}
	}
	return v;
}

// Messages of any kind, unrelated to each other.
class Stream
{
	Script const& s_;
	Env e_;
	Rng rng_;

public:
	Digest out;
	Stream(Script const& s, uint64_t seed, Env const& e) : s_(s), e_(e), rng_(seed) {}
	void run()
	{
		for(auto const& b : s_)
		{
			google::protobuf::Arena arena;
			In<YGOpen::Server::BasicEncodeContext> ctx(e_);
			std::vector<uint8_t> buf(b);
			buf.resize(b.size() + 96);
			auto res = OCG::encode_one(arena, *ctx, buf.data());
			out.add("state", std::to_string(static_cast<int>(res.state)) + "/" +
			                     (res.state == St::UNKNOWN ? "" : std::to_string(res.bytes_read)));
			if(res.msg == nullptr)
				continue;
			out.add("message", res.msg->SerializeAsString());
			if(res.msg->t_case() != PMsg::kRequest ||
			   res.msg->request().t_case() == Request::T_NOT_SET)
				continue;
			for(int k = 0; k < 3; k++)
			{
				auto a = answer_for(res.msg->request(), rng_);
				std::vector<uint8_t> o;
				if(a.t_case() == 0)
					continue;
				OCG::decode_one_answer(res.msg->request(), a, o);
				out.add("answer", std::string(o.begin(), o.end()));
			}
		}
	}
};

inline Digest numbers(uint64_t seed)
{
	Digest out;
	Rng g(seed);
	auto bits = [&](auto x)
	{
		std::string s;
		for(unsigned n : {0U, 1U, 2U, 3U, 7U, 16U, 40U, 70U})
		{
			s += std::to_string(YGOpen::Bit::popcnt(x)) + ",";
			s += std::to_string(YGOpen::Bit::choosel(n, x)) + ",";
			s += std::to_string(YGOpen::Bit::chooser(n, x)) + ";";
		}
		out.add("bits", s);
	};
	for(int i = 0; i < 6; i++)
	{
		bits(g.any<uint8_t>());
		bits(g.any<uint16_t>());
		bits(g.any<uint32_t>());
		bits(g.any<uint64_t>());
	}
	std::vector<PPlace> v(12);
	for(auto& p : v)
	{
		auto const con = static_cast<int>(g.below(2));
		auto const loc = g.pick({CL_MZONE, CL_SZONE, CL_HAND, CL_DECK, CL_GRAVE});
		auto const seq = static_cast<uint32_t>(g.below(3));
		auto const oseq = static_cast<int>(g.range(0, 2)) - 1;
		set_place(p, con, loc, seq, oseq);
	}
	std::string s;
	for(auto const& a : v)
		for(auto const& b : v)
		{
			using namespace YGOpen::Proto::Duel;
			s += std::to_string(int{a == b} + 2 * int{PlaceLess{}(a, b)}) + ",";
		}
	out.add("places", s);
	return out;
}

inline work::Digest process(Task const& t, work::Env const& e)
{
	if(t.extra == 1)
	{
		Stream w(t.script, t.seed, e);
		w.run();
		return std::move(w.out);
	}
	if(t.extra == 2)
		return numbers(t.seed);
	if(t.room)
	{
		work::Room w(t.seed, e);
		while(w.step()) {}
		return std::move(w.out);
	}
	work::Duel w(t.script, t.seed, e);
	while(w.step()) {}
	return std::move(w.out);
}

inline std::string get_all(int fd)
{
	std::string s;
	char b[65536];
	for(;;)
	{
		auto n = ::read(fd, b, sizeof b);
		if(n <= 0)
			return s;
		s.append(b, static_cast<size_t>(n));
	}
}

// Runs `f` in a child process that never used the library before.
inline std::string in_child(std::function<std::string()> const& f, int& status)
{
	int fd[2];
	if(::pipe(fd) != 0)
		std::_Exit(3);
	std::fflush(nullptr);
	auto const pid = ::fork();
	if(pid == 0)
	{
		::close(fd[0]);
		put(fd[1], f());
		::close(fd[1]);
		std::fflush(nullptr);
		std::_Exit(0);
	}
	::close(fd[1]);
	auto s = get_all(fd[0]);
	::close(fd[0]);
	::waitpid(pid, &status, 0);
	return s;
}

// Protobuf initialises itself lazily, and is not instrumented.
inline void warm(Rng r)
{
	FillOpts o;
	for(int i = 0; i < 12; i++)
	{
		auto touch = [&](google::protobuf::Message& m)
		{
			pb_fill(r, m, o);
			auto s = m.SerializeAsString();
			std::unique_ptr<google::protobuf::Message> c(m.New());
			c->ParseFromString(s);
			c->CopyFrom(m);
			m.Clear();
		};
		PMsg m;
		YGOpen::Proto::Duel::Answer a;
		work::PR::Event e;
		work::PR::Signal s;
		work::PR::Options op;
		YGOpen::Proto::Deck d;
		YGOpen::Proto::User u;
		touch(m); touch(a); touch(e); touch(s); touch(op); touch(d); touch(u);
		google::protobuf::Arena arena;
		auto* x = google::protobuf::Arena::CreateMessage<PMsg>(&arena);
		pb_fill(r, *x, o);
		auto* y = google::protobuf::Arena::CreateMessage<work::PR::Event>(&arena);
		pb_fill(r, *y, o);
	}
}

} // namespace work::tasks
