// Shared plumbing of the monitors: deterministic randomness, case isolation,
// violation reporting and counters of what was observed.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <cinttypes>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <initializer_list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vf
{

struct Rng // splitmix64
{
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed) {}
	uint64_t next()
	{
		uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
	uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
	bool chance(unsigned num, unsigned den) { return below(den) < num; }
	bool coin() { return (next() >> 17) & 1U; }
	template<typename T>
	T const& pick(std::vector<T> const& v)
	{
		return v[below(v.size())];
	}
	template<typename T>
	T pick(std::initializer_list<T> v)
	{
		return *(v.begin() + below(v.size()));
	}
	// Boundary-biased full-width values.
	template<typename T>
	T any()
	{
		using U = std::make_unsigned_t<T>;
		constexpr unsigned B = sizeof(T) * 8;
		switch(below(8))
		{
		case 0: return static_cast<T>(below(4));
		case 1: return static_cast<T>(U(~U{0}) - U(below(3)));
		case 2: return static_cast<T>(U(U{1} << below(B)));
		case 3: return static_cast<T>(U((U{1} << below(B)) - 1));
		case 4: return static_cast<T>(U(U{1} << (B - 1)) + U(below(3)) - 1);
		case 5: return static_cast<T>(below(1000));
		default: return static_cast<T>(next());
		}
	}
	template<typename T>
	void shuffle(std::vector<T>& v)
	{
		for(size_t i = v.size(); i > 1; i--)
			std::swap(v[i - 1], v[below(i)]);
	}
};

struct Violation
{
	uint64_t idx;
	std::string key;
	std::string msg;
};

struct Run
{
	std::string prop;
	uint64_t seed = 1;
	uint64_t first = 0, cases = 1000;
	int tier = 0; // 0 quick, 1 thorough
	std::string out;
	uint64_t cur = 0;
	uint64_t evaluations = 0;
	std::unordered_set<uint64_t> distinct;
	std::map<std::string, uint64_t> counters;
	std::vector<std::string> samples;
	std::vector<Violation> violations;
	char* progress = nullptr;
	bool trace = false;
	std::string trace_buf;
	bool case_failed = false;
};

inline Run& run()
{
	static Run r;
	return r;
}

inline void count(std::string const& k, uint64_t n = 1)
{
	run().counters[k] += n;
}

inline void maxi(std::string const& k, uint64_t n)
{
	auto& c = run().counters["max_" + k];
	c = std::max(c, n);
}

// Cheap note of what the case is doing, survives a crash (shared mapping).
inline void at(char const* what)
{
	if(run().progress != nullptr)
	{
		std::snprintf(run().progress, 256, "%" PRIu64 " %s\n", run().cur, what);
	}
}
inline void at(std::string const& s) { at(s.c_str()); }

inline bool active(std::initializer_list<char const*> props)
{
	for(auto* p : props)
		if(run().prop == p)
			return true;
	return false;
}

inline void violate(std::initializer_list<char const*> props,
                    std::string const& key, std::string const& msg)
{
	if(!active(props))
		return;
	run().case_failed = true;
	if(run().violations.size() < 20)
		run().violations.push_back({run().cur, key, msg});
}

inline bool failed() { return run().case_failed; }

inline uint64_t fnv(std::string const& s)
{
	uint64_t h = 1469598103934665603ULL;
	for(unsigned char c : s)
		h = (h ^ c) * 1099511628211ULL;
	return h;
}

inline void distinct(std::string const& sig) { run().distinct.insert(fnv(sig)); }
inline void distinct(uint64_t h) { run().distinct.insert(h); }

inline void sample(std::string const& s)
{
	if(run().samples.size() < 4)
		run().samples.push_back(s.substr(0, 900));
}

inline void trace(std::string const& s)
{
	if(run().trace)
	{
		std::fprintf(stderr, "%s\n", s.c_str());
	}
}

inline std::string jstr(std::string const& s)
{
	std::string o = "\"";
	for(unsigned char c : s)
	{
		if(c == '"' || c == '\\')
		{
			o += '\\';
			o += static_cast<char>(c);
		}
		else if(c == '\n')
			o += "\\n";
		else if(c < 0x20 || c >= 0x7F)
		{
			char b[8];
			std::snprintf(b, sizeof b, "\\u%04x", c);
			o += b;
		}
		else
			o += static_cast<char>(c);
	}
	return o + "\"";
}

inline std::string hex(uint8_t const* p, size_t n, size_t lim = 200)
{
	std::string o;
	char b[4];
	for(size_t i = 0; i < n && i < lim; i++)
	{
		std::snprintf(b, sizeof b, "%02x", p[i]);
		o += b;
	}
	if(n > lim)
		o += "...(" + std::to_string(n) + " bytes)";
	return o;
}

inline void write_out()
{
	auto& r = run();
	std::string o = "{";
	o += "\"evaluations\":" + std::to_string(r.evaluations);
	o += ",\"distinct\":[";
	bool f = true;
	for(auto h : r.distinct)
	{
		o += (f ? "" : ",");
		o += std::to_string(h);
		f = false;
	}
	o += "],\"counters\":{";
	f = true;
	for(auto& [k, v] : r.counters)
	{
		o += (f ? "" : ",");
		o += jstr(k) + ":" + std::to_string(v);
		f = false;
	}
	o += "},\"samples\":[";
	f = true;
	for(auto& s : r.samples)
	{
		o += (f ? "" : ",");
		o += jstr(s);
		f = false;
	}
	o += "],\"violations\":[";
	f = true;
	for(auto& v : r.violations)
	{
		o += (f ? "" : ",");
		o += "{\"idx\":" + std::to_string(v.idx) + ",\"key\":" + jstr(v.key) +
		     ",\"msg\":" + jstr(v.msg.substr(0, 3000)) + "}";
		f = false;
	}
	o += "],\"complete\":true}\n";
	if(r.out.empty())
	{
		std::fputs(o.c_str(), stdout);
		return;
	}
	if(FILE* fp = std::fopen(r.out.c_str(), "w"))
	{
		std::fputs(o.c_str(), fp);
		std::fclose(fp);
	}
}

// Drives `one(rng)` for every case index. Case i only depends on (seed, i).
inline int drive(int argc, char** argv, std::function<void(Rng&)> const& one,
                 std::function<void()> const& finalize = {})
{
	auto& r = run();
	std::string prog;
	uint64_t seconds = 0; // Start no case after these (0: all of them).
	for(int i = 1; i < argc; i++)
	{
		std::string a = argv[i];
		auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
		if(a == "--prop") r.prop = val();
		else if(a == "--seed") r.seed = std::stoull(val());
		else if(a == "--first") r.first = std::stoull(val());
		else if(a == "--cases") r.cases = std::stoull(val());
		else if(a == "--tier") r.tier = std::stoi(val());
		else if(a == "--out") r.out = val();
		else if(a == "--progress") prog = val();
		else if(a == "--seconds") seconds = std::stoull(val());
		else if(a == "--trace") r.trace = true;
		else
		{
			std::fprintf(stderr, "unknown argument %s\n", a.c_str());
			return 2;
		}
	}
	if(!prog.empty())
	{
		int fd = ::open(prog.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
		if(fd < 0 || ::ftruncate(fd, 4096) != 0)
			return 2;
		void* m = ::mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		if(m == MAP_FAILED)
			return 2;
		r.progress = static_cast<char*>(m);
		::close(fd);
	}
	auto const until = std::chrono::steady_clock::now() + std::chrono::seconds(seconds);
	for(uint64_t i = 0; i < r.cases; i++)
	{
		if(seconds != 0 && std::chrono::steady_clock::now() >= until)
			break;
		r.cur = r.first + i;
		r.case_failed = false;
		at("start");
		uint64_t mix = r.seed * 0xD1342543DE82EF95ULL + 0x632BE59BD9B4E019ULL;
		Rng rng(mix ^ (r.cur * 0xA0761D6478BD642FULL + 0x1234567));
		rng.next();
		one(rng);
		r.evaluations++;
		if(r.violations.size() >= 5)
			break;
	}
	r.cur = r.first;
	if(finalize && r.violations.empty())
		finalize();
	write_out();
	return 0;
}

} // namespace vf
