// Monitors of the core message encoder, message by message: C01..C05, C08.
#include "core_msgs.hpp"
#include "msgcmp.hpp"
#include <google/protobuf/arena.h>
#include <ygopen/client/frame.hpp>
#include <ygopen/codec/edo9300_ocgcore_encode.hpp>
#include <ygopen/server/basic_encode_context.hpp>

#include <optional>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#endif
#endif

using namespace vf;
namespace OCG = YGOpen::Codec::Edo9300::OCGCore;

namespace
{

struct NoCard
{
};
using Frame = YGOpen::Client::BasicFrame<NoCard>;

std::string st_name(St s)
{
	return s == St::OK ? "OK" : s == St::SWALLOWED ? "SWALLOWED" : "UNKNOWN";
}

// Exact-size heap copy: one byte outside of it is one byte too far.
struct Buf
{
	std::unique_ptr<uint8_t[]> p;
	size_t n;
	explicit Buf(std::vector<uint8_t> const& v) : p(new uint8_t[v.size()]), n(v.size())
	{
		std::copy(v.begin(), v.end(), p.get());
	}
};

std::string place_s(PPlace const& p) { return MockCtx::s(p); }

bool addressable(PPlace const& p, std::string& why)
{
	auto const loc = p.loc();
	if(loc == 0)
		return true;
	uint32_t lim = 0;
	switch(loc)
	{
	case CL_DECK:
	case CL_HAND:
	case CL_GRAVE:
	case CL_REMOVED:
	case CL_EXTRA: return true;
	case CL_MZONE: lim = 7; break;
	case CL_SZONE: lim = 5; break;
	case PL_FIELD: lim = 1; break;
	case PL_PENDULUM: lim = 2; break;
	default: why = "unknown location in place " + place_s(p); return false;
	}
	if(p.con() > 1 || p.con() < 0 || p.seq() >= lim)
	{
		why = "no such zone: " + place_s(p);
		return false;
	}
	// And the client's own frame agrees (it aborts on anything it cannot
	// address).
	static Frame const f;
	if(f.has_card(p))
		why = "empty frame has a card at " + place_s(p);
	return why.empty();
}

void walk(PbMsg const& m, std::function<void(PPlace const&)> const& fn)
{
	if(auto const* p = dynamic_cast<PPlace const*>(&m))
	{
		fn(*p);
		return;
	}
	auto const* r = m.GetReflection();
	std::vector<PbField const*> fields;
	r->ListFields(m, &fields);
	for(auto const* f : fields)
	{
		if(f->cpp_type() != PbField::CPPTYPE_MESSAGE)
			continue;
		if(!f->is_repeated())
		{
			walk(r->GetMessage(m, f), fn);
			continue;
		}
		for(int i = 0; i < r->FieldSize(m, f); i++)
			walk(r->GetRepeatedMessage(m, f, i), fn);
	}
}

void norm_piles(PMsg& m)
{
	if(m.event().meta().has_shuffle_pile())
		for(auto& p :
		    *m.mutable_event()->mutable_meta()->mutable_shuffle_pile()->mutable_places())
		{
			p.set_seq(0);
			p.set_oseq(0);
		}
}

bool is_place_path(std::string const& d)
{
	auto colon = d.find(':');
	auto path = d.substr(0, colon);
	for(char const* s : {"/con", "/loc", "/seq", "/oseq"})
	{
		std::string t = s;
		if(path.size() >= t.size() &&
		   path.compare(path.size() - t.size(), t.size(), t) == 0)
			return true;
	}
	return path.find("place") != std::string::npos ||
	       path.find("zones") != std::string::npos;
}

char const* content_prop(Case const& c)
{
	switch(c.kind)
	{
	case Kind::REQUEST: return "C03";
	case Kind::QUERY: return "C04";
	default: return "C02";
	}
}

void judge(Case const& c, MockCtx const& ctx, YGOpen::Codec::EncodeOneResult const& r,
           size_t avail)
{
	count("state_" + st_name(r.state));
	auto id = c.name + (c.kind == Kind::UNKNOWN ? "#" + c.shape : "");
	if(r.state != c.state)
	{
		violate({"C01", content_prop(c)}, "state:" + c.name,
		        id + ": reported " + st_name(r.state) + ", expected " +
		            st_name(c.state));
		return;
	}
	if(r.state == St::OK)
	{
		if(r.msg == nullptr)
		{
			violate({"C01", content_prop(c)}, "null:" + c.name, id + ": no message");
			return;
		}
	}
	else if(r.msg != nullptr)
		violate({"C01"}, "nonnull:" + c.name, id + ": unexpected message");
	if(r.state != St::UNKNOWN && r.bytes_read != c.bytes.size())
		violate({"C01"}, "bytes:" + c.name,
		        id + ": " + std::to_string(r.bytes_read) +
		            " bytes consumed instead of " + std::to_string(c.bytes.size()) +
		            " (buffer " + std::to_string(avail) + "): " +
		            hex(c.bytes.data(), c.bytes.size()));
	if(ctx.calls != c.calls)
	{
		std::string s;
		for(auto const& x : ctx.calls)
			s += x + "; ";
		violate({"C02", content_prop(c)}, "context:" + c.name,
		        id + ": context told: " + s);
	}
	count("context_checked");
	if(r.state != St::OK)
		return;
	PMsg got = *r.msg;
	PMsg want = c.want;
	if(c.pile_places)
	{
		norm_piles(got);
		norm_piles(want);
	}
	if(c.exact)
	{
		auto d = pb_diff(want, got);
		count("messages_compared");
		if(!d.empty())
		{
			auto const msg = id + ": " + d + "; bytes " +
			                 hex(c.bytes.data(), c.bytes.size()) + "; got " +
			                 got.ShortDebugString();
			violate({content_prop(c)}, "content:" + c.name, msg);
			if(c.name == "WIN")
				violate({"C08"}, "content:WIN", msg);
			if(is_place_path(d))
				violate({"C05"}, "place:" + c.name, msg);
		}
	}
	if(c.extra)
	{
		auto d = c.extra(got);
		count("messages_compared");
		if(!d.empty())
			violate({content_prop(c), "C05"}, "content:" + c.name, id + ": " + d);
	}
	if(active({"C05"}))
	{
		uint64_t n = 0;
		walk(got,
		     [&](PPlace const& p)
		     {
			     n++;
			     if(c.pile_places)
				     return;
			     std::string why;
			     at(c.name + " addressing " + place_s(p));
			     if(!addressable(p, why))
				     violate({"C05"}, "addr:" + c.name, id + ": " + why);
		     });
		count("places_judged", n);
		// Splices are about whole cards; how they are cut is up to the encoder.
		for(auto const& op : got.event().pile().splice().ops())
			for(auto const* p : {&op.from(), &op.to()})
			{
				count("splice_places");
				if(p->oseq() >= 0)
					violate({"C05"}, "splice:" + c.name,
					        id + ": splice names a material: " + place_s(*p));
			}
	}
}

// The message must live exactly as long as the caller's arena.
void judge_released(std::string const& name, PMsg const* msg)
{
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
	if(msg == nullptr)
		return;
	count("released_with_arena");
	if(__asan_address_is_poisoned(msg) == 0)
		violate({"C01"}, "arena:" + name,
		        name + ": message was not released with the caller's arena");
#endif
#endif
}

uint64_t bucket(uint64_t n)
{
	return n < 4 ? n : n < 128 ? 4 : n < 256 ? 5 : 6;
}

void note(Case const& c)
{
	count("kind_" + c.name);
	maxi("list_length", c.elems);
	distinct(c.name + "/" + c.shape.substr(0, 60) + "/" +
	         std::to_string(bucket(c.elems)) + "/" +
	         std::to_string(fnv(std::string(c.bytes.begin(), c.bytes.end())) & 0xFF));
}

void run_one(Case const& c)
{
	at(c.name + " " + hex(c.bytes.data(), c.bytes.size(), 60));
	Buf b(c.bytes);
	std::optional<google::protobuf::Arena> arena;
	arena.emplace();
	MockCtx ctx;
	if(c.setup)
		c.setup(ctx);
	auto r = OCG::encode_one(*arena, ctx, b.p.get());
	judge(c, ctx, r, b.n);
	note(c);
	sample(c.name + ": " + hex(c.bytes.data(), c.bytes.size(), 24) + " -> " +
	       (r.state == St::OK && r.msg != nullptr
	            ? r.msg->ShortDebugString().substr(0, 300)
	            : st_name(r.state)));
	arena.reset();
	judge_released(c.name, r.msg);
}

void run_stream(Rng& rng, std::vector<Case> const& cs)
{
	std::vector<uint8_t> all;
	for(auto const& c : cs)
		all.insert(all.end(), c.bytes.begin(), c.bytes.end());
	Buf b(all);
	std::optional<google::protobuf::Arena> arena;
	arena.emplace();
	size_t off = 0;
	std::vector<std::pair<PMsg const*, std::string>> kept;
	for(size_t i = 0; i < cs.size(); i++)
	{
		auto const& c = cs[i];
		at("stream " + std::to_string(i) + " " + c.name);
		MockCtx ctx;
		if(c.setup)
			c.setup(ctx);
		auto r = OCG::encode_one(*arena, ctx, b.p.get() + off);
		judge(c, ctx, r, b.n - off);
		note(c);
		if(failed())
			return;
		if(r.msg != nullptr)
			kept.emplace_back(r.msg, r.msg->SerializeAsString());
		if(r.state == St::UNKNOWN)
			off += c.bytes.size();
		else
			off += r.bytes_read;
	}
	if(off != all.size())
		violate({"C01"}, "stream",
		        "stream out of step: " + std::to_string(off) + " of " +
		            std::to_string(all.size()));
	// Earlier messages must not be disturbed by later ones, nor depend on the
	// input buffer staying alive.
	std::fill(b.p.get(), b.p.get() + b.n, static_cast<uint8_t>(rng.next()));
	b.p.reset();
	for(auto& [m, s] : kept)
	{
		if(m->SerializeAsString() != s)
			violate({"C01"}, "disturbed", "a message changed after it was returned");
		count("kept_messages_rechecked");
	}
	arena.reset();
	for(auto& [m, s] : kept)
		judge_released("stream", m);
	count("streams");
	maxi("stream_messages", cs.size());
	maxi("stream_bytes", all.size());
}

Case pick_case(Rng& rng, std::initializer_list<Kind> kinds)
{
	std::vector<MsgKind const*> v;
	for(auto const& k : all_kinds())
		for(auto w : kinds)
			if(k.kind == w)
				v.push_back(&k);
	return make_case(rng, *v[rng.below(v.size())]);
}

void query_direct(Rng& rng)
{
	// The query block reader on its own.
	W w;
	PData want;
	std::string shape;
	auto ov = g_query(rng, w, want, shape);
	bool const had_overlay = shape.find("16,") != std::string::npos;
	Buf b(w.b);
	PData got;
	at("query " + hex(w.b.data(), w.b.size(), 80));
	auto r = OCG::encode_one_query(b.p.get(), got);
	auto d = pb_diff(want, got);
	if(!d.empty())
		violate({"C04"}, "query:content", d + " bytes " + hex(w.b.data(), w.b.size()));
	if(r.bytes_read != w.b.size())
		violate({"C01", "C04"}, "query:bytes",
		        "query consumed " + std::to_string(r.bytes_read) + " of " +
		            std::to_string(w.b.size()));
	if(r.overlays_count != ov.size())
		violate({"C04"}, "query:overlays",
		        "overlay count " + std::to_string(r.overlays_count) + " instead of " +
		            std::to_string(ov.size()));
	else
		for(size_t i = 0; i < ov.size(); i++)
		{
			uint32_t v = 0;
			std::memcpy(&v, r.overlays_ptr + i * 4, 4);
			if(v != ov[i])
				violate({"C04"}, "query:overlays", "wrong overlay view");
		}
	count(had_overlay ? "queries_with_overlays" : "queries_without_overlays");
	distinct("q/" + shape);
}

// Match outcome over several duels side by side, on the real context.
void outcome(Rng& rng)
{
	struct Duel
	{
		// In memory that is anything but zero before the object is created.
		std::unique_ptr<std::aligned_storage_t<sizeof(YGOpen::Server::BasicEncodeContext),
		                                       alignof(YGOpen::Server::BasicEncodeContext)>>
			mem;
		YGOpen::Server::BasicEncodeContext* ctx;
		uint32_t reason = 0;
	};
	auto n = rng.range(1, 4);
	std::vector<Duel> duels(n);
	for(auto& d : duels)
	{
		d.mem = std::make_unique<decltype(d.mem)::element_type>();
		std::memset(d.mem.get(), static_cast<int>(rng.pick({0x00, 0x5A, 0xFF, 0x01})),
		            sizeof(YGOpen::Server::BasicEncodeContext));
		d.ctx = new(d.mem.get()) YGOpen::Server::BasicEncodeContext;
	}
	google::protobuf::Arena arena;
	auto steps = rng.range(1, 12);
	for(uint64_t i = 0; i < steps; i++)
	{
		auto& d = duels[rng.below(n)];
		W w;
		if(rng.chance(1, 3))
		{
			d.reason = rng.any<uint32_t>();
			w.u8(170).u32(d.reason);
			auto r = OCG::encode_one(arena, *d.ctx, Buf(w.b).p.get());
			if(r.state != St::SWALLOWED || r.msg != nullptr)
				violate({"C08"}, "match-kill", "match kill was not swallowed");
			count("match_kills");
			continue;
		}
		auto who = rng.below(3);
		auto reason = rng.any<uint8_t>();
		w.u8(5).u8(who).u8(reason);
		auto r = OCG::encode_one(arena, *d.ctx, Buf(w.b).p.get());
		PMsg want;
		auto* f = want.mutable_event()->mutable_finish();
		f->set_win_reason(reason);
		f->set_match_win_reason(d.reason);
		if(who == 2)
			f->set_draw(true);
		else
			f->set_winner(static_cast<int>(who));
		if(r.msg == nullptr)
		{
			violate({"C08"}, "no-finish", "no finish event");
			break;
		}
		auto diff = pb_diff(want, *r.msg);
		if(!diff.empty())
			violate({"C08"}, "finish", diff + " got " + r.msg->ShortDebugString());
		d.ctx->parse(*r.msg);
		count("finishes");
		distinct("win/" + std::to_string(who) + "/" + std::to_string(d.reason != 0) +
		         "/" + std::to_string(reason) + "/" + std::to_string(n));
		sample("WIN who=" + std::to_string(who) + " match=" + std::to_string(d.reason) +
		       " -> " + r.msg->ShortDebugString());
	}
	for(auto& d : duels)
		d.ctx->~BasicEncodeContext();
}

void one(Rng& rng)
{
	auto const& p = run().prop;
	// Visit every kind in turn, so that none is left to chance.
	auto const& all = all_kinds();
	auto by_turn = [&](std::initializer_list<Kind> kinds) -> Case
	{
		std::vector<MsgKind const*> v;
		for(auto const& k : all)
			for(auto w : kinds)
				if(k.kind == w)
					v.push_back(&k);
		// Now and then each of its lists is longer than 16 bits can count.
		auto const round = run().cur / v.size();
		auto const period = std::max<uint64_t>(50, 2400 / v.size());
		if(round % period == 10)
			FORCED_LIST = static_cast<int>(round / period % 6);
		auto c = make_case(rng, *v[run().cur % v.size()]);
		FORCED_LIST = -1;
		return c;
	};
	if(p == "C01")
	{
		if(rng.chance(1, 6))
		{
			std::vector<Case> cs;
			auto n = rng.range(2, 24);
			for(uint64_t i = 0; i < n; i++)
				cs.push_back(rng.chance(1, 40) ? make_unknown(rng)
				                               : make_case(rng, rng.pick(all)));
			run_stream(rng, cs);
			return;
		}
		if(rng.chance(1, 12))
			return run_one(make_unknown(rng));
		if(rng.chance(1, 8))
			return query_direct(rng);
		run_one(make_case(rng, all[run().cur % all.size()]));
	}
	else if(p == "C02")
		run_one(by_turn({Kind::EVENT, Kind::SPECIAL, Kind::SWALLOWED}));
	else if(p == "C03")
		run_one(by_turn({Kind::REQUEST}));
	else if(p == "C04")
	{
		if(rng.chance(1, 3))
			query_direct(rng);
		else
			run_one(by_turn({Kind::QUERY}));
	}
	else if(p == "C05")
		run_one(by_turn({Kind::EVENT, Kind::SPECIAL, Kind::REQUEST, Kind::QUERY}));
	else if(p == "C08")
		outcome(rng);
	else // S01 and the like: a bit of everything.
	{
		switch(rng.below(4))
		{
		case 0: query_direct(rng); break;
		case 1: outcome(rng); break;
		case 2: run_one(make_unknown(rng)); break;
		default:
		{
			std::vector<Case> cs;
			auto n = rng.range(1, 8);
			for(uint64_t i = 0; i < n; i++)
				cs.push_back(make_case(rng, rng.pick(all)));
			run_stream(rng, cs);
		}
		}
	}
}

} // namespace

int main(int argc, char** argv) { return drive(argc, argv, one); }
