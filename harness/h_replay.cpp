// Undoing and redoing the events the encoder makes of whole duels: U01, U02, U03
// (and F01: the undoable board equals the plain one all the time).
#include "work.hpp"

namespace
{

using work::UBoard;

template<typename B>
std::string scalars(B const& b)
{
	std::string o;
	auto n = [&](uint64_t v) { o += std::to_string(v) + " "; };
	n(static_cast<uint32_t>(b.turn()));
	n(static_cast<uint64_t>(static_cast<YGOpen::Duel::Controller>(b.turn_controller())));
	n(static_cast<uint64_t>(static_cast<YGOpen::Duel::Phase>(b.phase())));
	for(int con = 0; con < 2; con++)
		n(static_cast<uint32_t>(b.lp(static_cast<Controller>(con))));
	std::vector<YGOpen::Proto::Duel::Chain> const& ch = b.chain_stack();
	for(auto const& c : ch)
		o += c.SerializeAsString() + ";";
	o += "/";
	std::vector<PPlace> const& bz = b.blocked_zones();
	for(auto const& p : bz)
		o += p.SerializeAsString() + ";";
	return o;
}

// Calls f(card, place as text) on every card; empty zones are told, too.
template<typename F, typename Fn>
void each_card(F& f, Fn&& fn)
{
	for(int con = 0; con < 2; con++)
	{
		auto const c = static_cast<Controller>(con);
		for(auto loc : PILES)
		{
			uint32_t i = 0;
			for(auto* x : f.pile(c, static_cast<Location>(loc)))
			{
				PPlace p;
				set_place(p, con, loc, i++, -1);
				fn(x, p);
			}
		}
		static constexpr std::pair<uint32_t, uint32_t> Z[] = {
			{CL_MZONE, 7}, {CL_SZONE, 5}, {PL_FIELD, 1}, {PL_PENDULUM, 2}};
		for(auto [loc, lim] : Z)
			for(uint32_t i = 0; i < lim; i++)
			{
				PPlace p;
				set_place(p, con, loc, i, -1);
				auto& z = f.zone(c, static_cast<Location>(loc), i);
				if(z.card != nullptr)
					fn(z.card, p);
				int32_t k = 0;
				for(auto* m : z.materials)
				{
					set_place(p, con, loc, i, k++);
					fn(m, p);
				}
			}
	}
}

struct Snap
{
	std::string values;
	std::vector<std::array<uint64_t, 3>> cards; // Place, object, contents.

	std::string diff(Snap const& o) const
	{
		if(values != o.values)
			return "turn, phase, life points, chain or blocked zones";
		if(cards.size() != o.cards.size())
			return "number of cards: " + std::to_string(o.cards.size()) + " instead of " +
			       std::to_string(cards.size());
		for(size_t i = 0; i < cards.size(); i++)
			for(int k = 0; k < 3; k++)
				if(cards[i][k] != o.cards[i][k])
					return std::string(k == 0   ? "place"
					                   : k == 1 ? "object"
					                            : "contents") +
					       " of card " + std::to_string(i) + " at " +
					       std::to_string(cards[i][0]);
		return "";
	}
};

uint64_t place_n(PPlace const& p)
{
	return ((static_cast<uint64_t>(p.con()) * 4096 + p.loc()) * 100000 + p.seq()) * 100000 +
	       static_cast<uint64_t>(p.oseq() + 1);
}

template<typename B>
Snap snap(B& b, bool objects)
{
	Snap s;
	s.values = scalars(b);
	each_card(b.frame(),
	          [&](Card* c, PPlace const& p)
	          {
				  s.cards.push_back({place_n(p), objects ? reinterpret_cast<uintptr_t>(c) : 0,
				                     objects ? c->code() : 0U});
			  });
	return s;
}

struct Walk
{
	Rng& rng;
	std::vector<PMsg> events; // What can be applied.
	UBoard u;
	std::vector<Snap> snaps;  // After the first i events.
	std::vector<Snap> plain;
	size_t at = 0;            // Events applied.
	size_t base = 0;          // Nothing before can be undone.
	uint32_t next_code = 1000;
	std::string sig;

	explicit Walk(Rng& r) : rng(r) {}

	bool undoable(size_t i) const
	{
		return !events[i].event().card().has_shuffle();
	}
	// New cards get contents of their own.
	void brand()
	{
		each_card(u.frame(),
		          [&](Card* c, PPlace const& p)
		          {
					  if(c->code() != 0)
						  return;
					  PMsg::Query q;
					  *q.mutable_place() = p;
					  q.mutable_data()->mutable_code()->set_value(next_code++);
					  (void)YGOpen::Client::parse_query(u.frame(), q);
				  });
	}
	std::string name(size_t i) const
	{
		return events[i].ShortDebugString().substr(0, 160);
	}
	bool forward()
	{
		bool const fresh = at + 1 == snaps.size();
		vf::at("event " + std::to_string(at) + " " + name(at));
		YGOpen::Client::parse_event(u, events[at].event());
		if(!undoable(at))
			base = at + 1;
		at++;
		if(fresh)
		{
			brand();
			snaps.push_back(snap(u, true));
			count("applied");
			auto d = plain[at].diff(snap(u, false));
			if(!d.empty())
				violate({"U01", "U02", "F01"}, "plain",
				        "the undoable board differs from the plain one in " + d + " after " +
				            name(at - 1));
		}
		else
		{
			auto d = snaps[at].diff(snap(u, true));
			count("redone");
			if(!d.empty())
				violate({"U02", "U01"}, "redo",
				        "redone event " + std::to_string(at - 1) + " yields another " + d +
				            ": " + name(at - 1));
		}
		return !failed();
	}
	bool back()
	{
		vf::at("undoing " + std::to_string(at - 1) + " " + name(at - 1));
		YGOpen::Client::undo_parse_event(u, events[at - 1].event());
		at--;
		auto d = snaps[at].diff(snap(u, true));
		count("undone");
		if(!d.empty())
			violate({"U01"}, "undo",
			        "undoing event " + std::to_string(at) + " does not restore " + d + ": " +
			            name(at));
		return !failed();
	}
	void go()
	{
		snaps.push_back(snap(u, true));
		bool const forgets = active({"U03"}) || rng.chance(1, 4);
		uint64_t moves = 0;
		while(at < events.size() && !failed())
		{
			auto n = rng.range(1, 12);
			for(; n > 0 && at < events.size() && !failed(); n--)
				forward();
			if(failed() || rng.chance(1, 3))
				continue;
			// Back, up to everything, and forth some times.
			for(auto k = rng.range(1, 3); k > 0 && !failed() && moves < 400; k--)
			{
				auto to = rng.chance(1, 4) ? base : rng.range(base, at);
				sig += "-" + std::to_string(at - to);
				for(; at > to && !failed(); moves++)
					back();
				if(failed())
					return;
				if(forgets && rng.chance(1, 3))
				{
					// The same events happen again, but with new cards.
					count("forgotten");
					u.frame().erase_history();
					snaps.resize(at + 1);
					break;
				}
				auto end = rng.range(at, snaps.size() - 1);
				sig += "+" + std::to_string(end - at);
				for(; at < end && !failed(); moves++)
					forward();
			}
		}
		while(at > base && !failed())
			back();
		while(at + 1 < snaps.size() && !failed())
			forward();
	}
};

void replay_case(Rng& rng)
{
	at("generating");
	std::vector<PMsg> events;
	std::vector<Snap> plain;
	{
		auto const script = work::make_script(rng, rng.range(15, run().tier == 0 ? 60 : 150));
		YGOpen::Server::BasicEncodeContext ctx;
		Board b;
		plain.push_back(snap(b, false));
		for(auto const& m : script)
		{
			google::protobuf::Arena arena;
			std::vector<uint8_t> buf(m);
			buf.resize(m.size() + 64);
			auto r = OCG::encode_one(arena, ctx, buf.data());
			if(r.msg == nullptr)
				continue;
			ctx.parse(*r.msg);
			// A chain that grows or shrinks cannot be undone yet.
			if(r.msg->t_case() != PMsg::kEvent ||
			   r.msg->event().t_case() == Event::kChainStack)
				continue;
			events.push_back(*r.msg);
			YGOpen::Client::parse_event(b, r.msg->event());
			plain.push_back(snap(b, false));
		}
	}
	if(failed())
		return;
	Walk w(rng);
	w.events = std::move(events);
	w.plain = std::move(plain);
	w.go();
	count("duels");
	for(auto const& e : w.events)
		count("event_" + std::to_string(static_cast<int>(e.event().t_case())) +
		      (e.event().t_case() == Event::kCard
		           ? "_" + std::to_string(static_cast<int>(e.event().card().t_case()))
		           : ""));
	distinct(std::to_string(w.events.size()) + w.sig);
	sample(std::to_string(w.events.size()) + " events, walk " + w.sig);
}

} // namespace

int main(int argc, char** argv) { return drive(argc, argv, replay_case); }
