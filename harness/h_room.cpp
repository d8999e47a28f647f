// Monitors of server rooms: R01..R07. Random histories of clients entering and
// sending signals, entitled or not, against an exact model of the room.
#include "common.hpp"
#include "msgcmp.hpp"
#include "pbfill.hpp"
#include <algorithm>
#include <cassert>
#include <functional>
#include <optional>
#include <random>
#include <string_view>
#include <tuple>
#include <variant>
#include <ygopen/server/room.hpp>

using namespace vf;
namespace PR = YGOpen::Proto::Room;
using Ev = PR::Event;
using Sig = PR::Signal;
using Deck = YGOpen::Proto::Deck;
using DeckError = YGOpen::Proto::DeckError;
using User = YGOpen::Proto::User;

namespace
{

struct Log // Who received what, in global order.
{
	std::vector<std::pair<int, Ev>> v;
};

struct Client
{
	int id = 0;
	User user;
	Log* log = nullptr;
	auto send(Ev const& e) noexcept -> void { log->v.emplace_back(id, e); }
	auto fill_user(User& u) const noexcept -> void { u = user; }
};

struct Check
{
	std::string banlist;
	std::string deck;
};

struct Validator
{
	std::vector<Check>* calls;
	auto check(std::string_view banlist, Deck const& d, DeckError& e) const noexcept -> bool
	{
		calls->push_back({std::string(banlist), d.SerializeAsString()});
		// Some validators also note things about decks they accept.
		for(auto c : d.useful())
			e.mutable_invalid_card()->add_cards(c);
		if(d.notes() == "bad")
		{
			e.mutable_out_of_limit()->set_got(7);
			e.mutable_excessive_copies()->add_cards(
				static_cast<uint32_t>(d.title().size()));
			return false;
		}
		return true;
	}
};

struct Factory
{
	auto make_duel() const noexcept -> void {}
};

struct Random
{
	using result_type = uint32_t;
	std::mt19937 g;
	static constexpr auto min() -> uint32_t { return 0; }
	static constexpr auto max() -> uint32_t { return 0xFFFFFFFFU; }
	auto operator()() -> uint32_t { return static_cast<uint32_t>(g()); }
};

struct Traits
{
	using ClientType = Client;
	using DeckValidatorType = Validator;
	using CoreDuelFactoryType = Factory;
	using RNGType = Random;
};
using Room = YGOpen::Server::BasicRoom<Traits>;

struct Action
{
	enum
	{
		ENTER,
		SIGNAL
	} what;
	int client; // Index, may be one that never entered.
	Sig sig;
};

Deck g_deck(Rng& r, bool good)
{
	Deck d;
	if(good && r.chance(1, 16))
		return d; // Nothing at all is as good as any other.
	FillOpts o;
	pb_fill(r, d, o);
	d.set_title("secret-" + std::to_string(r.below(1000)));
	d.set_notes(good ? "good" : "bad");
	if(r.chance(2, 3))
		d.clear_useful();
	return d;
}

PR::Options g_options(Rng& r)
{
	PR::Options o;
	pb_fill(r, o);
	o.clear_max_duelists();
	auto n = r.chance(3, 4) ? 2 : r.below(6);
	for(uint64_t i = 0; i < n; i++)
		o.add_max_duelists(r.chance(1, 5) ? r.any<uint32_t>()
		                                  : static_cast<uint32_t>(r.below(5)));
	o.set_ftdm(static_cast<PR::FirstTurnDecideMethod>(
		r.chance(1, 6) ? r.any<int32_t>() : static_cast<int32_t>(r.below(4))));
	return o;
}

PR::Options clamped(PR::Options const& in)
{
	PR::Options o = in;
	o.clear_max_duelists();
	for(int i = 0; i < 2; i++)
	{
		uint32_t v = i < in.max_duelists_size() ? in.max_duelists(i) : 1;
		o.add_max_duelists(v < 1 ? 1 : v > 3 ? 3 : v);
	}
	int f = static_cast<int>(in.ftdm());
	if(f < 0 || f > 3)
		o.set_ftdm(PR::FTDM_HOST_CHOOSES);
	return o;
}

// ------------------------------------------------------------------ model
struct Seat
{
	int client = -1;
	bool deck_valid = false;
	bool ready = false;
};

struct Model
{
	std::vector<Client> const& clients;
	PR::Options options;
	std::array<std::array<Seat, 3>, 2> seats;
	std::set<int> spectators;
	int host = -1;
	int phase = 1; // As in Room.State.
	bool chosen = false;

	unsigned max(unsigned t) const { return options.max_duelists(static_cast<int>(t)); }
	std::vector<int> everyone() const
	{
		std::vector<int> v;
		for(auto const& t : seats)
			for(auto const& s : t)
				if(s.client >= 0)
					v.push_back(s.client);
		v.insert(v.end(), spectators.begin(), spectators.end());
		return v;
	}
	Seat* find(int c, unsigned& team, unsigned& pos)
	{
		for(team = 0; team < 2; team++)
			for(pos = 0; pos < 3; pos++)
				if(seats[team][pos].client == c)
					return &seats[team][pos];
		return nullptr;
	}
	int leader(unsigned t) const
	{
		for(auto const& s : seats[t])
			if(s.client >= 0)
				return s.client;
		return -1;
	}
	void duelist(PR::Duelist& d, unsigned t, unsigned p) const
	{
		auto const& s = seats[t][p];
		d.set_team(t);
		d.set_pos(p);
		*d.mutable_user() = clients[static_cast<size_t>(s.client)].user;
		d.set_is_host(s.client == host);
		d.set_is_ready(s.ready);
	}
	Ev entering() const
	{
		Ev e;
		auto* es = e.mutable_configuring()->mutable_entering_state();
		*es->mutable_options() = options;
		for(unsigned t = 0; t < 2; t++)
			for(unsigned p = 0; p < 3; p++)
				if(seats[t][p].client >= 0)
					duelist(*es->add_duelists(), t, p);
		es->set_spectator_count(static_cast<uint32_t>(spectators.size()));
		return e;
	}
	bool startable() const
	{
		for(auto const& t : seats)
		{
			bool any = false;
			for(auto const& s : t)
			{
				if(s.client < 0)
					continue;
				any = true;
				if(!s.ready || !s.deck_valid)
					return false;
			}
			if(!any)
				return false;
		}
		return true;
	}
};

// What a client can tell from what it was sent.
struct View
{
	std::map<std::pair<uint32_t, uint32_t>, std::string> duelists;
	uint32_t spectators = 0;
	bool started = false;
	bool deciding = false;

	static std::string s(PR::Duelist const& d)
	{
		return d.user().id() + "|" + d.user().name() + (d.is_host() ? "|host" : "") +
		       (d.is_ready() ? "|ready" : "");
	}
	std::string apply(Ev const& e)
	{
		switch(e.t_case())
		{
		case Ev::kSpectatorCount: spectators = e.spectator_count(); return "";
		case Ev::kDecidingFirstTurn:
			if(e.deciding_first_turn().has_entering_state())
				deciding = true;
			return "";
		case Ev::kConfiguring: break;
		default: return "an event of an unknown kind";
		}
		auto const& c = e.configuring();
		if(c.has_entering_state())
		{
			started = true;
			duelists.clear();
			for(auto const& d : c.entering_state().duelists())
				if(!duelists.emplace(std::pair(d.team(), d.pos()), s(d)).second)
					return "two duelists in one seat";
			spectators = c.entering_state().spectator_count();
		}
		else if(c.has_duelist_enters())
		{
			auto const& d = c.duelist_enters();
			if(!duelists.emplace(std::pair(d.team(), d.pos()), s(d)).second)
				return "a duelist enters a taken seat";
		}
		else if(c.has_update_duelist())
		{
			auto const& d = c.update_duelist();
			auto it = duelists.find({d.team(), d.pos()});
			if(it == duelists.end())
				return "an update of an empty seat";
			it->second = s(d);
		}
		return "";
	}
	std::string str() const
	{
		std::string o;
		for(auto const& [k, v] : duelists)
			o += std::to_string(k.first) + "." + std::to_string(k.second) + "=" + v + " ";
		return o + "spectators=" + std::to_string(spectators) + (deciding ? " deciding" : "");
	}
};

std::string short_ev(Ev const& e)
{
	auto s = e.ShortDebugString();
	return s.size() > 400 ? s.substr(0, 400) + "..." : s;
}

struct Sim
{
	Rng& r;
	std::vector<Client> clients;
	Log log;
	std::vector<Check> checks;
	Validator validator{&checks};
	Factory factory;
	std::optional<Room> room;
	uint32_t seed;
	PR::Options given;
	Model m;
	std::vector<bool> entered;
	std::map<int, View> views;
	size_t crowd_turn = 0;
	std::string story;

	Sim(Rng& rng, PR::Options const& o, uint32_t sd)
		: r(rng), seed(sd), given(o), m{clients, clamped(o), {}, {}, -1, 1, false}
	{
		clients.reserve(400);
	}
	int add_client()
	{
		Client c;
		c.id = static_cast<int>(clients.size());
		c.user.set_name("client " + std::to_string(c.id));
		c.user.set_id(std::string(1 + static_cast<size_t>(c.id % 3),
		                          static_cast<char>(200 + c.id % 50)));
		c.log = &log;
		clients.push_back(c);
		entered.push_back(false);
		return c.id;
	}

	void bad(std::initializer_list<char const*> props, std::string const& key,
	         std::string const& msg)
	{
		violate(props, key,
		        msg + "; options " + given.ShortDebugString() + "; history " + story);
	}

	// What everyone has to receive, in order, per client.
	using Expect = std::map<int, std::vector<Ev>>;

	Expect received(size_t from)
	{
		Expect g;
		for(size_t i = from; i < log.v.size(); i++)
			g[log.v[i].first].push_back(log.v[i].second);
		return g;
	}
	static std::string diff(Expect const& want, Expect const& got)
	{
		std::set<int> who;
		for(auto const& [k, v] : want) who.insert(k);
		for(auto const& [k, v] : got) who.insert(k);
		for(int c : who)
		{
			auto w = want.count(c) ? want.at(c) : std::vector<Ev>{};
			auto g = got.count(c) ? got.at(c) : std::vector<Ev>{};
			auto name = "client " + std::to_string(c) + ": ";
			for(size_t i = 0; i < w.size() && i < g.size(); i++)
			{
				auto d = pb_diff(w[i], g[i]);
				if(!d.empty())
					return name + "event " + std::to_string(i) + " " + d;
			}
			if(w.size() < g.size())
				return name + "unexpected event: " + short_ev(g[w.size()]);
			if(w.size() > g.size())
				return name + "missing event: " + short_ev(w[g.size()]);
		}
		return "";
	}

	// Who heard of what, judged from the events alone: `actor` made it happen.
	void judge_audience(size_t from, int actor)
	{
		if(!active({"R07"}))
			return;
		std::map<int, std::vector<std::string>> open; // What is everyone's business.
		for(auto const& [c, v] : views)
			if(v.started)
				open[c];
		for(size_t i = from; i < log.v.size(); i++)
		{
			auto const& [c, e] = log.v[i];
			auto const who = "client " + std::to_string(c) + " received " + short_ev(e);
			count("audiences");
			if(!entered[static_cast<size_t>(c)])
				return bad({"R07"}, "stranger", who + ", but is not in the room");
			auto const bytes = e.SerializeAsString();
			if(bytes.find("secret-") != std::string::npos)
				return bad({"R07"}, "deck", who + ", which holds a deck");
			if(e.configuring().has_deck_status())
			{
				count("verdicts");
				if(c != actor)
					return bad({"R07"}, "verdict", who + ", a verdict on a deck it did not send");
			}
			else if(e.configuring().has_entering_state())
			{
				count("states");
				if(c != actor)
					return bad({"R07"}, "state", who + ", but did not enter");
			}
			else if(e.deciding_first_turn().t_case() == Ev::DecidingFirstTurn::kDecideFirstTurn)
				count("asked");
			else
				open[c].push_back(bytes);
		}
		size_t asked = 0;
		for(size_t i = from; i < log.v.size(); i++)
			asked += log.v[i].second.deciding_first_turn().t_case() ==
			                 Ev::DecidingFirstTurn::kDecideFirstTurn
			             ? 1
			             : 0;
		if(asked > 1)
			return bad({"R07"}, "asked", std::to_string(asked) + " clients were asked to choose");
		for(auto const& [c, v] : open)
		{
			if(v != open.begin()->second)
				return bad({"R07"}, "audience",
				           "clients " + std::to_string(c) + " and " +
				               std::to_string(open.begin()->first) +
				               " did not hear the same of what concerns everyone");
			std::set<std::string> once(v.begin(), v.end());
			if(once.size() != v.size())
				return bad({"R07"}, "twice", "client " + std::to_string(c) + " was told twice");
		}
		count("audiences_alike");
	}

	// Views of everyone against the model.
	void judge_views(size_t from)
	{
		for(size_t i = from; i < log.v.size(); i++)
		{
			auto why = views[log.v[i].first].apply(log.v[i].second);
			if(!why.empty())
				return bad({"R02", "R01"}, "view", "client " + std::to_string(log.v[i].first) +
				                                       " received " + why + ": " +
				                                       short_ev(log.v[i].second));
		}
		View truth;
		truth.apply(m.entering());
		truth.deciding = m.phase == 2;
		auto const all = m.everyone();
		auto const crowd = all.size() > 40; // Not all of them each time.
		if(crowd)
			crowd_turn++;
		for(size_t k = 0; k < all.size(); k++)
		{
			if(crowd && (k + crowd_turn) % 32 != 0)
				continue;
			auto const c = all[k];
			count("views_compared");
			if(views[c].str() != truth.str())
				return bad({"R02"}, "view:differs",
				           "client " + std::to_string(c) + " sees '" + views[c].str() +
				               "' while the room is '" + truth.str() + "'");
			// Whatever the model says, seats obey the announced capacity.
			for(auto const& [k, v] : views[c].duelists)
				if(k.first > 1 || k.second >= m.max(k.first))
					return bad({"R01"}, "capacity", "duelist outside of the room's capacity");
		}
	}

	void enter(int c)
	{
		story += " enter(" + std::to_string(c) + ")";
		at("enter");
		auto const from = log.v.size();
		if(m.host < 0)
		{
			m.host = c;
			Random rng;
			rng.g.seed(seed);
			room.emplace(validator, factory, rng, clients[static_cast<size_t>(c)], given);
		}
		else
			room->enter(clients[static_cast<size_t>(c)]);
		entered[static_cast<size_t>(c)] = true;
		auto got = received(from);
		views[c].started = true;
		judge_audience(from, c);
		Expect want;
		want[c].push_back(m.entering());
		// Where does it sit?
		std::array<unsigned, 2> n{0, 0};
		for(unsigned t = 0; t < 2; t++)
			for(unsigned p = 0; p < m.max(t); p++)
				n[t] += m.seats[t][p].client >= 0 ? 1 : 0;
		bool const room0 = n[0] < m.max(0), room1 = n[1] < m.max(1);
		Ev e;
		if(!room0 && !room1)
		{
			m.spectators.insert(c);
			e.set_spectator_count(static_cast<uint32_t>(m.spectators.size()));
			count("spectators_entered");
		}
		else
		{
			unsigned const t = room0 && (n[0] <= n[1] || !room1) ? 0 : 1;
			unsigned p = 0;
			while(m.seats[t][p].client >= 0)
				p++;
			m.seats[t][p].client = c;
			m.duelist(*e.mutable_configuring()->mutable_duelist_enters(), t, p);
			count("duelists_entered");
			if(n[0] != n[1]) count("entered_unbalanced");
		}
		for(int x : m.everyone())
			want[x].push_back(e);
		auto d = diff(want, got);
		if(!d.empty())
		{
			auto const& g = got[c];
			bool seat = g.size() != 2;
			if(!seat)
			{
				auto const& a = g[1];
				seat = a.t_case() != e.t_case() ||
				       a.configuring().duelist_enters().team() !=
				           e.configuring().duelist_enters().team() ||
				       a.configuring().duelist_enters().pos() !=
				           e.configuring().duelist_enters().pos();
			}
			if(seat)
				bad({"R01"}, "seat", "on entering, " + d);
			auto const& os = g.empty() ? PR::Options::default_instance()
			                           : g[0].configuring().entering_state().options();
			auto od = pb_diff(m.options, os);
			if(!od.empty())
				bad({"R06"}, "options", "options announced differ: " + od);
			bad({"R02"}, "enter", "on entering, " + d);
		}
		if(!failed())
			judge_views(from);
	}

	// Returns true if the signal is accepted by the model.
	// `free`: what happens is not specified.
	bool classify(int c, Sig const& s, bool& free)
	{
		free = false;
		unsigned t = 0, p = 0;
		auto* seat = c >= 0 ? m.find(c, t, p) : nullptr;
		if(s.has_configuring())
		{
			if(m.phase != 1)
				return false;
			switch(s.configuring().t_case())
			{
			case Sig::Configuring::kUpdateDeck: return seat != nullptr;
			case Sig::Configuring::kReadyStatus:
				return seat != nullptr && seat->ready != s.configuring().ready_status() &&
				       (seat->deck_valid || !s.configuring().ready_status());
			case Sig::Configuring::kStartDueling: return c == m.host && m.startable();
			default: return false;
			}
		}
		if(s.has_deciding_first_turn())
		{
			if(m.phase != 2)
				return false;
			auto const& d = s.deciding_first_turn();
			if(d.t_case() != Sig::DecidingFirstTurn::kTeamGoingFirst)
				return false;
			if(m.options.ftdm() == PR::FTDM_HOST_CHOOSES)
			{
				if(c != m.host || d.team_going_first() > 1)
					return false;
				free = m.chosen;
				return !m.chosen;
			}
			// The winner's own choice is not implemented yet.
			free = c == m.leader(0) || c == m.leader(1);
			return false;
		}
		return false;
	}

	void signal(int c, Sig const& s, bool accepted)
	{
		story += " signal(" + std::to_string(c) + ": " + s.ShortDebugString().substr(0, 60) + ")";
		auto const from = log.v.size();
		auto const checks_before = checks.size();
		auto const phase_before = m.phase;
		std::string kind = "none";
		if(s.has_configuring())
			kind = s.configuring().t_case() == Sig::Configuring::kUpdateDeck    ? "deck"
			       : s.configuring().t_case() == Sig::Configuring::kReadyStatus ? "ready"
			       : s.configuring().t_case() == Sig::Configuring::kStartDueling
			           ? "start"
			           : "empty_configuring";
		else if(s.has_deciding_first_turn())
			kind = "choose";
		at("signal " + kind);
		room->visit(clients[static_cast<size_t>(c)], s);
		auto got = received(from);
		judge_audience(from, c);
		Expect want;
		if(!accepted)
		{
			count("rejected_" + kind);
			auto d = diff(want, got);
			if(!d.empty())
			{
				bad({"R05"}, "rejected:" + kind, "a " + kind + " request not entitled to was answered: " + d);
				if(phase_before == 1 && (kind == "start" || kind == "ready" || kind == "deck"))
					bad({"R03"}, "rejected:" + kind, "a " + kind + " request that has to be refused was not: " + d);
				else
					bad({"R04"}, "rejected:" + kind, "a " + kind + " request that has to be refused was not: " + d);
			}
			if(!failed())
				judge_views(from);
			return;
		}
		count("accepted_" + kind);
		unsigned t = 0, p = 0;
		auto* seat = m.find(c, t, p);
		if(kind == "deck")
		{
			auto const& deck = s.configuring().update_deck();
			bool const good = deck.notes() != "bad";
			count(good ? "decks_accepted" : "decks_refused");
			seat->deck_valid = good;
			// What the validator said is what has to be told.
			Ev e;
			auto* ds = e.mutable_configuring()->mutable_deck_status();
			if(!good)
			{
				std::vector<Check> tmp;
				Validator{&tmp}.check("", deck, *ds->mutable_deck_error());
			}
			want[c].push_back(e);
			auto d = diff(want, got);
			if(!d.empty())
				bad({"R03"}, "deck_status", "after sending a deck, " + d);
			else if(!good && !got[c][0].configuring().deck_status().has_deck_error())
				bad({"R03"}, "deck_error", "a refused deck was reported without its error");
			else if(good && got[c][0].configuring().deck_status().has_deck_error())
				bad({"R03"}, "deck_error", "an accepted deck was reported with an error");
			if(checks.size() == checks_before)
				bad({"R03"}, "validator", "a deck was not validated");
			else if(checks.back().deck != deck.SerializeAsString() ||
			        checks.back().banlist != m.options.banlist_id())
				bad({"R03"}, "validator", "another deck or banlist was validated");
		}
		else if(kind == "ready")
		{
			seat->ready = s.configuring().ready_status();
			Ev e;
			m.duelist(*e.mutable_configuring()->mutable_update_duelist(), t, p);
			for(int x : m.everyone())
				want[x].push_back(e);
			auto d = diff(want, got);
			if(!d.empty())
				bad({"R02", "R03"}, "ready", "after a change of readiness, " + d);
		}
		else if(kind == "start")
		{
			m.phase = 2;
			start(got);
		}
		else
		{
			m.chosen = true;
			Ev e;
			e.mutable_deciding_first_turn()->mutable_result()->set_team_going_first(
				s.deciding_first_turn().team_going_first());
			for(int x : m.everyone())
				want[x].push_back(e);
			auto d = diff(want, got);
			if(!d.empty())
				bad({"R04"}, "choice", "after the host's choice, " + d);
			count("choices");
		}
		if(!failed())
			judge_views(from);
	}

	void start(Expect const& got)
	{
		auto all = m.everyone();
		size_t n = 0;
		Ev entering;
		entering.mutable_deciding_first_turn()->mutable_entering_state();
		auto evs = [&](int c) -> std::vector<Ev> const&
		{
			static std::vector<Ev> const none;
			auto it = got.find(c);
			return it == got.end() ? none : it->second;
		};
		if(got.empty())
			return bad({"R03", "R04"}, "start", "the duel did not start though everyone is ready");
		for(int c : all)
			if(evs(c).empty() || !pb_diff(entering, evs(c)[0]).empty())
				return bad({"R04", "R03"}, "start",
				           "client " + std::to_string(c) +
				               " was not told first that deciding begins" +
				               (evs(c).empty() ? "" : ": " + short_ev(evs(c)[0])));
		n = 1;
		int asked = -1;
		auto const ftdm = m.options.ftdm();
		count("started_ftdm_" + std::to_string(static_cast<int>(ftdm)));
		if(ftdm == PR::FTDM_HOST_CHOOSES)
			asked = m.host;
		else if(ftdm == PR::FTDM_DICE || ftdm == PR::FTDM_COIN)
		{
			n = 2;
			if(evs(all[0]).size() < 2)
				return bad({"R04"}, "result", "no result was announced");
			auto const& e = evs(all[0])[1];
			if(!e.has_deciding_first_turn() || !e.deciding_first_turn().has_result())
				return bad({"R04"}, "result", "no result was announced but " + short_ev(e));
			for(int c : all)
				if(evs(c).size() < 2 || !pb_diff(e, evs(c)[1]).empty())
					return bad({"R04"}, "result",
					           "client " + std::to_string(c) + " did not get the same result");
			auto const& res = e.deciding_first_turn().result();
			if(ftdm == PR::FTDM_COIN)
			{
				using Res = Ev::DecidingFirstTurn::Result;
				if(res.t_case() != Res::kCoinResult || static_cast<int>(res.coin_result()) < 0 ||
				   static_cast<int>(res.coin_result()) > 1)
					return bad({"R04"}, "coin", "not a coin's result: " + short_ev(e));
				count(res.coin_result() == 0 ? "coin_heads" : "coin_tails");
				if(res.team_going_first() != static_cast<uint32_t>(res.coin_result()))
					return bad({"R04"}, "coin", "heads is team 0, tails is team 1: " + short_ev(e));
			}
			else
			{
				if(!res.has_dice() || res.dice().results().empty())
					return bad({"R04"}, "dice", "no dice: " + short_ev(e));
				auto const& v = res.dice().results();
				maxi("dice_rolls", static_cast<uint64_t>(v.size()));
				for(int i = 0; i < v.size(); i++)
				{
					auto const a = v[i].team0(), b = v[i].team1();
					if(a < 1 || a > 6 || b < 1 || b > 6)
						return bad({"R04"}, "dice", "no such face: " + short_ev(e));
					count("die0_" + std::to_string(a));
					count("die1_" + std::to_string(b));
					if((a == b) != (i + 1 < v.size()))
						return bad({"R04"}, "dice", "rolled on though decided, or not though tied: " + short_ev(e));
				}
				auto const& l = v[v.size() - 1];
				if(res.team_going_first() != (l.team0() > l.team1() ? 0U : 1U))
					return bad({"R04"}, "dice", "the higher roll did not win: " + short_ev(e));
				if(v.size() > 1) count("dice_ties");
				count(res.team_going_first() == 0 ? "dice_team0" : "dice_team1");
			}
			asked = m.leader(res.team_going_first());
		}
		Ev ask;
		ask.mutable_deciding_first_turn()->set_decide_first_turn(true);
		for(int c : all)
		{
			size_t const want = n + (c == asked ? 1 : 0);
			if(evs(c).size() != want)
				return bad({"R04"}, "asked",
				           "client " + std::to_string(c) + " received " +
				               std::to_string(evs(c).size()) + " events instead of " +
				               std::to_string(want) +
				               (evs(c).size() > n ? ", also " + short_ev(evs(c)[n]) : ""));
			if(c == asked && !pb_diff(ask, evs(c)[n]).empty())
				return bad({"R04"}, "asked", "the client was asked with " + short_ev(evs(c)[n]));
		}
		for(auto const& [c, v] : got)
			if(std::find(all.begin(), all.end(), c) == all.end())
				return bad({"R04"}, "asked", "a stranger was told");
	}

	// Nobody but the asked one is asked before everybody knows the result.
	void judge_order(size_t from)
	{
		size_t last_result = 0, first_ask = SIZE_MAX;
		for(size_t i = from; i < log.v.size(); i++)
		{
			auto const& d = log.v[i].second.deciding_first_turn();
			if(d.has_result()) last_result = i;
			if(d.t_case() == Ev::DecidingFirstTurn::kDecideFirstTurn)
				first_ask = std::min(first_ask, i);
		}
		if(first_ask < last_result)
			bad({"R04"}, "order", "asked to choose before everyone had the result");
	}
};

Sig g_signal(Rng& r, int phase)
{
	Sig s;
	bool const conf = phase == 1 ? r.chance(11, 12) : r.chance(1, 3);
	if(r.chance(1, 60))
		return s;
	if(conf)
	{
		auto* c = s.mutable_configuring();
		switch(r.below(10))
		{
		case 0:
		case 1:
		case 2: *c->mutable_update_deck() = g_deck(r, r.chance(3, 4)); break;
		case 3:
		case 4:
		case 5:
		case 6: c->set_ready_status(r.chance(3, 4)); break;
		case 7:
		case 8: c->set_start_dueling(r.chance(5, 6)); break;
		default:
			if(r.chance(1, 3)) break;
			c->set_ready_status(true);
		}
	}
	else
	{
		auto* d = s.mutable_deciding_first_turn();
		if(!r.chance(1, 20))
			d->set_team_going_first(r.chance(1, 3) ? r.any<uint32_t>()
			                                       : static_cast<uint32_t>(r.below(2)));
	}
	return s;
}

// Many full rooms of each kind let a coin or dice decide; judged over all runs.
void toss(Rng& r)
{
	for(int n = 0; n < 3000; n++)
	{
		bool const coin = n % 2 == 0;
		auto const a = 1 + n / 2 % 3, b = 1 + n / 6 % 3;
		PR::Options o;
		o.add_max_duelists(static_cast<uint32_t>(a));
		o.add_max_duelists(static_cast<uint32_t>(b));
		o.set_ftdm(coin ? PR::FTDM_COIN : PR::FTDM_DICE);
		Sim s(r, o, 0);
		for(int i = 0; i < a + b; i++)
			s.add_client();
		Random rng;
		rng.g.seed(static_cast<uint32_t>(r.next()));
		s.room.emplace(s.validator, s.factory, rng, s.clients[0], o);
		for(int i = 1; i < a + b; i++)
			s.room->enter(s.clients[static_cast<size_t>(i)]);
		Sig deck, ready, start;
		deck.mutable_configuring()->mutable_update_deck();
		ready.mutable_configuring()->set_ready_status(true);
		start.mutable_configuring()->set_start_dueling(true);
		for(auto& c : s.clients)
		{
			s.room->visit(c, deck);
			s.room->visit(c, ready);
		}
		s.room->visit(s.clients[0], start);
		uint32_t won = 2;
		for(auto const& [to, e] : s.log.v)
			if(to == 0 && e.deciding_first_turn().has_result())
			{
				auto const& res = e.deciding_first_turn().result();
				won = res.team_going_first();
				for(auto const& d : res.dice().results())
				{
					count("die0_" + std::to_string(d.team0()));
					count("die1_" + std::to_string(d.team1()));
				}
			}
		if(won > 1)
			return s.bad({"R04"}, "result", "no team was told to go first");
		count((coin ? "toss_coin_team" : "toss_dice_team") + std::to_string(won));
		count((coin ? "toss_coin_" : "toss_dice_") + std::to_string(a) + "v" +
		      std::to_string(b) + "_team" + std::to_string(won));
	}
	distinct("toss" + std::to_string(run().cur));
}

void one(Rng& r)
{
	if(active({"R04"}) && run().cur % 1000 == 77)
		return toss(r);
	auto const options = g_options(r);
	auto const seed = static_cast<uint32_t>(r.next());
	Sim sim(r, options, seed);
	sim.enter(sim.add_client());
	// Towards a start, or at random?
	bool const eager = r.chance(2, 3);
	std::string sig = std::to_string(sim.m.max(0)) + std::to_string(sim.m.max(1)) +
	                  std::to_string(static_cast<int>(sim.m.options.ftdm()));
	std::vector<Action> kept; // Without rejected requests.
	std::vector<std::vector<std::pair<int, std::string>>> kept_log;
	auto logged = [&](Sim const& s, size_t from)
	{
		std::vector<std::pair<int, std::string>> v;
		for(size_t i = from; i < s.log.v.size(); i++)
			v.emplace_back(s.log.v[i].first, s.log.v[i].second.SerializeAsString());
		return v;
	};
	auto const steps = r.range(8, run().tier == 1 ? 120 : 70);
	// Now and then a whole crowd comes to see.
	uint64_t const crowd_at = r.chance(1, 500) ? r.below(steps) : steps;
	for(uint64_t i = 0; i < steps && !failed(); i++)
	{
		bool const conf = sim.m.phase == 1;
		if(conf && i >= crowd_at && sim.clients.size() < 100)
		{
			for(int k = 0; k < 280 && !failed(); k++)
			{
				auto const before = sim.log.v.size();
				auto const c = sim.add_client();
				sim.enter(c);
				kept.push_back({Action::ENTER, c, {}});
				kept_log.push_back(logged(sim, before));
			}
			sig += "C";
			count("crowds");
			continue;
		}
		auto const from = sim.log.v.size();
		if(conf && sim.clients.size() < 40 &&
		   (r.chance(1, 6) || (sim.clients.size() < 3 && r.coin())))
		{
			int c = -1;
			// Somebody who talked before entering, or somebody new.
			for(size_t k = 0; k < sim.entered.size(); k++)
				if(!sim.entered[k] && r.coin())
					c = static_cast<int>(k);
			if(c < 0)
				c = sim.add_client();
			sim.enter(c);
			sig += "E";
			kept.push_back({Action::ENTER, c, {}});
			kept_log.push_back(logged(sim, from));
			continue;
		}
		int c = 0;
		auto const all = sim.m.everyone();
		if(r.chance(1, 15) && sim.clients.size() < 40)
			c = sim.add_client(); // A stranger.
		else if(r.chance(1, 3))
			c = sim.m.host;
		else
			c = all[r.below(all.size())];
		auto s = g_signal(r, sim.m.phase);
		if(eager && conf && r.coin())
		{
			// Whoever still lacks something does it.
			s.Clear();
			for(auto& t : sim.m.seats)
				for(auto& x : t)
					if(x.client >= 0 && !(x.ready && x.deck_valid) && s.t_case() == Sig::T_NOT_SET)
					{
						c = x.client;
						if(!x.deck_valid)
							*s.mutable_configuring()->mutable_update_deck() = g_deck(r, true);
						else
							s.mutable_configuring()->set_ready_status(true);
					}
			if(s.t_case() == Sig::T_NOT_SET)
			{
				if(!sim.m.startable() || r.coin())
					continue;
				c = sim.m.host;
				s.mutable_configuring()->set_start_dueling(true);
			}
		}
		bool free = false;
		bool const ok = sim.classify(c, s, free);
		if(free)
			continue;
		sim.signal(c, s, ok);
		sig += std::to_string(s.t_case()) +
		       std::to_string(static_cast<int>(s.configuring().t_case())) + (ok ? "+" : "-");
		if(ok)
		{
			if(conf && sim.m.phase == 2 && !failed())
				sim.judge_order(from);
			kept.push_back({Action::SIGNAL, c, s});
			kept_log.push_back(logged(sim, from));
		}
	}
	distinct(sig);
	if(run().evaluations % 211 == 0)
		sample(options.ShortDebugString().substr(0, 150) + ":" + sim.story.substr(0, 500));
	if(!active({"R05"}))
		return;
	// A room that never saw the rejected requests behaves the same. (Also
	// when the model was contradicted: `kept` ends there.)
	auto twin_failed = failed();
	if(twin_failed)
		return;
	Log log;
	Sim twin(r, options, seed);
	while(twin.clients.size() < sim.clients.size())
		twin.add_client();
	Random rng;
	rng.g.seed(seed);
	twin.room.emplace(twin.validator, twin.factory, rng, twin.clients[0], options);
	for(size_t i = 0; i < kept.size(); i++)
	{
		auto const from = twin.log.v.size();
		auto& c = twin.clients[static_cast<size_t>(kept[i].client)];
		if(kept[i].what == Action::ENTER)
			twin.room->enter(c);
		else
			twin.room->visit(c, kept[i].sig);
		count("twin_steps");
		auto sorted = [](auto v)
		{
			std::stable_sort(v.begin(), v.end(),
			                 [](auto const& a, auto const& b) { return a.first < b.first; });
			return v;
		};
		if(sorted(logged(twin, from)) != sorted(kept_log[i]))
		{
			sim.bad({"R05"}, "twin",
			        "step " + std::to_string(i) +
			            " is answered differently in a room that never saw the rejected requests");
			return;
		}
	}
}

} // namespace

int main(int argc, char** argv)
{
	return drive(argc, argv, one);
}
