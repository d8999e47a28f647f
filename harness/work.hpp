// Whole uses of the library as step-by-step workloads whose every output is
// digested: duels (encode, contexts, boards, undoing, queries, answers) and
// rooms. What they do only depends on their script; how they lie in memory
// depends on `env`. No shared state of the harness is used, so that they can run
// in parallel.
#pragma once
#define VF_DUEL_ONLY
#include "h_duel.cpp"

#include "pbfill.hpp"
#include <new>
#include <optional>
#include <random>
#include <variant>
#include <ygopen/client/frame_limbo.hpp>
#include <ygopen/client/undo_parse_event.hpp>
#include <ygopen/client/undoable.hpp>
#include <ygopen/codec/edo9300_ocgcore_decode.hpp>
#include <ygopen/proto/duel/answer.hpp>
#include <ygopen/server/room.hpp>

namespace work
{

using Script = std::vector<std::vector<uint8_t>>;

struct Env
{
	uint8_t fill = 0;  // What memory holds before objects are created in it.
	unsigned skew = 0; // Where buffers lie.
	uint64_t junk = 0; // What follows the input.
};

// An object created in memory that held `fill` bytes.
template<typename T>
class In
{
	std::unique_ptr<unsigned char[]> mem_;
	T* p_;

public:
	template<typename... Args>
	explicit In(Env const& e, Args&&... args)
		: mem_(new unsigned char[sizeof(T) + 256])
	{
		auto a = reinterpret_cast<uintptr_t>(mem_.get());
		a = (a + 63) / 64 * 64 + (e.skew % 2) * 64;
		auto* at = reinterpret_cast<unsigned char*>(a);
		std::memset(at, e.fill, sizeof(T));
		// Default-initialised, as most users do: nothing is zeroed for them.
		if constexpr(sizeof...(Args) == 0)
			p_ = ::new(at) T;
		else
			p_ = ::new(at) T(std::forward<Args>(args)...);
	}
	~In() { p_->~T(); }
	In(In const&) = delete;
	T& operator*() const { return *p_; }
	T* operator->() const { return p_; }
};

struct Digest
{
	std::vector<std::pair<std::string, uint64_t>> v;
	void add(char const* what, std::string const& s) { v.emplace_back(what, fnv(s)); }
};

// First difference, empty if none.
inline std::string diff(Digest const& a, Digest const& b)
{
	for(size_t i = 0; i < a.v.size() && i < b.v.size(); i++)
		if(a.v[i] != b.v[i])
			return "output " + std::to_string(i) + " (" + a.v[i].first + "/" + b.v[i].first +
			       ")";
	if(a.v.size() != b.v.size())
		return "number of outputs";
	return "";
}

struct ULimboTraits
{
	template<typename T>
	using U = YGOpen::Client::BasicUndoable<T>;
	using BlockedZonesType = U<std::vector<PPlace>>;
	using ChainStackType = U<std::vector<YGOpen::Proto::Duel::Chain>>;
	using FrameType = YGOpen::Client::LimboFrame<Card>;
	using LPType = U<uint32_t>;
	using PhaseType = U<YGOpen::Duel::Phase>;
	using TurnControllerType = U<YGOpen::Duel::Controller>;
	using TurnType = U<uint32_t>;
};
using UBoard = YGOpen::Client::BasicBoard<ULimboTraits>;

inline void dump_card(std::string& o, Card const& c)
{
	auto n = [&](uint64_t v) { o += std::to_string(v) + ","; };
	n(c.code()); n(static_cast<uint64_t>(c.position())); n(c.alias());
	n(static_cast<uint64_t>(c.type())); n(static_cast<uint64_t>(c.level())); n(c.xyz_rank());
	n(static_cast<uint64_t>(c.attribute())); n(static_cast<uint64_t>(c.race()));
	n(static_cast<uint64_t>(c.atk())); n(static_cast<uint64_t>(c.def()));
	n(static_cast<uint64_t>(c.base_atk())); n(static_cast<uint64_t>(c.base_def()));
	n(static_cast<uint64_t>(c.owner())); n(static_cast<uint64_t>(c.status()));
	n(c.is_public()); n(c.pend_l_scale()); n(c.pend_r_scale()); n(c.is_hidden());
	n(c.cover()); n(c.link_rate()); n(static_cast<uint64_t>(c.link_arrow()));
	o += c.equipped_to().SerializeAsString();
	for(auto const& p : c.targets()) o += p.SerializeAsString() + ";";
	for(auto const& k : c.counters()) o += k.SerializeAsString() + ";";
	o += "|";
}

template<typename B>
std::string dump(B const& b)
{
	std::string o;
	auto n = [&](uint64_t v) { o += std::to_string(v) + " "; };
	n(static_cast<uint32_t>(b.turn()));
	n(static_cast<uint64_t>(static_cast<YGOpen::Duel::Controller>(b.turn_controller())));
	n(static_cast<uint64_t>(static_cast<YGOpen::Duel::Phase>(b.phase())));
	for(int con = 0; con < 2; con++)
		n(static_cast<uint32_t>(b.lp(static_cast<Controller>(con))));
	std::vector<YGOpen::Proto::Duel::Chain> const& ch = b.chain_stack();
	for(auto const& c : ch) o += c.SerializeAsString() + ";";
	std::vector<PPlace> const& bz = b.blocked_zones();
	for(auto const& p : bz) o += p.SerializeAsString() + ";";
	for(int con = 0; con < 2; con++)
	{
		auto const c = static_cast<Controller>(con);
		for(auto loc : PILES)
		{
			o += "\n";
			for(auto const* x : b.frame().pile(c, static_cast<Location>(loc)))
				dump_card(o, *x);
		}
		static constexpr std::pair<uint32_t, uint32_t> Z[] = {
			{CL_MZONE, 7}, {CL_SZONE, 5}, {PL_FIELD, 1}, {PL_PENDULUM, 2}};
		for(auto [loc, lim] : Z)
			for(uint32_t i = 0; i < lim; i++)
			{
				o += "\n";
				PPlace p;
				set_place(p, con, loc, i, -1);
				if(b.frame().has_card(p))
					dump_card(o, b.frame().card(p));
				for(auto const* m : b.frame().zone(p).materials)
					dump_card(o, *m);
			}
	}
	return o;
}

// Some answer that matches the request.
inline YGOpen::Proto::Duel::Answer answer_for(Request const& q, Rng& r)
{
	YGOpen::Proto::Duel::Answer a;
	switch(q.t_case())
	{
	case Request::kSelectAttribute: a.set_select_attribute(static_cast<uint32_t>(r.next())); break;
	case Request::kSelectCard:
		if(r.chance(1, 6))
			a.mutable_select_card()->set_cancel(true);
		else
			for(auto n = r.range(1, 9); n > 0; n--)
				a.mutable_select_card()->mutable_indexes()->add_values(
					static_cast<uint32_t>(r.below(300)));
		break;
	case Request::kSelectEffect: a.set_select_effect(static_cast<uint32_t>(r.below(9))); break;
	case Request::kSelectIdle:
		if(r.coin())
			a.mutable_select_idle()->set_phase(0x200);
		else
			a.mutable_select_idle()->mutable_card_action()->set_index(
				static_cast<uint32_t>(r.below(9)));
		break;
	case Request::kSelectNumber: a.set_select_number(static_cast<uint32_t>(r.below(9))); break;
	case Request::kSelectPosition: a.set_select_position(static_cast<uint32_t>(r.below(9))); break;
	case Request::kSelectRace: a.set_select_race(r.next()); break;
	case Request::kSelectRockPaperScissors: a.set_select_rock_paper_scissors(2); break;
	case Request::kSelectToChain:
		a.mutable_select_to_chain()->set_index(static_cast<uint32_t>(r.below(9)));
		break;
	case Request::kSelectYesNo: a.set_select_yes_no(r.coin()); break;
	case Request::kSelectZone:
		for(auto const& p : q.select_zone().places())
			*a.mutable_select_zone()->add_places() = p;
		break;
	case Request::kSort:
		for(int i = 0; i < q.sort().places_size() && i < 60; i++)
			a.mutable_sort()->mutable_indexes()->add_values(static_cast<uint32_t>(i));
		break;
	default: break;
	}
	return a;
}

class Duel
{
	Script const& s_;
	Env e_;
	Rng rng_, junk_;
	In<YGOpen::Server::BasicEncodeContext> ctx_;
	In<Board> board_;
	In<UBoard> uboard_;
	google::protobuf::Arena arena_;
	std::vector<PMsg> undoable_;
	size_t at_ = 0;
	bool done_ = false;

public:
	Digest out;

	// What has no meaning: all zeros, all ones or anything.
	uint8_t junk()
	{
		auto const v = static_cast<uint8_t>(junk_.next());
		return e_.junk % 3 == 0 ? uint8_t{0} : e_.junk % 3 == 1 ? uint8_t{0xFF} : v;
	}

	Duel(Script const& s, uint64_t seed, Env const& e)
		: s_(s), e_(e), rng_(seed), junk_(e.junk), ctx_(e), board_(e), uboard_(e)
	{
		out.add("fresh board", dump(*board_));
		out.add("fresh undoable board", dump(*uboard_));
		out.add("fresh context", std::to_string(ctx_->get_match_win_reason()));
	}

	bool step()
	{
		if(done_)
			return false;
		if(at_ == s_.size())
		{
			finish();
			done_ = true;
			return false;
		}
		auto const& b = s_[at_++];
		auto const off = e_.skew % 8;
		std::unique_ptr<uint8_t[]> buf(new uint8_t[b.size() + off + 96]);
		std::memset(buf.get(), e_.fill, off);
		std::copy(b.begin(), b.end(), buf.get() + off);
		for(size_t i = 0; i < 96; i++)
			buf[off + b.size() + i] = junk();
		auto res = OCG::encode_one(arena_, *ctx_, buf.get() + off);
		out.add("state", std::to_string(static_cast<int>(res.state)) + "/" +
		                     (res.state == St::UNKNOWN ? "" : std::to_string(res.bytes_read)));
		if(res.msg == nullptr)
			return true;
		auto const bytes = res.msg->SerializeAsString();
		out.add("message", bytes);
		ctx_->parse(*res.msg);
		PMsg m;
		m.ParseFromString(bytes);
		if(m.t_case() == PMsg::kEvent)
		{
			YGOpen::Client::parse_event(*board_, m.event());
			if(m.event().t_case() != Event::kChainStack)
			{
				YGOpen::Client::parse_event(*uboard_, m.event());
				undoable_.push_back(m);
			}
		}
		for(auto const& q : m.queries())
			out.add("query", std::to_string(static_cast<uint64_t>(
								 YGOpen::Client::parse_query<true>(board_->frame(), q))));
		if(m.t_case() == PMsg::kRequest && m.request().t_case() != Request::T_NOT_SET)
		{
			auto a = answer_for(m.request(), rng_);
			std::vector<uint8_t> o;
			for(auto n = junk_.below(9); n > 0; n--)
				o.push_back(junk());
			if(a.t_case() != 0)
			{
				OCG::decode_one_answer(m.request(), a, o);
				out.add("answer", std::string(o.begin(), o.end()));
			}
		}
		if(at_ % 8 == 0)
			out.add("board", dump(*board_));
		return true;
	}

private:
	void finish()
	{
		out.add("board", dump(*board_));
		out.add("undoable board", dump(*uboard_));
		std::string ctx;
		for(int con = 0; con < 2; con++)
		{
			for(auto loc : PILES)
				ctx += std::to_string(ctx_->pile_size(static_cast<Controller>(con),
				                                      static_cast<Location>(loc))) +
				       " ";
			for(uint32_t i = 0; i < 7; i++)
				ctx += ctx_->has_xyz_mat(place_of(zplace({con, true, i}))) ? "x" : "-";
		}
		out.add("context", ctx + std::to_string(ctx_->get_match_win_reason()));
		size_t back = 0;
		for(; back < undoable_.size(); back++)
		{
			auto const& ev = undoable_[undoable_.size() - 1 - back].event();
			if(ev.card().has_shuffle() || ev.t_case() == Event::kChainStack)
				break;
			YGOpen::Client::undo_parse_event(*uboard_, ev);
			if(back % 5 == 0)
				out.add("undone", dump(*uboard_));
		}
		out.add("undone", dump(*uboard_));
		for(size_t i = undoable_.size() - back; i < undoable_.size(); i++)
			YGOpen::Client::parse_event(*uboard_, undoable_[i].event());
		out.add("redone", dump(*uboard_));
		// Back and forth.
		size_t const low = undoable_.size() - back;
		size_t now = undoable_.size();
		for(int legs = 0; legs < 6 && back > 0; legs++)
		{
			auto const to = low + rng_.below(back + 1);
			for(; now > to; now--)
				YGOpen::Client::undo_parse_event(*uboard_, undoable_[now - 1].event());
			for(; now < to; now++)
				YGOpen::Client::parse_event(*uboard_, undoable_[now].event());
			out.add("walked", dump(*uboard_));
		}
	}
};

// ---------------------------------------------------------------- rooms
namespace PR = YGOpen::Proto::Room;

struct RClient
{
	YGOpen::Proto::User user;
	std::string got;
	auto send(PR::Event const& e) noexcept -> void { got += e.SerializeAsString() + "\n"; }
	auto fill_user(YGOpen::Proto::User& u) const noexcept -> void { u = user; }
};
struct RValidator
{
	auto check(std::string_view b, YGOpen::Proto::Deck const& d,
	           YGOpen::Proto::DeckError& e) const noexcept -> bool
	{
		if(d.title() == "bad")
			e.mutable_invalid_card()->add_cards(static_cast<uint32_t>(b.size()));
		return d.title() != "bad";
	}
};
struct RFactory
{
	auto make_duel() const noexcept -> void {}
};
struct RRandom // 32 bits: the room narrows to that.
{
	using result_type = uint32_t;
	std::mt19937 g;
	static constexpr auto min() -> uint32_t { return 0; }
	static constexpr auto max() -> uint32_t { return 0xFFFFFFFFU; }
	auto operator()() -> uint32_t { return static_cast<uint32_t>(g()); }
};
struct RTraits
{
	using ClientType = RClient;
	using DeckValidatorType = RValidator;
	using CoreDuelFactoryType = RFactory;
	using RNGType = RRandom;
};

class Room
{
	using R = YGOpen::Server::BasicRoom<RTraits>;
	Env e_;
	Rng rng_;
	RValidator validator_;
	RFactory factory_;
	std::vector<std::unique_ptr<In<RClient>>> clients_;
	std::unique_ptr<In<R>> room_;
	uint64_t left_;
	size_t entered_ = 0;
	bool done_ = false;

	RClient& add()
	{
		clients_.push_back(std::make_unique<In<RClient>>(e_));
		auto& c = **clients_.back();
		c.user.set_name("u" + std::to_string(clients_.size()));
		return c;
	}

public:
	Digest out;

	Room(uint64_t seed, Env const& e) : e_(e), rng_(seed)
	{
		PR::Options o;
		for(auto n = rng_.below(4); n > 0; n--)
			o.add_max_duelists(static_cast<uint32_t>(rng_.below(5)));
		o.set_ftdm(static_cast<PR::FirstTurnDecideMethod>(rng_.below(4)));
		o.set_banlist_id("b" + std::to_string(rng_.below(9)));
		left_ = rng_.range(10, 60);
		auto& host = add();
		entered_ = 1;
		RRandom g;
		g.g.seed(static_cast<uint32_t>(rng_.next()));
		room_ = std::make_unique<In<R>>(e, validator_, factory_, g, host, o);
	}
	bool step()
	{
		if(done_)
			return false;
		if(left_-- == 0)
		{
			room_.reset();
			for(auto const& c : clients_)
				out.add("client", (*c)->got);
			done_ = true;
			return false;
		}
		if(rng_.chance(1, 5) && clients_.size() < 12)
		{
			(*room_)->enter(add());
			return true;
		}
		auto& c = **clients_[rng_.below(clients_.size())];
		PR::Signal s;
		switch(rng_.below(8))
		{
		case 0:
		case 1:
		case 2:
		{
			auto* d = s.mutable_configuring()->mutable_update_deck();
			d->set_title(rng_.chance(1, 6) ? "bad" : "good");
			d->mutable_data()->add_main_cards(static_cast<uint32_t>(rng_.next()));
			break;
		}
		case 3:
		case 4:
		case 5: s.mutable_configuring()->set_ready_status(rng_.chance(5, 6)); break;
		case 6:
			s.mutable_configuring()->set_start_dueling(true);
			(*room_)->visit(**clients_[0], s);
			return true;
		default:
			s.mutable_deciding_first_turn()->set_team_going_first(
				static_cast<uint32_t>(rng_.below(2)));
		}
		(*room_)->visit(c, s);
		return true;
	}
};

// Scripts for `Duel`: uses the library itself, so call it where that is fine.
inline Script make_script(Rng& rng, uint64_t n)
{
	Script s;
	Sim sim(rng);
	sim.record = &s;
	play(sim, rng, n);
	// A stand-alone message now and then, also of kinds a board ignores.
	return s;
}

} // namespace work
