// W02: the library's names for the game's values (types, races, reasons...) mean
// to a client what the core meant by the numbers it sent. The numbers are the
// core's own; values travel from core bytes to a client's card or message, and
// from a client's answer back to core bytes.
#include "core_msgs.hpp"
#include <google/protobuf/arena.h>
#include <ygopen/client/board.hpp>
#include <ygopen/client/card.hpp>
#include <ygopen/client/frame.hpp>
#include <ygopen/client/parse_event.hpp>
#include <ygopen/client/parse_query.hpp>
#include <ygopen/codec/edo9300_ocgcore_decode.hpp>
#include <ygopen/codec/edo9300_ocgcore_encode.hpp>
#include <ygopen/duel/constants/attribute.hpp>
#include <ygopen/duel/constants/controller.hpp>
#include <ygopen/duel/constants/link_arrow.hpp>
#include <ygopen/duel/constants/location.hpp>
#include <ygopen/duel/constants/phase.hpp>
#include <ygopen/duel/constants/position.hpp>
#include <ygopen/duel/constants/race.hpp>
#include <ygopen/duel/constants/reason.hpp>
#include <ygopen/duel/constants/rock_paper_scissors.hpp>
#include <ygopen/duel/constants/status.hpp>
#include <ygopen/duel/constants/type.hpp>
#include <ygopen/proto/duel/answer.hpp>
#include <ygopen/server/basic_encode_context.hpp>

using namespace vf;
namespace OCG = YGOpen::Codec::Edo9300::OCGCore;

namespace
{

using Card = YGOpen::Client::BasicCard<YGOpen::Client::DefaultCardTraits>;
struct Traits
{
	using BlockedZonesType = std::vector<PPlace>;
	using ChainStackType = std::vector<YGOpen::Proto::Duel::Chain>;
	using FrameType = YGOpen::Client::BasicFrame<Card>;
	using LPType = uint32_t;
	using PhaseType = YD::Phase;
	using TurnControllerType = YD::Controller;
	using TurnType = uint32_t;
};
using Board = YGOpen::Client::BasicBoard<Traits>;
using Answer = YGOpen::Proto::Duel::Answer;

struct Name
{
	char const* name;
	uint64_t core; // What the core means by it.
	uint64_t lib;  // The library's constant.
};
using Table = std::vector<Name>;

#define N(c, v) {#c, v, static_cast<uint64_t>(YD::c)}

Table const& types()
{
	static Table const t{
		N(TYPE_MONSTER, 1U << 0), N(TYPE_SPELL, 1U << 1), N(TYPE_TRAP, 1U << 2),
		N(TYPE_NORMAL, 1U << 4), N(TYPE_EFFECT, 1U << 5), N(TYPE_FUSION, 1U << 6),
		N(TYPE_RITUAL, 1U << 7), N(TYPE_TRAPMONSTER, 1U << 8), N(TYPE_SPIRIT, 1U << 9),
		N(TYPE_UNION, 1U << 10), N(TYPE_GEMINI, 1U << 11), N(TYPE_TUNER, 1U << 12),
		N(TYPE_SYNCHRO, 1U << 13), N(TYPE_TOKEN, 1U << 14), N(TYPE_MAXIMUM, 1U << 15),
		N(TYPE_QUICKPLAY, 1U << 16), N(TYPE_CONTINUOUS, 1U << 17), N(TYPE_EQUIP, 1U << 18),
		N(TYPE_FIELD, 1U << 19), N(TYPE_COUNTER, 1U << 20), N(TYPE_FLIP, 1U << 21),
		N(TYPE_TOON, 1U << 22), N(TYPE_XYZ, 1U << 23), N(TYPE_PENDULUM, 1U << 24),
		N(TYPE_SPSUMMON, 1U << 25), N(TYPE_LINK, 1U << 26)};
	return t;
}
Table const& races()
{
	static Table const t{
		N(RACE_WARRIOR, 1U << 0), N(RACE_SPELLCASTER, 1U << 1), N(RACE_FAIRY, 1U << 2),
		N(RACE_FIEND, 1U << 3), N(RACE_ZOMBIE, 1U << 4), N(RACE_MACHINE, 1U << 5),
		N(RACE_AQUA, 1U << 6), N(RACE_PYRO, 1U << 7), N(RACE_ROCK, 1U << 8),
		N(RACE_WINGEDBEAST, 1U << 9), N(RACE_PLANT, 1U << 10), N(RACE_INSECT, 1U << 11),
		N(RACE_THUNDER, 1U << 12), N(RACE_DRAGON, 1U << 13), N(RACE_BEAST, 1U << 14),
		N(RACE_BEASTWARRIOR, 1U << 15), N(RACE_DINOSAUR, 1U << 16), N(RACE_FISH, 1U << 17),
		N(RACE_SEASERPENT, 1U << 18), N(RACE_REPTILE, 1U << 19), N(RACE_PSYCHIC, 1U << 20),
		N(RACE_DIVINE, 1U << 21), N(RACE_CREATORGOD, 1U << 22), N(RACE_WYRM, 1U << 23),
		N(RACE_CYBERSE, 1U << 24), N(RACE_ILLUSIONIST, 1U << 25), N(RACE_CYBORG, 1U << 26),
		N(RACE_MAGICALKNIGHT, 1U << 27), N(RACE_HIGHDRAGON, 1U << 28),
		N(RACE_OMEGAPSYCHIC, 1U << 29), N(RACE_CELESTIALWARRIOR, 1U << 30),
		N(RACE_GALAXY, 1U << 31)};
	return t;
}
Table const& attributes()
{
	static Table const t{N(ATTRIBUTE_EARTH, 1), N(ATTRIBUTE_WATER, 2), N(ATTRIBUTE_FIRE, 4),
	                     N(ATTRIBUTE_WIND, 8),  N(ATTRIBUTE_LIGHT, 16), N(ATTRIBUTE_DARK, 32),
	                     N(ATTRIBUTE_DIVINE, 64)};
	return t;
}
// As on a number pad, with the centre left out.
Table const& arrows()
{
	static Table const t{N(LINK_ARROW_BOTTOM_LEFT, 1U << 0), N(LINK_ARROW_BOTTOM, 1U << 1),
	                     N(LINK_ARROW_BOTTOM_RIGHT, 1U << 2), N(LINK_ARROW_LEFT, 1U << 3),
	                     N(LINK_ARROW_RIGHT, 1U << 5), N(LINK_ARROW_TOP_LEFT, 1U << 6),
	                     N(LINK_ARROW_TOP, 1U << 7), N(LINK_ARROW_TOP_RIGHT, 1U << 8)};
	return t;
}
Table const& positions()
{
	static Table const t{N(POSITION_FACE_UP_ATTACK, 1), N(POSITION_FACE_DOWN_ATTACK, 2),
	                     N(POSITION_FACE_UP_DEFENSE, 4), N(POSITION_FACE_DOWN_DEFENSE, 8)};
	return t;
}
Table const& statuses()
{
	static Table const t{
		N(STATUS_DISABLED, 1U << 0), N(STATUS_TO_ENABLE, 1U << 1), N(STATUS_TO_DISABLE, 1U << 2),
		N(STATUS_PROC_COMPLETE, 1U << 3), N(STATUS_SET_TURN, 1U << 4), N(STATUS_NO_LEVEL, 1U << 5),
		N(STATUS_BATTLE_RESULT, 1U << 6), N(STATUS_SPSUMMON_STEP, 1U << 7),
		N(STATUS_FORM_CHANGED, 1U << 8), N(STATUS_SUMMONING, 1U << 9),
		N(STATUS_EFFECT_ENABLED, 1U << 10), N(STATUS_SUMMON_TURN, 1U << 11),
		N(STATUS_DESTROY_CONFIRMED, 1U << 12), N(STATUS_LEAVE_CONFIRMED, 1U << 13),
		N(STATUS_BATTLE_DESTROYED, 1U << 14), N(STATUS_COPYING_EFFECT, 1U << 15),
		N(STATUS_CHAINING, 1U << 16), N(STATUS_SUMMON_DISABLED, 1U << 17),
		N(STATUS_ACTIVATE_DISABLED, 1U << 18), N(STATUS_EFFECT_REPLACED, 1U << 19),
		N(STATUS_FUTURE_FUSION, 1U << 20), N(STATUS_ATTACK_CANCELED, 1U << 21),
		N(STATUS_INITIALIZING, 1U << 22), N(STATUS_JUST_POS, 1U << 24),
		N(STATUS_CONTINUOUS_POS, 1U << 25), N(STATUS_FORBIDDEN, 1U << 26),
		N(STATUS_ACT_FROM_HAND, 1U << 27), N(STATUS_OPPO_BATTLE, 1U << 28),
		N(STATUS_FLIP_SUMMON_TURN, 1U << 29), N(STATUS_SPSUMMON_TURN, 1U << 30)};
	return t;
}
Table const& reasons()
{
	static Table const t{
		N(REASON_DESTROY, 1U << 0), N(REASON_RELEASE, 1U << 1), N(REASON_TEMPORARY, 1U << 2),
		N(REASON_MATERIAL, 1U << 3), N(REASON_SUMMON, 1U << 4), N(REASON_BATTLE, 1U << 5),
		N(REASON_EFFECT, 1U << 6), N(REASON_COST, 1U << 7), N(REASON_ADJUST, 1U << 8),
		N(REASON_LOST_TARGET, 1U << 9), N(REASON_RULE, 1U << 10), N(REASON_SPSUMMON, 1U << 11),
		N(REASON_FLIP, 1U << 13), N(REASON_DISCARD, 1U << 14), N(REASON_REV_DAMAGE, 1U << 15),
		N(REASON_REV_RECOVER, 1U << 16), N(REASON_RETURN, 1U << 17), N(REASON_FUSION, 1U << 18),
		N(REASON_SYNCHRO, 1U << 19), N(REASON_RITUAL, 1U << 20), N(REASON_XYZ, 1U << 21),
		N(REASON_REPLACE, 1U << 24), N(REASON_DRAW, 1U << 25), N(REASON_REDIRECT, 1U << 26),
		N(REASON_REVEAL, 1U << 27), N(REASON_LINK, 1U << 28)};
	return t;
}
Table const& phases()
{
	static Table const t{
		N(PHASE_DRAW, 1U << 0), N(PHASE_STAND_BY, 1U << 1), N(PHASE_MAIN_1, 1U << 2),
		N(PHASE_BATTLE_START, 1U << 3), N(PHASE_BATTLE_BATTLE_STEP, 1U << 4),
		N(PHASE_BATTLE_DAMAGE, 1U << 5), N(PHASE_BATTLE_DAMAGE_CALC, 1U << 6),
		N(PHASE_BATTLE, 1U << 7), N(PHASE_MAIN_2, 1U << 8), N(PHASE_END, 1U << 9)};
	return t;
}
Table const& hands()
{
	// The core only knows that 2 beats 1, 3 beats 2 and 1 beats 3.
	static Table const t{N(ROCK_PAPER_SCISSORS_ROCK, 1), N(ROCK_PAPER_SCISSORS_PAPER, 2),
	                     N(ROCK_PAPER_SCISSORS_SCISSOR, 3)};
	return t;
}
Table const& controllers()
{
	static Table const t{N(CONTROLLER_0, 0), N(CONTROLLER_1, 1)};
	return t;
}
Table const& piles()
{
	static Table const t{N(LOCATION_MAIN_DECK, 1),  N(LOCATION_HAND, 2),
	                     N(LOCATION_GRAVEYARD, 16), N(LOCATION_BANISHED, 32),
	                     N(LOCATION_EXTRA_DECK, 64)};
	return t;
}

#undef N

void bad(char const* what, std::string const& name, uint64_t core, uint64_t got)
{
	violate({"W02"}, std::string(what) + ":" + name,
	        std::string(what) + ": the core said " + std::to_string(core) +
	            ", the client was told " + std::to_string(got) + ", where " + name +
	            " does not mean what the core means");
}

// What a client sees through the names must be what the core set.
void flags(char const* what, Table const& t, uint64_t core, uint64_t got)
{
	count(std::string("seen_") + what);
	for(auto const& n : t)
		if(((got & n.lib) == n.lib && n.lib != 0) != ((core & n.core) != 0) ||
		   ((got & n.lib) != 0) != ((core & n.core) != 0))
			return bad(what, n.name, core, got);
}

// The one value among alternatives.
void single(char const* what, Table const& t, uint64_t core, uint64_t got)
{
	count(std::string("seen_") + what);
	for(auto const& n : t)
		if((got == n.lib) != (core == n.core))
			return bad(what, n.name, core, got);
}

uint64_t some(Rng& r, Table const& t)
{
	uint64_t v = 0;
	switch(r.below(4))
	{
	case 0: return r.pick(t).core;
	case 1:
		for(auto const& n : t)
			v |= n.core;
		return v & ~(r.coin() ? uint64_t{0} : r.pick(t).core);
	case 2:
		for(auto n = r.range(1, 3); n > 0; n--)
			v |= r.pick(t).core;
		return v;
	default:
		for(auto const& n : t)
			v |= r.coin() ? n.core : 0;
		return v;
	}
}

struct Client
{
	YGOpen::Server::BasicEncodeContext ctx;
	Board board;

	// Encodes, sends and receives.
	bool pass(W const& w, PMsg& m)
	{
		google::protobuf::Arena arena;
		auto buf = w.b;
		buf.resize(buf.size() + 16);
		auto res = OCG::encode_one(arena, ctx, buf.data());
		if(res.msg == nullptr)
			return false;
		ctx.parse(*res.msg);
		m.ParseFromString(res.msg->SerializeAsString());
		if(m.t_case() == PMsg::kEvent)
			YGOpen::Client::parse_event(board, m.event());
		for(auto const& q : m.queries())
			static_cast<void>(YGOpen::Client::parse_query(board.frame(), q));
		return true;
	}
};

void w_loc(W& w, int con, uint32_t loc, uint32_t seq, uint32_t pos)
{
	w.u8(static_cast<unsigned>(con)).u8(loc).u32(seq).u32(pos);
}

void response(char const* what, std::string const& name, Request const& q, Answer const& a,
              std::vector<uint8_t> const& want)
{
	std::vector<uint8_t> out;
	OCG::decode_one_answer(q, a, out);
	count(std::string("answered_") + what);
	if(out != want)
		violate({"W02"}, std::string("answer ") + what + ":" + name,
		        std::string("answering ") + what + " " + name + " writes " +
		            hex(out.data(), out.size()) + " instead of " + hex(want.data(), want.size()));
}

std::vector<uint8_t> int32(uint64_t v)
{
	W w;
	w.u32(v);
	return w.b;
}

void one(Rng& r)
{
	Client c;
	PMsg m;
	std::string sig;
	auto lost = [&](char const* what)
	{
		violate({"W02"}, std::string(what) + ":lost", std::string(what) + " did not reach the client");
	};
	// A card on the field, and what the core says of it.
	int const con = static_cast<int>(r.below(2));
	auto const seq = static_cast<uint32_t>(r.below(5));
	{
		at("moving");
		auto const& from = r.pick(piles());
		{
			PMsg s;
			auto* st = s.mutable_event()->mutable_board()->mutable_state();
			st->add_lps(1);
			st->add_lps(1);
			for(auto const& n : piles())
			{
				auto* op = st->mutable_resize()->add_ops();
				set_place(*op->mutable_place(), con, static_cast<uint32_t>(n.core), 0, -1);
				op->set_count(n.core);
			}
			c.ctx.parse(s);
			YGOpen::Client::parse_event(c.board, s.event());
		}
		auto const& f = std::as_const(c.board).frame();
		for(auto const& n : piles())
			if(f.pile(static_cast<YD::Controller>(con), static_cast<YD::Location>(n.lib)).size() != n.core)
				return bad("pile", n.name, n.core, n.lib);
		count("seen_pile");
		auto const why = some(r, reasons());
		W w;
		w.u8(50).u32(r.next());
		w_loc(w, con, static_cast<uint32_t>(from.core), 0, 1);
		w_loc(w, con, 4, seq, 1);
		w.u32(why);
		if(!c.pass(w, m))
			return lost("move");
		flags("reason", reasons(), why, m.event().card().reason());
		auto const& op = m.event().card().move().ops(0);
		single("location", piles(), from.core, op.old_place().loc());
		single("controller", controllers(), static_cast<uint64_t>(con), op.old_place().con());
		if(op.new_place().loc() != YD::LOCATION_MONSTER_ZONE)
			bad("location", "LOCATION_MONSTER_ZONE", 4, op.new_place().loc());
	}
	if(failed())
		return;
	{
		at("querying");
		struct Q
		{
			char const* what;
			Table const* t;
			uint32_t flag;
		};
		static Q const QS[] = {{"type", &types(), 0x8},
		                       {"race", &races(), 0x80},
		                       {"attribute", &attributes(), 0x40},
		                       {"position", &positions(), 0x2},
		                       {"status", &statuses(), 0x80000},
		                       {"owner", &controllers(), 0x40000},
		                       {"arrow", &arrows(), 0x800000}};
		W w;
		w.u8(7).u8(static_cast<unsigned>(con)).u8(4).u8(seq);
		std::map<std::string, uint64_t> said;
		for(auto const& q : QS)
		{
			auto v = some(r, *q.t);
			if(q.flag == 0x2 || q.flag == 0x40000)
				v = r.pick(*q.t).core;
			said[q.what] = v;
			sig += std::to_string(v) + ",";
			if(q.flag == 0x80)
				w.u16(12).u32(q.flag).u64(v);
			else if(q.flag == 0x800000)
				w.u16(12).u32(q.flag).u32(r.below(9)).u32(v);
			else if(q.flag == 0x40000)
				w.u16(5).u32(q.flag).u8(v);
			else
				w.u16(8).u32(q.flag).u32(v);
		}
		w.u16(4).u32(0x80000000U);
		if(!c.pass(w, m))
			return lost("query");
		PPlace p;
		set_place(p, con, 4, seq, -1);
		if(!c.board.frame().has_card(p))
			return lost("card");
		auto const& k = std::as_const(c.board).frame().card(p);
		flags("type", types(), said["type"], static_cast<uint64_t>(k.type()));
		flags("race", races(), said["race"], static_cast<uint64_t>(k.race()));
		flags("attribute", attributes(), said["attribute"], static_cast<uint64_t>(k.attribute()));
		flags("status", statuses(), said["status"], static_cast<uint64_t>(k.status()));
		flags("arrow", arrows(), said["arrow"], static_cast<uint64_t>(k.link_arrow()));
		flags("position", positions(), said["position"], static_cast<uint64_t>(k.position()));
		single("position", positions(), said["position"], static_cast<uint64_t>(k.position()));
		single("owner", controllers(), said["owner"], static_cast<uint64_t>(k.owner()));
	}
	if(failed())
		return;
	{
		at("phases, turns and hands");
		auto const& ph = r.pick(phases());
		W w;
		w.u8(41).u16(ph.core);
		if(!c.pass(w, m))
			return lost("phase");
		single("phase", phases(), ph.core, static_cast<uint64_t>(c.board.phase()));
		auto const& who = r.pick(controllers());
		W t;
		t.u8(40).u8(who.core);
		if(!c.pass(t, m))
			return lost("turn");
		single("turn", controllers(), who.core, static_cast<uint64_t>(c.board.turn_controller()));
		auto const& a = r.pick(hands());
		auto const& b = r.pick(hands());
		W h;
		h.u8(133).u8(a.core | (b.core << 2U));
		if(!c.pass(h, m) || m.event().result().rps().values_size() != 2)
			return lost("hands");
		single("hand", hands(), a.core, static_cast<uint64_t>(m.event().result().rps().values(0)));
		single("hand", hands(), b.core, static_cast<uint64_t>(m.event().result().rps().values(1)));
	}
	if(failed())
		return;
	{
		at("requests and their answers");
		Answer a;
		auto const at_ = some(r, attributes());
		W w;
		w.u8(141).u8(con).u8(1).u32(at_);
		if(!c.pass(w, m))
			return lost("attributes to choose from");
		flags("attribute", attributes(), at_, m.request().select_attribute().attribute());
		auto const& at1 = r.pick(attributes());
		a.set_select_attribute(static_cast<uint32_t>(at1.lib));
		response("attribute", at1.name, m.request(), a, int32(at1.core));

		auto const ra = some(r, races());
		W w2;
		w2.u8(140).u8(con).u8(1).u64(ra);
		if(!c.pass(w2, m))
			return lost("races to choose from");
		flags("race", races(), ra, m.request().select_race().race());

		auto const po = some(r, positions());
		W w3;
		w3.u8(19).u8(con).u32(r.next()).u8(po);
		if(!c.pass(w3, m))
			return lost("positions to choose from");
		flags("position", positions(), po, m.request().select_position().position());
		auto const& po1 = r.pick(positions());
		a.set_select_position(static_cast<uint32_t>(po1.lib));
		response("position", po1.name, m.request(), a, int32(po1.core));

		bool const battle = r.coin(), next = r.coin(), end = r.coin();
		W w4;
		w4.u8(battle ? 10 : 11).u8(con);
		for(int i = battle ? 2 : 6; i > 0; i--)
			w4.u32(0);
		w4.u8(next).u8(end);
		if(!battle)
			w4.u8(0);
		if(!c.pass(w4, m))
			return lost("phases to choose from");
		// Choosing "battle" or "end" is a command, not the phase's number.
		uint64_t const offered = m.request().select_idle().available_phase();
		uint64_t const on = battle ? 0x100U : 0x80U;
		flags("phase to choose", phases(), (next ? on : 0U) | (end ? 0x200U : 0U), offered);
		uint32_t const go = r.coin() ? 0x200U : static_cast<uint32_t>(on);
		a.mutable_select_idle()->set_phase(static_cast<uint32_t>(
			go == 0x200U ? YD::PHASE_END : battle ? YD::PHASE_MAIN_2 : YD::PHASE_BATTLE));
		response("phase", std::to_string(go), m.request(), a,
		         int32((battle ? 2U : 6U) + (go == 0x200U ? 1U : 0U)));
	}
	int all = 0;
	for(auto x : YD::all_controllers())
		all += 1 << (2 * static_cast<int>(x));
	if(all != 5 || static_cast<int>(YD::CONTROLLER_ARRAY_SIZE) != 2)
		violate({"W02"}, "controllers", "the list of all controllers is not both of them once");
	distinct(sig);
	if(run().evaluations % 97 == 0)
		sample(sig);
}

} // namespace

int main(int argc, char** argv) { return drive(argc, argv, one); }
