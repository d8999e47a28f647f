"""What each property's check runs."""


def job(name, src, variant, quick, thorough, **kw):
    d = dict(name=name, src=src, variant=variant, quick=quick, thorough=thorough)
    d.update(kw)
    return d


CODEC_RULE = (
    "Each case generates core messages byte by byte from an independent description of the "
    "core's layouts (all field values boundary-biased) and judges the encoder's result; every "
    "message type is visited in turn. Distinct = distinct (message type, shape of its lists and "
    "query attributes, size bucket, content hash mod 256).")

PROPS = {}


def prop(id, rule, jobs, must=(), assumptions=(), **kw):
    PROPS[id] = dict(rule=rule, jobs=jobs, must_observe=list(must),
                     assumptions=list(assumptions), **kw)


prop("C01", CODEC_RULE, [job("codec", "h_codec", "san", 24000, 2000000)],
     ["streams", "state_OK", "state_SWALLOWED", "state_UNKNOWN"])
prop("C02", CODEC_RULE, [job("codec", "h_codec", "san", 24000, 2000000)], ["messages_compared"])
prop("C03", CODEC_RULE, [job("codec", "h_codec", "san", 24000, 2000000)], ["messages_compared"])
prop("C04", CODEC_RULE, [job("codec", "h_codec", "san", 24000, 2000000)],
     ["messages_compared", "queries_with_overlays"])
prop("C05", CODEC_RULE, [job("codec", "h_codec", "san", 24000, 2000000)], ["places_judged"])
prop("C08", CODEC_RULE, [job("codec", "h_codec", "san", 24000, 2000000)],
     ["finishes", "match_kills"])

DUEL_RULE = (
    "Each case is a random duel of 20-120 (thorough: 20-300) core messages emitted by a model of "
    "the core's field; after every message the encoding context and 1-4 clients fed with the "
    "serialised stream are compared with the model, card identity included. Distinct = distinct "
    "message type sequences.")
prop("C06", DUEL_RULE, [job("duel", "h_duel", "san", 1200, 150000)],
     ["msg_DRAW", "msg_SWAP_GRAVE_DECK", "msg_TAG_SWAP", "msg_RELOAD_FIELD", "msg_REVERSE_DECK",
      "boards_compared"])
prop("C07", DUEL_RULE, [job("duel", "h_duel", "san", 1200, 150000)],
     ["msg_XYZ_SUMMON", "msg_RANK_UP", "msg_RANK_UP_SAME", "detached_after_leaving",
      "msg_MOVE_OWNER", "msg_DETACH"])
prop("S04", DUEL_RULE, [job("duel", "h_duel", "san", 1200, 150000)],
     ["late_clients", "boards_compared", "msg_RELOAD_FIELD"])

FRAME_RULE = (
    "Each case is a random history of 5-90 (thorough: 5-200) valid operations on a fresh plain or "
    "undoable frame; after each one all places are compared with a list-based model and the "
    "lifetime of every card object is accounted for. Distinct = distinct operation sequences.")
FRAME_SEEN = ["add", "remove", "swap", "shuffle", "resize", "splice", "pile_swap", "clear"] + [
    "move_%s_to_%s" % (a, b) for a in ("pile", "zone", "mat") for b in ("pile", "zone", "mat")]
prop("F01", FRAME_RULE, [job("frame", "h_frame", "san", 4000, 600000, codec=False)],
     FRAME_SEEN + ["looked_up", "looked_up_empty"])
prop("F02", FRAME_RULE + " A second run takes undoable boards and frames back and forth through "
     "their history (see U01 and U03) and accounts for every card in the same way.",
     [job("frame", "h_frame", "san", 3000, 600000, codec=False),
      job("history", "h_undo", "san", 1200, 200000, codec=False)],
     FRAME_SEEN + ["cards_destroyed", "cards_to_limbo", "built_by_builder", "frames", "boards", "forgotten"])

prop("F03",
     "Each case builds a random plain or undoable field by valid operations, looks at everything "
     "on it (which must not be stopped), then misuses it four times, each in a forked child that "
     "has to end at an assertion without any sanitizer report. Distinct = distinct misuses "
     "(operation, fault, arguments).",
     [job("misuse", "h_misuse", "nolib", 1600, 100000, codec=False)],
     ["misuses", "valid_operations", "valid_lookups"])

KINDS = ["add", "remove", "move", "swap", "splice", "pile_swap", "exchange", "state", "next_turn",
         "next_phase", "become", "damage", "pay", "recover", "zone_block"]
EVENT_RULE = (
    "Each case is a random history of 5-50 (thorough: 5-120) events valid on the field they meet, "
    "applied to a fresh board (plain or undoable); after each one all of the board is compared "
    "with a model. Distinct = distinct event sequences.")
prop("B01", EVENT_RULE, [job("events", "h_undo", "san", 3000, 300000, codec=False)],
     ["event_" + k for k in KINDS + ["push", "pop"]] + ["boards_compared"])
prop("B02", EVENT_RULE, [job("events", "h_undo", "san", 3000, 300000, codec=False)],
     ["event_" + k for k in KINDS + ["push", "pop", "shuffle", "info5", "info7", "info10"]] +
     ["boards_compared"])
UNDO_RULE = (
    "Each case is a random walk through the history of an undoable board: new events, undoing up "
    "to all of them, redoing; after every step all of the board is compared with the snapshot of "
    "the model taken there, card objects and contents included. Distinct = distinct walks.")
prop("U01", UNDO_RULE, [job("history", "h_undo", "san", 2000, 200000, codec=False)],
     ["undone_" + k for k in KINDS] + ["boards_compared"])
prop("U02", UNDO_RULE, [job("history", "h_undo", "san", 2000, 200000, codec=False)],
     ["redone_" + k for k in KINDS] + ["boards_compared"])
prop("U03",
     "Each case is a random walk through operations of an undoable frame in which new operations "
     "after an undo are preceded by forgetting the undone future; after every step the frame is "
     "compared with the model's snapshot, and at the end everything is undone. Distinct = "
     "distinct walks.",
     [job("forget", "h_undo", "san", 3000, 300000, codec=False)],
     ["forgotten", "forgotten_nothing", "frames_compared", "op_add", "op_remove", "op_resize",
      "op_clear", "op_move"])

QUERY_RULE = (
    "Each case applies 1-40 random queries to cards of a random field (plain and undoable cards "
    "and frames), with and without caching; after each one all attributes of all cards are "
    "compared with a model. Distinct = distinct sequences of queried attribute sets.")
prop("Q01", QUERY_RULE, [job("query", "h_query", "san", 2000, 200000, codec=False)],
     ["queries", "cards_compared", "target_lists", "counter_lists"])
prop("Q02", QUERY_RULE, [job("query", "h_query", "san", 2000, 200000, codec=False)],
     ["queries", "hits_expected", "misses_expected"])
prop("M01",
     "Each case takes one 8-bit value (all of them within 256 cases), one 16-bit value (all within "
     "65536) and boundary-biased 32- and 64-bit values, each with about 20 counts. Distinct = "
     "distinct 64-bit values.",
     [job("bits", "h_misc", "san", 66000, 600000, codec=False)],
     ["values_8", "values_16", "values_32", "values_64", "choices"])
prop("M02",
     "Each case checks the order axioms on all pairs and triples of ten related places, and the "
     "classification of every location. Distinct = distinct lists of places.",
     [job("places", "h_misc", "san", 6000, 600000, codec=False)], ["pairs", "locations"])
prop("W02",
     "Each case lets the core tell a client of a card's type, race, attribute, status, link arrows, "
     "position and owner, of a move and its reason, of a phase, a turn, a hand and of choices, "
     "with random sets of the core's flags, looks at what arrived through the library's names, and "
     "answers with them. Distinct = distinct sets of flags.",
     [job("names", "h_names", "san", 6000, 600000)],
     ["seen_" + k for k in ("type race attribute status arrow position owner reason pile location "
                            "controller phase turn hand").split()] +
     ["answered_attribute", "answered_position", "answered_phase"])
prop("S07",
     "Each case lives through one generated duel 64 times: encoding it with one context, feeding one "
     "client's board, answering its requests into one output, and undoing and redoing it on one "
     "undoable board. The memory held after 8, 16, 32 and 64 times must not keep growing. Distinct "
     "= distinct duels.",
     [job("laps", "h_laps", "plain", 400, 20000)],
     ["laps", "encoded", "answered", "undone"])
prop("U04",
     "Each case is a random walk of up to 80 assignments and undos on an undoable number, string, "
     "list or enum, read after every step and unwound at the end. Distinct = distinct walks.",
     [job("undoable", "h_misc", "san", 20000, 2000000, codec=False)],
     ["undos", "appends", "redos", "reads"])

prop("D01",
     "Each case is one answer to a matching request, all kinds in turn with boundary-biased values "
     "and up to 300 indices, written into an output with random leftovers, and compared with the "
     "response built from a description of the core's response layouts. Distinct = distinct (kind, "
     "response).",
     [job("format", "h_decode", "san", 48000, 4000000)],
     ["answer_" + k for k in (
         "attribute card_finish card_cancel card_indexes card_recursive card_code effect "
         "idle_shuffle battle_end battle_next idle_end idle_next battle_activate battle_attack "
         "idle_activate idle_summon idle_spsummon idle_reposition idle_mset idle_sset number "
         "position race rps chain_none chain yes_no zone sort sort_skip").split()])
prop("D02",
     "Each case encodes one core request of random content, answers it with every offered choice "
     "(long lists: 12 of them and a random selection) and finds in the core's own message the item "
     "the response selects. Distinct = distinct (request type, content).",
     [job("trip", "h_decode", "san", 20000, 1500000)],
     ["trip_" + k for k in ("card recursive index zone zone_field zone_pendulum command phase "
                            "shuffle sort value").split()])
prop("D03",
     "Each case is an answer of random or damaged content to a random or unrelated request, "
     "translated in a build without assertions under AddressSanitizer and "
     "UndefinedBehaviorSanitizer. Distinct = distinct (kinds, response size).",
     [job("hostile", "h_decode", "rel", 60000, 8000000)],
     ["answers", "hostile_matching", "hostile_mismatched", "damaged_but_parsed",
      "empty_or_unsupported"])


REPLAY_RULE = (" A further run walks back and forth through the events the encoder makes of whole "
               "duels (15-60 core messages; thorough: 15-150).")
for _id in ("U01", "U02", "U03"):
    PROPS[_id]["jobs"].append(job("replay", "h_replay", "san", 400, 40000))
    PROPS[_id]["rule"] += REPLAY_RULE
    PROPS[_id]["must_observe"] += ["duels", "applied"] + {
        "U01": ["undone"], "U02": ["redone"], "U03": ["forgotten"]}[_id]

SHIPPED = " The same workload, with other seeds, is also run on a build without assertions from " \
          "another compiler (gcc, C++20)."
for _id in PROPS:
    # F03 is about assertions; D03 runs without them already.
    if _id in ("F03", "D03"):
        continue
    _p = PROPS[_id]
    _j = _p["jobs"][0]
    _p["jobs"].append(dict(_j, name=_j["name"] + "-gcc", variant="gcc", seed_add=7700))
    _p["rule"] += SHIPPED


def fairness(results):
    """Coins and dice over all runs: no side or face is favoured (6 sigma)."""
    tot, last = {}, None
    for s, res in results:
        for d in res["data"]:
            last = s
            for k, v in d["counters"].items():
                if k.startswith(("coin_", "die0_", "die1_", "dice_team", "toss_")):
                    tot[k] = tot.get(k, 0) + v

    out = []

    def judge(keys, what):
        n = sum(tot.get(k, 0) for k in keys)
        p = 1.0 / len(keys)
        if n < 200:
            return
        dev = 6 * (n * p * (1 - p)) ** 0.5
        for k in keys:
            if abs(tot.get(k, 0) - n * p) > dev:
                out.append(dict(idx=0, key="bias:" + what, job=last.job["name"], err="",
                                msg="%s: %d of %d are %s (%s)" % (what, tot.get(k, 0), n, k, tot),
                                cmd=last.cmd(last.first, last.cases, "/dev/stdout", None)))
                return
    judge(["coin_heads", "coin_tails"], "coin")
    judge(["dice_team0", "dice_team1"], "dice winner")
    for how in ("coin", "dice"):
        judge(["toss_%s_team0" % how, "toss_%s_team1" % how], how)
        for n in range(9):
            teams = "%dv%d" % (n // 3 + 1, n % 3 + 1)
            judge(["toss_%s_%s_team%d" % (how, teams, k) for k in (0, 1)], how + " of " + teams)
    for t in "01":
        judge(["die%s_%d" % (t, i) for i in range(1, 7)], "die of team " + t)
    return out


ROOM_RULE = (
    "Each case is a room of random options and a random history of 8-70 (thorough: 8-120) clients "
    "entering and sending signals, entitled or not; every event received by every client is "
    "compared with an exact model of the room. Distinct = distinct (options, history of actions).")
for _id, _must, _kw in (
        ("R01", ["duelists_entered", "spectators_entered", "entered_unbalanced"], {}),
        ("R02", ["views_compared", "accepted_ready", "spectators_entered"], {}),
        ("R03", ["decks_accepted", "decks_refused", "rejected_ready", "rejected_start",
                 "accepted_start"], {}),
        ("R04", ["started_ftdm_%d" % i for i in range(4)] + ["coin_heads", "coin_tails", "dice_ties",
                                                            "choices", "rejected_choose"],
         dict(post=fairness)),
        ("R05", ["rejected_deck", "rejected_ready", "rejected_start", "rejected_choose",
                 "twin_steps"], {}),
        ("R06", ["duelists_entered", "accepted_start"], {}),
        ("R07", ["audiences_alike", "verdicts", "states", "asked", "decks_refused"], {})):
    prop(_id, ROOM_RULE + SHIPPED,
         [job("room", "h_room", "san", 6000, 600000, codec=False),
          job("room-gcc", "h_room", "gcc", 6000, 600000, codec=False, seed_add=7700)], _must, **_kw)

prop("S03",
     "Each case processes one random duel (15-60 core messages: encoding, boards with and without "
     "undo, queries, answers) or room three times in memory filled with 0x00, 0x5a and 0xff, at "
     "different alignments, followed by different bytes, and once interleaved with another one; all "
     "outputs have to be identical. A second run has Valgrind look for uninitialised memory. "
     "Distinct = distinct output digests.",
     [job("fills", "h_det", "plain", 500, 60000),
      job("valgrind", "h_det", "plain", 16, 400, flags=["-DVF_NO_FILL", "-gdwarf-4"],
          wrap=["valgrind", "-q", "--error-exitcode=99", "--leak-check=no"])],
     ["comparisons", "duels", "rooms"])

prop("S02",
     "Each case is a fresh process in which 2-6 threads that share nothing process 2-18 random "
     "duels and rooms at the same time under ThreadSanitizer; every output is compared with that of "
     "processing them one after another. Distinct = distinct (inputs, order of completion).",
     [job("threads", "h_reentrant", "tsan", 96, 8000)],
     ["rounds", "outputs_compared"],
     assumptions=["libprotobuf itself is not instrumented; it is initialised before the threads "
                  "start"])

prop("S05",
     "Each case is one random duel (15-60 core messages, boards, undoing, queries, answers), one "
     "room, 12 unrelated messages of all kinds in turn with answers, and numbers and places, "
     "processed by a reference build (clang, C++17, assertions, not optimised) and by two others "
     "(clang -O2 with unsigned char, gcc -O1 C++20; no assertions); all outputs have to be identical. Distinct "
     "= distinct outputs.",
     [job("builds", "h_builds", "plain", 4000, 400000, peers=["fast", "gcc"])],
     ["duels", "rooms", "outputs", "compared_fast"])

prop("S06",
     "Each case is a fresh process that builds boards, a context, messages, requests with answers and "
     "core messages from a random duel, has 2-6 threads read all of them at the same time under "
     "ThreadSanitizer (const access, translating answers, feeding boards and contexts of their own), "
     "compares what they saw with a single reader, the inputs with themselves before, and, at the "
     "end of the duel, boards that were read with boards that were not. Distinct = distinct (board, "
     "number of threads).",
     [job("readers", "h_readers", "tsan", 128, 10000)],
     ["rounds", "results_compared", "shared_messages", "shared_answers"],
     assumptions=["libprotobuf itself is not instrumented; it is initialised before the threads "
                  "start"])

prop("W01",
     "Each case fills one top-level message of the frozen protocol, all in turn, with random "
     "contents, has the generated classes read it, compares all fields and enumeration values by "
     "name and sends it back; and the other way round. Distinct = distinct serialised messages.",
     [job("wire", "h_wire", "san", 6000, 600000, codec=False)],
     ["old_to_new", "new_to_old", "values_compared"],
     assumptions=["frozen/*.proto is the protocol at the pinned commit"])

_S01 = []
for _src, _q, _t, _codec in (("codec", 4000, 600000, True), ("duel", 200, 40000, True),
                             ("frame", 800, 150000, False), ("undo", 800, 100000, False),
                             ("query", 400, 60000, False), ("misc", 6000, 600000, False),
                             ("decode", 8000, 1000000, True), ("room", 1000, 150000, False)):
    for _v in ("san", "rel"):
        _S01.append(job(_src + "-" + _v, "h_" + _src, _v, _q, _t, codec=_codec))
_S01.append(job("leaks", "h_det", "plain", 160, 20000))
prop("S01",
     "All workloads of the other properties (core messages and streams, duels, frames, undo "
     "histories, queries, answers, rooms, bit and place helpers), with assertions (san) and "
     "without (rel), under AddressSanitizer, UndefinedBehaviorSanitizer and checked standard "
     "containers; a last run counts live memory blocks before and after whole duels and rooms. "
     "Distinct = distinct cases by the measures of the workloads.",
     _S01, ["streams", "duels", "messages_compared", "boards_compared", "cards_compared",
            "lifetimes", "undos", "forgotten", "accepted_start"])
