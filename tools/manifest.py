"""Writes MANIFEST.json from the properties and the jobs that decide them."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import PROPS  # noqa: E402

SAN = "ASan+UBSan"
TECH = {
    "C01": "runtime monitor: generated core messages against an independent layout oracle, guarded buffers, " + SAN,
    "C02": "runtime monitor: encoder output compared with an independent translation of the core's events, " + SAN,
    "C03": "runtime monitor: encoder output compared with an independent translation of the core's requests, " + SAN,
    "C04": "runtime monitor: encoder output compared with an independent translation of query blocks, " + SAN,
    "C05": "runtime monitor: every encoded place judged for addressability and against the core's place, " + SAN,
    "C06": "runtime monitor: online comparison of the context's board with a model of the core's field, " + SAN,
    "C07": "runtime monitor: online comparison of overlay materials with a model of the core's field, " + SAN,
    "C08": "runtime monitor: outcome events over histories of duels in prefilled memory, " + SAN,
    "D01": "runtime monitor: responses compared with an independent description of the core's formats, " + SAN,
    "D02": "runtime monitor: round trip oracle from the core's offer to the core's response, " + SAN,
    "D03": "sanitizers (ASan+UBSan, NDEBUG) under hostile answers",
    "F01": "runtime monitor: online comparison of frames with a list-based model, " + SAN,
    "F02": "runtime monitor: lifetime accounting of every card object, " + SAN,
    "F03": "runtime monitor: forked misuse must end at an assertion without a sanitizer report",
    "B01": "runtime monitor: online comparison of boards with a model of the events, " + SAN,
    "B02": "runtime monitor: online comparison of boards with a model of the events, " + SAN,
    "U01": "runtime monitor: boards after undo compared with recorded snapshots, " + SAN,
    "U02": "runtime monitor: boards after redo compared with recorded snapshots, " + SAN,
    "U03": "runtime monitor: frames after forgetting compared with recorded snapshots, " + SAN,
    "U04": "runtime monitor: undoable values compared with a cursor model, " + SAN,
    "Q01": "runtime monitor: cards compared with a model after every query, " + SAN,
    "Q02": "runtime monitor: cache hits compared with a model after every query, " + SAN,
    "R01": "runtime monitor: room events compared with an exact model under random clients, " + SAN,
    "R02": "runtime monitor: views rebuilt from received events compared with each other and a model, " + SAN,
    "R03": "runtime monitor: room events compared with an exact model under random clients, " + SAN,
    "R04": "runtime monitor: first turn decisions judged over event logs, distribution over all runs, " + SAN,
    "R05": "runtime monitor: differential twin room without the rejected requests, " + SAN,
    "R06": "runtime monitor: announced options compared with a clamping model, " + SAN,
    "R07": "runtime monitor: audience of every event judged over the log of all clients, " + SAN,
    "M01": "runtime monitor: bit helpers compared with a bitwise oracle, " + SAN,
    "M02": "runtime monitor: order axioms over generated places, " + SAN,
    "S01": "sanitizers: ASan+UBSan and checked containers over all workloads, live memory accounting",
    "S02": "race detector: ThreadSanitizer over parallel duels, outputs compared with serial ones",
    "S03": "runtime monitor: differential runs in differently filled memory; Valgrind memcheck",
    "S04": "runtime monitor: client boards fed with the serialised stream compared with the model, " + SAN,
    "S05": "runtime monitor: differential runs of builds by other compilers, settings and language levels",
    "S06": "race detector: ThreadSanitizer over threads reading shared objects, results compared with one reader",
    "S07": "runtime monitor: live memory accounting over repeated histories",
    "W01": "runtime monitor: differential of the current protocol against a frozen copy, both ways",
    "W02": "runtime monitor: what clients see through the library's constants compared with the core's numbers, " + SAN,
}
NOTE = {
    "D03": "Held on the answers tried; red-zone tools do not see every out-of-bounds access.",
    "S01": "Held on the executions driven; red-zone tools do not see every out-of-bounds access. "
           "Leaks are judged by counting live blocks, so LeakSanitizer (ptrace) is not needed.",
    "S02": "Held on the schedules seen; ThreadSanitizer's happens-before analysis also reports "
           "races that did not strike. libprotobuf is not instrumented.",
    "S03": "Held on the inputs and memory contents tried; MemorySanitizer is not usable because "
           "libstdc++ and libprotobuf are not instrumented.",
    "S05": "Held on the inputs tried, for three builds by two compilers on one architecture.",
    "S06": "Held on the schedules seen; ThreadSanitizer's happens-before analysis also reports "
           "races that did not strike. libprotobuf is not instrumented.",
    "W01": "Trusts frozen/*.proto, a copy of the protocol at the pinned commit, and libprotobuf.",
}
DEFAULT = ("Held on every case generated by the run (counts in the evidence file); trusts the "
           "oracle, which is written from the core's formats and the property and shares no code "
           "with the library.")


def main():
    props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl")) if x.strip()]
    checks = []
    for p in props:
        i = p["id"]
        if i not in PROPS:
            raise SystemExit("no check for " + i)
        checks.append({
            "property": i,
            "quick_cmd": "python3 run.py %s quick" % i,
            "thorough_cmd": "python3 run.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": TECH[i],
            "level": "exploration",
            "level_note": NOTE.get(i, DEFAULT),
        })
    m = {"version": 1, "setup_cmd": "python3 tools/prebuild.py", "checks": checks,
         "not_applicable": [],
         "notes": "No hooks: the monitors only use the library's public interface. "
                  "Build products go to build/ (ignored by git), keyed by content."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
