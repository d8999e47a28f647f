#!/usr/bin/env python3
"""Runs the monitors of one property: run.py PROPERTY [quick|thorough].

Builds what it needs from /repo's working tree, runs the harness under its
instrumentation in parallel shards, judges what the monitors reported and
writes evidence/PROPERTY.json.  Exit 0: held on everything explored; 1: a
VIOLATION line was printed; anything else: the check itself failed.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import build  # noqa: E402
from props import PROPS  # noqa: E402

NPROC = min(8, os.cpu_count() or 8)
SAN_RE = re.compile(
    r"(ERROR: AddressSanitizer|runtime error:|ERROR: LeakSanitizer|"
    r"WARNING: ThreadSanitizer|ERROR: ThreadSanitizer|"
    r"WARNING: MemorySanitizer|Assertion .* failed|UndefinedBehaviorSanitizer|"
    r"_GLIBCXX_ASSERTIONS|libstdc\+\+.*assertion|terminate called|"
    r"protobuf.*CHECK failed|std::__glibcxx_assert_fail|==[0-9]+== (Conditional jump|Use of uninit|Invalid (read|write)|Syscall param))")


def log(*a):
    print(*a, flush=True)


def san_env(job):
    env = dict(os.environ)
    leaks = "1" if job.get("leaks") else "0"
    env["ASAN_OPTIONS"] = (
        "detect_leaks=%s:abort_on_error=1:detect_stack_use_after_return=1:"
        "strict_string_checks=1:check_initialization_order=1:"
        "allocator_may_return_null=0:max_allocation_size_mb=3000:handle_abort=0:"
        "detect_container_overflow=0" % leaks)
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
    env["TSAN_OPTIONS"] = "halt_on_error=1:second_deadlock_stack=1:report_signal_unsafe=0"
    env["LSAN_OPTIONS"] = "print_suppressions=0"
    env.pop("LD_PRELOAD", None)
    env.update(job.get("env", {}))
    for t in ("/usr/bin/llvm-symbolizer-18", "/usr/lib/llvm-18/bin/llvm-symbolizer"):
        if os.path.exists(t):
            env["ASAN_SYMBOLIZER_PATH"] = t
            break
    return env


STOP = threading.Event()  # One case was seen to run for ever: nothing more to learn.
STALL_S = 200             # Seconds for one case; they take milliseconds to a few seconds.
RSS_LIMIT_MB = int(os.environ.get("VF_RSS_MB", "3000"))


def first_line(path):
    try:
        with open(path, "rb") as f:
            return f.read(256).split(b"\n")[0].decode("latin-1").strip("\0 ")
    except OSError:
        return ""


def rss_mb(pid):
    """Resident memory of a process of this check's own."""
    try:
        with open("/proc/%d/statm" % pid) as f:
            return int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE") >> 20
    except (OSError, ValueError, IndexError):
        return 0


class Shard:
    def __init__(self, job, exe, prop, seed, tier, first, cases, tmp, tag):
        self.job, self.exe, self.prop = job, exe, prop
        self.seed, self.tier, self.first, self.cases = seed + job.get("seed_add", 0), tier, first, cases
        self.tmp, self.tag, self.peak = tmp, tag, 0

    def cmd(self, first, cases, out, prog, seconds=0):
        c = list(self.job.get("wrap", [])) + [
            self.exe, "--prop", self.job.get("as", self.prop), "--seed", str(self.seed),
            "--first", str(first), "--cases", str(cases), "--tier",
            "1" if self.tier == "thorough" else "0", "--out", out]
        if prog:
            c += ["--progress", prog]
        if seconds:
            c += ["--seconds", str(int(seconds))]
        return c

    def watch(self, p, r, prog, timeout, stall, room):
        """Waits for p: not for ever, and not while it fills the memory."""
        start = moved = time.time()
        at = None
        while True:
            try:
                r["rc"] = p.wait(0.2)
                return
            except subprocess.TimeoutExpired:
                pass
            now, here, rss = time.time(), first_line(prog), rss_mb(p.pid)
            r["rss"] = max(r["rss"], rss)
            if here != at:
                at, moved = here, now
            if STOP.is_set():
                r["stopped"] = True
            elif rss > room:
                r["oom"] = True
            elif now - start > timeout or now - moved > stall:
                r["hang"] = True
            else:
                continue
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            r["rc"] = -9
            return

    def once(self, first, cases, timeout, sub, stall=1e9, room=RSS_LIMIT_MB,
             seconds=0):
        base = os.path.join(self.tmp, "%s-%s" % (self.tag, sub))
        out, prog, err = base + ".json", base + ".prog", base + ".err"
        cwd = base + ".d"
        os.makedirs(cwd, exist_ok=True)
        r = {"first": first, "cases": cases, "hang": False, "oom": False, "stopped": False,
             "rss": 0, "data": None, "rc": None,
             "cmd": self.cmd(first, cases, out, prog, seconds)}
        with open(err, "wb") as ef:
            p = subprocess.Popen(r["cmd"], stdout=ef, stderr=ef, cwd=cwd,
                                 stdin=subprocess.DEVNULL, env=san_env(self.job),
                                 start_new_session=True)
            self.watch(p, r, prog, timeout, stall, room)
        with open(err, "rb") as ef:
            r["err"] = ef.read(200000).decode("utf-8", "replace")
        r["at"] = first_line(prog)
        self.peak = max(self.peak, r["rss"])
        if r["rc"] == 0:
            try:
                with open(out) as f:
                    r["data"] = json.load(f)
            except (OSError, ValueError):
                pass
        return r

    def run(self, deadline):
        """-> dict(data, violations, inconclusive)"""
        res = {"data": [], "violations": [], "inconclusive": []}
        budget = max(30.0, deadline - time.time())
        if STOP.is_set():
            return res
        share = 0
        if self.tier == "thorough":  # What remains, evenly over the jobs that remain.
            share = max(60, (deadline - 300 - time.time()) / self.rounds)
        r = self.once(self.first, self.cases, budget, "a",
                      STALL_S if self.tier == "quick" else 4 * STALL_S, seconds=share)
        if r["stopped"]:
            return res
        if r["data"] is not None and r["data"].get("complete"):
            self.take(res, r)
            return res
        # Abnormal end: where was it?
        m = re.match(r"(\d+) ?(.*)", r["at"])
        idx = int(m.group(1)) if m else self.first
        what = (m.group(2) if m else "")[:200]
        has_report = bool(SAN_RE.search(r["err"]))
        if (r["hang"] or r["oom"]) and not has_report:
            # Alone, one case takes milliseconds and a small part of that memory.
            a = self.once(idx, 1, 90, "h")
            if a["stopped"]:
                return res
            if a["hang"] or a["oom"]:
                res["violations"].append(self.viol(
                    idx, "hang", ("fills the memory: " if a["oom"] else "does not terminate: ")
                    + what, a))
                # What is left would only take as long again.
                STOP.set()
                return res
            if a["data"] is None:
                r = a
                has_report = bool(SAN_RE.search(r["err"]))
            elif time.time() < deadline - 60:
                # Just slow, or it is the monitor that holds much.
                r = self.once(self.first, self.cases, deadline - time.time(), "d", room=1e9)
                if r["stopped"]:
                    return res
                if r["data"] is not None and r["data"].get("complete"):
                    self.take(res, r)
                    return res
                res["inconclusive"].append("shard %s stalled at case %d" % (self.tag, idx))
                return res
            else:
                res["inconclusive"].append("shard %s timed out at case %d" % (self.tag, idx))
                return res
        again = self.once(idx, 1, 120, "b")
        if again["stopped"]:
            return res
        reproduced = again["data"] is None and not again["hang"] and not again["oom"]
        if not reproduced and not has_report:
            third = self.once(self.first, self.cases, budget, "c")
            if third["stopped"]:
                return res
            if third["data"] is not None:
                res["inconclusive_retried"] = True
                self.take(res, third)
                return res
            if SAN_RE.search(third["err"]):
                r, has_report = third, True
            elif third["rc"] == r["rc"] and third["rc"] not in (-9, 137) and third["at"] == r["at"]:
                reproduced, again = True, third
            else:
                res["inconclusive"].append(
                    "shard %s ended with %s/%s near case %d (%s): %s"
                    % (self.tag, r["rc"], third["rc"], idx, what, r["err"][-400:]))
                return res
        src = again if reproduced and SAN_RE.search(again["err"]) else r
        if src["rc"] in (2, 3) and not SAN_RE.search(src["err"]):
            res["inconclusive"].append("harness refused to run: " + src["err"][-400:])
            return res
        res["violations"].append(self.viol(idx, crash_key(src, what), describe(src, what), src))
        return res

    def viol(self, idx, key, msg, r):
        return {"idx": idx, "key": key, "msg": msg, "cmd": r["cmd"], "err": r.get("err", "")[-6000:],
                "job": self.job["name"]}

    def take(self, res, r):
        res["data"].append(r["data"])
        for v in r["data"]["violations"]:
            res["violations"].append(
                {"idx": v["idx"], "key": v["key"], "msg": v["msg"], "job": self.job["name"],
                 "cmd": self.cmd(v["idx"], 1, "/dev/stdout", None), "err": ""})


def crash_key(r, what):
    kind = "crash"
    m = re.search(r"Assertion [`'](.*?)' failed", r["err"])
    if m:
        kind = "assertion"
    elif "AddressSanitizer" in r["err"]:
        m = re.search(r"AddressSanitizer: ([\w-]+)", r["err"])
        kind = "asan-" + (m.group(1) if m else "error")
    elif "runtime error:" in r["err"]:
        kind = "ubsan"
    elif "LeakSanitizer" in r["err"]:
        kind = "leak"
    elif "ThreadSanitizer" in r["err"]:
        kind = "race"
    return kind + ":" + (what.split(" ")[0] if what else "?")


def describe(r, what):
    lines = [x for x in r["err"].splitlines() if SAN_RE.search(x)]
    head = lines[0] if lines else (r["err"].strip().splitlines() or ["no output"])[-1]
    return "ended abnormally (status %s) while at '%s': %s" % (r["rc"], what, head[:600])


def load_known():
    known, path = [], os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                known.append(m.groups())
    return known


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS:
        log("usage: run.py PROPERTY [quick|thorough]")
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    spec = PROPS[prop]
    t0 = time.time()
    evdir = os.path.join(ROOT, "evidence")
    os.makedirs(os.path.join(evdir, "replays"), exist_ok=True)
    evfile = os.path.join(evdir, prop + ".json")
    if os.path.exists(evfile):
        os.remove(evfile)
    jobs = [j for j in spec["jobs"] if tier in j.get("tiers", ("quick", "thorough"))]
    try:
        exes = build.build_all(jobs)
    except build.BuildError as e:
        log("BUILD FAILED: " + str(e)[-6000:])
        return 2
    left_out = [n for n in sorted(exes) if exes[n] is None]
    for j in jobs:
        j["env"] = {"VF_PEERS": ";".join(
            "%s=%s" % (v, exes["%s:%s" % (j["name"], v)]) for v in j.get("peers", [])
            if exes["%s:%s" % (j["name"], v)])}
    for n in left_out:
        log("LEFT OUT: %s does not compile with %s" % (n, "another compiler"))
    jobs = [j for j in jobs if j["name"] not in left_out]
    tb = time.time() - t0
    limit = 780 if tier == "quick" else int(os.environ.get("VF_LIMIT", "3300"))
    deadline = t0 + limit
    tmp = tempfile.mkdtemp(prefix="vf-%s-" % prop)
    results, shards = [], []
    try:
        for j in jobs:
            total = int(j[tier])
            n = j.get("shards", NPROC)
            n = max(1, min(n, total))
            per, extra, first = total // n, total % n, 0
            for k in range(n):
                c = per + (1 if k < extra else 0)
                shards.append(Shard(j, exes[j["name"]], prop, seed, tier, first, c, tmp,
                                    "%s.%d" % (j["name"], k)))
                first += c
        for k, s in enumerate(shards):
            s.rounds = -(-(len(shards) - k) // NPROC)
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for s, res in zip(shards, ex.map(lambda s: s.run(deadline), shards)):
                results.append((s, res))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    evals, distinct, counters, samples, viols, inconc = 0, set(), {}, [], [], []
    per_job = {}
    for s, res in results:
        for d in res["data"]:
            evals += d["evaluations"]
            distinct.update((h) for h in d["distinct"])
            for k, v in d["counters"].items():
                if k.startswith("max_"):
                    counters[k] = max(counters.get(k, 0), v)
                else:
                    counters[k] = counters.get(k, 0) + v
            samples += d["samples"]
            pj = per_job.setdefault(s.job["name"], 0)
            per_job[s.job["name"]] = pj + d["evaluations"]
        viols += res["violations"]
        inconc += res["inconclusive"]
    # Several runs of the same library must agree (property S03).
    if spec.get("post"):
        viols += spec["post"](results)
    known = load_known()
    fresh, seen_known = [], {}
    for v in viols:
        hit = [k for k in known if k[0] == prop and k[1] == v["key"]]
        if hit:
            seen_known[hit[0][1]] = hit[0][2]
        else:
            fresh.append(v)
    for kp, kk, txt in known:
        if kp == prop:
            log("KNOWN-FINDING: property=%s %s%s" % (
                prop, txt, "" if kk in seen_known else " (not met in this run)"))
    wall = time.time() - t0
    missing = [c for c in spec.get("must_observe", []) if counters.get(c, 0) == 0]
    counters["max_process_mb"] = max([s.peak for s in shards] + [0])
    samples = samples[:: max(1, len(samples) // 6)][:6] or ["no sample"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(distinct),
            "rule": spec["rule"], "samples": samples,
            "observed": dict(sorted(counters.items())),
            "evaluations_per_run": per_job,
            "instrumentation": sorted({j["variant"] for j in jobs}),
            "left_out": left_out,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(fresh),
    }
    with open(evfile, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if os.environ.get("VF_SHOW_RSS"):
        log("peak memory of one process: %d MB" % max([s.peak for s in shards] + [0]))
    log("%s %s seed=%d: %d evaluations, %d distinct, build %.1fs, total %.1fs"
        % (prop, tier, seed, evals, len(distinct), tb, wall))
    if fresh:
        by_key = {}
        for v in fresh:
            by_key.setdefault(v["key"], v)
        for key, v in list(by_key.items())[:5]:
            name = re.sub(r"[^\w.-]+", "_", "%s-%s-%s" % (prop, v["job"], key))[:80]
            path = os.path.join("evidence", "replays", "%s-s%d-%s.json" % (name, seed, v["idx"]))
            with open(os.path.join(ROOT, path), "w") as f:
                json.dump({"property": prop, "seed": seed, "case": v["idx"], "key": key,
                           "message": v["msg"], "replay_cmd": v["cmd"], "output": v["err"]},
                          f, indent=1)
            log("  %s [case %s]: %s" % (key, v["idx"], v["msg"][:1500]))
            log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if inconc:
        log("INCONCLUSIVE: " + "; ".join(inconc)[:3000])
        return 2
    if missing or evals == 0:
        log("INCONCLUSIVE: the monitors never observed " + ", ".join(missing or ["anything"]))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
