"""Mutation campaign: how much of what the code does do the monitors notice?

mutate.py list FILE            the mutants of a file of /repo
mutate.py run FILE PROPS [N [K]]  runs the quick checks of PROPS (comma
    separated, in order) on every mutant until one notices, K at a time;
    prints caught/missed.
Works on copies under /tmp/vf-mut; /repo is never touched.
"""
import concurrent.futures as cf
import os
import queue
import re
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "/tmp/vf-mut"

SUBST = [
    (r"==", "!="), (r"!=", "=="), (r"(?<![<\-])<(?![<=])(?= )", "<="), (r"<=", "<"),
    (r"(?<= )>(?![>=])(?= )", ">="), (r">=", ">"), (r"&&", "||"), (r"\|\|", "&&"),
    (r"(?<= )\+(?= )", "-"), (r"(?<= )-(?= )", "+"), (r"\+=", "-="), (r"-=", "+="),
    (r"\|=", "="), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\b0U?\b(?!x)", "1"), (r"\b1U?\b", "2"), (r"\b2U?\b", "1"), (r"\b7U?\b", "6"),
    (r"\b4U?\b", "5"), (r"\b5U?\b", "4"), (r"\b8U\b", "7"),
    (r"CSCount", "CCount"), (r"\bCCount\b", "CSCount"), (r"CSSeq", "CSeq"),
    (r"\bCSeq\b", "CSSeq"), (r"CSPos", "CPos"), (r"CSLoc", "CLoc"),
    (r"GRAVEYARD", "BANISHED"), (r"MAIN_DECK", "EXTRA_DECK"), (r"LOCATION_HAND", "LOCATION_EXTRA_DECK"),
    (r"MONSTER_ZONE", "SPELL_ZONE"), (r"CONTROLLER_0", "CONTROLLER_1"), (r"CONTROLLER_1", "CONTROLLER_0"),
    (r"\bprev\b", "curr"), (r"\bcurr\b", "prev"), (r"\bfrom\b", "to"), (r"\bto\b", "from"),
    (r"\ba\b", "b"), (r"\bb\b", "a"), (r"uint64_t", "uint32_t"), (r"int32_t", "int16_t"),
    (r"uint32_t", "uint16_t"), (r"std::max", "std::min"), (r"std::min", "std::max"),
    (r"\bbegin\b", "end"), (r"old_place", "new_place"), (r"new_place", "old_place"),
    (r"\boseq\b", "seq"), (r"\bseq\b", "oseq"), (r"push_back", "pop_back"),
    (r"\+\+", "--"), (r"\bauto const\b", "static auto const"),
    (r"std::move\((\w+)\)", r"\1"), (r"mutable_place_a", "mutable_place_b"),
    (r"\bcontinue;", "break;"), (r"\bbreak;", ";"), (r"&(?![&\w])", "|"),
    (r"else if", "if"), (r"emplace_back\((.*)\);", r"emplace(X.begin(), \1);"),
]


def code_lines(text):
    """Line numbers that hold code that runs."""
    out, comment = [], False
    for i, l in enumerate(text.split("\n")):
        s = l.strip()
        if comment:
            if "*/" in s:
                comment = False
            continue
        if s.startswith("/*"):
            comment = "*/" not in s
            continue
        if not s or s.startswith(("//", "#", "using ", "namespace", "template", "static_assert")):
            continue
        if "log(" in s or s.startswith("assert("):
            continue
        out.append(i)
    return out


def mutants(path):
    text = open(path).read()
    lines = text.split("\n")
    seen = set()
    for i in code_lines(text):
        l = lines[i]
        body = l.split("//")[0]
        for pat, rep in SUBST:
            for m in re.finditer(pat, body):
                new = body[:m.start()] + m.expand(rep) + body[m.end():] + l[len(body):]
                if new != l and (i, new) not in seen:
                    seen.add((i, new))
                    yield i, new
        st = body.strip()
        ind = body[:len(body) - len(body.lstrip())]
        if re.match(r"^[\w:>.\*\(\)\[\]\-]+.*;$", st) and not re.match(
                r"^(auto|constexpr|static|const|return|using|break|case|std::\w+<.*> \w|uint|int|bool|size_t|struct|class|enum|friend)\b", st):
            yield i, ind + ";"
        m = re.match(r"^(if|while)\((.*)\)$", st)
        if m:
            yield i, ind + "%s(!(%s))" % m.groups()
            yield i, ind + "%s(false && (%s))" % m.groups()
        if re.match(r"^return .*;$", st) and "bool" in text:
            pass


def run(file, props, limit, width):
    slots = queue.Queue()
    for k in range(width):
        d = "%s/%d" % (BASE, k)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for x in ("include", "src"):
            shutil.copytree("/repo/" + x, d + "/repo/" + x)
        for x in ("harness", "tools", "frozen"):
            shutil.copytree(ROOT + "/" + x, d + "/verif/" + x)
        for x in ("run.py", "properties.jsonl", "known-findings.txt"):
            shutil.copy(ROOT + "/" + x, d + "/verif/" + x)
        slots.put(d)
    orig = open("/repo/" + file).read()
    ms = list(mutants("/repo/" + file))
    step = max(1, len(ms) // limit) if limit else 1
    ms = ms[::step]
    print("%d mutants of %s" % (len(ms), file), flush=True)

    def one(m):
        i, new = m
        d = slots.get()
        try:
            lines = orig.split("\n")
            old = lines[i]
            lines[i] = new
            with open(d + "/repo/" + file, "w") as f:
                f.write("\n".join(lines))
            env = dict(os.environ, VF_REPO=d + "/repo", VF_OUT=d + "/build")
            res = "MISSED"
            for p in props:
                try:
                    r = subprocess.run(["python3", "run.py", p, "quick"], cwd=d + "/verif", env=env,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
                    o = r.stdout.decode("utf-8", "replace")
                except subprocess.TimeoutExpired:
                    res = "TIMEOUT " + p
                    break
                if r.returncode == 2 and "BUILD FAILED" in o:
                    res = "nobuild"
                    break
                if r.returncode == 1:
                    res = "caught " + p
                    break
                if r.returncode != 0:
                    res = "INCONCLUSIVE " + p + " " + o[-300:].replace("\n", " ")
                    break
            for x in ("obj", "bin"):
                b = d + "/build/" + x
                if os.path.isdir(b):
                    for f in os.listdir(b):
                        q = os.path.join(b, f)
                        if x == "bin" or os.path.getsize(q) and f not in keep(d):
                            os.remove(q)
            return "%-14s %s:%d  %s  =>  %s" % (res, os.path.basename(file), i + 1, old.strip(), new.strip())
        finally:
            with open(d + "/repo/" + file, "w") as f:
                f.write(orig)
            slots.put(d)

    kept = {}

    def keep(d):
        # Objects of the generated code and of the unchanged tree stay.
        if d not in kept:
            kept[d] = set(os.listdir(d + "/build/obj")) if False else set()
        return kept[d] | pbobjs(d)

    def pbobjs(d):
        sys.path.insert(0, ROOT + "/tools")
        import glob
        import build as b
        out = set()
        for cc in glob.glob(d + "/build/pb-*/*.pb.cc"):
            pb = os.path.dirname(cc)
            for extra in ([], ["-fsanitize=thread"]):
                fl = extra + ["-O0", "-I" + pb]
                out.add(b.digest(cc, b.CXX, " ".join(fl), open(cc, "rb").read()) + ".o")
        return out

    tally = {}
    with cf.ThreadPoolExecutor(width) as ex:
        for r in ex.map(one, ms):
            tally[r.split(" ")[0]] = tally.get(r.split(" ")[0], 0) + 1
            if not r.startswith("nobuild"):
                print(r, flush=True)
    print(tally)
    shutil.rmtree(BASE, ignore_errors=True)


if sys.argv[1] == "list":
    for i, new in mutants("/repo/" + sys.argv[2]):
        print(i + 1, new.strip())
else:
    run(sys.argv[2], sys.argv[3].split(","), int(sys.argv[4]) if len(sys.argv) > 4 else 0,
        int(sys.argv[5]) if len(sys.argv) > 5 else 3)
