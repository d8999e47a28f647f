"""Builds harnesses from /repo's working tree, cached by content."""
import concurrent.futures as cf
import glob
import hashlib
import os
import shutil
import subprocess
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
OUT = os.environ.get("VF_OUT", os.path.join(ROOT, "build"))
CXX = "clang++-18"

BASE = ["-std=c++17", "-include", "array", "-pthread"]
VARIANTS = {
    "san": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
            "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
    # Without the library's own assertions, which could hide missing ones.
    "nolib": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
              "-fno-omit-frame-pointer"],
    "rel": ["-O1", "-g1", "-DNDEBUG", "-fsanitize=address,undefined",
            "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer"],
    "plain": ["-O1", "-g1"],
    # What users ship, from another compiler: no assertions, arguments evaluated
    # in another order, the newest language level.
    "gcc": ["-O1", "-g1", "-DNDEBUG", "-std=c++20", "-include", "variant"],
}
COMPILERS = {"gcc": "g++"}
VARIANTS["fast"] = ["-O2", "-funsigned-char", "-g1", "-DNDEBUG"]
# The repository is built with clang: what it alone accepts is no violation.
OPTIONAL = {"gcc"}


class BuildError(Exception):
    pass


def sh(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode("utf-8", "replace")))


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree(paths):
    h = hashlib.sha256()
    for base in paths:
        for d, _, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                if f.endswith(("~", ".orig", ".rej", ".swp", ".pyc")):
                    continue
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fp:
                    h.update(fp.read())
    return h.hexdigest()


def place(tmp, dst):
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    os.replace(tmp, dst)


def gen_protos():
    protos = sorted(glob.glob(os.path.join(REPO, "include/ygopen/proto/*.proto")))
    if not protos:
        raise BuildError("no .proto files in " + REPO)
    key = digest("pb", *[open(p, "rb").read() + p.encode() for p in protos])
    dst = os.path.join(OUT, "pb-" + key)
    if not os.path.exists(os.path.join(dst, "done")):
        os.makedirs(OUT, exist_ok=True)
        tmp = tempfile.mkdtemp(dir=OUT)
        sh(["protoc", "--cpp_out=" + tmp, "-I" + os.path.dirname(protos[0])] + protos)
        open(os.path.join(tmp, "done"), "w").close()
        try:
            os.rename(tmp, dst)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return dst


def compile_one(src, flags, key, cxx, optional):
    obj = os.path.join(OUT, "obj", key + ".o")
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        fd, tmp = tempfile.mkstemp(suffix=".o", dir=os.path.dirname(obj))
        os.close(fd)
        try:
            cmd = [cxx] + BASE + flags + ["-c", src, "-o", tmp]
            try:
                sh(cmd)
            except BuildError:
                # Harnesses that instantiate more than the repository does
                # itself fall back on what it does.
                if src != os.path.join(ROOT, "harness", "h_query.cpp"):
                    if optional:
                        return None
                    raise
                try:
                    sh(cmd + ["-DVF_MINIMAL"])
                except BuildError:
                    if optional:
                        return None
                    raise
            os.replace(tmp, obj)
        finally:
            if os.path.exists(tmp):
                os.remove(tmp)
    return obj


def frozen_protos():
    """C++ is not generated from them: they are loaded at run time."""
    return os.path.join(ROOT, "frozen")


def with_peers(jobs):
    """Other builds of the same harness, for jobs that compare builds."""
    return jobs + [dict(j, name="%s:%s" % (j["name"], v), variant=v)
                   for j in jobs for v in j.get("peers", [])]


def build_all(jobs):
    jobs = with_peers(jobs)
    pb = gen_protos()
    inc_key = tree([os.path.join(REPO, "include")])
    repo_key = inc_key + tree([os.path.join(REPO, "src")])
    har_key = tree([os.path.join(ROOT, "harness")])
    inc = ["-I" + pb, "-isystem" + pb, "-I" + os.path.join(REPO, "include"),
           "-I" + os.path.join(ROOT, "harness"), "-DVF_ROOT=\"%s\"" % ROOT]
    tasks, links, srcs = {}, {}, {}
    for j in jobs:
        v = j["variant"]
        flags = VARIANTS[v] + j.get("flags", [])
        how = dict(cxx=COMPILERS.get(v, CXX), optional=v in OPTIONAL)
        objs = []

        def need(src, fl, *deps, cxx=CXX, optional=False):
            k = digest(src, cxx, " ".join(fl), *deps)
            tasks[k] = (src, fl, k, cxx, optional)
            objs.append(k)

        for cc in sorted(glob.glob(os.path.join(pb, "*.pb.cc"))):
            tsan = ["-fsanitize=thread", "-O0"] if v == "tsan" else ["-O0"]
            need(cc, tsan + ["-I" + pb], open(cc, "rb").read())
        if j.get("codec", True):
            for s in sorted(glob.glob(os.path.join(REPO, "src/**/*.cpp"), recursive=True)):
                need(s, flags + inc, repo_key, **how)
        # The harness (and the header-only code inside) at -O0: it builds three
        # times faster with sanitizers, and nothing is optimised away.
        need(os.path.join(ROOT, "harness", j["src"] + ".cpp"),
             [j.get("opt", "-O0") if f == "-O1" and v != "gcc" else f for f in flags] + inc,
             inc_key, har_key, **how)
        links[j["name"]] = (objs, flags)
        srcs[j["name"]] = j["src"]
    done = {}
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        # Longest first.
        order = sorted(tasks.values(), key=lambda t: ("harness/" not in t[0], "pb.cc" in t[0]))
        futs = {ex.submit(compile_one, *t): t[2] for t in order}
        for f in cf.as_completed(futs):
            done[futs[f]] = f.result()
    exes = {}

    def link(name):
        objs, flags = links[name]
        if any(done[o] is None for o in objs):
            return None
        exe = os.path.join(OUT, "bin", digest(" ".join(flags), *objs) + "-" + srcs[name])
        if not os.path.exists(exe):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            tmp = exe + ".%s.%d.tmp" % (name, os.getpid())
            sh([CXX] + BASE + flags + [done[o] for o in objs] + ["-lprotobuf", "-o", tmp])
            os.replace(tmp, exe)
        return exe

    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        for n, exe in zip(links, ex.map(link, list(links))):
            exes[n] = exe
    return exes
