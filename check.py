#!/usr/bin/env python3
"""Builds and runs one check: check.py ID [quick|thorough]   (or: check.py --replay FILE, check.py --list)

Everything is built from the working tree of /repo (LIBQASM_REPO names another one, for trying planted bugs in scratch
copies) into /verif/build, and nothing in /repo is written. Exit status: 0 held on everything explored, 1 with a
VIOLATION line, 2 the check could not be carried out.
"""
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.path.realpath(os.environ.get("LIBQASM_REPO", "/repo"))
sys.path.insert(0, VERIF)
from registry import CHECKS  # noqa: E402

BUILD_ROOT = os.path.join(VERIF, "build")
if REPO != "/repo":
    BUILD_ROOT = os.path.join(BUILD_ROOT, hashlib.sha256(REPO.encode()).hexdigest()[:10])
STAGE = os.path.join(BUILD_ROOT, "tree")
REPLAY = os.path.join(VERIF, "replay")

SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer"
PROFILES = {
    # name: compiler, compile flags, link flags
    "gxx": ("g++", "-O1 -D_GLIBCXX_ASSERTIONS", ""),
    "gxxsan": ("g++", "-O0 -g1 -D_GLIBCXX_ASSERTIONS " + SAN, SAN),
    "clang": ("clang++", "-O1 -g1 -D_GLIBCXX_ASSERTIONS " + SAN, SAN),
    "tsan": ("g++", "-O1 -g1 -D_GLIBCXX_ASSERTIONS -fsanitize=thread", "-fsanitize=thread"),
    "fuzz": ("clang++", "-O1 -g1 -D_GLIBCXX_ASSERTIONS -fsanitize=fuzzer-no-link " + SAN, SAN),
}


class Trouble(Exception):
    pass


def stage():
    """Brings a copy of the sources up to date by content, so that what is rebuilt depends on no file time in the repository."""
    os.makedirs(BUILD_ROOT, exist_ok=True)
    with open(os.path.join(BUILD_ROOT, ".lock-stage"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        for top in ("src", "include", "emscripten"):
            want = set()
            for d, _, fs in os.walk(os.path.join(REPO, top)):
                for f in fs:
                    source = os.path.join(d, f)
                    rel = os.path.relpath(source, REPO)
                    want.add(rel)
                    target = os.path.join(STAGE, rel)
                    data = open(source, "rb").read()
                    if not os.path.exists(target) or open(target, "rb").read() != data:
                        os.makedirs(os.path.dirname(target), exist_ok=True)
                        with open(target, "wb") as o:
                            o.write(data)
            for d, _, fs in os.walk(os.path.join(STAGE, top)):
                for f in fs:
                    target = os.path.join(d, f)
                    if os.path.relpath(target, STAGE) not in want:
                        os.remove(target)


def ninja_for(profile, light, harnesses):
    """Writes build.ninja for the library objects of a profile and the given harnesses; returns its directory."""
    cxx, cflags, lflags = PROFILES[profile]
    bdir = os.path.join(BUILD_ROOT, profile + ("-light" if light else ""))
    os.makedirs(bdir, exist_ok=True)
    gen = os.path.join(bdir, "gen")
    genh = os.path.join(gen, "libqasm", "v3x")
    os.makedirs(genh, exist_ok=True)
    shim = os.path.join(VERIF, "shim")
    inc = "-I%s -I%s/include -I%s/include -I%s/harness -include standard.hpp" % (gen, shim, STAGE, VERIF)
    out = ["ninja_required_version = 1.7", "builddir = " + bdir]
    out += ["rule cxx", "  command = %s -std=c++20 -w %s $extra %s -MMD -MF $out.d -c $in -o $out" % (cxx, cflags, inc),
            "  depfile = $out.d", "  deps = gcc"]
    out += ["rule link", "  command = %s %s $extra $in -o $out -lfmt -lpthread" % (cxx, lflags)]
    out += ["rule treegen", "  command = python3 %s/treegen.py $in $hpp $cpp" % shim, "  restat = 1"]
    out += ["rule antlrgen", "  command = python3 %s/antlrgen.py $lexer $parser %s %s" % (shim, genh, gen), "  restat = 1"]
    order = []
    gensrc = []
    if not light:
        for tree in sorted(glob.glob(os.path.join(STAGE, "src/v3x/*.tree"))):
            name = os.path.basename(tree)[:-5]
            hpp = os.path.join(genh, name + "_generated.hpp")
            cpp = os.path.join(gen, name + "_generated.cpp")
            out += ["build %s %s: treegen %s | %s/treegen.py" % (hpp, cpp, tree, shim),
                    "  hpp = " + hpp, "  cpp = " + cpp]
            order.append(hpp)
            gensrc.append(cpp)
        lexer = os.path.join(STAGE, "src/v3x/CqasmLexer.g4")
        parser = os.path.join(STAGE, "src/v3x/CqasmParser.g4")
        files = antlr_outputs(gen, genh)
        out += ["build %s: antlrgen | %s %s %s/antlrgen.py" % (" ".join(files), lexer, parser, shim),
                "  lexer = " + lexer, "  parser = " + parser]
        order += [f for f in files if f.endswith(".h")]
        gensrc += [f for f in files if f.endswith(".cpp")]
    srcs = sorted(glob.glob(os.path.join(STAGE, "src/*.cpp")))
    if not light:
        srcs += sorted(glob.glob(os.path.join(STAGE, "src/v3x/**/*.cpp"), recursive=True))
        srcs += [os.path.join(shim, "src/antlr4-runtime.cpp")]
    objs = []
    for s in srcs + gensrc:
        tag = ("v3x_" if "/v3x/" in s else "gen_" if s in gensrc else "") + os.path.basename(s)[:-4]
        o = os.path.join(bdir, "obj", tag + ".o")
        out += ["build %s: cxx %s || %s" % (o, s, " ".join(order))]
        objs.append(o)
    exes = []
    for h in harnesses:
        src = h["src"]
        if not os.path.isabs(src):
            src = os.path.join(VERIF, "harness", src)
        name = h.get("exe") or os.path.basename(src)[:-4]
        o = os.path.join(bdir, "obj", "h_" + name + ".o")
        exe = os.path.join(bdir, name)
        out += ["build %s: cxx %s || %s" % (o, src, " ".join(order)), "  extra = " + h.get("cflags", "").replace("$REPO", STAGE)]
        extra_objs = []
        for e in h.get("with", []):
            e = e.replace("$REPO", STAGE).replace("$VERIF", VERIF)
            eo = os.path.join(bdir, "obj", "x_%s_%s.o" % (name, os.path.basename(e)[:-4]))
            out += ["build %s: cxx %s || %s" % (eo, e, " ".join(order)), "  extra = " + h.get("cflags", "").replace("$REPO", STAGE)]
            extra_objs.append(eo)
        out += ["build %s: link %s %s %s" % (exe, o, " ".join(extra_objs), " ".join(objs)),
                "  extra = " + h.get("ldflags", "")]
        exes.append(exe)
    text = "\n".join(out) + "\n"
    path = os.path.join(bdir, "build.ninja")
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)
    return bdir, exes


def antlr_outputs(gen, genh):
    hs = ["CqasmLexer.h", "CqasmParser.h", "CqasmParserVisitor.h", "CqasmParserBaseVisitor.h"]
    cs = ["CqasmLexer.cpp", "CqasmParser.cpp"]
    return [os.path.join(genh, h) for h in hs] + [os.path.join(gen, c) for c in cs]


def build(profile, light, harnesses):
    os.makedirs(BUILD_ROOT, exist_ok=True)
    lock = open(os.path.join(BUILD_ROOT, ".lock-%s%s" % (profile, "-light" if light else "")), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        stage()
        bdir, exes = ninja_for(profile, light, harnesses)
        r = subprocess.run(["ninja", "-C", bdir] + exes, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise Trouble("the build failed:\n" + r.stdout[-6000:])
        return exes
    finally:
        lock.close()


def locales():
    """Makes the locales that harness/locales.hpp names; returns their directory."""
    where = os.path.join(VERIF, "build", "locales")
    os.makedirs(where, exist_ok=True)
    text = open(os.path.join(VERIF, "harness", "locales.hpp")).read()
    names = re.findall(r'"(\w\w_\w\w\.[\w-]+)"', text.split("names = {")[1].split("}")[0])
    with open(os.path.join(where, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        procs = []
        for n in names:
            if not os.path.isdir(os.path.join(where, n)):
                lang, chars = n.split(".")
                shutil.rmtree(os.path.join(where, n + ".new"), ignore_errors=True)
                procs.append((n, subprocess.Popen(["localedef", "-i", lang, "-f", chars, "./" + n + ".new"], cwd=where,
                                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for n, p in procs:
            said = p.communicate()[0]
            if not os.path.isdir(os.path.join(where, n + ".new")):
                raise Trouble("localedef cannot make %s: %s" % (n, said))
            os.rename(os.path.join(where, n + ".new"), os.path.join(where, n))
    return where


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    data = json.load(open(path))
    return [k for k in data.get("known", []) if k["property"] == pid]


def san_env():
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "malloc_context_size=2:detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:symbolize=0:handle_segv=1:detect_stack_use_after_return=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:abort_on_error=1:symbolize=0"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:die_after_fork=0:history_size=7:report_signal_unsafe=0:symbolize=1:second_deadlock_stack=0"
    return env


class Run:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.parts = []
        self.violation = None
        self.t0 = time.time()
        self.assumptions = []
        os.makedirs(REPLAY, exist_ok=True)

    def note(self, stats, name):
        self.parts.append((name, stats))

    def violate(self, replay):
        if not self.violation:
            self.violation = replay

    def evidence(self):
        ev = sum(s.get("evaluations", 0) for _, s in self.parts)
        dn = sum(s.get("distinct_nontrivial", 0) for _, s in self.parts)
        samples, clauses = [], {}
        for name, s in self.parts:
            for cname, c in s.get("clauses", {}).items():
                key = cname if len(self.parts) == 1 else name + "/" + cname
                clauses[key] = {k: v for k, v in c.items() if k != "samples"}
                for x in c.get("samples", [])[:2]:
                    samples.append({"clause": key, "case": x})
        cov = {
            "evaluations": ev,
            "distinct_nontrivial": dn,
            "rule": " | ".join(s["rule"] for _, s in self.parts if s.get("rule")),
            "samples": samples[:60],
            "discarded": sum(s.get("discarded", 0) for _, s in self.parts),
            "time_cap_reached": any(s.get("time_cap_reached") for _, s in self.parts),
            "clauses": clauses,
        }
        doc = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": cov,
            "assumptions": CHECKS[self.pid].get("assumptions", []),
            "wall_s": round(time.time() - self.t0, 2), "violations": 1 if self.violation else 0,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(doc, f, indent=1)
        os.replace(path + ".tmp", path)


def run_pbt(run, exe, name, seconds, mem_mb=0, extra=()):
    stats = os.path.join(BUILD_ROOT, "%s.%s.stats.json" % (run.pid, name))
    replay = os.path.join(REPLAY, "%s-%s.json" % (run.pid, name))
    for f in (stats, replay):
        if os.path.exists(f):
            os.remove(f)
    cmd = [exe, "--seed", str(run.seed), "--tier", run.tier, "--stats", stats, "--replay-out", replay,
           "--workers", str(min(8, os.cpu_count() or 8)), "--seconds", str(seconds)]
    if mem_mb:
        cmd += ["--mem-mb", str(mem_mb)]
    cmd += list(extra)
    r = subprocess.run(cmd, env=san_env(), cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       errors="replace")
    sys.stdout.write(r.stdout)
    if os.environ.get("PBT_SLOW"):  # a diagnostic
        sys.stderr.write(r.stderr)
    if os.path.exists(stats):
        run.note(json.load(open(stats)), name)
    if r.returncode == 1:
        run.violate(replay)
    elif r.returncode != 0:
        raise Trouble("%s ended with status %d:\n%s" % (name, r.returncode, r.stderr[-4000:]))


def run_python(run, script, name, seconds, env_extra=None):
    stats = os.path.join(BUILD_ROOT, "%s.%s.stats.json" % (run.pid, name))
    replay = os.path.join(REPLAY, "%s-%s.json" % (run.pid, name))
    os.makedirs(BUILD_ROOT, exist_ok=True)
    for f in (stats, replay):
        if os.path.exists(f):
            os.remove(f)
    env = san_env()
    env.update(env_extra or {})
    env["LIBQASM_REPO"] = REPO
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    cmd = [sys.executable, os.path.join(VERIF, "harness", script), "--seed", str(run.seed), "--tier", run.tier,
           "--stats", stats, "--replay-out", replay, "--seconds", str(seconds)]
    r = subprocess.run(cmd, env=env, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       errors="replace")
    sys.stdout.write(r.stdout)
    if os.path.exists(stats):
        run.note(json.load(open(stats)), name)
    if r.returncode == 1:
        run.violate(replay)
    elif r.returncode != 0:
        raise Trouble("%s ended with status %d:\n%s" % (name, r.returncode, (r.stdout + r.stderr)[-4000:]))


def part_name(part, pid):
    return part.get("name") or os.path.basename(part.get("src", part.get("script", pid)))[:-4]


def prepare(part, thorough):
    """Builds what a part needs; returns the program, its environment and its profile."""
    kind = part["kind"]
    if part.get("locales"):
        os.environ["VERIF_LOCALES"] = locales()
    if kind in ("light", "heavy"):
        light = kind == "light"
        profile = part.get("profile", "gxxsan" if light else "gxx")
        if thorough and not part.get("fixed"):
            profile = "clang"
        return build(profile, light, [part])[0], {}, profile
    if kind == "python":
        h = part.get("helper")
        return None, {"VERIF_HELPER": build("clang" if thorough else "gxx", False, [h])[0]} if h else {}, None
    if kind == "fuzz":
        return build("fuzz", False, [dict(part, ldflags=part.get("ldflags", "") + " -fsanitize=fuzzer")])[0], {}, "fuzz"
    raise Trouble("unknown kind " + kind)


def replay(path):
    """Runs a recorded case again: exit status 1 if it still fails."""
    base = os.path.basename(path)
    for pid in CHECKS:
        for part in CHECKS[pid]["parts"]:
            name = "%s-%s" % (pid, part_name(part, pid))
            if base == name + ".input":
                exe, _, _ = prepare(part, True)
                return 1 if subprocess.run([exe, os.path.abspath(path)], env=san_env()).returncode else 0
            if base == name + ".json":
                exe, env, _ = prepare(part, json.load(open(path)).get("tier") == "thorough")
                if part["kind"] == "python":
                    env = dict(san_env(), LIBQASM_REPO=REPO, PYTHONDONTWRITEBYTECODE="1", **env)
                    cmd = [sys.executable, os.path.join(VERIF, "harness", part["script"])]
                else:
                    env, cmd = san_env(), [exe] + list(part.get("args", ()))
                return subprocess.run(cmd + ["--replay", os.path.abspath(path)], env=env, cwd=VERIF).returncode
    raise Trouble("no check has a replay file of that name: " + base)


def check(pid, tier):
    spec = CHECKS[pid]
    run = Run(pid, tier)
    thorough = tier == "thorough"
    seconds = spec.get("seconds", (100, 1200))[1 if thorough else 0]
    for part in spec["parts"]:
        if part.get("tier") and part["tier"] != tier:
            continue
        kind, name = part["kind"], part_name(part, pid)
        exe, env, profile = prepare(part, thorough)
        if kind in ("light", "heavy"):
            limited = kind == "heavy" and profile == "gxx" and not part.get("fixed")
            run_pbt(run, exe, name, seconds, 4096 if limited else 0, extra=part.get("args", ()))
        elif kind == "python":
            run_python(run, part["script"], name, seconds, env)
        else:
            run_fuzz(run, exe, part, name, part.get("seconds", 600))
        if run.violation:
            break
    for k in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    run.evidence()
    if run.violation:
        print("VIOLATION property=%s replay=%s" % (pid, run.violation))
        return 1
    return 0


def run_fuzz(run, exe, part, name, seconds):
    """Coverage-guided search (thorough tier only): a libFuzzer target with the oracle inside."""
    work = os.path.join(BUILD_ROOT, "fuzz-%s" % name)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work + "/corpus")
    seeds = part.get("seeds")
    n = 0
    for pattern in seeds or []:
        for f in sorted(glob.glob(pattern.replace("$REPO", REPO).replace("$VERIF", VERIF), recursive=True)):
            shutil.copyfile(f, os.path.join(work, "corpus", "seed%05d" % n))
            n += 1
    jobs = 8
    procs = []
    for j in range(jobs):
        os.makedirs(work + "/c%d" % j)
        log = open(work + "/log%d" % j, "w")
        cmd = [exe, "-seed=%d" % (run.seed * 100 + j + 1), "-max_total_time=%d" % seconds, "-timeout=60",
               "-rss_limit_mb=3500", "-max_len=%d" % part.get("max_len", 2000), "-print_final_stats=1",
               "-artifact_prefix=%s/crash%d-" % (work, j), work + "/c%d" % j, work + "/corpus"]
        if part.get("dict"):
            cmd.insert(1, "-dict=" + part["dict"].replace("$VERIF", VERIF))
        procs.append((subprocess.Popen(cmd, env=san_env(), cwd=work, stdout=log, stderr=subprocess.STDOUT), log))
    execs = units = 0
    for p, log in procs:
        p.wait()
        log.close()
    found = None
    for j in range(jobs):
        text = open(work + "/log%d" % j, errors="replace").read()
        for line in text.splitlines():
            if line.startswith("stat::number_of_executed_units:"):
                execs += int(line.split()[-1])
            if line.startswith("stat::new_units_added:"):
                units += int(line.split()[-1])
    for art in sorted(glob.glob(work + "/crash*-*")):
        base = os.path.basename(art)
        if "slow-unit" in base or "-oom-" in base or "-timeout-" in base:
            print("fuzz: inconclusive artifact %s" % base)
            continue
        ok = all(subprocess.run([exe, art], env=san_env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                ).returncode != 0 for _ in range(3))
        if ok:
            found = art
            break
    run.note({"rule": part.get("rule", ""), "evaluations": execs, "distinct_nontrivial": units,
              "clauses": {"coverage-guided": {"evaluations": execs, "distinct_nontrivial": units,
                                              "seed_inputs": n, "samples": []}}}, name)
    if found:
        replay = os.path.join(REPLAY, "%s-%s.input" % (run.pid, name))
        shutil.copyfile(found, replay)
        run.violate(replay)
    shutil.rmtree(work, ignore_errors=True)


def main():
    args = sys.argv[1:]
    if args and args[0] == "--list":
        print("\n".join(CHECKS))
        return 0
    if args and args[0] == "--setup":
        for tool in ("ninja", "g++", "clang++"):
            if not shutil.which(tool):
                print("missing: " + tool, file=sys.stderr)
                return 2
        os.makedirs(BUILD_ROOT, exist_ok=True)
        return 0
    if len(args) == 2 and args[0] == "--replay":
        try:
            return replay(args[1])
        except Trouble as e:
            print("TROUBLE: %s" % e, file=sys.stderr)
            return 2
    if len(args) < 1 or args[0] not in CHECKS:
        print("usage: check.py ID [quick|thorough]", file=sys.stderr)
        return 2
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    try:
        return check(args[0], tier)
    except Trouble as e:
        print("TROUBLE: %s" % e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
