#!/usr/bin/env python3
"""Mutation testing of the checks: mutate.py REPO_COPY OUT.jsonl N SEED FILE... -- CHECK...

Makes one small change at a time to a line of the given files of a scratch copy of the repository (never /repo), runs the
given checks in order of how often each has caught something so far until one reports a violation, and writes what became
of it. A development tool: no check reads its results.
"""
import json
import os
import random
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAPS = [("==", ["!="]), ("!=", ["=="]), ("<=", ["<"]), (">=", [">"]), ("&&", ["||"]), ("||", ["&&"]),
         ("true", ["false"]), ("false", ["true"]), ("++", ["--"]), ("std::min", ["std::max"]), ("std::max", ["std::min"]),
         (" + ", [" - "]), (" - ", [" + "]), (" * ", [" + "]), (" / ", [" * "]), (" < ", [" <= ", " > "]),
         (" > ", [" >= ", " < "]), (".begin()", [".end()"]), (".rbegin()", [".begin()"]), (".rend()", [".end()"]),
         (".front()", [".back()"]), (".back()", [".front()"]), ("has_value()", ["has_value() == false"]),
         (".empty()", [".empty() == false"]), ("first", ["last"]), ("last", ["first"]), ("lhs", ["rhs"]), ("rhs", ["lhs"]),
         ("line", ["column"]), ("column", ["line"]), ("emplace_back", ["push_front"]), ("push_back", ["push_front"]),
         ("std::nullopt", ["{}"]), ("continue;", ["break;"]), ("break;", ["continue;", ""]), ("?", ["&& false ?", "|| true ?"])]


def mutants(path, text):
    lines = text.split("\n")
    out = []
    comment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if comment or s.startswith("/*"):
            comment = "*/" not in s
            continue
        if not s or s.startswith(("//", "#", "using ", "namespace", "*", "}")) and not s.startswith("} else"):
            continue
        code = l.split("//")[0] if "\"" not in l else l
        for a, bs in SWAPS:
            for m in re.finditer(re.escape(a), code):
                if a[0].isalpha() and (m.start() and (code[m.start() - 1].isalnum() or code[m.start() - 1] == "_")
                                       or m.end() < len(code) and (code[m.end()].isalnum() or code[m.end()] == "_")):
                    continue
                for b in bs:
                    out.append((i, l[:m.start()] + b + l[m.end():]))
        for m in re.finditer(r"(?<![\w.\"])(\d+)(?![\w.\"])", code):
            out.append((i, l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():]))
            if int(m.group(1)):
                out.append((i, l[:m.start()] + str(int(m.group(1)) - 1) + l[m.end():]))
        m = re.match(r"(\s*(?:\} else )?if (?:constexpr )?\()(.*)(\) \{)$", l)
        if m and ";" not in m.group(2):
            out.append((i, m.group(1) + "!(" + m.group(2) + ")" + m.group(3)))
            out.append((i, m.group(1) + "(" + m.group(2) + ") && false" + m.group(3)))
            out.append((i, m.group(1) + "(" + m.group(2) + ") || true" + m.group(3)))
        if re.match(r"[\w:>.\[\]()*&-]+(\(.*\)| [-+|&]?= .*);$", s) and not s.startswith(("return", "throw")):
            out.append((i, l[:len(l) - len(l.lstrip())] + ";"))
        if s.startswith("throw ") and s.endswith(";"):
            out.append((i, l.replace(s, ";")))
        m = re.match(r"(\s*return )(.+);$", l)
        if m:
            for v in ("{}", "!(" + m.group(2) + ")", "-(" + m.group(2) + ")"):
                out.append((i, m.group(1) + v + ";"))
        for m in re.finditer(r"\"((?:[^\"\\]|\\.)+)\"", l):
            t = m.group(1)
            out.append((i, l[:m.start()] + "\"" + t + "x\"" + l[m.end():]))
        m = re.search(r"\((\w[\w.:]*), (\w[\w.:]*)\)", code)
        if m and m.group(1) != m.group(2):
            out.append((i, code[:m.start()] + "(" + m.group(2) + ", " + m.group(1) + ")" + code[m.end():]))
    seen, res = set(), []
    for i, n in out:
        if n != lines[i] and (i, n) not in seen:
            seen.add((i, n))
            res.append((i, n))
    return lines, res


def main():
    a = sys.argv[1:]
    k = a.index("--")
    repo, outp, n, seed = a[0], a[1], int(a[2]), int(a[3])
    files, checks = a[4:k], a[k + 1:]
    assert os.path.realpath(repo) != "/repo"
    rng = random.Random(seed)
    pool = []
    for f in files:
        text = open(os.path.join(repo, f)).read()
        lines, ms = mutants(f, text)
        pool += [(f, i, new) for i, new in ms]
    rng.shuffle(pool)
    kills = {c: 0 for c in checks}
    env = dict(os.environ, LIBQASM_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick")
    done = 0
    for f, i, new in pool:
        if done >= n:
            break
        path = os.path.join(repo, f)
        text = open(path).read()
        lines = text.split("\n")
        old = lines[i]
        lines[i] = new
        result, by, t0 = "survived", None, time.time()
        try:
            open(path, "w").write("\n".join(lines))
            odd = []
            for c in sorted(checks, key=lambda c: -kills[c]):
                try:
                    r = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), c], env=env, text=True, timeout=400,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace")
                except subprocess.TimeoutExpired:
                    odd.append(c + " timeout")
                    continue
                if r.returncode == 1:
                    result, by = "caught", c
                    kills[c] += 1
                    break
                if r.returncode != 0:
                    if "the build failed" in r.stdout:
                        result = "no build"
                        break
                    odd.append("%s rc=%d %s" % (c, r.returncode, r.stdout[-300:]))
        finally:
            open(path, "w").write(text)
        if result != "no build":
            done += 1
        with open(outp, "a") as o:
            o.write(json.dumps({"result": result, "by": by, "file": f, "line": i + 1, "old": old.strip(), "new": new.strip(),
                                "odd": odd, "s": round(time.time() - t0)}) + "\n")


main()
