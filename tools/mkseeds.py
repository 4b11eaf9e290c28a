#!/usr/bin/env python3
"""Writes planted bugs to /verif/seeded and tries them: mkseeds.py SPEC.py [ID...]

SPEC.py defines SEEDS: a list of dicts (id, property, needs, breaks, edits [(file, old, new)], kind light|heavy|script,
demo: program text, or for script: the body of demo.sh). A seed is kept when it applies to /repo's HEAD, builds, passes the
stable tests, and its demo tells the trees apart. Then the check of its property is run on it (and any in 'also').
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import importlib.util

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LIBQASM_REPO", "/repo")  # in a scratch copy the stable tests are not run


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    sh(["git", "-C", REPO, "checkout", "--", "."])


def passing():
    if REPO != "/repo":
        return []
    out = tempfile.mktemp(suffix=".json")
    r = sh(["bash", "/opt/vp/test.sh", out])
    data = json.load(open(out))
    os.unlink(out)
    want = json.load(open("/opt/vp/BASELINE.json"))
    want = want.get("stable") or want.get("passed") or want.get("tests")
    missing = [t for t in want if t not in data["passed"]]
    return missing


def demo(folder):
    with tempfile.TemporaryDirectory() as t:
        d = os.path.join(t, "x")
        shutil.copytree(folder, d)
        for f in ("patch.diff", "meta.json"):
            os.unlink(os.path.join(d, f))
        r = sh(["bash", os.path.join(d, "demo.sh")], cwd=REPO, timeout=300)
        return r.returncode, r.stdout


def main():
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    only = sys.argv[2:]
    if sh(["git", "-C", REPO, "status", "--porcelain"]).stdout.strip():
        sys.exit("/repo is not clean")
    for s in m.SEEDS:
        if only and s["id"] not in only:
            continue
        folder = os.path.join(VERIF, "seeded", s["id"])
        shutil.rmtree(folder, ignore_errors=True)
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(REPO, f)
                text = open(p).read()
                if text.count(old) != 1:
                    raise SystemExit("%s: %d matches in %s of:\n%s" % (s["id"], text.count(old), f, old))
                open(p, "w").write(text.replace(old, new))
            diff = sh(["git", "-C", REPO, "diff"]).stdout
            os.makedirs(folder)
            open(os.path.join(folder, "patch.diff"), "w").write(diff)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(os.path.join(folder, "meta.json"), "w"), indent=1)
            if s["kind"] == "script":
                open(os.path.join(folder, "demo.sh"), "w").write(s["demo"])
                for name, text in s.get("files", {}).items():
                    open(os.path.join(folder, name), "w").write(text)
            else:
                shutil.copytree(os.path.join(VERIF, "shim"), os.path.join(folder, "shim"), ignore=shutil.ignore_patterns("__pycache__"))
                for f in ("kit.sh", "light.hpp", "heavy.hpp"):
                    shutil.copy(os.path.join(VERIF, "tools/kit", f), folder)
                more = s.get("more", "")
                open(os.path.join(folder, "demo.sh"), "w").write(
                    '#!/bin/bash\n. "$(dirname "$0")/kit.sh"\n%srun_demo %s demo.cpp\n' % (more + "\n" if more else "", s["kind"]))
                open(os.path.join(folder, "demo.cpp"), "w").write('#include "%s.hpp"\n' % s["kind"] + s["demo"])
            missing = passing()
            rc, out = demo(folder)
            if missing or rc == 0 or rc == 3:
                print("%s REJECTED: missing tests %s, demo %d\n%s" % (s["id"], missing, rc, out[-1500:]), flush=True)
                shutil.rmtree(folder)
                continue
            caught = {}
            for pid in [s["property"]] + s.get("also", []):
                r = sh([sys.executable, os.path.join(VERIF, "check.py"), pid, "quick"], cwd=VERIF, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                line = re.findall(r"^VIOLATION.*$", r.stdout, re.M)
                caught[pid] = (r.returncode, line[0] if line else r.stdout.strip()[-300:])
            print("%s -> %s" % (s["id"], {k: (v if v[0] != 1 else "caught") for k, v in caught.items()}), flush=True)
        finally:
            clean()
        rc, out = demo(folder) if os.path.exists(folder) else (0, "")
        if rc != 0:
            print("%s REJECTED: the demo fails on the clean tree (%d)\n%s" % (s["id"], rc, out[-1500:]), flush=True)
            shutil.rmtree(folder)


main()
