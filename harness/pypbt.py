"""The engine of pbt.hpp in small, for checks of the Python package: choice sequences, shrinking, replay, statistics."""
import argparse
import hashlib
import json
import random
import sys
import time
import traceback


class Failure(Exception):
    pass


class Src:
    def __init__(self, rng=None, choices=None):
        self.rng, self.given, self.pos, self.taken = rng, choices, 0, []

    def draw(self, n):
        if self.given is not None:
            v = self.given[self.pos] if self.pos < len(self.given) else 0
            self.pos += 1
            v = min(v, n - 1)
        else:
            v = self.rng.randrange(n)
        self.taken.append(v)
        return v

    def flip(self):
        return self.draw(2) == 1

    def chance(self, num, den):
        return self.draw(den) >= den - num

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def length(self, most):
        k = self.draw(4)
        return self.draw((min(most, 4) if k < 2 else min(most, 12) if k == 2 else most) + 1)


class Case:
    def __init__(self):
        self.nontrivial, self.show, self.labels = False, "", []

    def label(self, s):
        self.labels.append(s)


def check(cond, msg):
    if not cond:
        raise Failure(msg)


def run_case(fn, src):
    case = Case()
    try:
        fn(src, case)
        return None, case
    except Failure as e:
        return str(e), case
    except Exception:
        return "unexpected exception: " + traceback.format_exc(limit=-3), case


def shrink(fn, best, budget):
    end = time.time() + budget

    def attempt(cand):
        nonlocal best
        if time.time() > end:
            return False
        src = Src(choices=cand)
        msg, _ = run_case(fn, src)
        if msg is None:
            return False
        used = src.taken
        small = min((used, cand), key=lambda c: (len(c), c))
        if (len(small), small) >= (len(best), best):
            return False
        best = small
        return True

    progress = True
    while progress and time.time() < end:
        progress = False
        block = max(1, len(best) // 2)
        while block >= 1:
            i = 0
            while i + block <= len(best):
                if attempt(best[:i] + best[i + block:]):
                    progress = True
                else:
                    i += block
            block //= 2
        for i in range(len(best)):
            while i < len(best) and best[i] > 0:
                for v in (0, best[i] // 2, best[i] - 1):
                    if attempt(best[:i] + [v] + best[i + 1:]):
                        progress = True
                        break
                else:
                    break
    return best


def run(prop, rule, clauses):
    """clauses: list of (name, fn, quick count, thorough count)."""
    ap = argparse.ArgumentParser()
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--stats")
    ap.add_argument("--replay-out")
    ap.add_argument("--replay")
    ap.add_argument("--seconds", type=float, default=100)
    a = ap.parse_args()
    if a.replay:
        rec = json.load(open(a.replay))
        for name, fn, _, _ in clauses:
            if name == rec["clause"]:
                msg, case = run_case(fn, Src(choices=rec["choices"]))
                print("FAILS" if msg else "passes", name, "\n  case:", case.show, "\n ", msg)
                return 1 if msg else 0
        return 3
    t0 = time.time()
    stats = {"rule": rule, "evaluations": 0, "distinct_nontrivial": 0, "discarded": 0, "time_cap_reached": False,
             "violations": 0, "clauses": {}}
    rc = 0
    for name, fn, quick, thorough in clauses:
        n = thorough if a.tier == "thorough" else quick
        st = {"evaluations": 0, "nontrivial": 0, "labels": {}, "samples": []}
        seen = set()
        for i in range(n):
            if time.time() - t0 > a.seconds:
                stats["time_cap_reached"] = True
                break
            rng = random.Random("%d/%s/%d" % (a.seed, name, i))
            src = Src(rng=rng)
            msg, case = run_case(fn, src)
            st["evaluations"] += 1
            if msg is not None:
                choices = list(src.taken)
                again = [run_case(fn, Src(choices=choices))[0] for _ in range(3)]
                if any(m is None for m in again):
                    print("case %s/%d fails only sometimes: %s" % (name, i, msg), file=sys.stderr)
                    rc = 3
                    break
                choices = shrink(fn, choices, 20)
                msg, case = run_case(fn, Src(choices=choices))
                rec = {"property": prop, "clause": name, "seed": a.seed, "case_number": i, "case": case.show,
                       "failure": msg, "choices": choices}
                if a.replay_out:
                    json.dump(rec, open(a.replay_out, "w"), indent=1)
                print("FAILED clause %s\n  case: %s\n  %s" % (name, case.show, msg))
                rc = 1
                break
            for lab in case.labels:
                st["labels"][lab] = st["labels"].get(lab, 0) + 1
            if case.nontrivial:
                st["nontrivial"] += 1
                seen.add(hashlib.sha1(case.show.encode("utf-8", "surrogatepass")).digest())
                if len(st["samples"]) < 3 and (not st["samples"] or i > n // 3):
                    st["samples"].append(case.show[:600].encode("utf-8", "backslashreplace").decode())
        st["distinct_nontrivial"] = len(seen)
        stats["clauses"][name] = st
        stats["evaluations"] += st["evaluations"]
        stats["distinct_nontrivial"] += len(seen)
        if rc:
            break
    stats["violations"] = 1 if rc == 1 else 0
    if a.stats:
        json.dump(stats, open(a.stats, "w"), indent=1)
    print("%s: %d cases, %d distinct non-trivial, %.1f s" % (prop, stats["evaluations"], stats["distinct_nontrivial"],
                                                          time.time() - t0))
    return rc
