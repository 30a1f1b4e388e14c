"""Shared driver: runs one check, writes its evidence, prints verdict lines.

A check module (checks/<id>.py) exposes
    PROPERTY = "E02"; LEVEL = "other"
    def run(ctx): ...
and reports through ctx:
    ctx.violation(key, where, message)   key is stable across line moves
    ctx.count(name, n=1), ctx.note(name, value), ctx.sample(text)
    ctx.require(cond, message)           analysis error (exit 2) when false
"""
import importlib
import json
import os
import sys
import tempfile
import time
import traceback

from . import build
from .build import VERIF, AnalysisError

KNOWN = os.path.join(VERIF, "known_findings.txt")


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.viol = {}
        self.counts = {}
        self.notes = {}
        self.samples = []
        self.assumptions = []
        self.obl = None
        self.undecided = {}

    def parts(self, todo, procs=8):
        """Run independent sub-analyses (name, function, *args) in processes of
        their own.  One that meets a construct it cannot analyse is reported as
        undecided, in the output and in the evidence, and the others count."""
        import pickle
        import re
        import signal
        only = os.environ.get("GA_PARTS")           # development aid
        if only:
            todo = [x for x in todo if re.search(only, x[0])]
        running, results, queue = {}, {}, list(enumerate(todo))
        while queue or running:
            while queue and len(running) < procs:
                i, (name, fn, *args) = queue.pop(0)
                out = tempfile.TemporaryFile()
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    c = Ctx(self.prop, self.tier)
                    err = None
                    try:
                        fn(c, *args)
                    except AnalysisError as e:
                        err = str(e) or "analysis error"
                    except RecursionError:
                        err = "recursion limit"
                    except Exception:
                        err = "internal error: " + traceback.format_exc()
                    pickle.dump((c.viol, c.counts, c.notes, c.samples, c.assumptions, c.undecided, err), out)
                    out.flush()
                    os._exit(0)
                running[pid] = (i, name, out)
            pid, status = os.wait()
            if pid not in running:
                continue
            i, name, out = running.pop(pid)
            out.seek(0)
            try:
                results[i] = (name, pickle.load(out))
            except Exception:
                results[i] = (name, ({}, {}, {}, [], [], {}, "sub-analysis ended with status %d" % status))
            out.close()
        bad = 0
        for i in sorted(results):
            name, (viol, counts, notes, samples, assumptions, und, err) = results[i]
            for k, v in viol.items():
                self.viol.setdefault(k, v)
            for k, v in counts.items():
                self.count(k, v)
            for k, v in notes.items():
                if k in self.notes and isinstance(v, int) and isinstance(self.notes[k], int):
                    self.notes[k] += v
                elif k in self.notes and isinstance(v, list):
                    self.notes[k] = self.notes[k] + v
                else:
                    self.notes[k] = v
            for x in samples:
                self.sample(x)
            for x in assumptions:
                self.assume(x)
            self.undecided.update(und)
            if err is not None:
                self.undecided[name] = err
                bad += 1
        if bad == len(todo):
            raise AnalysisError("no part could be analysed: %s" % "; ".join("%s: %s" % x for x in self.undecided.items()))

    def violation(self, key, where, message):
        self.viol.setdefault(key, (where, message))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def note(self, name, value):
        self.notes[name] = value

    def sample(self, s, cap=12):
        if len(self.samples) < cap:
            self.samples.append(s)

    def require(self, cond, message):
        if not cond:
            raise AnalysisError(message)

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)


def load_known(prop):
    """finding: property=<id> key=<key> | <description>"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.rstrip("\n")
            if not line.startswith("finding: "):
                continue
            head, _, desc = line[len("finding: "):].partition(" | ")
            p, _, k = head.partition(" key=")
            if p.strip() == "property=" + prop:
                out[k.strip()] = desc.strip()
    return out


def main(argv):
    prop = argv[0]
    tier = "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    t0 = time.time()
    sys.setrecursionlimit(20000)
    ctx = Ctx(prop, tier)
    try:
        mod = importlib.import_module("checks." + prop.lower())
        mod.run(ctx)
    except AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s internal error" % prop)
        return 2
    known = load_known(prop)
    new = {}
    for k, (where, msg) in sorted(ctx.viol.items()):
        if k in known:
            print("KNOWN-FINDING: property=%s %s: %s [%s]" % (prop, where, msg, known[k]))
        else:
            new[k] = (where, msg)
    cov = dict(ctx.counts)
    cov.update(ctx.notes)
    if ctx.samples:
        cov["samples"] = ctx.samples
    if ctx.undecided:
        cov["undecided"] = ctx.undecided
        for k, e in ctx.undecided.items():
            print("UNDECIDED property=%s %s: %s" % (prop, k, e.strip().splitlines()[-1] if e.strip() else e))
    level = mod.LEVEL
    cov["explanation"] = mod.EXPLANATION
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": level, "coverage": cov, "assumptions": ctx.assumptions,
          "wall_s": round(time.time() - t0, 3), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    if new:
        rd = os.path.join(VERIF, "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, prop + ".txt")
        with open(path, "w") as f:
            f.write("property %s, repo %s\nre-run: cd /verif && %s\n\n" % (
                prop, build.REPO, "python3 check.py %s --tier %s" % (prop, tier)))
            for k, (where, msg) in new.items():
                f.write("%s\n    %s\n    key=%s\n" % (where, msg, k))
        for k, (where, msg) in new.items():
            print("  %s: %s\n      key=%s" % (where, msg, k))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("OK property=%s %s (%.1fs)" % (prop, json.dumps(ctx.counts), time.time() - t0))
    return 0
