"""Runner: obligations, verdicts, evidence, known findings."""
import json
import multiprocessing
import os
import sys
import time
import traceback
from lib import *
import interp as _interp
AbortPath = _interp.AbortPath

EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known-findings.txt")


def known_findings(pid):
    """lines `known: property=<id> key=<obligation key> -- <what fails>`"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, _, what = rest.partition(" -- ")
                out[key[len("key="):].strip()] = what.strip()
    return out


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.oblig = 0
        self.ok = 0
        self.fail = []       # (key, text)
        self.groups = {}
        self.units = {}
        self.fns = {}
        self.loops = {}
        self.stmts = 0
        self.notes = []
        self.samples = []
        self.minimum = {}

    # ---------------------------------------------------------------- obligations
    def check(self, key, cond, detail="", where=""):
        """one obligation.  key: stable identifier (rule/instance)"""
        self.oblig += 1
        g = key.split("/")[0]
        self.groups[g] = self.groups.get(g, 0) + 1
        if cond:
            self.ok += 1
            return True
        d = detail() if callable(detail) else detail
        self.fail.append((key, where, d))
        return False

    def equal(self, key, got, want, where=""):
        """got and want are the same algebraic expression"""
        if isinstance(got, (MatV, SpV, list, tuple)) or isinstance(want, (MatV, SpV, list, tuple)):
            g, w = _flat(got), _flat(want)
            if len(g) != len(w):
                return self.check(key, False, "has %d entries, expected %d" % (len(g), len(w)), where)
            bad = [k for k in range(len(g)) if not _eq(g[k], w[k])]
            return self.check(key, not bad, lambda: "entry %s is\n      %s\n    expected\n      %s" % (bad[0], show(g[bad[0]]), show(w[bad[0]])) + (" (and %d more entries)" % (len(bad) - 1) if len(bad) > 1 else ""), where)
        return self.check(key, _eq(got, want), lambda: "is\n      %s\n    expected\n      %s" % (show(got), show(want)), where)

    def implied(self, key, pc, fact, where="", detail=""):
        return self.check(key, implies(pc, fact) or decide.entails(pc, fact), lambda: detail or "condition\n      %s\n    does not imply\n      %s" % (show(pc), show(fact)), where)

    def nodep(self, key, got, pred, what, where=""):
        """no scalar of got depends on an atom satisfying pred"""
        bad = []
        for v in _flat(got):
            s = set()
            for x in _scalars(v):
                s |= depnames(x)
            bad += [n for n in s if pred(n)]
        return self.check(key, not bad, lambda: "depends on %s: %s" % (what, ", ".join(sorted(set(bad))[:5])), where)

    def no_events(self, it, key, kinds=None):
        evs = [e for e in it.events if kinds is None or e[0] in kinds]
        self.check(key, not evs, lambda: "; ".join("%s: %s at %s" % e for e in evs[:4]), evs[0][1] if evs else "")

    def require(self, what, n, minimum):
        """an instance count must not fall below what was confirmed by hand"""
        self.minimum[what] = n
        if n < minimum:
            raise AnalysisError("%s: %d instances, at least %d expected" % (what, n, minimum))

    def pmap(self, fn, items):
        """fn(subctx, item) for each item in worker processes; obligations and coverage are merged"""
        items = list(items)
        if os.environ.get("PM_SERIAL") or len(items) == 1:
            for x in items:
                fn(self, x)
            return
        global _JOB
        _JOB = (self, fn, items)
        err = None
        sys.stdout.flush()
        with multiprocessing.get_context("fork").Pool(min(8, len(items))) as pool:
            for sub, e in pool.imap(_job, range(len(items)), 1):
                self.oblig += sub["oblig"]
                self.ok += sub["ok"]
                self.fail += sub["fail"]
                self.notes += sub["notes"]
                self.stmts += sub["stmts"]
                for k in ("groups", "units", "fns"):
                    mine = getattr(self, k)
                    for n, v in sub[k].items():
                        mine[n] = mine.get(n, 0) + v
                for n, v in sub["minimum"].items():
                    self.minimum[n] = self.minimum.get(n, 0) + v
                self.loops.update(sub["loops"])
                err = err or e
        if err:
            raise AnalysisError(err)

    def count(self, what, n=1):
        self.minimum[what] = self.minimum.get(what, 0) + n

    def cover(self, it, unit):
        """book what the interpreter visited"""
        self.units[unit] = self.units.get(unit, 0) + 1
        for fid, n in it.visited.items():
            f = it.prog.functions[fid]
            if f.get("mine"):
                self.fns[f["q"]] = self.fns.get(f["q"], 0) + n
        self.stmts += it.nstmts
        for k, v in it.loops_seen.items():
            self.loops[k] = v


_JOB = None


def _aborted(ctx, e, what):
    """no execution gets through: every one runs into an invalid access, which is the violation"""
    ev = e.args[0] if e.args else None
    if ev is None:
        return "no path of the analysed code returns (%s)" % what
    ctx.check("completes/%s" % what, False, "every execution ends in %s: %s" % (ev[0], ev[2]), ev[1])
    return None


def _job(k):
    parent, fn, items = _JOB
    sub = Ctx(parent.pid, parent.tier)
    err = None
    try:
        fn(sub, items[k])
    except (AnalysisError, ir.FrontendError, Unsupported) as e:
        err = "%s: %s" % (type(e).__name__, e)
    except AbortPath as e:
        err = _aborted(sub, e, str(items[k]))
    except Exception:
        err = traceback.format_exc()
    d = {k: getattr(sub, k) for k in ("oblig", "ok", "notes", "stmts", "groups", "units", "fns", "minimum", "loops")}
    d["fail"] = [(str(a), str(b), str(c)) for a, b, c in sub.fail]
    return d, err


def _eq(a, b):
    if isinstance(a, ADVal) or isinstance(b, ADVal):
        return a == b
    if a is None or b is None:
        return a is b
    if isinstance(a, (str, Conflict)) or isinstance(b, (str, Conflict)):
        return a == b
    return decide.equal(a, b)


def _scalars(v):
    if isinstance(v, ADVal):
        return _scalars(v.v) + [y for x in v.d for y in _scalars(x)]
    return [v]


def depnames(p):
    s = support_names(P(p)) if not isinstance(p, (str, type(None))) else set()
    return s


def support_names(p):
    acc = set()
    support(p, acc, set())
    return {n if isinstance(n, str) else str(n) for n in acc}


def _flat(x):
    if isinstance(x, SpV):
        x = x.dense()
    if isinstance(x, MatV):
        return list(x.d)
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            out += _flat(y)
        return out
    return [x]


def show(x):
    if isinstance(x, Poly):
        return pstr(x, 600)
    return repr(x)[:800]


def main(pid, fn, meta):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    t0 = time.time()
    ctx = Ctx(pid, tier)
    os.makedirs(EVID, exist_ok=True)
    err = None
    try:
        fn(ctx)
        if ctx.oblig == 0:
            raise AnalysisError("no obligation was generated")
    except (AnalysisError, ir.FrontendError, Unsupported) as e:
        err = "%s: %s" % (type(e).__name__, e)
    except AbortPath as e:
        err = _aborted(ctx, e, "")
    except Exception:
        err = traceback.format_exc()
    known = known_findings(pid)
    new, seen = [], []
    for key, where, d in ctx.fail:
        (seen if key in known else new).append((key, where, d))
    cov = {
        "obligations": ctx.oblig, "discharged": ctx.ok,
        "checker_cmd": "python3 /verif/checks/run.py " + pid,
        "trusted_base": meta["trusted"],
        "explanation": meta["explanation"],
        "rules": ctx.groups,
        "translation_units": ctx.units,
        "functions_analysed": len(ctx.fns),
        "function_contexts": sum(ctx.fns.values()),
        "statements_interpreted": ctx.stmts,
        "loops": ctx.loops,
        "functions": sorted(ctx.fns)[:400],
        "instances": ctx.minimum,
        "known_findings_seen": [k for k, _, _ in seen],
        "notes": ctx.notes,
        "exhaustive": False,
    }
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": meta["level"], "coverage": cov,
          "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if err:
        cov["error"] = err
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s [%s]: %d obligations in %d rules, %d functions (%d contexts), %d statements, %d loops, %.1f s" % (
        pid, tier, ctx.oblig, len(ctx.groups), len(ctx.fns), sum(ctx.fns.values()), ctx.stmts, len(ctx.loops), time.time() - t0))
    for k, v in sorted(ctx.groups.items()):
        print("   rule %-40s %4d instances" % (k, v))
    for key, where, d in seen:
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, known[key], key))
    if new:
        rp = os.path.join(EVID, pid + ".violation.txt")
        with open(rp, "w") as f:
            for key, where, d in new:
                f.write("rule/instance: %s\n  at: %s\n    %s\n\n" % (key, where, d))
        for key, where, d in new[:12]:
            print("  broken: %s\n    at %s\n    %s" % (key, where, d))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if err:
        print("ANALYSIS-BROKEN property=%s\n%s" % (pid, err))
        return 2
    print("HOLDS property=%s" % pid)
    return 0
