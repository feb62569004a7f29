"""Running one check: obligations, violations, evidence, known findings."""

import json
import os
import sys
import time
import traceback

from .program import AlwaysFails, AnalysisError, Program
from .infer import Infer
from . import paths
from .exprs import Engine
from .models import DATA_MODULES, protocol_models
from .state import *
from .terms import *
from .paths import Exc
from .pretty import pp, cond

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation:
    def __init__(self, rule, construct, where, message, trace=()):
        self.rule = rule
        self.construct = construct
        self.where = where
        self.message = message
        self.trace = list(trace)

    @property
    def key(self):
        return f"{self.rule}|{self.construct}"


class Check:
    """One run of the rules of one property."""

    def __init__(self, pid, tier="quick", repo=None):
        self.pid = pid
        self.tier = tier
        self.prog = Program(repo) if repo else Program()
        self._inf = None
        self.violations = []
        self.counts = {}
        self.samples = []
        self.functions = set()
        self.assumptions = []
        self.rules = []
        self.passed = {}

    @property
    def inf(self):
        if self._inf is None:
            self._inf = Infer(self.prog)
        return self._inf

    @inf.setter
    def inf(self, v):
        self._inf = v

    # -- recording --------------------------------------------------------

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def ok(self, rule, construct, n=1):
        """An obligation that was discharged."""
        self.count("obligations", n)
        self.count("discharged", n)
        k = (rule, construct)
        self.passed[k] = self.passed.get(k, 0) + n

    def bad(self, rule, construct, where, message, trace=()):
        self.count("obligations")
        v = Violation(rule, construct, where, message, trace)
        if all(w.key != v.key for w in self.violations):
            self.violations.append(v)

    def expect(self, holds, rule, construct, where, message, trace=()):
        if holds:
            self.ok(rule, construct)
        else:
            self.bad(rule, construct, where, message, trace)
        return holds

    def floor(self, what, n):
        """The rule must have found at least n instances of `what`."""
        have = self.counts.get(what, 0)
        if have < n and not self.violations:
            raise AnalysisError(
                f"only {have} {what}, expected at least {n}: the rule has "
                f"lost its anchors")

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    # -- path analysis ----------------------------------------------------

    def engine(self, opaque=None, protocol=True, ext=None, join=True):
        o = dict(protocol_models(self.prog)) if protocol else {}
        o.update(opaque or {})
        it = Engine(self.inf, opaque=o, ext=ext or {})
        if join:
            it.joinmods = DATA_MODULES
        return it

    def used(self, it):
        """Record what a path analysis covered."""
        self.functions |= set(it.inlined)
        self.count("abstract steps", it.steps)

    def trace(self, st, v=None, n=40):
        out = ["condition: " + c for c in cond(st)][-n:]
        if v is not None:
            out.append("result: " + (repr(v) if isinstance(v, Exc)
                                     else pp(v, st)))
        return out


def known_findings(pid):
    """{key: text} of the findings recorded and not repaired."""
    out = {}
    p = os.path.join(ROOT, "known-findings.txt")
    if not os.path.exists(p):
        return out
    for line in open(p):
        line = line.strip()
        if not line.startswith("finding:"):
            continue
        parts = line[len("finding:"):].strip().split(" ", 2)
        if parts[0] == f"property={pid}" and len(parts) == 3:
            out[parts[1].removeprefix("key=").replace("%20", " ")] = parts[2]
    return out


def write_evidence(c, wall, status, seed, outdir):
    cov = {
        "explanation": " ".join(c.rules),
        "rules": c.rules,
        "functions_analysed": len(c.functions),
        "functions": sorted(c.functions)[:120],
        "modules_parsed": len(c.prog.modules),
        "source_digest": c.prog.digest,
        "counts": c.counts,
        "obligations_by_rule": {
            f"{r}: {k}": n for (r, k), n in sorted(c.passed.items())[:200]},
        "samples": c.samples,
        "status": status,
        "violations_found": [
            {"rule": v.rule, "construct": v.construct, "where": v.where,
             "message": v.message, "trace": v.trace} for v in c.violations],
    }
    ev = {"property": c.pid, "tier": c.tier, "seed": seed, "level": "other",
          "coverage": cov, "assumptions": c.assumptions,
          "wall_s": round(wall, 3), "violations": len(c.violations)}
    os.makedirs(outdir, exist_ok=True)
    p = os.path.join(outdir, f"{c.pid}.json")
    with open(p, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    return p


def run(pid, func, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    outdir = os.environ.get("SA_EVIDENCE") or os.path.join(
        ROOT, "evidence")
    c = Check(pid, tier)
    try:
        func(c)
    except AlwaysFails as err:
        c.bad("no internal error", err.what, str(err.exc.where),
              f"this fails with {err.exc.cls.split('.')[-1]} whenever it is "
              "done")
    except Exception as err:
        if not isinstance(err, AnalysisError):
            traceback.print_exc()
        print(f"ANALYSIS-BROKEN property={pid} {err!r}", file=sys.stderr)
        if not c.violations:
            write_evidence(c, time.time() - t0, "analysis broken", seed,
                           outdir)
            return 2
    known = known_findings(pid)
    new = [v for v in c.violations if v.key not in known]
    old = [v for v in c.violations if v.key in known]
    for v in old:
        print(f"KNOWN-FINDING: property={pid} {known[v.key]}")
    status = "violated" if new else "held"
    vp = os.path.join(outdir, f"{pid}.violations.txt")
    if os.path.exists(vp):
        os.remove(vp)
    write_evidence(c, time.time() - t0, status, seed, outdir)
    if new:
        rp = os.path.join(outdir, f"{pid}.violations.txt")
        with open(rp, "w") as f:
            for v in new:
                f.write(f"rule: {v.rule}\nconstruct: {v.construct}\n"
                        f"where: {v.where}\n{v.message}\n")
                for x in v.trace:
                    f.write(f"    {x}\n")
                f.write("\n")
        for v in new[:20]:
            print(f"{v.where}: [{v.rule}] {v.construct}: {v.message}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    print(f"OK property={pid} obligations={c.counts.get('obligations', 0)} "
          f"functions={len(c.functions)} wall={time.time() - t0:.1f}s")
    return 0
