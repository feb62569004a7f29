"""Parts of a check that run in parallel: each on its own copy of the
analysis, with the results merged."""

import multiprocessing as mp
import sys
import traceback

from .program import AnalysisError

_job = []


def child(i):
    c, func, parts = _job
    sys.setrecursionlimit(20000)
    n = len(c.samples)
    try:
        func(c, *parts[i])
    except AnalysisError as e:
        return ("broken", str(e), c.violations)
    except Exception:
        return ("broken", traceback.format_exc(), c.violations)
    return ("ok", c.violations, c.counts, c.passed, c.functions,
            c.assumptions, c.rules, c.samples[n:])


def parallel(c, func, parts, procs=8):
    """func(c, *part) for each part, in processes of their own. A part that
    breaks down does not hide what the others found."""
    c.inf
    base = dict(c.counts)
    bpass = dict(c.passed)
    _job[:] = [c, func, parts]
    broken = []
    if len(parts) == 1:
        return func(c, *parts[0])
    with mp.get_context("fork").Pool(min(procs, len(parts)),
                                     maxtasksperchild=1) as pool:
        results = pool.map(child, range(len(parts)), 1)
    for r in results:
        for v in r[1] if r[0] == "ok" else r[2]:
            if all(w.key != v.key for w in c.violations):
                c.violations.append(v)
        if r[0] == "broken":
            broken.append(r[1])
            continue
        for mine, theirs, start in ((c.counts, r[2], base),
                                    (c.passed, r[3], bpass)):
            for k, n in theirs.items():
                d = n - start.get(k, 0)
                if d:
                    mine[k] = mine.get(k, 0) + d
        c.functions |= r[4]
        for xs, ys in ((c.assumptions, r[5]), (c.rules, r[6]),
                       (c.samples, r[7])):
            for x in ys:
                if x not in xs:
                    xs.append(x)
    del c.samples[12:]
    if broken:
        raise AnalysisError("; ".join(broken))
