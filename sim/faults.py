"""Fault plans drawn from a recorded fault-free execution."""
import random

import world as W


def pick(r, trace, allow=None, kinds=None, sticky=0.25, short=True):
    """One fault at a recorded operation.  `allow(op, rel, n)` restricts the
    candidates; returns a plan entry or None."""
    cand = [(op, rel, n) for op, rel, n in trace if op in W.FAULTS and (allow is None or allow(op, rel, n))]
    if not cand:
        return None
    # choose the operation kind first, so that frequent ones do not drown the rare ones
    by = {}
    for c in cand:
        by.setdefault((c[0], c[1]), []).append(c)
    op, rel, n = r.choice(by[r.choice(sorted(by))])
    ks = [k for k in W.FAULTS[op] if (kinds is None or k in kinds) and (short or k != "short")]
    if not ks:
        return None
    kind = r.choice(ks)
    f = {"op": op, "path": rel, "nth": n, "kind": kind}
    if kind in ("short", "torn"):
        f["arg"] = r.choice([0, 1, 1, 2, 7, 50]) if kind == "torn" else r.choice([1, 1, 2, 7, 50])
    elif kind in W.ERRNO and r.random() < sticky:
        if r.random() < 0.5:
            f["nth"] = 0
        else:
            seen = 0
            for o, p, c in trace:
                if p == rel and o in W.FAULTS:
                    seen += 1
                    if (o, c) == (op, n):
                        break
            f.update(op="*", nth=seen)
    return f


def picks(r, trace, k, **kw):
    out = []
    for _ in range(k):
        f = pick(r, trace, **kw)
        if f is not None and f not in out:
            out.append(f)
    return out


def describe(plan):
    return "; ".join("%s on %s (%s): %s" % (
        "every operation" if f["op"] == "*" else f["op"], f["path"],
        "always" if f["nth"] == 0 else ("from operation %d on" % f["nth"] if f["op"] == "*" else "occurrence %d" % f["nth"]),
        f["kind"]) for f in plan)
