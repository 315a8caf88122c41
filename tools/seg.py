"""Segmentation: specification -> tables -> replay, recorded traces -> TLC."""
import json, os, random
from common import *

ALGS = {"grapheme": ("Grapheme", ["gcb", "extpict"]),
        "word": ("Word", ["wb", "extpict"]),
        "sentence": ("Sentence", ["sb"]),
        "line": ("Line", ["lb", "gc", "eaw", "extpict"])}

def ranges(names):
    """maximal ranges of codepoints with equal values of all the properties"""
    cuts = {0, NCP}
    for nme in names:
        for a, b, v in ucd(nme): cuts.add(a); cuts.add(b + 1)
    cuts = sorted(cuts)
    its = [iter(ucd(nme)) for nme in names]; cur = [next(i) for i in its]
    for a, b in zip(cuts, cuts[1:]):
        for k in range(len(names)):
            while cur[k][1] < a: cur[k] = next(its[k])
        yield a, b - 1, tuple(c[2] for c in cur)

def seg_cfg(n): return f"""SPECIFICATION Spec
CONSTANTS
  Alphabet <- All
  N = {n}
INVARIANTS BimachineAgrees Restartable Progress CRLFStaysTogether
CHECK_DEADLOCK FALSE
"""

_tabs = {}
def tables(chk, alg, n, extra_env=None):
    """TLC explores the specification and evaluates its tables"""
    if alg in _tabs: return _tabs[alg]
    mod, props = ALGS[alg]
    rg = list(ranges(props))
    combos = sorted({r[2] for r in rg}, key=str)
    d = scratch(); pin = os.path.join(d, alg + "-combos.json"); pout = os.path.join(d, alg + "-tables.json")
    with open(pin, "w") as f: json.dump([dict(zip(props, c)) for c in combos], f)
    r = tlc("MC_" + mod, seg_cfg(n), env={"EMIT_IN": pin, "EMIT_OUT": pout})
    chk.model(f"{mod}: rules = bimachine, restartable, progress, CR LF; all texts up to {n} classes", r)
    with open(pout) as f: o = json.load(f)
    t = o["tables"]; cmap = dict(zip(combos, o["classof"]))
    full = t["classes"]
    bad = [c for c in cmap.values() if c not in full]
    if bad: raise CheckError(f"unexpected property combination for {alg}: {bad}")
    live = [i for i, c in enumerate(full) if c in set(cmap.values())]    # classes that have members
    t["classes"] = [full[i] for i in live]
    for k in ("lnext", "rnext"): t[k] = [[row[i] for i in live] for row in t[k]]
    cidx = {c: i for i, c in enumerate(t["classes"])}
    dflt = {"gcb": "Other", "wb": "Other", "sb": "Other", "lb": "XX", "gc": "Cn", "eaw": "N", "extpict": 0}
    dtup = tuple(dflt[p] for p in props)
    runs = []
    for a, b, v in rg:
        k = cidx[cmap[v]]
        if runs and runs[-1][2] == k and runs[-1][1] == a - 1: runs[-1][1] = b
        else: runs.append([a, b, k])
    p = os.path.join(d, alg + ".tab")
    flat = lambda m: " ".join(str(x) for row in m for x in row)
    with open(p, "w") as f:
        f.write(f"{len(t['classes'])} {len(t['lnext'])} {len(t['rnext'])} {cidx[cmap[dtup]]}\n")
        f.write(flat(t["lnext"]) + "\n" + flat(t["rnext"]) + "\n" + flat(t["brk"]) + "\n")
        f.write(f"{len(runs)}\n" + "\n".join("%d %d %d" % tuple(x) for x in runs) + "\n")
    chk.cov.setdefault("bimachines", []).append({"alg": alg, "classes": len(t["classes"]), "left_states": len(t["lnext"]), "right_states": len(t["rnext"]), "property_combinations": len(combos)})
    _tabs[alg] = (p, t, rg, cmap)
    return _tabs[alg]

def shards(drv, tab, api, mode, arg, n=NCPU):
    return [[drv, tab, api, mode, str(arg), str(i), str(n), str(SEED)] for i in range(n)]

def prop_at(names, cps):
    import bisect
    out = []
    for c in cps:
        rec = {}
        for nme in names:
            t = ucd(nme)
            lo, hi = 0, len(t) - 1
            while lo < hi:
                m = (lo + hi) // 2
                if t[m][1] < c: lo = m + 1
                else: hi = m
            rec[nme] = t[lo][2]
        out.append(rec)
    return out

def wrong(r, rnd):
    """another segmentation of the same text"""
    n = len(r["t"])
    if n < 2: return None
    k = rnd.randrange(1, n)
    r["b"] = sorted(set(r["b"]) ^ {k})
    return r

def validate(chk, alg, recs, what):
    """TLC checks recorded segmentations against the declarative rules.
    recs: [{"t":[cps], "b":[offsets]}]"""
    alt = altered(recs, wrong)
    n0, recs = len(recs), recs + [a for i, a in alt]
    mod, props = ALGS[alg]
    p = os.path.join(scratch(), f"trace-{alg}.json"); po = p + ".out"
    idx = {}; pl = []; rows = []
    for r in recs:
        row = []
        for c, q in zip(r["t"], prop_at(props, [min(x, NCP - 1) for x in r["t"]])):
            k = json.dumps(q, sort_keys=True)
            if k not in idx: idx[k] = len(pl) + 1; pl.append(q)
            row.append(idx[k])
        rows.append({"t": row, "b": r["b"]})
    with open(p, "w") as f: json.dump({"props": pl, "recs": rows}, f)
    r = tlc("Trace_" + mod, "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", env={"TRACE": p, "TRACE_OUT": po})
    if not os.path.exists(po): raise CheckError("trace validation did not finish\n" + r.out[-3000:])
    with open(po) as f: o = json.load(f)
    chk.states += r.distinct; chk.transitions += r.generated
    fired = {k: v for k, v in o["rules"].items()}
    recs = recs[:n0]; noticed(chk, recs, alt, [b["rec"] for b in o["bad"]])
    o["bad"] = [b for b in o["bad"] if b["rec"] < n0]
    chk.cov.setdefault("validated_traces", []).append({"what": what, "traces": len(recs), "boundaries_by_rule": fired})
    chk.traces += len(recs)
    chk.log("trace validation", what, len(recs), "traces,", len(o["bad"]), "rejected")
    return o["bad"], fired
