"""C28: paragraphs, lines, levels and visual order together."""
from common import *
import seg, c_bidi

INV = "Tiles EndsAtOpportunity ShownOnce CutsMatterLittle PlainStays HardBreaks"
def model(n, small, flaw):
    return tlc("MC_Layout", f'SPECIFICATION Spec\nCONSTANTS\n  N = {n}\n  Small = {"TRUE" if small else "FALSE"}\n  Flaw = "{flaw}"\n  MaxDepth = 4\n  MaxPairs = 2\nINVARIANTS {INV}\nCHECK_DEADLOCK FALSE\n')

def wrong(r, rnd):
    if not r["paras"]: return None
    g = rnd.choice(r["paras"]); k = rnd.randrange(7); l = rnd.choice(g["lines"]) if g["lines"] else None
    if k == 0: g["len"] += rnd.choice((-1, 1))
    elif k == 1: g["pl"] ^= 1
    elif not l: return None
    elif k == 2: l["to"] += rnd.choice((-1, 1))
    elif k < 5 and l["lev"]:
        i = rnd.randrange(len(l["lev"])); l["lev"][i] = 0 if l["lev"][i] < 0 else l["lev"][i] + 1
    elif len(l["out"]) > 1:
        i, j = rnd.sample(range(len(l["out"])), 2)
        if rnd.randrange(2) and len({l["out"][i], l["out"][j], c_bidi.mirror(l["out"][i]), c_bidi.mirror(l["out"][j])}) == 2:
            l["out"][i], l["out"][j] = l["out"][j], l["out"][i]
        else: del l["out"][i]
    return r

def recorded(chk, cmds):
    out = run_drivers(cmds, cap=10**9)
    for f in out.fails: chk.fail(f)
    recs = [s for s in out.samples if "paras" in s]
    alt = altered(recs, wrong, 80); every = recs + [a for i, a in alt]
    num = {id(r): i for i, r in enumerate(every)}; rej = []
    parts = [every[i::NCPU] for i in range(NCPU)]
    bc = expand("bc")
    names = seg.ALGS["line"][1]
    def one(k):
        cps = sorted({c for r in parts[k] for c in r["t"]})
        idx = {c: i + 1 for i, c in enumerate(cps)}
        chars = [{"lp": q, "bc": bc[c] if c < NCP else "L", "br": c_bidi.code(c), "cp": c if c < 2**31 else c - 2**32, "mi": c_bidi.mirror(c) if c < 2**31 else c - 2**32}
                 for c, q in zip(cps, seg.prop_at(names, [min(c, NCP - 1) for c in cps]))]
        sg = lambda v: [x if x < 2**31 else x - 2**32 for x in v]
        rows = [dict(r, t=[idx[c] for c in r["t"]], paras=[dict(p, lines=[dict(l, out=sg(l["out"])) for l in p["lines"]]) for p in r["paras"]]) for r in parts[k]]
        p = os.path.join(scratch(), f"trace-layout{k}.json"); po = p + ".out"
        with open(p, "w") as f: json.dump({"chars": chars, "recs": rows}, f)
        r = tlc("Trace_Layout", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", env={"TRACE": p, "TRACE_OUT": po}, workers=1, heap="2g")
        if not os.path.exists(po): raise CheckError("trace validation did not finish\n" + r.out[-3000:])
        with open(po) as f: return r, json.load(f)
    seen, nb = {}, 0
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for k, (r, o) in enumerate(ex.map(one, range(NCPU))):
            chk.states += r.distinct; chk.transitions += r.generated
            for a, n in o["seen"].items(): seen[a] = seen.get(a, 0) + n
            for b in o["bad"]:
                rej.append(num[id(parts[k][b["rec"]])])
                if rej[-1] >= len(recs): continue
                nb += 1
                if len(chk.fails) < 30: chk.fail({"kind": "recorded layout rejected: " + b["ok"], "run": parts[k][b["rec"]], "want": b["want"]})
    noticed(chk, recs, alt, rej)
    chk.traces += len(recs); chk.samples += recs[:2]
    chk.cov["validated_traces"] = dict(seen, layouts=len(recs))
    chk.log("trace validation", len(recs), "layouts,", nb, "rejected", seen)

def C28(chk):
    chk.model(f"Layout: {INV}; all texts of up to {4 if THOROUGH else 3} characters, every filling, every direction", model(4 if THOROUGH else 3, True, "none"))
    chk.model("the same over the larger alphabet, up to 3 characters" if THOROUGH else "the same over the larger alphabet, up to 2 characters", model(3 if THOROUGH else 2, False, "none"))
    for flaw in ("alone", "rest"):
        if "is violated" not in model(3, True, flaw).out: raise CheckError(f"the model does not notice the flaw {flaw}")
    chk.cov["flaws_noticed_by_the_model"] = ["alone", "rest"]
    bt = c_bidi.tables(); lt = seg.tables(chk, "line", 2)[0]
    drv = driver("layout.c")
    cmds = lambda mode, arg: [[drv, bt, mode, str(arg), str(i), str(NCPU), str(SEED), lt] for i in range(NCPU)]
    def go(mode, arg, what): c_bidi.settle(chk, run_drivers(cmds(mode, arg)), what)
    go("exhaust", 5 if THOROUGH else 4, "all texts of up to %d characters of 20, random fillings" % (5 if THOROUGH else 4))
    go("random", 4000000 if THOROUGH else 250000, "random texts of several paragraphs and lines")
    go("long", 100000 if THOROUGH else 8000, "long texts")
    recorded(chk, cmds("record", 800 if THOROUGH else 60))
    chk.assumptions += ["mirroring at even levels is accepted here (known finding of C23)"]
