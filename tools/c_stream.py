"""C27: text that arrives in pieces."""
from common import *
import seg, c_text

def model(chk, n, small, flaw):
    r = tlc("MC_Stream", f'SPECIFICATION Spec\nCONSTANTS\n  N = {n}\n  Small = {"TRUE" if small else "FALSE"}\n  Flaw = "{flaw}"\nINVARIANTS ASound BSound CSound NoDelay Complete\nPROPERTY Final\nCHECK_DEADLOCK FALSE\n')
    return r

def wrong(r, rnd):
    if not r["ev"]: return None
    e = rnd.choice(r["ev"]); k = rnd.choice("abc")
    if e[k] and rnd.randrange(2): del e[k][rnd.randrange(len(e[k]))]
    elif e[k]: e[k][rnd.randrange(len(e[k]))] ^= 1
    else: e[k].append(1)
    return r

def recorded(chk, cmd, n):
    out = run_drivers([cmd("record", n, 0, 1)], cap=10**9)
    for f in out.fails: chk.fail(f)
    recs = out.samples
    # every codepoint that a decoder could make of these bytes
    cps = {65533}
    for r in recs:
        b = bytes(r["t"])
        for i in range(len(b)):
            for k in range(1, 5):
                try: cps |= {ord(x) for x in b[i:i + k].decode("utf-8")}
                except UnicodeDecodeError: pass
    cps = sorted(cps)
    simple, special = ucd("case_simple"), ucd("case_special")
    chars = []
    for c, p in zip(cps, seg.prop_at(["gcb", "extpict"], cps)):
        up = simple.get(str(c), [-1] * 3)[0]
        sp = special.get(str(c), [])
        chars.append(dict(p, cp=c, up=sp[0] if sp and sp[0] else [up if up >= 0 else c]))
    alt = altered(recs, wrong, 60)
    p = os.path.join(scratch(), "trace-stream.json"); po = p + ".out"
    with open(p, "w") as f: json.dump({"chars": chars, "recs": recs + [a for i, a in alt]}, f)
    r = tlc("Trace_Stream", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", env={"TRACE": p, "TRACE_OUT": po})
    if not os.path.exists(po): raise CheckError("trace validation did not finish\n" + r.out[-3000:])
    with open(po) as f: o = json.load(f)
    noticed(chk, recs, alt, [b["rec"] for b in o["bad"]])
    o["bad"] = [b for b in o["bad"] if b["rec"] < len(recs)]
    chk.states += r.distinct; chk.transitions += r.generated; chk.traces += len(recs)
    chk.cov["validated_traces"] = dict(o["seen"], traces=len(recs))
    chk.log("trace validation", len(recs), "traces,", len(o["bad"]), "rejected", o["seen"])
    for b in o["bad"][:10]: chk.fail({"kind": "trace rejected", "run": recs[b["rec"]], "want": b["want"]})
    chk.samples += recs[:2]

def C27(chk):
    chk.model("Stream: readers of a text in portions obtain what the whole has; all texts of up to 3 tokens, all portions", model(chk, 3, not THOROUGH, "none"))
    for flaw in ("eager", "forget", "drop"):
        if "is violated" not in model(chk, 3, True, flaw).out: raise CheckError(f"the model does not notice the flaw {flaw}")
    chk.cov["flaws_noticed_by_the_model"] = ["eager", "forget", "drop"]
    t = c_text.tables(chk); g = seg.tables(chk, "grapheme", 3)[0]
    drv = driver("stream.c")
    cmd = lambda mode, arg, i, n: [drv, t, mode, str(arg), str(i), str(n), str(SEED), g]
    def go(mode, arg, what): chk.impl(what, run_drivers([cmd(mode, arg, i, NCPU) for i in range(NCPU)]))
    go("exhaust", 4 if THOROUGH else 3, "all texts of up to %d tokens in all portions" % (4 if THOROUGH else 3))
    go("random", 2000000 if THOROUGH else 150000, "random byte strings in random portions")
    go("pump", 30000 if THOROUGH else 2500, "long repetitions in portions")
    recorded(chk, cmd, 4000 if THOROUGH else 700)
    chk.assumptions += ["the tables of the grapheme, word, case and UTF-8 specifications are those the other checks use"]
