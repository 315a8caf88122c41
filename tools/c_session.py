"""C25: results depend only on the arguments."""
from common import *

def session(calls, leak, invs, post=None):
    cfg = ("SPECIFICATION Spec\nCONSTANTS\n  Fns = {\"f\", \"g\"}\n  Texts <- T2\n  Calls <- %s\n  Leak = \"%s\"\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n%s"
           % (calls, leak, invs, "POSTCONDITION Write\n" if post else "VIEW NoHistory\n"))
    return tlc("MC_Session", cfg, env={"OUT": post or ""}, workers=1 if post else NCPU)

def C25(chk):
    hist = os.path.join(scratch(), "hist.json")
    r = session("TwoOne", "none", "Pure SourceKept NoState Collect", hist)
    chk.model("two threads, two calls and one: Pure SourceKept NoState; every history written", r)
    chk.model("three threads, one call each: Pure SourceKept NoState", session("OneOneOne", "none", "Pure SourceKept NoState"))
    chk.model("one thread, three calls: Pure SourceKept NoState", session("Three", "none", "Pure SourceKept NoState"))
    if THOROUGH:
        chk.model("two threads, two calls each: Pure SourceKept NoState", session("TwoTwo", "none", "Pure SourceKept NoState"))
    # the histories that are replayed would show each of these flaws
    for leak in ("memo", "scratch", "source", "once", "classes"):
        r = session("TwoOne", leak, "SourceKept" if leak == "source" else "Pure")
        if "is violated" not in r.out: raise CheckError(f"the model does not notice the flaw {leak}\n" + r.out[-2000:])
    chk.cov["flaws_noticed_by_the_model"] = ["memo", "scratch", "source", "once", "classes"]
    with open(hist) as f: hs = json.load(f)
    random_ = __import__("random").Random(SEED); random_.shuffle(hs)
    if not THOROUGH: hs = hs[:8000]
    p = os.path.join(scratch(), "hist.txt")
    with open(p, "w") as f:
        for h in hs: f.write(" ".join(f"{e[0]}{e[1]}" + (f"{e[2]}{e[3][0]}" if e[1] == "b" else "") for e in h) + "\n")
    drv = driver("session.c")
    cmds = lambda d, mode, arg, n=NCPU, seed=SEED: [[d, mode, str(arg), str(i), str(n), str(seed), p] for i in range(n)]
    chk.impl("sequential histories: pairs of functions at one address, repetitions, random", run_drivers(cmds(drv, "history", 3000000 if THOROUGH else 150000)))
    for s in range(4 if THOROUGH else 1):
        chk.impl("histories of the specification, threads switched after exact numbers of instructions", run_drivers(cmds(drv, "schedule", 1, seed=SEED + s)))
    chk.impl("a whole call of another thread after every (or every few) instructions of a call", run_drivers(cmds(drv, "sweep", 20000 if THOROUGH else 600)))
    chk.impl("threads running freely", run_drivers(cmds(drv, "free", 2000000 if THOROUGH else 100000, 2)))
    chk.impl("threads running freely under ThreadSanitizer", run_drivers(cmds(driver("session.c", "tsan"), "free", 300000 if THOROUGH else 15000, 2)))
    # recorded sessions, judged by TLC
    for s in range(4 if THOROUGH else 1):
        o = run_drivers(cmds(drv, "record", 5000 if THOROUGH else 2500, 1, SEED + 100 + s), cap=10**9)
        for f in o.fails: chk.fail(f)
        calls, res, fresh, ev = {}, {}, [], []
        rid = lambda x: res.setdefault(x, len(res) + 1)
        for t, b, e, c, h, fr, kept, fn in o.samples:
            if c not in calls: calls[c] = len(calls) + 1; fresh.append(rid(fr))
            ev.append((b, {"t": t, "k": "b", "c": calls[c], "r": 0, "s": True}, fn))
            ev.append((e, {"t": t, "k": "e", "c": calls[c], "r": rid(h), "s": bool(kept)}, fn))
        ev.sort(key=lambda x: x[0])
        tp = os.path.join(scratch(), "trace-session.json")
        n = len(ev)      # altered calls at the end, every other event has to be rejected
        for c in range(1, min(40, len(fresh)) + 1):
            ev.append((0, {"t": 1, "k": "b", "c": c, "r": 0, "s": True}, ""))
            ev.append((0, {"t": 1, "k": "e", "c": c, "r": fresh[c - 1] + (c % 3 > 0), "s": c % 3 == 1}, ""))
        with open(tp, "w") as f: json.dump({"threads": 3, "fresh": fresh, "ev": [x[1] for x in ev]}, f)
        r = tlc("Trace_Session", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", env={"TRACE": tp, "TRACE_OUT": tp + ".out"}, workers=1)
        chk.model(f"recorded session of 3 threads, {len(o.samples)} calls", r)
        with open(tp + ".out") as f: v = json.load(f)
        rej = {k for k in v["bad"] if k >= n}; v["bad"] = [k for k in v["bad"] if k < n]
        if rej != set(range(n + 1, len(ev), 2)): raise CheckError("the trace specification accepts an altered call")
        chk.cov["altered_records_rejected"] = chk.cov.get("altered_records_rejected", 0) + len(rej)
        chk.traces += 1
        chk.cov.setdefault("recorded_sessions", []).append({"calls": len(o.samples), "overlapping": v["overlapping"]})
        for k in v["bad"][:10]: chk.fail({"kind": "recorded session rejected", "event": ev[k][1], "fn": ev[k][2]})
    chk.samples += [" ".join(f"{e[0]}{e[1]}" for e in h) for h in hs[:3]]
    chk.assumptions += ["a thread is switched away from at most three times within a call under exact scheduling", "the instruction is the unit of interleaving (x86 trap flag)"]
