"""C01-C03: the UTF-8 codec."""
from common import *

_tab = None
def u8_tables(chk, n):
    """explores UTF8.tla and writes the decoder automaton for the drivers"""
    global _tab
    if _tab: return _tab
    po = os.path.join(scratch(), "utf8.json")
    inv = "INVARIANTS DecoderAgrees Tiles Resynchronises ChunkIndependent RoundTrip\nCHECK_DEADLOCK FALSE\n"
    r = tlc("MC_UTF8", f"SPECIFICATION Spec\nCONSTANTS\n  N = {n}\n  Small = FALSE\n" + inv, env={"EMIT_OUT": po})
    chk.model(f"UTF8: decoder automaton = table 3-6, tiling, resynchronisation, chunks, round trip; all strings up to {n} boundary bytes", r)
    with open(po) as f: o = json.load(f)
    _tab = os.path.join(scratch(), "utf8.tab")
    with open(_tab, "w") as f: f.write(u8_text(o))
    chk.cov["decoder_states"] = len(o["need"])
    return _tab

def u8_text(o):
    return f"{len(o['need'])}\n" + " ".join(map(str, o["need"])) + "\n" + \
        "\n".join(" ".join(str(x) for e in row for x in e) for row in o["step"]) + "\n"

def small_model(chk):
    n = 6 if THOROUGH else 5
    inv = "INVARIANTS DecoderAgrees Tiles Resynchronises ChunkIndependent RoundTrip\nCHECK_DEADLOCK FALSE\n"
    r = tlc("MC_UTF8", f"SPECIFICATION Spec\nCONSTANTS\n  N = {n}\n  Small = TRUE\n" + inv)
    chk.model(f"UTF8: the same for all strings up to {n} bytes over a reduced alphabet", r)
    r = tlc_long("MC_UTF8", f"SPECIFICATION Spec\nCONSTANTS\n  N = 19\n  Small = FALSE\n" + inv, 400 if THOROUGH else 15)
    chk.model("UTF8: the same for random strings of up to 20 boundary bytes", r)

def go(chk, mode, arg, what):
    drv = driver("utf8.c")
    chk.impl(what, run_drivers([[drv, _tab, mode, str(arg), str(i), str(NCPU), str(SEED)] for i in range(NCPU)]))

def wrong(r, rnd):
    if "c" in r:
        k = rnd.randrange(3)
        if k == 0: r["n"] += rnd.choice((-1, 1))
        elif r["e"]: r["e"][rnd.randrange(len(r["e"]))] ^= 1 << rnd.randrange(8)
    elif r["s"]:
        k = rnd.randrange(len(r["s"]))
        if rnd.randrange(4) == 0: del r["s"][k]
        else: r["s"][k][rnd.randrange(2)] ^= 1 << rnd.randrange(3)
    return r

def recorded(chk, n):
    drv = driver("utf8.c")
    out = run_drivers([[drv, _tab, "record", str(n), "0", "1", str(SEED)]], cap=10**9)
    for f in out.fails: chk.fail(f)
    p = os.path.join(scratch(), "trace-utf8.json"); po = p + ".out"
    alt = altered(out.samples, wrong, 60)
    with open(p, "w") as f: json.dump(out.samples + [a for i, a in alt], f)
    r = tlc("Trace_UTF8", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", env={"TRACE": p, "TRACE_OUT": po})
    if not os.path.exists(po): raise CheckError("trace validation did not finish\n" + r.out[-3000:])
    with open(po) as f: o = json.load(f)
    noticed(chk, out.samples, alt, [b["rec"] for b in o["bad"]])
    o["bad"] = [b for b in o["bad"] if b["rec"] < len(out.samples)]
    chk.states += r.distinct; chk.transitions += r.generated; chk.traces += len(out.samples)
    chk.cov["validated_traces"] = {"traces": len(out.samples), "kinds": o["rules"]}
    chk.log("trace validation", len(out.samples), "traces,", len(o["bad"]), "rejected")
    for b in o["bad"][:10]:
        chk.fail(dict({"kind": "trace rejected", "want": b["want"]}, **out.samples[b["rec"]]))
    chk.samples += out.samples[:3]

def C01(chk):
    u8_tables(chk, 4 if THOROUGH else 3)
    go(chk, "dec", 0, "all strings of up to 3 bytes, all 4-byte sequences, boundary bytes beyond; every length; guard page behind")
    go(chk, "huge-d", 200000, "lengths beyond 2^31, 2^32, 2^33")
    recorded(chk, 20000 if THOROUGH else 3000)

def C02(chk):
    u8_tables(chk, 3)
    go(chk, "enc", 0, "all 2^32 values; every buffer length for values below 0x120000")
    go(chk, "huge-e", 200000, "buffer lengths beyond 2^31, 2^32, 2^33")
    recorded(chk, 20000 if THOROUGH else 3000)
    chk.cov["exhaustive"] = True

def C03(chk):
    u8_tables(chk, 4 if THOROUGH else 3)
    small_model(chk)
    go(chk, "stream", 3000000 if THOROUGH else 200000, "streams in one piece and in pieces, every split of all boundary strings up to 4 bytes")
    recorded(chk, 20000 if THOROUGH else 3000)
