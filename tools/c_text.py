"""C10, C11, C14-C18, C26 (and the tiling part of C09): case functions, encodings, length modes."""
from common import *
import random, seg, c_utf8

ALPHA = [65, 97, 931, 963, 223, 39, 837, 769, 453, 49, 32, 304, 1488, 688]
ALPHA_MORE = [46, 329, 64259, 8064, 45]
_tab = None

def casechars(cps):
    simple, special = ucd("case_simple"), ucd("case_special")
    q = seg.prop_at(["wb", "extpict", "cased", "ci"], [min(c, NCP - 1) for c in cps])
    out = []
    for c, p in zip(cps, q):
        if c >= NCP: p = {"wb": "Other", "extpict": 0, "cased": 0, "ci": 0}
        out.append(dict(p, cp=c, simple=simple.get(str(c), [-1, -1, -1]), special=special.get(str(c), [])))
    return out

def case_env(name, alpha):
    """files with the properties of the alphabet and of everything a conversion can make of it"""
    simple, special = ucd("case_simple"), ucd("case_special")
    close = list(alpha)
    for c in close:              # transitively
        m = [x for x in simple.get(str(c), []) if x >= 0] + [y for x in special.get(str(c), []) for y in x]
        close += [x for x in dict.fromkeys(m + [962]) if x not in close]
    pc, pn = (os.path.join(scratch(), name + x) for x in ("-chars.json", "-nalpha.json"))
    with open(pc, "w") as f: json.dump(casechars(close), f)
    with open(pn, "w") as f: json.dump({"n": len(alpha)}, f)
    return {"CHARS": pc, "NALPHA": pn}

def case_model(chk, n, alpha, emit=None):
    cfg = lambda n: f"SPECIFICATION Spec\nCONSTANT N = {n}\nINVARIANTS PassesAgree Idempotent DetectionAgrees WordLocal NothingLost\nCHECK_DEADLOCK FALSE\n"
    r = tlc("MC_Case", cfg(n), env=dict(case_env("case", alpha), **(emit or {})))
    chk.model(f"Case: one-pass algorithm = definition, idempotence, detection, word locality; all texts up to {n} of {len(alpha)} characters", r)
    if n > 3:
        rnd = random.Random(SEED); mapped = sorted(int(c) for c in set(ucd("case_simple")) | set(ucd("case_special")))
        some = rnd.sample(mapped, 400 if THOROUGH else 40)
        far = list(dict.fromkeys(alpha + ALPHA_MORE + some))
        chk.model(f"Case: the same on random texts of up to 13 of {len(far)} characters", tlc_long("MC_Case", cfg(12), 20 if THOROUGH else 5, env=case_env("case-long", far)))

def tables(chk, n=3, wn=2, un=2):
    global _tab
    if _tab: return _tab
    d = scratch()
    simple, special = ucd("case_simple"), ucd("case_special")
    mapped = sorted(int(c) for c in set(simple) | set(special))
    pin, pout = os.path.join(d, "case-in.json"), os.path.join(d, "case-out.json")
    with open(pin, "w") as f: json.dump(casechars(mapped), f)
    case_model(chk, n, ALPHA, {"EMIT_IN": pin, "EMIT_OUT": pout})
    with open(pout) as f: o = json.load(f)
    wp = seg.tables(chk, "word", wn)[0]
    up = c_utf8.u8_tables(chk, un)
    # classes that matter for case: word class, cased/ignorable, shape of the mappings
    shape = {}
    for c, m in zip(mapped, o["maps"]):
        shape[c] = tuple(0 if x == [c] else len(x) if len(x) > 1 else -1 for x in m)
    wb, ep, ca, ci = (expand(x) for x in ("wb", "extpict", "cased", "ci"))
    ids, runs = {}, []
    pruns = []
    for c in range(NCP):
        k = (wb[c], ep[c], ca[c], ci[c], shape.get(c, 0), c == 931)
        i = ids.setdefault(k, len(ids))
        if runs and runs[-1][2] == i: runs[-1][1] = c
        else: runs.append([c, c, i])
        p = ca[c] | ci[c] << 1
        if pruns and pruns[-1][2] == p: pruns[-1][1] = c
        else: pruns.append([c, c, p])
    _tab = os.path.join(d, "text.tab")
    with open(_tab, "w") as f:
        f.write(open(up).read()); f.write(open(wp).read())
        f.write(" ".join(str(x) for r in o["sstep"] for x in r) + "\n")
        f.write(f"{len(pruns)}\n" + "\n".join("%d %d %d" % tuple(x) for x in pruns) + "\n")
        f.write(f"{len(ids)}\n{len(runs)}\n" + "\n".join("%d %d %d" % tuple(x) for x in runs) + "\n")
        f.write(f"{len(mapped)}\n")
        for c, m in zip(mapped, o["maps"]):
            f.write(f"{c} " + " ".join(f"{len(x)} " + " ".join(map(str, x)) for x in m) + "\n")
    chk.cov["case_classes"] = len(ids); chk.cov["mapped_codepoints"] = len(mapped)
    return _tab

def go(chk, mode, arg, what, flavour="plain"):
    drv = driver("text.c", flavour)
    chk.impl(what, run_drivers([[drv, _tab, mode, str(arg), str(i), str(NCPU), str(SEED)] for i in range(NCPU)]))

def wrong(r, rnd):
    k = rnd.choice(("u", "l", "c", "mu", "ml", "mt"))
    if k[0] == "m":
        if rnd.randrange(2): r[k][0] ^= 1
        else: r[k][1] += rnd.choice((-1, 1))
    else:
        i = rnd.randrange(len(r[k]) + 1)
        if i == len(r[k]): r[k].append(0x41)
        elif rnd.randrange(2): del r[k][i]
        else: r[k][i] ^= 1
    return r

def recorded(chk, n):
    drv = driver("text.c")
    out = run_drivers([[drv, _tab, "record", str(n), "0", "1", str(SEED)]], cap=10**9)
    for f in out.fails: chk.fail(f)
    idx, props, rows = {}, [], []
    cps = sorted({c for r in out.samples for c in r["t"]})
    props = casechars(cps); idx = {c: i + 1 for i, c in enumerate(cps)}
    alt = altered(out.samples, wrong, 60)
    for r in out.samples + [a for i, a in alt]: rows.append(dict(r, t=[idx[c] for c in r["t"]]))
    p = os.path.join(scratch(), "trace-case.json"); po = p + ".out"
    with open(p, "w") as f: json.dump({"props": props, "recs": rows}, f)
    r = tlc("Trace_Case", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", env={"TRACE": p, "TRACE_OUT": po})
    if not os.path.exists(po): raise CheckError("trace validation did not finish\n" + r.out[-3000:])
    with open(po) as f: o = json.load(f)
    chk.states += r.distinct; chk.transitions += r.generated; chk.traces += len(out.samples)
    noticed(chk, out.samples, alt, [b["rec"] for b in o["bad"]])
    o["bad"] = [b for b in o["bad"] if b["rec"] < len(out.samples)]
    chk.cov["validated_traces"] = {"traces": len(out.samples), "events": o["rules"]}
    chk.log("trace validation", len(out.samples), "traces,", len(o["bad"]), "rejected", o["rules"])
    chk.samples += out.samples[:3]
    return [(out.samples[b["rec"]], b) for b in o["bad"]]

def report(chk, bad, keys, want):
    for r, b in bad[:10]:
        if any(r[k] != w(b, r) for k, w in zip(keys, want)):
            chk.fail({"kind": "trace rejected", "text": r["t"], "got": {k: r[k] for k in keys}, "want": {k: w(b, r) for k, w in zip(keys, want)}})

def C14(chk):
    tables(chk)
    go(chk, "sweep", 0, "every codepoint alone, three conversions, both encodings")
    chk.cov["exhaustive"] = True

UL = (["u", "l"], [lambda b, r: b["u"], lambda b, r: b["l"]])
def C15(chk):
    tables(chk, 5 if THOROUGH else 4)
    go(chk, "exhaust", 4 if THOROUGH else 3, "all texts of up to %d case classes" % (4 if THOROUGH else 3))
    go(chk, "sigma", 1000000 if THOROUGH else 60000, "sigmas among cased and case-ignorable characters, long runs")
    go(chk, "random", 600000 if THOROUGH else 40000, "random texts")
    go(chk, "bytes", 600000 if THOROUGH else 30000, "byte strings, with malformed and cut-off sequences")
    go(chk, "pump", 20000 if THOROUGH else 800, "long repetitions up to 70000 characters")
    go(chk, "embedded", 20 if THOROUGH else 2, "every codepoint within random texts")
    go(chk, "ascii", 0, "all texts of three ASCII characters")
    go(chk, "huge", 3000, "text and destination lengths beyond 2^31, 2^32, 2^33")
    report(chk, recorded(chk, 8000 if THOROUGH else 1200), *UL)

def C16(chk):
    tables(chk, 5 if THOROUGH else 4, 3)
    go(chk, "exhaust", 4 if THOROUGH else 3, "all texts of up to %d case classes" % (4 if THOROUGH else 3))
    go(chk, "random", 1000000 if THOROUGH else 80000, "random texts of several words")
    go(chk, "bytes", 600000 if THOROUGH else 30000, "byte strings, with malformed and cut-off sequences")
    go(chk, "sigma", 300000 if THOROUGH else 20000, "sigmas among cased and case-ignorable characters")
    go(chk, "pump", 20000 if THOROUGH else 800, "long repetitions up to 70000 characters")
    go(chk, "embedded", 20 if THOROUGH else 2, "every codepoint within random texts")
    go(chk, "ascii", 0, "all texts of three ASCII characters")
    go(chk, "huge", 3000, "text and destination lengths beyond 2^31, 2^32, 2^33")
    report(chk, recorded(chk, 8000 if THOROUGH else 1200), ["c"], [lambda b, r: b["c"]])

def C17(chk):
    tables(chk, 5 if THOROUGH else 4)
    go(chk, "detect-sweep", 0, "every codepoint alone")
    go(chk, "detect-exhaust", 4 if THOROUGH else 3, "all texts of up to %d case classes" % (4 if THOROUGH else 3))
    go(chk, "detect-random", 1000000 if THOROUGH else 60000, "random texts")
    go(chk, "detect-bytes", 600000 if THOROUGH else 30000, "byte strings, with malformed and cut-off sequences")
    go(chk, "detect-sigma", 200000 if THOROUGH else 10000, "sigmas")
    go(chk, "detect-pump", 20000 if THOROUGH else 800, "long repetitions up to 70000 characters")
    go(chk, "detect-embedded", 20 if THOROUGH else 2, "every codepoint within random texts")
    go(chk, "detect-ascii", 0, "all texts of three ASCII characters")
    go(chk, "detect-huge", 3000, "text lengths beyond 2^31, 2^32, 2^33")
    bad = recorded(chk, 8000 if THOROUGH else 1200)
    f = lambda key, b, r: [1 if b[key] == len(r["t"]) else 0, b[key]]
    report(chk, bad, ["mu", "ml", "mt"], [lambda b, r: f("mu", b, r), lambda b, r: f("ml", b, r), lambda b, r: f("mt", b, r)])

def C18(chk):
    r = tlc("MC_Writer", f"SPECIFICATION Spec\nCONSTANTS\n  N = {7 if THOROUGH else 5}\n  Sizes = {{1, 2, 3, 4}}\n  DestLens = {{100, {', '.join(map(str, range(0, 17)))}}}\nINVARIANTS FullLength CleanTruncation\nCHECK_DEADLOCK FALSE\n")
    chk.model("Writer: two offsets are enough for full length, whole-character prefix, NUL", r)
    tables(chk)
    go(chk, "buf-exhaust-both", 3 if THOROUGH else 2, "texts of case classes x every destination length, guard page behind")
    go(chk, "buf-random", 150000 if THOROUGH else 8000, "random texts x every destination length")
    go(chk, "buf-bytes", 60000 if THOROUGH else 3000, "byte strings x every destination length, with malformed and cut-off sequences")
    go(chk, "buf-sigma", 50000 if THOROUGH else 2000, "sigmas x every destination length")
    go(chk, "buf-pump", 3000 if THOROUGH else 100, "long repetitions up to 20000 characters x destination lengths")
    go(chk, "buf-embedded", 4 if THOROUGH else 1, "every codepoint within random texts")
    go(chk, "buf-ascii", 0, "all texts of three ASCII characters")
    go(chk, "buf-huge", 3000, "text and destination lengths beyond 2^31, 2^32, 2^33")

def reader_model(chk):
    k = 1 if THOROUGH else 0
    r = tlc("MC_Reader", f"SPECIFICATION Spec\nCONSTANTS\n  N = {3 + k}\n  Bytes = {{0, 65, 195, 169, 226, 240, 255}}\n  Depth = {5}\nINVARIANTS YieldsText EndsRight NeverBeyondLimit Footprint NulModeAgrees\nCHECK_DEADLOCK FALSE\n")
    chk.model("Reader: cursor over bytes yields the decoded text under any reads and limits, footprint, NUL mode", r)

def C10(chk):
    reader_model(chk); tables(chk)
    go(chk, "u8", 1000000 if THOROUGH else 80000, "byte strings against their decoded texts, all functions")
    go(chk, "pump-u8", 20000 if THOROUGH else 500, "long byte strings against their decoded texts")

def C11(chk):
    reader_model(chk); tables(chk)
    go(chk, "nul", 2000000 if THOROUGH else 120000, "NUL-terminated against explicit length, guard page or junk behind the NUL; NUL inside against U+0001")

def C26(chk):
    reader_model(chk); tables(chk)
    go(chk, "memory", 800000 if THOROUGH else 60000, "arbitrary bytes and values, guard pages on both sides, every function", "plain")
    go(chk, "memory", 300000 if THOROUGH else 20000, "the same under AddressSanitizer and UBSan", "asan")

def tile(chk):
    reader_model(chk); tables(chk)
    go(chk, "tile", 600000 if THOROUGH else 40000, "tilings of arbitrary byte strings and codepoint arrays")
