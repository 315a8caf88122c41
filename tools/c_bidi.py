"""C13, C19-C24: the bidirectional algorithm."""
import random
from common import *

BC = "L R AL EN ES ET AN CS NSM BN B S WS ON LRE LRO RLE RLO PDF LRI RLI FSI PDI".split()
_tab = None
_code = {}
def code(cp):
    """bracket code: kind of canonically equivalent brackets, negative for closing ones"""
    if not _code:
        kinds = {}
        for c, (t, o) in sorted(ucd("bracket").items(), key=lambda x: int(x[0])):
            k = kinds.setdefault(o, len(kinds) + 1)
            _code[int(c)] = k if t == "o" else -k
    return _code.get(cp, 0)
def mirror(cp): return ucd("mirror").get(str(cp), cp)

def tables():
    global _tab
    if _tab: return _tab
    code(0)
    _tab = os.path.join(scratch(), "bidi.tab")
    with open(_tab, "w") as f:
        r = ucd("bc")
        f.write(f"{len(r)}\n" + "\n".join(f"{a} {b} {BC.index(v)}" for a, b, v in r) + "\n")
        f.write(f"{len(_code)}\n" + "\n".join(f"{c} {k}" for c, k in _code.items()) + "\n")
        m = ucd("mirror")
        f.write(f"{len(m)}\n" + "\n".join(f"{c} {x}" for c, x in m.items()) + "\n")
    return _tab

def judge(recs):
    """TLC's verdict (Trace_Bidi) on recorded runs: list of (record index, verdict)"""
    if not recs: return [], {}, None
    bc = expand("bc")
    parts = [recs[i::NCPU] for i in range(NCPU)] if len(recs) > 200 else [recs]
    def one(k):
        part = parts[k]
        idx, chars, rows = {}, [], []
        for r in part:
            row = []
            for c in r["t"]:
                if c not in idx:
                    idx[c] = len(chars) + 1
                    chars.append({"bc": bc[c] if c < NCP else "L", "br": code(c), "cp": c if c < 2**31 else c - 2**32,
                                  "mi": mirror(c) if c < 2**31 else c - 2**32})
                row.append(idx[c])
            rows.append({"t": row, "d": r["d"], "len": r["len"], "pl": r["pl"],
                         "lines": [dict(l, out=[x if x < 2**31 else x - 2**32 for x in l["out"]]) for l in r["lines"]]})
        p = os.path.join(scratch(), f"trace-bidi{k}.json"); po = p + ".out"
        if os.path.exists(po): os.unlink(po)
        with open(p, "w") as f: json.dump({"chars": chars, "recs": rows}, f)
        r = tlc("Trace_Bidi", "SPECIFICATION Spec\nCONSTANTS\n  MaxDepth = 125\n  MaxPairs = 63\nCHECK_DEADLOCK FALSE\n",
                env={"TRACE": p, "TRACE_OUT": po}, workers=1, heap="2g")
        if not os.path.exists(po): raise CheckError("trace validation did not finish\n" + r.out[-3000:])
        with open(po) as f: return r, json.load(f)
    bad, seen, st = [], {}, [0, 0]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for k, (r, o) in enumerate(ex.map(one, range(len(parts)))):
            st[0] += r.distinct; st[1] += r.generated
            for a, n in o["seen"].items(): seen[a] = seen.get(a, 0) + n
            for b in o["bad"]: bad.append((parts[k][b["rec"]], b["want"]))
    return bad, seen, st

EVEN = {"kind": "mirror", "site": "grapheme_bidirectional_reorder_line replaces characters at even levels by their mirror"}
def settle(chk, out, what):
    """mismatches found by the transcription are judged by the specification"""
    chk.impl(what, DriverOutputView(out))
    recs = [f for f in out.fails if "lines" in f]
    for f in out.fails:
        if "lines" not in f: chk.fail(f)
    by = {}
    for f in recs: by.setdefault((f["kind"]), []).append(f)
    for kind, fs in by.items():
        fs = fs[:8]
        bad, seen, st = judge([dict(f, lines=[dict(l, out=l["out"]) for l in f["lines"]]) for f in fs])
        conf = {json.dumps(r["t"]) + str(r["d"]): w for r, w in bad}
        for f in fs:
            w = conf.get(json.dumps(f["t"]) + str(f["d"]))
            # a level record carries no output and vice versa: compare what it is about
            if w is None or (kind in ("length", "direction", "levels", "line length") and w["ok"] in ("order", "mirror") and
                             all(a["lev"] == b["lev"] for a, b in zip(w["lines"], f["lines"]))):
                raise CheckError(f"the transcription rejects what the specification accepts: {json.dumps(f)[:600]}")
            chk.fail(dict(f, text=f["t"][:200], want={"len": w["len"], "pl": w["pl"], "lines": w["lines"]}))
class DriverOutputView:
    def __init__(self, o): self.stats, self.samples, self.fails = o.stats, [], []

def go(chk, mode, arg, what, flavour="plain"):
    drv = driver("bidi.c", flavour)
    out = run_drivers([[drv, tables(), mode, str(arg), str(i), str(NCPU), str(SEED)] for i in range(NCPU)])
    settle(chk, out, what)
    return out

def wrong(r, rnd):
    k = rnd.randrange(6); l = rnd.choice(r["lines"]) if r["lines"] else None
    if k == 0 or not l: r["len"] -= 1
    elif k == 1: r["pl"] ^= 1
    elif k < 4 and l["lev"]:
        i = rnd.randrange(len(l["lev"])); l["lev"][i] = 0 if l["lev"][i] < 0 else rnd.choice((-1, l["lev"][i] + 1, l["lev"][i] ^ 1))
    elif len(l["out"]) > 1:
        i, j = rnd.sample(range(len(l["out"])), 2)
        if rnd.randrange(2): l["out"][i], l["out"][j] = l["out"][j], l["out"][i]
        else: del l["out"][i]
    return r

def recorded(chk, n, parts, long=24):
    """runs recorded from the library, judged by TLC; parts: what this property is about"""
    drv = driver("bidi.c")
    out = run_drivers([[drv, tables(), m, str(k), str(i), str(NCPU), str(SEED)] for i in range(NCPU)
                       for m, k in (("record", n), ("pump-r", long * (5 if THOROUGH else 1))) if k], cap=10**9)
    for f in out.fails: chk.fail(f)
    alt = altered(out.samples, wrong, 80); alts = [a for i, a in alt]
    bad, seen, st = judge(out.samples + alts)
    rej = {id(r) for r, w in bad}
    noticed(chk, out.samples, alt, [i for i, r in enumerate(out.samples + alts) if id(r) in rej])
    ours = {id(a) for a in alts}; bad = [b for b in bad if id(b[0]) not in ours]
    chk.states += st[0]; chk.transitions += st[1]; chk.traces += len(out.samples)
    chk.cov["validated_traces"] = {"traces": len(out.samples), "characters": sum(len(r["t"]) for r in out.samples), "verdicts": seen}
    chk.log("trace validation", len(out.samples), "traces", seen)
    for r, w in bad:
        if w["ok"] not in parts: continue
        if w["ok"] == "mirror": chk.fail(dict(EVEN, text=r["t"])); continue
        if len(chk.fails) < 30: chk.fail({"kind": "trace rejected: " + w["ok"], "text": r["t"], "d": r["d"], "got": {"len": r["len"], "pl": r["pl"], "lines": r["lines"]}, "want": w})
    chk.samples += out.samples[:3]

def model(chk, what, alphabet, n, invs, depth=2, pairs=2, lots=0):
    """TLC on MC_Bidi: all texts over the alphabet up to n characters, or some random ones"""
    r = (tlc if not lots else lambda m, c: tlc_long(m, c, lots * (20 if THOROUGH else 1)))("MC_Bidi", "SPECIFICATION Spec\nCONSTANTS\n  Alphabet = {%s}\n  N = %d\n  MaxDepth = %d\n  MaxPairs = %d\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n"
            % (", ".join(f'"{x}"' for x in alphabet.split()), n, depth, pairs, invs))
    chk.model(f"{what}: {invs}; {'random ' if lots else ''}texts up to {n} over {{{alphabet}}}, at most {depth} levels, {pairs} open brackets", r)

def official(chk, n):
    """examples of the Unicode test files must be what the specification says"""
    rows = ucd("test_bidi")
    if n < len(rows): rows = random.Random(SEED).sample(rows, n)
    recs = []
    for t, d, pl, lev, order in rows:
        out = [mirror(t[i]) if lev[i] % 2 else t[i] for i in order]
        recs.append({"t": t, "d": d, "len": len(t), "pl": pl, "lines": [{"f": 1, "t": len(t), "lev": lev, "out": out}]})
    bad, seen, st = judge(recs)
    bad = [b for b in bad if not (b[1]["ok"] == "direction" and b[0]["pl"] == -1 and
           all(l["lev"] == g["lev"] and l["out"] == g["out"] for l, g in zip(b[1]["lines"], b[0]["lines"])))]
    if bad: raise CheckError(f"the specification rejects a Unicode example: {bad[0]}")
    chk.cov["unicode_examples_accepted_by_the_specification"] = len(recs)
    chk.log("examples of Unicode accepted by the specification", len(recs))

def C13(chk):
    chk.cov["exhaustive"] = True
    drv = driver("bidi.c")
    p = os.path.join(scratch(), "ctx.json")
    # every shard has contexts of its own; each set has to separate the classes
    for i in range(NCPU):
        o = run_drivers([[drv, tables(), "contexts", "0", str(i), str(NCPU), str(SEED)]], cap=10**9)
        with open(p, "w") as f: json.dump([{"c": [BC[x] for x in s["c"]], "h": s["h"]} for s in o.samples], f)
        r = tlc("MC_BidiSep", "SPECIFICATION Spec\nCONSTANTS\n  MaxDepth = 125\n  MaxPairs = 63\nINVARIANT Separates\nCHECK_DEADLOCK FALSE\n", env={"CTX": p})
        chk.model(f"contexts of shard {i} separate all classes", r)
    go(chk, "sweep", 0, "every codepoint in contexts that separate all classes, as either bracket, mirrored; values beyond 10FFFF")
    go(chk, "pairs", 1 if THOROUGH else 0, "every bracket against every bracket")
    recorded(chk, 4000 if THOROUGH else 400, (), 0)

ALL = "L R AL EN ES ET AN CS NSM BN B S WS ON LRE RLE LRO RLO PDF LRI RLI FSI PDI ( ) [ ]"
K = 1 if THOROUGH else 0
def C19(chk):
    model(chk, "matching of isolates and first strong character", "L R AL LRI RLI FSI PDI ON", 5 + K, "MatchAgrees FirstStrongAgrees")
    model(chk, "the same among all formatting characters", "L R LRE RLO PDF LRI FSI PDI BN B EN", 4 + K, "MatchAgrees FirstStrongAgrees")
    model(chk, "longer texts", ALL, 24, "MatchAgrees FirstStrongAgrees", lots=20)
    official(chk, 4543 if THOROUGH else 1000)
    go(chk, "para", 3000000 if THOROUGH else 200000, "texts of several paragraphs, deep isolates")
    go(chk, "pump-p", 60000 if THOROUGH else 2000, "long texts")
    go(chk, "embedded-p", 10 if THOROUGH else 1, "every codepoint within random texts")
    go(chk, "ascii-p", 0, "all texts of three ASCII characters, alone and followed by others")
    go(chk, "huge", 3000, "lengths of texts, lines, buffers beyond 2^31, 2^32, 2^33")
    recorded(chk, 8000 if THOROUGH else 800, ("length", "direction"))
def C20(chk):
    model(chk, "explicit levels and isolating run sequences", "L R LRE RLO PDF LRI FSI PDI BN", 4 + K, "ExplicitSane BD13Agrees BNInert IsolatesIsolate", 3)
    model(chk, "the same with little depth", "L R RLE LRO PDF RLI PDI", 5 + K, "ExplicitSane BD13Agrees", 2)
    model(chk, "longer texts", "L R LRE RLE LRO RLO PDF LRI RLI FSI PDI BN B", 20, "ExplicitSane BD13Agrees BNInert IsolatesIsolate", 3, lots=10)
    official(chk, 4543 if THOROUGH else 1000)
    go(chk, "exhaust-0l", 6 if THOROUGH else 5, "all texts over the explicit formatting characters")
    go(chk, "explicit", 3000000 if THOROUGH else 100000, "random nests, deep nests, overflow")
    go(chk, "pump-l", 400000 if THOROUGH else 20000, "long texts")
    go(chk, "embedded-l", 10 if THOROUGH else 1, "every codepoint within random texts")
    recorded(chk, 8000 if THOROUGH else 800, ("levels",))
def C21(chk):
    model(chk, "weak types, neutrals, levels", "L R AL EN AN ES ET CS NSM ON RLE LRI PDI", 3 + K, "LevelsSane WeakAgrees NeutralsAgree", 3)
    model(chk, "weak types", "R AL EN AN ET CS NSM", 4 + 2 * K, "LevelsSane WeakAgrees NeutralsAgree", 3)
    model(chk, "brackets", "L R EN NSM ( ) [ ]", 4 + K, "PairsSane PairsAgree BracketsAgree NeutralsAgree", 2)
    model(chk, "bracket stack", "( ) [ ] R", 6 + K, "PairsSane PairsAgree BracketsAgree", 2)
    model(chk, "longer texts", ALL, 14, "LevelsSane WeakAgrees NeutralsAgree PairsSane PairsAgree BracketsAgree", 3, lots=6)
    model(chk, "longer texts of brackets", "( ) [ ] R L AN NSM", 16, "PairsSane PairsAgree BracketsAgree NeutralsAgree", 2, 3, lots=15)
    official(chk, 4543 if THOROUGH else 1000)
    go(chk, "exhaust-1l", 6 if THOROUGH else 5, "all texts over weak, neutral, bracket classes")
    go(chk, "exhaust-3l", 6 if THOROUGH else 5, "all texts over two kinds of brackets")
    go(chk, "weak", 3000000 if THOROUGH else 100000, "random texts, bracket stack around its limit")
    go(chk, "pump-l", 400000 if THOROUGH else 20000, "long texts")
    go(chk, "embedded-l", 10 if THOROUGH else 1, "every codepoint within random texts")
    go(chk, "ascii-l", 0, "all texts of three ASCII characters, alone and followed by others")
    recorded(chk, 8000 if THOROUGH else 800, ("levels",))
def C22(chk):
    model(chk, "line levels of every line", "L R WS S B BN LRI PDI EN RLE", 3 + K, "LineAgrees LineTwice", 2)
    model(chk, "longer texts", ALL, 10, "LineAgrees LineTwice", 3, lots=4)
    official(chk, 4543 if THOROUGH else 1000)
    go(chk, "exhaust-2L", 6 if THOROUGH else 5, "all texts over blanks and separators x all lines")
    go(chk, "lines", 1000000 if THOROUGH else 60000, "random texts and lines")
    go(chk, "pump-L", 400000 if THOROUGH else 20000, "long texts and lines")
    go(chk, "embedded-L", 10 if THOROUGH else 1, "every codepoint within random texts")
    go(chk, "ascii-L", 0, "all texts of three ASCII characters, alone and followed by others")
    go(chk, "huge", 3000, "lengths of texts, lines, buffers beyond 2^31, 2^32, 2^33")
    recorded(chk, 8000 if THOROUGH else 800, ("levels",))
def C23(chk):
    model(chk, "reordering", "L R WS S AN RLE LRI PDI", 4 + K, "ReorderAgrees", 3)
    model(chk, "longer texts", ALL, 16, "ReorderAgrees", 4, lots=10)
    official(chk, 4543 if THOROUGH else 1000)
    go(chk, "exhaust-2O", 6 if THOROUGH else 5, "all texts over blanks and separators x all lines")
    go(chk, "exhaust-1O", 5 if THOROUGH else 4, "all texts over weak, neutral, bracket classes x all lines")
    go(chk, "reorder", 1000000 if THOROUGH else 60000, "random texts and lines")
    go(chk, "pump-O", 400000 if THOROUGH else 20000, "long texts and lines")
    go(chk, "embedded-O", 10 if THOROUGH else 1, "every codepoint within random texts")
    go(chk, "ascii-O", 0, "all texts of three ASCII characters, alone and followed by others")
    go(chk, "huge", 3000, "lengths of texts, lines, buffers beyond 2^31, 2^32, 2^33")
    recorded(chk, 8000 if THOROUGH else 800, ("order", "mirror"))
def C24(chk):
    model(chk, "what a cut-off buffer is compared with", "L R AL WS S AN RLE LRI PDI B", 3 + K, "LevelsSane LineAgrees", 3)
    go(chk, "buffers", 300000 if THOROUGH else 20000, "every kind of buffer length, guard pages")
    go(chk, "buffers", 60000 if THOROUGH else 4000, "the same under AddressSanitizer and UBSan", "asan")
    go(chk, "pump-b", 30000 if THOROUGH else 1500, "buffers of long texts")
    go(chk, "embedded-b", 10 if THOROUGH else 1, "one in 30 codepoints within random texts")
    go(chk, "ascii-b", 0, "one in 60 texts of three ASCII characters, alone and followed by others")
    go(chk, "huge", 3000, "lengths of texts, lines, buffers beyond 2^31, 2^32, 2^33")
