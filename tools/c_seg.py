"""C04-C09, C12: the four segmentations."""
import random
from common import *
from seg import *

DEPTH = {"grapheme": (4, 5), "word": (3, 4), "sentence": (4, 5), "line": (3, 4)}     # TLC text length
EXH = {"grapheme": (6, 7), "word": (5, 6), "sentence": (6, 7), "line": (4, 5)}       # replayed text length

def official(chk, alg):
    """the examples published by Unicode must be behaviours of the specification"""
    recs = []
    for cps, fl in ucd("test_" + alg):
        recs.append({"t": cps, "b": sorted({i + 1 for i, f in enumerate(fl) if f} | {len(cps)})})
    if not THOROUGH and len(recs) > 800:
        random.Random(SEED).shuffle(recs); recs = recs[:800]
    bad, _ = validate(chk, alg, recs, f"examples of Unicode 15.0 for {alg} (specification only)")
    chk.traces -= len(recs)            # these traces are Unicode's, not the library's
    if bad: raise CheckError(f"the {alg} specification rejects a Unicode example: {bad[0]}")

def recorded(chk, alg, n):
    drv = driver("seg.c")
    out = run_drivers([[drv, _tabs_path(alg), alg, "record", str(n), "0", "1", str(SEED)]], cap=10**9)
    for f in out.fails: chk.fail(f)
    recs = out.samples
    bad, fired = validate(chk, alg, recs, f"{alg}: recorded from the library")
    for b in bad[:10]:
        r = recs[b["rec"]]
        chk.fail({"kind": "trace rejected", "fn": "next_" + ("character" if alg == "grapheme" else alg) + "_break", "text": r["t"], "got": r["b"], "want": b["want"], "rules": b["rules"]})
    chk.samples += [{"codepoints": r["t"], "breaks": r["b"]} for r in recs[:3]]
def _tabs_path(alg):
    import seg
    return seg._tabs[alg][0]

def segment(chk, alg):
    k = 1 if THOROUGH else 0
    p, t, rg, cm = tables(chk, alg, DEPTH[alg][k])
    chk.model(f"{ALGS[alg][0]}: the same on random texts of up to 15 classes",
              tlc_long("MC_" + ALGS[alg][0], seg_cfg(14), {"grapheme": 80, "word": 40, "sentence": 80, "line": 20}[alg] * (20 if THOROUGH else 1)))
    official(chk, alg)
    drv = driver("seg.c")
    def go(mode, arg, what): chk.impl(f"{alg}: {what}", run_drivers(shards(drv, p, alg, mode, arg)))
    go("exhaust", EXH[alg][k], f"all class texts up to length {EXH[alg][k]}")
    go("wmethod", 2 if alg != "line" or THOROUGH else 1, "every left state x middle x every right state")
    go("random", 200000 if THOROUGH else 40000, "random long texts, both encodings, NUL-terminated or not")
    go("pump", 3000 if THOROUGH else 300, "long repetitions up to 70000 codepoints")
    go("notable", {"grapheme": (20, 1), "sentence": (20, 1)}.get(alg, (0, 10))[k], "single codepoints between every left and every right state")
    go("ascii", 0, "all texts of three ASCII characters")
    go("huge", 30000 if THOROUGH else 3000, "lengths beyond 2^31, 2^32, 2^33")
    recorded(chk, alg, 4000 if THOROUGH else 600)
    chk.assumptions += ["Unicode 15.0.0 data files of the base commit are authentic (sha256 in ucd/SOURCES.json)",
                        "texts longer than the explored length are covered by state coverage of the bimachine and by random texts"]

def C04(chk): segment(chk, "grapheme")
def C06(chk): segment(chk, "word")
def C07(chk): segment(chk, "sentence")
def C08(chk): segment(chk, "line")

def C05(chk):
    k = 1 if THOROUGH else 0
    p, t, rg, cm = tables(chk, "grapheme", DEPTH["grapheme"][k])
    r = tlc("MC_PairTest", "SPECIFICATION Spec\nCONSTANTS\n  Alphabet <- All\n  N = %d\nINVARIANTS PairAgrees ResetHarmless NullIsFresh\nCHECK_DEADLOCK FALSE\n" % (4 + k))
    chk.model("pairwise test with caller-owned state = text segmentation, resets at breaks", r)
    drv = driver("seg.c")
    def go(mode, arg, what): chk.impl(what, run_drivers(shards(drv, p, "grapheme-state", mode, arg)))
    go("exhaust", 6 + k, f"all class texts up to length {6+k}; state kept, reset at breaks, reset at some breaks; interleaved texts")
    go("wmethod", 2, "every left state x middle x every right state")
    go("random", 400000 if THOROUGH else 60000, "random long texts and interleavings of two texts")
    go("pump", 3000 if THOROUGH else 300, "long repetitions")
    go("sweep", 2, "every codepoint on either side of the pair")
    go("notable", 1 if THOROUGH else 20, "single codepoints between every left and every right state")
    go("ascii", 0, "all texts of three ASCII characters")
    chk.impl("all class pairs without state and with a fresh one", run_drivers([[drv, p, "grapheme-state", "null", "300", "0", "1", str(SEED)]]))

def C09(chk):
    for alg in ALGS: tables(chk, alg, 3)
    import c_text
    c_text.tile(chk)

def C12(chk):
    for alg in ALGS:
        p, t, rg, cm = tables(chk, alg, 3)
        drv = driver("seg.c")
        chk.impl(f"{alg}: every codepoint in contexts that separate all classes", run_drivers(shards(drv, p, alg, "sweep", 4 if THOROUGH else 2)))
    chk.cov["exhaustive"] = True
