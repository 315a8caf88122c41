#!/usr/bin/env python3
"""Derives /verif/ucd/*.json (compact, committed) from pristine UCD 15.0.0 files.

Run once, by hand, on the pinned base commit of /repo (git show 4e9bd95:data/...).
The checks only read the committed result, so a later change to /repo/data is
seen as a deviation.  The extraction is independent of /repo/gen.
"""
import json, os, sys, hashlib, subprocess, re
REPO = "/repo"; BASE = sys.argv[1] if len(sys.argv) > 1 else "4e9bd95"
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "ucd")
N = 0x110000
sha = {}
def data(name):
    b = subprocess.check_output(["git", "-C", REPO, "show", f"{BASE}:data/{name}"])
    sha[name] = hashlib.sha256(b).hexdigest()
    return b.decode("utf-8").split("\n")
def rng(t):
    a, _, b = t.strip().partition("..")
    return int(a, 16), int(b or a, 16)
def table(name, default, want=None, col=1, missing=None):
    t = [default] * N
    lines = data(name)
    if missing:
        for l in lines:
            m = re.match(r"# @missing: ([0-9A-F.]+); *(\w+)", l)
            if m:
                a, b = rng(m.group(1)); v = missing[m.group(2)]
                for i in range(a, b + 1): t[i] = v
    for l in lines:
        l = l.split("#")[0].strip()
        if not l: continue
        f = [x.strip() for x in l.split(";")]
        if want and f[col] not in want: continue
        a, b = rng(f[0])
        for i in range(a, b + 1): t[i] = f[col]
    return t
def runs(t):
    out = []; s = 0
    for i in range(1, N + 1):
        if i == N or t[i] != t[s]:
            out.append([s, i - 1, t[s]]); s = i
    return out
props = {}
props["gcb"] = table("GraphemeBreakProperty.txt", "Other")
props["wb"] = table("WordBreakProperty.txt", "Other")
props["sb"] = table("SentenceBreakProperty.txt", "Other")
props["lb"] = table("LineBreak.txt", "XX")
props["eaw"] = table("EastAsianWidth.txt", "N")
props["extpict"] = [1 if x == "Extended_Pictographic" else 0 for x in table("emoji-data.txt", "", {"Extended_Pictographic"})]
props["cased"] = [1 if x else 0 for x in table("DerivedCoreProperties.txt", "", {"Cased"})]
props["ci"] = [1 if x else 0 for x in table("DerivedCoreProperties.txt", "", {"Case_Ignorable"})]
long = {"Left_To_Right": "L", "Right_To_Left": "R", "Arabic_Letter": "AL", "European_Terminator": "ET"}
props["bc"] = table("DerivedBidiClass.txt", "L", missing=long)
# noncharacters/BN defaults are listed explicitly in DerivedBidiClass.txt
gc = ["Cn"] * N; simple = {}; special = {}; deco = {}
first = None
for l in data("UnicodeData.txt"):
    if not l.strip(): continue
    f = l.split(";"); cp = int(f[0], 16)
    if f[1].endswith(", First>"): first = cp; continue
    a = first if f[1].endswith(", Last>") else cp; first = None
    for i in range(a, cp + 1): gc[i] = f[2]
    if f[12] or f[13] or f[14]:
        simple[cp] = [int(x, 16) if x else -1 for x in f[12:15]]     # upper, lower, title
    if f[5] and not f[5].startswith("<"):
        d = [int(x, 16) for x in f[5].split()]
        if len(d) == 1: deco[cp] = d[0]
props["gc"] = gc
for l in data("SpecialCasing.txt"):
    l = l.split("#")[0].strip()
    if not l: continue
    f = [x.strip() for x in l.split(";")]
    if len(f) > 5 or (len(f) == 5 and f[4]): continue        # conditional
    cp = int(f[0], 16); m = lambda s: [int(x, 16) for x in s.split()]
    special[cp] = [m(f[3]), m(f[1]), m(f[2])]                        # upper, lower, title
brk = {}
canon = lambda c: deco.get(c, c)
for l in data("BidiBrackets.txt"):
    l = l.split("#")[0].strip()
    if not l: continue
    f = [x.strip() for x in l.split(";")]
    cp, pair = int(f[0], 16), int(f[1], 16)
    # pair identifier: the canonical opening bracket of the pair
    op = cp if f[2] == "o" else pair
    brk[cp] = [f[2], canon(op)]
mir = {}
for l in data("BidiMirroring.txt"):
    l = l.split("#")[0].strip()
    if not l: continue
    f = [x.strip() for x in l.split(";")]
    mir[int(f[0], 16)] = int(f[1], 16)
os.makedirs(OUT, exist_ok=True)
for k, t in props.items():
    with open(f"{OUT}/{k}.json", "w") as fh:
        fh.write("[\n" + ",\n".join(json.dumps(r) for r in runs(t)) + "\n]\n")
def dump(name, d):
    with open(f"{OUT}/{name}.json", "w") as fh:
        fh.write("{\n" + ",\n".join(f'"{k}":{json.dumps(d[k])}' for k in sorted(d)) + "\n}\n")
for n, d in (("case_simple", simple), ("case_special", special), ("bracket", brk), ("mirror", mir)): dump(n, d)
with open(f"{OUT}/SOURCES.json", "w") as fh: json.dump({"base": BASE, "sha256": sha}, fh, indent=1, sort_keys=True)
# conformance strings of the Unicode test files, as codepoints + break flags (1 = break)
for kind, name in (("grapheme", "GraphemeBreakTest.txt"), ("word", "WordBreakTest.txt"), ("sentence", "SentenceBreakTest.txt"), ("line", "LineBreakTest.txt")):
    out = []
    for l in data(name):
        l = l.split("#")[0].strip()
        if not l: continue
        tok = l.split()
        out.append([[int(x, 16) for x in tok[1::2]], [1 if x == "\u00f7" else 0 for x in tok[2:-1:2]]])
    with open(f"{OUT}/test_{kind}.json", "w") as fh:
        fh.write("[\n" + ",\n".join(json.dumps(r, separators=(",", ":")) for r in out) + "\n]\n")
