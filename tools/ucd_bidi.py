#!/usr/bin/env python3
"""Extracts a sample of the conformance files of UAX #9 (Unicode 15.1.0,
/usr/share/unicode; the rules and the tests are those of 15.0.0) into ucd/test_bidi.json: [kind, codepoints, direction asked
for, paragraph level or -1, levels, visual order]. Run once; the checks only read
its output. Lines with a paragraph separator before the end are left out (the
files treat them as one paragraph)."""
import json, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
U = "/usr/share/unicode"
rep = dict(L=0x61, R=0x5D0, AL=0x627, EN=0x30, ES=0x2B, ET=0x23, AN=0x660, CS=0x2C, NSM=0x300, BN=0x200B, B=0x2029, S=9,
           WS=0x20, ON=0x21, LRE=0x202A, LRO=0x202D, RLE=0x202B, RLO=0x202E, PDF=0x202C, LRI=0x2066, RLI=0x2067, FSI=0x2068, PDI=0x2069)
bc = expand("bc")
rep["BN"] = 0xAD
assert all(bc[c] == k for k, c in rep.items()), [(k, bc[c]) for k, c in rep.items() if bc[c] != k]
rnd = random.Random(15)
out = []
for l in open(U + "/BidiTest.txt"):
    l = l.split("#")[0].strip()
    if not l: continue
    if l.startswith("@Levels:"): lev = [-1 if x == "x" else int(x) for x in l[8:].split()]
    elif l.startswith("@Reorder:"): order = [int(x) for x in l[9:].split()]
    elif not l.startswith("@"):
        cs, bits = l.split(";"); cs = cs.split(); bits = int(bits, 16)
        if "B" in cs[:-1] or rnd.random() > 0.004: continue
        for d in range(3):
            if bits >> d & 1: out.append([[rep[x] for x in cs], d, -1, lev, order])
n = len(out)
for l in open(U + "/BidiCharacterTest.txt"):
    l = l.split("#")[0].strip()
    if not l: continue
    f = l.split(";"); cp = [int(x, 16) for x in f[0].split()]
    if any(bc[c] == "B" for c in cp[:-1]) or (rnd.random() > 0.015 and len(cp) < 20): continue
    out.append([cp, {"0": 1, "1": 2, "2": 0}[f[1]], int(f[2]), [-1 if x == "x" else int(x) for x in f[3].split()], [int(x) for x in f[4].split()]])
print(n, len(out) - n)
with open(os.path.join(UCD, "test_bidi.json"), "w") as f:
    f.write("[\n" + ",\n".join(json.dumps(r, separators=(",", ":")) for r in out) + "\n]\n")
