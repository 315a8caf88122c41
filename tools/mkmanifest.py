#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import check
SEGT = "TLA+ rule specification and bimachine of the annex model-checked by TLC; its tables replayed into the library, recorded segmentations validated by TLC"
TECH = {
 "C04": SEGT, "C06": SEGT, "C07": SEGT, "C08": SEGT,
 "C05": "TLA+ model of the pairwise test with caller-owned state, model-checked by TLC against the rules; behaviours (resets, interleavings) replayed into the library",
 "C09": "TLC-checked Restartable/Progress/CRLF invariants of the segmentation models; tilings from every offset replayed into the library",
 "C01": "TLA+ decoder/encoder specification (UTF8.tla) model-checked by TLC; its automaton replayed exhaustively against the library, recorded calls validated by TLC", "C02": "TLA+ decoder/encoder specification (UTF8.tla) model-checked by TLC; its automaton replayed exhaustively against the library, recorded calls validated by TLC", "C03": "TLA+ decoder/encoder specification (UTF8.tla) model-checked by TLC; its automaton replayed exhaustively against the library, recorded calls validated by TLC",
 "C10": "TLA+ model of the reader over bytes (MC_Reader.tla), model-checked by TLC; behaviours (byte strings with their decoded texts) replayed into both variants of every function",
 "C11": "TLA+ model of the reader with its NUL-terminated mode (MC_Reader.tla), model-checked by TLC; behaviours replayed with guard pages or junk behind the NUL",
 "C14": "TLA+ specification of full case mapping (Case.tla) model-checked by TLC; its tables replayed against the library, recorded conversions validated by TLC", "C15": "TLA+ specification of full case mapping (Case.tla) model-checked by TLC; its tables replayed against the library, recorded conversions validated by TLC", "C16": "TLA+ specification of full case mapping (Case.tla) model-checked by TLC; its tables replayed against the library, recorded conversions validated by TLC",
 "C17": "TLC-checked Idempotent/DetectionAgrees invariants of Case.tla; the same relations replayed on the library for every codepoint and generated texts, recorded conversions validated by TLC",
 "C18": "TLA+ model of the bounded writer (MC_Writer.tla) model-checked by TLC; every destination length replayed into the library with guard pages",
 "C26": "TLC-checked Footprint invariants of the reader and writer models; behaviours replayed with guard pages, AddressSanitizer and UBSan as observers",
 "C12": "TLA+ class definitions evaluated by TLC over all UCD property combinations; every codepoint replayed in class-separating contexts",
 **{p: "TLA+ specification of UAX #9 (Bidi.tla) model-checked by TLC against the definitions of the annex; behaviours replayed into the library, recorded runs (paragraph, levels, reordered lines) validated by TLC" for p in ("C13", "C19", "C20", "C21", "C22", "C23")},
 "C24": "TLA+ specification of UAX #9 (Bidi.tla) gives the result of every buffer length; behaviours replayed with guard pages, AddressSanitizer and UBSan as observers",
 "C28": "TLA+ model of a program that lays out texts (Layout.tla, on top of Line.tla and Bidi.tla) model-checked by TLC, flawed programs rejected; its behaviours replayed into the library, recorded layouts validated by TLC",
 "C27": "TLA+ model of texts that arrive in portions (Stream.tla) model-checked by TLC, flawed readers rejected; all portions of token texts replayed into the library, recorded runs validated by TLC",
 "C25": "TLA+ model of sessions (Session.tla) explored by TLC; all its histories replayed into the library with threads switched at exact instructions, recorded free-running sessions validated by TLC, ThreadSanitizer as observer",
}
NOTE = "Bounded model checking plus conformance testing: the specification is explored by TLC up to the stated bounds, the library is compared with it on generated behaviours (exhaustive up to a length, all model states, random beyond) and on recorded traces. Not a proof for unbounded texts."
def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
         "checks": [], "not_applicable": []}
    for p in props:
        i = p["id"]
        if i in check.MODULES:
            m["checks"].append({"property": i, "quick_cmd": f"python3 tools/check.py {i}",
                "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {i}",
                "evidence_file": f"evidence/{i}.json", "technique": TECH[i], "level": "model_checking", "level_note": NOTE})
        else:
            m["not_applicable"].append({"property": i, "reason": "Check not built yet (work in progress); the property will be decided by the specification described in DESIGN.md."})
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
main()
