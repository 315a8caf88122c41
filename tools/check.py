#!/usr/bin/env python3
"""check.py <property id>: runs the check of one property (see DESIGN.md)."""
import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import importlib

MODULES = {**{p: "c_seg" for p in ("C04", "C05", "C06", "C07", "C08", "C09", "C12")},
           **{p: "c_utf8" for p in ("C01", "C02", "C03")},
           **{p: "c_bidi" for p in ("C13", "C19", "C20", "C21", "C22", "C23", "C24")},
           "C25": "c_session", "C27": "c_stream", "C28": "c_layout",
           **{p: "c_text" for p in ("C10", "C11", "C14", "C15", "C16", "C17", "C18", "C26")}}

def main():
    pid = sys.argv[1]
    chk = Check(pid)
    try:
        mod = importlib.import_module(MODULES[pid])
        getattr(mod, pid)(chk)
        return chk.finish()
    except CheckError as e:
        if chk.fails:       # violations found before the check went wrong count
            print("ERROR", e, file=sys.stderr); return chk.finish()
        if "build of /repo failed" in str(e) or "driver build failed" in str(e):
            # the code under test does not even build: no verdict about the property
            print("ERROR", e, file=sys.stderr); return 2
        print("ERROR", e, file=sys.stderr); return 2
    except Exception:
        traceback.print_exc(); return chk.finish() if chk.fails else 2

if __name__ == "__main__":
    sys.exit(main())
