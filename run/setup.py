#!/usr/bin/env python3
"""Nothing is kept between runs; this only shows that the toolchain works."""
import sys
from pathlib import Path
sys.path.insert(0, str(Path(__file__).resolve().parent))
import tk
w = tk.Work()
w.classes()
w.driver()
out, st = w.tlc(tk.SPEC / "MC_Format.tla", {"MaxWidth": 8}, body="SPECIFICATION Spec\nINVARIANT FieldRanges\n")
print("toolchain ok" if st["ok"] else out)
sys.exit(0 if st["ok"] else 1)
