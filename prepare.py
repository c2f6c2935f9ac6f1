#!/usr/bin/env python3
"""Build all drivers once, and make sure TLC starts."""
import subprocess, sys
from pathlib import Path
sys.path.insert(0, str(Path(__file__).resolve().parent))
from lib import compiler, harness, tla
bins = sorted(p.stem for p in (harness.HARNESS / "src" / "bin").glob("*.rs"))
for profile in ("dev", "plain"):
    harness.build(bins, profile)
compiler.run("Borrow", ["1,|use 1 0 0;"])
for f in sorted(tla.SPECS.glob("*.tla")):
    p = subprocess.run(["java", "-cp", ":".join(tla.find_tlc()), "tla2sany.SANY", f.name], cwd=tla.SPECS,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode or "rror" in p.stdout:
        print(p.stdout)
        sys.exit(2)
print("setup done:", len(bins), "drivers")
