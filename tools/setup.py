#!/usr/bin/env python3
"""setup_cmd: parses every specification and prepares derived files (offline)."""
import pathlib, subprocess, sys
ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT / "harness"))
sys.dont_write_bytecode = True
import common
ctx = common.Ctx("setup", "quick", 1)
try:
    mods = sorted(p.name for p in common.SPEC.glob("*.tla"))
    p = subprocess.run(["java", "-cp", common.CP, "tla2sany.SANY", *mods], cwd=common.SPEC, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode or "rror" in p.stdout.replace("Errors: 0", ""):
        print(p.stdout[-3000:])
        sys.exit(1)
    print(f"{len(mods)} modules parsed; layouts in {ctx.layout}")
finally:
    ctx.close()
