#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the implemented plans."""
import json, pathlib, sys
ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT / "harness"))
sys.dont_write_bytecode = True
import plans
props = [json.loads(l) for l in open(ROOT / "properties.jsonl")]
CODEC = ("TLA+ codec specification (BlfFormat), TLC trace validation of recorded unpack/pack calls",
         "Every recorded call of the real codec is judged by TLC against the TLA+ layouts and decode/encode operators; "
         "inputs are layout-driven (every field singled out, extremes, random, optional sections swept). "
         "Trusts TLC, the recording driver, and the layouts as transcribed into the specification.")
WR = ("TLA+ writer/log specification, exhaustive TLC design model, replay of its behaviours, TLC trace validation",
      "The design model is exhausted by TLC within small constants; operation sequences it generates and random ones are run on the real "
      "writer with a recording sink, and TLC checks every recorded step and the stored bytes against the specification. "
      "Trusts TLC, zlib and the recording sink; sizes and histories beyond those explored are not decided.")
RD = ("TLA+ reader machine, exhaustive TLC design model, TLC-generated file plans, TLC trace validation",
      "The byte-level reader machine is exhausted by TLC on tiny files; file plans it generates and random ones are realised as real BLF bytes, "
      "read by the real reader, and TLC runs the machine on the same bytes and compares every delivery. "
      "Trusts TLC, zlib and the recording driver; files beyond those explored are not decided.")
OB = ("TLA+ object-value specification (BlfObjects), TLC-generated histories, TLC trace validation",
      "BlfObjects is exhausted by TLC (and fails when objects may share cells); its histories of making, changing and encoding are performed with real "
      "objects, every field of every class being changed, and TLC compares the value of every live object after every step. Trusts TLC and the recording driver.")
PI = ("TLA+ pipeline specification (BlfPipes), exhaustive TLC exploration, TLC-generated pipelines, TLC trace validation",
      "BlfPipes is exhausted by TLC within small constants; its behaviours are performed with real readers and writers over generated files, and TLC compares "
      "every object read, held and written and the bytes of files written alike. Trusts TLC, zlib and the recording driver; pipelines beyond those explored are not decided.")
def kind(i):
    if i == "C11": return OB
    if i == "S01": return PI
    return kind_(i)
def kind_(i): return CODEC if i[0] == "C" else WR if i[0] == "W" else RD
m = dict(version=1,
  setup_cmd="python3 tools/setup.py",
  checks=[dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} --tier quick",
               thorough_cmd=f"python3 check.py {p['id']} --tier thorough", evidence_file=f"evidence/{p['id']}.json",
               technique=kind(p["id"])[0], level="model_checking", level_note=kind(p["id"])[1])
          for p in props if p["id"] in plans.PLANS],
  not_applicable=[dict(property=p["id"], reason="check under construction") for p in props if p["id"] not in plans.PLANS],
  notes="Language TLA+ with TLC. No hooks in /repo: the public API and file-like sinks expose all state the specifications observe.")
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
