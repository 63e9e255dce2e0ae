#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of properties the simulator has checks for."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = subprocess.check_output([root + "/target/release/wsim", "list"], text=True).split()
props = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
NA = {}
GEN = ("Seeded search: every run is a fresh random schedule, network segmentation and fault sequence, compared with an independent reference model; "
       "a pass means no violation in the runs made, not a proof. Trusted: the reference codec and HTTP checks in sim/src/refws.rs, the simulated transport and scheduler. ")
NOTE = json.load(open(root + "/tools/notes.json"))
man = {
    "version": 1,
    "setup_cmd": "bash build.sh",
    "checks": [dict(property=i, quick_cmd="bash check.sh " + i, thorough_cmd="bash check.sh " + i + " thorough", evidence_file="evidence/%s.json" % i,
                    technique="deterministic simulation with fault injection", level="exploration",
                    level_note=GEN + NOTE.get(i, "")) for i in ids],
    "not_applicable": [dict(property=i, reason=NA.get(i, "no check yet")) for i in props if i not in ids],
    "notes": "No hooks in /repo: the library is generic over its streams, its entropy source (rand_os) is patched with a seeded stub in the harness crate, and the TCP layer is simulated by interposing libc symbols in the harness binary.",
}
json.dump(man, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
