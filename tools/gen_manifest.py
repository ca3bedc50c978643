#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of properties with a check."""
import json, os, re, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
src = open(os.path.join(root, "broker/src/main.rs")).read()
claimed = set(re.findall(r'"([BT]\d\d)" =>', src))
codec = os.path.join(root, "codec/src/main.rs")
if os.path.exists(codec):
    claimed |= set(re.findall(r'"(P\d\d)" =>', open(codec).read()))
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
hooks = [l.split()[0] for l in hook.splitlines() if "model checker" in l]
TECH = {
 "B": "stateless model checking of the real broker under a controlled tokio runtime: deviation-bounded exhaustive exploration of schedules, preemptions, I/O segmentations and timers",
 "T": "explicit enumeration of all operation sequences and schedules on the real topics table against a reference table",
 "P": "exhaustive bounded enumeration of frames, segmentations and builder-call sequences on the real codec against a reference model of MQTT 5",
}
NOTE = {
 "B": "Exhaustive within the bounds stated in the evidence (participants, packets and deviations from the default schedule), on the implementation itself. Trusts the modified tokio in vendor/tokio (single-threaded executor with preemption at synchronisation points, simulated network, virtual clock).",
 "T": "Exhaustive within the stated depth, alphabet and deviations, on the implementation itself. Trusts the reference table and the controlled runtime.",
 "P": "Exhaustive over the stated alphabets and boundary values, on the implementation itself. Trusts the independent reference codec.",
}
m = {"version": 1, "setup_cmd": "./run.sh build",
 "hooks": {"guard": "cfg(apiformes_mc)", "enable": "RUSTFLAGS=--cfg apiformes_mc, set by broker/.cargo/config.toml", "source_commits": hooks},
 "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in claimed:
        m["checks"].append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
            "technique": TECH[i[0]], "level": "model_checking", "level_note": NOTE[i[0]]})
    else:
        m["not_applicable"].append({"property": i, "reason": "its check is not built yet"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print("claimed:", sorted(claimed))
