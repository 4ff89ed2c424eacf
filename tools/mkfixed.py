"""Writes the "fixed" list of known_findings.json from /repo's history."""
import json, subprocess
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h|%s"], capture_output=True, text=True).stdout.strip().splitlines()
log = [l.split("|", 1) for l in log if "|fix: " in l]
PROP = ["C01", "C01", "C01", "C01", "C01", "C01", "C02", "C02", "C02", "C01", "C03", "C03", "C03",
        "C06", "C06", "C06", "C06", "C06"] + ["C08"] * 10 + ["C07"] * 6 + ["C09"] * 5 + ["C10"] * 3 + ["C08"]
REST = {"effects keep the state": "C13", "Compressor applies": "C13", "DigitalDelay": "C13", "rejected effect": "C13", "CalibrationData": "C13", "ParallelFilter uses": "C13", "KautzFilter": "C13", "grids can": "C13",
        "add_detailed": "C13", "PhaseLinearizer": "C13", "MicArray": "C13", "concurrent beamformer": "C13", "saving audio": "C05", "audio durations": "C12", "playback keeps": "C12", "play rejects": "C12",
        "device of a single": "C12", "CallbackStop": "C12", "recordings that": "C12", "normalizing silence": "C12", "metadata does not": "C11", "colored noise": "C11", "silent frames": "C11", "padding of": "C11", "keeps its gain": "C01", "complex interpolation": "C09", "room mixing time": "C13", "detailed absorption of a room": "C13", "notes of a signal split": "C10", "coefficients set in a parallel filter": "C13", "mix of a compressor": "C13", "read errors are not taken": "C05", "array_center": "C13", "mixing sources": "C08", "smoothing with a given": "C08"}
out = []
for i, (h, s) in enumerate(log):
    p = PROP[i] if i < len(PROP) else next((v for k, v in REST.items() if k in s), None)
    assert p, s
    out.append(f"fixed: property={p} {h} {s[5:]}")
P = "/verif/known_findings.json"
d = json.load(open(P))
d["fixed"] = out
json.dump(d, open(P, "w"), indent=1)
print("\n".join(out))
