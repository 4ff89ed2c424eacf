import json,re,os,subprocess
P="/verif/DESIGN.md"
s=open(P).read()
s=s.split("\n## 5. ")[0].rstrip()+"\n"
d=json.load(open("/verif/known_findings.json"))
by={}
for x in d["fixed"]:
    m=re.match(r"fixed: property=(\S+) (\S+) (.*)",x); by.setdefault(m[1],[]).append((m[2],m[3]))
out=["\n## 5. Defects found and repaired\n",
f"{len(d['fixed'])} genuine defects were repaired, each in one minimal `fix:` commit (list with commit ids also in `known_findings.json`).",
"All were reproduced against the real code by the check of the property named here, and that check reports them again when the commit is reverted.\n"]
for p in sorted(by):
    out.append(f"**{p}** ({len(by[p])}): "+"; ".join(f"{t} (`{h}`)" for h,t in by[p])+".\n")
out.append("""Recorded, not repaired (`known_findings.json`): **C12-play-vanish**, `play` returns normally when the device vanishes in the
middle: `sounddevice.play()` gives no way to tell an early end of its stream from a complete one; a repair would mean
replacing `sd.play` altogether.

Pure defects seen on the way, outside the properties that simulation can decide (not repaired): QMF downsampling in
summed mode with an odd length raises; `plot_bode` with group delay and an array of latencies raises; the first-channel
normalisation of one-channel plots raises; `convert_sample_representation` names numpy types that do not exist for float
input; `FilterBank.get_transfer_function` in summed mode starts from ones; `min_phase_ir` with odd lengths; `trim_ir` of
silence; short signals in `lufs_integrated`.

### False alarms met and how they were removed

* C12: runs with an endless callback stream hit the step cap of the simulated card; such plans now always contain a stop.
* C01/C14: coefficient structures whose poles all lie in the origin are rejected by `from_filter`; they are built
  through the constructor. The absolute tolerance is relative to the input where the response is (nearly) zero.
* C11: the minimiser could drift from one violation to another kind; it now requires the same class and place, and does
  not shrink sampling rates (which changes what a draw means).
* C08: an operation of the table that edited an operand itself (glue, not library) was corrected.
* C04: audio comparisons allow the two quantisation steps of the chosen depth.
* C07: operations documented as in-place may end before or after; objects that keep results of queries by design
  (`ShoeboxRoom.modes_hz`, `mixing_time_s`) are not compared in these attributes.

## 6. Determinism

`check.py CXX --digests F --workers N` writes the digest of the event log of each run. DETERMINISM

## 7. Planted bugs

Each directory of `seeded/` was validated in a scratch copy: the patch applies, the stable tests pass, `demo.sh` exits 0
without and non-zero with it. `tools/plant.py ID` repeats validation and check. All are caught by the quick check of the
property they name:

| bug | needs | breaks |
|---|---|---|""")
for b in sorted(os.listdir("/verif/seeded")):
    m=json.load(open(f"/verif/seeded/{b}/meta.json"))
    c=lambda t:t.replace("\n"," ").replace("|","/")
    out.append(f"| {b} | {c(m['needs'])} | {c(m['what_it_breaks'])} |")
extra="/verif/tools/design_sweeps.md"
if os.path.exists(extra): out.append("\n"+open(extra).read().rstrip())
det="/verif/tools/design_determinism.md"
t="\n".join(out)
t=t.replace("DETERMINISM",open(det).read().strip() if os.path.exists(det) else "")
open(P,"w").write(s+t+"\n")
