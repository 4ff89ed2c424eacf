"""Writes MANIFEST.json. CLAIMED lists the properties with a check."""
import json
PY = "/opt/venv/bin/python"
CLAIMED = {
 "C01": ("seeded simulation of interleaved per-channel sample streams, resets and offline calls against per-channel reference models", "exploration",
         "Random histories of pushes, resets, channel-count changes, offline calls and several live instances per run; sampled, not exhaustive. Trusts scipy.signal as the reference filter and the tolerance 1e-7 relative."),
 "C02": ("seeded simulation of per-channel block schedules against direct convolution", "exploration",
         "Random block sizes, filter lengths, channel orders, resets and re-preparations; sampled. Trusts numpy.convolve."),
 "C03": ("seeded simulation of chunked streams with interleaved stateless calls against one-shot filtering", "exploration",
         "Random cuts, channel counts, structures and calls in between; sampled. The oracle is the library's own one-shot stateful call, itself cross-checked for single filters against scipy."),
 "C04": ("seeded lives of a savable object in processes that really die and restart from the newest checkpoint, every outcome compared with an uninterrupted life that never saves; audio files written and read back", "exploration",
         "Sampled histories, checkpoints and crash points. Crashes happen between operations or at an external call inside a save and lose memory only. Audio precision is judged at two quantisation steps of the chosen bit depth."),
 "C05": ("simulated disk below Python and libsndfile (preloaded shim) with seeded errors, full disk, short transfers, interrupted calls and process death inside system calls, against a model of what each file may hold", "exploration",
         "Sampled sequences of saves, loads and faults, at any system call and byte offset. The disk never acknowledges bytes it then loses; audio files cut short from outside are not judged."),
 "C06": ("seeded histories of edits, settings, queries, plots and failing external calls on a caching signal, against a newly built signal with the cache off", "exploration",
         "Random histories; sampled. Faults are injected at calls library code makes into numpy, scipy, matplotlib, copy and pickle. Writes into the live time-data array of a caching signal are outside the property."),
 "C07": ("seeded failure injection at external calls inside about 310 public operations and 60 in-place edits, plus rejected arguments; state compared before/after and repetition against an undisturbed twin", "exploration",
         "Sampled operations, arguments and failure points. Failures are raised at calls that library code makes into numpy, scipy, matplotlib, copy or pickle; failures between two bytecodes are not simulated. Whether a doubtful argument is accepted is not judged."),
 "C08": ("seeded order and thread interleaving of about 310 public operations on shared operands, against each call alone in its own pristine process", "exploration",
         "Sampled histories, arguments and schedules. Threads are preempted at source lines of library code; numba compilation is off and its parallel loops iterate in a seeded order. Operations that draw plots or random numbers are only interleaved sequentially."),
 "C09": ("seeded histories of channel, band and filter edits (valid, rejected, failing part-way) over a pool of containers, against list models compared after every step", "exploration",
         "Sampled histories and failure points. Selections, appends and collapses put their result back into the pool. Members are not edited behind the back of the container that holds them."),
 "C10": ("seeded interleaved histories of deriving, editing, streaming, writing into obtained arrays and failing calls over a pool of related objects, each compared bit by bit after every step", "exploration",
         "Sampled histories over about 170 deriving operations and 60 edits. Arrays returned by a query may alias the queried object; an object built directly on a caller's array may share it (only writes by the library are judged there)."),
 "C11": ("seeded call histories repeated call by call in interpreters with other hash seeds, entropy, clocks and generator states, and random functions driven by a simulated generator with extreme draws", "exploration",
         "Sampled histories over the table of public operations and processors, three other interpreters per run of the check; documented properties of generated signals are judged under eight kinds of draws. Wall clocks read through the datetime module are not simulated."),
 "C12": ("simulated sound card below the real sounddevice module with seeded devices, block schedules, loopback and faults (unplugging, failing opens and starts, interrupts), delivered samples compared with a model of the request", "exploration",
         "Sampled sequences of calls and faults. PortAudio and the hardware are a stub; its callbacks run in the calling thread. Recorded channels are requested in ascending order."),
 "C13": ("seeded histories of uses, parameter changes, failures and threads on one configured processor, every use compared with a newly built processor holding the parameters the harness kept", "exploration",
         "Sampled histories over 19 kinds of processors. Preemption at source lines; failures at calls into external libraries. The parameters a processor holds are followed by the harness from the documented meaning of each setter."),
 "C14": ("deterministic thread scheduler (line-level preemption on sys.monitoring) over shared filters against per-channel reference models", "exploration",
         "Threads run one at a time; preemption points are source lines of library code, drawn from the seed. Sampled schedules; preemption inside a C call or between two bytecodes of one line is not simulated."),
}
NA = {
 "C15": "Pure functions of their input: no schedule, clock, fault, I/O or history can influence the result, so there is nothing to simulate; generating inputs for them would be property testing in simulator vocabulary.",
 "C16": "Pure design mathematics: results depend only on the arguments; no schedule, fault or history is involved (the stateful side of the same classes is covered by C01-C04, C09, C14).",
 "C17": "Pure numerical estimation from given data; no schedule, fault, clock or history is involved (the measurement chain that produces such data is covered by C12).",
 "C18": "Pure definitions of measures over given data; no schedule, fault, clock or history is involved.",
}
PENDING = "check under construction"
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = dict(version=1, setup_cmd=f"{PY} /verif/check.py --selftest",
         checks=[dict(property=i, quick_cmd=f"{PY} /verif/check.py {i}", thorough_cmd=f"env VERIF_TIER=thorough {PY} /verif/check.py {i}",
                      evidence_file=f"evidence/{i}.json", technique="deterministic simulation: " + CLAIMED[i][0], level=CLAIMED[i][1], level_note=CLAIMED[i][2])
                 for i in ids if i in CLAIMED],
         not_applicable=[dict(property=i, reason=NA.get(i, PENDING)) for i in ids if i not in CLAIMED],
         notes="No hooks are compiled into /repo: every seam (scheduler, faults, disk, audio device, randomness) is installed from outside the package.")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
