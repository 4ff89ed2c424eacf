"""Driver: seeded search over simulated runs, minimisation, replay, evidence.

Every run executes in its own forked child of a process that has only imported the
libraries, so one plan is one complete, repeatable execution: nothing an earlier run did
can influence it, and a replay in a fresh interpreter sees the same world."""
import os, sys, json, time, signal, pickle, select, importlib, subprocess, resource, shutil, gc
from . import env, core

SURVEY = False
FAST = bool(os.environ.get("DST_FAST"))   # for sweeps: the first violation ends the search, neither minimised nor repeated
RUN_CPU_S = 150        # a run that needs more CPU than this makes no progress
WALL_CAP = {"quick": 780, "thorough": 6 * 3600}


def load(prop):
    return importlib.import_module("dst.scen." + prop.lower())


def warm():
    """Touch lazily initialised parts of third-party libraries (never of dsptoolbox)."""
    import numpy as np, scipy.signal as sig, matplotlib.pyplot as plt, scipy.linalg, scipy.optimize  # noqa
    import scipy.stats, scipy.interpolate, scipy.special, scipy.spatial  # noqa
    f, a = plt.subplots()
    a.plot([1, 2], [1, 2])
    a.set_xscale("log")
    a.legend(["a"])
    f.canvas.draw()
    plt.close("all")
    np.random.seed(0)
    sig.sosfilt(sig.butter(2, 0.2, output="sos"), np.zeros(8))
    sig.oaconvolve(np.zeros(64), np.zeros(9))
    np.linalg.svd(np.eye(3))


def prepare(scen, seed, plan=None):
    """Helper processes a scenario needs, started before any run is forked."""
    if hasattr(scen, "prepare"):
        scen.prepare(seed, plan)


# ------------------------------------------------------------------ one run in a child
def _child(scen, plan, wfd):
    resource.setrlimit(resource.RLIMIT_CPU, (RUN_CPU_S, RUN_CPU_S + 5))
    scratch = os.path.join(env.SCRATCH, "run%d" % os.getpid())
    os.makedirs(scratch, exist_ok=True)
    out = {}
    try:
        v, ctx = core.run_plan(scen, plan, scratch)
        out = dict(v=None if v is None else (v.vclass, v.msg, v.detail), digest=ctx.h.hexdigest(),
                   n=ctx.n_events, faults=ctx.faults, probes=ctx.probes, keys=sorted(ctx.keys),
                   sim=ctx.sim_time, nontrivial=ctx.nontrivial, tail=ctx.tail[-40:])
    except BaseException as e:  # harness error
        import traceback
        out = dict(err=f"{type(e).__name__}: {e}\n" + "".join(traceback.format_exception(e))[-6000:])
    try:
        data = json.dumps(out, default=core._js).encode()
    except Exception as e:
        data = json.dumps(dict(err="unserialisable result: %r" % (e,))).encode()
    os.write(wfd, b"")
    with os.fdopen(wfd, "wb") as f:
        f.write(data)
    shutil.rmtree(scratch, ignore_errors=True)
    os._exit(0)


def run_isolated(scen, plan):
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if not os.environ.get("DST_DEBUG"):
            os.dup2(devnull, 2)
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        _child(scen, plan, w)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    shutil.rmtree(os.path.join(env.SCRATCH, "run%d" % pid), ignore_errors=True)
    if not data:
        if os.WIFSIGNALED(status):
            s = os.WTERMSIG(status)
            if s in (signal.SIGXCPU,):
                return dict(v=("no-progress", f"run used more than {RUN_CPU_S} s of CPU time", {}),
                            digest="hang", n=0, faults={}, probes={}, keys=[], sim=0, nontrivial=False, tail=[])
            return dict(err=f"run died with signal {s}")
        return dict(err=f"run ended without a result, status {status}")
    return json.loads(data)


def make_plan(scen, prop, seed, i, tier):
    r = core.rng_for(seed, prop, i)
    p = scen.generate(r, tier)
    p["prop"], p["run"] = prop, i
    p.setdefault("seed", core.derive(seed, prop, i, "exec"))
    p.setdefault("cfg", {})
    return json.loads(json.dumps(p, default=core._js))


# ------------------------------------------------------------------ known findings
def known(prop):
    p = os.path.join(env.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop]


def match_known(kn, v):
    for k in kn:
        if k["vclass"] == v[0] and all(str(v[2].get(a)) == str(b) for a, b in k.get("where", {}).items()):
            return k
    return None


# ------------------------------------------------------------------ minimise
def minimise(scen, plan, vclass, where, budget, seconds):
    end = time.time() + seconds
    n = [0]

    def fails(p):
        if n[0] >= budget or time.time() > end:
            return False
        n[0] += 1
        res = run_isolated(scen, p)
        return bool(res.get("v")) and res["v"][0] == vclass and all(
            str(res["v"][2].get(a)) == str(b) for a, b in where.items())
    return core.shrink(scen, plan, fails), n[0]


# ------------------------------------------------------------------ search
def worker(scen, prop, seed, tier, idx, wfd, kn, stop_path):
    out = os.fdopen(wfd, "wb")

    def send(m):
        d = json.dumps(m, default=core._js).encode()
        out.write(len(d).to_bytes(8, "big") + d)
        out.flush()
    errors = 0
    for i in idx:
        if os.path.exists(stop_path):
            break
        try:
            plan = make_plan(scen, prop, seed, i, tier)
        except Exception as e:
            import traceback
            send(dict(i=i, err="generate: " + traceback.format_exc()[-3000:]))
            break
        res = run_isolated(scen, plan)
        res["i"] = i
        res.pop("tail", None)
        if i < 3:
            res["plan"] = plan
        if res.get("v"):
            k = match_known(kn, res["v"])
            if k is not None:
                res["known"] = k["id"]
            elif not os.path.exists(stop_path):
                open(stop_path, "w").close()
                vclass = res["v"][0]
                where = {a: res["v"][2][a] for a in ("where", "op", "cls", "what", "gen") if a in res["v"][2]}
                mp, n = (plan, 0) if FAST else minimise(scen, plan, vclass, where, getattr(scen, "SHRINK", 300), 150)
                res["minimised"], res["shrink_runs"], res["plan"] = mp, n, plan
        send(res)
        if "err" in res and not SURVEY:
            errors += 1
            if errors >= 6:                # the search goes on past a few errors of the harness: a violation outweighs them
                open(stop_path, "w").close()
                break
    send(dict(done=True))
    out.close()
    os._exit(0)


def search(prop, seed, tier, n_runs, n_workers, collect=None, stop_on_violation=True):
    scen = load(prop)
    kn = known(prop)
    stop_path = os.path.join(env.SCRATCH, "stop_" + prop)
    if os.path.exists(stop_path):
        os.unlink(stop_path)
    gc.collect()
    gc.freeze()
    procs = {}
    for w in range(n_workers):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                worker(scen, prop, seed, tier, range(w, n_runs, n_workers), wfd, kn, stop_path)
            except BaseException:
                import traceback
                traceback.print_exc()
                os._exit(3)
        os.close(wfd)
        procs[r] = [pid, b"", False]
    results, t0, timed_out = [], time.time(), False
    while procs:
        if time.time() - t0 > WALL_CAP[tier]:
            timed_out = True
            open(stop_path, "w").close()
        rd, _, _ = select.select(list(procs), [], [], 1.0)
        for fd in rd:
            d = os.read(fd, 1 << 20)
            p = procs[fd]
            if not d:
                os.waitpid(p[0], 0)
                os.close(fd)
                if not p[2]:
                    results.append(dict(i=-1, err="worker died"))
                del procs[fd]
                continue
            p[1] += d
            while len(p[1]) >= 8:
                ln = int.from_bytes(p[1][:8], "big")
                if len(p[1]) < 8 + ln:
                    break
                m = json.loads(p[1][8:8 + ln])
                p[1] = p[1][8 + ln:]
                if m.get("done"):
                    p[2] = True
                else:
                    results.append(m)
    results.sort(key=lambda m: m["i"])
    return scen, results, time.time() - t0, timed_out


# ------------------------------------------------------------------ replay
def replay(path, quiet=False):
    rep = json.load(open(path))
    scen = load(rep["property"])
    prepare(scen, None, rep["plan"])
    res = run_isolated(scen, rep["plan"])
    if "err" in res:
        print("HARNESS-ERROR", res["err"])
        return 2
    if not quiet:
        for t in res["tail"]:
            print("  ", t)
    if res["v"]:
        print("class:", res["v"][0])
        print("what :", res["v"][1])
        if res["v"][2]:
            print("where:", json.dumps(res["v"][2]))
        print("digest:", res["digest"], "recorded:", rep["digest"],
              "IDENTICAL" if res["digest"] == rep["digest"] else "DIFFERENT")
        print(f"VIOLATION property={rep['property']} replay={path}")
        return 1
    print("replay: property held")
    return 0


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="import everything and run each scenario once")
    ap.add_argument("--replay")
    ap.add_argument("--zygote", action="store_true", help="internal: another interpreter for C11")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--run", type=int, help="execute a single run index and print its log")
    ap.add_argument("--digests", help="write run digests to this file (determinism proof)")
    ap.add_argument("--all", action="store_true", help="survey: do not stop at the first violation")
    a = ap.parse_args(argv)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t_start = time.time()
    env.setup()
    warm()
    if a.zygote:
        from . import zygote
        return zygote.serve()
    if a.replay:
        return replay(a.replay)
    if a.selftest:
        return selftest(seed, tier)
    prop = a.prop.upper()
    scen = load(prop)
    if a.run is not None:
        plan = make_plan(scen, prop, seed, a.run, tier)
        prepare(scen, seed, plan)
        print(json.dumps(plan)[:6000])
        res = run_isolated(scen, plan)
        for t in res.get("tail", []):
            print("  ", t)
        print({k: res[k] for k in res if k not in ("tail", "keys")})
        return 0
    prepare(scen, seed)
    if os.environ.get("DST_COV"):
        from . import cov
        state = cov.start(env.REPO)
        search(prop, seed, tier, a.runs or scen.RUNS[tier], a.workers)
        cov.dump(state, os.environ["DST_COV"])
        return 0
    n_runs = a.runs or scen.RUNS[tier]
    if a.all:
        return survey(prop, scen, seed, tier, n_runs, a.workers)
    scen, results, wall, timed_out = search(prop, seed, tier, n_runs, a.workers)
    errs = [m for m in results if "err" in m]
    ok = [m for m in results if "err" not in m]
    viol = [m for m in ok if m.get("v") and not m.get("known")]
    kn_hits = {}
    for m in ok:
        if m.get("known"):
            kn_hits[m["known"]] = kn_hits.get(m["known"], 0) + 1
    if a.digests:
        with open(a.digests, "w") as f:
            for m in ok:
                f.write(f"{m['i']} {m['digest']} {m['v'][0] if m['v'] else '-'}\n")
    write_evidence(prop, scen, seed, tier, ok, viol, kn_hits, wall, time.time() - t_start)
    for k in known(prop):
        print(f"KNOWN-FINDING: property={prop} {k['id']}: {k['what']} (met in {kn_hits.get(k['id'], 0)} runs)")
    rc = 0
    if viol:
        rc = report(prop, seed, scen, viol)
    if rc != 1 and errs:
        for m in errs[:3]:
            print(f"HARNESS-ERROR run={m['i']} {m['err']}")
        return 2
    if rc:
        return rc
    if timed_out or len(ok) < n_runs:
        print(f"INCOMPLETE {len(ok)} of {n_runs} runs in {wall:.0f} s")
        return 3
    print(f"OK property={prop} runs={len(ok)} wall={wall:.1f}s")
    return 0


def selftest(seed, tier):
    """Setup: the framework imports and every scenario executes one run."""
    bad = 0
    for f in sorted(os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "scen"))):
        if f.startswith("c") and f.endswith(".py"):
            prop = f[:-3].upper()
            scen = load(prop)
            plan = make_plan(scen, prop, seed, 0, tier)
            prepare(scen, seed, plan)
            res = run_isolated(scen, plan)
            if "err" in res:
                bad += 1
            print(prop, "ok" if "err" not in res else res["err"])
    return 2 if bad else 0


def report(prop, seed, scen, viol):
    """Writes the replay file of the first violation that repeats in a fresh process."""
    if FAST:
        print("KILLED", *viol[0]["v"][:2])
        return 1
    cand = [x for x in viol if x.get("minimised")][:3]
    cand += [x for x in viol if x not in cand][:4]
    for m in cand:
        rc = _report_one(prop, seed, scen, m, m.get("minimised"))
        if rc != 1 and m.get("minimised"):
            rc = _report_one(prop, seed, scen, m, None)
        if rc == 1:
            return 1
    return 2


def _report_one(prop, seed, scen, m, plan):
    d = os.path.join(env.VERIF, "replays")
    try:
        os.makedirs(d, exist_ok=True)
    except OSError:
        d = "/tmp"
    plan = plan or make_plan(scen, prop, seed, m["i"], os.environ.get("VERIF_TIER", "quick"))
    res = run_isolated(scen, plan)
    if not res.get("v"):
        print("HARNESS-ERROR violation of run", m["i"], "did not repeat:", m["v"])
        return 2
    path = os.path.join(d, f"{prop}-{seed}-{m['i']}.json")
    json.dump(dict(property=prop, verif_seed=seed, run=m["i"], vclass=res["v"][0], msg=res["v"][1],
                   detail=res["v"][2], digest=res["digest"], plan=plan, original_steps=len(m.get("plan", plan).get("steps", [])),
                   minimised_steps=len(plan.get("steps", [])), shrink_runs=m.get("shrink_runs", 0)),
              open(path, "w"), indent=1, default=core._js)
    e = dict(os.environ)
    e.pop("DST_ENV", None)
    p = subprocess.run([sys.executable, os.path.join(env.VERIF, "check.py"), prop, "--replay", path],
                       capture_output=True, text=True, env=e)
    print(p.stdout[-3000:])
    if p.returncode != 1 or f"class: {res['v'][0]}\n" not in p.stdout:
        print("HARNESS-ERROR the replay in a fresh process did not repeat the violation", p.returncode, p.stderr[-500:])
        return 2
    if "IDENTICAL" not in p.stdout:
        print("note: the replay fails in the same way, but its event log differs: the code under test meets a source of nondeterminism that is not simulated")
    print(f"run {m['i']}: {res['v'][0]}: {res['v'][1]}")
    print(f"VIOLATION property={prop} replay={path}")
    return 1


def survey(prop, scen, seed, tier, n_runs, workers):
    """Development aid: all runs, violations grouped by class."""
    global known, SURVEY
    SURVEY = True
    known = lambda p: [dict(id="*", property=p, vclass=None, what="")]  # noqa
    globals()["match_known"] = lambda kn, v: dict(id=v[0])
    scen, results, wall, _ = search(prop, seed, tier, n_runs, workers)
    groups = {}
    for m in results:
        if "err" in m:
            groups.setdefault("HARNESS " + m["err"][-1500:], []).append(m["i"])
        elif m["v"]:
            groups.setdefault(m["v"][0] + " " + json.dumps({k: x for k, x in m["v"][2].items() if k != "tb"}), []).append((m["i"], m["v"][1][:300], m["v"][2].get("tb")))
    for g, l in sorted(groups.items(), key=lambda x: -len(x[1])):
        print(f"{len(l):6d} {g}\n        e.g. {l[0]}")
    ok = [m for m in results if "err" not in m]
    pr, fl, keys = {}, {}, set()
    for m in ok:
        for k, x in m["probes"].items():
            pr[k] = pr.get(k, 0) + x
        for k, x in m["faults"].items():
            fl[k] = fl.get(k, 0) + x
        keys.update(m["keys"])
    print("runs", len(ok), "wall", round(wall, 1), "nontrivial", sum(m["nontrivial"] for m in ok), "keys", len(keys))
    print("probes", dict(sorted(pr.items())))
    print("faults", dict(sorted(fl.items())))
    return 0


def write_evidence(prop, scen, seed, tier, ok, viol, kn_hits, wall, total):
    pr, fl, keys, nt = {}, {}, set(), set()
    sim = 0.0
    for m in ok:
        for k, x in m["probes"].items():
            pr[k] = pr.get(k, 0) + x
        for k, x in m["faults"].items():
            fl[k] = fl.get(k, 0) + x
        keys.update(m["keys"])
        sim += m["sim"]
        if m["nontrivial"]:
            nt.add(m["digest"])
    ev = dict(
        property=prop, tier=tier, seed=seed, level=getattr(scen, "LEVEL", "exploration"),
        coverage=dict(
            evaluations=len(ok), distinct_nontrivial=len(nt), rule=scen.RULE,
            samples=[m["plan"] for m in ok if m.get("plan")][:2] or [make_plan(scen, prop, seed, 0, tier)],
            simulated_runs_per_hour=round(len(ok) / max(wall, 1e-9) * 3600),
            seeds_per_hour=round(len(ok) / max(wall, 1e-9) * 3600),
            events=sum(m["n"] for m in ok),
            simulated_time_s=round(sim, 3), simulated_time_meaning=getattr(scen, "SIMTIME", "signal time (samples / sampling rate) processed in the runs"),
            faults_injected=dict(sorted(fl.items())), distinct_states=len(keys), distinct_states_measure=scen.KEYRULE,
            probes=dict(sorted(pr.items())), components_real=scen.REAL, components_stubbed=scen.STUB,
            known_findings_met=kn_hits, fault_free_runs=sum(1 for m in ok if not m["faults"]),
        ),
        assumptions=getattr(scen, "ASSUMPTIONS", []), wall_s=round(total, 2), violations=len(viol))
    d = os.path.join(env.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, prop + ".json"), "w"), indent=1, default=core._js)
