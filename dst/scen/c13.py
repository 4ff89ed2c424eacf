"""C13: configured processors keep no memory between independent uses."""
import numpy as np
from .. import core, objs, procs, sched, snap
from ..core import Violation
from ..procs import FS

RUNS = {"quick": 3500, "thorough": 90000}
RULE = ("seeded plan: one configured processor (effect, oscillator, calibration, microphone array, beamformer, monopole source, FIR designer, room, wavelet, fitted filter, filter or bank) "
        "and 2-12 steps: uses on varying inputs, partial parameter changes, rejected parameter values, uses and changes that fail at a seeded external call, unusable inputs, and uses by 2-3 "
        "threads at once under seeded preemptions; after each step uses are compared with a newly built processor holding the harness-kept parameters, results also with independent laws "
        "where the documentation gives one; non-trivial = a use after an earlier use, failure or change was compared")
KEYRULE = "processor x kind of the preceding event x kind of use x input class"
REAL = ["dsptoolbox.effects, beamforming, room_acoustics, CalibrationData, designers, wavelets, Kautz/parallel/lattice/warped filters, Filter, FilterBank, LRFilterBank, QMF", "real Python threads", "numpy, scipy"]
STUB = ["thread scheduler: one thread runs at a time, every preemption is decided by the seed at library line boundaries", "external calls made by library code can be made to fail at a seeded position",
        "numpy's global generator is set to a plan value before each compared use"]
ASSUMPTIONS = ["set_advanced_parameters and designer set_parameters reset what is not passed, as documented", "methods documented to keep state (real-time processing, StateVariableFilter) are covered by C01-C03",
               "processors with a random oscillator are not used by several threads at once (the draw order would be theirs)"]
SHRINK = 200
WEIGHT = dict(specsub=2, distortion=3, compressor=2, tremolo=3, chorus=2, delay=3, lfo=2, calibration=3, mics=2, grid=2, beamformer=2, monopole=1, designer=3, room=1, morlet=1, parallel=3, kautz=2, filter=2, bank=2, structure=1)
EXC = ["MemoryError", "ValueError", "OSError", "KeyboardInterrupt"]


def gen_sig(r, heavy):
    return dict(n=r.choice([48, 100, 150] if heavy else [64, 150, 300, 400]), nch=r.choice([1, 1, 2, 3]), cls=r.choice(["Signal"] * 4 + ["ImpulseResponse", "mbs"]), s=r.randrange(1 << 30),
                fs=FS if r.random() < 0.75 else r.choice([4000, 16000]), cache=r.random() < 0.2, amp=r.choice([0.5, 0.1, 0.9]), tail=r.random() < 0.4)


def gen_use(r, P, spec, threaded=False):
    u = P.gen_use(r, spec, threaded)
    u["sig"] = gen_sig(r, P.heavy)
    u["rs"] = r.randrange(1 << 30)
    return u


def generate(r, tier):
    name = r.choice([k for k in sorted(WEIGHT) for _ in range(WEIGHT[k])])
    P = procs.PROCS[name]
    spec = P.gen(r)
    sim = spec                     # the generator follows accepted changes so that later changes make sense
    steps = []
    for _ in range(r.choice([2, 3, 5, 8, 12])):
        x = r.random()
        if x < 0.45:
            steps.append(dict(k="use", u=gen_use(r, P, sim), mess=r.random() < 0.4))
        elif x < 0.72:
            ch = P.gen_change(r, sim)
            if ch is None:
                continue
            st = dict(k="change", ch=ch)
            if r.random() < 0.12:
                st["fault"] = [round(r.random(), 4), r.choice(EXC)]
            elif not ch["bad"]:
                sim = P.upd(sim, ch) or sim
            steps.append(st)
            if r.random() < 0.7:
                steps.append(dict(k="use", u=gen_use(r, P, sim), mess=r.random() < 0.4))
        elif x < 0.82:
            steps.append(dict(k="failuse", u=gen_use(r, P, sim), fault=[round(r.random(), 4), r.choice(EXC)]))
        elif x < 0.87:
            steps.append(dict(k="baduse", u=gen_use(r, P, sim), how=r.choice(["none", "array", "fs", "nch"])))
        else:
            n = r.choice([2, 2, 3])
            steps.append(dict(k="threads", us=[[gen_use(r, P, sim, True) for _ in range(r.choice([1, 1, 2]))] for _ in range(n)], sw=sched.gen_switches(r, n)))
    return dict(cfg=dict(proc=name, spec=spec), steps=steps)


def make_signal(dsp, g):
    def one(seed):
        x = core.arr(seed, g["n"], max(1, g["nch"]), scale=g["amp"])
        if g["tail"]:
            x[g["n"] // 3: g["n"] // 2] *= 0.01
        C = dsp.ImpulseResponse if g["cls"] == "ImpulseResponse" else dsp.Signal
        return C(None, x, g["fs"], constrain_amplitude=False, activate_cache=g["cache"])
    if g["cls"] == "mbs":
        return dsp.MultiBandSignal([one(g["s"]), one(g["s"] + 1)])
    return one(g["s"])


class Use:
    """One use of a processor: inputs, call, outcome."""

    def __init__(self, dsp, P, spec, u, how=None):
        self.dsp, self.P, self.u = dsp, P, dict(u)
        self.g = dict(u["sig"])
        self.u["fs"] = self.g["fs"]
        nch = u.get("nch")
        if nch:
            self.g["nch"] = nch
        self.spec = spec
        if how == "fs":
            self.g["fs"] = 11025
        elif how == "nch":
            self.g["nch"] += 1
        self.ins = P.inputs(dsp, spec, self.u, lambda u: make_signal(dsp, self.g))
        if how == "none":
            self.ins = [None for _ in self.ins]
        elif how == "array":
            self.ins = [np.zeros((10, 2)) for _ in self.ins]
        self.before = [snap.freeze(i) for i in self.ins]

    def call(self, obj):
        np.random.seed(self.u["rs"] % (1 << 32))
        return self.P.use(self.dsp, obj, self.ins, self.u)

    def outcome(self, obj):
        try:
            return ("ok", self.call(obj))
        except Exception as e:
            if not core.through_lib(e):
                raise
            return ("exc", type(e).__name__)

    def check_inputs(self, what):
        for a, i in zip(self.before, self.ins):
            if core.same(snap.freeze(i), a, rtol=0, atol=0):
                raise Violation("input-changed/" + what, f"a use changed the object it was applied to")


def judge(name, P, dsp, spec, use, got, ctx, tag):
    """Compare an outcome with the one of a newly configured processor."""
    fresh_use = Use(dsp, P, spec, dict(use.u))
    want = fresh_use.outcome(P.build(dsp, spec))
    if got[0] != want[0] or (got[0] == "exc" and got[1] != want[1]):
        raise Violation(f"outcome-differs/{name}", f"used before: {brief(got)}; newly configured: {brief(want)}")
    if got[0] == "exc" and P.must(spec, use.u, use.g):
        raise Violation(f"configured-processor-fails/{name}", f"a newly configured one fails with {got[1]} on a valid input", use=use.u["u"])
    if got[0] == "ok":
        d = core.same(got[1], want[1])
        if d:
            raise Violation(f"result-differs/{name}", f"reused vs newly configured processor: {d}")
        law = P.law(dsp, spec, Use(dsp, P, spec, dict(use.u)).ins, use.u, got[1]) if P.deterministic(spec) else None
        if law is not None:
            out = P.arrays(got[1])
            for a, b in zip(out, law):
                if np.all(np.isfinite(b)):
                    core.require_close(f"law/{name}", a, b, rtol=1e-6, atol=1e-9)
        ctx.probe("compared " + name)
    ctx.log("use", got[0] if got[0] == "ok" else got[1])


def mess(x):
    """The caller writes into what he got."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in "fiuc":
            x[...] = 77
    elif isinstance(x, (list, tuple)):
        for i in x:
            mess(i)
    elif isinstance(x, dict):
        for i in x.values():
            mess(i)
    elif hasattr(x, "bands"):
        mess(x.bands)
    elif hasattr(x, "time_data"):
        mess(x.time_data)


def brief(o):
    return o[1] if o[0] == "exc" else "result"


def execute(plan, ctx):
    import dsptoolbox as dsp
    c = plan["cfg"]
    name = c["proc"]
    P = procs.PROCS[name]
    spec = c["spec"]
    try:
        obj = P.build(dsp, spec)
    except Exception as e:
        if not core.through_lib(e):
            raise
        ctx.probe("not buildable " + name)
        ctx.log("build", type(e).__name__)
        return
    prev, n_prev = "fresh", 0
    for si, st in enumerate(plan["steps"]):
        k = st["k"]
        if k == "use":
            u = Use(dsp, P, spec, with_force(st["u"], spec))
            got = u.outcome(obj)
            u.check_inputs(name)
            judge(name, P, dsp, spec, u, got, ctx, si)
            if st.get("mess") and got[0] == "ok":
                mess(got[1])
                ctx.probe("written into a result of " + name)
            if n_prev:
                ctx.nontrivial = True
            ctx.key(name, prev, u.u["u"], u.g["cls"], got[0])
            prev = "use"
            if "stale" in spec and st["u"].get("force") or spec.get("stale"):
                spec = dict(spec, stale=False)
        elif k == "failuse":
            if spec.get("stale"):
                continue
            u = Use(dsp, P, spec, st["u"])
            n, r0, e0 = sched.count_calls(lambda: Use(dsp, P, spec, st["u"]).call(P.build(dsp, spec)))
            if n == 0:
                continue
            exc = injected(st["fault"][1])
            f = sched.Fault(1 + int(st["fault"][0] * n), exc)
            with f:
                try:
                    u.call(obj)
                    res = "ok"
                except BaseException as e:
                    if not (f.fired or core.through_lib(e)):
                        raise
                    res = type(e).__name__
            u.check_inputs(name)
            if f.fired:
                ctx.fault("external call fails: " + st["fault"][1])
            ctx.log("failuse", res, f.fired)
            prev = "failed use"
        elif k == "baduse":
            if spec.get("stale"):
                continue
            u = Use(dsp, P, spec, st["u"], st["how"])
            if not u.ins:
                continue
            try:
                got = ("ok", u.call(obj))
            except Exception as e:
                got = ("exc", type(e).__name__)
            ctx.fault("unusable input" if got[0] == "exc" else "odd input")
            ctx.log("baduse", got[0])
            prev = "rejected use"
        elif k == "change":
            ch = st["ch"]
            f = None
            if "fault" in st:
                probe = P.build(dsp, spec)
                n, _, _ = sched.count_calls(lambda: P.change(dsp, probe, ch))
                f = sched.Fault(1 + int(st["fault"][0] * n), injected(st["fault"][1])) if n else None
            err = None
            if f:
                with f:
                    try:
                        P.change(dsp, obj, ch)
                    except BaseException as e:
                        if not (f.fired or core.through_lib(e)):
                            raise
                        err = e
                if f.fired:
                    ctx.fault("external call fails: " + st["fault"][1])
            else:
                try:
                    P.change(dsp, obj, ch)
                except Exception as e:
                    if isinstance(e, Violation):
                        raise
                    err = e
            ctx.log("change", ch["m"], type(err).__name__ if err else "ok")
            if err is None:
                if ch["bad"]:
                    ctx.probe("invalid value accepted " + name)
                    return
                spec = P.upd(spec, ch)
                prev = "change"
            else:
                ctx.fault("rejected parameters")
                if not ch["bad"] and not (f and f.fired):
                    new = P.upd(spec, ch)
                    try:
                        P.build(dsp, new)
                        ok = True
                    except Exception:
                        ok = False
                    if ok:
                        raise Violation(f"valid-change-rejected/{name}/{ch['m']}", f"{type(err).__name__}: {err}", tb=core.short_tb(err))
                prev = "rejected change"
            # whatever happened, the parameters are now exactly the expected ones
            n_prev += 1
            continue
        elif k == "threads":
            if not P.threads or not P.deterministic(spec) or spec.get("stale"):
                continue
            uses = [[Use(dsp, P, spec, u) for u in us] for us in st["us"]]
            got = [[None] * len(us) for us in uses]

            def task(i):
                def run():
                    for j, u in enumerate(uses[i]):
                        got[i][j] = u.outcome(obj)
                return run
            sc = sched.Scheduler([task(i) for i in range(len(uses))], st["sw"]).run()
            for t in sc.tasks:
                if t.exc is not None:
                    raise t.exc
            ctx.log("trace", sc.trace)
            ctx.fault("thread preempted inside library code", sc.switched)
            for i, us in enumerate(uses):
                for j, u in enumerate(us):
                    u.check_inputs(name)
                    judge(name, P, dsp, spec, u, got[i][j], ctx, si)
            ctx.key(name, prev, "threads", len(uses), min(sc.switched, 8))
            if sc.switched:
                ctx.nontrivial = True
            prev = "threads"
        n_prev += 1
        ctx.sim_time += 0.02


def with_force(u, spec):
    return dict(u, force=True) if spec.get("stale") else u


def injected(n):
    import builtins
    return getattr(builtins, n)("injected")
