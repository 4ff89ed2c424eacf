"""C08: calls that return results never disturb their operands, hidden state or each other."""
import os, pickle, struct
import numpy as np
from .. import core, registry as R, sched, snap
from ..core import Violation

RUNS = {"quick": 3000, "thorough": 40000}
RULE = ("seeded plan: 2-12 calls drawn from the table of about 390 public operations on a shared set of operands, executed one after the other or by "
        "2-3 caller threads under the seeded scheduler, against each call alone on fresh operands in its own pristine process; parallel loops of the "
        "library run their iterations in a seeded order; non-trivial = two calls share an operand")
KEYRULE = "distinct (mode, operation, preceding operation on the same operand) combinations"
REAL = ["every public module of dsptoolbox", "numpy, scipy, matplotlib (Agg)"]
STUB = ["numba just-in-time compilation is off, prange iterates in a seeded order", "threads are serialised by the simulator"]
ASSUMPTIONS = ["preemption at source-line boundaries of library code"]
SHRINK = 160


def generate(r, tier):
    w = R.gen_world(r)
    threads = r.random() < 0.4
    excl = ("plot", "rng") if threads else ()
    n = r.choice([2, 3, 4, 6, 8, 12]) if not threads else r.choice([2, 2, 3, 4, 6])
    steps = []
    hot = r.random() < 0.5     # concentrate on few operands
    pool = None
    family = sorted({R.gen_call(r, w, excl)["op"] for _ in range(r.choice([1, 1, 2]))}) if r.random() < 0.4 else None   # the same operation again, with other arguments and operands
    for _ in range(n):
        if family:
            o = R.OPS[r.choice(family)]
            st = dict(op=o.name, uses=o.uses(r), a=o.gen(r, w), t=r.randrange(3) if threads else 0)
            old = [x for x in steps if x["op"] == o.name]
            if old and r.random() < 0.6:   # as before, but for one argument or for the operands
                was = r.choice(old)
                k = r.choice(sorted(was["a"]) + ["uses"])
                if k != "uses":
                    st["uses"] = was["uses"]
                st["a"] = {x: st["a"].get(x, v) if x == k else v for x, v in was["a"].items()}
                st["mix"] = True
            steps.append(st)
            continue
        if steps and r.random() < 0.12:
            st = dict(r.choice(steps))
        else:
            for _ in range(30):
                st = R.gen_call(r, w, excl)
                if not hot or pool is None or set(st["uses"]) & pool:
                    break
            if pool is None:
                pool = set(st["uses"])
        st = dict(st, t=r.randrange(3) if threads else 0)
        steps.append(st)
    plan = dict(cfg=dict(world=w, threads=threads, prange=r.randrange(1 << 20), share=r.random() < 0.9), steps=steps)
    if threads:
        plan["switches"] = sched.gen_switches(r, 3)
    return plan


class PRange:
    """Iterations of a parallel loop in a seeded order."""
    seed = 0

    def __new__(cls, *a):
        n = list(range(*map(int, a)))
        np.random.RandomState((PRange.seed + len(n)) % (1 << 32)).shuffle(n)
        return iter(n)


def alone(d, dsp, w, st, seed):
    """The call on fresh operands in a forked, pristine process."""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            W = R.World(dsp, w)
            obj = [W[k] for k in st["uses"]]
            np.random.seed(seed)
            res, e = R.call(d, obj, st)
            out = pickle.dumps((snap.freeze(res), None if e is None else (type(e).__name__, str(e)[:200])))
        except BaseException as e:
            out = pickle.dumps(("harness", repr(e)))
            with os.fdopen(wr, "wb") as f:
                f.write(b"E" + out)
            os._exit(0)
        with os.fdopen(wr, "wb") as f:
            f.write(b"R" + out)
        os._exit(0)
    os.close(wr)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if data[:1] != b"R":
        raise RuntimeError("baseline: %r %r" % (st, pickle.loads(data[1:]) if data else None))
    return pickle.loads(data[1:])


def compare(st, res, e, base, how):
    bres, bexc = base
    if (e is None) != (bexc is None) or (e is not None and type(e).__name__ != bexc[0]):
        raise Violation("outcome-depends-on-history" if how == "seq" else "outcome-depends-on-interleaving",
                        f"{st['op']} on {st['uses']}: {e!r}, alone: {bexc or 'a result'}", op=st["op"])
    if e is None:
        x = core.same(snap.freeze(res), bres)
        if x:
            raise Violation("result-depends-on-history" if how == "seq" else "result-depends-on-interleaving",
                            f"{st['op']} on {st['uses']}: {x}", op=st["op"])


def process_state():
    """Settings of the process that later calls of the library and its user depend on."""
    import matplotlib
    import warnings
    return dict(floating_point_error_handling=str(sorted(np.geterr().items())), print_options=str(sorted(np.get_printoptions().items(), key=str)),
                warning_filters=str(warnings.filters), plot_settings=str(list(matplotlib.rcParams.items())), working_directory=os.getcwd(),
                environment=str(sorted(os.environ.items())), umask=_umask())


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def execute(plan, ctx):
    import dsptoolbox as dsp
    import numba
    numba.prange = PRange
    PRange.seed = plan["cfg"].get("prange", 0)
    plain = R.D(dsp)
    d = plain if plan["cfg"]["threads"] else R.D(dsp, guarded=True)
    R.PROBLEMS.clear()
    w = plan["cfg"]["world"]
    steps = plan["steps"]
    if not steps:
        return
    seeds = [core.derive(plan["seed"], st["op"], i) % (1 << 31) for i, st in enumerate(steps)]
    base = [alone(plain, dsp, w, st, s) for st, s in zip(steps, seeds)]
    W = R.World(dsp, w)
    used = sorted({k for st in steps for k in st["uses"]})
    for k in used:
        W[k]
    before = {k: snap.freeze(W[k]) for k in used}
    seen = {}
    for st in steps:
        for k in set(st["uses"]):
            seen.setdefault(k, []).append(st["op"])
    ctx.nontrivial = any(len(v) > 1 for v in seen.values())

    world0 = process_state()

    def intact(who):
        x = process_state()
        for k in world0:
            if x[k] != world0[k]:
                raise Violation("process-state-changed", f"{who} changed the {k} of the process", op=who)
        if R.PROBLEMS:
            raise Violation("operand-changed", f"{who}: {R.PROBLEMS[0]}", op=who)
        for k in used:
            x = core.same(snap.freeze(W[k]), before[k], rtol=0, atol=0)
            if x:
                raise Violation("operand-changed", f"{who} changed {k}: {x}", op=who if isinstance(who, str) else None)
    if not plan["cfg"]["threads"]:
        last = {}
        for i, st in enumerate(steps):
            np.random.seed(seeds[i])
            res, e = R.call(d, [W[k] for k in st["uses"]], st)
            ctx.log(st["op"], None if e is None else type(e).__name__)
            if e is None:
                ctx.log("r", _sig(res))
            ctx.probe("call " + st["op"])
            for k in st["uses"]:
                ctx.key("seq", st["op"], last.get(k, "-"))
            compare(st, res, e, base[i], "seq")
            intact(st["op"])
            for k in st["uses"]:
                last[k] = st["op"]
        return
    tasks = sorted({st["t"] for st in steps})
    out = {}

    def run(t):
        def body():
            for i, st in enumerate(steps):
                if st["t"] == t:
                    out[i] = R.call(d, [W[k] for k in st["uses"]], st)
        return body
    s = sched.Scheduler([run(t) for t in tasks], plan.get("switches", []))
    s.run()
    ctx.log("schedule", s.n, s.switched, s.trace[:50])
    ctx.probe("switches", s.switched)
    ctx.fault("preemption", s.switched)
    ctx.key("schedule", hash(tuple(s.trace)) % (1 << 30))
    for t in s.tasks:
        if t.exc is not None:
            raise t.exc
    for i, st in enumerate(steps):
        ctx.probe("call " + st["op"])
        ctx.log(st["op"], None if out[i][1] is None else type(out[i][1]).__name__)
        compare(st, out[i][0], out[i][1], base[i], "par")
    intact("/".join(sorted({st["op"] for st in steps})) if len({st["op"] for st in steps}) == 1 else "threads")


def _sig(res):
    import hashlib
    try:
        return hashlib.sha256(pickle.dumps(snap.freeze(res))).hexdigest()[:12]
    except Exception:
        return "?"
