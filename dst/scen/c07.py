"""C07: an operation that fails part-way leaves its operands intact and can be repeated."""
import copy
import numpy as np
from .. import core, edits as ed, registry as R, sched, snap
from ..core import Violation
from .c06 import exc_of
from .c08 import alone

RUNS = {"quick": 7000, "thorough": 150000}
RULE = ("seeded plan: 1-8 library calls (queries, functions returning results, in-place edits, rejected edits) on a shared set of operands; a call may have a "
        "failure injected at one seeded external call made inside it (memory, value, linear-algebra, I/O error or a keyboard interrupt), up to three times in a row, "
        "before it is repeated without one; non-trivial = at least one injected failure surfaced or one argument was rejected")
KEYRULE = "distinct (operation, library function and external call at which the failure was injected) combinations"
REAL = ["every public module of dsptoolbox", "numpy, scipy, matplotlib (Agg)"]
STUB = ["external calls made by library code can be made to fail at a seeded position (sys.monitoring seam)", "numba just-in-time compilation is off"]
ASSUMPTIONS = ["failures surface at calls into numpy, scipy, soundfile, matplotlib, copy or pickle, not between two bytecodes"]
SHRINK = 160
FAULTS = ["MemoryError", "ValueError", "LinAlgError", "OSError", "KeyboardInterrupt"]
ON = list(ed.SIGS) + list(ed.MBS) * 2 + list(ed.SPS) * 2 + list(ed.FBS) * 2 + ["fi", "ff", "f2", "lr", "lr"]
NOBAD = ("fi", "ff", "f2", "lr")


def generate(r, tier):
    w = R.gen_world(r)
    steps = []
    for _ in range(r.choice([1, 2, 3, 5, 8])):
        x = r.random()
        if x < 0.45:
            st = R.gen_call(r, w)
        elif x < 0.75:
            st = ed.gen_edit(r, r.choice(ON), bad=False)
        else:
            st = ed.gen_edit(r, r.choice([k for k in ON if k not in NOBAD]), bad=True)
        if not st.get("edit", "").startswith("bad") and r.random() < 0.8:
            st["faults"] = [[round(r.random(), 4), r.choice(FAULTS)] for _ in range(r.choice([1, 1, 1, 2, 3]))]
        steps.append(st)
        if st.get("edit") == "td" and r.random() < 0.4:
            # data above full scale, which only a later change of the setting scales down
            st["a"]["k"] = 2.0
            steps.insert(len(steps) - 1, dict(edit="constrain", t=st["t"], a=dict(v=False)))
            steps.append(dict(edit="constrain", t=st["t"], a=dict(v=True), faults=[[round(r.random(), 4), r.choice(FAULTS)]]))
    return dict(cfg=dict(world=w), steps=steps)


def inject(ctx, frac, name, k, call):
    exc = KeyboardInterrupt("injected") if name == "KeyboardInterrupt" else exc_of(name)
    f = sched.Fault(1 + int(frac * k) % k, exc)
    res = err = None
    with f:
        try:
            res = call()
        except KeyboardInterrupt as e:
            if str(e) != "injected":
                raise
            err = e
        except Exception as e:
            err = e
    if f.fired:
        ctx.fault("external call fails: " + name)
        ctx.log("fault", f.k, f.site)
    return f, res, err


def execute(plan, ctx):
    import dsptoolbox as dsp
    d = R.D(dsp)
    w = plan["cfg"]["world"]
    W = R.World(dsp, w)
    for i, st in enumerate(plan["steps"]):
        seed = core.derive(plan["seed"], i) % (1 << 31)
        if "op" in st:
            call_step(ctx, d, W, w, st, seed)
        else:
            edit_step(ctx, d, W, w, st)


def check_same(W, before, what, msg, op):
    for k, b in before.items():
        x = core.same(snap.freeze(W[k]), b, rtol=0, atol=0)
        if x:
            raise Violation(what, f"{msg}: {k}{x}", op=op)


def frozen_result(f):
    return None if f is None else f


def call_step(ctx, d, W, w, st, seed):
    uses = sorted(set(st["uses"]))
    before = {k: snap.freeze(W[k]) for k in uses}

    def on(objs):
        def go():
            np.random.seed(seed)
            return R.OPS[st["op"]].fn(d, [objs[k] for k in st["uses"]], st["a"])
        return go
    if "seq" not in st:
        # what the call gives on these operands if nothing ever fails (own copies)
        clone = {k: copy.deepcopy(W[k]) for k in uses}
        n, want, werr = sched.count_calls(on(clone))
        want = snap.freeze(want)
    if werr is not None and not core.through_lib(werr):
        raise werr
    if werr is not None:
        ctx.fault("rejected call")
        ctx.nontrivial = True
    for frac, name in st.get("faults", []):
        if n == 0:
            break
        f, res, err = inject(ctx, frac, name, n, on({k: W[k] for k in uses}))
        if f.fired:
            ctx.key(st["op"], f.site)
        if err is not None:
            ctx.nontrivial = True
            check_same(W, before, "operand-changed-by-failure", f"{st['op']} failed with {name} at {f.site}", st["op"])
    res = err = None
    try:
        res = on({k: W[k] for k in uses})()
    except Exception as e:
        err = e
        if not core.through_lib(e):
            raise
    if (err is None) != (werr is None) or (err is not None and type(err) is not type(werr)):
        raise Violation("retry-fails", f"{st['op']}: {err!r} after a failure, {werr!r} without", op=st["op"])
    if err is None:
        x = core.same(snap.freeze(res), want)
        if x:
            raise Violation("retry-differs", f"{st['op']}: {x}", op=st["op"])
    check_same(W, before, "operand-changed-by-call" if err is None else "operand-changed-by-failure", st["op"] + (f" rejected ({err!r})" if err else ""), st["op"])
    ctx.probe("call " + st["op"])
    ctx.log(st["op"], type(err).__name__ if err else None)


def follow(d, t):
    """Answers an object gives after an edit (catches inconsistent hidden state)."""
    import dsptoolbox as dsp
    out = []

    def ask(fn):
        try:
            out.append(fn())
        except Exception as e:
            out.append(type(e).__name__)
    if isinstance(t, dsp.Signal):
        ask(lambda: t.get_spectrum())
        ask(lambda: t.time_vector_s)
        ask(lambda: t.metadata)
        ask(lambda: t.get_spectrogram())
    elif isinstance(t, dsp.MultiBandSignal):
        ask(lambda: t.metadata)
        ask(lambda: t.collapse().time_data)
        ask(lambda: t.length_samples)
        ask(lambda: t.sampling_rate_hz)
        ask(lambda: t.number_of_channels)
    elif isinstance(t, dsp.FilterBank):
        ask(lambda: t.metadata)
        ask(lambda: t.sampling_rate_hz)
        ask(lambda: t.get_ir(16, d.E.FilterBankMode.Parallel))
    elif isinstance(t, dsp.Spectrum):
        ask(lambda: t.get_energy())
        ask(lambda: t.number_frequency_bins)
        ask(lambda: str(t.frequency_vector_type))
        ask(lambda: t.number_of_channels)
    elif isinstance(t, dsp.Filter):
        ask(lambda: t.metadata)
        ask(lambda: t.get_ir(16).time_data)
    return snap.freeze(out)


def edit_step(ctx, d, W, w, st):
    t = W[st["t"]]
    name = st["edit"]
    before = snap.freeze(t)
    fbefore = follow(d, copy.deepcopy(t))
    clone = copy.deepcopy(t)
    n, _, werr = sched.count_calls(lambda: ed.EDITS[name].fn(d, clone, st["a"], w))
    after, fafter = snap.freeze(clone), follow(d, clone)
    if werr is not None and not core.through_lib(werr):
        raise werr
    bad = ed.EDITS[name].bad

    def state(msg, allow_after):
        now = snap.freeze(t)
        x = core.same(now, before, rtol=0, atol=0)
        y = core.same(now, after, rtol=1e-12, atol=0) if allow_after else x
        if x and y:
            raise Violation("half-done-edit" if allow_after else "changed-by-rejected-edit", f"{name} on {st['t']} {msg}: before{x}; after{y}", op=name)
        fn = follow(d, copy.deepcopy(t))
        fx = None if x else core.same(fn, fbefore)
        fy = None if (y or not allow_after) else core.same(fn, fafter)
        if (x or fx) and (not allow_after or y or fy):
            raise Violation("inconsistent-after-failure", f"{name} on {st['t']} {msg}: {fx or fy}", op=name)
        return not x and not fx

    if werr is not None:
        ctx.fault("rejected argument")
        ctx.nontrivial = True
        _, err = ed.apply(d, t, st, w)
        if err is None:
            raise Violation("retry-differs", f"{name}: rejected on a copy, accepted on the object", op=name)
        state(f"rejected ({err!r})", False)
        ctx.probe("rejected " + name)
        ctx.log(name, type(err).__name__)
        return
    if bad:
        # whether a doubtful argument is accepted is not the subject here
        st = dict(st, faults=[])
    done = False
    for frac, fname in st.get("faults", []):
        if n == 0 or done:
            break
        f, _, err = inject(ctx, frac, fname, n, lambda: ed.EDITS[name].fn(d, t, st["a"], w))
        if f.fired:
            ctx.key(name, f.site)
        if err is None:
            done = True
            break
        ctx.nontrivial = True
        if not state(f"failed with {fname} at {f.site}", True):
            done = True
    if not done:
        _, err = ed.apply(d, t, st, w)
        if err is not None:
            raise Violation("retry-fails", f"{name} on {st['t']}: {err!r} after a failure", op=name)
        x = core.same(snap.freeze(t), after, rtol=1e-12, atol=0)
        if x:
            raise Violation("retry-differs", f"{name} on {st['t']}: {x}", op=name)
    ctx.probe("edit " + name)
    ctx.log(name)
