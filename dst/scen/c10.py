"""C10: copies and derived objects are isolated from their source and from the caller's arrays."""
import copy as _copy
import numpy as np
from .. import core, edits as ed, objs, registry as R, sched, sigops as so, snap
from ..core import Violation
from .c06 import exc_of

RUNS = {"quick": 5000, "thorough": 150000}
RULE = ("seeded plan: 3-24 steps on a pool of related objects: derive (any of about 390 public operations; results join the pool), copy, in-place edit, edit of a band or "
        "filter inside a container, write into an array obtained from a member, stateful filtering, handing an own array over; after every step each pool member other than "
        "the one changed must be bit-identical; non-trivial = a derived object or its source was changed while both were alive")
KEYRULE = "distinct (how the relative was derived, how the other one was changed) combinations"
REAL = ["every public module of dsptoolbox", "numpy, scipy"]
STUB = ["external calls made by library code can be made to fail at a seeded position (sys.monitoring seam)", "numba just-in-time compilation is off"]
ASSUMPTIONS = ["arrays returned by a query belong to the queried object (either may see the other's in-place writes)", "an object built directly on a caller's array may share it: "
               "the caller's later writes are not judged, the library's writes into it are", "a container holds the members it was given"]
SHRINK = 200
COPY = ["copy"] * 6 + ["ir.from_signal", "copy_with_new_td", "s.get_channels", "s.sum_channels", "s.iter", "mbs.get_all_bands", "mbs.collapse", "sp.get_channels", "sp.sum", "sp.from_signal",
        "append_signals", "append_mbs", "append_spectra", "append_filterbanks", "pad_trim", "modify_length", "trim_time", "apply_gain", "ir_to_filter", "f.to_ir", "fb.merge", "f.merge",
        "f.resample", "f.warp", "fx_distortion", "resample", "average_irs", "minimum_phase", "combine_dirac", "delay", "fade", "detrend", "fb.filter", "fb.filter_mbs", "f.filter", "mid_side",
        "hilbert", "normalize", "window_ir", "complex_smoothing", "f.coeff", "spectrum", "spectrogram", "csm", "time_vector", "mbs.get_all_td", "min_phase_ir", "envelope"]
HANDS = {"sig": "-", "ir": "-", "td": "S", "imag": "S", "chan": "S", "win": "I", "cwntd": "S", "spec": "-", "spdata": "P", "spcoh": "P", "ba": "-", "sos": "-", "zpk": "-", "fir": "-",
         "iirf": "-", "gain": "P", "interp": "P", "tf": "F", "order": "S"}
TARGETS = ["s0", "s1", "cs", "ir0", "mbs", "mbir", "sp0", "spc", "fi", "ff", "f2", "fb", "lr", "gt"]


def generate(r, tier):
    w = R.gen_world(r)
    w["n"] = min(w["n"], 400)
    steps = []
    for _ in range(r.choice([3, 5, 8, 12, 18, 24])):
        x = r.random()
        pick = r.randrange(1 << 16)
        if x < 0.36:
            if r.random() < 0.7:
                n = r.choice(COPY)
                st = dict(op=n, uses=R.OPS[n].uses(r), a=R.OPS[n].gen(r, w))
            else:
                st = R.gen_call(r, w, ("plot", "heavy"))
            st = dict(st, k="derive")
        elif x < 0.60:
            st = dict(ed.gen_edit(r, None, False), k="edit")
            st.pop("t")
        elif x < 0.68:
            st = dict(ed.gen_edit(r, r.choice(["s0", "ir0", "fi", "ff"]), False), k="inner", i=r.randrange(4))
            st.pop("t")
        elif x < 0.88:
            st = dict(k="write", i=r.randrange(64), recent=r.random() < 0.5)
        elif x < 0.91:
            st = dict(k="take", i=r.randrange(4))
        else:
            st = dict(k="hand", how=r.choice(sorted(HANDS)), s=r.randrange(1 << 30), c=r.random() < 0.2, order=r.choice(["C", "C", "F", "view"]))
        if st["k"] in ("derive", "edit", "inner") and r.random() < 0.08:
            st["fault"] = [round(r.random(), 4), r.choice(["MemoryError", "ValueError", "OSError"])]
        steps.append(dict(st, pick=pick))
    return dict(cfg=dict(world=w, start=sorted(set(r.choice(TARGETS) for _ in range(r.choice([1, 2, 4]))))), steps=steps)


class Mem:
    def __init__(self, obj, name, how):
        self.obj, self.name, self.how, self.links, self.by = obj, name, how, set(), {}
        self.written = False
        self.frozen = freeze(obj)


def freeze(o, query=True):
    import dsptoolbox as dsp
    f = snap.freeze(o)
    if query and isinstance(o, dsp.Signal) and o.activate_cache:
        try:
            q = [np.array(x) for x in o.get_spectrum()]
        except Exception as e:
            q = type(e).__name__
        return (f, q)
    return f


def kinds(dsp, o):
    """Names of the registry operands for which this object can stand in."""
    from dsptoolbox.classes import Spectrum
    if isinstance(o, dsp.ImpulseResponse):
        return ("ir0", "ir1", "rir")
    if isinstance(o, dsp.Signal):
        return ("cs",) if o.is_complex_signal else ("s0", "s1", "m0", "lu", "array8") if o.number_of_channels == 1 else ("s0", "s1", "array8")
    if isinstance(o, dsp.MultiBandSignal):
        return ("mbs", "mbir", "mbm")
    if isinstance(o, Spectrum):
        return ("spc", "sp0", "sp1") if o.is_complex else ("sp0", "sp1")
    if isinstance(o, dsp.Filter):
        return ("fi", "ff", "f2")
    if type(o).__name__ == "LRFilterBank":
        return ("lr",)
    if type(o).__name__ == "GammaToneFilterBank":
        return ("gt",)
    if isinstance(o, dsp.FilterBank):
        return ("fb", "fbm")
    return ()


def edit_kind(dsp, o):
    """Operand names in the edit table."""
    k = kinds(dsp, o)
    if isinstance(o, dsp.Signal):
        return ("ir0", "ir1") if k[0] == "ir0" else ("s0", "s1", "cs")
    return k


def arrays(dsp, o, depth=0):
    """(name, array) pairs that can be obtained from an object through public attributes."""
    out = []
    if isinstance(o, np.ndarray):
        return [("", o)]
    if depth > 3:
        return out
    names = ()
    from dsptoolbox.classes import Spectrum
    if isinstance(o, dsp.Signal):
        names = ("time_data", "time_data_imaginary", "window")
    elif isinstance(o, Spectrum):
        names = ("spectral_data", "frequency_vector_hz", "coherence")
    elif isinstance(o, dsp.Filter):
        names = ("ba", "sos", "zpk", "zi")
    elif isinstance(o, dsp.MultiBandSignal):
        names = ("bands",)
    elif hasattr(o, "filters"):
        names = ("filters",)
    elif isinstance(o, (list, tuple)):
        for i, x in enumerate(o):
            out += [("[%d]%s" % (i, n), a) for n, a in arrays(dsp, x, depth + 1)]
        return out
    elif type(o).__module__.startswith("dsptoolbox") and hasattr(o, "__dict__"):
        names = sorted(k for k, v in vars(o).items() if not k.startswith("_") and isinstance(v, (np.ndarray, list)))
    for n in names:
        try:
            v = getattr(o, n, None)
        except Exception:
            continue
        if v is not None:
            out += [("." + n + m, a) for m, a in arrays(dsp, v, depth + 1)]
    return [(n, a) for n, a in out if a.flags.writeable and a.size and a.dtype.kind in "fciub"]


def write(a, s):
    if a.dtype.kind == "b":
        a[...] = ~a
    elif a.dtype.kind in "iu":
        a[...] = a + 1
    else:
        a *= 0.91
        a += 0.004 * (1 + s % 3)


def leaves(res, depth=0):
    if isinstance(res, (list, tuple)):
        return [x for y in res for x in leaves(y, depth + 1)] if depth < 3 else []
    if isinstance(res, dict):
        return [x for k in sorted(res, key=str) for x in leaves(res[k], depth + 1)] if depth < 3 else []
    return [res]


class Pool:
    def __init__(self, ctx, dsp):
        self.m, self.ctx, self.dsp = [], ctx, dsp

    def add(self, obj, name, how, links=(), sources=()):
        for x in self.m:
            if x.obj is obj:
                return x
        if len(self.m) > 22:
            return None
        m = Mem(obj, "#%d:%s" % (len(self.m), name), how)
        for l in links:
            m.links.add(l.name)
            l.links.add(m.name)
        for s in sources:
            m.by[s.name] = how
            s.by[m.name] = how
        self.m.append(m)
        return m

    def check(self, changed, what, allow=(), written=False):
        for x in self.m:
            if written and (x is changed or x.name in allow):
                # a caching signal does not notice writes into its array
                x.written = True
            now = freeze(x.obj, not x.written)
            if changed is not None and x is not changed and x.name not in allow:
                if x.name in changed.by:
                    self.ctx.key(changed.by[x.name], what)
                    self.ctx.nontrivial = True
            if x is changed or x.name in allow:
                x.frozen = now
                continue
            d = core.same(now, x.frozen, rtol=0, atol=0)
            if d:
                who = changed.name + " (%s)" % changed.how if changed else "no member"
                raise Violation("visible-in-other", f"{what} of {who} changed {x.name} ({x.how}): {d}", op=what, how=(changed.how if changed else ""), other=x.how)


def execute(plan, ctx):
    import dsptoolbox as dsp
    d = R.D(dsp)
    w = plan["cfg"]["world"]
    W = R.World(dsp, w)
    P = Pool(ctx, dsp)

    def world(k):
        return P.add(W[k], k, "new") or None
    for k in plan["cfg"]["start"]:
        world(k)
    for n, st in enumerate(plan["steps"]):
        seed = core.derive(plan["seed"], n, "c10") % (1 << 31)
        ctx.log(n, st["k"], st.get("op") or st.get("edit") or st.get("how"))
        np.random.seed(seed)
        STEP[st["k"]](ctx, dsp, d, w, W, P, st)
    ctx.probe("pool members", len(P.m))


def big(o):
    """Long filters and signals make some operations (polynomial roots, wavelets) very slow."""
    fs = getattr(o, "filters", None)
    fs = fs if isinstance(fs, list) else [o]
    if any(hasattr(f, "is_iir") and f.order > 80 for f in fs) or len(fs) > 12:
        return True
    return hasattr(o, "time_data") and o.time_data.size > 20000


def choose(P, names, pick):
    c = [m for m in P.m if set(kinds(P.dsp, m.obj)) & set(names) and not big(m.obj)]
    return c[pick % len(c)] if c else None


def attempt(ctx, st, call, rehearse):
    """Run a library call, possibly with a failure injected at one external call inside it."""
    f = None
    if st.get("fault"):
        n, _, _ = sched.count_calls(rehearse)
        if n:
            f = sched.Fault(1 + int(st["fault"][0] * n) % n, exc_of(st["fault"][1]))
    try:
        if f is None:
            return call()
        with f:
            return call()
    except Exception as e:
        ctx.log("raised", type(e).__name__)
        return None
    finally:
        if f is not None and f.fired:
            ctx.fault("external call fails: " + st["fault"][1])


def derive(ctx, dsp, d, w, W, P, st):
    mem = []
    for j, k in enumerate(st["uses"]):
        m = choose(P, (k,), st["pick"] >> j) if (st["pick"] >> (j + 3)) % 4 else None
        if m is None:
            m = P.add(W[k], k, "new") or choose(P, (k,), st["pick"])
            if m is None:
                return
        mem.append(m)
    ops = [m.obj for m in mem]
    f = R.OPS[st["op"]].fn
    res = attempt(ctx, st, lambda: f(d, ops, st["a"]), lambda: f(d, ops, st["a"]))
    P.check(None, st["op"])
    new = []
    for x in leaves(res):
        if any(x is o for o in ops) or any(x is m.obj for m in P.m):
            # a library function that returns its very operand: the two are one object
            if st["op"] in ("copy", "ir.from_signal", "copy_with_new_td") or not isinstance(x, np.ndarray) and kinds(dsp, x):
                raise Violation("same-object", f"{st['op']} returns its operand instead of a new object", op=st["op"])
            continue
        if isinstance(x, np.ndarray) and x.dtype.kind in "fciub" and x.size:
            new.append((x, True))
        elif type(x).__module__.startswith("dsptoolbox") and hasattr(x, "__dict__") and not hasattr(type(x), "__members__"):
            new.append((x, False))
    for x, arr in new[:6]:
        P.add(x, type(x).__name__, st["op"], links=mem if arr else (), sources=mem)
    if len(new) > 1:
        # arrays of one result may share memory among themselves
        last = [m for m in P.m if any(m.obj is x for x, a in new if a)]
        for m in last:
            m.links |= {y.name for y in last}


def edit(ctx, dsp, d, w, W, P, st):
    on = ed.EDITS[st["edit"]].on
    c = [m for m in P.m if set(edit_kind(dsp, m.obj)) & set(on)]
    if not c:
        k = on[st["pick"] % len(on)]
        m = P.add(W[k], k, "new")
        if m is None:
            return
    else:
        m = c[st["pick"] % len(c)]
    f = ed.EDITS[st["edit"]].fn
    attempt(ctx, st, lambda: f(d, m.obj, st["a"], w), lambda: f(d, _copy.deepcopy(m.obj), st["a"], w))
    P.check(m, st["edit"], allow={x.name for x in P.m if x.name in m.links and x.how != "caller array"})


def inner(ctx, dsp, d, w, W, P, st):
    """An edit applied to a band or filter that lives in a container."""
    on = ed.EDITS[st["edit"]].on
    c = []
    for m in P.m:
        for x in (getattr(m.obj, "bands", None) or getattr(m.obj, "filters", None) or []) if kinds(dsp, m.obj) else []:
            if set(edit_kind(dsp, x)) & set(on):
                c.append((m, x))
    if not c:
        return
    m, x = c[st["pick"] % len(c)]
    f = ed.EDITS[st["edit"]].fn
    attempt(ctx, st, lambda: f(d, x, st["a"], w), lambda: f(d, _copy.deepcopy(x), st["a"], w))
    P.check(m, "inner " + st["edit"], allow={y.name for y in P.m if y.name in m.links and y.how != "caller array"})


def writes(ctx, dsp, d, w, W, P, st):
    if not P.m:
        return
    ms = P.m[-4:] if st["recent"] else P.m
    m = ms[st["pick"] % len(ms)]
    a = arrays(dsp, m.obj)
    if not a:
        return
    name, x = a[st["i"] % len(a)]
    write(x, st["i"])
    nm = "write into " + "".join(c for c in name if not c.isdigit())
    allow = set(m.links)
    if isinstance(m.obj, np.ndarray):
        # arrays obtained from the same object may share its memory
        allow |= {y.name for o in P.m if o.name in m.links for y in P.m if y.name in o.links and isinstance(y.obj, np.ndarray)}
    P.check(m, nm, allow=allow, written=True)


def take(ctx, dsp, d, w, W, P, st):
    """The band or filter handed back by a removal is no longer part of the container."""
    c = [m for m in P.m if len(getattr(m.obj, "bands", None) or getattr(m.obj, "filters", None) or []) > 1 and type(m.obj).__name__ in ("MultiBandSignal", "FilterBank")]
    if not c:
        return
    m = c[st["pick"] % len(c)]
    try:
        x = m.obj.remove_band(st["i"] % len(m.obj.bands), True) if hasattr(m.obj, "bands") else m.obj.remove_filter(st["i"] % len(m.obj.filters), True)
    except Exception as e:
        ctx.log("raised", type(e).__name__)
        return P.check(m, "removal")
    P.check(m, "removal")
    if kinds(dsp, x):
        # arrays obtained from the container before may be the member's
        P.add(x, type(x).__name__, "removed member", links=[y for y in P.m if y.name in m.links and isinstance(y.obj, np.ndarray)], sources=[m])


def own(x, order, keep):
    """The caller's array: owning its memory, column-major, or a view of a larger buffer (which then counts as the caller's)."""
    if order == "F":
        x = np.asfortranarray(x)
    elif order == "view":
        base = np.zeros(tuple(2 * s for s in x.shape), x.dtype)
        v = base[tuple(slice(0, s) for s in x.shape)]
        v[...] = x
        keep.append(base)
        return v
    else:
        x = np.array(x, order="C")
    keep.append(x)
    return x


def hand(ctx, dsp, d, w, W, P, st):
    how, s, fs = st["how"], st["s"], w["fs"]
    kind = HANDS[how]
    from dsptoolbox.classes import Spectrum
    m = None
    if kind != "-":
        names = dict(S=("s0", "s1", "m0", "cs", "ir0", "ir1"), I=("ir0",), P=("sp0", "spc"), F=("fi", "ff", "f2"))[kind]
        m = choose(P, names, st["pick"])
        if m is None:
            m = P.add(W[names[0]], names[0], "new")
        if m is None:
            return
    o = m.obj if m else None
    keep = []
    n, nch = (o.length_samples, o.number_of_channels) if kind in "SI" else (60, 2)
    mk = lambda a: own(a, st["order"], keep)  # noqa
    new, changed = [], None
    try:
        if how in ("sig", "ir"):
            new = [(dsp.Signal if how == "sig" else dsp.ImpulseResponse)(None, mk(so.data(s, 60, 2, st["c"], 2.0 if s % 3 == 0 else 0.5)), fs, constrain_amplitude=s % 2 == 0)]
        elif how == "td":
            changed = m
            o.time_data = mk(so.data(s, n, nch, st["c"], 2.0 if s % 3 == 0 else 0.5))
        elif how == "imag":
            changed = m
            o.time_data_imaginary = mk(so.data(s, n, nch))
        elif how == "chan":
            changed = m
            o.add_channel(None, mk(so.data(s, n, 1, o.is_complex_signal)), o.sampling_rate_hz)
        elif how == "win":
            changed = m
            o.set_window(mk(np.abs(so.data(s, n, nch))))
        elif how == "cwntd":
            new = [o.copy_with_new_time_data(mk(so.data(s, n, nch, st["c"])))]
        elif how == "order":
            changed = m
            o.swap_channels(mk(np.random.default_rng(s).permutation(nch)))
        elif how == "spec":
            new = [Spectrum(mk(np.linspace(0, fs / 2, 40)), mk(np.abs(so.data(s, 40, 2))))]
        elif how == "spdata":
            changed = m
            o.spectral_data = mk(np.abs(so.data(s, len(o), o.number_of_channels)))
        elif how == "spcoh":
            changed = m
            o.set_coherence(mk(np.abs(so.data(s, len(o), o.number_of_channels))))
        elif how == "gain":
            changed = m
            o.apply_gain(mk(np.linspace(-1, 3, o.number_of_channels)))
        elif how == "interp":
            from dsptoolbox.standard import enums as E
            new = [o.get_interpolated_spectrum(mk(np.linspace(o.frequency_vector_hz[0], o.frequency_vector_hz[-1], 9)), E.SpectrumType.Magnitude)]
        elif how == "tf":
            new = [o.get_transfer_function(mk(np.linspace(0, fs / 2.2, 20)))]
        elif how == "ba":
            f = objs.filt(dsp, dict(k="ba", seed=s, fs=fs, na=2, nb=3, a0=2.0))
            new = [dsp.Filter.from_ba(mk(np.array(f.ba[0]) * 1.5), mk(np.array(f.ba[1]) * 1.5), fs)]
        elif how == "sos":
            f = objs.filt(dsp, dict(k="sos", seed=s, fs=fs, nsec=2))
            new = [dsp.Filter.from_sos(mk(np.array(f.sos)), fs)]
        elif how == "zpk":
            p = 0.5 * np.exp(1j * np.array([0.4, -0.4]))
            new = [dsp.Filter.from_zpk(mk(p * 2), mk(p), 0.4, fs)]
        elif how == "fir":
            new = [dsp.filterbanks.FIRFilter(mk(so.data(s, 9, 1)[:, 0]))]
        elif how == "iirf":
            new = [dsp.filterbanks.IIRFilter(mk(np.array([1.0, 0.4])), mk(np.array([2.0, 0.3])))]
    except Exception as e:
        if not core.through_lib(e):
            raise
        ctx.log("raised", type(e).__name__)
    P.check(changed, "handing over " + how, allow=set() if changed is None else {x.name for x in P.m if x.name in m.links and x.how != "caller array"})
    rel = [m] if m else []
    objs_ = []
    for x in new:
        if isinstance(x, np.ndarray) or kinds(dsp, x):
            y = P.add(x, type(x).__name__, "on caller array", sources=rel)
            if y is not None:
                objs_.append(y)
    for x in keep:
        P.add(x, "array", "caller array", links=objs_ + ([m] if changed is not None else []), sources=objs_ + rel)


STEP = dict(derive=derive, edit=edit, inner=inner, write=writes, take=take, hand=hand)
