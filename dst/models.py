"""Real-time filters under test and their independent reference responses.

A model is a JSON spec {"kind":..., ...}; build(spec) -> RT object from the library,
reference(spec, x) -> list of outputs (float, or 4-list for the state variable filter) of the
filter started at rest, computed without any library real-time code."""
import numpy as np, scipy.signal as sig
from .core import arr


def stable_a(seed, order, sp=None):
    """Denominator with poles inside radius 0.9 (numerically benign), or of a special structure."""
    g = np.random.default_rng(seed)
    if sp == "nil":                  # all poles in the origin
        return np.concatenate([[1.0], np.zeros(order)])
    if sp == "zero_pole" and order:  # one pole in the origin: the last coefficient vanishes
        return np.concatenate([stable_a(seed, order - 1), [0.0]])
    if sp == "even" and order:       # every second coefficient vanishes
        a = np.zeros(order + 1)
        a[0], a[order - order % 2] = 1.0, g.uniform(-0.8, 0.8)
        if order < 2:
            a[0] = 1.0
        return a
    if sp == "slow" and order:       # one real pole close to the unit circle
        return np.convolve(stable_a(seed, order - 1), [1.0, -0.999])
    n_c = order // 2
    p = []
    for _ in range(n_c):
        r, w = g.uniform(0.1, 0.9), g.uniform(0.1, 3.0)
        p += [r * np.exp(1j * w), r * np.exp(-1j * w)]
    if order % 2:
        p.append(g.uniform(-0.85, 0.85))
    return np.real(np.poly(p)) if p else np.array([1.0])


def special_b(b, spec):
    g = np.random.default_rng(spec["cseed"] + 99)
    how = spec.get("spb")
    if how == "sparse":
        b = np.where(g.uniform(size=len(b)) < 0.6, 0.0, b)
    elif how == "delay":
        b = np.zeros(len(b))
        b[-1] = 1.0
    elif how == "first0":
        b = np.concatenate([[0.0], b[1:]])
    elif how == "last0":
        b = np.concatenate([b[:-1], [0.0]])
    elif how == "sym":
        b = b + b[::-1]
    elif how == "int":
        b = np.round(3 * b)
    if not np.any(b):
        b[-1] = 1.0
    return b


def coeffs(spec):
    b, a = _coeffs(spec)
    if spec.get("spb"):
        b = special_b(b, spec)
    return b, a


def _coeffs(spec):
    g = np.random.default_rng(spec["cseed"])
    k = spec["kind"]
    sp = spec.get("spa")
    if k in ("iir", "ss"):
        nb = spec["nb"]
        a = stable_a(spec["cseed"], spec["na"], sp)
        b = g.uniform(-1, 1, nb + 1)
        if nb:
            b[0] = g.uniform(0.2, 1.0)
        s = spec.get("a0", 1.0)
        return b * s, a * s
    if k in ("fir", "wfir"):
        return g.uniform(-1, 1, spec["nb"] + 1), None
    if k == "lat_iir":
        a = stable_a(spec["cseed"], spec["na"], sp)
        return g.uniform(-1, 1, spec["na"] + 1), a * spec.get("a0", 1.0)
    if k == "lat_sos" or k == "ss_sos":
        n = spec["nsec"]
        sos = np.zeros((n, 6))
        for i in range(n):
            sos[i, :3] = g.uniform(-1, 1, 3)
            sos[i, 3:] = stable_a(spec["cseed"] + i, 2, sp if i % 2 == 0 else None)
            if spec.get("a0", 1.0) != 1.0:
                sos[i] *= spec["a0"] + i
        return sos, None
    if k == "lat_fir":
        ks = g.uniform(-0.8, 0.8, spec["nb"])
        return ks, None
    if k == "wiir":
        a = stable_a(spec["cseed"], spec["na"], sp)
        return g.uniform(-1, 1, spec["nb"] + 1), a * spec.get("a0", 1.0)
    raise KeyError(k)


def gen_spec(r, depth=0, kinds=None):
    k = r.choice(kinds or ["iir", "iir", "fir", "fir", "ss", "ss_sos", "svf", "lat_iir", "lat_sos", "lat_fir",
                           "wfir", "wiir", "parallel", "kautz", "ema", "ema", "chain"])
    s = dict(kind=k, cseed=r.randrange(1 << 30))
    if k == "iir":
        s.update(na=r.choice([0, 1, 1, 2, 2, 3, 4, 6] * 3 + [9]), nb=r.choice([0, 1, 2, 3, 5, 8]), a0=r.choice([1.0, 1.0, 2.0, -0.5]),
                 via=r.choice(["ctor", "ctor", "filter"]))
    elif k == "fir":
        s.update(nb=r.choice([0, 1, 1, 2, 3, 5, 9, 20] * 3 + [40, 130]), via=r.choice(["ctor", "filter"]))
    elif k == "ss":
        s.update(na=r.choice([1, 2, 3, 4]), a0=1.0)
        s["nb"] = r.randrange(0, s["na"] + 1)
    elif k in ("ss_sos", "lat_sos"):
        s.update(nsec=r.choice([1, 2, 3, 6] * 3 + [12]))
        if k == "lat_sos":
            s["a0"] = r.choice([1.0, 1.0, 2.0])
    elif k == "svf":
        s.update(f=round(r.uniform(50, 10000), 1), res=round(r.uniform(0.2, 2.5), 3))
    elif k == "lat_iir":
        s.update(na=r.choice([1, 2, 3, 5]), a0=r.choice([1.0, 1.0, 2.0]))
    elif k == "lat_fir":
        s.update(nb=r.choice([1, 2, 3, 6]), via=r.choice(["ctor", "filter"]))
    elif k == "wfir":
        s.update(nb=r.choice([0, 1, 2, 4, 9]), warp=round(r.uniform(-0.8, 0.8), 3), via=r.choice(["ctor", "filter"]))
    elif k == "wiir":
        s.update(na=r.choice([1, 2, 3]), nb=r.choice([0, 1, 2, 3, 4]), warp=round(r.uniform(-0.25, 0.25), 3),
                 a0=r.choice([1.0, 2.0]), via=r.choice(["ctor", "filter"]))
    elif k == "parallel":
        s.update(npoles=r.choice([1, 2, 3, 5]), nfir=r.choice([0, 1, 2, 3, 5]), delay=r.choice([0, 0, 1, 4]),
                 off=r.choice([0, 0, 2, 3]))
        if s["nfir"] == 0 and s["delay"]:
            s["nfir"] = 1
    elif k == "kautz":
        s.update(nreal=r.choice([0, 1, 2]), ncomp=r.choice([1, 2, 3]))
    elif k == "ema":
        s.update(inc=round(10 ** r.uniform(-4, -2), 6), dec=round(10 ** r.uniform(-4, -2), 6))
    elif k == "chain":
        inner = ["iir", "fir", "ss", "lat_iir", "wfir", "ema", "kautz"] + (["chain"] if depth == 0 else [])
        s["parts"] = [gen_spec(r, depth + 1, inner) for _ in range(r.choice([1, 2, 3]))]
    if k in ("iir", "ss", "lat_iir", "ss_sos", "lat_sos", "wiir") and r.random() < 0.3:
        s["spa"] = r.choice(["nil", "zero_pole", "even", "slow"] if k[-3:] != "sos" and k != "wiir" else ["nil", "zero_pole", "even"])
        # a filter object without a pole outside the origin is no IIR filter for the library
        if s["spa"] != "slow" and k in ("iir", "lat_iir", "wiir") and (s["na"] < 2 or s["spa"] == "nil") and (k == "lat_iir" or s.get("via") == "filter"):
            del s["spa"]
    if k in ("iir", "ss", "fir", "wfir", "wiir", "lat_iir") and r.random() < 0.3:
        s["spb"] = r.choice(["sparse", "delay", "first0", "last0", "sym", "int"])
    return s


FS = 48000


def _parallel_poles(spec):
    g = np.random.default_rng(spec["cseed"])
    n = spec["npoles"]
    p = [g.uniform(0.3, 0.85) * np.exp(1j * w) for w in np.linspace(0.3, 2.5, n)]
    if spec["cseed"] % 3 == 0:
        p.append(0.5 + 0j)
    return np.array(p)


def _kautz_poles(spec):
    g = np.random.default_rng(spec["cseed"])
    p = [complex(g.uniform(-0.8, 0.8)) for _ in range(spec["nreal"])]
    p += [g.uniform(0.2, 0.85) * np.exp(1j * w) for w in np.linspace(0.4, 2.6, spec["ncomp"])]
    return np.array(p, dtype=np.complex128)


def _kautz_c(spec):
    g = np.random.default_rng(spec["cseed"] + 1)
    return g.uniform(-1, 1, spec["nreal"]), g.uniform(-1, 1, 2 * spec["ncomp"])


def build(spec, dsp, shared=None):
    """shared: dict used to hand the same Filter object / arrays to several instances."""
    from dsptoolbox.classes.iir_filter_realtime import IIRFilter
    from dsptoolbox.classes.fir_filter_realtime import FIRFilter
    from dsptoolbox.classes.state_space_filter import StateSpaceFilter
    from dsptoolbox.classes.sv_filter import StateVariableFilter
    from dsptoolbox.classes.lattice_ladder_filter import LatticeLadderFilter
    from dsptoolbox.classes.warped_filters import WarpedFIR, WarpedIIR
    from dsptoolbox.classes.parallel_filter import ParallelFilter
    from dsptoolbox.classes.kautz_filter import KautzFilter
    from dsptoolbox.classes.exponential_average_filter import ExponentialAverageFilter
    from dsptoolbox.classes.filter_chain import FilterChain
    from dsptoolbox import Filter, ImpulseResponse
    k = spec["kind"]
    _BA = dsp.standard.enums.FilterCoefficientsType.Ba

    def share(name, make):
        if shared is None:
            return make()
        key = (spec["cseed"], k, name)
        if key not in shared:
            shared[key] = make()
        return shared[key]

    def filt(b, a):
        return share("filter", lambda: Filter.from_ba(b, a, FS))
    if k == "iir":
        b, a = share("ba", lambda: coeffs(spec))
        if spec["via"] == "filter" and spec["na"] > 0 and spec.get("spa") != "nil":
            return IIRFilter.from_filter(filt(b.copy(), a.copy()))
        return IIRFilter(b, a)
    if k == "fir":
        b, _ = share("ba", lambda: coeffs(spec))
        if spec["via"] == "filter":
            return FIRFilter.from_filter(filt(b.copy(), [1.0]))
        return FIRFilter(b)
    if k == "ss":
        b, a = coeffs(spec)
        return StateSpaceFilter.from_filter(filt(b, a))
    if k == "ss_sos":
        sos, _ = coeffs(spec)
        return FilterChain(StateSpaceFilter.from_filter_as_sos_list(share("filter", lambda: Filter.from_sos(sos, FS))))
    if k == "svf":
        return StateVariableFilter(spec["f"], spec["res"], FS)
    if k == "lat_iir":
        b, a = coeffs(spec)
        return LatticeLadderFilter.from_filter(filt(b, a))
    if k == "lat_sos":
        sos, _ = coeffs(spec)
        return LatticeLadderFilter.from_filter(share("filter", lambda: Filter.from_sos(sos, FS)))
    if k == "lat_fir":
        ks, _ = share("k", lambda: coeffs(spec))
        if spec.get("via") == "filter":
            return LatticeLadderFilter.from_filter(filt(_lattice_fir_b(spec), [1.0]))
        return LatticeLadderFilter(ks, None, FS)
    if k == "wfir":
        b, _ = share("ba", lambda: coeffs(spec))
        if spec["via"] == "filter":
            return WarpedFIR.from_filter(filt(b.copy(), [1.0]), spec["warp"])
        return WarpedFIR(b, spec["warp"], FS)
    if k == "wiir":
        b, a = share("ba", lambda: coeffs(spec))
        if spec["via"] == "filter" and spec.get("spa") != "nil":
            return WarpedIIR.from_filter(filt(b.copy(), a.copy()), spec["warp"])
        return WarpedIIR(b, a, spec["warp"], FS)
    if k == "parallel":
        while True:
            p = ParallelFilter(_parallel_poles(spec), spec["nfir"], FS)
            p.set_parameters(delay_iir_samples=spec["delay"], fir_offset_ms=spec["off"] / FS * 1e3)
            p.fit_to_ir(ImpulseResponse.from_time_data(_parallel_target(spec), FS, False))
            # a (rare) numerically degenerate fit has huge cancelling coefficients: next seed
            if max([np.max(np.abs(f.get_coefficients(_BA)[0])) for f in getattr(p, "filter_bank", [])] or [0]) < 1e4:
                return p
            spec["cseed"] += 1
    if k == "kautz":
        f = KautzFilter(_kautz_poles(spec), FS)
        f.set_filter_coefficients(*_kautz_c(spec))
        return f
    if k == "ema":
        return ExponentialAverageFilter(spec["inc"], spec["dec"], FS)
    if k == "chain":
        return FilterChain([build(s, dsp, shared) for s in spec["parts"]])
    raise KeyError(k)


def _lattice_fir_b(spec):
    a = np.array([1.0])
    for kk in coeffs(spec)[0]:  # step-up recursion of the lattice A_i(z) = A_{i-1} - k z^-1 A~_{i-1}
        e = np.concatenate([a, [0.0]])
        a = e - kk * e[::-1]
    if spec.get("via") == "filter":
        a *= np.random.default_rng(spec["cseed"] + 5).uniform(0.2, 3)
    return a


def _parallel_target(spec):
    g = np.random.default_rng(spec["cseed"] + 7)
    return g.standard_normal(128) * np.exp(-np.arange(128) / 15.0) * 0.3


def n_out(spec):
    return 4 if spec["kind"] == "svf" else 1


def reference(spec, x):
    x = np.asarray(x, dtype=float)
    if len(x) == 0:
        return np.zeros((0, 4)) if spec["kind"] == "svf" else np.zeros(0)
    k = spec["kind"]
    if k in ("iir", "ss", "lat_iir"):
        b, a = coeffs(spec)
        return sig.lfilter(b, a, x)
    if k == "fir":
        return np.convolve(x, coeffs(spec)[0])[:len(x)]
    if k == "ss_sos" or k == "lat_sos":
        sos = coeffs(spec)[0]
        return sig.sosfilt(sos / sos[:, 3:4], x)
    if k == "lat_fir":
        return np.convolve(x, _lattice_fir_b(spec))[:len(x)]
    if k == "svf":
        # bilinear transform of the analogue prototype with pre-warped g
        g_ = np.tan(np.pi * spec["f"] / FS)
        R = spec["res"]
        den = np.array([1 + R * g_ + g_ * g_, 2 * (g_ * g_ - 1), 1 - R * g_ + g_ * g_])
        lp = g_ * g_ * np.array([1, 2, 1.0])
        hp = np.array([1, -2, 1.0])
        bp = g_ * np.array([1, 0, -1.0])
        ap = lp - R * bp + hp
        return np.stack([sig.lfilter(n, den, x) for n in (lp, hp, bp, ap)], axis=1)
    if k == "wfir":
        return _warp_fir(coeffs(spec)[0], spec["warp"], x)
    if k == "wiir":
        b, a = coeffs(spec)
        return _warp_iir(b / a[0], a / a[0], spec["warp"], x)
    if k == "kautz":
        p = _kautz_poles(spec)
        cr, cc = _kautz_c(spec)
        y = np.zeros_like(x)
        u = x
        for c, q in zip(cr, p[p.imag == 0].real):
            y += c * sig.lfilter([np.sqrt(1 - q * q)], [1, -q], u)
            u = sig.lfilter([-q, 1], [1, -q], u)
        j = 0
        for q in p[p.imag != 0]:
            m, r = -2 * q.real, abs(q) ** 2
            a = [1, m, r]
            y += cc[j] * np.sqrt((1 - r) * (1 + r - m) / 2) * sig.lfilter([1, -1], a, u)
            y += cc[j + 1] * np.sqrt((1 - r) * (1 + r + m) / 2) * sig.lfilter([1, 1], a, u)
            j += 2
            u = sig.lfilter([r, m, 1], a, u)
        return y
    if k == "ema":
        ci, cd = (_ema(t) for t in (spec["inc"], spec["dec"]))
        s, y = 0.0, np.zeros_like(x)
        for i, v in enumerate(x):
            c = ci if v > s else cd
            s = v * c + (1 - c) * s
            y[i] = s
        return y
    if k == "chain":
        for s in spec["parts"]:
            x = reference(s, x)
        return x
    if k == "parallel":
        # offline path of a fresh twin (independent of the sample-by-sample code)
        import dsptoolbox as dsp
        key = repr(sorted(spec.items()))
        if key not in _par:
            _par.clear()
            _par[key] = build(spec, dsp)
        u = np.concatenate([x, np.zeros(8)])[:, None]
        return _par[key].filter_signal(dsp.Signal.from_time_data(u, FS, False)).time_data[:len(x), 0]
    raise KeyError(k)


_par = {}


def _ema(t, acc=0.95):
    return 1 - (1 - acc) ** (1 / (t * FS))


def _allpass(x, lam):
    """D(z) = (z^-1 - lam)/(1 - lam z^-1), matching the library's sign convention."""
    return sig.lfilter([-lam, 1.0], [1.0, -lam], x)


def _warp_fir(b, lam, x):
    y, u = b[0] * x, x
    for c in b[1:]:
        u = _allpass(u, lam)
        y = y + c * u
    return y


def _warp_iir(b, a, lam, x):
    """B(D(z))/A(D(z)) expanded into a rational function of z^-1."""
    n = max(len(a), len(b)) - 1

    def expand(c):
        out = np.zeros(n + 1)
        for i, v in enumerate(c):
            p = np.array([1.0])
            for _ in range(i):
                p = np.convolve(p, [-lam, 1.0])
            for _ in range(n - i):
                p = np.convolve(p, [1.0, -lam])
            out += v * p
        return out
    return sig.lfilter(expand(b), expand(a), x)
