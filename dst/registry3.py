"""Third part of the operation table: the less travelled arguments and branches of the public functions."""
import numpy as np
from . import objs, sigops as so
from .registry import op, F, mode, _closing, _noplot, _mics, _grid, PROBLEMS

PLACES = [[0.1, 0.2, 0.9], [0.0, 0.0, 1.5], [-0.3, 0.1, 0.6]]
RNG = lambda r: r.choice([None, [20.0, 20e3], [50.0, 3000.0]])  # noqa


class _Out:
    """What each thread prints, apart: threads are interleaved within the printing too, and sys.stdout is one for all."""
    def __init__(self, real):
        import threading
        self.real, self.own, self.me = real, {}, threading.get_ident

    def write(self, t):
        b = self.own.get(self.me())
        (self.real if b is None else b).write(t)
        return len(t)

    def __getattr__(self, n):
        return getattr(self.real, n)


def _printed(fn):
    import io
    import sys
    if not isinstance(sys.stdout, _Out):
        sys.stdout = _Out(sys.stdout)
    out, b = sys.stdout, io.StringIO()
    out.own[out.me()] = b
    try:
        fn()
    finally:
        out.own.pop(out.me(), None)
    return b.getvalue()


def _special(r, fs, n=3):
    return [objs.rnd_filter_spec(r, fs, True) for _ in range(n)]


# ---- beamforming
op("bf_mix_many", "m0 t0 s1|s0", lambda r, w: dict(k=r.sample([0, 1, 2], r.choice([1, 2, 3])), p=r.sample(PLACES, 3), bare=r.random() < 0.3, c=r.choice([343, 330])), lambda d, o, a: _mix(d, o, a))
op("bf_points", "fvec", lambda r, w: dict(g=r.choice(["line", "2d", "3d", "mics"]), p=r.choice(PLACES), pr=r.choice([None, None, "2d", "3d"])), lambda d, o, a: _points(d, a), "plot")
op("bf_plot_map", "array8", lambda r, w: dict(g=r.choice(["2d", "2d", "3d"]), db=r.choice([20, 6]), t=r.choice(["x", "y", "z"]), rm=r.random() < 0.5, v=r.choice([0, 1])), lambda d, o, a: _map(d, o[0], a), "plot", "heavy")


def _mix(d, o, a):
    ch = [o[i].get_channels(0) for i in range(3)]
    fs = ch[a["k"][0]].sampling_rate_hz
    src = [d.bf.MonopoleSource(ch[i], a["p"][i]) for i in a["k"] if ch[i].sampling_rate_hz == fs]
    m = _mics(d)
    given = src[0] if a["bare"] and len(src) == 1 else list(src)
    out = d.bf.mix_sources_on_array(given, m, a["c"])
    if isinstance(given, list) and len(given) != len(src):
        PROBLEMS.append("the list of sources handed to mix_sources_on_array has another length afterwards")
    # the sources and the array belong to the caller: they are reported, too
    ok = all(s.emitted_signal is ch[i] or _same(s.emitted_signal, ch[i]) for s, i in zip(src, [i for i in a["k"] if ch[i].sampling_rate_hz == fs]))
    if not ok:
        PROBLEMS.append("a source handed to mix_sources_on_array carries another signal afterwards")
    return out, [s.coordinates for s in src], m.coordinates


def _same(x, y):
    return x.time_data.shape == y.time_data.shape and np.array_equal(x.time_data, y.time_data)


def _g(d, k):
    x = np.linspace(-0.2, 0.2, 3)
    return {"line": lambda: d.bf.LineGrid(x, "x", 0.1, 0.6), "2d": lambda: _grid(d), "mics": lambda: _mics(d),
            "3d": lambda: d.bf.Regular3DGrid(x[:2], x[:2] + 0.01, np.array([0.4, 0.5, 0.6]))}[k]()


def _points(d, a):
    g = _g(d, a["g"])
    return g.find_nearest_point(a["p"]), g.get_distances_to_point(np.array(a["p"])[None, :]), _closing(lambda: g.plot_points(a["pr"]))


def _map(d, s, a):
    g = _g(d, a["g"])
    m = d.bf.BeamformerDASFrequency(s, _mics(d), g, d.bf.SteeringVector()).get_beamformer_map(1000.0, 3, a["rm"])
    before = m.copy()
    if a["g"] == "2d":
        p = _closing(lambda: g.plot_map(m, a["db"]))
    else:
        p = _closing(lambda: g.plot_map(m, a["t"], [[-0.2, 0.2], [-0.19, 0.21], [0.4, 0.6]]["xyz".index(a["t"])][a["v"]], a["db"]))
    return m, np.array_equal(m, before), p


# ---- filters
op("f3_upsample", "fi|ff|f2 s0|m0", lambda r, w: dict(k=r.choice([2, 4])), lambda d, o, a: o[0].filter_and_resample_signal(d.dsp.Signal(None, o[1].time_data, o[0].sampling_rate_hz // a["k"]), o[0].sampling_rate_hz))
op("f3_special", "s0|ir0|cs|m0", lambda r, w: dict(f=_special(r, w["fs"], 1)[0], z=r.random() < 0.3, ch=r.choice([None, None, [0]])), lambda d, o, a: objs.filt(d.dsp, a["f"]).filter_signal(o[0], channels=a["ch"], zero_phase=a["z"]))
op("f3_special_q", "fvec", lambda r, w: dict(f=_special(r, w["fs"], 1)[0], n=r.choice([8, 60]), m=r.choice(["Zpk", "Sos", "Ba"])), lambda d, o, a: _fq(d, objs.filt(d.dsp, a["f"]), o[0], a))
op("f3_bank", "s0|m0|ir0", lambda r, w: dict(f=_special(r, w["fs"]), m=mode(r), z=r.random() < 0.3), lambda d, o, a: d.dsp.FilterBank([objs.filt(d.dsp, x) for x in a["f"]]).filter_signal(o[0], d.E.FilterBankMode[a["m"]], zero_phase=a["z"]))
op("f3_merge", "fvec", lambda r, w: dict(f=_special(r, w["fs"], 2)), lambda d, o, a: d.st.merge_filters([objs.filt(d.dsp, x) for x in a["f"]]))
op("f3_plot", "fi|ff|f2|biq", lambda r, w: dict(p=r.choice(["mag", "phase", "gd", "zp", "taps"]), n=r.choice([8, 60, 256]), r=RNG(r), i=r.random() < 0.5, u=r.random() < 0.5, z=r.random() < 0.3, nm=r.choice(so.NORMS)), lambda d, o, a: _fplot3(d, o[0], a), "plot")
op("fb3_plot", "fb|lr|qmf|gt", lambda r, w: dict(p=r.choice(["mag", "phase", "gd"]), n=r.choice([3, 60, 256]), r=RNG(r), u=r.random() < 0.5, z=r.random() < 0.3, m=mode(r), ds=r.random() < 0.5), lambda d, o, a: _fbplot3(d, o[0], a), "plot")
op("f3_info", "fi|ff|f2|fb|lr|qmf|gt|mbs|s0|ir0", {}, lambda d, o, a: _printed(o[0].show_info))
op("fb3_ir", "fb|lr|qmf|fbm", lambda r, w: dict(m=mode(r), n=r.choice([2, 40, 200]), z=r.random() < 0.5), lambda d, o, a: o[0].get_ir(a["n"], d.E.FilterBankMode[a["m"]], a["z"]))
op("fb3_tf", "fb|qmf fvec", lambda r, w: dict(m=mode(r)), lambda d, o, a: o[0].get_transfer_function(o[1], d.E.FilterBankMode[a["m"]]))
op("fb3_filter_mbs", "fbm mbm", lambda r, w: dict(z=r.random() < 0.5), lambda d, o, a: o[0].filter_multiband_signal(o[1], zero_phase=a["z"]))
op("qmf3", "qmf s0|m0|ir0", lambda r, w: dict(m=mode(r), ds=r.random() < 0.7, z=r.random() < 0.2, up=r.random() < 0.7), lambda d, o, a: _qmf(d, o, a))
op("gt3", "gt s0|m0", lambda r, w: dict(ch=r.random() < 0.5), lambda d, o, a: o[0].reconstruct(o[0].filter_signal(o[1], d.E.FilterBankMode.Parallel)))
op("svf3", "fvec", lambda r, w: dict(f=r.choice([0.02, 0.1]), q=r.choice([0.7, 2.0]), n=r.choice([20, 60]), fs=w["fs"]), lambda d, o, a: d.fb.StateVariableFilter(a["f"] * a["fs"], a["q"], a["fs"]).get_ir(a["n"]))
op("lattice3", "m0", lambda r, w: dict(s=r.randrange(99), n=r.choice([1, 2, 4]), g=F(r, 0.3, 2.0)), lambda d, o, a: _lattice(d, o[0], a), "heavy")
op("fd3", "fvec", lambda r, w: dict(o=r.choice([1, 2, 3, 7]), x=r.choice([0.3, 0.5, 1.0, 1.4, 3.49]), fs=w["fs"]), lambda d, o, a: d.fb.fractional_delay(a["x"], a["o"], a["fs"]))
op("matched3", "fvec", lambda r, w: dict(e=r.choice(["BandpassPeak", "BandpassSkirt", "Peaking", "Lowshelf", "Highshelf", "Notch", "Lowpass"]), f=round(r.uniform(0.02, 0.3) * w["fs"], 1), g=r.choice([-6.0, 0.0, 3.0]), q=r.choice([0.5, 2.0]), k=r.choice([None, 1.0, 0.7]), fs=w["fs"]),
   lambda d, o, a: d.fb.matched_biquad(d.E.BiquadEqType[a["e"]], a["f"], a["g"], a["q"], a["fs"], a["k"]))
op("f3_to_ir", "ff|fbff", {}, lambda d, o, a: d.tf.filter_to_ir(o[0]))
op("gain3", "cs|mbs|mbm|fb|fbm|f2|ff", lambda r, w: dict(g=r.choice([-6.0, 0.0, 3.0]), v=r.random() < 0.4, s=r.randrange(9)), lambda d, o, a: _gain(d, o[0], a))


def _fq(d, f, fv, a):
    return f.get_ir(a["n"]), f.get_transfer_function(fv), f.get_group_delay(fv), f.get_coefficients(d.E.FilterCoefficientsType[a["m"]]), f.order, f.metadata


def _fplot3(d, f, a):
    N = d.E.MagnitudeNormalization[a["nm"]]
    return _closing({"mag": lambda: f.plot_magnitude(a["n"], a["r"], N, a["z"], a["i"]), "phase": lambda: f.plot_phase(a["n"], a["r"], a["u"], a["i"]),
                     "gd": lambda: f.plot_group_delay(a["n"], a["r"], a["i"]), "zp": lambda: f.plot_zp(a["i"]), "taps": lambda: f.plot_taps(a["i"], a["u"])}[a["p"]])


def _fbplot3(d, f, a):
    m = d.E.FilterBankMode[a["m"]]
    if a["p"] == "mag":
        if type(f).__name__ == "QMFCrossover":
            return _closing(lambda: f.plot_magnitude(a["n"], m, a["r"], a["ds"]))
        return _closing(lambda: f.plot_magnitude(a["n"], m, a["r"], a["z"]))
    if a["p"] == "phase":
        return _closing(lambda: f.plot_phase(a["n"], m, a["r"], a["u"]))
    return _closing(lambda: f.plot_group_delay(a["n"], m, a["r"]))


def _qmf(d, o, a):
    y = o[0].filter_signal(o[1], d.E.FilterBankMode[a["m"]], downsample=a["ds"], zero_phase=a["z"])
    return (y, o[0].reconstruct_signal(y, a["up"])) if a["m"] == "Parallel" and a["up"] == a["ds"] else y


def _lattice(d, s, a):
    b = np.array([1.0])
    for k in np.random.default_rng(a["s"]).uniform(-0.8, 0.8, a["n"]):
        e = np.append(b, 0.0)
        b = e - k * e[::-1]
    f = d.dsp.Filter.from_ba(b * a["g"], [1.0], s.sampling_rate_hz)
    before = f.get_coefficients(d.E.FilterCoefficientsType.Ba)[0]
    y = d.fb.LatticeLadderFilter.from_filter(f).filter_signal(s)
    if not np.array_equal(before, f.get_coefficients(d.E.FilterCoefficientsType.Ba)[0]):
        PROBLEMS.append("the filter given to LatticeLadderFilter.from_filter was changed")
    return y


def _gain(d, t, a):
    if a["v"] and hasattr(t, "number_of_channels"):
        return d.st.apply_gain(t, np.random.default_rng(a["s"]).uniform(-9, 9, t.number_of_channels))
    return d.st.apply_gain(t, a["g"])


# ---- signals
op("s3_plot_mag", "s0|m0|ir0|t0|tir|ir1", lambda r, w: dict(n=r.choice(so.NORMS), r=RNG(r), d=r.choice([None, [-60, 0], 30.0]), s=r.choice([0, 1, 3, 6]), i=r.random() < 0.5), lambda d, o, a: _closing(lambda: o[0].plot_magnitude(a["r"], d.E.MagnitudeNormalization[a["n"]], a["d"], a["s"], a["i"])), "plot")
op("s3_plot_phase", "s0|ir0|tir|ir1", lambda r, w: dict(r=RNG(r), u=r.random() < 0.7, s=r.choice([0, 3]), l=_lat(r, w)), lambda d, o, a: _closing(lambda: o[0].plot_phase(a["r"], a["u"], a["s"], _latv(o[0], a["l"]))), "plot")
op("s3_plot_gd", "s0|ir0|tir|ir1", lambda r, w: dict(r=RNG(r), s=r.choice([0, 3]), l=_lat(r, w)), lambda d, o, a: _closing(lambda: o[0].plot_group_delay(a["r"], a["s"], _latv(o[0], a["l"]))), "plot")
op("s3_plot_spl", "s0|cs|ir0|tir|t0", lambda r, w: dict(n=r.random() < 0.5, d=r.choice([None, 60.0, 100.0]), w=r.choice([0.0, 0.002])), lambda d, o, a: _closing(lambda: o[0].plot_spl(a["n"], a["d"], a["w"])), "plot")
op("s3_plot_bode", "ir0|tir|ir1", lambda r, w: dict(n=r.choice(so.NORMS), r=RNG(r), d=r.choice([None, [-60, 0]]), g=r.random() < 0.5, q=r.choice([None, [-3, 3]]), s=r.choice([0, 3]), l=_lat(r, w)),
   lambda d, o, a: _closing(lambda: o[0].plot_bode(a["r"], d.E.MagnitudeNormalization[a["n"]], a["d"], a["g"], a["q"], a["s"], _latv(o[0], a["l"]))), "plot")
op("s3_add_channel", "s0|m0|ir0|t0", lambda r, w: dict(s=r.randrange(99), n=r.choice([0, 0, -7, 9]), k=r.choice([1, 1, 2]), f=r.choice(["flat", "col", "row"]), al=r.random() < 0.8), lambda d, o, a: _add(d, o[0], a))
op("mb3_collapse", "mbc|mbs|mbir", {}, lambda d, o, a: (o[0].collapse(), o[0].get_all_bands(0), o[0].get_all_bands(-1), o[0].get_all_time_data()))
op("mb3_attrs", "mbs|mbm|mbc", {}, lambda d, o, a: (len(o[0]), str(o[0]), o[0].length_seconds if hasattr(o[0], "length_seconds") else None, o[0].sampling_rate_hz, o[0].is_complex_signal, [b.copy() for b in o[0]]))
op("mb3_mixed_bands", "mbm", lambda r, w: dict(c=r.choice([0, -1])), lambda d, o, a: o[0].get_all_bands(a["c"]))
op("latency3", lambda r: r.choice([["mbs", "mbs"], ["mbir", "mbir"], ["s0", "m0"], ["ir0", "ir1"], ["mbs", None]][:4]), lambda r, w: dict(p=r.choice([0, 1, 3])), lambda d, o, a: d.st.latency(o[0], o[1], a["p"]))
op("latency3b", "mbs|mbir|s0|ir0", lambda r, w: dict(p=r.choice([0, 1, 3])), lambda d, o, a: d.st.latency(o[0], None, a["p"]))
op("convert3", "cv", lambda r, w: dict(i=r.choice(["f64", "f64", "i16", "i32", "i8", "u8", "u16", "i24", "u24", "u32"]), o=r.choice(["f64", "f32", "i16", "i32", "i8", "u8", "u16", "i24", "u24"]), c=r.random() < 0.7, b=r.random() < 0.4, s=r.randrange(99), by=r.random() < 0.5), lambda d, o, a: _convert(d, a))
op("window3", "ir0|tir|rir", lambda r, w: dict(n=r.choice([33, 64, 128, 2000]), ad=r.random() < 0.5, c=r.choice([0.1, 0.5, 0.75, 0.95]), s=r.random() < 0.7, o=r.choice([0, 0, 5, 40]), f=r.choice([0.25, 1.0, 4.0])), lambda d, o, a: d.tf.window_ir(o[0], a["n"], a["ad"], a["c"], at_start=a["s"], offset_samples=a["o"], left_to_right_flank_length_ratio=a["f"]))
op("smooth3", "ir0|tir|ir1", lambda r, w: dict(m=r.choice(["RealImaginary", "PowerPhase", "MagnitudePhase", "Power", "Magnitude", "EquivalentComplex"]), o=r.choice([1.0, 3.0, 12.0])), lambda d, o, a: d.tf.complex_smoothing(o[0], a["o"], getattr(d.tf.SmoothingDomain, a["m"])))
op("distances3", "s0|lu s1|lu", lambda r, w: dict(m=r.choice(so.METHODS), e=r.random() < 0.5, k=r.choice(["ls", "is", "fw"])), lambda d, o, a: _dist3(d, o, a), "heavy")
op("sp3_to_signal", "spc", lambda r, w: dict(fs=r.choice([8000, 16000, 48000]), l=r.choice([None, 0.01, 0.02])), lambda d, o, a: o[0].to_signal(a["fs"], a["l"]))
op("sp3_plot", "sp0|spc", lambda r, w: dict(n=r.choice(so.NORMS), d=r.random() < 0.6, r=r.choice([None, 40.0])), lambda d, o, a: _closing(lambda: o[0].plot_magnitude(a["d"], d.E.MagnitudeNormalization[a["n"]], a["r"])), "plot")
op("sp3_append", "spc|sp0 sp1|spc", lambda r, w: dict(c=r.random() < 0.7, k=r.choice([2, 3])), lambda d, o, a: d.st.append_spectra([o[0], o[1], o[0]][:a["k"]], a["c"]))
op("room3_tf", "rx fvec", lambda r, w: dict(n=r.choice([2, 4]), p=r.random() < 0.5, c=r.choice([343, 340])), lambda d, o, a: _noplot(lambda: _tf3(o[0].get_analytical_transfer_function([1.0, 1.2, 1.3], [2.5, 1.1, 1.5], o[1][:6], a["n"], a["p"], a["c"]))))
op("convolve3", "s0|t0|m0|lu ir0|tir|rir", lambda r, w: dict(p=r.random() < 0.5, l=r.random() < 0.5), lambda d, o, a: d.ra.convolve_rir_on_signal(o[0], o[1].get_channels(0), a["p"], a["l"]))
op("plots3", "cv", lambda r, w: dict(k=r.choice(["plot", "plot", "matrix", "sub", "two"]), x=r.random() < 0.6, l=r.random() < 0.5, i=r.random() < 0.5, lb=r.random() < 0.5, rx=r.choice([None, [100, 3000]]), ry=r.choice([None, [0, 1]]), t=r.random() < 0.5, c=r.random() < 0.5), lambda d, o, a: _plots3(d, o[0], a), "plot")
op("fx3_default", "s0|m0|t0", lambda r, w: dict(k=r.choice(["chorus", "tremolo", "delay", "comp", "dist"])), lambda d, o, a: getattr(d.fx, {"chorus": "Chorus", "tremolo": "Tremolo", "delay": "DigitalDelay", "comp": "Compressor", "dist": "Distortion"}[a["k"]])().apply(o[0]), "heavy", "rng")
op("fx3_plot_delay", "fvec", lambda r, w: dict(t=r.choice([2.0, 5.0]), f=r.choice([0.1, 0.5])), lambda d, o, a: _closing(lambda: d.fx.DigitalDelay(a["t"], a["f"]).plot_delay()), "plot")
op("cal3", "s0|mbs|ir0 s1|m0", lambda r, w: dict(l=r.choice([94, 114]), f=r.random() < 0.5), lambda d, o, a: _cal3(d, o, a))
op("cs3", "cs", lambda r, w: dict(k=r.choice(["norm", "delay", "pad", "gain", "resample", "sum", "spl", "real", "fade", "trim"])), lambda d, o, a: _cplx(d, o[0], a))


def _lat(r, w):
    return r.choice([None, "peak", "min_phase", "arr"])


def _latv(s, l):
    return 3.5 * np.arange(1, s.number_of_channels + 1) if l == "arr" else l


def _add(d, s, a):
    n = s.length_samples + a["n"]
    x = so.data(a["s"], n, a["k"])
    x = {"flat": x[:, 0], "col": x, "row": x.T}[a["f"]]
    before = x.copy()
    c = s.copy()
    c.add_channel(None, x, s.sampling_rate_hz, a["al"])
    if not np.array_equal(x, before):
        PROBLEMS.append("the array given to add_channel was changed")
    y = c.time_data.copy()
    x[...] = 77.0
    if not np.array_equal(c.time_data, y):
        PROBLEMS.append("the array given to add_channel is still part of the signal")
    return c


def _convert(d, a):
    g = np.random.default_rng(a["s"])
    i = a["i"]
    if i[0] == "f":
        v = g.uniform(-1, 1, 12).astype(dict(f64="f8", f32="f4")[i])
    else:
        bits = int(i[1:])
        lo, hi = (0, 2 ** bits) if i[0] == "u" else (-2 ** (bits - 1), 2 ** (bits - 1))
        v = g.integers(lo, hi, 12)
        if bits != 24:
            v = v.astype(("u" if i[0] == "u" else "i") + str(bits // 8))
        elif a["by"]:
            v = b"".join(int(x).to_bytes(3, "little", signed=i[0] == "i") for x in v)
    if a["by"] and not isinstance(v, bytes) and i[1:] != "24":
        v = v.tobytes()
    before = v if isinstance(v, bytes) else v.copy()
    out = d.to.convert_sample_representation(v, i, a["o"], a["c"], a["b"])
    if not isinstance(v, bytes) and not np.array_equal(v, before):
        PROBLEMS.append("the values given to convert_sample_representation were changed")
    return out


def _dist3(d, o, a):
    if o[0].length_samples != o[1].length_samples or o[0].number_of_channels != o[1].number_of_channels:
        o = [o[0], o[0].copy_with_new_time_data(o[0].time_data[::-1] * 0.7)]
    if a["k"] == "fw":
        return d.di.fw_snr_seg(o[0], o[1])
    return (d.di.log_spectral if a["k"] == "ls" else d.di.itakura_saito)(o[0], o[1], d.E.SpectrumMethod[a["m"]], energy_normalization=a["e"])


def _tf3(r):
    return r[:2] if len(r) > 2 else r


def _plots3(d, m, a):
    import dsptoolbox.plots as P
    f = np.linspace(20, 4000, 65) if a["x"] else None
    lb = ["c%d" % i for i in range(m.shape[1])] if a["lb"] else None
    box = "some text" if a["i"] else None
    if a["k"] == "plot":
        return _closing(lambda: P.general_plot(f, m if a["c"] else m[:, 0], a["rx"] if a["x"] else None, a["ry"], a["l"], lb if a["c"] else None, info_box=box, tight_layout=a["t"]))
    if a["k"] == "matrix":
        return _closing(lambda: P.general_matrix_plot(m, range_x=(1, 5), range_y=(1, 9), range_z=20.0 if a["c"] else None, xlabel="x", ylabel="y", zlabel="z", xlog=False, ylog=a["l"], colorbar=a["i"], lower_origin=a["t"]))
    if a["k"] == "sub":
        return _closing(lambda: P.general_subplots_line(f, m, a["c"], a["i"], a["t"], a["l"] and a["x"], ["x"] * m.shape[1], ["y"] * m.shape[1]))
    return _closing(lambda: P.general_plot_two_axes(f, m, f, m * 2, log_x=a["l"] and a["x"], labels1=lb, labels2=lb, info_box=box, tight_layout=a["t"], y1_alpha=0.5))


def _cal3(d, o, a):
    c = d.dsp.CalibrationData((o[1].time_data, o[1].sampling_rate_hz), a["l"])
    return c.calibrate_signal(o[0], a["f"])


def _cplx(d, s, a):
    st = d.st
    return {"norm": lambda: st.normalize(s, -6.0), "delay": lambda: st.delay(s, 5), "pad": lambda: st.pad_trim(s, s.length_samples + 20), "gain": lambda: st.apply_gain(s, -3.0),
            "resample": lambda: st.resample(s, s.sampling_rate_hz // 2), "sum": lambda: s.sum_channels(), "spl": lambda: s.get_spectrum(), "real": lambda: (s.time_data, s.time_data_imaginary, s.is_complex_signal),
            "fade": lambda: st.fade(s, d.E.FadeType.Linear), "trim": lambda: st.trim_with_time_selection(s, 0.001, 0.01)}[a["k"]]()
