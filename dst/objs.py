"""Library objects built from JSON specs through public constructors."""
import numpy as np
from . import core, models


def rnd_filter_spec(r, fs=48000, small=False):
    k = r.choice(["iir", "iir", "biquad", "fir", "ba", "ba", "sos", "zpk", "gain"])
    s = dict(k=k, seed=r.randrange(1 << 30), fs=fs)
    if k == "iir":
        s.update(order=r.choice([1, 2, 3, 4, 6]), f=round(r.uniform(0.02, 0.4) * fs, 1), p=r.choice(["Lowpass", "Highpass"]),
                 d=r.choice(["Butterworth", "Bessel"]))
    elif k == "biquad":
        s.update(f=round(r.uniform(0.01, 0.4) * fs, 1), g=round(r.uniform(-12, 12), 1), q=round(r.uniform(0.4, 4), 2),
                 e=r.choice(["Lowpass", "Highpass", "Peaking", "Lowshelf", "Highshelf", "BandpassSkirt", "Notch", "Allpass",
                             "LowpassFirstOrder", "AllpassFirstOrder"]))
    elif k == "fir":
        s.update(order=r.choice([1, 2, 5, 16, 33] + ([] if small else [150])))
    elif k == "ba":
        s.update(na=r.choice([1, 2, 3, 5]), nb=r.choice([0, 1, 2, 4, 7]), a0=r.choice([1.0, 1.0, 2.0]))
    elif k == "sos":
        s.update(nsec=r.choice([1, 2, 4]))
    elif k == "zpk":
        s.update(n=r.choice([2, 4]))
    if k in ("ba", "fir", "sos") and r.random() < 0.25:
        s["sp"] = r.choice({"ba": ["zero_pole", "even", "slow", "sparse", "first0", "last0", "int"], "sos": ["zero_pole", "even", "first_order"],
                            "fir": ["sparse", "delay", "first0", "last0", "sym", "int"]}[k])
    return s


def filt(dsp, s):
    from dsptoolbox import Filter, FilterPassType, IirDesignMethod, BiquadEqType
    g = np.random.default_rng(s["seed"])
    k, fs = s["k"], s["fs"]
    if k == "iir":
        return Filter.iir_filter(s["order"], s["f"], FilterPassType[s["p"]], fs, IirDesignMethod[s["d"]])
    if k == "biquad":
        return Filter.biquad(BiquadEqType[s["e"]], s["f"], s["g"], s["q"], fs)
    if k == "fir":
        b = g.uniform(-1, 1, s["order"] + 1)
        return Filter.from_ba(models.special_b(b, dict(cseed=s["seed"], spb=s["sp"])) if "sp" in s else b, [1.0], fs)
    if k == "ba":
        b = g.uniform(-1, 1, s["nb"] + 1)
        if "sp" in s:
            b = models.special_b(b, dict(cseed=s["seed"], spb=s["sp"]))
        return Filter.from_ba(b, models.stable_a(s["seed"], s["na"], s.get("sp")) * s["a0"], fs)
    if k == "sos":
        sos = np.zeros((s["nsec"], 6))
        for i in range(s["nsec"]):
            sos[i, :3] = g.uniform(-1, 1, 3)
            sos[i, 3:] = models.stable_a(s["seed"] + i, 2, s.get("sp"))
            if s.get("sp") == "first_order" and i == 0:
                sos[i, 2] = 0
                sos[i, 3:] = np.append(models.stable_a(s["seed"] + i, 1), 0)
        return Filter.from_sos(sos, fs)
    if k == "zpk":
        p = np.roots(models.stable_a(s["seed"], s["n"]))
        z = np.exp(1j * g.uniform(0.2, 2.8, s["n"] // 2))
        return Filter.from_zpk(np.concatenate([z, z.conj()]), p, 0.3, fs)
    if k == "gain":
        return Filter.from_ba([0.5], [1.0], fs)
    raise KeyError(k)


def ref_filter(f, x):
    """Zero-state response computed with scipy from the public coefficients."""
    import scipy.signal as sig
    if f.has_sos:
        return sig.sosfilt(f.sos, x, axis=0)
    b, a = f.ba
    return sig.lfilter(b, a, x, axis=0)


def signal(dsp, seed, n, nch, fs=48000, cls="Signal", scale=0.5, constrain=False, cache=False):
    x = core.arr(seed, n, nch, scale=scale)
    C = {"Signal": dsp.Signal, "ImpulseResponse": dsp.ImpulseResponse}[cls]
    return C(None, x, fs, constrain_amplitude=constrain, **({"activate_cache": True} if cache else {}))
