"""Vocabulary of operations on signals: JSON specs, and how they are applied."""
import numpy as np
from . import core

METHODS = ["WelchPeriodogram", "FFT"]
SCALINGS = ["AmplitudeSpectrum", "AmplitudeSpectralDensity", "PowerSpectrum", "PowerSpectralDensity", "FFTBackward", "FFTForward", "FFTOrthogonal"]
WINDOWS = ["Hann", "Hamming", "Boxcar", "Blackman", "Bartlett", "Flattop", ["Gaussian", 5.0], ["Gaussian", 11.0], ["Kaiser", 3.0], ["Kaiser", 9.0], ["Kaiser", 3.0], ["Gaussian", 5.0]]
NORMS = ["NoNormalization", "Max", "MaxFirstChannel", "Energy", "OneKhz"]


def enums(dsp):
    from dsptoolbox.standard import enums as E
    return E


def window(E, v):
    """A window type, or [type, extra parameter]."""
    return E.Window[v] if isinstance(v, str) else E.Window[v[0]].with_extra_parameter(v[1])


def params(E, d):
    """JSON parameters -> keyword arguments with enums."""
    out = {}
    for k, v in d.items():
        if k == "method":
            v = E.SpectrumMethod[v]
        elif k == "scaling":
            v = E.SpectrumScaling[v]
        elif k == "window_type":
            v = window(E, v)
        out[k] = v
    return out


SPEC_DEFAULT = dict(method="WelchPeriodogram", smoothing=0, pad_to_fast_length=True, window_length_samples=1024, window_type="Hann",
                    overlap_percent=50, detrend=True, average="mean", scaling="FFTBackward")
SGRAM_DEFAULT = dict(window_length_samples=1024, window_type="Hann", overlap_percent=50.0, fft_length_samples=None, detrend=False,
                     padding=True, scaling="FFTBackward")


def gen_spec_params(r):
    d = {}
    if r.random() < 0.6:
        d["method"] = r.choice(METHODS)
    if r.random() < 0.3:
        d["smoothing"] = r.choice([0, 1, 3, 6])
    if r.random() < 0.3:
        d["pad_to_fast_length"] = r.random() < 0.5
    if r.random() < 0.6:
        d["window_length_samples"] = r.choice([16, 32, 64, 128, 256])
    if r.random() < 0.3:
        d["window_type"] = r.choice(WINDOWS)
    if r.random() < 0.3:
        d["overlap_percent"] = r.choice([0, 25, 50, 75])
    if r.random() < 0.3:
        d["detrend"] = r.random() < 0.5
    if r.random() < 0.2:
        d["average"] = r.choice(["mean", "median"])
    if r.random() < 0.5:
        d["scaling"] = r.choice(SCALINGS)
    return d


def gen_sgram_params(r):
    d = dict(window_length_samples=r.choice([16, 32, 64, 128]))
    if r.random() < 0.3:
        d["window_type"] = r.choice(WINDOWS)
    if r.random() < 0.4:
        d["overlap_percent"] = r.choice([0.0, 25.0, 50.0, 75.0])
    if r.random() < 0.3:
        d["fft_length_samples"] = r.choice([None, 64, 128, 256])
    if r.random() < 0.2:
        d["detrend"] = True
    if r.random() < 0.3:
        d["padding"] = r.random() < 0.5
    if r.random() < 0.4:
        d["scaling"] = r.choice(SCALINGS)
    return d


def data(seed, n, nch, cplx=False, scale=0.5):
    x = core.arr(seed, n, nch, scale=scale)
    if cplx:
        x = x + 1j * core.arr(seed + 7, n, nch, scale=scale)
    return x


GETTERS = ["spectrum", "csm", "spectrogram", "time"]


def get(s, what, force=False):
    if what == "spectrum":
        return s.get_spectrum(force_computation=force)
    if what == "csm":
        return s.get_csm(force_computation=force)
    if what == "spectrogram":
        return s.get_spectrogram(force_computation=force)
    if what == "time":
        return (s.time_vector_s,)
    raise KeyError(what)


def gen_plot(r, ir):
    k = r.choice(["mag", "mag", "phase", "gd", "spl", "sgram", "csm", "time"] + (["bode"] if ir else []))
    d = dict(p=k)
    if k in ("mag", "bode"):
        d["norm"] = r.choice(NORMS)
    if k in ("mag", "phase", "gd", "bode"):
        d["sm"] = r.choice([0, 0, 1, 3])
    if k in ("phase", "gd", "bode"):
        d["lat"] = r.choice([None, None, "peak", "zz"])
    if k == "bode":
        d["sgd"] = r.random() < 0.4
    if k == "spl":
        d["w"] = r.choice([0.0, 0.002])
    if k == "csm":
        d["ph"] = r.random() < 0.7
    if k == "sgram":
        d["lg"] = r.random() < 0.6
    return d


def plot(s, d, E):
    """Draw and return the plotted data."""
    import matplotlib.pyplot as plt
    k = d["p"]
    try:
        if k == "mag":
            fig, ax = s.plot_magnitude(range_hz=None, normalize=E.MagnitudeNormalization[d["norm"]], smoothing=d["sm"])
        elif k == "phase":
            fig, ax = s.plot_phase(range_hz=None, smoothing=d["sm"], remove_ir_latency=d["lat"])
        elif k == "gd":
            fig, ax = s.plot_group_delay(range_hz=None, smoothing=d["sm"], remove_ir_latency=d["lat"])
        elif k == "spl":
            fig, ax = s.plot_spl(window_length_s=d["w"])
        elif k == "sgram":
            fig, ax = s.plot_spectrogram(channel_number=d.get("ch", 0), log_freqs=d.get("lg", True))
        elif k == "csm":
            fig, ax = s.plot_csm(with_phase=d.get("ph", True))
        elif k == "time":
            fig, ax = s.plot_time()
        elif k == "bode":
            fig, ax = s.plot_bode(normalize=E.MagnitudeNormalization[d["norm"]], smoothing=d["sm"], show_group_delay=d["sgd"],
                                  remove_ir_latency=d["lat"])
        else:
            raise KeyError(k)
        return plotted(fig)
    finally:
        plt.close("all")


def plotted(fig):
    out = []
    for a in fig.axes:
        for ln in a.lines:
            out.append(np.array(ln.get_xydata(), dtype=float))
        for c in list(a.collections) + list(a.images):
            z = c.get_array()
            if z is not None:
                out.append(np.array(np.ma.filled(z, np.nan), dtype=float))
    return out
