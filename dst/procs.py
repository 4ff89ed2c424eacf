"""C13 models: how a configured processor is built, used and changed, as JSON specs."""
import copy as _copy
import numpy as np
from . import core, models, objs

FS = 8000


# ---------------------------------------------------------------- parameter values
def dec(dsp, v):
    """JSON -> parameter value, always a new object."""
    if isinstance(v, dict):
        if "arr" in v:
            return core.arr(v["arr"][0], *v["arr"][1], scale=v["arr"][2]) + v["arr"][3]
        if "list" in v:
            return np.array(v["list"], dtype=float)
        if "lfo" in v:
            return dsp.effects.LFO(**{k: dec(dsp, x) for k, x in v["lfo"].items()})
        if "tuple" in v:
            return tuple(dec(dsp, x) for x in v["tuple"])
        if "items" in v:
            return [dec(dsp, x) for x in v["items"]]
        if "ninf" in v:
            return -np.inf
        if "win" in v:
            return dsp.Window[v["win"]]
        if "dt" in v:
            return dsp.effects.DistortionType[v["dt"]]
        if "fun" in v:
            return {"half": lambda x: 0.5 * x, "tanh": lambda x: float(np.tanh(x)) if isinstance(x, float) else np.tanh(x)}[v["fun"]]
        raise KeyError(v)
    return v


def kw(dsp, d):
    return {k: dec(dsp, v) for k, v in d.items()}


def gen_lfo(r, rnd=0.15):
    return {"lfo": dict(frequency_hz=r.choice([1.0, 3, 7.5, 20.0, 60]), waveform=r.choice(["harmonic", "triangle", "square", "sawtooth", "Harmonic"]),
                        random_phase=r.random() < rnd, smooth=r.choice([0, 0, 1, 4.0]))}


def some(r, full, p=0.45):
    """A non-empty random subset of parameters, others untouched."""
    ks = [k for k in full if r.random() < p] or [r.choice(sorted(full))]
    return {k: full[k] for k in ks}


class Proc:
    """Base: spec -> object. Changes are dicts {m: method, kw: {...}, bad: bool}."""
    heavy = False
    threads = True
    uses = ("apply",)

    def gen(self, r):
        raise NotImplementedError

    def build(self, dsp, spec):
        raise NotImplementedError

    def must(self, spec, u, g):
        """A use that is documented to work for every parameter set."""
        return False

    def arrays(self, out):
        return [out] if isinstance(out, np.ndarray) else x_of(out)

    def gen_change(self, r, spec):
        return None

    def upd(self, spec, ch):
        """Effective parameters after an accepted change."""
        s = _copy.deepcopy(spec)
        s.setdefault(ch["m"], {})
        if ch["m"] == "set_parameters":
            s[ch["m"]].update({k: v for k, v in ch["kw"].items() if v is not None})
        else:
            s[ch["m"]] = ch["kw"]
        return s

    def change(self, dsp, obj, ch):
        getattr(obj, ch["m"])(**kw(dsp, ch["kw"]))

    def gen_use(self, r, spec, threaded):
        return dict(u=r.choice(self.uses))

    def inputs(self, dsp, spec, u, sig):
        """(input objects) for one use; sig is the seed-determined signal maker."""
        return [sig(u)]

    def use(self, dsp, obj, ins, u):
        return obj.apply(ins[0])

    def law(self, dsp, spec, ins, u, out):
        """Documented relation between parameters and result, or None."""
        return None

    def deterministic(self, spec):
        return "random_phase': True" not in repr(spec)


def x_of(s):
    return [b.time_data for b in s.bands] if hasattr(s, "bands") else [s.time_data]


# ---------------------------------------------------------------- effects
class SpecSub(Proc):
    cls = "SpectralSubtractor"

    def full(self, r):
        return dict(adaptive_mode=r.random() < 0.6, threshold_rms_dbfs=r.choice([-40, -25, -12.5]), block_length_s=r.choice([0.008, 0.016]))

    def gen(self, r):
        s = dict(set_parameters=self.full(r))
        self._spec(r, s["set_parameters"])
        if r.random() < 0.5:
            s["set_advanced_parameters"] = self.adv(r)
        return s

    def _spec(self, r, p):
        p["spectrum_to_subtract"] = False
        if not p["adaptive_mode"] and r.random() < 0.7:
            p["spectrum_to_subtract"] = {"arr": [r.randrange(1 << 20), [r.choice([33, 65])], 0.4, 0.5]}

    def adv(self, r):
        f = dict(overlap_percent=r.choice([50, 75]), window_type={"win": r.choice(["Hann", "Hamming"])}, noise_forgetting_factor=r.choice([0.9, 0.5, 1]),
                 subtraction_factor=r.choice([1, 2, 3.0]), subtraction_exponent=r.choice([1, 2, 3]), ad_attack_time_ms=r.choice([0.5, 2.0]), ad_release_time_ms=r.choice([30, 5]))
        return some(r, f)

    def build(self, dsp, s):
        o = dsp.effects.SpectralSubtractor(**kw(dsp, s["set_parameters"]))
        o.set_advanced_parameters(**kw(dsp, s.get("set_advanced_parameters", {})))
        return o

    def gen_change(self, r, s):
        x = r.random()
        if x < 0.35:
            return dict(m="set_advanced_parameters", kw=self.adv(r), bad=False)
        if x < 0.7:
            p = self.full(r)
            self._spec(r, p)
            c = some(r, {k: v for k, v in p.items() if k not in ("adaptive_mode", "spectrum_to_subtract")})
            if r.random() < 0.5:
                c["adaptive_mode"] = p["adaptive_mode"]
            c["spectrum_to_subtract"] = None if s["set_parameters"]["spectrum_to_subtract"] is False or not c.get("adaptive_mode") else False
            if not s["set_parameters"]["adaptive_mode"] and not c.get("adaptive_mode") and r.random() < 0.5:
                c["spectrum_to_subtract"] = p["spectrum_to_subtract"]
            return dict(m="set_parameters", kw=c, bad=False)
        if x < 0.85:
            c = self.adv(r)
            c.update(r.choice([dict(ad_release_time_ms=-1), dict(subtraction_exponent=0), dict(ad_attack_time_ms=-3), dict(overlap_percent=100), dict(noise_forgetting_factor=0)]))
            return dict(m="set_advanced_parameters", kw=c, bad=True)
        c = dict(threshold_rms_dbfs=-7, spectrum_to_subtract=None)
        c.update(r.choice([dict(block_length_s="1"), dict(adaptive_mode=1), dict(threshold_rms_dbfs="x", adaptive_mode=not s["set_parameters"]["adaptive_mode"], spectrum_to_subtract=False),
                           dict(spectrum_to_subtract={"items": [1.0, 2.0]})]))
        return dict(m="set_parameters", kw=c, bad=True)


class Dist(Proc):
    def adv(self, r):
        n = r.choice([1, 1, 2, 3])
        f = {}
        if n == 1:
            f = some(r, dict(type_of_distortion={"dt": r.choice(["Arctan", "HardClip", "SoftClip", "NoDistortion"])}, distortion_levels_db=r.choice([20, 3.0, 40]),
                             mix_percent=r.choice([100, 40, 75.0]), offset_db=r.choice([{"ninf": 1}, -20]), post_gain_db=r.choice([0, 6, -12.5])), 0.5)
        else:
            f = dict(type_of_distortion={"items": [{"dt": r.choice(["Arctan", "HardClip", "SoftClip", "NoDistortion"])} for _ in range(n)]},
                     distortion_levels_db={"list": [r.choice([3.0, 10.0, 30.0]) for _ in range(n)]}, mix_percent={"list": {2: [30, 70], 3: [20, 50, 30]}[n]},
                     offset_db={"list": [r.choice([-30.0, -12.0]) for _ in range(n)]})
            if r.random() < 0.5:
                f["post_gain_db"] = r.choice([3, -6.5])
        return f

    def gen(self, r):
        return dict(set_advanced_parameters=self.adv(r))

    def build(self, dsp, s):
        o = dsp.effects.Distortion()
        o.set_advanced_parameters(**kw(dsp, s["set_advanced_parameters"]))
        return o

    def gen_change(self, r, s):
        c = self.adv(r)
        if r.random() < 0.6:
            return dict(m="set_advanced_parameters", kw=c, bad=False)
        c.update(r.choice([dict(mix_percent={"list": [30, 30]}), dict(mix_percent=130), dict(offset_db={"list": [-3.0] * 5}), dict(distortion_levels_db={"list": [3.0] * 5}),
                           dict(type_of_distortion={"items": [{"dt": "SoftClip"}, "clip"]})]))
        return dict(m="set_advanced_parameters", kw=c, bad=True)

    def law(self, dsp, s, ins, u, out):
        g = s["set_advanced_parameters"].get("post_gain_db", 0)
        t = _copy.deepcopy(s)
        t["set_advanced_parameters"]["post_gain_db"] = 0
        return [x * 10 ** (g / 20) for x in x_of(self.build(dsp, t).apply(ins[0]))]


class Comp(Proc):
    heavy = True

    def full(self, r):
        return dict(threshold_dbfs=r.choice([-10, -20.0, -3]), attack_time_ms=r.choice([0.5, 2, 0]), release_time_ms=r.choice([20, 3.0, 0]), ratio=r.choice([3, 8.0, 1]), relative_to_peak_level=r.random() < 0.5)

    def adv(self, r):
        return some(r, dict(knee_factor_db=r.choice([0, 3.0, 8]), pre_gain_db=r.choice([0, 6.0, -3, None]), post_gain_db=r.choice([0, 4.5, -9, None]), mix_percent=r.choice([100, 60, 25.0]),
                            automatic_make_up_gain=r.random() < 0.5, downward_compression=r.random() < 0.6))

    def gen(self, r):
        return dict(set_parameters=self.full(r), **(dict(set_advanced_parameters=self.adv(r)) if r.random() < 0.7 else {}))

    def build(self, dsp, s):
        o = dsp.effects.Compressor(**kw(dsp, s["set_parameters"]))
        o.set_advanced_parameters(**kw(dsp, s.get("set_advanced_parameters", {})))
        return o

    def gen_change(self, r, s):
        x = r.random()
        if x < 0.35:
            return dict(m="set_advanced_parameters", kw=self.adv(r), bad=False)
        if x < 0.7:
            return dict(m="set_parameters", kw=some(r, self.full(r)), bad=False)
        if x < 0.85:
            c = self.adv(r)
            c.update(r.choice([dict(mix_percent=0), dict(mix_percent=101), dict(knee_factor_db=-1)]))
            return dict(m="set_advanced_parameters", kw=c, bad=True)
        c = self.full(r)
        c.update(r.choice([dict(ratio=0.5), dict(release_time_ms=-1), dict(attack_time_ms=-0.1)]))
        return dict(m="set_parameters", kw=c, bad=True)

    def use(self, dsp, obj, ins, u):
        if u["u"] == "show":
            import matplotlib.pyplot as plt
            fig, ax = obj.show_compression()
            out = [np.array(l.get_ydata(), float) for l in ax.lines[:2]]
            plt.close("all")
            return out
        return obj.apply(ins[0])

    def law(self, dsp, s, ins, u, out):
        if u["u"] == "show":
            return None
        a = s.get("set_advanced_parameters", {})
        g = a.get("post_gain_db", 0) or 0
        t = _copy.deepcopy(s)
        t.setdefault("set_advanced_parameters", {})["post_gain_db"] = 0
        m = a.get("mix_percent", 100) / 100
        if m < 1 and not a.get("automatic_make_up_gain", True):   # the mix is one of the compressed signal with the signal before compression
            t["set_advanced_parameters"]["mix_percent"] = 100
            wet, dry, pre = x_of(self.build(dsp, t).apply(ins[0])), x_of(ins[0]), 10 ** ((a.get("pre_gain_db", 0) or 0) / 20)
            return [(m * w + (1 - m) * pre * d) * 10 ** (g / 20) for w, d in zip(wet, dry)]
        return [x * 10 ** (g / 20) for x in x_of(self.build(dsp, t).apply(ins[0]))]


class Trem(Proc):
    def gen(self, r):
        return dict(set_parameters=dict(depth=r.choice([0.5, 0.9, 0.1, 1]), modulator=gen_lfo(r)))

    def build(self, dsp, s):
        return dsp.effects.Tremolo(**kw(dsp, s["set_parameters"]))

    def gen_change(self, r, s):
        c = some(r, self.gen(r)["set_parameters"], 0.6)
        if r.random() < 0.65:
            return dict(m="set_parameters", kw=c, bad=False)
        return dict(m="set_parameters", kw=r.choice([dict(modulator=gen_lfo(r), depth=1.5), dict(depth=0, modulator=gen_lfo(r)), dict(modulator=3, depth=0.3)]), bad=True)

    def law(self, dsp, s, ins, u, out):
        p = s["set_parameters"]
        res = []
        for x in x_of(ins[0]):
            m = dec(dsp, p["modulator"]).get_waveform(u["fs"], len(x))
            res.append(x * np.abs(m * p["depth"] + 1)[:, None])
        return res


class Chor(Proc):
    heavy = True

    def gen(self, r):
        n = r.choice([1, 2, 3])
        return dict(d=[r.choice([0.5, 1.0, 3.0]) for _ in range(n)], b=[r.choice([1.0, 4.0, 6.0]) for _ in range(n)], m=[gen_lfo(r) for _ in range(n)], mix=r.choice([100, 60]))

    def build(self, dsp, s):
        return dsp.effects.Chorus(np.array(s["d"]), np.array(s["b"]), [dec(dsp, x) for x in s["m"]], s["mix"])

    KEYS = dict(d="depths_ms", b="base_delays_ms", m="modulators", mix="mix_percent")

    def gen_change(self, r, s):
        n = r.choice([1, len(s["d"]), len(s["d"]), 2, 3])
        t = self.gen(r)
        c = {}
        for k in r.sample(["d", "b", "m", "mix"], r.choice([1, 1, 2, 3, 4])):
            if k == "mix":
                c[k] = t[k]
                continue
            ln = r.choice([1, n])
            c[k] = [(gen_lfo(r) if k == "m" else r.choice([0.5, 2.0, 5.0])) for _ in range(ln)]
        x = r.random()
        if x < 0.15:
            c["mix"] = r.choice([150, 0])
        elif x < 0.25:
            c["b"] = [-1.0]
        return dict(m="set_parameters", kw=c, bad=self.upd(s, dict(kw=c)) is None)

    def upd(self, s, ch):
        c = ch["kw"]
        s = _copy.deepcopy(s)
        nv = max(len(c.get(k, s[k])) for k in "dbm")
        for k in "dbm":
            v = c.get(k, s[k])
            if len(v) not in (1, nv):
                return None
            s[k] = v * nv if len(v) == 1 and nv > 1 else v
        if min(s["b"]) <= 0:
            return None
        s["mix"] = c.get("mix", s["mix"])
        return s if 0 < s["mix"] <= 100 else None

    def change(self, dsp, obj, ch):
        c = ch["kw"]
        k = {}
        for n, v in c.items():
            if n == "mix":
                k["mix_percent"] = v
            elif n == "m":
                k["modulators"] = dec(dsp, v[0]) if len(v) == 1 else [dec(dsp, x) for x in v]
            else:
                k[self.KEYS[n]] = v[0] if len(v) == 1 else np.array(v)
        obj.set_parameters(**k)


class Dly(Proc):
    def gen(self, r):
        s = dict(set_parameters=dict(delay_time_ms=r.choice([1.0, 5, 12.5]), feedback=r.choice([0.1, 0.5, 0.8])))
        if r.random() < 0.6:
            s["set_advanced_parameters"] = self.adv(r)
        return s

    def adv(self, r):
        return dict(saturation=r.choice([None, "arctan", "digital", {"fun": "half"}, {"fun": "tanh"}]))

    def build(self, dsp, s):
        o = dsp.effects.DigitalDelay(**kw(dsp, s["set_parameters"]))
        o.set_advanced_parameters(**kw(dsp, s.get("set_advanced_parameters", {})))
        return o

    def gen_change(self, r, s):
        x = r.random()
        if x < 0.35:
            return dict(m="set_advanced_parameters", kw=self.adv(r), bad=False)
        if x < 0.75:
            return dict(m="set_parameters", kw=some(r, self.gen(r)["set_parameters"]), bad=False)
        if x < 0.9:
            return dict(m="set_parameters", kw=r.choice([dict(delay_time_ms=4.0, feedback=-1), dict(delay_time_ms=-3, feedback=0.2), dict(feedback="a", delay_time_ms=2.0)]), bad=True)
        return dict(m="set_advanced_parameters", kw=dict(saturation="tube"), bad=True)

    def law(self, dsp, s, ins, u, out):
        p = s["set_parameters"]
        fn = {None: lambda v: v, "digital": lambda v: v, "arctan": lambda v: 0.5 * np.arctan(2 * v)}
        a = s.get("set_advanced_parameters", {}).get("saturation")
        fn = dec(dsp, a) if isinstance(a, dict) else fn[a]
        res = []
        d = int(np.round(p["delay_time_ms"] * 1e-3 * u["fs"]))
        for x in x_of(ins[0]):
            y = np.concatenate([x, np.zeros((int(d * (1 + p["feedback"] * 15)), x.shape[1]))])
            for i in range(d, len(y)):
                y[i] += p["feedback"] * fn(y[i - d])
            res.append(y * (np.max(np.abs(x), axis=0) / np.max(np.abs(y), axis=0)))
        return res


class Lfo(Proc):
    def gen(self, r):
        return dict(set_parameters=gen_lfo(r)["lfo"])

    def build(self, dsp, s):
        return dsp.effects.LFO(**kw(dsp, s["set_parameters"]))

    def gen_change(self, r, s):
        c = some(r, gen_lfo(r)["lfo"])
        if r.random() < 0.2:
            c["frequency_hz"] = {"tuple": [r.choice(["quarter", "eighth", "half dotted"]), 120]}
        if r.random() < 0.65:
            return dict(m="set_parameters", kw=c, bad=False)
        return dict(m="set_parameters", kw=r.choice([dict(frequency_hz=2.5, waveform="saw"), dict(frequency_hz={"items": [1, 2, 3]}), dict(frequency_hz="3", smooth=3),
                                                     dict(waveform="square", frequency_hz={"tuple": ["no note", 120]})]), bad=True)

    def gen_use(self, r, s, threaded):
        return dict(u=r.choice(["wave", "wave", "plot"]) if not threaded else "wave", n=r.choice([None, 50, 200]))

    def inputs(self, dsp, spec, u, sig):
        return []

    def use(self, dsp, obj, ins, u):
        if u["u"] == "plot":
            import matplotlib.pyplot as plt
            fig, ax = obj.plot_waveform()
            out = np.array(ax.lines[0].get_ydata(), float)
            plt.close("all")
            return out
        return obj.get_waveform(2000, u["n"])


# ---------------------------------------------------------------- calibration
class Calib(Proc):
    def gen(self, r):
        return dict(ch=[self._ch(r) for _ in range(r.choice([1, 1, 2]))], spl=r.choice([94, 114.0]), snr=r.random() < 0.6, stale=False)

    def _ch(self, r):
        return dict(a=r.choice([0.1, 0.35, 0.8]), n=800, noise=r.choice([0.0, 0.05]), s=r.randrange(1 << 20))

    def td(self, c):
        t = np.arange(c["n"]) / FS
        return c["a"] * np.sin(2 * np.pi * 1000 * t) + c["noise"] * core.arr(c["s"], c["n"])

    def kept(self, c):
        """The channel as it is kept: as long as the first one."""
        x = self.td(c)[:800]
        return np.concatenate([x, np.zeros(800 - len(x))])

    def build(self, dsp, s):
        o = dsp.CalibrationData(dsp.Signal(None, np.stack([self.kept(c) for c in s["ch"]], 1), FS), s["spl"], s["snr"])
        return o

    def gen_change(self, r, s):
        x = r.random()
        if x < 0.4 and len(s["ch"]) < 3:
            ch = self._ch(r)
            pad = r.random() < 0.3
            if pad:
                ch["n"] = r.choice([600, 800, 1000])
            return dict(m="add", how=r.choice(["sig", "tuple"]), ch=ch, fs=FS, bad=False, pad=pad)
        if x < 0.6:
            n, fs = r.choice([(800, 16000), (500, FS), (500, 16000)])
            return dict(m="add", how=r.choice(["sig", "tuple", "none"]), ch=dict(self._ch(r), n=n), fs=fs, bad=True)
        if x < 0.8:
            return dict(m="spl", v=r.choice([94, 100.0, 110]), bad=False)
        return dict(m="snr", v=not s["snr"], bad=False)

    def upd(self, s, ch):
        s = _copy.deepcopy(s)
        if ch["m"] == "add":
            s["ch"].append(ch["ch"])
            s["stale"] = False
        else:
            s[ch["m"]] = ch["v"]
            s["stale"] = True
        return s

    def change(self, dsp, obj, ch):
        if ch["m"] == "spl":
            obj.calibration_spl_db = ch["v"]
        elif ch["m"] == "snr":
            obj.high_snr = ch["v"]
        else:
            td = self.td(ch["ch"])
            if ch["how"] == "none":
                obj.add_calibration_channel(None)
            elif ch["how"] == "tuple":
                obj.add_calibration_channel((td, ch["fs"]), ch.get("pad", False))
            else:
                obj.add_calibration_channel(dsp.Signal(None, td, ch["fs"]), ch.get("pad", False))

    def must(self, s, u, g):
        return len(s["ch"]) in (1, max(1, g["nch"]))

    def law(self, dsp, s, ins, u, out):
        f = []
        for c in s["ch"]:
            x = self.kept(c)
            x = x / max(1.0, np.max(np.abs(x)))
            if s["snr"]:
                p = np.std(x)
            else:
                q = dsp.Signal(None, x, FS)
                q.set_spectrum_parameters(method=dsp.SpectrumMethod.FFT, scaling=dsp.SpectrumScaling.AmplitudeSpectrum)
                fr, sp = q.get_spectrum()
                p = abs(sp[np.argmin(np.abs(fr - 1000.0)), 0])
            f.append(10 ** (s["spl"] / 20) * 20e-6 / p)
        return [x * np.array(f) for x in x_of(ins[0])]

    def gen_use(self, r, s, threaded):
        return dict(u="calibrate", force=(not threaded) and r.random() < 0.2, nch=len(s["ch"]) if r.random() < 0.8 else None)

    def use(self, dsp, obj, ins, u):
        return obj.calibrate_signal(ins[0], force_update=u["force"])


# ---------------------------------------------------------------- beamforming
def gen_pos(r, n=4):
    return dict(s=r.randrange(1 << 20), n=n)


def pos(p):
    g = np.random.default_rng(p["s"])
    c = g.uniform(-0.3, 0.3, (p["n"], 3))
    c[:, 2] = 0
    return c


class Mics(Proc):
    uses = ("aperture", "min_distance", "center", "range", "he", "dist", "coords")

    def gen(self, r):
        return dict(p=gen_pos(r, r.choice([3, 4, 6])))

    def build(self, dsp, s):
        c = pos(s["p"])
        return dsp.beamforming.MicArray(dict(x=c[:, 0], y=c[:, 1], z=c[:, 2]))

    def gen_change(self, r, s):
        return dict(m="coordinates", p=gen_pos(r, r.choice([3, 4, 6])), bad=r.random() < 0.2)

    def upd(self, s, ch):
        return dict(p=ch["p"])

    def change(self, dsp, obj, ch):
        obj.coordinates = pos(ch["p"]).tolist() if ch["bad"] else pos(ch["p"])

    def inputs(self, *a):
        return []

    def use(self, dsp, m, ins, u):
        return dict(aperture=lambda: m.aperture, min_distance=lambda: m.min_distance, center=lambda: (m.array_center_coordinates, int(m.array_center_channel_number)),
                    range=lambda: m.get_maximum_frequency_range(), he=lambda: (m.he_to_hz(4), m.hz_to_he(800.0)), dist=lambda: m.get_distances_to_point(m.coordinates),
                    coords=lambda: m.coordinates)[u["u"]]()


class Grd(Proc):
    """Grids: their points, and maps plotted on them."""
    PLANE = {"2d": ("x", "y"), "2dr": ("z", "x")}

    def gen(self, r):
        return dict(k=r.choice(["line", "2d", "2dr", "3d", "3d"]), n=[r.choice([2, 3, 4]) for _ in range(3)], s=r.randrange(1 << 20), dim=r.choice("xyz"), own=None)

    def lines(self, s):
        g = np.random.default_rng(s["s"])
        return [np.cumsum(g.uniform(0.05, 0.3, n)) for n in s["n"]], g.uniform(0.2, 0.9, 2)

    def coords(self, s):
        if s["own"] is not None:
            return pos(s["own"]) + 0.1
        l, v = self.lines(s)
        if s["k"] == "line":
            c = np.zeros((s["n"][0], 3))
            d = "xyz".index(s["dim"])
            c[:, d], c[:, (d + 1) % 3], c[:, (d + 2) % 3] = l[0], v[0], v[1]
            return c
        if s["k"] == "3d":
            return np.array([[x, y, z] for x in l[0] for y in l[1] for z in l[2]])
        a, b = ("xyz".index(d) for d in self.PLANE[s["k"]])
        c = np.full((s["n"][0] * s["n"][1], 3), v[0])
        for i, x in enumerate(l[0]):
            for j, y in enumerate(l[1]):
                c[i * s["n"][1] + j, [a, b]] = x, y
        return c

    def build(self, dsp, s):
        bf = dsp.beamforming
        l, v = self.lines(s)
        o = bf.LineGrid(l[0], s["dim"], v[0], v[1]) if s["k"] == "line" else bf.Regular3DGrid(*l) if s["k"] == "3d" else bf.Regular2DGrid(l[0], l[1], list(self.PLANE[s["k"]]), v[0])
        if s["own"] is not None:
            o.coordinates = self.coords(s)
        return o

    def gen_change(self, r, s):
        return dict(m="coordinates", p=gen_pos(r, s["n"][0] if s["k"] == "line" else self.size(s)), bad=r.random() < 0.2)

    def size(self, s):
        return s["n"][0] if s["k"] == "line" else int(np.prod(s["n"][:3 if s["k"] == "3d" else 2]))

    def upd(self, s, ch):
        return dict(s, own=ch["p"])

    def change(self, dsp, obj, ch):
        obj.coordinates = (pos(ch["p"]) + 0.1).tolist() if ch["bad"] else pos(ch["p"]) + 0.1

    def gen_use(self, r, s, threaded):
        ks = ["coords", "dist", "nearest", "extent", "shape"] + (["map"] * 3 if not threaded and s["k"] != "line" else [])
        return dict(u=r.choice(ks), q=[round(r.uniform(-0.5, 1), 3) for _ in range(3)], t=r.choice("xyz"), v=round(r.uniform(0, 1), 3), db=r.choice([20, 6, None]))

    def inputs(self, dsp, s, u, sig):
        return [np.random.default_rng(u["rs"] % (1 << 31)).uniform(0.05, 1.0, self.size(s))]

    def use(self, dsp, o, ins, u):
        if u["u"] == "coords":
            return [o.coordinates, np.array([o.number_of_points, o.ndim])]
        if u["u"] == "dist":
            return [o.get_distances_to_point(np.array(u["q"]))]
        if u["u"] == "nearest":
            i, c = o.find_nearest_point(u["q"])
            return [np.array([i]), c]
        if u["u"] == "extent":
            return [np.array([o.extent[d] for d in "xyz"])]
        if u["u"] == "shape":
            return [o.reconstruct_map_shape(ins[0])]
        import matplotlib.pyplot as plt
        a = [] if len(o.original_lengths) == 2 else [u["t"], u["v"]]
        fig, ax = o.plot_map(ins[0], *a, u["db"] if u["db"] else 20)
        out = [np.array(ax.images[0].get_array(), float), np.array(ax.images[0].get_extent(), float)]
        plt.close("all")
        return out

    def must(self, spec, u, g):
        return True

    def arrays(self, out):
        return out

    def law(self, dsp, s, ins, u, out):
        c = self.coords(s)
        dist = np.sqrt(np.sum((c - np.array(u["q"])) ** 2, axis=1))
        ext = np.stack([c.min(0), c.max(0)], 1)
        if u["u"] == "coords":
            return [c, np.array([len(c), sum(len(np.unique(c[:, i])) > 1 for i in range(3))])]
        if u["u"] == "dist":
            return [dist]
        if u["u"] == "nearest":
            return [np.array([np.argmin(dist)]), c[np.argmin(dist)]]
        if u["u"] == "extent":
            return [ext]
        m = ins[0]
        if s["k"] != "line":
            m = m.reshape(s["n"][:3 if s["k"] == "3d" else 2])
        if u["u"] == "shape":
            return [m]
        if s["k"] == "3d":
            l, _ = self.lines(s)
            d = "xyz".index(u["t"])
            m = np.take(m, np.argmin(np.abs(l[d] - u["v"])), axis=d)
            e = [i for i in range(3) if i != d]
        else:
            e = ["xyz".index(d) for d in self.PLANE[s["k"]]]
        return [10 * np.log10(m), np.concatenate([ext[e[1]], ext[e[0]]])]


class Beam(Proc):
    heavy = True
    KINDS = ("DASFrequency", "CleanSC", "Orthogonal", "Functional", "MVDR", "DASTime")

    def gen(self, r):
        return dict(b=r.choice(self.KINDS), st=r.choice(["Classic", "Inverse", "TruePower", "TrueLocation"]), p=gen_pos(r), c=343, x=dict(s=r.randrange(1 << 20), cache=r.random() < 0.5, fft=r.random() < 0.2),
                    g=[r.choice([0.5, 1.0]), r.choice([2, 3])])

    def build(self, dsp, s):
        bf = dsp.beamforming
        c = pos(s["p"])
        m = bf.MicArray(dict(x=c[:, 0], y=c[:, 1], z=c[:, 2]))
        ln = np.linspace(-0.3, 0.3, s["g"][1])
        g = bf.Regular2DGrid(ln, ln + 0.05, ["x", "y"], s["g"][0])
        x = dsp.Signal(None, core.arr(s["x"]["s"], 256, s["p"]["n"]), FS, activate_cache=s["x"]["cache"])
        if s["x"]["fft"]:
            x.set_spectrum_parameters(method=dsp.SpectrumMethod.FFT)
        else:
            x.set_spectrum_parameters(method=dsp.SpectrumMethod.WelchPeriodogram, window_length_samples=32)
        C = getattr(bf, "Beamformer" + s["b"])
        return C(x, m, g, s["c"]) if s["b"] == "DASTime" else C(x, m, g, bf.SteeringVector(bf.SteeringVectorType[s["st"]]), s["c"])

    def gen_change(self, r, s):
        return dict(m="c", v=r.choice([330.0, 343, 350]), bad=False)

    def upd(self, s, ch):
        return dict(s, c=ch["v"])

    def change(self, dsp, obj, ch):
        obj.c = ch["v"]

    def gen_use(self, r, s, threaded):
        if s["b"] == "DASTime":
            return dict(u="time")
        u = dict(u=r.choice(["map"] * 4 + ["he", "setting"]) if not threaded else "map", f=r.choice([500.0, 1000.0, 2000.0]), o=r.choice([1, 3]))
        u["k"] = dict(DASFrequency=dict(remove_csm_diagonal=r.random() < 0.5), CleanSC=dict(maximum_iterations=r.choice([None, 3]), safety_factor=r.choice([0.5, 0.9]), remove_csm_diagonal=r.random() < 0.5),
                      Orthogonal=dict(number_eigenvalues=r.choice([None, 1, 3])), Functional=dict(gamma=r.choice([10, 4])), MVDR={})[s["b"]]
        return u

    def inputs(self, *a):
        return []

    def use(self, dsp, b, ins, u):
        if u["u"] == "time":
            return b.get_beamformer_output()
        if u["u"] == "he":
            return b.get_frequency_range_from_he([2, 6])
        if u["u"] == "setting":
            import matplotlib.pyplot as plt
            b.plot_setting()
            b.show_info()
            plt.close("all")
            return None
        return b.get_beamformer_map(u["f"], u["o"], **u["k"])


class Mono(Proc):
    def gen(self, r):
        return dict(s=r.randrange(1 << 20), xyz=[0.1, r.choice([0.2, 0.4]), r.choice([0.5, 1.0])], cls=r.choice(["Signal", "ImpulseResponse"]))

    def build(self, dsp, s):
        return dsp.beamforming.MonopoleSource(objs.signal(dsp, s["s"], 120, 1, FS, s["cls"]), s["xyz"])

    def gen_use(self, r, s, threaded):
        return dict(u=r.choice(["one", "mix"]), p=gen_pos(r, r.choice([2, 4])), c=r.choice([343, 330.0]))

    def inputs(self, dsp, s, u, sig):
        c = pos(u["p"])
        return [dsp.beamforming.MicArray(dict(x=c[:, 0], y=c[:, 1], z=c[:, 2]))]

    def use(self, dsp, o, ins, u):
        if u["u"] == "mix":
            return dsp.beamforming.mix_sources_on_array([o, dsp.beamforming.MonopoleSource(objs.signal(dsp, 5, 120, 1, FS), [0.0, 0.1, 1.0])], ins[0], u["c"])
        return o.get_signals_on_array(ins[0], u["c"])


# ---------------------------------------------------------------- designers
class Designer(Proc):
    uses = ("filter", "ir")

    def gen(self, r):
        return dict(k=r.choice(["fir", "gd", "pl"]), n=r.choice([64, 65, 128]), s=r.randrange(1 << 20), q=self._p(r, "x"))

    def _p(self, r, k):
        f = dict(additional_length_samples=r.choice([0, 5, None]), trapezoidal_integration=r.random() < 0.6, ensure_integer_delay=r.random() < 0.5)
        return some(r, f, 0.5)

    def build(self, dsp, s):
        n = s["n"]
        m = n // 2 + 1
        g = np.random.default_rng(s["s"])
        gd = np.abs(np.cumsum(g.uniform(-1, 1, m))) / FS
        if s["k"] == "fir":
            o = dsp.filterbanks.FirDesigner(g.uniform(0.3, 1, m), gd, n, FS)
        elif s["k"] == "gd":
            o = dsp.filterbanks.GroupDelayDesigner(gd, n, FS)
        else:
            o = dsp.filterbanks.PhaseLinearizer(-np.cumsum(gd * FS) * 2 * np.pi / n, n, FS)
        if s["q"] is not None:
            o.set_parameters(**self._q(s, s["q"]))
        return o

    def _q(self, s, q):
        q = dict(q)
        if "delay" in q:
            v = q.pop("delay")
            q["delay_increase_percent" if s["k"] == "pl" else "delay_increase_ms"] = v * (10 if s["k"] == "pl" else 1)
        return q

    def gen_change(self, r, s):
        q = self._p(r, "x")
        if r.random() < 0.6:
            q["delay"] = r.choice([0, 0.5, 3.0])
        bad = r.random() < 0.3
        if bad:
            q.update(r.choice([dict(additional_length_samples=-1, delay=2.0), dict(delay=-1.0)]))
        return dict(m="set_parameters", kw=self._q(s, q), q=q, bad=bad)

    def upd(self, s, ch):
        return dict(s, q=ch["q"])

    def inputs(self, *a):
        return []

    def use(self, dsp, o, ins, u):
        return o.get_filter() if u["u"] == "filter" else o.get_filter_as_ir()


class Rm(Proc):
    heavy = True
    uses = ("modes", "mix", "tf", "density", "rir", "inside")

    def gen(self, r):
        return dict(d=r.choice([[4.0, 3.0, 2.6], [6.0, 5.0, 3.0]]), t60=r.choice([0.3, 0.5]), ab=None)

    def _ab(self, r):
        return {w: [round(r.uniform(0.1, 0.6), 2) for _ in range(r.choice([1, 1, 3, 8]))] for w in ("north", "south", "east", "west", "floor", "ceiling")}

    def build(self, dsp, s):
        o = dsp.room_acoustics.ShoeboxRoom(s["d"], t60_s=s["t60"])
        if s["ab"]:
            o.add_detailed_absorption({k: np.array(v) if len(v) > 1 else v[0] for k, v in s["ab"].items()})
        return o

    def gen_change(self, r, s):
        ab = self._ab(r)
        bad = r.random() < 0.3
        if bad:
            if r.random() < 0.5:
                ab["ceiling"] = [1.5]
            else:
                ab.pop("floor")
        return dict(m="ab", ab=ab, bad=bad)

    def upd(self, s, ch):
        return dict(s, ab=ch["ab"])

    def change(self, dsp, obj, ch):
        d = {k: np.array(v) if len(v) > 1 else v[0] for k, v in ch["ab"].items()}
        keep = {k: np.array(v) for k, v in d.items()}
        try:
            obj.add_detailed_absorption(d)
        finally:
            if list(d) != list(keep) or any(not np.array_equal(d[k], keep[k]) for k in keep):
                raise core.Violation("argument-changed/absorption", "the dictionary handed to add_detailed_absorption was modified")

    def gen_use(self, r, s, threaded):
        u = r.choice(self.uses)
        if threaded and u == "rir":
            u = "tf"
        return dict(u=u, o=r.choice([1, 2, 3]), m=r.choice(["perceptual", "physical"]), noise=r.random() < 0.4, det=r.random() < 0.5)

    def inputs(self, *a):
        return []

    def use(self, dsp, o, ins, u):
        k = u["u"]
        if k == "modes":
            return o.get_room_modes(u["o"])
        if k == "mix":
            return o.get_mixing_time(u["m"], 100 * u["o"])
        if k == "tf":
            return o.get_analytical_transfer_function([1.0, 1.2, 1.3], [2.5, 1.1, 1.5], np.linspace(30, 200, 7), u["o"], False)[:2]
        if k == "density":
            return o.modal_density(100.0 * u["o"]), o.t60_s, o.absorption_coefficient, o.volume, o.area
        if k == "inside":
            return o.check_if_in_room([1.0, 1.0, 2.0 * u["o"]])
        if u["noise"]:
            o.get_mixing_time(u["m"], 100 * u["o"])     # documented to be stored in the room and used for the tail
        return dsp.room_acoustics.generate_synthetic_rir(o, [1.0, 1.2, 1.3], [2.5, 1.1, 1.5], 2000, 0.1, u["noise"], False, u["det"], u["o"])


class Morlet(Proc):
    uses = ("base", "fc", "one", "many")

    def gen(self, r):
        return dict(h=r.choice([2.0, 3.0]), step=r.choice([0.01, 0.02]), i=r.random() < 0.5, sc=r.choice([1.0, 0.5]))

    def build(self, dsp, s):
        return dsp.transforms.MorletWavelet(h=s["h"], step=s["step"], interpolation=s["i"], scale=s["sc"])

    def gen_use(self, r, s, threaded):
        return dict(u=r.choice(self.uses), f=[r.choice([200.0, 500.0, 900.0]) for _ in range(r.choice([1, 3]))], fs=r.choice([4000, 8000]))

    def inputs(self, *a):
        return []

    def use(self, dsp, m, ins, u):
        return dict(base=lambda: m.get_base_wavelet(), fc=lambda: m.get_center_frequency(), one=lambda: m.get_wavelet(u["f"][0], u["fs"]),
                    many=lambda: m.get_wavelet(np.array(u["f"]), u["fs"]))[u["u"]]()


# ---------------------------------------------------------------- fitted filters
def target_ir(dsp, s, nch=1):
    g = np.random.default_rng(s)
    x = g.uniform(-1, 1, (64, nch)) * np.exp(-np.arange(64) / 12.0)[:, None]
    x[0] = 1.0
    return dsp.ImpulseResponse(None, x, FS, constrain_amplitude=False)


def poles(s, n):
    g = np.random.default_rng(s)
    return g.uniform(0.3, 0.9, n) * np.exp(1j * (np.linspace(0.3, 2.6, n) + g.uniform(-0.1, 0.1, n)))


class Par(Proc):
    threads = True

    def gen(self, r):
        return dict(poles=[r.randrange(1 << 20), r.choice([1, 2, 3])], n_fir=r.choice([0, 1, 2, 4]), pf=self._p(r), last=["fit", r.randrange(1 << 20)], p=None)

    def _p(self, r):
        return dict(delay_iir_samples=r.choice([0, 0, 1, 3]), fir_offset_ms=r.choice([0.0, 0.0, 0.3]))

    def build(self, dsp, s):
        """Only what decides: the parameters the coefficients were fitted with, the coefficients, the parameters of now. No earlier fit or set."""
        o = dsp.filterbanks.ParallelFilter(poles(*s["poles"]), s["n_fir"], FS)
        o.set_parameters(**s["pf"])
        if s["last"][0] == "coef":
            o.fit_to_ir(target_ir(dsp, 5))
        self.change(dsp, o, dict(m=s["last"][0], a=s["last"][1]))
        if s["p"] is not None:
            o.set_parameters(**s["p"])
        return o

    def gen_change(self, r, s):
        x = r.random()
        if x < 0.3:
            return dict(m="set_parameters", a=self._p(r), bad=False)
        if x < 0.5:
            return dict(m="fit", a=r.randrange(1 << 20), bad=False)
        if x < 0.75:
            return dict(m="coef", a=[r.randrange(1 << 20), s["poles"][1], r.choice([None, 1, 2, 3])], bad=False)
        return dict(r.choice([dict(m="set_parameters", a=dict(delay_iir_samples=-1, fir_offset_ms=1.0)), dict(m="fit2", a=3), dict(m="coef", a=[1, s["poles"][1] + 1, 2]), dict(m="coef2", a=[1, s["poles"][1]])]), bad=True)

    def upd(self, s, ch):
        s = _copy.deepcopy(s)
        if ch["m"] == "set_parameters":
            s["p"] = ch["a"]
            return s
        if s["p"] is not None:
            s["pf"], s["p"] = s["p"], None
        s["last"] = [ch["m"], ch["a"]]
        if ch["m"] == "coef":
            s["n_fir"] = ch["a"][2] or 0
        return s

    def change(self, dsp, o, ch):
        m, a = ch["m"], ch["a"]
        if m == "set_parameters":
            o.set_parameters(**a)
        elif m == "fit":
            o.fit_to_ir(target_ir(dsp, a))
        elif m == "fit2":
            o.fit_to_ir(target_ir(dsp, a, 2))
        elif m == "coef":
            o.set_coefficients(core.arr(a[0], a[1], 2), None if a[2] is None else core.arr(a[0] + 1, a[2]))
        elif m == "coef2":
            o.set_coefficients(core.arr(a[0], a[1], 2), core.arr(a[0], 2, 2))

    def gen_use(self, r, s, threaded):
        return dict(u=r.choice(["filter", "filter", "ir", "stream"]) if not threaded else r.choice(["filter", "ir"]), n=r.choice([30, 64]))

    def use(self, dsp, o, ins, u):
        if u["u"] == "ir":
            return o.get_ir(u["n"])
        if u["u"] == "filter":
            return o.filter_signal(ins[0])
        x = x_of(ins[0])[0][:40]
        o.set_n_channels(x.shape[1])
        o.reset_state()
        return np.array([[o.process_sample(float(v), c) for c, v in enumerate(row)] for row in x])

    def law(self, dsp, s, ins, u, out):
        if u["u"] != "stream" or hasattr(ins[0], "bands") or ins[0].sampling_rate_hz != FS:
            return None
        o = self.build(dsp, s)
        return [x[:40] for x in x_of(o.filter_signal(ins[0]))]


class Kautz(Par):
    def gen(self, r):
        return dict(poles=[r.randrange(1 << 20), r.choice([1, 2])], log=[["coef", r.randrange(1 << 20)]])

    def build(self, dsp, s):
        o = dsp.filterbanks.KautzFilter(poles(*s["poles"]), FS)
        for m, a in s["log"]:
            self.change(dsp, o, dict(m=m, a=a))
        return o

    def upd(self, s, ch):
        """Every change replaces the ones before it, but the poles are those of the last fit of poles."""
        s = _copy.deepcopy(s)
        s["log"] = ([] if ch["m"] == "fitp" else [x for x in s["log"] if x[0] == "fitp"]) + [[ch["m"], ch["a"]]]
        return s

    def gen_change(self, r, s):
        x = r.random()
        if x < 0.25:
            return dict(m="coef", a=r.randrange(1 << 20), bad=False)
        if x < 0.5:
            return dict(m="fit", a=r.randrange(1 << 20), bad=False)
        if x < 0.75:
            return dict(m="fitp", a=[r.randrange(1 << 20), r.choice([2, 3, 4])], bad=False)
        return dict(r.choice([dict(m="fit2", a=3), dict(m="fitp2", a=3), dict(m="coef2", a=2)]), bad=True)

    def change(self, dsp, o, ch):
        m, a = ch["m"], ch["a"]
        if m == "coef":
            o.set_filter_coefficients(core.arr(a, o.n_real_poles), core.arr(a + 1, o.n_complex_poles))
        elif m == "coef2":
            o.set_filter_coefficients(core.arr(a, o.n_real_poles), core.arr(a, o.n_complex_poles + 1))
        elif m == "fit":
            o.fit_coefficients_to_ir(target_ir(dsp, a))
        elif m == "fit2":
            o.fit_coefficients_to_ir(target_ir(dsp, a, 2))
        elif m == "fitp":
            o.fit_poles_and_coefficients_to_ir(target_ir(dsp, a[0]), a[1], 2)
        elif m == "fitp2":
            o.fit_poles_and_coefficients_to_ir(target_ir(dsp, a, 2), 2, 2)


# ---------------------------------------------------------------- filters and banks without kept state
class Filt(Proc):
    uses = ("filter", "filter", "zero", "ir", "tf", "gd", "mbs")

    def gen(self, r):
        return dict(f=objs.rnd_filter_spec(r, FS, True))

    def build(self, dsp, s):
        return objs.filt(dsp, s["f"])

    def gen_use(self, r, s, threaded):
        return dict(u=r.choice(self.uses), n=r.choice([32, 64]), ch=r.choice([None, None, [0]]))

    def use(self, dsp, o, ins, u):
        k = u["u"]
        if k == "filter":
            return o.filter_signal(ins[0], channels=u["ch"]) if not hasattr(ins[0], "bands") else None
        if k == "zero":
            return o.filter_signal(ins[0], zero_phase=True) if not hasattr(ins[0], "bands") else None
        if k == "ir":
            return o.get_ir(u["n"])
        if k == "tf":
            return o.get_transfer_function(np.linspace(50, 3000, u["n"]))
        if k == "gd":
            return o.get_group_delay(np.linspace(50, 3000, u["n"]))
        return None


class Bank(Proc):
    uses = ("Parallel", "Sequential", "Summed", "ir", "tf")

    def gen(self, r):
        k = r.choice(["fb", "fb", "lr", "qmf"])
        if k == "lr":
            return dict(k=k, f=sorted(r.sample([300.0, 700.0, 1500.0, 2500.0], r.choice([1, 2, 3]))), o=[r.choice([2, 4]) for _ in range(3)])
        return dict(k=k, f=[objs.rnd_filter_spec(r, FS, True) for _ in range(r.choice([1, 2, 3]))], ln=r.choice([8, 15]))

    def build(self, dsp, s):
        if s["k"] == "lr":
            return dsp.filterbanks.linkwitz_riley_crossovers(s["f"], s["o"][:len(s["f"])], FS)
        if s["k"] == "qmf":
            return dsp.filterbanks.qmf_crossover(dsp.Filter.from_ba(core.arr(s["f"][0]["seed"], s["ln"] | 1), [1.0], FS))
        return dsp.FilterBank([objs.filt(dsp, f) for f in s["f"]])

    def gen_use(self, r, s, threaded):
        return dict(u=r.choice(self.uses), z=r.random() < 0.2)

    def use(self, dsp, o, ins, u):
        k = u["u"]
        if hasattr(ins[0], "bands"):
            return None
        name = type(o).__name__
        if name == "QMFCrossover":
            y = o.filter_signal(ins[0], dsp.FilterBankMode.Parallel, k in ("ir", "Summed"), u["z"])
            return o.reconstruct_signal(y, k == "Summed") if k in ("ir", "tf") else y
        if k in ("Parallel", "Sequential", "Summed"):
            if name == "LRFilterBank" and k == "Sequential":
                k = "Parallel"
            return o.filter_signal(ins[0], dsp.FilterBankMode[k], zero_phase=u["z"])
        if k == "ir" or name == "LRFilterBank":
            return o.get_ir(dsp.FilterBankMode.Parallel, 64)
        return o.get_transfer_function(np.linspace(50, 3000, 20), dsp.FilterBankMode.Parallel)


class Struct(Proc):
    """Lattice/ladder and warped filters."""
    threads = False
    uses = ("filter",)
    heavy = True

    def gen(self, r):
        return dict(k=r.choice(["lattice", "wfir", "wiir"]), s=r.randrange(1 << 20), na=r.choice([1, 2, 4]), nb=r.choice([1, 2, 3]), w=r.choice([-0.4, 0.3, 0.7]))

    def build(self, dsp, s):
        a = models.stable_a(s["s"], s["na"])
        b = core.arr(s["s"] + 1, s["nb"] + 1)
        if s["k"] == "lattice":
            return dsp.filterbanks.LatticeLadderFilter.from_filter(dsp.Filter.from_ba(np.resize(b, len(a)), a, FS))
        W = dsp.filterbanks
        if s["k"] == "wfir":
            return W.WarpedFIR(b, s["w"], FS)
        return W.WarpedIIR(np.resize(b, len(a)), a, s["w"], FS)

    def use(self, dsp, o, ins, u):
        if hasattr(o, "reset_state"):
            o.reset_state()         # the lattice structure continues its state over calls
        return o.filter_signal(ins[0]) if not hasattr(ins[0], "bands") else None


PROCS = dict(specsub=SpecSub(), distortion=Dist(), compressor=Comp(), tremolo=Trem(), chorus=Chor(), delay=Dly(), lfo=Lfo(), calibration=Calib(), mics=Mics(), grid=Grd(), beamformer=Beam(),
             monopole=Mono(), designer=Designer(), room=Rm(), morlet=Morlet(), parallel=Par(), kautz=Kautz(), filter=Filt(), bank=Bank(), structure=Struct())
Comp.uses = ("apply", "apply", "apply", "apply", "show")
