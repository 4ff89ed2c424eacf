"""Observable state of library objects through their public API only."""
import numpy as np

OPAQUE = object()


def _enum(x):
    if hasattr(x, "to_scipy_format"):
        try:
            return f"{type(x).__name__}.{x.name} {x.to_scipy_format()}"
        except Exception:
            return f"{type(x).__name__}.{x.name} without parameter"
    return f"{type(x).__name__}.{getattr(x, 'name', x)}" if x is not None and hasattr(x, "name") else x


def _params(d):
    return {k: _enum(v) for k, v in sorted(d.items())}


def observe(o):
    import dsptoolbox as dsp
    from dsptoolbox.classes import Signal, MultiBandSignal, Filter, FilterBank, Spectrum
    import enum
    if isinstance(o, enum.Enum):
        return str(_enum(o))
    if isinstance(o, Signal):
        d = dict(td=o.time_data, im=o.time_data_imaginary, fs=o.sampling_rate_hz,
                 ca=o.constrain_amplitude, cal=o.calibrated_signal,
                 cache=getattr(o, "activate_cache", None),
                 nch=o.number_of_channels, n=o.length_samples, scale=o.amplitude_scale_factor,
                 sp=_params(o._spectrum_parameters) if hasattr(o, "_spectrum_parameters") else None,
                 sg=_params(o._spectrogram_parameters) if hasattr(o, "_spectrogram_parameters") else None,
                 window=getattr(o, "window", None))
        return d
    if isinstance(o, MultiBandSignal):
        return dict(nb=o.number_of_bands, same=o.same_sampling_rate,
                    fs=getattr(o, "sampling_rate_hz", None) if o.number_of_bands else None,
                    nch=o.number_of_channels if o.number_of_bands else None,
                    info=dict(o.info), bands=[observe(b) for b in o.bands])
    if isinstance(o, Filter):
        d = dict(fs=o.sampling_rate_hz, iir=bool(o.is_iir), order=int(o.order))
        if o.has_sos:
            d["sos"] = o.sos
        if hasattr(o, "ba"):
            d["b"], d["a"] = np.asarray(o.ba[0]), np.asarray(o.ba[1])
        if o.has_zpk:
            d["zpk"] = [np.asarray(x) for x in o.zpk]
        if hasattr(o, "zi"):
            d["zi"] = [np.asarray(z) for z in o.zi]
        return d
    if isinstance(o, FilterBank):
        return dict(n=o.number_of_filters, same=o.same_sampling_rate,
                    fs=getattr(o, "sampling_rate_hz", None) if o.number_of_filters else None,
                    info=dict(o.info) if hasattr(o, "info") else None, filters=[observe(f) for f in o.filters])
    if isinstance(o, Spectrum):
        return dict(f=o.frequency_vector_hz, d=o.spectral_data, mag=bool(o.is_magnitude),
                    coh=getattr(o, "coherence", None), interp=_interp(o))
    if type(o).__module__.startswith("dsptoolbox"):
        return generic(o)
    if type(o).__module__.startswith("matplotlib"):
        return OPAQUE
    if callable(o):
        return OPAQUE
    return OPAQUE


def _interp(o):
    """Interpolator settings, as far as they can be seen from outside."""
    from dsptoolbox.standard import enums as E
    f = o.frequency_vector_hz
    if len(f) < 3:
        return None
    out = []
    for q in ([0.3 * f[0] + 0.7 * f[1], 0.5 * f[1] + 0.5 * f[2]], [f[-1] * 1.5 + 1]):
        try:
            out.append(o.get_interpolated_spectrum(np.array(q), E.SpectrumType.Magnitude))
        except Exception as e:
            out.append(type(e).__name__)
    return out


# attributes in which a query documents that it stores its result
_MEMO = {"ShoeboxRoom": ("mixing_time_s", "modes_hz"), "Room": ("mixing_time_s",)}


def generic(o, depth=0):
    """Attributes of other library objects (array geometries, beamformers, effects ...)."""
    try:
        d = vars(o)
    except TypeError:
        return OPAQUE
    out = {}
    for k in sorted(d):
        if k.startswith("_") or k in _MEMO.get(type(o).__name__, ()):
            continue
        v = d[k]
        if callable(v) and not hasattr(v, "__dict__"):
            continue
        if type(v).__module__.startswith("matplotlib") or callable(v):
            continue
        out[k] = v
    return out


def freeze(o):
    """A detached deep copy of the observable state."""
    import copy
    return copy.deepcopy(_fz(o, 0))


def _fz(o, depth):
    if depth > 8:
        return None
    if isinstance(o, np.ndarray):
        return o.copy()
    if isinstance(o, (list, tuple)):
        return type(o)(_fz(x, depth + 1) for x in o) if type(o) in (list, tuple) else [_fz(x, depth + 1) for x in o]
    if isinstance(o, dict):
        return {k: _fz(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (int, float, complex, str, bytes, bool, type(None), np.generic)):
        return o
    r = observe(o)
    if r is OPAQUE:
        return f"<opaque {type(o).__name__}>"
    return _fz(r, depth + 1)
