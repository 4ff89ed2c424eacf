"""Plans, runs, violations, comparison, minimisation."""
import math, hashlib, json, random, traceback, os
import numpy as np


class Violation(Exception):
    def __init__(self, vclass, msg, **detail):
        super().__init__(f"{vclass}: {msg}")
        self.vclass, self.msg, self.detail = vclass, msg, detail


class SimCrash(BaseException):
    """A simulated process crash."""


class Ctx:
    """One simulated execution: event log, counters, reached-state keys."""

    def __init__(self, scratch):
        self.h = hashlib.sha256()
        self.n_events = 0
        self.tail = []
        self.faults = {}
        self.probes = {}
        self.keys = set()
        self.sim_time = 0.0
        self.scratch = scratch
        self.nontrivial = False

    def log(self, *ev):
        s = json.dumps(ev, default=_js, sort_keys=True)
        self.h.update(s.encode())
        self.h.update(b"\n")
        self.n_events += 1
        self.tail.append(s if len(s) < 300 else s[:300] + "...")
        if len(self.tail) > 60:
            del self.tail[:20]

    def logarr(self, name, a):
        a = np.ascontiguousarray(a)
        self.log(name, list(a.shape), str(a.dtype), hashlib.sha256(a.tobytes()).hexdigest()[:16])

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def key(self, *k):
        self.keys.add("|".join(map(str, k)))

    def lib(self, what, fn, *a, **kw):
        """Call into the library where success is required."""
        try:
            return fn(*a, **kw)
        except (Violation, SimCrash):
            raise
        except Exception as e:
            if through_lib(e):
                raise Violation("unexpected-exception/" + what, f"{type(e).__name__}: {e}",
                                tb=short_tb(e)) from e
            raise


def _js(o):
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    return repr(o)


def through_lib(e):
    """Did the exception come out of library code? (dsptoolbox frame in the traceback,
    or argument mismatch when calling into it)"""
    tb = e.__traceback__
    while tb is not None:
        if "/dsptoolbox/" in tb.tb_frame.f_code.co_filename:
            return True
        tb = tb.tb_next
    return isinstance(e, (TypeError, AttributeError)) and "dst/scen" in _last_file(e)


def _last_file(e):
    tb = e.__traceback__
    f = ""
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return f if not f.endswith("core.py") else "dst/scen"


def short_tb(e, n=6):
    out = []
    for fs in traceback.extract_tb(e.__traceback__):
        if "/dsptoolbox/" in fs.filename:
            out.append(f"{fs.filename.split('/dsptoolbox/')[-1]}:{fs.name}")
    return out[-n:]


# ---------------------------------------------------------------- comparing
def close(a, b, rtol=1e-7, atol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if a.dtype.kind == "b" or b.dtype.kind == "b":
        return bool(np.array_equal(a, b))
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not np.array_equal(fa, fb):
        return False
    if not fa.all():
        if not (np.array_equal(np.isnan(a), np.isnan(b))):
            return False
        a, b = a[fa], b[fa]
        if a.size == 0:
            return True
    return bool(np.max(np.abs(a - b)) <= atol + rtol * max(np.max(np.abs(b)), 1e-300))


def maxdiff(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return f"shape {a.shape} vs {b.shape}"
    if not a.size:
        return "0"
    if a.dtype.kind == "b":
        return f"{int(np.sum(a != b))} entries differ"
    d = np.abs(a - b).ravel()
    i = int(np.nanargmax(d)) if not np.all(np.isnan(d)) else 0
    return f"max diff {d[i]:.3g} at flat index {i}: got {a.ravel()[i]!r}, want {b.ravel()[i]!r}"


def require_close(vclass, got, want, rtol=1e-7, atol=1e-9, **detail):
    if not close(got, want, rtol, atol):
        raise Violation(vclass, maxdiff(got, want), **detail)


def same(a, b, rtol=1e-9, atol=1e-12):
    """Deep comparison of results of library calls. Returns None or a description."""
    return _same(a, b, rtol, atol, "", 0)


def _same(a, b, rtol, atol, path, depth):
    from . import snap
    if depth > 8:
        return None
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return f"{path}: {type(a).__name__} vs {type(b).__name__}"
        if a.dtype == object or b.dtype == object or a.dtype.kind in "US":
            return None if a.shape == b.shape and all(
                _same(x, y, rtol, atol, path, depth + 1) is None for x, y in zip(a.ravel(), b.ravel())) else f"{path}: objects differ"
        if a.dtype.kind != b.dtype.kind:
            return f"{path}: dtype {a.dtype} vs {b.dtype}"
        return None if close(a, b, rtol, atol) else f"{path}: {maxdiff(a, b)}"
    if isinstance(a, (bool, str, bytes, type(None))) or isinstance(b, (bool, str, bytes, type(None))):
        return None if (type(a) is type(b) or {type(a), type(b)} <= {bool, np.bool_}) and a == b else f"{path}: {a!r} vs {b!r}"
    if isinstance(a, (int, float, complex, np.number)) and isinstance(b, (int, float, complex, np.number)):
        return None if close(np.asarray(a), np.asarray(b), rtol, atol) else f"{path}: {a!r} vs {b!r}"
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            return f"{path}: {type(a).__name__}[{len(a)}] vs {type(b).__name__}[{len(b)}]"
        for i, (x, y) in enumerate(zip(a, b)):
            r = _same(x, y, rtol, atol, f"{path}[{i}]", depth + 1)
            if r:
                return r
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if list(map(str, a)) != list(map(str, b)):
            return f"{path}: keys {list(a)} vs {list(b)}"
        for (k, x), (_, y) in zip(a.items(), b.items()):
            r = _same(x, y, rtol, atol, f"{path}[{k}]", depth + 1)
            if r:
                return r
        return None
    if type(a) is not type(b):
        return f"{path}: type {type(a).__name__} vs {type(b).__name__}"
    sa, sb = snap.observe(a), snap.observe(b)
    if sa is snap.OPAQUE:
        return None
    return _same(sa, sb, rtol, atol, f"{path}<{type(a).__name__}>", depth + 1)


# ---------------------------------------------------------------- seeds
def derive(seed, *parts):
    h = hashlib.sha256(("%d/" % seed + "/".join(map(str, parts))).encode()).digest()
    return int.from_bytes(h[:7], "big")


def rng_for(seed, *parts):
    return random.Random(derive(seed, *parts))


def arr(seed, *shape, scale=0.5):
    return np.random.default_rng(seed).uniform(-scale, scale, shape)


DATA = ["noise"] * 5 + ["zeros", "sparse", "silent_channel", "int", "dc", "large", "small", "same_channels", "impulse"]


def shaped(seed, how, *shape, scale=0.5):
    """Sample data of a kind that special-case code paths might react to."""
    x = arr(seed, *shape, scale=scale)
    g = np.random.default_rng(seed + 4242)
    if how == "zeros":
        x[:] = 0
    elif how == "sparse":
        x[g.uniform(size=x.shape) < 0.7] = 0
    elif how == "silent_channel" and x.ndim == 2:
        x[:, g.integers(x.shape[1])] = 0
    elif how == "int":
        x = g.integers(-2, 3, x.shape).astype(float)
    elif how == "dc":
        x[:] = 0.7
    elif how == "large":
        x *= 1e4
    elif how == "small":
        x *= 1e-6
    elif how == "same_channels" and x.ndim == 2:
        x[:] = x[:, :1]
    elif how == "impulse":
        x[:] = 0
        x[0] = 1
    return x


def loguniform(r, lo, hi):
    import math
    return int(round(math.exp(r.uniform(math.log(lo), math.log(hi)))))


# ---------------------------------------------------------------- running
def run_plan(scen, plan, scratch):
    """Execute a plan. Returns (violation or None, ctx)."""
    ctx = Ctx(scratch)
    np.random.seed(plan.get("seed", 0) % (2**32))
    random.seed(plan.get("seed", 0))
    try:
        scen.execute(plan, ctx)
        return None, ctx
    except Violation as v:
        ctx.log("violation", v.vclass)
        return v, ctx
    finally:
        fin = getattr(scen, "cleanup", None)
        if fin:
            fin(ctx)


def shrink(scen, plan, fails):
    """ddmin over plan['steps'] (and 'switches'), then scenario-specific simplifications.
    fails(plan) re-executes the candidate in isolation; the violation class must persist."""
    def with_field(p, f, st):
        q = json.loads(json.dumps(p))
        q[f] = st
        return q

    changed = True
    while changed:
        changed = False
        for field in ("steps", "switches"):
            st = plan.get(field)
            if not st:
                continue
            size = max(1, len(st) // 2)
            while size >= 1:
                i = 0
                while i < len(st):
                    cand = st[:i] + st[i + size:]
                    if fails(q := with_field(plan, field, cand)):
                        plan, st, changed = q, cand, True
                    else:
                        i += size
                size //= 2
        progress = True
        while progress:
            progress = False
            for q in (scen.simplify(plan) if hasattr(scen, "simplify") else generic_simplify(plan)):
                if fails(q):
                    plan, changed, progress = q, True, True
                    break
    return plan


def generic_simplify(plan):
    """Try smaller integers / dropped entries anywhere in cfg and steps."""
    def walk(o, path):
        if isinstance(o, dict):
            for k in o:
                yield from walk(o[k], path + [k])
        elif isinstance(o, list):
            if path and path[-1] in ("switches", "faults") and o:
                for i in range(len(o)):
                    yield path, o[:i] + o[i + 1:]
            for i, x in enumerate(o):
                yield from walk(x, path + [i])
        elif isinstance(o, int) and not isinstance(o, bool) and o > 1 and "seed" not in str(path[-1]) and path[-1] != "fs":
            yield path, o // 2
            yield path, o - 1
    for root in ("cfg", "steps"):
        for path, val in walk(plan.get(root, {}), [root]):
            q = json.loads(json.dumps(plan))
            t = q
            for k in path[:-1]:
                t = t[k]
            t[path[-1]] = val
            yield q


def json_key(o):
    return json.dumps(o, sort_keys=True, default=_js)
