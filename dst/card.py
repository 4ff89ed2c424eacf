"""Simulated PortAudio: stands in for the C library below the real sounddevice module.

Devices, block sizes, loopback, faults and time come from the plan; the real sounddevice Python
code (streams, callbacks, play/rec/playrec, device lookup) runs unchanged above it."""
import numpy as np

ERR = dict(invalid_device=-9996, unavailable=-9985, bad_rate=-9997, bad_channels=-9998, host=-9999, internal=-9986, timed_out=-9987, insufficient_memory=-9992, bad_stream=-9988)


class Interrupted(KeyboardInterrupt):
    pass


class Stream:
    def __init__(self, sid, idev, odev, fs, block, cb):
        self.sid, self.idev, self.odev, self.fs, self.block, self.cb = sid, idev, odev, fs, block, cb
        self.finished_cb = None
        self.frame = 0
        self.state = "open"          # open, active, complete, stopped, closed
        self.out, self.inp = [], []
        self.ended = None            # why the callbacks ended


class Card:
    def __init__(self, cfg, real, ffi):
        self.c, self.real, self.ffi = cfg, real, ffi
        self.keep, self.streams, self.now = [], [], 0.0
        self.faults = {}             # armed for the current call
        self.met = []
        self.gone = set()            # devices that are unplugged
        self.blocks = [64]
        self.bi = 0
        self.user_mode = False       # streams run only while the user sleeps
        self.seed = 0
        self.loop = []               # (input channel, output channel, delay)

    def __getattr__(self, n):        # constants, sample sizes and error texts are PortAudio's own
        return getattr(self.real, n)

    # ---- devices
    def _alive(self, i):
        return 0 <= i < len(self.c["devices"]) and i not in self.gone

    def Pa_GetDeviceCount(self):
        if self._fault("count"):
            return ERR["internal"]
        return len(self.c["devices"])

    def Pa_GetDeviceInfo(self, i):
        if not self._alive(i):
            return self.ffi.NULL
        d = self.c["devices"][i]
        p = self.ffi.new("PaDeviceInfo*")
        name = self.ffi.new("char[]", d["name"].encode())
        p.structVersion, p.name, p.hostApi = 2, name, 0
        p.maxInputChannels, p.maxOutputChannels = d["in"], d["out"]
        p.defaultLowInputLatency = p.defaultLowOutputLatency = 0.01
        p.defaultHighInputLatency = p.defaultHighOutputLatency = 0.1
        p.defaultSampleRate = d["fs"]
        self.keep += [p, name]
        return p

    def Pa_GetHostApiCount(self):
        return 1

    def Pa_GetDefaultHostApi(self):
        return 0

    def Pa_GetHostApiInfo(self, i):
        p = self.ffi.new("PaHostApiInfo*")
        name = self.ffi.new("char[]", b"Sim")
        p.structVersion, p.type, p.name, p.deviceCount = 1, 8, name, len(self.c["devices"])
        p.defaultInputDevice, p.defaultOutputDevice = self.c["default"]
        self.keep += [p, name]
        return p

    def Pa_GetDefaultInputDevice(self):
        return self.c["default"][0]

    def Pa_GetDefaultOutputDevice(self):
        return self.c["default"][1]

    def Pa_GetLastHostErrorInfo(self):
        p = self.ffi.new("PaHostErrorInfo*")
        t = self.ffi.new("char[]", b"simulated host error")
        p.hostApiType, p.errorCode, p.errorText = 8, 7, t
        self.keep += [p, t]
        return p

    def Pa_HostApiTypeIdToHostApiIndex(self, t):
        return 0

    # ---- faults
    def _fault(self, where):
        f = self.faults.get(where)
        if f is None or f is False:
            return None
        self.faults[where] = False
        self.met.append(where)
        return f

    # ---- streams
    def Pa_OpenStream(self, pp, ip, op, fs, block, flags, cb, user):
        e = self._fault("open")
        if e:
            return ERR[e]
        par = []
        for p, k in ((ip, "in"), (op, "out")):
            if not p:
                par.append(None)
                continue
            if not self._alive(p.device):
                return ERR["invalid_device"]
            d = self.c["devices"][p.device]
            if p.channelCount < 1 or p.channelCount > d[k]:
                return ERR["bad_channels"]
            if d["rates"] and int(fs) not in d["rates"]:
                return ERR["bad_rate"]
            fmt = {1: "float32", 2: "int32", 8: "int16", 16: "int8", 32: "uint8"}[p.sampleFormat]
            par.append((p.device, p.channelCount, fmt, p.suggestedLatency))
        if par[0] is None and par[1] is None:
            return ERR["invalid_device"]
        s = Stream(len(self.streams), par[0], par[1], float(fs), block, cb if cb else None)
        s.flags = int(flags)
        self.streams.append(s)
        pp[0] = self.ffi.cast("PaStream*", 1000 + s.sid)
        return 0

    def _s(self, p):
        i = int(self.ffi.cast("intptr_t", p)) - 1000
        if i < 0:
            return Stream(-1, None, None, 1.0, 0, None)    # as harmless as PortAudio's paBadStreamPtr
        return self.streams[i]

    def Pa_GetStreamInfo(self, p):
        if self._fault("info"):
            return self.ffi.NULL
        s = self._s(p)
        i = self.ffi.new("PaStreamInfo*")
        i.structVersion, i.inputLatency, i.outputLatency, i.sampleRate = 1, 0.02, 0.02, s.fs
        self.keep.append(i)
        return i

    def Pa_SetStreamFinishedCallback(self, p, cb):
        if self._fault("setfinished"):
            return ERR["internal"]
        self._s(p).finished_cb = cb
        return 0

    def Pa_IsStreamActive(self, p):
        return int(self._s(p).state == "active")

    def Pa_IsStreamStopped(self, p):
        return int(self._s(p).state in ("open", "stopped"))

    def Pa_GetStreamTime(self, p):
        return self.now + 1e-9

    def Pa_StartStream(self, p):
        s = self._s(p)
        if s.sid < 0:
            return ERR["bad_stream"]
        e = self._fault("start")
        if e:
            return ERR[e]
        s.state = "active"
        if s.cb is not None and not self.user_mode:
            while s.state == "active":
                self._block(s, p)
        return 0

    def _end(self, s, why):
        s.state, s.ended = "complete", why
        if s.finished_cb is not None:
            s.finished_cb(self.ffi.NULL)

    def _input(self, s, n):
        """What the inputs deliver in the next n frames."""
        dev, nch, fmt, _ = s.idev
        g = np.random.default_rng([self.seed, s.sid, s.frame])
        x = g.uniform(-0.9, 0.9, (n, nch)).astype(np.float32)
        if s.odev is not None:
            played = np.concatenate(s.out) if s.out else np.zeros((0, s.odev[1]), np.float32)
            for ic, oc, delay in self.loop:
                if ic < nch and oc < s.odev[1]:
                    idx = np.arange(s.frame - delay, s.frame - delay + n)
                    ok = (idx >= 0) & (idx < len(played))
                    x[ok, ic] += played[idx[ok], oc]
        if fmt != "float32":
            raise NotImplementedError(fmt)
        return x

    def _block(self, s, p):
        n = s.block or self.blocks[self.bi % len(self.blocks)]
        self.bi += 1
        e = self.faults.get("vanish")
        if e not in (None, False) and s.frame + n > e:
            self._fault("vanish")
            self.gone |= {d[0] for d in (s.idev, s.odev) if d}
            return self._end(s, "vanished")
        e = self.faults.get("interrupt")
        if e not in (None, False) and s.frame + n > e:
            self._fault("interrupt")
            raise Interrupted("injected")
        status = 0
        e = self.faults.get("xrun")
        if e not in (None, False) and s.frame >= e:
            self._fault("xrun")
            status = 2 | 4
        ib = ob = self.ffi.NULL
        if s.idev is not None:
            x = np.ascontiguousarray(self._input(s, n))
            ib = self.ffi.cast("void*", self.ffi.from_buffer("char[]", x))
        if s.odev is not None:
            y = np.full((n, s.odev[1]), np.nan, s.odev[2])     # whatever the callback leaves untouched is garbage
            ob = self.ffi.cast("void*", self.ffi.from_buffer("char[]", y, require_writable=True))
        t = self.ffi.new("PaStreamCallbackTimeInfo*")
        t.currentTime = self.now
        rc = s.cb(ib, ob, n, t, status, self.ffi.NULL)
        s.frame += n
        self.now += n / s.fs
        if rc == self.real.paAbort:
            return self._end(s, "abort")
        if s.idev is not None:
            s.inp.append(x.copy())
        if s.odev is not None:
            s.out.append(y.copy())
        if rc == self.real.paComplete:
            return self._end(s, "complete")
        if s.frame > 60 * s.fs:
            raise RuntimeError("stream never ends")

    def _running(self):
        return [s for s in self.streams if s.state == "active"]

    def run_for(self, seconds):
        end = self.now + seconds
        t0 = {}
        while True:
            act = [s for s in self._running() if s.cb is not None]
            act = [s for s in act if t0.setdefault(s.sid, [self.now, s.frame]) and t0[s.sid][0] + (s.frame - t0[s.sid][1]) / s.fs < end - 1e-12]
            if not act:
                break
            now = self.now
            self._block(act[0], None)
            self.now = now
        self.now = end

    def Pa_Sleep(self, ms):
        self.run_for(ms / 1000.0)

    # blocking interface
    def Pa_WriteStream(self, p, buf, n):
        s = self._s(p)
        if s.state != "active":
            return -9983
        nch = s.odev[1]
        y = np.frombuffer(bytes(self.ffi.buffer(buf, int(n) * nch * np.dtype(s.odev[2]).itemsize)), s.odev[2]).reshape(-1, nch)
        e = self.faults.get("vanish")
        if e not in (None, False) and s.frame + n > e:
            self._fault("vanish")
            self.gone.add(s.odev[0])
            self._end(s, "vanished")
            return ERR["unavailable"]
        s.out.append(y.copy())
        s.frame += int(n)
        self.now += n / s.fs
        return 0

    def Pa_ReadStream(self, p, buf, n):
        s = self._s(p)
        if s.state != "active":
            return -9983
        e = self.faults.get("vanish")
        if e not in (None, False) and s.frame + n > e:
            self._fault("vanish")
            self.gone.add(s.idev[0])
            self._end(s, "vanished")
            return ERR["unavailable"]
        x = np.ascontiguousarray(self._input(s, int(n)))
        self.ffi.memmove(buf, x.tobytes(), x.nbytes)
        s.inp.append(x)
        s.frame += int(n)
        self.now += n / s.fs
        return 0

    def Pa_GetStreamReadAvailable(self, p):
        return 1 << 20

    def Pa_GetStreamWriteAvailable(self, p):
        return 1 << 20

    def _stop(self, p, why):
        s = self._s(p)
        if s.sid < 0 or s.state == "closed":
            return ERR["bad_stream"]
        if s.state == "active":
            s.ended = why
            s.state = "stopped"
            if s.finished_cb is not None:
                s.finished_cb(self.ffi.NULL)
        elif s.state == "complete":
            s.state = "stopped"
        return 0

    def Pa_StopStream(self, p):
        return self._stop(p, "stopped") or (ERR["timed_out"] if self._fault("stop") else 0)

    def Pa_AbortStream(self, p):
        return self._stop(p, "aborted")

    def Pa_CloseStream(self, p):
        s = self._s(p)
        if self._stop(p, "closed"):
            return ERR["bad_stream"]
        s.state = "closed"
        return ERR["internal"] if self._fault("close") else 0

    def Pa_Terminate(self):
        return 0


def install(cfg):
    """Puts a simulated card below sounddevice in this (forked) process."""
    import sounddevice as sd
    c = Card(cfg, sd._lib, sd._ffi)
    sd._lib = c
    sd._last_callback = None
    sd.default.reset()
    return c
