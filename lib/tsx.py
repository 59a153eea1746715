"""Client of the execution servers: typed RPC over pipes, crash isolation, tensors as numpy arrays."""
import os, select, struct, subprocess, tempfile, time, json, base64
import numpy as np

DT = dict(VOID=0, INT8=1, UINT8=2, INT16=3, UINT16=4, INT32=5, UINT32=6, INT64=7, UINT64=8, FLOAT16=9, FLOAT32=10,
          FLOAT64=11, PTR=12, CHAR8=13, CHAR16=14, CHAR32=15, UNKNOWN8=16, UNKNOWN16=17, UNKNOWN32=18, UNKNOWN64=19,
          UNKNOWN128=20, BOOLEAN=21, COMPLEX32=22, COMPLEX64=23, COMPLEX128=24, SINK8Q0=25, SINK8Q7=32)
NAME = {v: k for k, v in DT.items()}
NP = {1: np.int8, 2: np.uint8, 3: np.int16, 4: np.uint16, 5: np.int32, 6: np.uint32, 7: np.int64, 8: np.uint64,
      9: np.float16, 10: np.float32, 11: np.float64, 13: np.uint8, 21: np.uint8, 14: np.uint16, 15: np.uint32,
      16: np.uint8, 17: np.uint16, 18: np.uint32, 19: np.uint64, 23: np.complex64, 24: np.complex128,
      22: np.uint32, 12: np.uint64}
NP.update({k: np.uint8 for k in range(25, 33)})
ITEM = {k: np.dtype(v).itemsize for k, v in NP.items()}
ITEM[0] = 0
ITEM[20] = 16
FROM_NP = {np.dtype(np.int8): 1, np.dtype(np.uint8): 2, np.dtype(np.int16): 3, np.dtype(np.uint16): 4,
           np.dtype(np.int32): 5, np.dtype(np.uint32): 6, np.dtype(np.int64): 7, np.dtype(np.uint64): 8,
           np.dtype(np.float16): 9, np.dtype(np.float32): 10, np.dtype(np.float64): 11, np.dtype(np.bool_): 21}


class T:
    """A tensor value: dtype code + shape + raw bytes (numpy view on demand)."""
    __slots__ = ("dt", "shape", "raw")

    def __init__(self, dt, shape, raw):
        self.dt, self.shape, self.raw = int(dt), tuple(int(x) for x in shape), bytes(raw)

    @staticmethod
    def of(a, dt=None):
        if isinstance(a, (T, Packed)):
            return a
        if isinstance(a, str):
            b = a.encode()
            return T(13, (len(b),), b)
        if isinstance(a, bool):
            a = np.array(a, dtype=np.uint8)
            return T(21 if dt is None else dt, a.shape, a.tobytes())
        if isinstance(a, int) and dt is None:
            a = np.array(a, dtype=np.int32)
        elif isinstance(a, float) and dt is None:
            a = np.array(a, dtype=np.float32)
        elif isinstance(a, (list, tuple)) and dt is None:
            fl = any(isinstance(x, float) for x in np.asarray(a, dtype=object).ravel())
            a = np.array(a, dtype=np.float32 if fl else np.int32)
        if dt is not None and not isinstance(a, np.ndarray):
            a = np.array(a, dtype=NP[dt])
        a = np.asarray(a)
        shape = a.shape
        a = np.ascontiguousarray(a)
        return T(FROM_NP[a.dtype] if dt is None else dt, shape, a.tobytes())

    @property
    def np(self):
        if self.dt == 20:
            return np.frombuffer(self.raw, dtype=np.uint64).reshape(self.shape + (2,))
        return np.frombuffer(self.raw, dtype=NP[self.dt]).reshape(self.shape)

    def __eq__(self, o):
        return isinstance(o, T) and (self.dt, self.shape, self.raw) == (o.dt, o.shape, o.raw)

    def __repr__(self):
        v = ""
        if self.dt in NP and np.prod(self.shape, dtype=np.int64) <= 16:
            v = " " + str(self.np.tolist())
        return "T(%s%s%s)" % (NAME.get(self.dt, self.dt), list(self.shape), v)


class Packed(list):
    def __repr__(self):
        return "Packed" + list.__repr__(self)


def S(x):
    return T.of(x)


# ------------------------------------------------------------------------------------------ wire
def enc(v, o):
    if v is None:
        o.append(b"n")
    elif isinstance(v, (bool, int, np.integer)):
        o.append(struct.pack("<cq", b"i", int(v)))
    elif isinstance(v, (float, np.floating)):
        o.append(struct.pack("<cd", b"f", float(v)))
    elif isinstance(v, str):
        b = v.encode("utf-8", "surrogateescape")
        o.append(struct.pack("<cI", b"s", len(b)) + b)
    elif isinstance(v, (bytes, bytearray)):
        o.append(struct.pack("<cI", b"s", len(v)) + bytes(v))
    elif isinstance(v, T):
        o.append(struct.pack("<cI", b"t", 1))
        enc_field(v, o)
    elif isinstance(v, Packed):
        o.append(struct.pack("<cI", b"t", len(v)))
        for x in v:
            enc_field(x, o)
    elif isinstance(v, np.ndarray):
        enc(T.of(v), o)
    elif isinstance(v, (list, tuple)):
        o.append(struct.pack("<cI", b"l", len(v)))
        for x in v:
            enc(x, o)
    else:
        raise TypeError(type(v))


def enc_field(t, o):
    o.append(struct.pack("<iI", t.dt, len(t.shape)) + struct.pack("<%di" % len(t.shape), *t.shape)
             + struct.pack("<Q", len(t.raw)) + t.raw)


class Dec:
    def __init__(self, b):
        self.b, self.p = b, 0

    def u(self, f):
        v = struct.unpack_from(f, self.b, self.p)
        self.p += struct.calcsize(f)
        return v

    def take(self, n):
        v = self.b[self.p:self.p + n]
        self.p += n
        return v

    def val(self):
        tag = self.b[self.p:self.p + 1]
        self.p += 1
        if tag == b"n":
            return None
        if tag == b"i":
            return self.u("<q")[0]
        if tag == b"f":
            return self.u("<d")[0]
        if tag == b"s":
            return self.take(self.u("<I")[0])
        if tag == b"l":
            return [self.val() for _ in range(self.u("<I")[0])]
        if tag == b"t":
            n = self.u("<I")[0]
            fs = [self.field() for _ in range(n)]
            return fs[0] if n == 1 else Packed(fs)
        raise ValueError(tag)

    def field(self):
        dt, nd = self.u("<iI")
        sh = self.u("<%di" % nd)
        n = self.u("<Q")[0]
        return T(dt, sh, self.take(n))


class Crash(Exception):
    def __init__(self, kind, report, rc):
        Exception.__init__(self, kind)
        self.kind, self.report, self.rc = kind, report, rc


class TsError(Exception):
    """The library answered with an exception."""

    def __init__(self, kind, msg):
        Exception.__init__(self, msg)
        self.kind, self.msg = kind, msg


def asan_env(extra=None, threads=None):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=1:quarantine_size_mb=32:"
                         "malloc_context_size=12:detect_stack_use_after_return=0:strict_string_checks=1:"
                         "max_allocation_size_mb=8192:handle_abort=1:handle_segv=1:handle_sigfpe=1")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=78"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4"
    e["OMP_WAIT_POLICY"] = "PASSIVE"
    e["GOMP_SPINCOUNT"] = "0"
    e.pop("TENNIS_NUMBER_THREADS", None)
    if extra:
        e.update(extra)
    return e


class Server:
    """One server process; restarted transparently after a crash."""

    def __init__(self, path, env=None, timeout=45):
        self.path, self.env, self.timeout = path, env or asan_env(), timeout
        self.p = None
        self.starts = 0

    def start(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.log = tempfile.TemporaryFile()
        self.p = subprocess.Popen([self.path, str(r1), str(w2)], stdin=subprocess.DEVNULL, stdout=self.log,
                                  stderr=self.log, env=self.env, pass_fds=(r1, w2), cwd="/tmp")
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2
        self.starts += 1

    def stop(self):
        if self.p is None:
            return
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            self.p.wait(5)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        self.log.close()
        self.p = None

    def _read(self, n, deadline):
        out = []
        while n:
            left = deadline - time.time()
            if left <= 0 or not select.select([self.r], [], [], left)[0]:
                raise TimeoutError()
            b = os.read(self.r, min(n, 1 << 20))
            if not b:
                raise EOFError()
            out.append(b)
            n -= len(b)
        return b"".join(out)

    def _die(self, kind):
        if kind == "hang":
            self.p.kill()
        try:
            rc = self.p.wait(30)
        except subprocess.TimeoutExpired:
            self.p.kill()
            rc = self.p.wait()
        self.log.seek(0, 2)
        n = self.log.tell()
        self.log.seek(max(0, n - 200000))
        text = self.log.read().decode(errors="replace")
        self.stop()
        k = classify(text, rc) if kind != "hang" else "hang"
        at = text.find("ERROR: AddressSanitizer")
        if at < 0:
            at = text.find("runtime error:")
        if at < 0:
            at = text.find("WARNING: ThreadSanitizer")
        text = text[max(0, at - 200):at + 6000] if at >= 0 else text[-3000:]
        raise Crash(k, text, rc)

    def call(self, *req, timeout=None):
        if self.p is None:
            self.start()
        o = []
        enc(list(req), o)
        b = b"".join(o)
        deadline = time.time() + (timeout or self.timeout)
        try:
            data = struct.pack("<I", len(b)) + b
            mv = memoryview(data)
            while len(mv):
                n = os.write(self.w, mv[:1 << 16])
                mv = mv[n:]
            n = struct.unpack("<I", self._read(4, deadline))[0]
            rsp = Dec(self._read(n, deadline)).val()
        except TimeoutError:
            self._die("hang")
        except (EOFError, BrokenPipeError, ConnectionResetError):
            self._die("crash")
        kind = rsp[0].decode()
        if kind == "ok":
            return rsp[1]
        msg = rsp[1].decode(errors="replace")
        if msg.startswith("rpc:"):
            raise RuntimeError(msg)
        raise TsError(kind, msg)


def classify(text, rc):
    """A short stable key for a crash: sanitizer kind + innermost project function."""
    import re
    kind = "exit%s" % rc
    m = re.search(r"ERROR: AddressSanitizer:? ([A-Za-z0-9-]+)", text)
    if m:
        kind = "asan-" + m.group(1)
    elif "runtime error:" in text:
        m = re.search(r"runtime error: (.*)", text)
        kind = "ubsan-" + re.sub(r"[^a-z]+", "-", re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*|'[^']*'", "", m.group(1).lower())).strip("-")[:40]
    elif "WARNING: ThreadSanitizer" in text:
        m = re.search(r"WARNING: ThreadSanitizer: ([a-z -]+)", text)
        kind = "tsan-" + m.group(1).strip().replace(" ", "-")
    elif "terminate called" in text:
        kind = "terminate"
    where = ""
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.*?) (/repo/\S+?):(\d+)", text):
        where = os.path.relpath(m.group(2), "/repo")
        break
    return kind + ("@" + where if where else "")


# ------------------------------------------------------------------------------------------ JSON for replay files
def to_json(v):
    if isinstance(v, T):
        return {"T": [v.dt, list(v.shape), base64.b64encode(v.raw).decode()]}
    if isinstance(v, Packed):
        return {"P": [to_json(x) for x in v]}
    if isinstance(v, (bytes, bytearray)):
        return {"B": base64.b64encode(bytes(v)).decode()}
    if isinstance(v, (list, tuple)):
        return [to_json(x) for x in v]
    if isinstance(v, dict):
        return {"D": {k: to_json(x) for k, x in v.items()}}
    if isinstance(v, np.ndarray):
        return to_json(T.of(v))
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, np.floating):
        return float(v)
    return v


def from_json(v):
    if isinstance(v, list):
        return [from_json(x) for x in v]
    if isinstance(v, dict):
        (k, x), = v.items()
        if k == "T":
            return T(x[0], x[1], base64.b64decode(x[2]))
        if k == "P":
            return Packed(from_json(y) for y in x)
        if k == "B":
            return base64.b64decode(x)
        return {a: from_json(b) for a, b in x.items()}
    return v
