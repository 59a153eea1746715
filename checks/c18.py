"""C18: tensor handles keep their semantics under sharing, reshape, slice and packing."""
from runner import Check
from tsx import T, NP, ITEM
import numpy as np

INT_MAX = 2 ** 31 - 1
DTYPES = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 28, 32]
NAMES = {0: ("void", 0), 1: ("int8", 1), 2: ("uint8", 1), 3: ("int16", 2), 4: ("uint16", 2), 5: ("int32", 4), 6: ("uint32", 4),
         7: ("int64", 8), 8: ("uint64", 8), 9: ("float16", 2), 10: ("float32", 4), 11: ("float64", 8), 12: ("pointer", 8),
         13: ("char8", 1), 14: ("char16", 2), 15: ("char32", 4), 16: ("unknown8", 1), 17: ("unknown16", 2), 18: ("unknown32", 4),
         19: ("unknown64", 8), 20: ("unknown128", 16), 21: ("bool", 1), 22: ("complex32", 4), 23: ("complex64", 8), 24: ("complex128", 16)}
NAMES.update({25 + i: ("sink8q%d" % i, 1) for i in range(8)})


def width(dt):
    return NAMES[dt][1]


def count(shape):
    n = 1
    for s in shape:
        n *= s
    return n


class Store:
    """bytes on a device, or a window into such bytes"""

    def __init__(self, data, root=None, offset=0):
        self.root, self.offset, self.size, self.addr = root or self, offset, len(data), None
        if root is None:
            self.data = bytearray(data)

    def read(self):
        return bytes(self.root.data[self.offset:self.offset + self.size])

    def write(self, at, data):
        self.root.data[self.offset + at:self.offset + at + len(data)] = data


class Sync:
    """one SyncMemory: a default device over stores shared with its views"""

    def __init__(self, param, dev):
        self.param, self.dev, self.everlasting = param, dev, False

    @property
    def store(self):
        return self.param[self.dev]


class Field:
    def __init__(self, sync, dt, shape, weak=False):
        self.sync, self.dt, self.shape, self.weak = sync, dt, tuple(shape), weak

    @property
    def empty(self):
        return self.dt == 0 and not self.shape


def nothing(dev=0):
    f = Field(Sync({dev: Store(b"")}, dev), 0, ())
    f.sync.everlasting = dev == 0       # all empty tensors on the processor use one memory
    return f


class Reject(Exception):
    pass


class Skip(Exception):
    """nothing is promised for this operation here"""


class Model:
    def __init__(self):
        self.h = {}

    def owned(self, h):
        out, syncs = set(), set()
        for fs in h.values():
            for f in fs:
                if not f.weak:
                    syncs.add(id(f.sync))
                    out.update(id(s) for s in f.sync.param.values() if s.root is s)
        return out, syncs

    def sound(self, h):
        own, syncs = self.owned(h)
        for fs in h.values():
            for f in fs:
                if f.sync.everlasting:
                    continue
                if f.weak and id(f.sync) not in syncs:
                    return False
                if any(id(s.root) not in own for s in f.sync.param.values()):
                    return False
        return True

    def pick(self, fs, k):
        if not -len(fs) <= k < len(fs):
            raise Reject
        return fs[k]

    def apply(self, op):
        """-> new handle map (raises Reject, Skip)"""
        n, a = op[0], op[1:]
        h = dict(self.h)
        if n == "new":
            v = a[3]
            if a[1] == 12:
                h[a[0]] = [nothing()]
            else:
                dev = 0 if a[1] in (8, 9, 10, 11) else a[2]
                h[a[0]] = [Field(Sync({dev: Store(v.raw)}, dev), v.dt, v.shape)]
        elif n == "copy":
            h[a[0]] = list(h[a[1]])
        elif n == "assign":
            h[a[0]] = list(h[a[1]])
        elif n == "move":
            h[a[0]] = h.pop(a[1])
        elif n == "move_assign":
            if a[0] == a[1]:
                raise Skip
            h[a[0]] = h.pop(a[1])
        elif n == "drop":
            del h[a[0]]
        elif n == "clone":
            fs = h[a[1]]
            dev = fs[0].sync.dev if a[2] in (0, 5) else a[3]
            h[a[0]] = [nothing(dev if a[2] in (4, 8) else 0) if f.empty else Field(Sync({dev: Store(f.sync.store.read()[:count(f.shape) * width(f.dt)])}, dev), f.dt, f.shape) for f in fs]
        elif n == "reshape":
            f = h[a[1]][0]
            to = [max(x, -1) for x in a[2]]
            if to.count(-1) > 1:
                raise Reject
            if -1 in to:
                down = -count(to)
                if down == 0 or down > INT_MAX or count(f.shape) % down:
                    raise Reject
                to[to.index(-1)] = count(f.shape) // down
            if count(to) != count(f.shape):
                raise Reject
            h[a[0]] = [Field(f.sync, f.dt, to, f.weak)] + h[a[1]][1:]
        elif n == "flatten":
            f = h[a[1]][0]
            d = max(a[2], 0)
            if d + 1 < len(f.shape):
                to = f.shape[:d] + (count(f.shape[d:]),)
            else:
                to = f.shape + (1,) * (d + 1 - len(f.shape))
            if len(to) > 7 or any(x > INT_MAX for x in to):
                raise Reject
            h[a[0]] = [Field(f.sync, f.dt, to, f.weak)] + h[a[1]][1:]
        elif n in ("slice", "slices"):
            f = h[a[1]][0]
            b, e = (a[2], a[2] + 1) if n == "slice" else a[2:4]
            if not f.shape or not 0 <= b < e <= f.shape[0]:
                raise Reject
            if count(f.shape[1:]) > INT_MAX:
                raise Reject        # an inner shape no tensor can have
            w = count(f.shape[1:]) * width(f.dt)
            s = f.sync.store
            win = Store(s.read()[b * w:e * w], s.root, s.offset + b * w)
            h[a[0]] = [Field(Sync({f.sync.dev: win}, f.sync.dev), f.dt, f.shape[1:] if n == "slice" else (e - b,) + f.shape[1:])]
        elif n == "field":
            h[a[0]] = [self.pick(h[a[1]], a[2])]
        elif n == "set_field":
            if not -len(h[a[0]]) <= a[1] < len(h[a[0]]):
                raise Reject
            k = a[1] % len(h[a[0]])
            v = h[a[2]]
            if k and len(v) > 1:
                raise Skip
            fs = list(h[a[0]])
            fs[k] = v[0]
            h[a[0]] = fs
        elif n == "pack":
            src = [h[x] for x in a[2]]
            if any(len(x) > 1 for x in src[1:]):
                raise Skip
            h[a[0]] = [x[0] for x in src] or [Field(Sync({0: Store(b"")}, 0), 0, ())]
        elif n == "unpack":
            h[a[0]] = [h[a[1]][a[2]]]
        elif n == "refield":
            fs = list(h[a[0]])
            h[a[0]] = [nothing()] if a[1] == 0 else fs[:a[1]] + [nothing() for _ in range(a[1] - len(fs))]
        elif n in ("view", "view_flow"):
            dev = 0 if n == "view_flow" else a[2]
            out = []
            for f in h[a[1]]:
                if dev not in f.sync.param:
                    f.sync.param[dev] = Store(f.sync.store.read())
                out.append(Field(Sync(f.sync.param, dev), f.dt, f.shape))
            h[a[0]] = out
        elif n == "broadcast":
            for f in h[a[0]]:
                if f.sync.store.size == 0:
                    raise Skip      # all empty tensors are views of one memory
                if any(g.sync is not f.sync and g.sync.param is f.sync.param for fs in h.values() for g in fs):
                    raise Skip
                gone = [id(s) for d, s in f.sync.param.items() if d != f.sync.dev and s.root is s]
                if any(id(s.root) in gone for fs in h.values() for g in fs for s in g.sync.param.values() if s.root is not s):
                    raise Skip
            for f in h[a[0]]:
                keep = f.sync.store
                f.sync.param.clear()
                f.sync.param[f.sync.dev] = keep
        elif n == "weak":
            h[a[0]] = [Field(f.sync, f.dt, f.shape, True) for f in h[a[1]]]
        elif n == "strong":
            h[a[0]] = [Field(f.sync, f.dt, f.shape, False) for f in h[a[1]]]
        elif n == "write":
            f = h[a[0]][a[1]]
            w = width(f.dt)
            f.sync.store.write(a[2] * w, bytes([a[3]]) * w)
        elif n == "serialize":
            out = []
            for f in h[a[1]]:
                if 0 not in f.sync.param:
                    f.sync.param[0] = Store(f.sync.store.read())
                out.append(Field(Sync({0: Store(f.sync.param[0].read()[:count(f.shape) * width(f.dt)])}, 0), f.dt, f.shape))
            h[a[0]] = out
        return h


def shape_any(rng):
    k = rng.random()
    if k < 0.07:
        return ()
    if k < 0.14:
        s = [int(x) for x in rng.integers(1, 4, size=int(rng.integers(1, 5)))]
        s[int(rng.integers(len(s)))] = 0
        if rng.random() < 0.2:
            s.append(70000)
            s.append(70000)
        return tuple(s)
    s = [int(x) for x in rng.integers(1, 5, size=int(rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 7])))]
    while count(s) > 200:
        s[int(rng.integers(len(s)))] = 1
    return tuple(s)


def factor(rng, n):
    """a random shape of n elements"""
    s = []
    while n > 1 and len(s) < 5:
        d = [x for x in range(1, n + 1) if n % x == 0]
        x = int(rng.choice(d))
        s.append(x)
        n //= x
    if n != 1 or rng.random() < 0.3:
        s.append(n)
    return s


def other_shape(rng, f):
    n = count(f.shape)
    if n == 0:
        s = [int(x) for x in rng.integers(0, 3, size=int(rng.integers(1, 4)))]
    else:
        s = factor(rng, n)
    k = rng.random()
    if k < 0.25 and s:
        s[int(rng.integers(len(s)))] = int(rng.choice([-1, -1, -1, -7]))
    elif k < 0.35:
        s = [int(x) for x in rng.integers(-1, 5, size=int(rng.integers(1, 5)))]
    elif k < 0.38:
        s = [70000, 70000, -1] if rng.random() < 0.5 else [-1, 65536, 65536]
    elif k < 0.4:
        s = [70000, 70000]
    return s


def tensors_case(rng):
    m, ops, nid = Model(), [], 0
    for _ in range(int(rng.integers(6, 60))):
        k = rng.random()
        ids = list(m.h)
        nid += 1
        new = nid
        x = int(rng.choice(ids)) if ids else 0
        y = int(rng.choice(ids)) if ids else 0
        fs = m.h.get(x)
        if not ids or (k < 0.18 and len(ids) < 10):
            dt = int(rng.choice(DTYPES))
            s = shape_any(rng)
            v = T(dt, s, rng.integers(0, 256, size=count(s) * width(dt), dtype=np.uint8).tobytes())
            op = ["new", new, int(rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12])), int(rng.choice([0, 0, 1, 2, 3])), v]
        elif len(ids) > 9 and k < 0.6:
            op = ["drop", x]
        elif k < 0.24:
            op = ["copy", new, x]
        elif k < 0.27:
            op = ["assign", x, y]
        elif k < 0.30:
            op = ["move", new, x]
        elif k < 0.32:
            op = ["move_assign", x, y]
        elif k < 0.40:
            op = ["drop", x]
        elif k < 0.45:
            op = ["clone", new, x, int(rng.integers(9)), int(rng.integers(4))]
        elif k < 0.52:
            op = ["reshape", new, x, other_shape(rng, fs[0])]
        elif k < 0.56:
            op = ["flatten", new, x, int(rng.integers(-1, 8))]
        elif k < 0.60:
            n = fs[0].shape[0] if fs[0].shape else 0
            op = ["slice", new, x, int(rng.integers(-1, n + 1))]
        elif k < 0.63:
            n = fs[0].shape[0] if fs[0].shape else 0
            op = ["slices", new, x, int(rng.integers(-1, n + 1)), int(rng.integers(-1, n + 2))]
        elif k < 0.68:
            how = int(rng.integers(2))
            op = ["field", new, x, int(rng.integers(0 if how else -len(fs) - 1, len(fs) + 2)), how]
        elif k < 0.72:
            how = int(rng.integers(2))
            op = ["set_field", x, int(rng.integers(0 if how else -len(fs) - 1, len(fs) + 1)), y, how]
        elif k < 0.78:
            from_ = [int(z) for z in rng.choice(ids, size=int(rng.integers(0, 4)))]
            op = ["pack", new, 1, from_] if rng.random() < 0.6 else ["pack", x, 0, from_]
        elif k < 0.80:
            op = ["unpack", new, x, int(rng.integers(len(fs)))]
        elif k < 0.82:
            op = ["refield", x, int(rng.integers(0, 5))]
        elif k < 0.86:
            op = ["view", new, x, int(rng.integers(4))]
        elif k < 0.87:
            op = ["view_flow", new, x, int(rng.integers(2))]
        elif k < 0.89:
            op = ["broadcast", x]
        elif k < 0.91:
            op = [str(rng.choice(["weak", "strong"])), new, x]
        elif k < 0.96:
            f = int(rng.integers(len(fs)))
            n = count(fs[f].shape)
            if not n or not width(fs[f].dt):
                continue
            op = ["write", x, f, int(rng.integers(n)), int(rng.integers(256))]
        elif k < 0.98:
            op = ["serialize", new, x]
        else:
            s = list(fs[0].shape)
            j = rng.random()
            if s and j < 0.5:
                s[int(rng.integers(len(s)))] += int(rng.choice([-9, -1, 1, 2]))
            elif j < 0.7:
                s = s[:-1] if rng.random() < 0.5 else (s + [1])[:7]
            op = ["has_shape", x, s]
        try:
            h = m.apply(op)
        except Reject:
            ops.append(op)
            continue
        except Skip:
            continue
        if not m.sound(h):
            continue
        m.h = h
        ops.append(op)
    return [ops, int(rng.integers(2))]


def protos_case(rng):
    ops, live, nid = [], {}, 0

    def one():
        return [int(rng.integers(0, 33)), [int(x) for x in rng.integers(0, 5, size=int(rng.integers(0, 5)))]]
    for _ in range(int(rng.integers(3, 25))):
        k = rng.random()
        nid += 1
        ids = list(live)
        if not ids or k < 0.3:
            fs = [one() for _ in range(int(rng.integers(0, 4)))]
            how = int(rng.integers(3))
            if how < 2 and rng.random() < 0.4:
                for f in fs:
                    if f[1]:
                        f[1][0] = -1
            ops.append(["new", nid, how, fs])
            live[nid] = max(len(fs), 1)
            continue
        x, y = int(rng.choice(ids)), int(rng.choice(ids))
        n = live[x]
        how = int(rng.integers(2))
        at = int(rng.integers(0 if how else -n - 1, n + 1))
        if k < 0.36:
            ops.append(["copy", nid, x])
            live[nid] = n
        elif k < 0.42:
            ops.append(["move", nid, x])
            live[nid] = live.pop(x)
        elif k < 0.52:
            ops.append(["field", nid, x, at, how])
            if -n <= at < n:
                live[nid] = 1
        elif k < 0.56:
            ops.append(["move_single", nid, x])
            live[nid] = 1
        elif k < 0.68:
            ops.append(["set_field", x, at, one(), how])
        elif k < 0.76:
            live[x] = int(rng.integers(0, 4))
            ops.append(["refield", x, live[x]])
            live[x] = max(live[x], 1)
        else:
            ops.append(["equal", x, y])
    return ops


class CHECK(Check):
    id = "C18"
    builds = {"asan": ["mem"]}
    rule = ("random histories over tensors of every element type and many shapes, on the processor and three stand-in devices, made and cloned in every supported way; a model of handles, shared "
            "buffers, windows, synchronised views and weak handles predicts every observer of every live handle (type, shape, count, address, device, bytes, fields) after every operation; rejected "
            "operations have to leave everything as it was; shapes: every coordinate of a shape forth and back; protos: prototype histories against a list model; big: tensors beyond 2 GB")
    assumptions = ["no handle is used after the data it borrows is gone (weak handles, slices)", "other views are dropped before a broadcast (documented)", "packs hold plain tensors, not packs"]

    def plan(self, tier):
        k = 1 if tier == "quick" else 15
        return [("big", 5), ("tensors", 3500 * k), ("shape", 800 * k), ("protos", 3000 * k), ("types", 1)]

    def gen(self, group, rng, i, tier):
        if group == "tensors":
            return tensors_case(rng)
        if group == "protos":
            return protos_case(rng)
        if group == "shape":
            s = shape_any(rng)
            while 0 in s:
                s = shape_any(rng)
            return list(s)
        if group == "big":
            return [(1 << 28) + (1 << 26), [0, 1, 2, 5, 10][i % 5]]
        return 0

    def crash_key(self, group, case, crash):
        if group == "tensors":
            return "tensors:%s" % crash.kind
        return "%s:%s" % (group, crash.kind)

    def run(self, ctx, group, case, out):
        srv = ctx.server("asan", "mem", timeout=300 if group == "big" else 45)
        getattr(self, "r_" + group)(srv, case, out)
        out.sig = (group, repr(case))

    def r_tensors(self, srv, case, out):
        ops, order = case
        res, before, after = srv.call("tensors", ops, order)
        m = Model()
        for k, (op, r) in enumerate(zip(ops, res)):
            status, what, extra, live = r[0].decode(), r[1].decode(errors="replace"), r[2], r[3]
            txt = "operation %d %s: " % (k, op)
            key = op[0]
            old = m.h
            try:
                m.h = m.apply(op)
                ok = True
            except Reject:
                ok = False
            if (status == "ok") != ok:
                out.bad(key + (":accepted" if status == "ok" else ":rejected"), txt + (what or "accepted"))
                return
            if not ok:
                m.h = old
                out.see("rejected operations")
            if op[0] == "has_shape":
                s = m.h[op[1]][0].shape
                want = len(s) == len(op[2]) and all(b < 0 or x == b for x, b in zip(s, op[2]))
                if any(bool(x) != want for x in extra):
                    out.bad("has_shape", txt + "answers %s for %s" % (extra, s))
            if op[0] == "serialize":
                n = 4 + sum(5 + 4 * len(f.shape) + count(f.shape) * width(f.dt) for f in m.h[op[1]])
                if list(extra) != [n, n, n]:
                    out.bad("serialize:size", txt + "%s bytes written, read and there; expected %d" % (extra, n))
            got = {x[0]: x[1] for x in live}
            if sorted(got) != sorted(m.h):
                out.bad("handles", txt)
                return
            spans = []
            for i, fs in m.h.items():
                fields, packed, empty, same = got[i]
                if len(fields) != len(fs) or packed != (len(fs) > 1) or not same:
                    out.bad(key + ":fields", txt + "tensor %d has %d fields (packed %d, prototype agrees %d) instead of %d" % (i, len(fields), packed, same, len(fs)))
                    return
                if empty != fs[0].empty:
                    out.bad(key + ":empty", txt + "tensor %d" % i)
                for j, (f, g) in enumerate(zip(fs, fields)):
                    dt, shape, n, addr, dev, raw, (dims, noshape, sizes) = g
                    if dt != f.dt or tuple(shape) != f.shape or n != count(f.shape) or dims != len(f.shape) or noshape != (not f.shape) or not sizes:
                        out.bad(key + ":shape", txt + "field %d of tensor %d is %d%s (%d elements) instead of %d%s" % (j, i, dt, shape, n, f.dt, f.shape))
                        return
                    if f.empty:
                        continue
                    if dev != f.sync.dev:
                        out.bad(key + ":device", txt + "field %d of tensor %d on device %d instead of %d" % (j, i, dev, f.sync.dev))
                    want = f.sync.store.read()[:count(f.shape) * width(f.dt)]
                    if raw != want:
                        out.bad(key + ":content", txt + "field %d of tensor %d: %s... instead of %s..." % (j, i, raw[:24].hex(), want[:24].hex()))
                        return
                    if want:
                        st = f.sync.store
                        if st.root.addr is None:
                            st.root.addr = addr - st.offset
                        if st.root.addr + st.offset != addr:
                            out.bad(key + ":address", txt + "field %d of tensor %d" % (j, i))
                            return
                        spans.append((st.root.addr, st.root.size, id(st.root), "%d.%d" % (i, j)))
            spans = sorted({x[2]: x for x in spans}.values())
            for a, b in zip(spans, spans[1:]):
                if a[0] + a[1] > b[0]:
                    out.bad(key + ":overlap", txt + "tensors %s and %s share memory" % (a[3], b[3]))
            out.see("tensors observed", len(live))
        if after != before:
            out.bad("leak", "devices hold %s before and %s after the history" % (before, after))
        out.see("tensor operations", len(ops))

    def r_shape(self, srv, case, out):
        n, weight, shape, forth, back, index, coords = srv.call("shape", case)
        total = count(case)
        if n != total or tuple(shape) != tuple(case) or list(weight) != [count(case[i:]) for i in range(len(case))]:
            out.bad("shape:weight", "%s: count %d, weights %s" % (case, n, weight))
        want = [list(int(v) for v in np.unravel_index(i, case)) if case else [] for i in range(total)]
        if [list(c) for c in forth] != want + want[:1]:
            out.bad("shape:iterate", "%s: %s" % (case, forth[:20]))
        if [list(c) for c in back] != want[::-1] + want[:1]:
            out.bad("shape:iterate-back", "%s: %s" % (case, back[:20]))
        if [list(c) for c in coords] != want:
            out.bad("shape:coordinate", "%s: %s" % (case, coords[:20]))
        k, answers = 0, 0
        for x in index:
            if x == -5:
                k += 1
            else:
                answers += 1
                if x != k:
                    out.bad("shape:index", "%s: coordinate %s is at %d instead of %d" % (case, want[k], x, k))
                    return
        out.see("coordinates", total)
        out.see("index answers", answers)

    def r_protos(self, srv, case, out):
        res = srv.call("protos", case)
        m = {}
        for k, (op, r) in enumerate(zip(case, res)):
            status, what, extra, live = r[0].decode(), r[1].decode(errors="replace"), r[2], r[3]
            n, a = op[0], op[1:]
            txt, ok = "operation %d %s: " % (k, op), True
            if n == "new":
                m[a[0]] = [tuple([f[0], tuple(f[1])]) for f in a[2]] or [(0, ())]
            elif n == "copy":
                m[a[0]] = list(m[a[1]])
            elif n == "move":
                m[a[0]] = m.pop(a[1])
            elif n == "field":
                ok = -len(m[a[1]]) <= a[2] < len(m[a[1]])
                if ok:
                    m[a[0]] = [m[a[1]][a[2]]]
            elif n == "move_single":
                m[a[0]] = [m[a[1]][0]]
            elif n == "set_field":
                ok = -len(m[a[0]]) <= a[1] < len(m[a[0]])
                if ok:
                    m[a[0]][a[1]] = (a[2][0], tuple(a[2][1]))
            elif n == "refield":
                m[a[0]] = [(0, ())] if a[1] == 0 else (m[a[0]] + [(0, ())] * a[1])[:a[1]]
            else:
                x, y = m[a[0]], m[a[1]]
                want = [x == y, x != y, [x[0]] == y, x == [y[0]], [x[0]] != y]
                if [bool(v) for v in extra] != want:
                    out.bad("protos:equal", txt + "%s and %s: %s instead of %s" % (x, y, extra, want))
            if (status == "ok") != ok:
                out.bad("protos:%s:%s" % (n, "accepted" if status == "ok" else "rejected"), txt + what)
                return
            got = {x[0]: x[1:] for x in live}
            if sorted(got) != sorted(m):
                out.bad("protos:handles", txt)
                return
            for i, fs in m.items():
                gf, nf, packed, text = got[i]
                if [(d, tuple(s)) for d, s in gf] != fs or nf != len(fs) or packed != (len(fs) > 1):
                    out.bad("protos:" + n, txt + "prototype %d is %s instead of %s" % (i, gf, fs))
                    return
                want = "{" + ", ".join("%s:[%s]" % (NAMES[d][0], ", ".join("?" if z < 0 else str(z) for z in s)) for d, s in fs) + "}"
                if text.decode() != want:
                    out.bad("protos:text", txt + "%s instead of %s" % (text.decode(), want))
        out.see("prototype operations", len(case))

    def r_types(self, srv, case, out):
        for code, size, name in srv.call("types"):
            if (name.decode(), size) != NAMES[code]:
                out.bad("types:%d" % code, "type %d is %s of %d bytes instead of %s" % (code, name.decode(), size, NAMES[code]))
        out.see("types", len(NAMES))

    def r_big(self, srv, case, out):
        n, rows = case
        got = list(srv.call("big", n, rows))
        w = n // rows * 8 if rows > 3 else 0
        want = [1, 2, 3] if rows <= 3 else [2, 2, 2, (rows - 1) * w, (rows - 1) * w, (rows - 1) * w]
        if got != want:
            out.bad("big:%s" % ("clone" if rows <= 3 else "slice"), "%s: %s instead of %s" % (case, got, want))
        out.see("tensors beyond 2 GB")
