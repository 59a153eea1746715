"""The published module file layout (doc/zh_CN/module.md), written and read independently of the library.

A graph is [node...] with node = [params: {bytes name: T|Packed}, inputs: [int]].
"""
import struct
import numpy as np
from tsx import T, Packed, ITEM

CODE = 0x19910929


class Bad(Exception):
    pass


def u32(n):
    return struct.pack("<I", n)


def w_string(s):
    return u32(len(s)) + s


def w_tensor(t):
    return struct.pack("<BI", t.dt, len(t.shape)) + b"".join(u32(x) for x in t.shape) + t.raw


def w_packed(v):
    fs = v if isinstance(v, Packed) else [v]
    return u32(len(fs)) + b"".join(w_tensor(t) for t in fs)


def w_bubble(params):
    return u32(len(params)) + b"".join(w_string(k) + w_packed(v) for k, v in params)


def w_list(xs):
    return u32(len(xs)) + b"".join(u32(x) for x in xs)


def w_graph(nodes):
    return u32(len(nodes)) + b"".join(w_bubble(p) + w_list(i) for p, i in nodes)


def w_header(code=CODE, fake=0, data=b"\0" * 120):
    return u32(fake) + u32(code) + data


def w_module(inputs, outputs, nodes, header=None):
    return (header or w_header()) + w_list(inputs) + w_list(outputs) + w_graph(nodes)


class Rd:
    def __init__(self, b):
        self.b, self.p = b, 0
        self.marks = []          # (offset, kind) of every count, size, index, type

    def take(self, n):
        if self.p + n > len(self.b):
            raise Bad("short")
        v = self.b[self.p:self.p + n]
        self.p += n
        return v

    def u32(self, kind="u32"):
        self.marks.append((self.p, kind))
        return struct.unpack("<I", self.take(4))[0]

    def string(self):
        return self.take(self.u32("strlen"))

    def tensor(self):
        self.marks.append((self.p, "dtype"))
        dt = self.take(1)[0]
        if dt not in ITEM:
            raise Bad("dtype %d" % dt)
        shape = [self.u32("extent") for _ in range(self.u32("dims"))]
        n = 1
        for x in shape:
            n *= x
        return T(dt, shape, self.take(n * ITEM[dt]))

    def packed(self):
        fs = [self.tensor() for _ in range(self.u32("fields"))]
        return fs[0] if len(fs) == 1 else Packed(fs)

    def bubble(self):
        return [(self.string(), self.packed()) for _ in range(self.u32("params"))]

    def list(self):
        return [self.u32("index") for _ in range(self.u32("indexes"))]

    def graph(self):
        return [(self.bubble(), self.list()) for _ in range(self.u32("nodes"))]

    def header(self):
        fake = self.u32("fake")
        code = self.u32("code")
        return fake, code, self.take(120)

    def module(self):
        h = self.header()
        return h, self.list(), self.list(), self.graph()


def canon(inputs, outputs, nodes):
    """A form of a module that does not depend on how its nodes are numbered.
    nodes: [(params as dict, inputs)]"""
    num, recs = {}, []
    for root in list(outputs) + list(inputs):
        stack = [(root, False)]
        while stack:
            n, done = stack.pop()
            if n in num:
                continue
            if done:
                num[n] = len(recs)
                recs.append((tuple(sorted(nodes[n][0].items())), tuple(num[i] for i in nodes[n][1])))
                continue
            stack.append((n, True))
            for i in reversed(nodes[n][1]):
                if i not in num:
                    stack.append((i, False))
    return [num[i] for i in inputs], [num[o] for o in outputs], recs


def key(v):
    """tensor value as a hashable"""
    if isinstance(v, Packed):
        return tuple(key(x) for x in v)
    return (v.dt, v.shape, v.raw)
