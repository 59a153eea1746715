"""C20: damaged or hostile model data."""
import os, struct, tempfile
import numpy as np
import layout as L
import ops.all
from opspec import SPECS, make_case
from runner import Check
from tsx import T, Packed, TsError, Crash, ITEM, NP, asan_env
from checks.c10 import hurt_tensor
from checks.c19 import gen_nodes, expect_params, value, text, name

U32 = [0, 1, 2, 3, 7, 8, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x0fffffff, 0x10000000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff]


def structural(rng):
    """bytes of a valid module of arbitrary nodes"""
    nodes = gen_nodes(rng, 1, 9)
    outs = [int(x) for x in rng.integers(0, len(nodes), int(rng.integers(1, 3)))]
    return write(nodes, outs)


def write(nodes, outs, ins=None):
    reach, todo = set(), list(outs)
    while todo:
        n = todo.pop()
        if n not in reach:
            reach.add(n)
            todo += nodes[n][4]
    if ins is None:
        ins = [n for n in sorted(reach) if nodes[n][0] == "p"]
    recs = []
    for kind, nm, op, ps, i in nodes:
        p = [(k.encode() if isinstance(k, str) else k, v) for k, v in ps]
        p += [(b"#op", text({"p": b"<param>", "c": b"<const>"}.get(kind, op if isinstance(op, bytes) else op.encode()))), (b"#name", text(nm))]
        recs.append((p, i))
    return L.w_module(ins, outs, recs)


def real(rng, hurt, skip=()):
    """a module around a real operator: (bytes, inputs)"""
    s = SPECS[str(rng.choice([k for k in sorted(SPECS) if SPECS[k].op not in skip]))]
    c = make_case(s, rng)
    ps = [[k, v] for k, v in c["params"]]
    xs = list(c["inputs"])
    if hurt:
        for _ in range(int(rng.choice([1, 1, 2]))):
            if ps and rng.random() < 0.6:
                k = int(rng.integers(len(ps)))
                ps[k] = [ps[k][0], hurt_tensor(rng, ps[k][1], True)]
            elif xs:
                k = int(rng.integers(len(xs)))
                xs[k] = hurt_tensor(rng, xs[k], s.op == "roi_align")
    if s.op == "roi_align":     # the work grows with sampling_ratio squared, by definition
        for q in ps:
            if isinstance(q[1], T) and q[1].dt in NP and q[1].dt != 13:
                q[1] = T.of(np.minimum(q[1].np, 12).astype(q[1].np.dtype), q[1].dt)
    nodes, ins, feed = [], [], []
    for k, x in enumerate(xs):
        if rng.random() < 0.5 or (k == 0 and rng.random() < 0.7):
            nodes.append(["p", b"in%d" % k, "", [], []])
            feed.append(x)
        else:
            nodes.append(["c", b"k%d" % k, "", [["value", x]], []])
    nodes.append(["o", b"op", s.op, ps, list(range(len(xs)))])
    if rng.random() < 0.3:
        nodes.append(["o", b"post", str(rng.choice(["relu", "flatten", "_shape", "exp"])), [], [len(nodes) - 1]])
    if rng.random() < 0.2:
        nodes.append(["o", b"post2", "add", [], [len(nodes) - 1, len(nodes) - 1]])
    return write(nodes, [len(nodes) - 1]), feed


def damage(rng, data, marks):
    b = bytearray(data)
    for _ in range(int(rng.choice([1, 1, 1, 2, 3]))):
        k = int(rng.integers(0, 10))
        if k <= 4 and marks:
            p, kind = marks[int(rng.integers(len(marks)))]
            if p < len(b):
                if kind == "dtype":
                    b[p] = int(rng.choice([0, 1, 10, 11, 12, 13, 20, 24, 32, 33, 34, 127, 128, 255]))
                else:
                    old = struct.unpack_from("<I", b, p)[0] if p + 4 <= len(b) else 0
                    v = int(rng.choice(U32)) if rng.random() < 0.6 else (old + int(rng.choice([-2, -1, 1, 2, 256]))) & 0xffffffff
                    if p + 4 <= len(b):
                        struct.pack_into("<I", b, p, v)
        elif k == 5:
            p = int(rng.integers(len(b)))
            b[p] ^= 1 << int(rng.integers(8))
        elif k == 6:
            p = int(rng.integers(len(b)))
            b[p] = int(rng.integers(256))
        elif k == 7:
            p, q = sorted(int(x) for x in rng.integers(0, len(b) + 1, 2))
            q = min(q, p + 40)
            b[p:q] = b""
        elif k == 8:
            p = int(rng.integers(len(b) + 1))
            b[p:p] = rng.bytes(int(rng.integers(1, 12)))
        else:
            p, q = [int(x) for x in rng.integers(0, len(b) + 1, 2)]
            n = int(rng.integers(1, 60))
            b[p:p + n] = b[q:q + n]
        if not b:
            b = bytearray(b"\0")
    return bytes(b)


def marks_of(data):
    r = L.Rd(data)
    r.module()
    return r.marks


def strict(data):
    """what an independent reader makes of the bytes: (inputs, outputs, nodes) or None when damaged"""
    try:
        r = L.Rd(data)
        h, i, o, ns = r.module()
    except L.Bad:
        return None
    if h[1] != L.CODE:
        return None
    if any(x >= len(ns) for x in i + o) or any(x >= len(ns) for p, q in ns for x in q):
        return None
    return i, o, ns


class CHECK(Check):
    rule = ("prefix cases: every (or 80 sampled) proper prefix of a valid module or tensor file must be reported as an error, "
            "through memory, file and both loaders. bytes cases: counts, lengths, extents, types and indices overwritten, "
            "bytes flipped, removed, inserted, duplicated; an independent reader decides whether the bytes still are a "
            "module, and an accepted module must equal what that reader sees. cyclic cases: index cycles. run cases: modules "
            "around a real operator, damaged in their bytes or their values, loaded, compiled with varying options and run. "
            "Everything under ASan+UBSan with allocation requests recorded. distinct = different bytes")
    assumptions = ["while running damaged models, allocations beyond 64 MB are refused by the harness and signed overflow in "
                   "parameter arithmetic is only counted as a violation when it leads to a memory error, a crash or a hang"]

    def plan(self, tier):
        k = 1 if tier == "quick" else 30
        return [("prefix", 250 * k), ("bytes", 6000 * k), ("tensor", 3000 * k), ("random", 1000 * k), ("cyclic", 500 * k),
                ("claims", 600 * k), ("run", 6000 * k), ("runbytes", 4000 * k), ("deep", 4)]

    def gen(self, group, rng, i, tier):
        if group == "prefix":
            if rng.random() < 0.3:
                return dict(data=L.w_packed(value(rng)), kind="tensor")
            return dict(data=structural(rng) if rng.random() < 0.6 else real(rng, False)[0], kind="module",
                        how=int(rng.integers(0, 3)), pick=int(rng.integers(1 << 30)))
        if group == "bytes":
            d = structural(rng)
            return dict(data=damage(rng, d, marks_of(d)), compile=bool(rng.random() < 0.3))
        if group == "tensor":
            d = L.w_packed(value(rng))
            r = L.Rd(d)
            r.packed()
            return dict(data=damage(rng, d, r.marks))
        if group == "random":
            d = rng.bytes(int(rng.choice([0, 1, 3, 4, 8, 100, 128, 132, 200, 1000])))
            return dict(data=d if rng.random() < 0.3 else L.w_header() + d, compile=False)
        if group == "claims":
            # little data that claims to be much
            claim = L.u32(int(rng.choice([0x7fffffff, 0xffffffff, 0x20000000, 0x08000000, 0x01000000])))
            k = int(rng.integers(0, 6))
            h = L.w_header()
            node = L.u32(2) + L.w_string(b"#op") + L.w_packed(text(b"<param>")) + L.w_string(b"#name") + L.w_packed(text(b"x"))
            one = L.u32(1) + L.u32(0)
            d = [h + claim, h + one + claim, h + one + one + claim, h + one + one + L.u32(1) + claim,
                 h + one + one + L.u32(1) + node + claim,
                 h + one + one + L.u32(1) + L.u32(3) + L.w_string(b"p") + L.u32(1) + bytes([int(rng.choice([1, 10, 11, 20, 0]))]) + L.u32(1) + claim][k]
            if k == 5 and rng.random() < 0.5:
                d = h + one + one + L.u32(1) + L.u32(3) + L.w_string(b"p") + L.u32(1) + b"\x0a" + L.u32(2) + L.u32(int(rng.choice([65536, 40000]))) * 2
            if k == 4 and rng.random() < 0.3:
                d = h + one + one + L.u32(1) + L.u32(1) + claim
            return dict(data=d + b"\0" * int(rng.integers(0, 64)), compile=False)
        if group == "cyclic":
            nodes = [n for n in gen_nodes(rng, 3, 10)]
            ops = [k for k, n in enumerate(nodes) if n[0] == "o"]
            if not ops:
                nodes.append(["o", b"o", b"add", [], [0, 0]])
                ops = [len(nodes) - 1]
            for _ in range(int(rng.integers(1, 3))):
                k = int(rng.choice(ops))
                nodes[k][4] = [int(rng.integers(len(nodes))) for _ in range(int(rng.integers(0, 4)))] + ([k] if rng.random() < 0.3 else [])
            if rng.random() < 0.2:      # end points with inputs
                k = int(rng.integers(len(nodes)))
                nodes[k][4] = [int(rng.integers(len(nodes)))]
            outs = [int(x) for x in rng.integers(0, len(nodes), int(rng.integers(0, 3)))]
            ins = [int(x) for x in rng.integers(0, len(nodes), int(rng.integers(0, 3)))] if rng.random() < 0.3 else None
            if rng.random() < 0.5:
                for n in nodes:
                    if n[0] == "o":
                        n[2] = str(rng.choice(["add", "relu", "concat", "sub"]))
                        n[3] = [["dim", T.of(0)]]
                    if n[0] == "c":
                        n[3] = [["value", T.of(np.float32([1, 2]))]]
            return dict(data=write(nodes, outs, ins), compile=True, nin=len(nodes))
        if group == "deep":
            return dict(n=[1000, 1300, 30000, 40000][i % 4], ladder=bool(i % 2))
        data, feed = real(rng, group == "run", ("roi_align",) if group == "runbytes" else ())
        if group == "runbytes":
            marks = [m for m in marks_of(data) if m[0] >= 128]
            data = damage(rng, data, marks)
        return dict(data=data, feed=feed, options=str(rng.choice(["", "", "", "--no-pack", "--float16", "--filter", "--winograd"])))

    def server(self, ctx, group):
        if group in ("run", "runbytes"):
            env = asan_env()
            env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=0"
            return ctx.servers.get(("asan", "run")) or self.start(ctx, env)
        return ctx.server("asan", "tsx", env=asan_env({"ASAN_OPTIONS": asan_env()["ASAN_OPTIONS"].replace("max_allocation_size_mb=8192", "max_allocation_size_mb=48")}))

    def start(self, ctx, env):
        from tsx import Server
        s = Server(ctx.path("asan", "tsx"), env=env, timeout=45)
        ctx.servers[("asan", "run")] = s
        return s

    def run(self, ctx, group, case, out):
        srv = self.server(ctx, group)
        srv.call("reset")
        srv.call("alloc_limit", 64 << 20)
        srv.call("alloc_stats")
        if group == "deep":
            nodes = [["p", b"x", "", [], []]]
            for k in range(case["n"]):
                nodes.append(["o", b"n%d" % k, "add", [], [k, max(0, k - 1)]] if case["ladder"] else ["o", b"n%d" % k, "relu", [], [k]])
            case = dict(data=write(nodes, [case["n"]]), feed=None, large=case["n"] >= 30000)
        data = case["data"]
        try:
            if group == "prefix":
                self.prefix(srv, case, out)
            elif group == "tensor":
                self.tensor(srv, case, out)
            else:
                self.module(srv, group, case, out)
        except TsError as e:
            if e.kind not in ("ts", "std"):
                out.bad(group + ":exception-kind", "%s %s" % (e.kind, e.msg))
            out.see("rejected")
        if group not in ("run", "runbytes"):
            peak = srv.call("alloc_stats")[4]
            if peak > (1 << 21) + 64 * len(data):
                out.bad(group + ":memory", "asked for %d bytes at once with %d bytes of data" % (peak, len(data)))
        out.sig = data[:4000]

    def refused(self, srv, *req):
        try:
            srv.call(*req)
            return False
        except TsError:
            return True

    def prefix(self, srv, case, out):
        data = case["data"]
        if case["kind"] == "tensor":
            cuts = range(len(data)) if len(data) < 120 else sorted(set(int(x) for x in np.linspace(0, len(data) - 1, 80)))
            for n in cuts:
                if not self.refused(srv, "tensor_parse", data[:n], 1, 0):
                    out.bad("prefix:tensor", "%d of %d bytes accepted" % (n, len(data)))
            out.see("prefixes", len(cuts))
            return
        rng = np.random.default_rng(case["pick"])
        cuts = sorted(set([0, 1, 4, 8, 127, 128, 129, len(data) - 1, len(data) - 4] + [int(x) for x in rng.integers(0, len(data), 70)]))
        cuts = [c for c in cuts if 0 <= c < len(data)]
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, "m.tsm")
            for n in cuts:
                if case["how"] == 0:
                    ok = self.refused(srv, "module_load", data[:n], 0)
                elif case["how"] == 1:
                    ok = self.refused(srv, "module_load_v2", data[:n], 0)
                else:
                    with open(p, "wb") as f:
                        f.write(data[:n])
                    ok = self.refused(srv, "module_load_file", p) and self.refused(srv, "module_load_file_v2", p)
                if not ok:
                    out.bad("prefix:module", "%d of %d bytes accepted (way %d)" % (n, len(data), case["how"]))
            out.see("prefixes", len(cuts))

    def tensor(self, srv, case, out):
        data = case["data"]
        try:
            r = L.Rd(data)
            want = r.packed()
            used = r.p
        except L.Bad:
            want = None
        back, pos, ret = srv.call("tensor_parse", data, 1, 0)
        out.see("accepted")
        if want is None:
            out.bad("tensor:accepted", "damaged tensor accepted: %r -> %r" % (data[:200], back[0]))
        elif want == Packed([]):
            if back[0] != T(0, (), b""):
                out.bad("tensor:empty", "%r" % back[0])
        elif L.key(want) != L.key(back[0]) or pos[0] != used:
            out.bad("tensor:value", "%r %r" % (want, back[0]))

    def module(self, srv, group, case, out):
        data = case["data"]
        want = strict(data)
        h, pos = srv.call("module_load", data, 0)
        out.see("accepted")
        if want is None:
            out.bad(group + ":accepted", "damaged module accepted: %r" % data[:400])
            return
        desc = srv.call("module_desc", h)
        self.compare(want, desc, group, out)
        if case.get("compile") is False:
            return
        out.see("compiled")
        w = srv.call("wb_new", h, case.get("options", ""), 2)
        n = srv.call("wb_counts", w)
        for k in range(n[0]):
            f = case.get("feed") or [T.of(np.float32([1, 2, 3]))]
            srv.call("wb_input", w, k, f[k % len(f)])
        srv.call("wb_run", w)
        out.see("ran to the end")
        for k in range(n[1]):
            srv.call("wb_output", w, k)

    def compare(self, want, desc, group, out):
        i, o, ns = want
        def first(p):
            d = {}
            for k, v in p:
                d.setdefault(k, v)
            return d
        ns = [(first(p), q) for p, q in ns]
        nodes, names, outs, ins = desc
        if len(i) != len(ins) or len(o) != len(outs):
            out.bad(group + ":counts", "%r %r" % (want[:2], desc[1:]))
            return
        # walk both graphs together
        seen, todo = set(), list(zip(o + i, outs + ins))
        while todo:
            a, b = todo.pop()
            if (a, b) in seen:
                continue
            seen.add((a, b))
            pa, pb = ns[a][0], dict((k, v) for k, v in nodes[b][3])
            for k in set(pa) | set(pb):
                if k in (b"#op", b"#name") and k not in pa:
                    continue
                va = pa.get(k)
                if va is not None and va == Packed([]):
                    va = T(0, (), b"")
                if va is None or k not in pb or L.key(va) != L.key(pb[k]):
                    out.bad(group + ":value", "param %r: %r became %r" % (k, va, pb.get(k)))
            if len(ns[a][1]) != len(nodes[b][4]):
                out.bad(group + ":links", "%r %r" % (ns[a][1], nodes[b][4]))
            elif -1 not in nodes[b][4]:
                todo += list(zip(ns[a][1], nodes[b][4]))

    def crash_key(self, group, case, crash):
        if group == "deep":
            return "deep:%s:%s" % ("large" if case["n"] >= 30000 else "small", crash.kind.split("@")[0])
        return "%s:%s" % (group, crash.kind)
