"""C19: saving and loading gives back the same object, in the published layout."""
import os, tempfile
import numpy as np
import layout as L
from runner import Check
from tsx import T, Packed, TsError, ITEM, DT

EXT = [0, 1, 1, 2, 3, 4, 5, 7, 16]
WORDS = ["", "a", "x", "weights", "#meta", "\x00", "value", "padding", "device", "名前", "a b", "-", "conv/1:0"]


def tensor(rng, big=False):
    dt = int(rng.choice(sorted(ITEM)))
    while True:
        shape = [int(rng.choice(EXT)) for _ in range(int(rng.integers(0, 8)))]
        if np.prod(shape, dtype=np.int64) <= 3000:
            break
    if big:
        dt = int(rng.choice([1, 3, 10, 11, 20]))
        shape = [int(rng.integers(1, 4)), int(rng.integers(300000, 900000))]
    n = int(np.prod(shape, dtype=np.int64)) * ITEM[dt]
    return T(dt, shape, rng.bytes(n))


def value(rng):
    if rng.random() < 0.2:
        return Packed(tensor(rng) for _ in range(int(rng.integers(2, 6))))
    return tensor(rng)


def name(rng):
    k = rng.integers(0, 6)
    if k == 0:
        return rng.bytes(int(rng.integers(0, 40)))
    if k == 1:
        return b"n" * int(rng.choice([31, 32, 33, 255, 256, 1000]))
    return str(rng.choice(WORDS)).encode() + (str(int(rng.integers(0, 30))).encode() if rng.random() < 0.5 else b"")


RESERVED = (b"#op", b"#name", b"#shape", b"#dtype", b"#output_count")


def params(rng, most=5):
    d = {}
    for _ in range(int(rng.integers(0, most))):
        k = name(rng)
        if k not in RESERVED:
            d[k] = value(rng)
    return [[k, v] for k, v in d.items()]


def text(b):
    return T(13, (len(b),), b)


def gen_nodes(rng, lo=1, hi=14):
    nodes = []
    for i in range(int(rng.integers(lo, hi))):
        r = rng.random()
        if i == 0 or r < 0.2:
            ps = params(rng, 3)
            if rng.random() < 0.4:
                ps.append(["#dtype", T.of([int(rng.choice(sorted(ITEM)))])])
            if rng.random() < 0.4:
                ps.append(["#shape", T.of([int(x) for x in rng.integers(-1, 9, int(rng.integers(1, 6)))])])
            nodes.append(["p", b"in%d" % i if rng.random() < 0.7 else name(rng) + b"~%d" % i, "", ps, []])
        elif r < 0.4:
            nodes.append(["c", name(rng), "", [["value", value(rng)]], []])
        else:
            ins = [int(x) for x in rng.integers(0, i, int(rng.integers(1, 5)))]
            op = name(rng)
            while op in (b"<param>", b"<const>", b"<var>"):
                op = name(rng)
            nodes.append(["o", name(rng), op, params(rng), ins])
    return nodes


def expect_params(n):
    """the parameters a node of the specification has to have"""
    kind, nm, op, ps, ins = n
    d = {(k.encode() if isinstance(k, str) else k): L.key(v) for k, v in ps}
    d[b"#op"] = L.key(text({"p": b"<param>", "c": b"<const>"}.get(kind, op)))
    d[b"#name"] = L.key(text(nm))
    return d


def spec_canon(nodes, ins, outs):
    return L.canon(ins, outs, [(expect_params(n), n[4]) for n in nodes])


def parsed_canon(ins, outs, nodes):
    return L.canon(ins, outs, [({k: L.key(v) for k, v in p}, i) for p, i in nodes])


def desc_canon(d, out=None):
    nodes, names, outs, ins = d
    if out is not None:
        for op, nm, depth, ps, i, shape, dtype, tops in nodes:
            p = dict((k, v) for k, v in ps)
            if bytes(p[b"#op"].raw) != op or bytes(p[b"#name"].raw) != nm:
                out.bad("names", "%r %r %r" % (op, nm, p))
            if b"#shape" in p and shape != [int(x) for x in p[b"#shape"].np.ravel()]:
                out.bad("shape", "%r %r" % (shape, p[b"#shape"]))
            if b"#shape" not in p and shape:
                out.bad("shape", "%r but no #shape" % shape)
            if dtype != (int(p[b"#dtype"].np.ravel()[0]) if b"#dtype" in p else 0):
                out.bad("dtype", "%r" % dtype)
    return L.canon(ins, outs, [({k: L.key(v) for k, v in ps}, i) for op, nm, depth, ps, i, shape, dtype, tops in nodes])


class CHECK(Check):
    rule = ("tensor cases: a list of tensors of every element type (any bits, up to 7 dimensions, empty extents, packed) "
            "written one after the other and read back whole or in pieces; bytes compared with an independent encoder of the "
            "published layout. bubble/graph/module cases: random nodes with arbitrary names, parameters, shared and repeated "
            "inputs, saved, parsed by an independent reader, loaded by the library, saved again. written cases: modules "
            "written by the independent encoder in a random node order and loaded. compute cases: loaded and original "
            "modules run on the same inputs. distinct = different structure")

    def plan(self, tier):
        k = 1 if tier == "quick" else 25
        return [("tensor", 4000 * k), ("large", 16 * k), ("file", 300 * k), ("bubble", 1500 * k), ("graph", 1500 * k),
                ("module", 3000 * k), ("written", 2000 * k), ("header", 60 * k), ("compute", 400 * k)]

    def gen(self, group, rng, i, tier):
        if group in ("tensor", "large"):
            return dict(ts=[tensor(rng, True) for _ in range(2)] if group == "large" else [value(rng) for _ in range(int(rng.integers(1, 6)))],
                        chunk=int(rng.choice([0, 0, 1, 2, 3, 5, 64])) if group == "tensor" else int(rng.choice([0, 4096, 1000003])))
        if group == "file":
            return dict(t=value(rng))
        if group == "bubble":
            return dict(op=name(rng), name=name(rng), params=params(rng, 8),
                        used=[name(rng), name(rng), params(rng, 8) + ([["#dtype", T.of([10])], ["#shape", T.of([2, -1])]] if rng.random() < 0.5 else [])]
                        if rng.random() < 0.6 else [])
        if group == "graph":
            return dict(graphs=[gen_nodes(rng, 1, 8) for _ in range(int(rng.integers(1, 4)))], chunk=int(rng.choice([0, 0, 1, 3, 64])))
        if group == "header":
            return dict(fake=int(rng.integers(0, 1 << 32)), code=int(rng.integers(0, 1 << 32)), data=rng.bytes(120))
        if group == "compute":
            nodes = [["p", b"x", "", [], []], ["p", b"y", "", [], []], ["c", b"k", "", [["value", T.of(rng.normal(size=3).astype(np.float32))]], []]]
            for j in range(int(rng.integers(1, 8))):
                a, b = [int(x) for x in rng.integers(0, len(nodes), 2)]
                if rng.random() < 0.5:
                    nodes.append(["o", b"o%d" % j, str(rng.choice(["add", "sub", "mul", "maximum"])), [], [a, b]])
                else:
                    nodes.append(["o", b"o%d" % j, str(rng.choice(["relu", "sigmoid", "tanh", "abs", "square"])), [], [a]])
            outs = [int(x) for x in rng.integers(3, len(nodes), int(rng.integers(1, 4)))]
            return dict(nodes=nodes, outs=outs, x=T.of(rng.normal(size=3).astype(np.float32)), y=T.of(rng.normal(size=(2, 3)).astype(np.float32)),
                        perm=bool(rng.random() < 0.5), file=bool(rng.random() < 0.5))
        nodes = gen_nodes(rng)
        outs = [int(x) for x in rng.integers(0, len(nodes), int(rng.integers(1, 5)))]
        if rng.random() < 0.7:
            outs[0] = len(nodes) - 1
        reach, todo = set(), list(outs)
        while todo:
            n = todo.pop()
            if n not in reach:
                reach.add(n)
                todo += nodes[n][4]
        ins = [n for n in sorted(reach) if nodes[n][0] == "p"]
        if group == "written":
            ins += [n for n in range(len(nodes)) if nodes[n][0] == "p" and n not in reach and rng.random() < 0.5]
            if ins and rng.random() < 0.1:
                ins.append(ins[0])
        ins = [ins[k] for k in rng.permutation(len(ins))]
        c = dict(nodes=nodes, outs=outs, ins=ins, chunk=int(rng.choice([0, 0, 1, 7])))
        if group == "written":
            c["order"] = [int(x) for x in rng.permutation(len(nodes))]
            c["shuffle"] = int(rng.integers(0, 1 << 30))
            c["data"] = rng.bytes(120) if rng.random() < 0.3 else b"\0" * 120
            c["fake"] = int(rng.choice([0, 0, 1, 0x46]))
        else:
            c["named"] = bool(rng.random() < 0.6)
            c["how"] = int(rng.integers(0, 3))
        return c

    def run(self, ctx, group, case, out):
        srv = ctx.server()
        try:
            getattr(self, "do_" + ("tensor" if group == "large" else group))(srv, case, out)
        except TsError as e:
            out.bad(group + ":error", "%s %s" % (e.kind, e.msg))
        srv.call("reset")
        out.sig = repr(case)[:4000] if group != "large" else case["ts"][0].shape

    def do_tensor(self, srv, case, out):
        want = [L.w_packed(t) for t in case["ts"]]
        data, total = srv.call("tensor_bytes", case["ts"])
        if data != b"".join(want):
            out.bad("tensor:layout", "%r\nwant %r\ngot  %r" % (case["ts"], b"".join(want)[:400], data[:400]))
        if total != len(data):
            out.bad("tensor:written", "returned %d, wrote %d" % (total, len(data)))
        extra = b"\xee" * 9
        back, pos, ret = srv.call("tensor_parse", b"".join(want) + extra, len(want), case["chunk"])
        at = 0
        for t, b, p, r, w in zip(case["ts"], back, pos, ret, want):
            at += len(w)
            if L.key(t) != L.key(b):
                out.bad("tensor:value", "%r came back as %r" % (t, b))
            if p != at or r != len(w):
                out.bad("tensor:consumed", "%r: position %d, expected %d; returned %d of %d" % (t, p, at, r, len(w)))
        out.see("tensors", len(want))

    def do_file(self, srv, case, out):
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, "t.bin")
            back = srv.call("tensor_file", p, case["t"])
            if L.key(back) != L.key(case["t"]):
                out.bad("file:value", "%r %r" % (case["t"], back))
            if open(p, "rb").read() != L.w_packed(case["t"]):
                out.bad("file:layout", "%r" % case["t"])

    def do_bubble(self, srv, case, out):
        data, wrote, read, op, nm, ps, orig, pos, shape, dtype = srv.call("bubble_roundtrip", case["op"], case["name"], case["params"], *case["used"])
        if (wrote, read, pos) != (len(data),) * 3:
            out.bad("bubble:consumed", "%r" % ((wrote, read, pos, len(data)),))
        want = expect_params(["o", case["name"], case["op"], case["params"], []])
        got = {k: L.key(v) for k, v in ps}
        if shape or dtype:
            out.bad("bubble:shape", "%r %r without such parameters" % (shape, dtype))
        if (op, nm) != (case["op"], case["name"]) or got != want:
            out.bad("bubble:value", "%r\n%r" % (case, (op, nm, ps)))
        r = L.Rd(data)
        seen = r.bubble()
        if {k: L.key(v) for k, v in seen} != want or r.p != len(data) or len(seen) != len(want):
            out.bad("bubble:layout", "%r\n%r" % (case, data[:500]))

    def do_graph(self, srv, case, out):
        data, wrote, back = srv.call("graph_roundtrip", case["graphs"], case["chunk"])
        r = L.Rd(data)
        for g, w, (pos, ret, nodes) in zip(case["graphs"], wrote, back):
            start = r.p
            seen = r.graph()
            want = [(expect_params(n), n[4]) for n in g]
            if [({k: L.key(v) for k, v in p}, i) for p, i in seen] != want:
                out.bad("graph:layout", "%r\n%r" % (want, seen))
            if [({k: L.key(v) for k, v in n[3]}, n[4]) for n in nodes] != want:
                out.bad("graph:value", "%r\n%r" % (want, nodes))
            for k, n in enumerate(nodes):
                tops = sorted(j for j, m in enumerate(g) for i in m[4] if i == k)
                if sorted(n[7]) != tops:
                    out.bad("graph:consumers", "node %d: %r, expected %r" % (k, n[7], tops))
            if w != r.p - start or ret != w or pos != r.p:
                out.bad("graph:consumed", "%r" % ((w, ret, pos, r.p),))
        if r.p != len(data):
            out.bad("graph:rest", "%d of %d" % (r.p, len(data)))

    def do_header(self, srv, case, out):
        data, wrote, read, fake, code, rest = srv.call("header", case["fake"], case["code"], case["data"])
        if data != L.w_header(case["code"], case["fake"], case["data"]) or (wrote, read) != (128, 128):
            out.bad("header:layout", "%r %r" % (case, data))
        if (fake, code, rest) != (case["fake"], case["code"], case["data"]):
            out.bad("header:value", "%r" % case)

    def do_module(self, srv, case, out):
        nodes, outs, ins = case["nodes"], case["outs"], case["ins"]
        m = srv.call("module_new", nodes, outs, [nodes[i][1] for i in ins] if case["named"] else None)
        d0 = srv.call("module_desc", m)
        if not case["named"]:
            # the order is the library's choice, but has to be kept from here on
            pos = {nodes[i][1]: i for i in ins}
            if sorted(d0[1]) != sorted(pos):
                out.bad("module:inputs", "%r, expected %r" % (d0[1], sorted(pos)))
                return
            ins = [pos[n] for n in d0[1]]
        want = spec_canon(nodes, ins, outs)
        data = srv.call("module_bytes", m)
        if data != srv.call("module_bytes", m):
            out.bad("module:deterministic", "two saves differ")
        try:
            r = L.Rd(data)
            h, i, o, ns = r.module()
        except (L.Bad, IndexError) as e:
            out.bad("module:layout", "%r: %s" % (data[:300], e))
            return
        if h != (0, L.CODE, b"\0" * 120):
            out.bad("module:header", "%r" % (h,))
        if r.p != len(data):
            out.bad("module:rest", "%d of %d" % (r.p, len(data)))
        if parsed_canon(i, o, ns) != want:
            out.bad("module:layout", "%r\n%r" % (want, (i, o, ns)))
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, "m.tsm")
            srv.call("module_save_file", m, p)
            if open(p, "rb").read() != data:
                out.bad("module:file", "file and memory differ")
            loaded = []
            if case["how"] == 0:
                for h, pos in srv.call("module_load_many", data + data, 2, case["chunk"]):
                    loaded.append(h)
                if pos != 2 * len(data):
                    out.bad("module:consumed", "%d of %d" % (pos, 2 * len(data)))
            elif case["how"] == 1:
                loaded += [srv.call("module_load_file", p), srv.call("module_load_file_v2", p)]
            else:
                h, pos = srv.call("module_load_v2", data + b"\xdd" * 5, case["chunk"])
                loaded.append(h)
                if pos != len(data):
                    out.bad("module:consumed", "%d of %d" % (pos, len(data)))
            for h in loaded:
                d2 = srv.call("module_desc", h)
                if desc_canon(d2, out) != want:
                    out.bad("module:value", "%r\n%r" % (want, desc_canon(d2)))
                again = srv.call("module_bytes", h)
                r = L.Rd(again)
                _, i, o, ns = r.module()
                if parsed_canon(i, o, ns) != want or r.p != len(again):
                    out.bad("module:again", "%r\n%r" % (want, (i, o, ns)))
                out.see("modules loaded")

    def do_written(self, srv, case, out):
        rng = np.random.default_rng(case["shuffle"])
        order = case["order"]                    # order[k] = node stored at place k
        place = {n: k for k, n in enumerate(order)}
        recs = []
        for n in order:
            kind, nm, op, ps, i = case["nodes"][n]
            p = [(k.encode() if isinstance(k, str) else k, v) for k, v in ps]
            p += [(b"#op", text({"p": b"<param>", "c": b"<const>"}.get(kind, op if isinstance(op, bytes) else op.encode()))), (b"#name", text(nm))]
            p = [p[k] for k in rng.permutation(len(p))]
            recs.append((p, [place[x] for x in i]))
        data = L.w_module([place[i] for i in case["ins"]], [place[o] for o in case["outs"]], recs,
                          L.w_header(fake=case["fake"], data=case["data"]))
        want = spec_canon(case["nodes"], case["ins"], case["outs"])
        h, pos = srv.call("module_load", data, case["chunk"])
        if pos != len(data):
            out.bad("written:consumed", "%d of %d" % (pos, len(data)))
        got = desc_canon(srv.call("module_desc", h), out)
        if got != want:
            out.bad("written:value", "%r\n%r" % (want, got))
        again = srv.call("module_bytes", h)
        _, i, o, ns = L.Rd(again).module()
        if parsed_canon(i, o, ns) != want:
            out.bad("written:again", "%r\n%r" % (want, (i, o, ns)))

    def do_compute(self, srv, case, out):
        used, todo = set(), list(case["outs"])
        while todo:
            n = todo.pop()
            if n not in used:
                used.add(n)
                todo += case["nodes"][n][4]
        names = [n for i, n in ((0, "x"), (1, "y")) if i in used]
        if case["perm"]:
            names = names[::-1]
        m = srv.call("module_new", case["nodes"], case["outs"], names)
        if case["file"]:
            with tempfile.TemporaryDirectory() as d:
                p = os.path.join(d, "m.tsm")
                srv.call("module_save_file", m, p)
                k = srv.call("module_load_file", p)
        else:
            k = srv.call("module_load", srv.call("module_bytes", m))[0]
        res = []
        for h in (m, k):
            w = srv.call("wb_new", h, "", 1)
            for j, n in enumerate(names):
                srv.call("wb_input", w, j, case[n])
            srv.call("wb_run", w)
            res.append([L.key(srv.call("wb_output", w, j)) for j in range(len(case["outs"]))])
        if res[0] != res[1]:
            out.bad("compute:differs", "%r\n%r" % (case, res))
        out.see("outputs compared", len(case["outs"]))
