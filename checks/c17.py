"""C17: memory managers never hand out overlapping memory and give everything back."""
from runner import Check
import ops.all  # noqa
from tsx import T
import numpy as np

KINDS = ["dynamic", "vat", "dynamic sync", "flow sync", "stack"]
BIG = 1 << 32


class Storage:
    def __init__(self, size, dev, seed):
        self.size, self.dev, self.seed, self.addr = size, dev, seed, None


class Block:
    """what SyncMemory copies share: a default device and a map of synchronised storages"""

    def __init__(self, param, dev, hoards):
        self.param, self.dev, self.hoards = param, dev, hoards


class Handle:
    def __init__(self, st=None, block=None, usage=None, weak=False):
        self.st, self.block, self.usage, self.weak = st, block, usage, weak

    @property
    def storage(self):
        return self.block.param[self.block.dev] if self.block else self.st


class Mem:
    def __init__(self):
        self.h, self.c, self.limit = {}, {}, BIG
        self.fired, self.usages = [], {}
        self.nu = 0
        self.hoards = False

    def usage(self):
        self.nu += 1
        return self.nu

    def owned(self, skip=()):
        out = set()
        for k, x in self.h.items():
            if k in skip or x.weak:
                continue
            if x.block:
                out.update(id(s) for s in x.block.param.values())
            else:
                out.add(id(x.st))
        return out

    def dangling(self, skip):
        own = self.owned(skip)
        return any(x.weak and k not in skip and id(x.st) not in own for k, x in self.h.items())

    def drop(self, k):
        x = self.h.pop(k)
        if x.usage is not None and not any(y.usage == x.usage for y in self.h.values()) and x.usage in self.usages:
            self.fired.append(self.usages.pop(x.usage))

    def do(self, op, forced=False):
        """-> accepted"""
        n, a = op[0], op[1:]
        limit = BIG if forced else self.limit
        if n == "ctrl":
            self.c[a[0]] = (a[1], a[2])
            self.hoards |= a[1] in (1, 3)
        elif n == "cclone":
            self.c[a[0]] = self.c[a[1]]
        elif n == "cdrop":
            del self.c[a[0]]
        elif n in ("alloc", "alloc_on", "memory"):
            if a[2] > limit:
                return False
            if n == "memory":
                kind, dev = 0, a[4]
            else:
                kind, dev = self.c[a[1]]
                if n == "alloc_on":
                    dev = a[4]
            s = Storage(a[2], dev, a[3])
            self.h[a[0]] = Handle(block=Block({dev: s}, dev, kind == 3)) if kind in (2, 3) else Handle(st=s, usage=self.usage())
        elif n in ("copy", "assign"):
            x = self.h[a[1]]
            self.h[a[0]] = Handle(x.st, x.block, x.usage, x.weak)
        elif n == "move":
            self.h[a[0]] = self.h.pop(a[1])
        elif n == "weak":
            self.h[a[0]] = Handle(st=self.h[a[1]].storage, weak=True)
        elif n == "swap":
            self.h[a[0]], self.h[a[1]] = self.h[a[1]], self.h[a[0]]
        elif n == "drop":
            self.drop(a[0])
        elif n == "write":
            self.h[a[0]].storage.seed = a[1]
        elif n == "dtor":
            x = self.h[a[0]]
            old = x.usage
            x.usage = self.usage()
            if old in self.usages and not any(y.usage == old for y in self.h.values()):
                self.fired.append(self.usages.pop(old))
            self.usages[x.usage] = a[1]
        elif n == "view":
            x = self.h[a[1]]
            if a[2] not in x.block.param:
                if x.storage.size > limit:
                    return False
                x.block.param[a[2]] = Storage(x.storage.size, a[2], x.storage.seed)
            self.h[a[0]] = Handle(block=Block(x.block.param, a[2], x.block.hoards))
        elif n == "broadcast":
            b = self.h[a[0]].block
            s = b.param[b.dev]
            b.param.clear()
            b.param[b.dev] = s
        elif n == "memcpy":
            d, s = self.h[a[0]].storage, self.h[a[1]].storage
            n = s.size if a[2] < 0 else a[2]
            return d.size >= n and s.size >= n
        elif n == "limit":
            self.limit = a[0]
        return True

    def may_fail(self, op):
        """a pool satisfies requests beyond the limit from what it holds"""
        n, a = op[0], op[1:]
        if n in ("alloc", "alloc_on"):
            return a[2] > self.limit and self.c[a[1]][0] in (1, 3)
        if n == "view":
            b = self.h[a[1]].block
            return a[2] not in b.param and b.param[b.dev].size > self.limit and b.hoards
        return False


def sizes(rng):
    k = rng.random()
    if k < 0.12:
        return 0
    if k < 0.6:
        return int(rng.integers(1, 40))
    if k < 0.9:
        return int(rng.choice([64, 65, 100, 128, 256, 500]))
    return int(rng.integers(1000, 20000))


def blocks_case(rng):
    m, ops, nid = Mem(), [], [0]

    def new():
        nid[0] += 1
        return nid[0]

    def emit(*op):
        ops.append(list(op))
        m.do(list(op))
    sized = bool(rng.random() < 0.5)
    pick = [int(x) for x in rng.choice(5, size=int(rng.integers(1, 4)))]
    few = [sizes(rng) for _ in range(4)]
    for _ in range(int(rng.integers(5, 70))):
        k = rng.random()
        hs = list(m.h)
        cs = list(m.c)

        def size():
            return int(rng.choice(few)) if sized else sizes(rng)
        if not cs or k < 0.06:
            emit("ctrl", new(), int(rng.choice(pick)), int(rng.choice([0, 0, 1, 2, 3])), int(rng.integers(2)))
        elif k < 0.08:
            c = int(rng.choice(cs))
            if m.c[c][0] in (2, 3):
                emit("cclone", new(), c)
        elif k < 0.12:
            emit("cdrop", int(rng.choice(cs)))
        elif k < 0.38:
            c = int(rng.choice(cs))
            emit("alloc", new(), c, size(), int(rng.integers(1, 250)))
        elif k < 0.42:
            c = int(rng.choice(cs))
            if m.c[c][0] in (2, 3):
                emit("alloc_on", new(), c, size(), int(rng.integers(1, 250)), int(rng.integers(4)))
            elif rng.random() < 0.5:
                emit("memory", new(), c, size(), int(rng.integers(1, 250)), int(rng.integers(4)))
        elif k < 0.44:
            if m.limit == BIG:
                emit("limit", int(rng.choice([0, 20, 100])))
            else:
                emit("limit", BIG)
        elif k < 0.45:
            emit("summary", int(rng.choice(cs)))
        elif not hs:
            continue
        elif k < 0.66:
            x = int(rng.choice(hs))
            if not m.dangling({x}):
                emit("drop", x)
        elif k < 0.72:
            x = int(rng.choice(hs))
            emit(str(rng.choice(["copy", "assign"])) if m.limit == BIG else "copy", new(), x)
        elif k < 0.75:
            emit("move", new(), int(rng.choice(hs)))
        elif k < 0.77:
            emit("weak", new(), int(rng.choice(hs)))
        elif k < 0.8:
            a, b = int(rng.choice(hs)), int(rng.choice(hs))
            if a != b and (m.h[a].block is None) == (m.h[b].block is None):
                emit("swap", a, b)
        elif k < 0.86:
            emit("write", int(rng.choice(hs)), int(rng.integers(1, 250)))
        elif k < 0.88:
            x = int(rng.choice(hs))
            if not m.h[x].block and not m.h[x].weak:
                emit("dtor", x, new())
        elif k < 0.95:
            x = int(rng.choice(hs))
            if m.h[x].block:
                dev = int(rng.integers(4))
                if {dev, m.h[x].block.dev} in ({1, 3}, {2, 3}, {1, 2}) and rng.random() < 0.3:
                    dev = 0
                s = m.h[x].block.param.get(dev)
                share = next((i for i, y in m.h.items() if s is not None and y.storage is s), 0)
                if m.may_fail(["view", 0, x, dev]):
                    continue        # whether the pool still has a block decides: not known here
                emit("view", new(), x, dev, share, (s or m.h[x].storage).seed)
        elif k < 0.97:
            x = int(rng.choice(hs))
            b = m.h[x].block
            if b and not any(y.block and y.block is not b and y.block.param is b.param for y in m.h.values()):
                gone = [s for d, s in b.param.items() if d != b.dev]
                if not any(y.weak and any(y.st is s for s in gone) for y in m.h.values()):
                    emit("broadcast", x)
        else:
            a, b = int(rng.choice(hs)), int(rng.choice(hs))
            if m.h[a].storage is not m.h[b].storage:
                sa, sb = m.h[a].storage.size, m.h[b].storage.size
                emit("memcpy", a, b, int(rng.choice([-1, 0, min(sa, sb), max(sa, sb), sb])))
    return [ops, int(rng.integers(2)), int(rng.integers(2))]


def hard_case(rng):
    """model: id -> [device, capacity, owned by itself (0), borrowed (1), cpu function (2)]"""
    ops, live, nid, limit = [], {}, 0, BIG
    for _ in range(int(rng.integers(4, 40))):
        k = rng.random()
        ids = list(live)
        if k < 0.2 or not ids:
            nid += 1
            how = int(rng.integers(5))
            dev = 0 if how >= 3 else int(rng.integers(4))
            n = sizes(rng)
            ops.append(["new", nid, dev, n, how])
            if n > limit and how < 3:
                continue
            live[nid] = [dev, n, how]
            ops.append(["fill", nid, int(rng.integers(1, 250))])
            continue
        x = int(rng.choice(ids))
        if k < 0.6:
            name = str(rng.choice(["expect", "expect", "shrink", "resize", "resize"]))
            n = sizes(rng)
            if rng.random() < 0.3:
                n = max(0, live[x][1] + int(rng.integers(-2, 3)))
            if rng.random() < 0.03:
                n = 1 << 60
            ops.append([name, x, n])
            if live[x][2] == 4:
                continue
            cap = live[x][1]
            moves = n != cap if name == "resize" else n > cap if name == "expect" else n < cap
            if moves:
                failed = n >= 1 << 60 or (n > limit and live[x][2] < 3)
                if failed and name == "resize":
                    live[x][1] = 0
                elif not failed:
                    live[x][1] = n
                    if rng.random() < 0.7:
                        ops.append(["fill", x, int(rng.integers(1, 250))])
        elif k < 0.67:
            ops.append(["dispose", x])
            if live[x][2] != 4:
                live[x][1] = 0
        elif k < 0.77:
            ops.append(["drop", x])
            del live[x]
        elif k < 0.85:
            nid += 1
            ops.append(["move", nid, x])
            live[nid] = live.pop(x)
        elif k < 0.91:
            y = int(rng.choice(ids))
            if x != y:
                ops.append(["assign", x, y])
                live[x] = live.pop(y)
        elif k < 0.96:
            y = int(rng.choice(ids))
            if x != y:
                ops.append(["swap", x, y])
                live[x], live[y] = live[y], live[x]
        else:
            limit = BIG if limit != BIG else int(rng.choice([0, 20, 100]))
            ops.append(["limit", limit])
    return ops


def vat_case(rng):
    ops, live, n, nid = [["new"]], {}, 1, 0
    state = [dict(dead=False, gone=False)]
    for _ in range(int(rng.integers(5, 80))):
        k = rng.random()
        v = int(rng.integers(n))
        if state[v]["gone"]:
            continue
        mine = [i for i, x in live.items() if x == v]
        if k < 0.5:
            nid += 1
            size = sizes(rng)
            ops.append(["malloc", v, nid, size, int(rng.integers(1, 250))])
            if size:
                live[nid] = v
            else:
                ops.append(["free", v, nid])
        elif k < 0.85 and mine:
            i = int(rng.choice(mine))
            ops.append(["free", v, i])
            del live[i]
        elif k < 0.87:
            ops.append(["free_bad", v])
        elif k < 0.9:
            ops.append([str(rng.choice(["reset", "dispose"])), v, mine])
            for i in mine:
                del live[i]
        elif k < 0.93:
            ops.append(["clean", v])
        elif k < 0.94:
            ops.append(["deprecated", v])
        elif k < 0.96:
            w = int(rng.integers(n))
            if w != v and not state[w]["gone"]:
                ops.append(["swap", v, w])
                for i, x in live.items():
                    live[i] = w if x == v else v if x == w else x
        elif k < 0.97:
            ops.append(["move", v])
        elif k < 0.98 and n > 1:
            ops.append(["drop", v, mine])
            state[v]["gone"] = True
            for i in mine:
                del live[i]
        elif n < 3:
            ops.append(["new"])
            state.append(dict(dead=False, gone=False))
            n += 1
    return ops


def overlap(items):
    """items: (address, size, name), sizes > 0; -> first overlapping pair"""
    items = sorted(items)
    for a, b in zip(items, items[1:]):
        if a[0] + a[1] > b[0]:
            return a, b
    return None


class CHECK(Check):
    id = "C17"
    builds = {"asan": ["mem", "tsx"]}
    rule = ("random histories of every memory manager on four devices (the processor and three logged stand-in devices registered through the public registries), judged after every operation: "
            "sizes, alignment of handles with their storage, pairwise disjointness, contents, handle counts, destructor calls, device accounting; everything is dropped in random order at the end and "
            "every device has to have got back each block exactly once; running: whole workbenches, with the same accounting")
    assumptions = ["views other than the one being broadcast are dropped before a broadcast (documented)", "weak handles are dropped before the last owner"]

    def plan(self, tier):
        k = 1 if tier == "quick" else 15
        return [("blocks", 6000 * k), ("hard", 3000 * k), ("vat", 3000 * k), ("running", 250 * k)]

    def gen(self, group, rng, i, tier):
        if group == "blocks":
            return blocks_case(rng)
        if group == "hard":
            return hard_case(rng)
        if group == "vat":
            return vat_case(rng)
        return running_case(rng)

    def crash_key(self, group, case, crash):
        return "%s:%s" % (group, crash.kind)

    def run(self, ctx, group, case, out):
        if group == "running":
            running(ctx.server("asan", "tsx"), case, out)
        else:
            getattr(self, "r_" + group)(ctx.server("asan", "mem"), case, out)
        out.sig = (group, repr(case))

    def r_blocks(self, srv, case, out):
        ops, cfirst, last = case
        res, before, after, fired_end = srv.call("blocks", ops, cfirst, last)
        m = Mem()
        for k, (op, r) in enumerate(zip(ops, res)):
            status, what, live, fired, ub, un, vb, vn, bad = [r[0].decode(), r[1].decode(errors="replace")] + r[2:]
            ctl = KINDS[m.c[op[2]][0]] if op[0] in ("alloc", "alloc_on") else ""
            txt = "operation %d %s %s: " % (k, op, ctl)
            key = op[0] + (":" + ctl.replace(" ", "-") if ctl else "")
            ok = m.do(op, status == "ok" and m.may_fail(op))
            if (status == "ok") != ok or status == "std":
                out.bad(key + ":" + ("accepted" if status == "ok" else "rejected"), txt + (what or "accepted"))
                return
            want = m.h
            if sorted(x[0] for x in live) != sorted(want):
                out.bad(key + ":handles", txt + "handles %s instead of %s" % ([x[0] for x in live], sorted(want)))
                return
            spans = {}
            for i, addr, size, dev, content, uses in live:
                x = want[i]
                s = x.storage
                if size != s.size:
                    out.bad(key + ":size", txt + "block %d has %d bytes instead of %d" % (i, size, s.size))
                    return
                if dev != (x.block.dev if x.block else s.dev):
                    out.bad(key + ":device", txt + "block %d on device %d" % (i, dev))
                if s.size:
                    if s.addr is None:
                        s.addr = addr
                    if addr != s.addr:
                        out.bad(key + ":address", txt + "block %d moved" % i)
                    if not addr:
                        out.bad(key + ":null", txt + "block %d is null" % i)
                    spans[id(s)] = (addr, size, i)
                if not content:
                    out.bad(key + ":content", txt + "content of block %d (%d bytes, device %d) changed" % (i, size, dev))
                if x.usage is not None:
                    n = sum(y.usage == x.usage for y in want.values())
                    if uses != n:
                        out.bad(key + ":uses", txt + "block %d reports %d handles instead of %d" % (i, uses, n))
            both = overlap(list(spans.values()))
            if both:
                out.bad(key + ":overlap", txt + "blocks %s and %s overlap" % both)
            if fired != m.fired:
                out.bad(key + ":destructor", txt + "destructors called: %s instead of %s" % (fired, m.fired))
                return
            if bad != before[4]:
                out.bad(key + ":bad-free", txt + "a device got back what it had not given, or was asked to copy outside of its blocks")
                return
            own, seen = 0, set()
            for x in want.values():
                for s in ([] if x.weak else x.block.param.values() if x.block else [x.st]):
                    if id(s) not in seen:
                        seen.add(id(s))
                        own += s.size
            held = ub + vb - before[0] - before[2]
            if held < own or (held != own and not m.hoards):
                out.bad(key + ":held", txt + "%d bytes held on devices for %d bytes in use" % (held, own))
                return
            if not m.c and not seen and held:
                out.bad(key + ":leak", txt + "%d bytes held with nothing alive" % held)
                return
            out.see("blocks observed", len(live))
        for x in m.h.values():
            if x.usage in m.usages:
                m.fired.append(m.usages.pop(x.usage))
        if sorted(fired_end) != sorted(m.fired):
            out.bad("end:destructor", "destructors called: %s instead of %s" % (fired_end, m.fired))
        if after != before:
            out.bad("end:leak", "devices hold %s before and %s after the history" % (before, after))
        out.see("memory operations", len(ops))

    def r_hard(self, srv, case, out):
        res, before, after = srv.call("hard", case)
        model, limit = {}, BIG
        for k, (op, r) in enumerate(zip(case, res)):
            status, what, live = r[0].decode(), r[1].decode(errors="replace"), r[2]
            ub, un, vb, vn, bad = r[3:]
            txt = "operation %d %s: " % (k, op)
            n, a = op[0], op[1:]
            ok = True
            if n == "new":
                ok = not (a[2] > limit and a[3] < 3)
                if ok:
                    model[a[0]] = [a[1], a[2], a[3], 0]
            elif n == "fill":
                model[a[0]][3] = model[a[0]][1]
            elif n in ("expect", "shrink", "resize"):
                x = model[a[0]]
                if x[2] == 4:
                    ok = False
                else:
                    moves = a[1] != x[1] if n == "resize" else a[1] > x[1] if n == "expect" else a[1] < x[1]
                    if moves and (a[1] >= 1 << 60 or (a[1] > limit and x[2] < 3)):
                        ok = False
                        if n == "resize":
                            x[1] = x[3] = 0
                    elif moves:
                        x[1] = a[1]
                        x[3] = 0 if n == "resize" else min(x[3], a[1])
            elif n == "dispose":
                if model[a[0]][2] == 4:
                    model[a[0]] = None
                else:
                    model[a[0]][1] = model[a[0]][3] = 0
            elif n == "drop":
                del model[a[0]]
            elif n == "move":
                model[a[0]] = model.pop(a[1])
            elif n == "assign":
                model[a[0]] = model.pop(a[1])
            elif n == "swap":
                model[a[0]], model[a[1]] = model[a[1]], model[a[0]]
            elif n == "limit":
                limit = a[0]
            if (status == "ok") != ok or status == "std":
                out.bad("hard:%s:%s" % (n, "accepted" if status == "ok" else "rejected"), txt + (what or "accepted"))
                return
            if any(v is None for v in model.values()):
                return      # a disposed borrowed block: nothing left to judge
            got = {x[0]: x[1:] for x in live}
            if sorted(got) != sorted(model):
                out.bad("hard:handles", txt + "%s" % got)
                return
            spans = []
            for i, (dev, cap, how, prefix) in model.items():
                addr, c, d, p = got[i]
                if c != cap or d != dev:
                    out.bad("hard:%s:capacity" % n, txt + "memory %d: capacity %d on device %d instead of %d on %d" % (i, c, d, cap, dev))
                    return
                if cap and not addr:
                    out.bad("hard:%s:null" % n, txt + "memory %d of %d bytes is null" % (i, cap))
                    return
                if p < prefix:
                    out.bad("hard:%s:content" % n, txt + "memory %d keeps %d of %d bytes" % (i, p, prefix))
                    return
                if cap:
                    spans.append((addr, cap, i))
            both = overlap(spans)
            if both:
                out.bad("hard:%s:overlap" % n, txt + "%s and %s" % both)
            held = ub + vb - before[0] - before[2]
            own = sum(x[1] for x in model.values() if x[2] < 3)
            if held != own:
                out.bad("hard:%s:held" % n, txt + "%d bytes held on devices for %d bytes" % (held, own))
                return
            if bad != before[4]:
                out.bad("hard:%s:bad-free" % n, txt + "a device got back what it had not given")
                return
            out.see("hard memories observed", len(model))
        if after != before:
            out.bad("hard:end:leak", "devices hold %s before and %s after the history" % (before, after))
        out.see("memory operations", len(case))

    def r_vat(self, srv, case, out):
        res, held, bad, total = srv.call("vat", case)
        model, dead = {}, {}
        for k, (op, r) in enumerate(zip(case, res)):
            status, what, live, sums, bytes_ = r[0].decode(), r[1].decode(errors="replace"), r[2], r[3], r[4]
            n, a = op[0], op[1:]
            txt = "operation %d %s: " % (k, op)
            if n == "malloc":
                model[a[1]] = a[2]
            elif n == "free":
                del model[a[1]]
            elif n in ("reset", "dispose", "drop"):
                for i in a[1]:
                    del model[i]
            if (status == "ok") != (n != "free_bad") or status == "std":
                out.bad("vat:%s:%s" % (n, "accepted" if status == "ok" else "rejected"), txt + (what or "accepted"))
                return
            if sorted((x[0], x[2]) for x in live) != sorted(model.items()):
                out.bad("vat:handles", txt)
                return
            for i, addr, size, content in live:
                if not content:
                    out.bad("vat:%s:content" % n, txt + "content of block %d (%d bytes) changed" % (i, size))
                if size and not addr:
                    out.bad("vat:null", txt)
            both = overlap([(x[1], x[2], x[0]) for x in live if x[2]])
            if both:
                out.bad("vat:%s:overlap" % n, txt + "%s and %s" % both)
            if sum(s for s in sums if s >= 0) != bytes_:
                out.bad("vat:summary", txt + "the pools report %s, %d bytes are held" % (sums, bytes_))
                return
            if bytes_ < sum(model.values()):
                out.bad("vat:held", txt + "%d bytes held for %d" % (bytes_, sum(model.values())))
            if n == "clean" and not model and len(sums) == 1 and bytes_:
                out.bad("vat:clean", txt + "%d bytes held after cleaning an idle pool" % bytes_)
            out.see("pool blocks observed", len(live))
        if held or bad:
            out.bad("vat:leak", "%d bytes not returned, %d returned twice" % (held, bad))
        out.see("memory operations", len(case))


# ------------------------------------------------------------------------------------ whole runs
UN = ["abs", "square", "exp", "tanh", "sigmoid", "relu"]
BIN = ["add", "sub", "mul", "maximum"]


def running_case(rng):
    nodes = [["p", "x", "<param>", [], []], ["p", "y", "<param>", [], []]]
    names = ["x", "y"]
    for k in range(int(rng.integers(1, 10))):
        n = "n%d" % k
        if rng.random() < 0.15:
            nodes.append(["c", n, "<const>", [["value", T.of(rng.normal(size=(1,)).astype(np.float32))]], []])
        elif rng.random() < 0.5:
            nodes.append(["o", n, str(rng.choice(UN)), [], [str(rng.choice(names))]])
        else:
            nodes.append(["o", n, str(rng.choice(BIN)), [], [str(rng.choice(names)), str(rng.choice(names))]])
        names.append(n)
    outs = [str(x) for x in rng.choice(names, size=int(rng.integers(1, 4)))]
    runs = []
    for _ in range(int(rng.integers(1, 6))):
        # elements, hold an output?, go on in a clone?, repeat the run
        runs.append([int(rng.choice([1, 3, 16, 17, 64, 100, 1000])), int(rng.random() < 0.4), int(rng.random() < 0.2), int(rng.choice([1, 1, 1, 6]))])
    fail = int(rng.integers(len(runs))) if rng.random() < 0.2 else -1
    return [nodes, outs, runs, fail, [int(x) for x in rng.permutation(4)]]


def running(srv, case, out):
    nodes, outs, runs, fail, order = case
    before = srv.call("alloc_stats")
    where = {n[1]: k for k, n in enumerate(nodes)}
    wire = [n[:4] + [[where[i] for i in n[4]]] for n in nodes]
    module = srv.call("module_new", wire, [where[o] for o in outs], None)
    bench = srv.call("wb_new", module, "", 1)
    reach, todo = set(), list(outs)
    by = {n[1]: n for n in nodes}
    while todo:
        n = todo.pop()
        if n not in reach:
            reach.add(n)
            todo += by[n][4]
    feeds = [n for n in ("x", "y") if n in reach]
    held, clones, expect = [], [], []
    stats = lambda: srv.call("alloc_stats")
    for k, (n, hold, clone, times) in enumerate(runs):
        if clone:
            clones.append(bench)
            bench = srv.call("wb_clone", bench)
        if k == fail and len(feeds) == 2:
            srv.call("wb_input", bench, "x", T.of(np.ones((2,), np.float32)))
            srv.call("wb_input", bench, "y", T.of(np.ones((3,), np.float32)))
            try:
                srv.call("wb_run", bench)
            except Exception as e:
                if type(e).__name__ != "TsError":
                    raise
                out.see("failed runs")
        last, level = None, []
        for r in range(times):
            for j, f in enumerate(feeds):
                srv.call("wb_input", bench, f, T.of(((np.arange(n) % 7 - 3) / (1 + j)).astype(np.float32)))
            srv.call("wb_run", bench)
            got = [srv.call("wb_output", bench, j) for j in range(len(outs))]
            if last is not None:
                for a, b in zip(last, got):
                    if a.raw != b.raw:
                        out.bad("running:repeat", "run %d repeated gives another result" % k)
            last = got
            level.append(stats()[0])
            out.see("program runs")
        if times > 4 and level[-1] > level[2]:
            out.bad("running:grows", "live bytes after identical runs: %s" % level)
        if hold:
            held.append(srv.call("wb_hold", bench, len(outs) - 1))
            expect.append(last[-1].raw)
        for j, (h, e) in enumerate(zip(held, expect)):
            if srv.call("tensor_get", h).raw != e:
                out.bad("running:held-output", "held output %d changed after run %d" % (j, k))
    size = sum(len(e) for e in expect)
    for what in order:
        if what == 0:
            srv.call("free", bench)
        elif what == 1:
            srv.call("free", module)
        elif what == 2 and clones:
            srv.call("free", *clones)
        elif what == 3:
            for j, (h, e) in enumerate(zip(held, expect)):
                if srv.call("tensor_get", h).raw != e:
                    out.bad("running:held-output", "held output %d changed while something else was released" % j)
            if held:
                srv.call("free", *held)
    after = stats()
    if after[:2] != before[:2]:
        out.bad("running:leak", "live bytes and blocks: %s before, %s after everything was released" % (before[:2], after[:2]))
    if after[3] != before[3]:
        out.bad("running:bad-free", "a block was returned twice")
    out.see("held outputs", len(held))
    out.see("held bytes", size)
