"""C25: operand stacks and scoped contexts are strictly last-in first-out."""
from runner import Check

SLOTS, VALUES = 7, 4
LIMIT = 1 << 20


class Model:
    """a plain list restricted by its base; items are [number, identity of the memory]"""

    def __init__(self):
        self.items, self.base, self.bases, self.fresh = [], 0, [], 0

    def new(self, v):
        self.fresh += 1
        return (v, self.fresh)

    def where(self, i, end=0):
        a = self.base + i if i >= 0 else len(self.items) + i
        return a if self.base <= a < len(self.items) + end else None

    def do(self, name, args):
        """-> (accepted, returned item or number)"""
        L = self.items
        if name.startswith("i_"):
            name = {"i_push": "push_at"}.get(name, name[2:])
        if name in ("push", "push_new", "push_proto"):
            L.append(self.new(args[0]))
            return True, L[-1]
        if name in ("push_at", "clone", "clone_push", "index", "cindex", "at", "uat", "top", "ctop"):
            a = self.where(args[0] if args else -1)
            if a is None:
                return False, None
            if name == "push_at":
                L.append(L[a])
            elif name in ("clone", "clone_push"):
                L.append(self.new(L[a][0]))
            else:
                return True, L[a]
            return True, L[-1]
        if name == "pop" or name == "pop_n":
            n = args[0] if args else 1
            if n > len(L) - self.base:
                return False, None
            del L[len(L) - n:]
            return True, None
        if name == "erase":
            a = self.where(args[0])
            if a is None:
                return False, None
            del L[a]
            return True, None
        if name == "erase_range":
            a, b = self.where(args[0], 1), self.where(args[1], 1)
            if a is None or b is None or a > b:
                return False, None
            del L[a:b]
            return True, None
        if name == "clear":
            del L[self.base:]
            return True, None
        if name == "push_base":
            a = self.where(args[0], 1)
            if a is None:
                return False, None
            self.bases.append(self.base)
            self.base = a
            return True, None
        if name == "rebase":
            if args[0] > len(L):
                return False, None
            old, self.base = self.base, args[0]
            return True, old
        if name == "pop_base":
            to = self.bases[-1] if self.bases else 0
            if to > len(L):
                return False, None
            if self.bases:
                self.bases.pop()
            self.base = to
            return True, None
        if name == "swap":
            a, b = self.where(args[0]), self.where(args[1])
            if a is None or b is None:
                return False, None
            L[a], L[b] = L[b], L[a]
            return True, None
        if name == "shift":
            if self.where(0) is None:
                return False, None
            L.append(L.pop(self.base))
            return True, None
        raise ValueError(name)


PLAIN = ["push", "push", "push", "push", "push_at", "push_new", "push_proto", "clone", "clone_push", "index", "cindex", "at", "uat", "top", "ctop", "pop", "pop_n",
         "erase", "erase_range", "clear", "push_base", "push_base", "pop_base", "rebase"]
INSTR = ["i_push", "i_clone", "i_erase", "i_erase_range", "i_swap", "i_shift"]
NARGS = dict(push_at=1, clone=1, clone_push=1, index=1, cindex=1, at=1, uat=1, erase=1, erase_range=2, push_base=1,
             i_push=1, i_clone=1, i_erase=1, i_erase_range=2, i_swap=2)


def body(rng, depth, budget):
    out = []
    for _ in range(int(rng.integers(1, 5))):
        k = rng.random()
        if budget[0] <= 0:
            break
        budget[0] -= 1
        if k < 0.12:
            out.append(["get"])
        elif k < 0.2:
            out.append(["ref"])
        elif k < 0.28:
            out.append(["yield"])
        elif k < 0.62 and depth < 6:
            out.append(["bind", int(rng.integers(SLOTS)), int(rng.integers(0, VALUES + 1)), int(rng.integers(2)), body(rng, depth + 1, budget)])
        elif k < 0.72:
            out.append(["set", int(rng.integers(SLOTS)), int(rng.integers(0, VALUES + 1))])
        elif k < 0.8 and depth < 6:
            out.append(["try", body(rng, depth + 1, budget) + ([["throw"]] if rng.random() < 0.6 else [])])
        elif k < 0.85 and depth:
            out.append(["throw"])
        elif k < 0.9 and depth < 4:
            out.append(["spawn", body(rng, depth + 1, budget)])
        elif k < 0.93:
            out.append(["run", int(rng.integers(2))])
        elif k < 0.95:
            out.append(["hook", int(rng.integers(2))])
        elif k < 0.97:
            out.append(["compile", int(rng.integers(2))])
        elif k < 0.985:
            out.append(["filter", int(rng.integers(2))])
        else:
            out.append(["parallel"])
    return out


class Thrown(Exception):
    pass


def expect(prog, state, log):
    for op in prog:
        n = op[0]
        if n == "get":
            log.append(list(state))
        elif n == "ref":
            log.append([v if v else -1 for v in state])
        elif n == "throw":
            raise Thrown
        elif n == "try":
            try:
                expect(op[1], state, log)
            except Thrown:
                pass
            log.append(list(state))
        elif n == "bind":
            old = state[op[1]]
            state[op[1]] = op[2]
            log.append(list(state))
            try:
                expect(op[4], state, log)
                log.append(list(state))
            finally:
                state[op[1]] = old
            log.append(list(state))
        elif n == "set":
            state[op[1]] = op[2]
            log.append(list(state))
        elif n == "spawn":
            inner = []
            try:
                expect(op[1], [0] * SLOTS, inner)
            except Thrown:
                inner.append(b"thrown")
            log.append(inner)
        elif n in ("run", "hook", "compile", "filter"):
            # compiling needs a workbench; runs bring their own
            log.append(int(op[1] or (n in ("compile", "filter") and not state[3])))
            log.append(list(state))
        elif n == "parallel":
            log.append(0)
            log.append(list(state))


def kinds(prog, out):
    for op in prog:
        out.add(op[0])
        for x in op[1:]:
            if isinstance(x, list):
                kinds(x, out)
    return out


class CHECK(Check):
    id = "C25"
    builds = {"asan": ["ctl"]}
    rule = ("stack: every operation of a random history (3/4 of the positions in range, the rest around the borders and far outside) is judged against a plain list with a base: "
            "acceptance, returned item, base, size, every value and which items share memory; contexts: random nestings of bindings, sets, throws, new threads, pool tasks, "
            "real compiles, runs (also failing) and filters on 1..4 threads, judged against a stack discipline model")
    assumptions = ["a rejected operation has to leave the stack unchanged", "rebase takes an absolute position; beyond the top is out of range"]

    def plan(self, tier):
        k = 1 if tier == "quick" else 15
        return [("stack", 9000 * k), ("bench", 1200 * k), ("ctx", 1500 * k)]

    def gen(self, group, rng, i, tier):
        if group == "ctx":
            return [body(rng, 0, [int(rng.integers(5, 60))]) for _ in range(int(rng.integers(1, 5)))]
        m, ops = Model(), []
        wild = rng.random() < 0.7
        for _ in range(int(rng.integers(5, 60))):
            name = str(rng.choice(PLAIN + (INSTR * 2 if group == "bench" else [])))
            size, full = len(m.items) - m.base, len(m.items)

            def pos(end=0):
                k = rng.random()
                if k < 0.75 or not wild:
                    if size + end <= 0:
                        return 0
                    p = int(rng.integers(0, size + end))
                    return p - size if rng.random() < 0.5 and p < size else p
                if k < 0.95:
                    return int(rng.choice([size, size + 1, -size, -size - 1, -full, -full - 1, -m.base - 1, full, 0, -1]))
                return int(rng.choice([1000, -1000, 2**31 - 1, -2**31]))

            if name in ("push", "push_new", "push_proto"):
                args = [int(rng.integers(1, 10**6))]
            elif name in ("pop_n",):
                args = [int(rng.integers(0, max(1, min(size, 4)) + 1)) if rng.random() < 0.8 else int(rng.choice([size, size + 1, full, full + 1, 10**9]))]
            elif name == "rebase":
                args = [int(rng.integers(0, full + 1)) if rng.random() < 0.8 else int(rng.choice([full + 1, full + 100]))]
            elif name in ("erase_range", "i_erase_range"):
                args = [pos(1), pos(1)]
                if rng.random() < 0.7:
                    a, b = m.where(args[0], 1), m.where(args[1], 1)
                    if a is not None and b is not None and a > b:
                        args = args[::-1]
            elif name == "push_base":
                args = [pos(1)]
            elif name == "uat":
                args = [abs(pos())]
            else:
                args = [pos() for _ in range(NARGS.get(name, 0))]
            if name in ("pop_n", "clear") and rng.random() < 0.5:
                continue
            ops.append([name] + args)
            m.do(name, args)
        return ops

    def crash_key(self, group, case, crash):
        return "%s:%s" % (group, crash.kind)

    def run(self, ctx, group, case, out):
        srv = ctx.server("asan", "ctl")
        if group == "ctx":
            return self.contexts(srv, case, out)
        got = srv.call("stack", 1 if group == "bench" else 0, case)
        m, names, denied = Model(), set(), 0
        for k, op in enumerate(case):
            if k >= len(got):
                break
            before = len(m.items) - m.base
            ok, ret = m.do(op[0], op[1:])
            status, what, r, base, size, items = got[k]
            status, what = status.decode(), what.decode(errors="replace")
            txt = "operation %d %s on %d items (base %d): " % (k, op, before, m.base)
            key = op[0].replace("i_", "")
            if status == "std" and ok is False:
                status = "ts"
            if (status == "ok") != ok:
                out.bad("%s:%s" % (key, "accepted" if status == "ok" else "rejected"), txt + ("accepted" if status == "ok" else "rejected: " + what))
                break
            if (base, size) != (m.base, len(m.items) - m.base):
                out.bad("%s:size" % key, txt + "base %d size %d instead of %d %d" % (base, size, m.base, len(m.items) - m.base))
                break
            want = m.items[m.base:]
            if [x[0] for x in items] != [x[0] for x in want]:
                out.bad("%s:items" % key, txt + "%s instead of %s" % ([x[0] for x in items], [x[0] for x in want]))
                break
            a = {}
            if len(set(zip([x[1] for x in items], [x[1] for x in want]))) != len(set(x[1] for x in items)) or len(set(x[1] for x in items)) != len(set(x[1] for x in want)):
                out.bad("%s:sharing" % key, txt + "memory identities %s for %s" % ([x[1] for x in items], want))
                break
            if ok and ret is not None:
                if op[0] == "rebase":
                    if r != ret:
                        out.bad("rebase:old", txt + "returned %s instead of %s" % (r, ret))
                elif r is not None and (r[0] != ret[0] or (ret in want and r[1] != items[want.index(ret)][1])):
                    out.bad("%s:returned" % key, txt + "returned %s for %s" % (r, ret))
            names.add((op[0], ok))
            denied += not ok
        out.see("stack operations", len(got))
        out.see("operations denied", denied)
        out.sig = (group, repr(case))

    def contexts(self, srv, case, out):
        logs, looked, wrong = srv.call("ctx", case)
        for k, (prog, log) in enumerate(zip(case, logs)):
            want, state = [], [0] * SLOTS
            try:
                expect(prog, state, want)
            except Thrown:
                want += [b"thrown", list(state)]
            if log != want:
                at = next((j for j in range(min(len(log), len(want))) if log[j] != want[j]), min(len(log), len(want)))
                out.bad("ctx:bindings", "thread %d of %d, observation %d: %s instead of %s" % (k, len(case), at, log[at:at + 1], want[at:at + 1]))
        if wrong:
            out.bad("ctx:operator", "%d of %d operators ran with contexts of another workbench" % (wrong, looked))
        out.see("context observations", sum(len(l) for l in logs))
        out.see("operators that looked at their contexts", looked)
        out.see("context threads", len(case))
        if any(kinds(p, set()) & {"bind", "set"} for p in case):
            out.sig = repr(case)
