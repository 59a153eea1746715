"""C16: thread pools and parallel loops run every task exactly once and terminate."""
from runner import Check
from tsx import asan_env

I31 = 2 ** 31


def pool_case(rng, small):
    size = int(rng.choice([0, 1, 1, 2, 2, 3, 4, 8, 16]))
    ops, gates = [], 0
    for _ in range(int(rng.integers(3, 15 if small else 40))):
        k = rng.random()
        free = size == 0 or gates < size
        if k < 0.3 and free:
            for _ in range(int(rng.choice([1, 1, 2, size, size + 1, 3 * size + 2]))):
                ops.append([str(rng.choice(["run", "run", "after"])), int(rng.choice([0, 0, 0, 1, 2, 5]))])
        elif k < 0.5 and not gates:
            begin = int(rng.choice([0, 0, 0, 1, -5, 1000, -I31, I31 - 300]))
            n = int(rng.choice([0, 1, 2, 3, size, size + 1, max(size - 1, 0), 2 * size, 2 * size + 1, int(rng.integers(0, 300))]))
            end = min(begin + n, I31 - 1)
            if rng.random() < 0.08:
                end = begin - int(rng.integers(1, 9)) if begin > -1000 else begin
            ops.append(["loop", int(rng.integers(0, 4)), begin, end, int(rng.random() < 0.7)])
        elif k < 0.6 and not gates:
            ops.append(["crowd", int(rng.integers(2, 5)), int(rng.integers(1, 20)), int(rng.choice([0, 0, 1, 2]))])
        elif k < 0.68 and (gates + 1 < size or (size and not gates)):
            ops.append(["gate", 1])
            gates += 1
            if rng.random() < 0.8:
                ops.append(["busy"])
        elif k < 0.78 and gates:
            if rng.random() < 0.6:
                ops.append(["busy"])
            ops.append(["open"])
            ops.append(["join"])
            gates = 0
        elif k < 0.85:
            ops.append(["size"])
        elif not gates:
            ops.append([str(rng.choice(["join", "join", "sync"]))])
            if rng.random() < 0.4:
                ops.append(["busy"])
    if gates:
        ops.append(["open"])
    ops.append(["join"])
    if rng.random() < 0.3:
        ops += [["run", 1] for _ in range(2 * size)]
    return [size, int(rng.choice([0, 2, 10, 30])), ops]


def thread_case(rng):
    ops, gate = [], False
    for _ in range(int(rng.integers(2, 25))):
        k = rng.random()
        if gate:
            ops.append(["busy"] if k < 0.5 else ["open"])
            if k >= 0.5:
                gate = False
                ops.append(["join"])
        elif k < 0.6:
            ops.append([str(rng.choice(["run", "run", "after"])), int(rng.choice([0, 0, 1, 2]))])
        elif k < 0.7:
            ops += [["join"], ["gate", 1]]
            gate = True
        else:
            ops.append(["join"])
            if rng.random() < 0.4:
                ops.append(["busy"])
    if gate:
        ops.append(["open"])
    ops.append(["join"])
    return [int(rng.choice([0, 2, 10, 30])), ops]


class CHECK(Check):
    id = "C16"
    builds = {"asan": ["pool"], "tsan": ["pool"]}
    workers = 8
    rule = ("pool/thread: random histories of submissions (with and without after-hook, from one or several threads), loops in every form, gates holding workers, busy, join and destruction; "
            "every task writes what it sees without atomics and the record is judged after the join (exactly once, after-hook after its task, slot in range, never two tasks in one slot); "
            "churn: pools, threads, runtime contexts and workbenches destroyed right after creation or with work queued, with a deadline; in the asan build calls into the threading library are delayed at random, "
            "also between the test of a condition and the wait; the tsan build judges the synchronisation itself; bins: exact arithmetic")
    assumptions = ["a pool destroyed without a join may drop work it has not started, but never runs it twice", "loops do not nest (as documented)"]

    def plan(self, tier):
        k = 1 if tier == "quick" else 12
        return [("pool", 900 * k), ("thread", 600 * k), ("churn", 300 * k), ("runtime", 120 * k), ("pool_ts", 300 * k), ("thread_ts", 250 * k), ("churn_ts", 80 * k), ("bins", 4000 * k)]

    def gen(self, group, rng, i, tier):
        if group.startswith("pool"):
            return pool_case(rng, group.endswith("_ts"))
        if group.startswith("thread"):
            return thread_case(rng)
        if group.startswith("churn"):
            ops = []
            for _ in range(int(rng.integers(5, 40))):
                kind = int(rng.choice([0, 1, 1, 2, 3, 4, 8, -1, -1, -1, -2, -3]))
                ops.append([kind, int(rng.choice([0, 0, 0, 1, 2, 5])), int(rng.choice([0, 0, 1, 2]))])
            return [int(rng.choice([0, 5, 20, 40])), ops]
        if group == "runtime":
            ops, n = [["new", 0]], 1
            for _ in range(int(rng.integers(1, 12))):
                k = rng.random()
                if k < 0.2 or not n:
                    ops.append(["new", int(rng.integers(2))])
                    n += 1
                elif k < 0.45:
                    ops.append(["clone", int(rng.integers(n))])
                    n += 1
                elif k < 0.6:
                    ops.append(["move", int(rng.integers(n)), int(rng.integers(n))])
                elif k < 0.85:
                    ops.append(["set", int(rng.integers(n)), int(rng.choice([-1, -7, 0, 1, 2, 3, 5, 9]))])
                else:
                    ops.append(["drop", int(rng.integers(n))])
                    n -= 1
            return [int(rng.choice([0, 5, 20])), ops]
        wide = rng.random() < 0.4
        lim = 2 ** 64 if wide else I31
        top = lim - 1
        low = 0 if wide else -I31
        k = rng.random()
        if k < 0.4:
            a = int(rng.integers(0, 50))
            b = a + int(rng.integers(-3, 200))
        elif k < 0.6:
            b = top - int(rng.integers(0, 5))
            a = b - int(rng.integers(0, 500))
        elif k < 0.75:
            a = low + int(rng.integers(0, 5))
            b = a + int(rng.integers(0, 500))
        else:
            e = int(rng.integers(1, 64 if wide else 33))
            a = low + int(rng.integers(0, 2 ** min(e, 62)))
            b = a + int(rng.integers(0, 2 ** min(e, 62))) * int(rng.choice([1, 1, 2]))
        a, b = min(max(a, low), top), min(max(b, low), top)
        bins = int(rng.choice([1, 2, 3, 4, 5, 7, 8, 64, int(rng.integers(1, 300)), 1000]))
        if rng.random() < 0.1:
            bins = 0 if wide else int(rng.choice([0, -1, -5]))
        if rng.random() < 0.05 and abs(b - a) < 2000:
            bins = top
        return [int(wide), str(a) if wide else a, str(b) if wide else b, str(bins) if wide else bins]

    def crash_key(self, group, case, crash):
        return "%s:%s" % (group.split("_")[0], crash.kind)

    def run(self, ctx, group, case, out):
        srv = ctx.server("tsan" if group.endswith("_ts") else "asan", "pool", env=asan_env({"ASAN_OPTIONS": asan_env()["ASAN_OPTIONS"] + ":hard_rss_limit_mb=3000"}), timeout=25)
        base = group.split("_")[0]
        getattr(self, "r_" + base)(srv, case, out)
        if group != "bins":
            out.sig = (group, repr(case))

    def tasks(self, out, what, seen, total, size):
        for k, (runs, after, slot, slot_after) in enumerate(seen):
            if runs != 1:
                out.bad(what + ":runs", "task %d ran %d times" % (k, runs))
            elif not 0 <= slot < max(size, 1):
                out.bad(what + ":slot", "task %d ran in slot %d of %d" % (k, slot, size))

    def r_pool(self, srv, case, out):
        size, chaos, ops = case
        res, overlap, outside, final = srv.call("pool", size, chaos, ops)
        kinds, gated, n = [], 0, 0
        idle = True
        for op, r in zip(ops, res):
            if op[0] in ("run", "after"):
                kinds.append(op[0])
                idle = False
            elif op[0] in ("join", "sync"):
                seen, loops = r
                self.tasks(out, "pool", seen, len(kinds), size)
                for kind, s in zip(kinds, seen):
                    if (s[1] != 1 or s[3] != s[2]) if kind == "after" else s[1]:
                        out.bad("pool:after", "after-hook of a %s task: %s" % (kind, s))
                for w in loops:
                    if w:
                        out.bad("pool:loop", "%d indices of a loop joined later not visited once" % w)
                idle = not gated
            elif op[0] == "gate":
                gated, idle = gated + 1, False
            elif op[0] == "open":
                gated = 0
            elif op[0] == "busy":
                if gated and size and not r:
                    out.bad("pool:busy", "not busy with %d of %d workers held" % (gated, size))
                if idle and r:
                    out.bad("pool:busy", "busy after a join")
            elif op[0] == "size":
                if r != size:
                    out.bad("pool:size", "%d instead of %d" % (r, size))
            elif op[0] == "loop":
                if r > 0:
                    out.bad("pool:loop", "%d indices of loop %s on %d threads not visited exactly once" % (r, op, size))
                if r < 0 and size > 1:
                    idle = False
                out.see("loops", 1)
                out.see("loop indices", max(0, op[3] - op[2]))
            elif op[0] == "crowd":
                if r:
                    out.bad("pool:crowd", "%d tasks of several submitters not run once: %s" % (r, op))
                out.see("tasks", op[1] * op[2])
        if overlap:
            out.bad("pool:overlap", "%d times two tasks in one slot" % overlap)
        if outside:
            out.bad("pool:slot", "%d slots out of range" % outside)
        for s in final:
            if s[0] > 1:
                out.bad("pool:runs", "a task ran %d times" % s[0])
        out.see("tasks", len(final))

    def r_thread(self, srv, case, out):
        chaos, ops = case
        res = srv.call("thread", chaos, ops)
        kinds, gate, joined = [], False, True
        for op, r in zip(ops, res):
            if op[0] in ("run", "after"):
                kinds.append(op[0])
                joined = False
            elif op[0] == "join":
                seen, order = r
                for k, s in enumerate(seen):
                    if s[0] != 1 or s[2] != k + 1000:
                        out.bad("thread:runs", "task %d of a thread ran %d times with number %d" % (k, s[0], s[2]))
                    if (s[1] != 1 or s[3] != s[2]) if kinds[k] == "after" else s[1]:
                        out.bad("thread:after", "after-hook: %s" % (s,))
                if order != sorted(order):
                    out.bad("thread:order", "tasks of one thread ran in order %s" % order)
                joined = not gate
            elif op[0] == "gate":
                gate, joined = True, False
            elif op[0] == "open":
                gate = False
            elif op[0] == "busy":
                if gate and not r:
                    out.bad("thread:busy", "not busy while its task runs")
                if joined and r:
                    out.bad("thread:busy", "busy after a join")
        out.see("tasks", len(kinds))

    def r_churn(self, srv, case, out):
        submitted, ran = srv.call("churn", *case)
        if ran > submitted:
            out.bad("churn:runs", "%d tasks run, %d submitted" % (ran, submitted))
        out.see("objects created and destroyed", len(case[1]))
        out.see("queued at destruction", submitted - ran)

    def r_runtime(self, srv, case, out):
        import os
        chaos, ops = case
        res = srv.call("runtime", chaos, ops)
        procs = len(os.sched_getaffinity(0))
        model = []
        for op, got in zip(ops, res):
            if op[0] == "new":
                model.append([4, op[1]])
            elif op[0] == "clone":
                model.append(list(model[op[1]]))
            elif op[0] == "move":
                model[op[1]] = list(model[op[2]])
            elif op[0] == "set":
                model[op[1]][0] = None if op[2] < 0 else max(op[2], 1)
            elif op[0] == "drop":
                del model[op[1]]
            if len(got) != len(model):
                out.bad("runtime:count", "%s" % got)
                break
            for k, (m, g) in enumerate(zip(model, got)):
                if m[0] is None:        # one thread per processor
                    m[0] = g[0] if 1 <= g[0] <= 4096 else -1
                if g[0] != m[0] or g[1] != m[0] or g[2] != m[0]:
                    out.bad("runtime:threads", "context %d after %s: %d threads, pool of %d, width %d instead of %d" % (k, op, g[0], g[1], g[2], m[0]))
                if g[3]:
                    out.bad("runtime:loop", "%d indices not visited once" % g[3])
                if (g[4], g[5]) != (m[1], m[1]):
                    out.bad("runtime:memory", "context %d after %s: controllers %s instead of %s" % (k, op, g[4:], m[1]))
                out.see("runtime contexts observed", 1)

    def r_bins(self, srv, case, out):
        wide, a, b, bins = case[0], int(case[1]), int(case[2]), int(case[3])
        got = [(int(x), int(y)) for x, y in srv.call("bins", *case)]
        txt = "%s(%d, %d, %d) = %s" % ("lsplit_bins" if wide else "split_bins", a, b, bins, str(got)[:200])
        n = b - a
        if n <= 0:
            if got:
                out.bad("bins:empty", txt)
            return
        p = max(bins, 1)
        step = -(-n // p)
        want = [(k, min(k + step, b)) for k in range(a, b, step)]
        if got != want:
            at = a
            bad = "balance"
            for x, y in got:
                if x != at or y <= x:
                    bad = "cover"
                at = y
            if at != b:
                bad = "cover"
            if len(got) > p:
                bad = "count"
            if bad == "balance" and max(y - x for x, y in got) <= step:
                return      # another balanced split
            out.bad("bins:" + bad, txt + " instead of %s" % str(want)[:200])
        out.see("splits", 1)
        out.sig = tuple(case)
