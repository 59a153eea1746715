"""Check runner: forked workers, crash isolation, verdicts, known findings, evidence, replay.

Exit status: 0 held on everything explored (or only listed known findings), 1 with VIOLATION lines,
2 harness error (never a verdict).
"""
import os, sys, json, time, hashlib, importlib, multiprocessing as mp, traceback, random, re
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build, tsx
from tsx import Server, Crash, TsError, to_json, from_json

KNOWN = os.path.join(VERIF, "known_findings.txt")
REPLAY = os.path.join(VERIF, "build", "replay")
JOBS = int(os.environ.get("TS_JOBS", "8"))


class Inconclusive(Exception):
    pass


class Out:
    """What one case showed."""

    def __init__(self):
        self.viol = []      # (key, text)
        self.sig = None     # hashable signature when the case was non-trivial
        self.obs = {}       # observation counters
        self.crash = 0

    def bad(self, key, text=""):
        self.viol.append((key, str(text)[:3000]))

    def see(self, k, n=1):
        self.obs[k] = self.obs.get(k, 0) + n


class Ctx:
    """Per-worker execution context: the servers, started on demand."""

    def __init__(self, dirs):
        self.dirs, self.servers = dirs, {}

    def server(self, cfg="asan", name="tsx", env=None, timeout=45):
        k = (cfg, name)
        if k not in self.servers:
            self.servers[k] = Server(os.path.join(self.dirs[cfg], name), env=env, timeout=timeout)
        return self.servers[k]

    def path(self, cfg, name):
        return os.path.join(self.dirs[cfg], name)

    def close(self):
        for s in self.servers.values():
            s.stop()
        self.servers = {}


class Check:
    id = None
    level = "exploration"
    rule = ""
    builds = {"asan": ["tsx"]}
    assumptions = []
    workers = JOBS

    def plan(self, tier):
        """[(group, count)]"""
        raise NotImplementedError

    def gen(self, group, rng, i, tier):
        raise NotImplementedError

    def run(self, ctx, group, case, out):
        raise NotImplementedError

    def crash_key(self, group, case, crash):
        return "%s:%s" % (group, crash.kind)

    def must_see(self, tier):
        """groups/observations that have to be non-empty for the run to count"""
        return [g for g, n in self.plan(tier)]


def rng_for(seed, cid, group, i):
    h = hashlib.sha256(("%s|%s|%s|%s" % (seed, cid, group, i)).encode()).digest()
    return np.random.Generator(np.random.PCG64(int.from_bytes(h[:16], "little")))


def run_case(chk, ctx, group, case):
    """Runs one case; a crash is repeated in a fresh process before it counts."""
    for attempt in (0, 1):
        out = Out()
        try:
            chk.run(ctx, group, case, out)
            return out
        except Crash as c:
            ctx.close()
            out.crash = 6 if c.kind == "hang" else 1
            if attempt == 0 and (c.kind == "hang" or c.rc == -9):
                continue
            if c.rc == -9 and c.kind != "hang":
                raise Inconclusive("server was killed")
            if c.kind == "exit137":
                raise Inconclusive("server was killed")
            out.bad(chk.crash_key(group, case, c), c.report)
            out.sig = out.sig or ("crash", c.kind)
            return out
    raise Inconclusive("hang did not repeat")


def worker(chk, dirs, seed, tier, items, q, deadline):
    ctx = Ctx(dirs)
    crashes = {}        # group -> weight of crashes seen: a group that keeps crashing is not explored further
    try:
        res = dict(eval={}, sigs=set(), gsig={}, obs={}, viol={}, samples={}, inconclusive=0)
        for n, (group, i) in enumerate(items):
            if crashes.get(group, 0) >= 12:
                res["obs"]["cases skipped in a crashing group"] = res["obs"].get("cases skipped in a crashing group", 0) + 1
                continue
            if time.time() > deadline:
                res["obs"]["cases not reached in time"] = len(items) - n
                break
            rng = rng_for(seed, chk.id, group, i)
            case = chk.gen(group, rng, i, tier)
            if case is None:
                continue
            try:
                out = run_case(chk, ctx, group, case)
            except Inconclusive:
                res["inconclusive"] += 1
                continue
            res["eval"][group] = res["eval"].get(group, 0) + 1
            if out.crash:
                crashes[group] = crashes.get(group, 0) + out.crash
            for k, n in out.obs.items():
                res["obs"][k] = res["obs"].get(k, 0) + n
            if out.sig is not None:
                h = hashlib.md5(repr((group, out.sig)).encode()).digest()[:8]
                res["sigs"].add(h)
                res["gsig"][group] = res["gsig"].get(group, 0) + 1
                if group not in res["samples"]:
                    res["samples"][group] = describe(case)
            for key, text in out.viol:
                size = len(repr(case))
                old = res["viol"].get(key)
                if old is None:
                    res["viol"][key] = [1, size, group, i, to_json(case), text]
                else:
                    old[0] += 1
                    if size < old[1]:
                        res["viol"][key] = [old[0], size, group, i, to_json(case), text]
        q.put(("ok", res))
    except BaseException:
        q.put(("error", traceback.format_exc()))
    finally:
        ctx.close()


def describe(case, depth=0):
    if isinstance(case, dict):
        return {k: describe(v, depth + 1) for k, v in case.items()}
    if isinstance(case, (list, tuple)):
        l = [describe(x, depth + 1) for x in case[:12]]
        return l + ["... %d more" % (len(case) - 12)] if len(case) > 12 else l
    if isinstance(case, (int, float, bool)) or case is None:
        return case
    s = repr(case)
    return s if len(s) < 200 else s[:200] + "..."


def known_findings(cid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == cid:
                out.append((m.group(2), m.group(3).strip()))
    return out


def main(argv):
    cid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("checks." + cid.lower())
    chk = mod.CHECK()
    chk.id = cid
    t0 = time.time()
    dirs = {}
    for cfg, targets in chk.builds.items():
        dirs[cfg], _ = build.build(cfg, targets)
    t_build = time.time() - t0
    if "--replay" in argv:
        return replay(chk, dirs, argv[argv.index("--replay") + 1])
    plan = chk.plan(tier)
    scale = float(os.environ.get("TS_SCALE", "1"))
    if "--group" in argv:
        g = argv[argv.index("--group") + 1]
        plan = [(a, n) for a, n in plan if re.fullmatch(g, a)]
    items = [(g, i) for g, n in plan for i in range(max(1, int(n * scale)))]
    random.Random(seed).shuffle(items)
    n = min(chk.workers, max(1, len(items)))
    deadline = time.time() + float(os.environ.get("TS_BUDGET", "420" if tier == "quick" else "7200"))
    ctxm = mp.get_context("fork")
    q = ctxm.Queue()
    ps = [ctxm.Process(target=worker, args=(chk, dirs, seed, tier, items[w::n], q, deadline)) for w in range(n)]
    for p in ps:
        p.start()
    tot = dict(eval={}, sigs=set(), gsig={}, obs={}, viol={}, samples={}, inconclusive=0)
    for _ in ps:
        kind, r = q.get()
        if kind == "error":
            for p in ps:
                p.terminate()
            sys.stdout.write(r)
            print("HARNESS ERROR in %s" % cid)
            return 2
        for k in ("eval", "obs", "gsig"):
            for a, b in r[k].items():
                tot[k][a] = tot[k].get(a, 0) + b
        tot["sigs"] |= r["sigs"]
        tot["inconclusive"] += r["inconclusive"]
        for g, s in r["samples"].items():
            tot["samples"].setdefault(g, s)
        for k, v in r["viol"].items():
            o = tot["viol"].get(k)
            if o is None or v[1] < o[1]:
                tot["viol"][k] = [v[0] + (o[0] if o else 0)] + v[1:]
            else:
                o[0] += v[0]
    for p in ps:
        p.join()
    return finish(chk, tier, seed, tot, t0, t_build, "--group" in argv)


def finish(chk, tier, seed, tot, t0, t_build, partial=False):
    cid = chk.id
    known = known_findings(cid)
    hit, fresh = {}, []
    for key, v in sorted(tot["viol"].items()):
        for pat, text in known:
            if re.fullmatch(pat, key):
                hit.setdefault(pat, [text, 0])
                hit[pat][1] += v[0]
                break
        else:
            fresh.append((key, v))
    ev = dict(property=cid, tier=tier, seed=seed, level=chk.level, wall_s=round(time.time() - t0, 2),
              violations=len(fresh), assumptions=list(chk.assumptions),
              coverage=dict(evaluations=sum(tot["eval"].values()), distinct_nontrivial=len(tot["sigs"]), rule=chk.rule,
                            samples=[dict(group=g, case=s) for g, s in list(sorted(tot["samples"].items()))[:40]],
                            per_group={g: dict(evaluations=n, nontrivial=tot["gsig"].get(g, 0))
                                       for g, n in sorted(tot["eval"].items())},
                            observed=dict(sorted(tot["obs"].items())), inconclusive=tot["inconclusive"],
                            known_findings_seen={p: h[1] for p, h in hit.items()},
                            build_s=round(t_build, 1)))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", cid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for pat, (text, n) in hit.items():
        print("KNOWN-FINDING: property=%s %s (seen %d times)" % (cid, text, n))
    c = ev["coverage"]
    print("%s tier=%s seed=%d: %d evaluations, %d distinct non-trivial, %d inconclusive, build %.1fs, total %.1fs" % (
        cid, tier, seed, c["evaluations"], c["distinct_nontrivial"], tot["inconclusive"], t_build, time.time() - t0))
    if fresh:
        os.makedirs(REPLAY, exist_ok=True)
        for n, (key, v) in enumerate(fresh[:int(os.environ.get("TS_KEYS","40"))]):
            path = os.path.join(REPLAY, "%s-%d.json" % (cid, n))
            with open(path, "w") as f:
                json.dump(dict(property=cid, key=key, group=v[2], index=v[3], seed=seed, tier=tier, count=v[0], text=v[5],
                               case=v[4]), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (cid, path))
            print("  key=%s count=%d" % (key, v[0]))
            for line in v[5].splitlines()[:int(os.environ.get("TS_LINES", "12"))]:
                print("    " + line[:300])
        if len(fresh) > int(os.environ.get("TS_KEYS","40")):
            print("  ... %d more keys" % (len(fresh) - int(os.environ.get("TS_KEYS","40"))))
        return 1
    if not partial:
        empty = [g for g in chk.must_see(tier) if not (tot["gsig"].get(g) or tot["obs"].get(g))]
        if empty or tot["inconclusive"] > 0.02 * c["evaluations"] + 3:
            print("HARNESS ERROR: nothing observed for %s; %d inconclusive" % (empty, tot["inconclusive"]))
            return 2
    return 0


def replay(chk, dirs, path):
    d = json.load(open(path))
    case = from_json(d["case"])
    ctx = Ctx(dirs)
    try:
        out = run_case(chk, ctx, d["group"], case)
    finally:
        ctx.close()
    print(json.dumps(describe(case), indent=1, default=str)[:4000])
    for key, text in out.viol:
        print("VIOLATION property=%s replay=%s" % (chk.id, path))
        print("  key=%s\n%s" % (key, text))
    return 1 if out.viol else 0
