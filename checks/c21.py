"""C21: encrypted streams and files give back exactly what was written, or an error."""
import os, shutil, struct, tempfile
import numpy as np
import aes256
import layout as L
from runner import Check
from tsx import T, TsError
from checks.c19 import gen_nodes, parsed_canon
from checks.c20 import write


def key_of(rng):
    n = int(rng.choice([0, 1, 5, 15, 16, 17, 24, 31, 32, 32, 32, 32, 33, 48]))
    return bytes(rng.integers(1, 256, n, dtype=np.uint8)) if rng.random() < 0.8 else rng.bytes(n)


def size_of(rng):
    k = int(rng.integers(0, 4))
    if k == 0:
        return int(rng.integers(0, 70))
    if k == 1:
        return 16 * int(rng.integers(0, 20)) + int(rng.choice([-1, 0, 0, 1])) if rng.random() < 0.9 else 0
    if k == 2:
        return int(rng.integers(0, 2000))
    return int(rng.choice([15, 16, 17, 31, 32, 33, 255, 256, 4095, 4096, 4097, 8191, 8192, 8193]))


def cuts(rng, n):
    """a partition of n bytes into write sizes"""
    out, style = [], int(rng.integers(0, 5))
    left = n
    while left > 0:
        if style == 0:
            k = left
        elif style == 1:
            k = 1 if n < 300 else int(rng.integers(1, 40))
        elif style == 2:
            k = int(rng.choice([1, 4, 8, 15, 16, 17, 32]))
        elif style == 3:
            k = 16 * int(rng.integers(1, 4)) + int(rng.integers(-1, 2))
        else:
            k = int(rng.integers(0, 300))
        k = min(k, left)
        out.append(k)
        left -= k
        if rng.random() < 0.05:
            out.append(0)
    return out


class CHECK(Check):
    id = "C21"
    builds = {"asan": ["val"]}
    rule = ("content, key and both partitions are drawn independently; the file is compared byte for byte with an independent AES-256-ECB/PKCS#7 encoder, "
            "every read is compared with the same range of the content; damaged files, wrong keys, directories and full devices have to give an error or other data")
    assumptions = ["for keys shorter than 32 bytes the key completion is the library's own and only the round trip is judged",
                   "reading past the end may be reported by a short count (also 0) or by an exception"]

    def plan(self, tier):
        k = 1 if tier == "quick" else 12
        return [("round", 16000 * k), ("blocks", 3000 * k), ("damage", 10000 * k), ("module", 1200 * k), ("fault", 80 * k)]

    def gen(self, group, rng, i, tier):
        n = max(0, size_of(rng))
        if group == "round":
            sizes = cuts(rng, n)
            reads = cuts(rng, n + int(rng.choice([0, 0, 1, 5, 16, 100])))
            if rng.random() < 0.5:
                reads += [int(rng.choice([1, 16, 40])) for _ in range(2)]
            return dict(key=key_of(rng), data=rng.bytes(n), sizes=sizes, reads=reads, close=int(rng.integers(2)))
        if group == "blocks":
            n = int(rng.integers(0, 30)) * 16
            key, mode = rng.bytes(int(rng.choice([32, 32, 32, 33, 40, 31, 16, 0]))), ["ecb", "cbc", "ctr"][i % 3]
            iv = rng.bytes(int(rng.choice([16, 16, 20, 5, 0])))
            if mode == "ctr" and rng.random() < 0.4:
                iv = b"\xff" * int(rng.integers(10, 17))
                iv = (rng.bytes(16 - len(iv)) + iv)[:16]
                iv = iv[:15] + bytes([int(rng.integers(240, 256))])
            calls, left = [], n
            while left:
                k = min(left, 16 * int(rng.integers(1, 9)))
                calls.append(k)
                left -= k
            if mode == "ctr" and rng.random() < 0.5:
                n += int(rng.integers(1, 16))
                calls.append(n - sum(calls))
            return dict(key=key, iv=iv, mode=mode, data=rng.bytes(n), calls=calls)
        if group == "damage":
            sizes = cuts(rng, n)
            kind = str(rng.choice(["key", "truncate", "flip", "flip", "last", "last", "random", "append"]))
            return dict(key=key_of(rng), key2=key_of(rng), data=rng.bytes(n), kind=kind, seed=int(rng.integers(2**62)),
                        reads=cuts(rng, n + int(rng.integers(0, 40))) + [16, 1, 4000])
        if group == "module":
            nodes = gen_nodes(rng)
            outs = sorted(set(int(x) for x in rng.integers(0, len(nodes), 2)))
            return dict(key=key_of(rng), module=write(nodes, outs))
        return dict(key=key_of(rng), n=int(rng.choice([0, 5, 16, 17, 5000, 100000])), kind=["full", "full-dtor", "dir", "missing", "nodir"][i % 5])

    def run(self, ctx, group, case, out):
        d = tempfile.mkdtemp(prefix="c21-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
        try:
            getattr(self, group)(ctx.server("asan", "val"), case, out, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def put(self, srv, case, path, sizes, out, close=1):
        data, at, chunks = case["data"], 0, []
        for n in sizes:
            chunks.append(data[at:at + n])
            at += n
        ret = srv.call("enc_write", path, case["key"], chunks, close)
        if ret != [len(c) for c in chunks]:
            out.bad("write:count", "sizes %s gave %s" % ([len(c) for c in chunks], ret))
        out.see("writes", len(chunks))

    def compare_reads(self, key, data, reads, got, out, prefix_only=False):
        at = 0
        for n, g in zip(reads, got):
            want = data[at:at + n]
            if g is None:
                if at < len(data):
                    out.bad(key + ":early", "reading %d bytes at %d of %d failed" % (n, at, len(data)))
                    return
                out.see("end reported by an exception")
                continue
            if g != want:
                out.bad(key + ":data", "reading %d bytes at %d of %d gave %d bytes, %s" % (n, at, len(data), len(g), "different" if g != want[:len(g)] else "a prefix"))
                return
            at += len(g)
        out.see("reads", len(got))

    def round(self, srv, case, out, d):
        p = os.path.join(d, "f")
        self.put(srv, case, p, case["sizes"], out, case["close"])
        data = case["data"]
        got, err = srv.call("enc_read", p, case["key"], case["reads"])
        if err:
            out.bad("round:contract", err)
        self.compare_reads("round", data, case["reads"], got, out)
        if len(case["key"]) >= 32 and len(data) <= 1500:
            pad = 16 - len(data) % 16
            want = aes256.ecb(case["key"][:32], data + bytes([pad]) * pad)
            real = open(p, "rb").read()
            if real != want:
                out.bad("round:format", "%d bytes: file of %d bytes differs from the reference at %d" % (
                    len(data), len(real), next((k for k in range(min(len(real), len(want))) if real[k] != want[k]), -1)))
            out.see("files compared with the reference encoder")
        out.sig = (case["key"], len(data), case["sizes"], case["reads"])

    def blocks(self, srv, case, out, d):
        full = len(case["key"]) >= 32 and (len(case["iv"]) >= 16 or case["mode"] == "ecb")
        args = (case["mode"], case["key"], case["iv"])
        c = srv.call("aes", *args, case["data"], 1, case["calls"])
        if full:
            k, iv = case["key"][:32], case["iv"][:16]
            want = {"ecb": lambda: aes256.ecb(k, case["data"]), "cbc": lambda: aes256.cbc(k, iv, case["data"]), "ctr": lambda: aes256.ctr(k, iv, case["data"])}[case["mode"]]()
            if c != want:
                out.bad("blocks:" + case["mode"], "differs from the standard")
            out.see("buffers compared with the standard")
        if srv.call("aes", *args, c, 0, case["calls"]) != case["data"]:
            out.bad("blocks:%s:back" % case["mode"], "decryption does not invert encryption")
        out.sig = (case["mode"], case["key"], case["data"])

    def damage(self, srv, case, out, d):
        p = os.path.join(d, "f")
        self.put(srv, case, p, [len(case["data"])], out)
        rng = np.random.default_rng(case["seed"])
        b = bytearray(open(p, "rb").read())
        key, kind = case["key"], case["kind"]
        if kind == "key":
            key = case["key2"]
        elif kind == "truncate":
            b = b[:int(rng.integers(0, len(b)))]
        elif kind == "flip":
            b[int(rng.integers(len(b)))] ^= 1 << int(rng.integers(8))
        elif kind == "last":        # a last block that decrypts to any padding at all
            if len(key) >= 32:
                e = bytearray(rng.bytes(16))
                e[15] = int(rng.choice([0, 1, 15, 16, 17, 18, 32, 127, 128, 200, 255]))
                b[-16:] = aes256.ecb(key[:32], bytes(e))
            else:
                b[-16:] = rng.bytes(16)
        elif kind == "random":
            b = bytearray(rng.bytes(int(rng.integers(0, 200))))
        else:
            b += rng.bytes(int(rng.integers(1, 40)))
        open(p, "wb").write(bytes(b))
        got, err = srv.call("enc_read", p, key, case["reads"])
        if err:
            out.bad("damage:contract", err)
        total = sum(len(g) for g in got if g is not None)
        if total > len(b):
            out.bad("damage:more", "%d bytes read from a file of %d" % (total, len(b)))
        if kind == "truncate" and len(b) % 16 == 0:
            out.see("truncations at a block boundary")
        if kind == "truncate" and len(b) % 16 and not any(g is None for g in got) and sum(case["reads"]) > len(b):
            out.bad("damage:partial", "a file of %d bytes was read without an error" % len(b))
        out.see("damaged files: error" if any(g is None for g in got) else "damaged files: other data")
        out.sig = (kind, bytes(b), key)

    def module(self, srv, case, out, d):
        src, enc, dst = [os.path.join(d, x) for x in ("src", "enc", "dst")]
        open(src, "wb").write(case["module"])
        try:
            srv.call("enc_module", enc, case["key"], src, dst)
        except TsError as e:
            out.bad("module", e.msg)
            return
        a = b = None
        try:
            a, b = parsed_canon(*L.Rd(case["module"]).module()[1:]), parsed_canon(*L.Rd(open(dst, "rb").read()).module()[1:])
        except L.Bad as e:
            out.bad("module:format", str(e))
        if a != b:
            out.bad("module:content", "differs after the encrypted round trip")
        out.see("modules through encrypted files")
        out.sig = case["module"]

    def fault(self, srv, case, out, d):
        kind, path = case["kind"], os.path.join(d, "f")
        chunk = b"z" * case["n"]
        if kind in ("full", "full-dtor"):
            if not os.path.exists("/dev/full"):
                return
            try:
                ret = srv.call("enc_write", "/dev/full", case["key"], [chunk], 1 if kind == "full" else 0)
                if kind == "full" and ret == [len(chunk)]:
                    out.bad("fault:full", "%d bytes written to a full device without an error" % len(chunk))
            except TsError as e:
                if e.kind != "ts":
                    out.bad("fault:kind", "%s %s" % (e.kind, e.msg))
        elif kind == "nodir":
            try:
                srv.call("enc_write", os.path.join(d, "no", "f"), case["key"], [chunk], 1)
                out.bad("fault:nodir", "opened")
            except TsError:
                pass
        else:
            if kind == "dir":
                os.mkdir(path)
            try:
                got, err = srv.call("enc_read", path, case["key"], [16, 1])
                if err or any(got):
                    out.bad("fault:" + kind, "%r %r" % (got, err))
            except TsError:
                pass
        out.see("faults " + kind)
        out.sig = (kind, case["n"], case["key"])
