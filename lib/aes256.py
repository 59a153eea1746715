"""Independent AES-256 (FIPS 197), written from the standard: used as the reference for C21."""


def _tables():
    p = q = 1
    sbox = [0] * 256
    while True:
        p = p ^ ((p << 1) & 0xFF) ^ (0x1B if p & 0x80 else 0)
        q ^= q << 1
        q ^= q << 2
        q ^= q << 4
        q &= 0xFF
        if q & 0x80:
            q ^= 0x09
        x = q
        for k in (1, 2, 3, 4):
            x ^= ((q << k) | (q >> (8 - k))) & 0xFF
        sbox[p] = x ^ 0x63
        if p == 1:
            break
    sbox[0] = 0x63
    return sbox


SBOX = _tables()


def _x(a):
    return ((a << 1) ^ 0x1B) & 0xFF if a & 0x80 else a << 1


X2 = [_x(a) for a in range(256)]
X3 = [_x(a) ^ a for a in range(256)]


def expand(key):
    assert len(key) == 32
    w = [list(key[4 * i:4 * i + 4]) for i in range(8)]
    rcon = 1
    for i in range(8, 60):
        t = list(w[i - 1])
        if i % 8 == 0:
            t = [SBOX[t[1]] ^ rcon, SBOX[t[2]], SBOX[t[3]], SBOX[t[0]]]
            rcon = _x(rcon)
        elif i % 8 == 4:
            t = [SBOX[b] for b in t]
        w.append([a ^ b for a, b in zip(w[i - 8], t)])
    return [sum(w[4 * r:4 * r + 4], []) for r in range(15)]


def block(ks, b):
    s = [x ^ k for x, k in zip(b, ks[0])]
    for r in range(1, 15):
        s = [SBOX[s[(i + 4 * (i % 4)) % 16]] for i in range(16)]
        if r < 14:
            o = []
            for c in range(0, 16, 4):
                a, b_, d, e = s[c:c + 4]
                o += [X2[a] ^ X3[b_] ^ d ^ e, a ^ X2[b_] ^ X3[d] ^ e, a ^ b_ ^ X2[d] ^ X3[e], X3[a] ^ b_ ^ d ^ X2[e]]
            s = o
        s = [x ^ k for x, k in zip(s, ks[r])]
    return bytes(s)


def ecb(key, data):
    ks = expand(key)
    return b"".join(block(ks, data[i:i + 16]) for i in range(0, len(data), 16))


def cbc(key, iv, data):
    ks, out = expand(key), []
    for i in range(0, len(data), 16):
        iv = block(ks, bytes(a ^ b for a, b in zip(data[i:i + 16], iv)))
        out.append(iv)
    return b"".join(out)


def ctr(key, iv, data):
    ks, out, n = expand(key), [], int.from_bytes(iv, "big")
    for i in range(0, len(data), 16):
        k = block(ks, (n % (1 << 128)).to_bytes(16, "big"))
        out.append(bytes(a ^ b for a, b in zip(data[i:i + 16], k)))
        n += 1
    return b"".join(out)


K = bytes.fromhex("603deb1015ca71be2b73aef0857d77811f352c073b6108d72d9810a30914dff4")
P = bytes.fromhex("6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e51")
assert ecb(K, P).hex() == "f3eed1bdb5d2a03c064b5a7e3db181f8591ccb10d410ed26dc5ba74a31362870"
assert cbc(K, bytes(range(16)), P).hex() == "f58c4c04d6e5f1ba779eabfb5f7bfbd69cfc4e967edb808d679f777bc6702c7d"
