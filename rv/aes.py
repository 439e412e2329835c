"""AES-256 in plain Python (FIPS 197), only what a counter needs."""


def _tables():
    p = q = 1
    sbox = [0] * 256
    while True:
        p = p ^ (p << 1) & 0xff ^ (0x1b if p & 0x80 else 0)
        q ^= q << 1
        q ^= q << 2
        q ^= q << 4
        q &= 0xff
        if q & 0x80:
            q ^= 0x09
        x = q
        for i in range(1, 5):
            x ^= (q << i | q >> (8 - i)) & 0xff
        sbox[p] = x ^ 0x63
        if p == 1:
            break
    sbox[0] = 0x63
    return sbox


S = _tables()


def _xt(a):
    return (a << 1) & 0xff ^ (0x1b if a & 0x80 else 0)


def expand(key):
    w = [list(key[i:i + 4]) for i in range(0, 32, 4)]
    rc = 1
    for i in range(8, 60):
        t = list(w[-1])
        if i % 8 == 0:
            t = [S[b] for b in t[1:] + t[:1]]
            t[0] ^= rc
            rc = _xt(rc)
        elif i % 8 == 4:
            t = [S[b] for b in t]
        w.append([a ^ b for a, b in zip(w[i - 8], t)])
    return [sum(w[i:i + 4], []) for i in range(0, 60, 4)]


def block(key, data):
    ks = expand(key)
    s = [a ^ b for a, b in zip(data, ks[0])]
    for r in range(1, 15):
        s = [S[b] for b in s]
        s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
        if r < 14:
            o = []
            for c in range(0, 16, 4):
                a = s[c:c + 4]
                t = a[0] ^ a[1] ^ a[2] ^ a[3]
                o += [a[i] ^ t ^ _xt(a[i] ^ a[(i + 1) % 4]) for i in range(4)]
            s = o
        s = [a ^ b for a, b in zip(s, ks[r])]
    return bytes(s)


def ctr(key, iv, data):
    n = int.from_bytes(iv, 'big')
    out = b''
    for i in range(0, len(data), 16):
        k = block(key, (n % (1 << 128)).to_bytes(16, 'big'))
        out += bytes(a ^ b for a, b in zip(data[i:i + 16], k))
        n += 1
    return out
