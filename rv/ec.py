"""
Deterministic P-256 signatures in plain Python (fixed base table, nonces derived
from key and message). Written so that workloads are bit-for-bit reproducible
from a seed; it shares nothing with the code under test.
"""
import hashlib
import hmac

P = 2**256 - 2**224 + 2**192 + 2**96 - 1
N = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
B = 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b
GX = 0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296
GY = 0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5


def _add_affine(p, q):
    if p is None:
        return q
    if q is None:
        return p
    if p[0] == q[0]:
        if (p[1] + q[1]) % P == 0:
            return None
        lam = (3 * p[0] * p[0] - 3) * pow(2 * p[1], -1, P) % P
    else:
        lam = (q[1] - p[1]) * pow(q[0] - p[0], -1, P) % P
    x = (lam * lam - p[0] - q[0]) % P
    return x, (lam * (p[0] - x) - p[1]) % P


_table = None


def _mk_table():
    # table[w][d] = d * 2^(6w) * G
    global _table
    tab = []
    base = (GX, GY)
    for _w in range(43):
        row = [None]
        acc = None
        for _d in range(63):
            acc = _add_affine(acc, base)
            row.append(acc)
        tab.append(row)
        base = _add_affine(acc, base)
    _table = tab


def _madd(X1, Y1, Z1, x2, y2):
    Z1Z1 = Z1 * Z1 % P
    U2 = x2 * Z1Z1 % P
    S2 = y2 * Z1 * Z1Z1 % P
    H = (U2 - X1) % P
    R = (S2 - Y1) % P
    if H == 0:
        if R == 0:
            return _dbl(X1, Y1, Z1)
        return None
    HH = H * H % P
    HHH = H * HH % P
    V = X1 * HH % P
    X3 = (R * R - HHH - 2 * V) % P
    Y3 = (R * (V - X3) - Y1 * HHH) % P
    return X3, Y3, Z1 * H % P


def _dbl(X1, Y1, Z1):
    d = Z1 * Z1 % P
    g = Y1 * Y1 % P
    b = X1 * g % P
    a = 3 * (X1 - d) * (X1 + d) % P
    X3 = (a * a - 8 * b) % P
    Z3 = ((Y1 + Z1) ** 2 - g - d) % P
    return X3, (a * (4 * b - X3) - 8 * g * g) % P, Z3


def mulG(k):
    if _table is None:
        _mk_table()
    acc = None
    w = 0
    while k:
        d = k & 63
        k >>= 6
        if d:
            x, y = _table[w][d]
            if acc is None:
                acc = (x, y, 1)
            else:
                acc = _madd(acc[0], acc[1], acc[2], x, y)
        w += 1
    zi = pow(acc[2], -1, P)
    zi2 = zi * zi % P
    return acc[0] * zi2 % P, acc[1] * zi2 * zi % P


def nonce(priv, msg, extra=b''):
    ctr = 0
    while True:
        k = int.from_bytes(hmac.new(priv.to_bytes(32, 'big') + extra,
            hashlib.sha256(msg).digest() + bytes([ctr]),
            hashlib.sha256).digest(), 'big')
        if 0 < k < N:
            return k
        ctr += 1


def sign(priv, msg, extra=b''):
    """ECDSA/SHA-256; returns (r, s)."""
    e = int.from_bytes(hashlib.sha256(msg).digest(), 'big')
    while True:
        k = nonce(priv, msg, extra)
        r = mulG(k)[0] % N
        s = pow(k, -1, N) * (e + r * priv) % N
        if r and s:
            return r, s
        extra += b'x'


def sign_raw(priv, msg, extra=b''):
    r, s = sign(priv, msg, extra)
    return r.to_bytes(32, 'big') + s.to_bytes(32, 'big')


def mul(k, p):
    """Any point, affine."""
    acc = None
    for bit in bin(k)[2:]:
        if acc is not None:
            acc = _dbl(*acc)
        if bit == '1':
            acc = (p[0], p[1], 1) if acc is None else _madd(acc[0], acc[1], acc[2], *p)
    if acc is None or acc[2] % P == 0:
        return None
    zi = pow(acc[2], -1, P)
    return acc[0] * zi * zi % P, acc[1] * zi * zi * zi % P


def verify(pub, msg, sig):
    """pub: (x, y); sig: raw"""
    x, y = pub
    if (y * y - x * x * x + 3 * x - B) % P or len(sig) != 64:
        return False
    r, s = int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:], 'big')
    if not (0 < r < N and 0 < s < N):
        return False
    e = int.from_bytes(hashlib.sha256(msg).digest(), 'big')
    w = pow(s, -1, N)
    u, v = e * w % N, r * w % N
    q = _add_affine(mulG(u) if u else None, mul(v, pub))
    return q is not None and q[0] % N == r
