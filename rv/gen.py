"""
Seeded generators: key material, certificates, registers and their histories,
and JSON texts. Independent of the code under test.
"""
import base64
import copy
import datetime
import hashlib
import json
import random
import unicodedata

from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import ec as cec
from cryptography.hazmat.primitives.asymmetric import ed25519, rsa

from . import ec, ref

BE = default_backend()

# ------------------------------------------------------------------------ DER


def tlv(tag, body):
    n = len(body)
    if n < 128:
        ln = bytes([n])
    else:
        b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
        ln = bytes([0x80 | len(b)]) + b
    return bytes([tag]) + ln + body


def seq(*items):
    return tlv(0x30, b''.join(items))


def integer(n):
    ln = max(1, (n.bit_length() + 8) // 8)
    if n < 0:
        ln = max(1, ((-n - 1).bit_length() + 8) // 8)
    return tlv(2, n.to_bytes(ln, 'big', signed=True))


def oid(s):
    p = [int(x) for x in s.split('.')]
    out = bytes([p[0] * 40 + p[1]])
    for v in p[2:]:
        b = [v & 0x7f]
        v >>= 7
        while v:
            b.insert(0, 0x80 | (v & 0x7f))
            v >>= 7
        out += bytes(b)
    return tlv(6, out)


def name(cn):
    return seq(tlv(0x31, seq(oid('2.5.4.3'), tlv(0x0c, cn.encode('utf-8')))))


NULL = tlv(5, b'')
ALGS = {
    ('ecdsa', 'sha256'): seq(oid('1.2.840.10045.4.3.2')),
    ('ecdsa', 'sha384'): seq(oid('1.2.840.10045.4.3.3')),
    ('ecdsa', 'sha512'): seq(oid('1.2.840.10045.4.3.4')),
    ('rsa', 'sha256'): seq(oid('1.2.840.113549.1.1.11'), NULL),
    ('rsa', 'sha384'): seq(oid('1.2.840.113549.1.1.12'), NULL),
    ('rsa', 'sha512'): seq(oid('1.2.840.113549.1.1.13'), NULL),
    ('ed25519', None): seq(oid('1.3.101.112')),
}
HASHES = {'sha256': hashes.SHA256(), 'sha384': hashes.SHA384(),
          'sha512': hashes.SHA512(), None: None}
DIGESTINFO = {
    'sha256': bytes.fromhex('3031300d060960864801650304020105000420'),
    'sha384': bytes.fromhex('3041300d060960864801650304020205000430'),
    'sha512': bytes.fromhex('3051300d060960864801650304020305000440'),
}


# ----------------------------------------------------------------------- keys

def _is_prime(n, rng):
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for _ in range(20):
        x = pow(rng.randrange(2, n - 1), d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


class Key(object):
    """kind: p256, p384, p521, rsa, ed25519"""

    def __init__(self, kind, num):
        self.kind, self.num = kind, num
        if kind == 'p256':
            self.priv = 1 + int.from_bytes(hashlib.sha512(
                b'rv key %d' % num).digest(), 'big') % (ec.N - 1)
            x, y = ec.mulG(self.priv)
            self.pub = cec.EllipticCurvePublicNumbers(x, y, cec.SECP256R1()).public_key(BE)
        elif kind == 'p384':
            self.priv = 1 + int.from_bytes(hashlib.sha256(b'rv p384 %d' % num).digest(), 'big')
            self.sk = cec.derive_private_key(self.priv, cec.SECP384R1(), BE)
            self.pub = self.sk.public_key()
        elif kind == 'rsa':
            r = random.Random('rv rsa %d' % num)
            ps = []
            while len(ps) < 2:
                p = r.getrandbits(512) | (3 << 510) | 1
                if p % 65537 != 1 and _is_prime(p, r):
                    ps.append(p)
            p, q = ps
            self.n = p * q
            self.priv = pow(65537, -1, (p - 1) * (q - 1))
            self.pub = rsa.RSAPublicNumbers(65537, self.n).public_key(BE)
        elif kind == 'p521':
            self.priv = 1 + int.from_bytes(hashlib.sha512(b'rv p521 %d' % num).digest(), 'big')
            self.sk = cec.derive_private_key(self.priv, cec.SECP521R1(), BE)
            self.pub = self.sk.public_key()
        elif kind == 'k256':
            # as long as P-256
            self.priv = 1 + int.from_bytes(hashlib.sha256(b'rv k256 %d' % num).digest(), 'big') % (2 ** 255)
            self.sk = cec.derive_private_key(self.priv, cec.SECP256K1(), BE)
            self.pub = self.sk.public_key()
        elif kind == 'ed25519':
            self.sk = ed25519.Ed25519PrivateKey.from_private_bytes(
                hashlib.sha256(b'rv ed %d' % num).digest())
            self.pub = self.sk.public_key()

    def spki(self):
        return self.pub.public_bytes(serialization.Encoding.DER,
                                     serialization.PublicFormat.SubjectPublicKeyInfo)

    def spki_pem(self):
        return self.pub.public_bytes(
            serialization.Encoding.PEM,
            serialization.PublicFormat.SubjectPublicKeyInfo).decode()

    def priv_pem(self):
        x, y = ec.mulG(self.priv)
        nums = cec.EllipticCurvePrivateNumbers(
            self.priv, cec.EllipticCurvePublicNumbers(x, y, cec.SECP256R1()))
        return nums.private_key(BE).private_bytes(
            serialization.Encoding.PEM, serialization.PrivateFormat.PKCS8,
            serialization.NoEncryption()).decode()

    def sigkind(self):
        return {'p256': 'ecdsa', 'p384': 'ecdsa', 'p521': 'ecdsa', 'k256': 'ecdsa', 'rsa': 'rsa',
                'ed25519': 'ed25519'}[self.kind]

    def sign_cert(self, data, h):
        if self.kind == 'p256':
            z = hashlib.new(h, data).digest()
            if h == 'sha256':
                r, s = ec.sign(self.priv, data)
            else:
                r, s = _sign_digest(self.priv, z)
            return seq(integer(r), integer(s))
        if self.kind in ('p384', 'p521', 'k256'):
            return self.sk.sign(data, cec.ECDSA(HASHES[h]))
        if self.kind == 'rsa':
            t = DIGESTINFO[h] + hashlib.new(h, data).digest()
            k = (self.n.bit_length() + 7) // 8
            em = b'\0\1' + b'\xff' * (k - 3 - len(t)) + b'\0' + t
            return pow(int.from_bytes(em, 'big'), self.priv, self.n).to_bytes(k, 'big')
        return self.sk.sign(data)


def _sign_digest(priv, dig):
    e = int.from_bytes(dig[:32], 'big')
    k = int.from_bytes(hashlib.sha512(b'k' + priv.to_bytes(32, 'big') + dig).digest(),
                       'big') % (ec.N - 1) + 1
    r = ec.mulG(k)[0] % ec.N
    s = pow(k, -1, ec.N) * (e + r * priv) % ec.N
    return r, s


_keys = {}


def key(kind, num):
    k = _keys.get((kind, num))
    if k is None:
        k = _keys[(kind, num)] = Key(kind, num)
    return k


def spki_pem(pub):
    return pub.public_bytes(serialization.Encoding.PEM,
                            serialization.PublicFormat.SubjectPublicKeyInfo).decode()


def dressed(rng, pem, p=.35):
    """A PEM file as other programs write it: with text around it, other line ends, further keys behind it."""
    if rng.random() >= p:
        return pem
    k = key('p256', 7)
    same, other = (Cert(k, k, 99).pem(), k.spki_pem()) if 'CERTIFICATE' in pem else (k.spki_pem(), Cert(k, k, 99).pem())
    t = rng.choice(['', '', '# a key\n', 'Bag Attributes\n    friendlyName: x\n', '\n\n', other]) + pem.rstrip('\n') + '\n'
    t += rng.choice(['', '', '\n \n', 'the end\n', same, other])
    if rng.random() < .3:
        t = t.rstrip('\n')
    if rng.random() < .3:
        t = t.replace('\n', '\r\n')
    return t


# ----------------------------------------------------------------------- certs

def _time(t):
    return tlv(0x18 if t[:2] not in ('19', '20') or t[:4] >= '2050' else 0x17,
               (t if t[:4] >= '2050' else t[2:]).encode())


VALIDITY = [('20170101000000Z', '20470101000000Z')] * 4 + [
    ('19500101000000Z', '20491231235959Z'), ('20000101000000Z', '20010101000000Z'),
    ('20480229120000Z', '99991231235959Z'), ('20170101000000Z', '20170101000000Z'),
    ('20600101000000Z', '20610101000000Z')]


def _ext(o, value, critical=False):
    return seq(oid(o), tlv(1, b'\xff') if critical else b'', tlv(4, value))


def look(serial, cn):
    """
    What a certificate says beside its key, serial, names and signature: version, time
    of validity, extensions. None of that matters for the trust in it.
    """
    h = hashlib.blake2b(('%d %s' % (serial, cn)).encode('utf-8', 'surrogatepass')).digest()
    a, b = VALIDITY[h[0] % len(VALIDITY)]
    version = tlv(0xa0, integer(2))
    ext = []
    if h[1] % 8 == 0:
        ext.append(_ext('2.5.29.19', seq(), True))                              # not a CA
    elif h[1] % 8 == 1:
        ext.append(_ext('2.5.29.19', seq(tlv(1, b'\xff'), integer(0)), True))   # CA, path length 0
    if h[2] % 8 == 0:
        ext.append(_ext('2.5.29.15', tlv(3, b'\x07\x80'), True))                # digitalSignature
    if h[3] % 8 == 0:
        ext.append(_ext('2.5.29.14', tlv(4, h[4:24])))                          # key identifier
    if h[3] % 16 == 1:
        ext.append(_ext('1.2.40.0.10.1.11.3', tlv(0x0c, cn.encode('utf-8', 'replace')), h[5] % 2 == 0))
    if not ext and h[6] % 6 == 0:
        version = b''                                                           # version 1
    return version, seq(_time(a), _time(b)), tlv(0xa3, seq(*ext)) if ext else b''


class Cert(object):
    def __init__(self, subj, issuer, serial, cn='leaf', icn='ca', h='sha256',
                 damage=None, extra=b''):
        kind = issuer.sigkind()
        if kind == 'ed25519':
            h = None
        alg = ALGS[(kind, h)]
        self.serial, self.key, self.pub = serial, subj, subj.pub
        self.version, validity, ext = look(serial, cn)
        self.tbs = seq(self.version, integer(serial), alg, name(icn), validity,
                       name(cn), subj.spki(), ext)
        self.sig = issuer.sign_cert(self.tbs, h)
        if damage is not None:
            # flip a bit of the signed value, keeps the DER structure
            b = bytearray(self.sig)
            b[-1 - damage % 20] ^= 1 << (damage % 8)
            self.sig = bytes(b)
        self.sigkind, self.sighash = kind, HASHES[h]
        self.der = seq(self.tbs, alg, tlv(3, b'\0' + self.sig))
        self.b64 = base64.b64encode(self.der).decode()

    def pem(self):
        s = self.b64
        return '-----BEGIN CERTIFICATE-----\n' + '\n'.join(
            s[i:i + 64] for i in range(0, len(s), 64)) + '\n-----END CERTIFICATE-----\n'

    def __repr__(self):
        return '<Cert %x>' % self.serial


def rekeyed(c, k):
    """c with another key in it, but the signature as it was."""
    out = Cert.__new__(Cert)
    out.__dict__.update(c.__dict__)
    old, new = c.key.spki(), k.spki()
    if len(old) != len(new) or c.tbs.count(old) != 1:
        raise ValueError('keys of different sizes')
    out.tbs = c.tbs.replace(old, new)
    out.der = c.der.replace(c.tbs, out.tbs)
    out.key, out.pub = k, k.pub
    out.b64 = base64.b64encode(out.der).decode()
    return out


def serial_number(rng):
    k = rng.randrange(8)
    if k == 0:
        return rng.randrange(1, 100)
    if k == 1:
        return int('%x' % rng.getrandbits(40), 16) * 16 + 10  # has a letter
    if k == 2:
        return int('1' + ''.join(rng.choice('0123456789') for _ in range(9)), 16)
    if k == 3:
        return -rng.randrange(1, 1 << 62)
    if k == 4:
        return rng.getrandbits(159) | (1 << 158)
    return rng.randrange(1, 1 << 63)


def serial_text(rng, n, forms=None):
    """A notation of a certificate's serial as used in receipts."""
    a = abs(n)
    f = rng.choice(forms or ['hex', 'hex', 'HEX', '0hex', 'dec', 'neg'])
    if f == 'hex':
        s = '%x' % a
    elif f == 'HEX':
        s = '%X' % a
    elif f == '0hex':
        s = '0' * rng.randrange(1, 4) + '%x' % a
    elif f == 'neg':
        s = '-%x' % a
    else:
        s = '%d' % a
    return s


def make_chain(rng, leafkey, depth, serials, kinds=('p256', 'p256', 'rsa', 'p384')):
    """leaf, [intermediates..., root]; each signed by the next."""
    keys = [leafkey] + [key(rng.choice(kinds), rng.randrange(2)) for _ in range(depth)]
    certs = []
    same = rng.random() < .15   # names mean nothing
    for i, k in enumerate(keys):
        iss = keys[i + 1] if i + 1 < len(keys) else keys[-1]
        n = serial_number(rng)
        while ref.serial_id(n) in serials:
            n = serial_number(rng)
        serials.add(ref.serial_id(n))
        h = 'sha256'
        if iss.kind == 'p384':
            h = rng.choice(['sha256', 'sha384'])
        elif rng.random() < .2:
            h = 'sha512'
        certs.append(Cert(k, iss, n, 'c' if same else 'c%d' % i, 'c' if same else 'c%d' % (i + 1), h))
    return certs


class Dev(object):
    """A signature device as it appears in receipts."""

    def __init__(self, zda, serial, k, cert=None, chain=()):
        self.zda, self.serial, self.key = zda, serial, k
        self.cert, self.chain = cert, list(chain)


# -------------------------------------------------------------------- registers

LETTERS = 'ABCDEFGHKLMNPQRSTUVWXYZ'


def ident(rng, uni=True):
    if rng.random() < .04:
        # long ones that only differ at their ends
        return rng.choice(['Filiale Wien-Landstra%ce/' % rng.choice(u's\xdf'), 'K-', '0', 'x.']) * \
            rng.choice([20, 35, 64, 130]) + str(rng.randrange(10))
    k = rng.randrange(7)
    if k == 0:
        return 'DEMO-CASH-BOX%d' % rng.randrange(1000)
    if k == 1:
        return str(rng.randrange(10000))
    if k == 2 and uni:
        return ''.join(rng.choice(u'äöüßÄ€é漢字🎉Ωı') for _ in range(rng.randrange(1, 5))) + str(rng.randrange(10))
    if k == 3:
        return 'Kassa %d/%s' % (rng.randrange(9), rng.choice(LETTERS))
    if k == 4:
        return ''.join(rng.choice('abc.:,#+*~()[]{}"\'\\/<>|=&%$! ?@-') for _ in range(rng.randrange(1, 12))).strip() or 'x'
    return ''.join(rng.choice(LETTERS + '0123456789') for _ in range(rng.randrange(1, 20)))


class Ids(object):
    """Distinct receipt IDs of a chosen style."""

    def __init__(self, rng, style=None):
        self.rng = rng
        self.style = style or rng.choice(['num', 'pad', 'nat', 'rand', 'uni', 'case'])
        self.n = rng.choice([0, 1, 7, 95, 998, rng.randrange(1 << 30)])
        self.prefix = ident(rng, True).replace('_', '')
        while self.prefix[-1:].isdigit():
            self.prefix = self.prefix[:-1]
        self.seen = set()

    def next(self):
        while True:
            r = self.rng
            self.n += r.choice([1, 1, 1, 2, 9])
            if self.style == 'num':
                s = str(self.n)
            elif self.style == 'pad':
                s = '%012d' % self.n
            elif self.style == 'nat':
                s = '%s%d' % (self.prefix, self.n)
            elif self.style == 'uni':
                s = '%s%d%s' % (r.choice(u'äÖ€漢🎉ſ'), r.randrange(100), r.choice(u'é.!x '))
                s = s.strip()
            elif self.style == 'case':
                s = ''.join(r.choice('aAbB') for _ in range(6))
            else:
                s = ''.join(r.choice('abcdefghijklmnopqrstuvwxyzABCDEFGH0123456789-/.')
                            for _ in range(r.randrange(1, 14)))
            if len(self.seen) > 300 and self.style in ('uni', 'case'):
                s += str(self.n)    # there are only some thousand others
            if s and s not in self.seen:
                self.seen.add(s)
                return s


def cents_text(c, rng=None):
    if c == 0:
        return '-0,00' if rng is not None and rng.random() < .1 else '0,00'
    s = '%03d' % abs(c)
    return ('-' if c < 0 else '') + s[:-2] + ',' + s[-2:]


def balanced(rng):
    """Sums of a receipt with turnover that adds up to zero."""
    while True:
        v = split_sums(rng, rng.choice([0, 0, rng.randrange(-10**6, 10**6)]))
        k = rng.randrange(5)
        v[k] -= sum(v)
        if any(v):
            return [cents_text(c, rng) for c in v]


def split_sums(rng, total):
    """Five sums that add up to total."""
    v = [0] * 5
    k = rng.randrange(1, 6)
    pos = rng.sample(range(5), k)
    rest = total
    for p in pos[:-1]:
        if abs(total) > 1 and rng.random() < .7:
            x = rng.randrange(-abs(total), abs(total) + 1)
        else:
            x = rng.randrange(-5, 500)
        v[p] = x
        rest -= x
    v[pos[-1]] = rest
    return v


class Meta(object):
    __slots__ = ('jws', 'kind', 'failed', 'null', 'dev', 'rid', 'dt', 'r', 'tc', 'sums')


PROFILES = [None, None, None, 'runs', 'special', 'special', 'nulls', 'outages']


EPOCH = datetime.datetime(2016, 1, 1)
# around the changes of daylight saving time (workers run in different time zones), the ends of
# POSIX time, 32 bit time and the calendar
TIMES = [int((datetime.datetime(*t) - EPOCH).total_seconds()) for t in (
    (2016, 3, 27, 1, 59, 58), (2016, 10, 30, 1, 59, 58), (2024, 3, 31, 1, 30), (2024, 10, 27, 2, 0),
    (2020, 4, 5, 1, 59, 59), (2020, 9, 27, 1, 59, 59), (1969, 12, 31, 23, 59, 58), (2038, 1, 19, 3, 14, 6),
    (2016, 12, 31, 23, 59, 58), (1, 1, 2), (999, 12, 31, 23, 59), (9980, 1, 1), (2020, 2, 28, 23, 59, 59))]


def stamp(t):
    return '%04d-%02d-%02dT%02d:%02d:%02d' % (t.year, t.month, t.day, t.hour, t.minute, t.second)


def change(now, rng):
    """A time shortly before or within a change of daylight saving time (see core.ZONES)."""
    if not 1900 < now.year < 2100:
        return 0
    month, hour = rng.choice([(3, 1), (3, 2), (9, 2), (10, 2), (4, 2)])
    day = datetime.datetime(now.year + (now.month > month), month, 1)
    while day.weekday() != 6 or (month != 4 and (day + datetime.timedelta(7)).month == month):
        day += datetime.timedelta(1)
    day += datetime.timedelta(hours=hour, minutes=rng.choice([0, 30, 50, 59]))
    return int((day - EPOCH).total_seconds())


class Sim(object):
    """
    A register that follows the regulation. kinds: standard, training, reversal.
    """

    def __init__(self, rng, **o):
        self.rng = rng
        self.reg = o.get('reg') or ident(rng).replace('_', '')
        self.key = o.get('key') or hashlib.sha256(b'aes %d' % rng.randrange(5)).digest()
        self.size = o.get('size') or rng.choice([5, 5, 6, 8, 8, 8, 12, 16, rng.randrange(5, 17)])
        self.ids = o.get('ids') or Ids(rng, o.get('idstyle'))
        self.last = None
        self.start = None
        self.chain_to = o.get('chain_to')
        self.tc = 0
        self.need = False
        self.prev_failed = False
        self.t = o['t'] if o.get('t') is not None else rng.choice(
            [63000000, 0, 86400 * 365 * 3 - 20, rng.randrange(10**9), rng.randrange(10**9), rng.choice(TIMES)])
        self.metas = []
        self.big = o.get('big', rng.random() < .35)
        self.nonce = rng.randrange(1 << 30)
        self.profile = o['profile'] if 'profile' in o else rng.choice(PROFILES)
        self.lastk = 1.0

    def clock(self):
        self.t += self.rng.choice([0, 0, 1, 1, 59, 1500, 3600, 86400, 86400 * 31])
        if self.rng.random() < .08:
            self.t = max(self.t, change(EPOCH + datetime.timedelta(seconds=self.t), self.rng))
        return stamp(EPOCH + datetime.timedelta(seconds=self.t))

    def amount(self):
        rng = self.rng
        lim = 1 << (8 * self.size - 1)
        while True:
            if self.big:
                k = rng.randrange(6)
                if k == 0:
                    tgt = lim - 1 - rng.randrange(3)
                elif k == 1:
                    tgt = -lim + rng.randrange(3)
                elif k == 2:
                    tgt = rng.choice([1, -1]) * ((1 << 53) + rng.randrange(-3, 4))
                elif k == 3:
                    tgt = rng.randrange(-lim, lim)
                else:
                    tgt = self.tc + rng.choice([1, -1, 99, -100, 10**9 + 1])
                a = tgt - self.tc
            else:
                a = rng.choice([rng.randrange(1, 100), rng.randrange(-5000, 5000),
                                rng.randrange(1, 10**6), 1, -1, -99, 100])
            if a and -lim <= self.tc + a < lim:
                return a
            if rng.random() < .05:
                self.big = False
                if not -lim + 10**7 < self.tc < lim - 10**7:
                    a = -self.tc // 2 if abs(self.tc) > 1 else 1
                    if a and -lim <= self.tc + a < lim:
                        return a

    def emit(self, dev, kind='standard', total=None, failed=False, **ov):
        """Appends one receipt; overrides: any field by name."""
        rng = self.rng
        m = Meta()
        m.dev = dev
        m.rid = ov.get('rid') or self.ids.next()
        m.dt = ov.get('dt') or self.clock()
        if total is None:
            total = 0
        if 'sums' in ov:
            sums = ov['sums']
        elif total == 0 and (ov.get('null') or rng.random() < .9):
            sums = [cents_text(0, rng) for _ in range(5)]
        else:
            sums = [cents_text(c, rng) for c in split_sums(rng, total)]
        m.sums = sums
        cents = sum(int(s.replace(',', '')) for s in sums)
        reg = ov.get('reg', self.reg)
        if kind != 'training':
            self.tc += cents
        if kind == 'standard':
            size = ov.get('size', self.size)
            tc = ref.enc_counter(ov.get('key', self.key), reg, m.rid,
                                 ov.get('tc', self.tc), size)
            if tc[:3] in (b'TRA', b'STO'):
                pass
        else:
            tc = {'training': b'TRA', 'reversal': b'STO'}[kind]
        tc64 = ov.get('tc64') or ref.b64(tc)
        prev = self.last if self.last is not None else (self.chain_to or reg)
        chain = ov.get('chain') or ref.chain_value(ov.get('chain_to') or prev)
        pay = ref.make_payload(ov.get('zda', dev.zda), reg, m.rid, m.dt, sums, tc64,
                               ov.get('serial', dev.serial), chain, ov.get('alg', 'R1'))
        h = ref.b64u(ov.get('header', ref.HEADER).encode('utf-8'))
        signed = h + '.' + ref.b64u(pay.encode('utf-8'))
        if failed:
            sig = ref.BROKEN
        else:
            self.nonce += 1
            sig = ec.sign_raw(ov.get('priv', dev.key.priv), signed.encode(),
                              b'%d' % self.nonce)
        if 'sig' in ov:
            sig = ov['sig']
        m.jws = signed + '.' + ref.b64u(sig)
        m.kind, m.failed = kind, failed
        m.r = ref.parse_jws(m.jws)
        m.null = m.r.null if m.r.cls == ref.OK else None
        special = kind != 'standard' or not m.null
        if failed:
            pass
        elif self.last is not None and special:
            if self.prev_failed:
                self.need = True
        else:
            self.need = False
        if self.last is None:
            self.start = m.jws
        self.prev_failed = failed
        self.last = m.jws
        m.tc = self.tc
        self.metas.append(m)
        return m

    def stretch(self, devs, n=None, how=None):
        """Appends many receipts of the same kind; the rules allow all of them."""
        rng = self.rng
        devs = devs if isinstance(devs, list) else [devs]
        dev = rng.choice(devs)
        n = n or rng.choice([40, 66, 101, 130, 258, rng.randrange(20, 300)])
        if self.last is None or self.need:
            self.emit(dev, 'standard', 0, null=True)
        how = how or rng.choice(['outage', 'outage', 'outages', 'training', 'reversal', 'null', 'standard', 'groups'])
        kind = rng.choice(['standard', 'standard', 'training', 'reversal', None])
        for i in range(n):
            failed = how == 'outage' or how == 'outages' and i % 3 == 1
            k = kind if how in ('outage', 'outages', 'groups') else 'standard' if how == 'null' else how
            if how == 'special':
                k = rng.choice(['training', 'training', 'reversal'])
            k = k or rng.choice(['standard', 'training', 'reversal'])
            if how == 'groups':
                dev = devs[i % len(devs)]
            if how == 'null' or self.need:
                self.emit(dev, 'standard', 0, failed and not self.need, null=True)
            elif k == 'standard' or rng.random() < .8:
                self.emit(dev, k, self.amount(), failed)
            else:
                self.emit(dev, k, 0, failed)
        if self.prev_failed and rng.random() < .5:
            self.emit(dev, 'standard', 0, null=True)
        return how

    def legal(self, devs, fail_p=.15, **ov):
        """Appends one receipt that the rules allow here."""
        rng = self.rng
        dev = rng.choice(devs) if isinstance(devs, list) else devs
        if self.last is None:
            return self.emit(dev, 'standard', 0, null=True, **ov)
        if self.need:
            return self.emit(dev, 'standard', 0, null=True, **ov)
        failed = rng.random() < (fail_p if not self.prev_failed else
                                 .7 if self.profile == 'outages' else .4)
        k = rng.random()
        if self.profile == 'runs' and rng.random() < .7:
            k = self.lastk              # long runs of the same kind
        elif self.profile == 'special' and rng.random() < .75:
            k = .2 + .3 * k             # few receipts with a counter
        elif self.profile == 'nulls' and rng.random() < .6:
            k = .2 * k
        self.lastk = k
        if k < .2:
            return self.emit(dev, 'standard', 0, failed, null=True, **ov)
        if k < .32:
            return self.emit(dev, 'training',
                             rng.choice([0, self.amount()]), failed, **ov)
        if k < .5:
            return self.emit(dev, 'reversal', rng.choice([0, self.amount(), self.amount()]), failed, **ov)
        if rng.random() < .08:
            return self.emit(dev, 'standard', 0, failed, sums=balanced(rng), **ov)
        return self.emit(dev, 'standard', self.amount(), failed, **ov)


def near(rng, s):
    """Another identifier that is almost s."""
    while True:
        c = rng.choice([s + ' ', ' ' + s, s.swapcase(), s.lower(), s.upper(), s + '0', '0' + s, s[:-1], s[1:],
                        s + '-1', s + 'x', s + '.', s[::-1], s + s, s.rstrip('0123456789'),
                        unicodedata.normalize('NFD', s), unicodedata.normalize('NFC', s),
                        unicodedata.normalize('NFKC', s), s + u'\u0301', s + u'\u200b', u'\ufeff' + s,
                        s.replace('1', u'\u0661'), s.replace('0', 'O'), s.rsplit('-', 1)[0], s.split('-')[0], s.split(' ')[0],
                        s.split('.')[0], s.rsplit('/', 1)[0], s.replace('-', u'\u2010'), s.strip()])
        if c and c != s and ('_' in s or '_' not in c):
            return c


class Hist(object):
    """groups: list of [list of Meta, cert, chain]"""

    def __init__(self):
        self.groups = []
        self.ks = ref.Ks()
        self.sim = None
        self.key = None
        self.devs = []

    def ref_groups(self):
        return [([m.jws for m in g[0]], g[1], g[2]) for g in self.groups]

    def dep(self):
        return make_dep(self.ref_groups())

    @property
    def metas(self):
        return [m for g in self.groups for m in g[0]]


def make_dep(groups):
    return {'Belege-Gruppe': [
        {'Signaturzertifikat': c.b64 if c is not None else '',
         'Zertifizierungsstellen': [x.b64 for x in ch],
         'Belege-kompakt': list(recs)} for recs, c, ch in groups]}


def devices(rng, closed, certful, ks, n, serials=None):
    """n devices whose keys or certificates are trusted through ks."""
    out = []
    serials = set() if serials is None else serials
    start = rng.randrange(100)
    kids = set()
    for i in range(n):
        k = key('p256', (start + i) % 40)
        if closed:
            while True:
                t = rng.randrange(4)
                if t == 0:
                    kid = 'U:ATU%08d' % rng.randrange(10**8)
                elif t == 1:
                    kid = 'S:%09d' % rng.randrange(10**9)
                elif t == 2:
                    kid = 'G:%013d' % rng.randrange(10**13)
                else:
                    kid = 'U:' + ''.join(rng.choice(LETTERS + '0123456789') for _ in range(rng.randrange(1, 15)))
                if rng.random() < .6:
                    kid += '-' + rng.choice(['K%d' % i, '%d' % rng.randrange(100), 'x%dY' % i])
                if kid not in kids:
                    kids.add(kid)
                    break
            zda, ser = 'AT0', kid
        else:
            zda = rng.choice(['AT1', 'AT2', 'AT3', 'AT100', 'DE17'])
            ser = None
        if certful or not closed:
            chain = make_chain(rng, k, rng.choice([0, 0, 1, 1, 2, 3, 0, 0, 1, 1, 2, 6]) if certful else 0,
                               serials)
            leaf = chain[0]
            if not closed:
                while True:
                    ser = serial_text(rng, leaf.serial)
                    # The decimal notation also is a hexadecimal one.
                    others = set(serials) - {ref.serial_id(leaf.serial)}
                    if not set(ref.serial_ids(ser)) & others:
                        break
            if certful:
                ks.add_cert(rng.choice(chain))
                out.append(Dev(zda, ser, k, leaf, chain[1:]))
            else:
                if rng.random() < .7:
                    ks.add_cert(leaf)
                else:
                    ks.add_key(ref.serial_id(leaf.serial), k.pub)
                out.append(Dev(zda, ser, k))
        else:
            ks.add_key(ser, k.pub)
            out.append(Dev(zda, ser, k))
    return out


def regroup(rng, metas, certful, cutp=None):
    """Groups receipts by device; random further cuts and empty groups."""
    groups = []
    cutp = rng.choice([0, 0, .1, .5]) if cutp is None else cutp
    for m in metas:
        if groups and (not certful or (groups[-1][1] is m.dev.cert and rng.random() >= cutp)):
            groups[-1][0].append(m)
        else:
            groups.append([[m], m.dev.cert if certful else None,
                           m.dev.chain if certful else []])
    if certful and rng.random() < .15:
        d = rng.choice(metas).dev
        groups.insert(rng.randrange(len(groups) + 1), [[], d.cert, d.chain])
    return groups


def history(rng, n, closed=None, certful=None, ndev=None, fail_p=.15, stretch=0, **simopts):
    """A legal history of n receipts, now and then with a long run of the same kind in it."""
    h = Hist()
    h.stretch = None
    long = rng.randrange(n + 1) if stretch and rng.random() < stretch else None
    closed = rng.random() < .4 if closed is None else closed
    certful = rng.random() < .6 if certful is None else certful
    h.closed, h.certful = closed, certful
    h.devs = devices(rng, closed, certful, h.ks, ndev or rng.choice([1, 1, 2, 3]))
    # unrelated entries
    for _ in range(rng.choice([0, 0, 1, 3])):
        h.ks.add_key('S:%09d' % rng.randrange(10**9), key('p256', 60 + rng.randrange(5)).pub)
    h.sim = Sim(rng, **simopts)
    h.key = h.sim.key
    cur = rng.choice(h.devs)
    for i in range(n):
        if rng.random() < .2:
            cur = rng.choice(h.devs)
        if i == long:
            h.stretch = h.sim.stretch(h.devs)
        h.sim.legal(cur, fail_p)
    if n == long:
        h.stretch = h.sim.stretch(h.devs)
    h.groups = regroup(rng, h.sim.metas, certful)
    return h


# ------------------------------------------------------------------ JSON texts

def jstr(rng, s, esc):
    if not esc:
        return json.dumps(s, ensure_ascii=rng.random() < .5)
    out = []
    for ch in s:
        if rng.random() < .1 and ord(ch) < 0x10000:
            out.append('\\u%04x' % ord(ch))
        elif ch == '/' and rng.random() < .5:
            out.append('\\/')
        else:
            out.append(json.dumps(ch, ensure_ascii=False)[1:-1])
    return '"' + ''.join(out) + '"'


def junk(rng, depth=0):
    k = rng.randrange(9 if depth < 3 else 6)
    if k == 0:
        return None
    if k == 1:
        return rng.choice([True, False])
    if k == 2:
        return rng.choice([0, -1, 17, 10**12, 2**63 - 1, -2**63])
    if k == 3:
        return rng.choice([1.5, -0.25, 1e300])
    if k in (4, 5):
        return rng.choice(['', 'x', 'Belege-Gruppe', 'Signaturzertifikat', u'äö€🎉',
                           'Belege-kompakt', '}]{["', 'a\\b'])
    if k == 6:
        return [junk(rng, depth + 1) for _ in range(rng.randrange(4))]
    names = ['foo', 'Belege-Gruppe', 'Belege-kompakt', 'Signaturzertifikat',
             'Zertifizierungsstellen', 'item', 'x y', u'ü']
    rng.shuffle(names)
    return {names[i]: junk(rng, depth + 1) for i in range(rng.randrange(4))}


def dumps(rng, v, ws, esc, order=None, path=()):
    """A JSON text of v with random whitespace, escapes and element order."""
    def w():
        if ws == 0:
            return ''
        if ws == 1:
            return rng.choice(['', ' ', '\n', '\t', '\r\n  '])
        return rng.choice(['', ' ' * rng.randrange(70)])
    if isinstance(v, dict):
        items = list(v.items())
        if order is not None:
            items = order(path, items)
        return '{' + w() + (',' + w()).join(
            w() + jstr(rng, k, esc) + w() + ':' + w() + dumps(rng, x, ws, esc, order, path + (k,)) + w()
            for k, x in items) + '}'
    if isinstance(v, list):
        return '[' + w() + (',' + w()).join(
            dumps(rng, x, ws, esc, order, path + ('[]',)) + w() for x in v) + ']'
    if isinstance(v, str):
        return jstr(rng, v, esc)
    return json.dumps(v)


NEAR = 'near'
CERT_KEYS = ('Signaturzertifikat', 'Zertifizierungsstellen')


def layout(rng, dep, certs_first=False, extras=None, bom=None):
    """A JSON text (bytes) that means dep."""
    dep = copy.deepcopy(dep)
    extras = rng.random() < .4 if extras is None else extras
    if extras:
        def add(d, reserved):
            for _ in range(rng.randrange(3)):
                k = rng.choice(['extra', 'Kassen-ID', u'Größe', 'z', 'item2', 'Hinweis zum DEP', NEAR])
                if k == NEAR:
                    # almost one of the elements that count
                    k = rng.choice(reserved + ('Belege-Gruppe', 'Belege-kompakt'))
                    k = rng.choice([k.lower(), k.upper(), k + '2', k + 'n', ' ' + k, k + ' ', k[:-1], 'x' + k,
                                    k.replace('-', '_'), k + '-item'])
                if k not in reserved:
                    d[k] = junk(rng)
        add(dep, ('Belege-Gruppe',))
        for g in dep['Belege-Gruppe']:
            add(g, CERT_KEYS + ('Belege-kompakt',))

    def order(path, items):
        items = list(items)
        if path == () or path == ('Belege-Gruppe', '[]'):
            rng.shuffle(items)
            if certs_first and path:
                i = [k for k, _ in items].index('Belege-kompakt')
                rec = items.pop(i)
                last = max(j for j, (k, _) in enumerate(items) if k in CERT_KEYS)
                items.insert(rng.randrange(last + 1, len(items) + 1), rec)
        return items
    text = dumps(rng, dep, rng.choice([0, 1, 1, 2]), rng.random() < .3, order)
    bom = rng.random() < .15 if bom is None else bom
    lead = rng.choice(['', '', '\n', '  '])
    tail = rng.choice(['', '\n', ' \r\n'])
    return (b'\xef\xbb\xbf' if bom else b'') + (lead + text + tail).encode('utf-8')
