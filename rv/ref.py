"""
Reference model of the RKSV: texts, cryptography, trust and the rules for a DEP.
Written from the regulation; imports nothing from the code under test.
"""
import base64
import binascii
import copy
import datetime
import hashlib
import re

from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec as cec
from cryptography.hazmat.primitives.asymmetric import padding, rsa
from cryptography.hazmat.primitives.asymmetric.utils import encode_dss_signature
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

HEADER = '{"alg":"ES256"}'
BROKEN = b'Sicherheitseinrichtung ausgefallen'
N = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551


def sha(b):
    return hashlib.sha256(b).digest()


def b64(b):
    return base64.b64encode(b).decode('ascii')


def b64u(b):
    return base64.urlsafe_b64encode(b).decode('ascii').rstrip('=')


def unb64u(s):
    return base64.urlsafe_b64decode(s + '=' * (-len(s) % 4))


HEADER64 = b64u(HEADER.encode())
BROKEN64 = b64u(BROKEN)


# ---------------------------------------------------------------- primitives

def keystream(key, reg, rid):
    iv = sha((reg + rid).encode('utf-8'))[:16]
    e = Cipher(algorithms.AES(key), modes.ECB(), backend=default_backend()).encryptor()
    return e.update(iv) + e.finalize()


def enc_counter(key, reg, rid, value, size):
    pt = (value & ((1 << (8 * size)) - 1)).to_bytes(size, 'big')
    return bytes(a ^ b for a, b in zip(pt, keystream(key, reg, rid)))


def dec_counter(key, reg, rid, ct):
    pt = bytes(a ^ b for a, b in zip(ct, keystream(key, reg, rid)))
    v = int.from_bytes(pt, 'big')
    if pt and pt[0] & 0x80:
        v -= 1 << (8 * len(pt))
    return v


def chain_value(text):
    return b64(sha(text.encode('utf-8'))[:8])


def url_hash(code):
    return b64u(sha(code.encode('utf-8'))[:8])


_vcache = {}


def verify_es256(pub, signed, sig):
    """pub: cryptography public key object; sig: raw bytes."""
    if not isinstance(pub, cec.EllipticCurvePublicKey) or pub.curve.name != 'secp256r1':
        return False
    if len(sig) != 64:
        return False
    r, s = int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:], 'big')
    if not (0 < r < N and 0 < s < N):
        return False
    nums = pub.public_numbers()
    k = (nums.x, nums.y, signed, sig)
    v = _vcache.get(k)
    if v is None:
        try:
            pub.verify(encode_dss_signature(r, s), signed.encode('utf-8'),
                       cec.ECDSA(hashes.SHA256()))
            v = True
        except InvalidSignature:
            v = False
        if len(_vcache) > 20000:
            _vcache.clear()
        _vcache[k] = v
    return v


# -------------------------------------------------------------------- grammar

ZDA = re.compile(r'(?:[A-Z][A-Z][1-9][0-9]*|AT0)', re.A)
SUM = re.compile(r'-?(?:0|[1-9][0-9]*),[0-9][0-9]', re.A)
DT = re.compile(r'([0-9]{4})-([0-9]{2})-([0-9]{2})T([0-9]{2}):([0-9]{2}):([0-9]{2})', re.A)
TAX = re.compile(r'S:[0-9]{9}', re.A)
UID = re.compile(r'U:[0-9A-Z]{1,14}', re.A)
GLN = re.compile(r'G:[0-9]{13}', re.A)
HEXS = re.compile(r'-?[0-9a-fA-F]+', re.A)
CTRL = re.compile('[\x00-\x1f\x7f-\x9f\u2028\u2029\ud800-\udfff]')

OK, BAD, UNSPEC = 'ok', 'bad', 'unspec'


def worst(*v):
    v = list(v)
    return BAD if BAD in v else UNSPEC if UNSPEC in v else OK


def cls_b64(s, urlsafe=False):
    """(class, decoded or None)"""
    alpha = r'[A-Za-z0-9_-]*' if urlsafe else r'[A-Za-z0-9+/]*'
    m = re.fullmatch('(' + alpha + ')(=*)', s, re.A)
    if not m:
        return BAD, None
    body, pad = m.group(1), m.group(2)
    if len(body) % 4 == 1:
        return BAD, None
    std = body.replace('-', '+').replace('_', '/')
    want = '=' * (-len(body) % 4)
    dec = base64.b64decode(std + want)
    if urlsafe:
        if pad:
            return BAD, None
    elif pad != want:
        if len(pad) < len(want):
            return BAD, None
        return UNSPEC, dec
    if b64(dec).rstrip('=') != std:
        return UNSPEC, dec
    return OK, dec


def cls_b32(s):
    m = re.fullmatch(r'([A-Z2-7]*)(=*)', s, re.A)
    if not m:
        return BAD, None
    body, pad = m.group(1), m.group(2)
    if len(body) % 8 in (1, 3, 6):
        return BAD, None
    want = '=' * (-len(body) % 8)
    dec = base64.b32decode(body + want)
    if pad != want:
        if len(pad) < len(want):
            return BAD, None
        return UNSPEC, dec
    if base64.b32encode(dec).decode().rstrip('=') != body:
        return UNSPEC, dec
    return OK, dec


def cls_sum(s):
    if not SUM.fullmatch(s):
        return BAD
    return OK if len(s) < 200 else UNSPEC


def cls_dt(s):
    m = DT.fullmatch(s)
    if not m:
        return BAD
    try:
        datetime.datetime(*[int(x) for x in m.groups()])
    except ValueError:
        return BAD
    return OK


def cls_serial(s, closed):
    if not s:
        return BAD
    if not s.isascii():
        return UNSPEC
    if HEXS.fullmatch(s):
        return BAD if closed else OK
    base = s
    parts = s.split('-')
    if len(parts) == 2 and parts[0] and parts[1].isalnum():
        base = parts[0]
    if TAX.fullmatch(base) or UID.fullmatch(base) or GLN.fullmatch(base):
        return OK if closed else BAD
    # notations like 0x12, +12 or serials with a suffix
    if s[0] == '-' or s != s.strip() or re.match(r'[+-]?0[xX]', s) or s[0] == '+' \
            or base != s:
        return UNSPEC
    return BAD


class R(object):
    """A parsed receipt text."""
    __slots__ = ('jws', 'header64', 'payload', 'sig', 'zda', 'reg', 'rid', 'dt',
                 'sums', 'tc64', 'tc', 'serial', 'chain', 'cls', 'signed', 'jcls')

    @property
    def broken(self):
        return self.sig == BROKEN64

    @property
    def closed(self):
        return self.zda == 'AT0'

    @property
    def dummy(self):
        return self.tc == b'TRA'

    @property
    def reversal(self):
        return self.tc == b'STO'

    @property
    def null(self):
        return all(not s.strip('-0,') for s in self.sums)

    @property
    def cents(self):
        return sum(int(s.replace(',', '')) for s in self.sums)

    @property
    def code(self):
        return self.payload + '_' + b64(unb64u(self.sig))

    @property
    def ocr(self):
        seg = self.payload.split('_')
        seg[10] = base64.b32encode(base64.b64decode(seg[10])).decode()
        seg[12] = base64.b32encode(base64.b64decode(seg[12])).decode()
        return '_'.join(seg + [base64.b32encode(unb64u(self.sig)).decode()])

    @property
    def csv(self):
        return ';'.join(self.code[1:].split('_'))


def _fields(r, seg):
    """seg: the 12 fields after the leading empty one."""
    v = []
    az = seg[0].split('-')
    if len(az) != 2:
        return BAD
    v.append(OK if az[0] == 'R1' else BAD)
    r.zda = az[1]
    v.append(OK if ZDA.fullmatch(r.zda) else BAD)
    r.reg, r.rid, r.dt = seg[1], seg[2], seg[3]
    for x in (r.reg, r.rid):
        v.append(BAD if not x else UNSPEC if CTRL.search(x) else OK)
    v.append(cls_dt(r.dt))
    r.sums = seg[4:9]
    v += [cls_sum(s) for s in r.sums]
    r.tc64 = seg[9]
    c, r.tc = cls_b64(r.tc64)
    v.append(c)
    if r.tc is not None and r.tc not in (b'TRA', b'STO') and not 5 <= len(r.tc) <= 16:
        v.append(BAD)
    r.serial = seg[10]
    v.append(cls_serial(r.serial, r.zda == 'AT0'))
    r.chain = seg[11]
    c, d = cls_b64(r.chain)
    v.append(c)
    if d is not None and len(d) != 8:
        v.append(BAD)
    return worst(*v)


def parse_jws(text):
    """Returns R with .cls in ok/bad/unspec."""
    r = R()
    r.jws = text
    r.cls = BAD
    if not isinstance(text, str):
        return r
    seg = text.split('.')
    if len(seg) != 3:
        return r
    r.header64, p64, r.sig = seg
    c = [cls_b64(s, True) for s in seg]
    if any(x[0] == BAD for x in c):
        return r
    try:
        r.payload = c[1][1].decode('utf-8')
        h = c[0][1].decode('utf-8')
    except UnicodeDecodeError:
        return r
    hv = OK if h == HEADER else BAD
    if h != HEADER and re.sub(r'\s', '', h) == HEADER:
        hv = UNSPEC
    f = r.payload.split('_')
    if len(f) != 13 or f[0] != '':
        return r
    r.signed = seg[0] + '.' + seg[1]
    r.cls = worst(hv, _fields(r, f[1:]), *[x[0] for x in c])
    return r


def parse_code(text):
    r = R()
    r.cls = BAD
    r.jws = None
    if not isinstance(text, str):
        return r
    f = text.split('_')
    if len(f) != 14 or f[0] != '':
        return r
    c, sig = cls_b64(f[13])
    fc = _fields(r, f[1:13])
    r.cls = worst(c, fc)
    if CTRL.search(text):
        r.cls = worst(r.cls, UNSPEC)
    if r.cls != BAD:
        try:
            r.payload = '_'.join(f[:13])
            r.sig = b64u(sig)
            r.header64 = HEADER64
            r.signed = HEADER64 + '.' + b64u(r.payload.encode('utf-8'))
            r.jws = r.signed + '.' + r.sig
        except UnicodeError:
            r.cls = BAD
    return r


def parse_ocr(text):
    r = R()
    r.cls = BAD
    if not isinstance(text, str):
        return r
    f = text.split('_')
    if len(f) != 14 or f[0] != '':
        return r
    cs = []
    for i in (10, 12, 13):
        c, d = cls_b32(f[i])
        if c == BAD:
            return r
        cs.append(c)
        f[i] = b64(d)
    r = parse_code('_'.join(f))
    r.cls = worst(r.cls, *cs)
    return r


def parse_csv(text):
    r = R()
    r.cls = BAD
    if not isinstance(text, str):
        return r
    f = [s.strip() for s in text.split(';')]
    loose = any(s != s.strip() for s in text.split(';'))
    r = parse_code('_' + '_'.join(f))
    if r.cls == OK and loose:
        r.cls = UNSPEC
    if '_' in text:
        r.cls = worst(r.cls, UNSPEC)
    return r


def make_payload(zda, reg, rid, dt, sums, tc64, serial, chain, alg='R1'):
    return '_'.join(['', alg + '-' + zda, reg, rid, dt] + list(sums) +
                    [tc64, serial, chain])


# ---------------------------------------------------------------------- trust

def serial_id(n):
    return '%x' % abs(n)


def serial_ids(s):
    if s[:1] == '-':
        s = s[1:]
    out = []
    for base in (16, 10):
        try:
            out.append('%x' % int(s, base))
        except ValueError:
            pass
    return out


class Ks(object):
    """Model of a key store: id -> ('cert', Cert) or ('key', pub)."""

    def __init__(self, d=None):
        self.d = dict(d or {})

    def add_cert(self, c):
        self.d[serial_id(c.serial)] = ('cert', c)

    def add_key(self, kid, pub):
        self.d[kid] = ('key', pub)

    def key(self, kid):
        e = self.d.get(kid)
        if e is None:
            return None
        return e[1].pub if e[0] == 'cert' else e[1]

    def cert(self, kid):
        e = self.d.get(kid)
        return e[1] if e and e[0] == 'cert' else None


def link_ok(cert, issuer):
    """Is cert signed by issuer (ECDSA and RSA-PKCS1 only)?"""
    pub = issuer.pub
    h = cert.sighash
    if cert.sigkind == 'ecdsa' and isinstance(pub, cec.EllipticCurvePublicKey):
        try:
            pub.verify(cert.sig, cert.tbs, cec.ECDSA(h))
            return True
        except InvalidSignature:
            return False
    if cert.sigkind == 'rsa' and isinstance(pub, rsa.RSAPublicKey):
        try:
            pub.verify(cert.sig, cert.tbs, padding.PKCS1v15(), h)
            return True
        except InvalidSignature:
            return False
    return False


def trust(cert, chain, ks):
    """None if trusted, else the name of the error."""
    cur = cert
    for nxt in list(chain) + [None]:
        st = ks.cert(serial_id(cur.serial))
        if st is not None:
            return None if st.der == cur.der else 'CertificateSerialCollisionException'
        if nxt is None:
            return 'UntrustedCertificateException'
        if not link_ok(cur, nxt):
            return 'CertificateChainBrokenException'
        cur = nxt


# ------------------------------------------------------------- single receipt

MALFORMED = {'MalformedReceiptException', 'UnknownAlgorithmException',
             'AlgorithmMismatchException', 'CertSerialInvalidException',
             'InvalidCertificateProviderException'}


def single(r, ks=None, cert=None):
    """Verdicts allowed for a well-formed single receipt: a set of class names,
    or {'ok'}."""
    errs = set()
    pub = None
    if cert is not None:
        pub = cert.pub
        if not r.closed and serial_id(cert.serial) not in serial_ids(r.serial):
            errs.add('CertSerialMismatchException')
    elif r.closed:
        pub = ks.key(r.serial)
    else:
        for i in serial_ids(r.serial):
            pub = ks.key(i)
            if pub is not None:
                break
    if r.broken:
        if errs:
            return errs
        if r.null and not r.dummy and not r.reversal:
            return {'UnsignedNullReceiptException'}
        return {'SignatureSystemFailedException'}
    if pub is None:
        errs.add('NoPublicKeyException')
    elif not verify_es256(pub, r.signed, unb64u(r.sig)):
        errs.add('InvalidSignatureException')
    return errs or {'ok'}


# ------------------------------------------------------------------- DEP rules

def natkey(rid):
    out = []
    for t in re.split('([0-9]+)', rid, flags=re.A):
        if t and t[0] in '0123456789' and t.isascii() and t.isdigit():
            out.append(int(t) if len(t) < 4000 else (len(t.lstrip('0')), t.lstrip('0')))
        else:
            out.append(t.lower())
    return out


class Used(object):
    def __init__(self, kind='unique'):
        self.kind = kind
        self.ids = set()
        self.min = self.max = None

    def dup(self, rid):
        if self.kind == 'unique':
            return rid in self.ids
        return self.max is not None and not natkey(self.max) < natkey(rid)

    def add(self, rid):
        if self.kind == 'unique':
            self.ids.add(rid)
        else:
            self.max = rid
            if self.min is None:
                self.min = rid

    def view(self):
        return sorted(self.ids) if self.kind == 'unique' else (self.min, self.max)


class Reg(object):
    def __init__(self):
        self.start = self.last = self.chain_next = None
        self.tc = 0
        self.need = False

    def view(self):
        return {'startReceiptJWS': self.start, 'lastReceiptJWS': self.last,
                'lastTurnoverCounter': self.tc, 'needRestoreReceipt': self.need,
                'chainNextTo': self.chain_next}


class Cluster(object):
    def __init__(self, kind='unique'):
        self.regs = []
        self.used = Used(kind)

    def view(self):
        return {'cashRegisters': [r.view() for r in self.regs],
                'used': self.used.view()}


def step(reg, used, r, prev_start, ks, cert, key):
    """
    Applies one well-formed receipt r. Returns the set of rules it violates
    (names); reg and used are only meaningful afterwards if it is empty.
    """
    errs = set()
    prev = parse_jws(reg.last) if reg.last else None

    v = single(r, ks, cert)
    failed = False
    if v <= {'SignatureSystemFailedException', 'UnsignedNullReceiptException'}:
        failed = True
    elif v != {'ok'}:
        errs |= v

    special = (not r.null) or r.dummy or r.reversal
    if prev is None:
        if failed:
            errs.add('SignatureSystemFailedOnInitialReceiptException')
        if not r.null:
            errs.add('NonzeroTurnoverOnInitialReceiptException')
        if r.dummy or r.reversal:
            errs.add('NonstandardTypeOnInitialReceiptException')
        if not failed:
            reg.need = False
    elif failed:
        if reg.need:
            errs.add('NoRestoreReceiptAfterSignatureSystemFailureException')
    elif special:
        if reg.need:
            errs.add('NoRestoreReceiptAfterSignatureSystemFailureException')
        if prev.broken:
            reg.need = True
    else:
        reg.need = False

    cmp_to = prev
    chain_to = reg.last
    if prev is None and prev_start:
        cmp_to = parse_jws(prev_start)
        chain_to = prev_start
        if not r.closed or not cmp_to.closed:
            errs.add('ClusterInOpenSystemException')
    if cmp_to is not None:
        if cmp_to.reg != r.reg:
            errs.add('ChangingRegisterIdException')
        if cmp_to.closed != r.closed:
            errs.add('ChangingSystemTypeException')
        if cmp_to.dt > r.dt:
            errs.add('DecreasingDateException')
    if used.dup(r.rid):
        errs.add('DuplicateReceiptIdException')
    used.add(r.rid)

    want = reg.chain_next if reg.chain_next else chain_value(chain_to or r.reg)
    if r.chain != want:
        if prev is None:
            errs.add('InvalidChainingOnClusterInitialReceiptException' if prev_start
                     else 'InvalidChainingOnInitialReceiptException')
        else:
            errs.add('ChainingException')
            if reg.start == r.jws:
                # a second copy of the start receipt
                errs.add('InvalidChainingOnInitialReceiptException')
                errs.add('InvalidChainingOnClusterInitialReceiptException')
    reg.chain_next = None
    if prev is None:
        reg.start = r.jws
    if key is not None and not r.dummy:
        if not (isinstance(key, bytes) and len(key) == 32):
            errs.add('InvalidKeyException')
        else:
            new = reg.tc + r.cents
            if not r.reversal and dec_counter(key, r.reg, r.rid, r.tc) != new:
                errs.add('InvalidTurnoverCounterException')
            reg.tc = new
    reg.last = r.jws
    return errs


class Result(object):
    """ok: Cluster, or exact/loose: sets of (class name, receipt id or None)."""

    def __init__(self, ok=None, exact=None, loose=None, at=None):
        self.ok, self.exact, self.loose, self.at = ok, exact, loose, at


def verify(groups, ks, key, cluster=None, idx=None, kind='unique'):
    """
    groups: list of (list of JWS texts, Cert or None, [Cert]).
    .exact: what may be reported at the first offence when receipts are verified
    one after the other; .loose: what may be reported when they are verified in
    packages whose certificates are checked and whose start states are derived
    beforehand.
    """
    cluster = copy.deepcopy(cluster) if cluster is not None else Cluster(kind)
    if idx is None or idx == len(cluster.regs):
        if cluster.regs and not cluster.regs[-1].start:
            e = {('NoStartReceiptForLastCashRegisterException', None)}
            return Result(exact=e, loose=e)
        cluster.regs.append(Reg())
        idx = len(cluster.regs) - 1
    if idx < 0 or idx >= len(cluster.regs):
        e = {('InvalidCashRegisterIndexException', None)}
        return Result(exact=e, loose=e)
    prev_start = cluster.regs[idx - 1].start if idx > 0 else None
    reg = copy.deepcopy(cluster.regs[idx])
    used = copy.deepcopy(cluster.used)

    exact = None
    loose = set()
    at = None
    n = sum(len(g[0]) for g in groups)
    if n == 0:
        e = {('MalformedDEPException', None), ('MalformedDEPElementException', None),
             ('MissingDEPElementException', None), ('DEPParseException', None)}
        return Result(exact=e, loose=e)
    multi = sum(1 for g in groups if g[0]) > 1
    first = None          # first offence
    structural = set()
    for recs, cert, chain in groups:
        if not recs:
            continue
        if cert is None:
            if multi:
                structural.add(('NoCertificateGivenException', None))
        else:
            t = trust(cert, chain, ks)
            if t:
                structural.add((t, None))
    malformed = set()
    rs = []
    for recs, cert, _chain in groups:
        for j in recs:
            r = parse_jws(j)
            if r.cls != OK:
                malformed |= {(m, None) for m in MALFORMED}
            rs.append((r, cert))
    # sequential run
    used0 = copy.deepcopy(used)
    reg0 = copy.deepcopy(reg)
    pos = 0
    for r, cert in rs:
        if r.cls != OK:
            first = {(m, None) for m in MALFORMED}
            at = pos
            break
        e = step(reg, used, r, prev_start, ks, cert, key)
        if e:
            first = {(x, r.rid) for x in e}
            at = pos
            break
        pos += 1
    if first is None and not structural:
        cluster.regs[idx] = reg
        cluster.used = used
        return Result(ok=cluster)
    exact = set(structural)
    if first:
        exact |= first
    loose = exact | malformed
    if first and any(x[0] == 'DuplicateReceiptIdException' for x in first):
        # other copies, and the first offence of another kind
        u = copy.deepcopy(used0)
        for r, cert in rs:
            if r.cls != OK:
                break
            if u.dup(r.rid):
                loose.add(('DuplicateReceiptIdException', r.rid))
            u.add(r.rid)
        for r, cert in rs:
            if r.cls != OK:
                break
            e = step(reg0, Used('unique'), r, prev_start, ks, cert, key)
            if e:
                loose |= {(x, r.rid) for x in e}
                break
    return Result(exact=exact, loose=loose, at=at)


def cluster_of(j):
    """Model cluster of a state's JSON form."""
    b = j['usedReceiptIds']
    cl = Cluster('unique' if b['backendType'].endswith('UNIQUE') else 'sorted')
    if cl.used.kind == 'unique':
        cl.used.ids = set(b['backendData'])
    else:
        cl.used.min, cl.used.max = b['backendData']['minId'], b['backendData']['maxId']
    for d in j['cashRegisters']:
        r = Reg()
        r.start, r.last, r.chain_next = d['startReceiptJWS'], d['lastReceiptJWS'], d['chainNextTo']
        r.tc, r.need = d['lastTurnoverCounter'], d['needRestoreReceipt']
        cl.regs.append(r)
    return cl
