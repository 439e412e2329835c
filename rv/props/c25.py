"""C25: cryptographic encodings match the regulation bit for bit."""
import base64
import hashlib
import hmac

from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives.asymmetric import ec as cec
from cryptography.hazmat.primitives.asymmetric.utils import encode_dss_signature

from rv import aes, core, ec, gen, modes, ref
from rv.props import c18, common

LEVEL = 'exploration'
QUICK, THOROUGH = 4800, 60000
RULE = ('a case computes chaining values, IVs, turnover counters (all sizes and boundaries), URL '
        'hashes and signatures for generated receipts with the real code and with own plain Python '
        'implementations (SHA-256 of the standard library, own AES-256 and P-256) and compares every '
        'bit; receipts signed by the own implementation must be accepted, with any changed text, '
        'signature, key, curve or encoding refused; distinct by receipts and operations')
TECHNIQUE = ('runtime monitoring: differential oracle, independent implementation of every '
             'primitive, cross verification both ways')
MANDATORY = ['chain first', 'chain next', 'counters', 'counter boundary', 'size:5', 'size:16',
             'size:8', 'url hash', 'url refused', 'own signature accepted', 'their signature valid',
             'refused:text', 'refused:signature', 'refused:key', 'refused:curve', 'refused:der',
             'refused:range', 'refused:header', 'high s', 'vectors', 'fingerprints', 'bad keys',
             'through receipt', 'jws exact', 'unicode']
A = modes.algorithms
U = modes.utils
R1 = A.ALGORITHMS['R1']
CURVES = ['p384', 'rsa', 'ed25519']


def vectors(ctx):
    k = bytes.fromhex('603deb1015ca71be2b73aef0857d77811f352c073b6108d72d9810a30914dff4')
    iv = bytes.fromhex('f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff')
    pt = bytes.fromhex('6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e51'
                       '30c81c46a35ce411e5fbc1191a0a52eff69f2445df4f9b17ad2b417be66c3710')
    want = ('601ec313775789a5b7a7f504bbf3d228f443e3ca4d62b59aca84e990cacaf5c5'
            '2b0930daa23de94ce87017ba2d84988ddfc9c58db67aada613c2dd08457941a6')
    ctx.check(U.aes256ctr(iv, k, pt).hex() == want, 'AES-256-CTR differs from SP 800-38A F.5.5')
    ctx.check(aes.ctr(k, iv, pt).hex() == want, 'harness: AES')
    ff = b'\xff' * 16
    ctx.check(U.aes256ctr(ff, k, pt) == aes.ctr(k, ff, pt), 'counter overflow')
    ctx.check(U.sha256(b'abc').hex() ==
              'ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad', 'SHA-256')
    ctx.check(R1.id() == 'R1' and R1.sigAlgo() == 'ES256' and R1.chainBytes() == 8 and
              R1.jwsHeader() == '{"alg":"ES256"}', 'parameters of R1')
    ctx.check(sorted(A.ALGORITHMS) == ['R1'], 'algorithms')
    # the example of the regulation's detailed specification style: empty IDs
    ctx.count('vectors')


def chains(ctx, rec, r, sim):
    rng = ctx.rng
    ctx.check(bytes(R1.chain(rec, None)) == hashlib.sha256(r.reg.encode('utf-8')).digest()[:8],
              'chaining value of the first receipt', register=r.reg)
    ctx.count('chain first')
    for prev in (rng.choice(sim.metas).jws, 'x', u'\xe4\u6f22\U0001f600', 'a' * rng.randrange(1, 300)):
        ctx.check(bytes(R1.chain(rec, prev)) == hashlib.sha256(prev.encode('utf-8')).digest()[:8],
                  'chaining value', prev=prev)
        ctx.count('chain next')
    t = rng.choice([u'', u'abc', u'\xe4\u6f22', r.code])
    ctx.check(bytes(R1.hash(t)) == hashlib.sha256(t.encode('utf-8')).digest(), 'hash', text=t)


def counters(ctx, rec, r):
    rng = ctx.rng
    key = hashlib.sha256(b'%d' % rng.randrange(1 << 40)).digest()
    size = rng.choice([5, 6, 7, 8, 8, 9, 10, 11, 12, 13, 14, 15, 16, 16])
    lim = 1 << (8 * size - 1)
    iv = hashlib.sha256(r.reg.encode('utf-8') + r.rid.encode('utf-8')).digest()[:16]
    ks = aes.block(key, iv)
    for v in (0, -1, 1, lim - 1, -lim, lim >> 1, 1 << 31, -(1 << 32), rng.randrange(-lim, lim),
              rng.randrange(-lim, lim), rng.randrange(-10**6, 10**6)):
        want = bytes(a ^ b for a, b in zip((v % (2 * lim)).to_bytes(size, 'big'), ks))
        got = R1.encryptTurnoverCounter(rec, v, key, size)
        ctx.check(bytes(got) == want, 'encrypted turnover counter', value=v, size=size, key=key,
                  register=r.reg, receipt=r.rid, got=got, want=want)
        back = R1.decryptTurnoverCounter(rec, want, key)
        ctx.check(back == v and isinstance(back, int), 'decrypted turnover counter', value=v,
                  got=back, size=size)
        ctx.count('counters')
        if v in (lim - 1, -lim):
            ctx.count('counter boundary')
    ctx.count('size:%d' % size)
    for bad in (key[:-1], key + b'x', b'', key[:16], bytearray(key), key.hex(), None, 'x' * 32, 7):
        ctx.check(not R1.verifyKey(bad) or bytes(bad) == key, 'an unsuitable key is accepted', key=bad)
        ctx.count('bad keys')
    ctx.check(R1.verifyKey(key), 'a key is not accepted', key=key)
    ctx.distinct('counter', size, key, r.rid)


def through_receipt(ctx, rec, r, m, key):
    """The same by way of a receipt object."""
    if m.kind == 'standard':
        ct = base64.b64decode(rec.encTurnoverCounter)
        iv = hashlib.sha256((r.reg + r.rid).encode('utf-8')).digest()[:16]
        want = int.from_bytes(aes.ctr(key, iv, ct), 'big', signed=True)
        ctx.check(rec.decryptTurnoverCounter(key, R1) == want == m.tc, 'turnover counter', want=want,
                  jws=m.jws)
        for bad in (key[:16], key + b'\0', b''):
            out = modes.outcome(lambda: rec.decryptTurnoverCounter(bad, R1))
            ctx.check(out[0] == 'err' and out[1] == 'InvalidKeyException', 'unsuitable key',
                      got=modes.brief(out))
        ctx.count('through receipt')
    code = r.code
    h = base64.urlsafe_b64encode(hashlib.sha256(code.encode('utf-8')).digest()[:8]).decode().rstrip('=')
    ctx.check(len(h) == 11 and rec.toURLHash('R1') == h, 'URL hash', want=h, got=rec.toURLHash('R1'),
              code=code)
    modes.verify_receipt.verifyURLHash(rec, R1, h)
    ctx.count('url hash')
    k = ctx.rng.randrange(len(h))
    for x in (h[:k] + ('A' if h[k] != 'A' else 'B') + h[k + 1:], h + '=', h[:-1], h + 'A', '', h.swapcase(),
              base64.b64encode(hashlib.sha256(code.encode()).digest()[:8]).decode(), None,
              base64.urlsafe_b64encode(hashlib.sha256(m.jws.encode()).digest()[:8]).decode().rstrip('='),
              base64.urlsafe_b64encode(hashlib.sha256(code.encode()).digest()).decode()[:12]):
        if x == h:
            continue
        out = modes.outcome(lambda: modes.verify_receipt.verifyURLHash(rec, R1, x))
        ctx.check(out[0] == 'err' and out[1] == 'InvalidURLHashException', 'wrong URL hash accepted',
                  hash=x, right=h, got=modes.brief(out))
        ctx.check(out[2] and out[2] in (x, rec.receiptId), 'error for a wrong hash names %r' % (out[2],),
                  hash=x, right=h)
        ctx.count('url refused')


def their_signature(ctx):
    """Text signed by the real code."""
    rng = ctx.rng
    k = gen.key('p256', rng.randrange(8))
    priv = cec.derive_private_key(k.priv, cec.SECP256R1(), default_backend())
    text = rng.choice([u'', u'a', u'_R1-AT1_\xe4\u6f22_1', u'x' * rng.randrange(2000), gen.ident(rng),
                       u'\U0001f600.=+/_-'])
    pem = priv.private_bytes(gen.serialization.Encoding.PEM,
                             rng.choice([gen.serialization.PrivateFormat.PKCS8,
                                         gen.serialization.PrivateFormat.TraditionalOpenSSL]),
                             gen.serialization.NoEncryption()).decode()
    # the key may be given as object or as text
    how = rng.choice([priv, pem, U.loadPrivKey(pem)])
    signed = base64.urlsafe_b64encode(b'{"alg":"ES256"}').rstrip(b'=') + b'.' + \
        base64.urlsafe_b64encode(text.encode('utf-8')).rstrip(b'=')
    sig = R1.sign(text, how)
    raw = base64.urlsafe_b64decode(sig + b'=' * (-len(sig) % 4))
    ctx.check(b'=' not in sig and len(raw) == 64, 'encoding of the signature', sig=sig)
    nums = k.pub.public_numbers()
    ctx.check(ec.verify((nums.x, nums.y), signed, raw), 'signature is not a valid ES256 signature',
              text=text, sig=sig)
    jws = modes.sigsys.SignatureSystemWorking('AT1', '1', how).sign(text, R1)
    ctx.check(jws.startswith(signed.decode() + '.') and jws.count('.') == 2, 'JWS', jws=jws)
    raw = ref.unb64u(jws.split('.')[2])
    ctx.check(ec.verify((nums.x, nums.y), signed, raw), 'signature in the JWS', text=text, jws=jws)
    jws = modes.sigsys.SignatureSystemBroken('AT1', '1').sign(text, R1)
    ctx.check(jws == signed.decode() + '.' + base64.urlsafe_b64encode(
        b'Sicherheitseinrichtung ausgefallen').decode().rstrip('='), 'outage JWS', jws=jws)
    ctx.count('their signature valid')
    ctx.count('jws exact')
    ctx.distinct('their', text)


def must_refuse(ctx, what, f, **info):
    out = modes.outcome(f)
    ctx.check(out[0] == 'err' or out[1] is False, 'accepted: ' + what, **info)
    ctx.count('refused:' + what)


def own_signature(ctx, r, m):
    """Text signed by the own implementation."""
    rng = ctx.rng
    k = m.dev.key
    h, p, s = m.jws.split('.')
    raw = ref.unb64u(s)
    if m.failed:
        return
    nums = k.pub.public_numbers()
    if ctx.index % 4 == 0:
        ctx.check(ec.verify((nums.x, nums.y), (h + '.' + p).encode(), raw), 'harness: signature')
    rr, ss = int.from_bytes(raw[:32], 'big'), int.from_bytes(raw[32:], 'big')
    mk = lambda a, b: h + '.' + p + '.' + ref.b64u(a.to_bytes(32, 'big') + b.to_bytes(32, 'big'))
    ctx.check(R1.verify(m.jws, k.pub) is True, 'valid signature refused', jws=m.jws)
    # both signs of s are valid ES256 signatures
    ctx.check(R1.verify(mk(rr, ec.N - ss), k.pub) is True, 'valid signature with other s refused',
              jws=m.jws)
    ctx.count('high s')
    ctx.count('own signature accepted')
    v = lambda j, key=k.pub: R1.verify(j, key)
    for _ in range(6):
        b = bytearray(base64.urlsafe_b64decode(p + '=' * (-len(p) % 4)))
        b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        j = h + '.' + ref.b64u(bytes(b)) + '.' + s
        must_refuse(ctx, 'text', lambda: v(j), jws=j)
        b = bytearray(raw)
        b[rng.randrange(64)] ^= 1 << rng.randrange(8)
        j = h + '.' + p + '.' + ref.b64u(bytes(b))
        must_refuse(ctx, 'signature', lambda: v(j), jws=j)
    other = gen.key('p256', 50 + rng.randrange(5)).pub
    must_refuse(ctx, 'key', lambda: v(m.jws, other), jws=m.jws)
    for kind in CURVES:
        must_refuse(ctx, 'curve', lambda: v(m.jws, gen.key(kind, 1).pub), jws=m.jws, key=kind)
    # same numbers, other encodings
    for x in (encode_dss_signature(rr, ss), raw + b'\0', b'\0' + raw, raw[:-1], raw[1:], b'', raw[:32],
              raw * 2, raw[32:] + raw[:32], raw[::-1]):
        j = h + '.' + p + '.' + ref.b64u(x)
        must_refuse(ctx, 'der', lambda: v(j), jws=j)
    for a, b in ((0, 0), (0, ss), (rr, 0), (ec.N, ss), (rr, ec.N), (1, 1), (ec.N - 1, 1), (ss, rr)):
        j = mk(a, b)
        must_refuse(ctx, 'range', lambda: v(j), jws=j)
    for a, b in ((rr + ec.N, ss), (rr, ss + ec.N)):
        if a < 1 << 256 and b < 1 << 256:
            j = mk(a, b)
            must_refuse(ctx, 'range', lambda: v(j), jws=j)
    # other curves sign the very same text
    for curve, n in ((cec.SECP256K1(), 32), (cec.SECP384R1(), 48)):
        try:
            sk = cec.derive_private_key(k.priv, curve, default_backend())
        except Exception:
            continue
        from cryptography.hazmat.primitives import hashes
        from cryptography.hazmat.primitives.asymmetric.utils import decode_dss_signature
        a, b = decode_dss_signature(sk.sign((h + '.' + p).encode(), cec.ECDSA(hashes.SHA256())))
        j = h + '.' + p + '.' + ref.b64u(a.to_bytes(n, 'big') + b.to_bytes(n, 'big'))
        must_refuse(ctx, 'curve', lambda: v(j, sk.public_key()), jws=j, key=curve.name)
    headers(ctx, r, m, p, raw)


def headers(ctx, r, m, p, raw):
    """Other algorithms in the header, by way of a verifier as a DEP or receipt would."""
    rng = ctx.rng
    k = m.dev.key
    ks = ref.Ks()
    if m.r.closed:
        ks.add_key(r.serial, k.pub)
    else:
        return
    rv = modes.verify_receipt.ReceiptVerifier.fromKeyStore(modes.real_ks(ks))
    out = modes.outcome(lambda: rv.verifyJWS(m.jws))
    ctx.check(out[0] == 'ok', 'valid receipt refused', got=modes.brief(out), jws=m.jws)
    pem = gen.spki_pem(k.pub)
    for head in ('{"alg":"none"}', '{"alg":"HS256"}', '{"alg":"ES384"}', '{"alg":"ES256","crit":["x"]}',
                 '{"alg":"RS256"}', '{}', '{"alg":"es256"}', '{"alg":"ES512"}', '{"alg":["ES256"]}'):
        h = ref.b64u(head.encode())
        t = (h + '.' + p).encode()
        sig = {'{"alg":"none"}': b'', '{"alg":"HS256"}': hmac.new(pem.encode(), t, 'sha256').digest()}.get(
            head) if rng.random() < .5 else None
        if sig is None:
            sig = rng.choice([raw, ec.sign_raw(k.priv, t), b''])
        j = h + '.' + p + '.' + ref.b64u(sig)
        must_refuse(ctx, 'header', lambda: rv.verifyJWS(j), jws=j)


def certs(ctx):
    rng = ctx.rng
    c = gen.Cert(gen.key(rng.choice(['p256', 'rsa', 'p384']), 1), gen.key('p256', rng.randrange(5)),
                 gen.serial_number(rng), rng.choice(['a', u'\xe4']))
    o = U.loadCert(rng.choice([gen.dressed(rng, c.pem()), U.addPEMCertHeaders(c.b64)]))
    fp = hashlib.sha256(c.der).hexdigest()
    ctx.check(U.certFingerprint(o) == ':'.join(fp[i:i + 2] for i in range(0, 64, 2)), 'fingerprint')
    ctx.check(U.exportCertToPEM(o) == c.b64, 'certificate text')
    spki = base64.b64encode(c.key.spki()).decode()
    k = U.loadPubKey(gen.dressed(rng, U.addPEMPubKeyHeaders(spki)))
    ctx.check(U.exportKeyToPEM(k) == spki, 'public key text')
    ctx.count('fingerprints')


def case(ctx):
    rng = ctx.rng
    if ctx.index % 97 == 0:
        vectors(ctx)
    ks, devs, sim, closed, certful = common.setup(rng, 2)
    for _ in range(rng.randrange(1, 4)):
        sim.legal(devs)
    m = rng.choice(sim.metas)
    rec, prefix = modes.receipt.Receipt.fromJWSString(m.jws)
    r = m.r
    if any(ord(c) > 127 for c in r.reg + r.rid):
        ctx.count('unicode')
    chains(ctx, rec, r, sim)
    through_receipt(ctx, rec, r, m, sim.key)
    if ctx.index % 2:
        counters(ctx, rec, r)
    else:
        own_signature(ctx, r, m)
    if ctx.index % 5 == 0:
        their_signature(ctx)
    if ctx.index % 7 == 0:
        certs(ctx)
    ctx.distinct(m.jws)
    ctx.sample(jws=m.jws, key=sim.key.hex())
