"""C15: single receipts verify exactly with the right key in every format."""
from rv import ec, gen, modes, ref
from rv.props import common

KINDS = ['rsa', 'p384', 'p521', 'k256', 'ed25519']
LEVEL = 'exploration'
QUICK, THOROUGH = 12000, 120000
RULE = ('a case is one receipt (signed, damaged, unsigned) with a key store or certificate that '
        'does or does not match, presented as JWS, QR, OCR and CSV text (several times with one '
        'verifier); each verdict must be that of the model and the same in all formats; distinct '
        'by defect, kind of key, serial notation and receipt kind')
DEFECTS = ['none', 'missing', 'otherkey', 'flip', 'swapped', 'field', 'length', 'zero', 'highs',
           'broken', 'brokennull', 'brokentraining', 'certserial', 'certkey', 'keykind', 'nearid',
           'decimal', 'hexkey', 'brokenbadcert', 'almostbroken', 'othertext']
MANDATORY = ['defect:' + d for d in DEFECTS] + [
    'ok', 'NoPublicKeyException', 'InvalidSignatureException', 'CertSerialMismatchException',
    'SignatureSystemFailedException', 'UnsignedNullReceiptException', 'jws', 'qr', 'ocr', 'csv',
    'by cert', 'by store', 'open', 'closed', 'unicode', 'reused verifier', 'history', 'history ok',
    'history refused']


def csv_ok(s):
    return ';' not in s and s == s.strip() and not ref.CTRL.search(s)


def case(ctx):
    rng = ctx.rng
    defect = rng.choice(DEFECTS + ['none'] * 4)
    closed = rng.random() < .45
    bycert = rng.random() < .35
    if defect in ('certserial', 'certkey', 'brokenbadcert'):
        bycert = True
        closed = defect == 'certkey' and closed
    if defect in ('decimal', 'hexkey'):
        closed = bycert = False
    if defect in ('missing', 'nearid'):
        bycert = False
    ks = ref.Ks()
    k = gen.key('p256', rng.randrange(40))
    num = gen.serial_number(rng)
    if defect in ('decimal', 'hexkey'):
        num = int('1' + ''.join(rng.choice('0123456789') for _ in range(rng.randrange(1, 16))))
    cert = gen.Cert(k, k, num)
    if closed:
        kid = rng.choice(['U:ATU%08d', 'S:%09d', 'G:%013d']) % rng.randrange(10**8)
        if rng.random() < .5:
            kid += '-' + rng.choice(['K1', '77', 'Ab3', 'ab3'])
        zda = 'AT0'
        store = kid
    else:
        kid = gen.serial_text(rng, num)
        zda = rng.choice(['AT1', 'AT2', 'DE99'])
        store = ref.serial_id(num)
        if defect == 'decimal':
            kid = '%d' % num
        elif defect == 'hexkey':
            # only decimal digits, but meant as hexadecimal
            kid = '%d' % num
            store = kid.lstrip('0')
    dev = gen.Dev(zda, kid, k)
    while True:
        reg = gen.ident(rng).replace('_', '').strip()
        rid = gen.ident(rng).replace('_', '').strip()
        if reg and rid and csv_ok(reg) and csv_ok(rid):
            break
    sim = gen.Sim(rng, reg=reg)
    kind = rng.choice(['standard', 'standard', 'null', 'training', 'reversal'])
    failed = defect in ('broken', 'brokennull', 'brokentraining', 'brokenbadcert')
    if defect == 'brokennull':
        kind = 'null'
    elif defect == 'brokentraining':
        kind = rng.choice(['training', 'reversal'])
    null = kind == 'null'
    ov = {'rid': rid}
    total = 0 if null or rng.random() < .2 else sim.amount()
    priv = k.priv
    if defect == 'otherkey':
        ov['priv'] = gen.key('p256', 55).priv
    elif defect == 'length':
        ov['sig'] = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 32, 63, 65, 96, 128])))
    elif defect == 'zero':
        n = ref.N
        r_, s_ = rng.choice([(0, 0), (1, 0), (0, 1), (n, n), (n, 1), (1, n), (2**256 - 1, 1)])
        ov['sig'] = r_.to_bytes(32, 'big') + s_.to_bytes(32, 'big')
    elif defect == 'almostbroken':
        ov['sig'] = rng.choice([ref.BROKEN[:-1], ref.BROKEN + b'!', ref.BROKEN.lower(),
                                b'Sicherheitseinrichtung ausgefallem'])
    m = sim.emit(dev, 'standard' if null else kind, 0 if null else total, failed, null=null, **ov)
    r = m.r
    if defect in ('flip', 'swapped', 'highs', 'field', 'othertext'):
        sig = ref.unb64u(r.sig)
        pay = r.payload
        if defect == 'flip':
            b = bytearray(sig)
            b[rng.randrange(64)] ^= 1 << rng.randrange(8)
            sig = bytes(b)
        elif defect == 'swapped':
            sig = sig[32:] + sig[:32]
        elif defect == 'highs':
            s_ = ref.N - int.from_bytes(sig[32:], 'big')
            sig = sig[:32] + s_.to_bytes(32, 'big')
        elif defect == 'field':
            f = pay.split('_')
            i = rng.choice([2, 3, 4, 5, 9, 10, 12])
            if i in (2, 3):
                f[i] += 'x'
            elif i == 4:
                f[i] = '2031' + f[i][4:] if f[i][5:10] != '02-29' else '2032' + f[i][4:]
            elif i in (5, 9):
                f[i] = '1,11' if f[i] != '1,11' else '-1,11'
            elif i == 10 and len(ref.base64.b64decode(f[10])) > 3:
                b = bytearray(ref.base64.b64decode(f[10]))
                b[0] ^= 1
                f[10] = ref.b64(bytes(b))
            else:
                f[12] = ref.chain_value('other')
            pay = '_'.join(f)
        else:
            # signed something similar: no header, no dot, other header
            t = rng.choice([pay, ref.b64u(pay.encode('utf-8')), r.signed + '.',
                            ref.HEADER64 + '.' + pay, r.code])
            sig = ec.sign_raw(k.priv, t.encode('utf-8'), b'x')
        text = ref.HEADER64 + '.' + ref.b64u(pay.encode('utf-8')) + '.' + ref.b64u(sig)
        r = ref.parse_jws(text)
    ctx.check(r.cls == ref.OK, 'generated receipt is malformed', jws=m.jws)
    # the store
    for _ in range(rng.choice([0, 1, 3])):
        ks.add_key('U:X%d' % rng.randrange(10**6), gen.key('p256', 58).pub)
    if defect == 'missing':
        pass
    elif defect == 'nearid':
        near = [store + '0', store[:-1], '0' + store, store + '-K9', store.lower() + 'f'] + \
            [gen.near(rng, store) for _ in range(6)]
        if closed:
            near += [store.split('-')[0] + '-KX', store[2:]]
        for x in near:
            if x and x not in ref.serial_ids(kid) + [kid]:
                ks.add_key(x, k.pub)
    elif defect == 'keykind':
        ks.add_key(store, gen.key(rng.choice(KINDS), 1).pub)
        cert = gen.Cert(gen.key(rng.choice(KINDS), 1), k, num)
    elif not closed and rng.random() < .5 and defect != 'hexkey':
        ks.add_cert(cert)
    else:
        ks.add_key(store, k.pub)
    if defect in ('certserial', 'brokenbadcert'):
        other = num + rng.choice([1, 16, 256]) if rng.random() < .7 else gen.serial_number(rng) + 3
        if ref.serial_id(other) in ref.serial_ids(kid):
            other += 1
        cert = gen.Cert(k, k, other)
    elif defect == 'certkey':
        cert = gen.Cert(gen.key('p256', 56), k, num)
    want = ref.single(r, ks, cert if bycert else None)
    if bycert:
        rv = modes.verify_receipt.ReceiptVerifier.fromCert(modes.real_cert(cert))
    else:
        rv = modes.verify_receipt.ReceiptVerifier.fromKeyStore(modes.real_ks(ks))
    fmts = {'jws': (rv.verifyJWS, r.jws if r.jws else None), 'qr': (rv.verifyBasicCode, r.code),
            'ocr': (rv.verifyOCRCode, r.ocr), 'csv': (rv.verifyCSV, r.csv)}
    order = list(fmts)
    rng.shuffle(order)
    if rng.random() < .3:
        order += order[:2]
        ctx.count('reused verifier')
    seen = {}
    for name in order:
        f, text = fmts[name]
        out = modes.outcome(lambda: f(text))
        info = dict(format=name, text=text, defect=defect, bycert=bycert,
                    cert=cert.b64 if bycert else None,
                    store={i: t for i, (t, x) in ks.d.items()}, want=sorted(want))
        if out[0] == 'ok':
            ctx.check('ok' in want, 'accepted although it must be refused', **info)
            rec, alg = out[1]
            ctx.check(alg.id() == 'R1' and rec.toJWSString('R1') == r.jws and
                      rec.receiptId == r.rid and rec.registerId == r.reg,
                      'another receipt returned', got=rec.toJWSString('R1'), **info)
        else:
            ctx.check(out[1] in want, 'wrong verdict: %s' % out[1], message=out[3], **info)
            ctx.check(out[2] == r.rid, 'error names %r' % (out[2],), **info)
        ctx.check(seen.setdefault('v', out[:3] if out[0] == 'err' else 'ok') ==
                  (out[:3] if out[0] == 'err' else 'ok'),
                  'verdict depends on the format', got=modes.brief(out), **info)
        # a verifier given a receipt object
        ctx.count(name)
        ctx.count(out[1] if out[0] == 'err' else 'ok')
    if rng.random() < .35:
        history(ctx, r, k, num, kid, fmts)
    ctx.count('defect:' + defect)
    ctx.count('by cert' if bycert else 'by store')
    ctx.count('closed' if closed else 'open')
    if not r.rid.isascii():
        ctx.count('unicode')
    ctx.distinct(defect, closed, bycert, kind, kid[:2], failed)
    ctx.sample(defect=defect, kind=kind, serial=kid, verdict=sorted(want))


def history(ctx, r, k, num, kid, fmts):
    """The verdict on a receipt does not depend on what was verified before."""
    rng = ctx.rng
    other = gen.key('p256', 57)
    ids = [kid] if r.zda == 'AT0' else ref.serial_ids(kid)
    who = []
    for key in (k, other, None):
        ks = ref.Ks()
        if key is not None:
            for i in ids:
                ks.add_key(i, key.pub)
        who.append((modes.verify_receipt.ReceiptVerifier.fromKeyStore(modes.real_ks(ks)),
                    ref.single(r, ks, None)))
        if key is not None:
            c = gen.Cert(key, key, num)
            who.append((modes.verify_receipt.ReceiptVerifier.fromCert(modes.real_cert(c)),
                        ref.single(r, ks, c)))
    done = []
    for _ in range(rng.randrange(3, 9)):
        n = rng.randrange(len(who))
        rv, want = who[n]
        name = rng.choice(sorted(fmts))
        f = {'jws': rv.verifyJWS, 'qr': rv.verifyBasicCode, 'ocr': rv.verifyOCRCode,
             'csv': rv.verifyCSV}[name]
        out = modes.outcome(lambda: f(fmts[name][1]))
        got = out[1] if out[0] == 'err' else 'ok'
        done.append((n, name, got))
        ctx.check(got in want, 'wrong verdict after other verifications: %s' % got, text=r.jws,
                  history=done, want=sorted(want),
                  verifiers='store, cert, store of another key, cert of another key, empty store')
        ctx.count('history ok' if got == 'ok' else 'history refused')
    ctx.count('history')
