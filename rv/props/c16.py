"""C16: receipt format conversions are lossless."""
import datetime
from rv import gen, modes, ref
from rv.props import common

LEVEL = 'exploration'
QUICK, THOROUGH = 10000, 100000
RULE = ('a case is one well-formed receipt (fields the CSV form can express in most of them) that '
        'is walked through 3 to 14 conversions between JWS, QR, OCR and CSV in random order, with '
        'fresh and with reused objects; every text is compared with the one the regulation '
        'prescribes, every object with the fields, kind and hash of the original; distinct by '
        'kind, walk and field forms')
FORMS = ['jws', 'qr', 'ocr', 'csv']
MANDATORY = ['%s>%s' % (a, b) for a in FORMS for b in FORMS] + [
    'kind:standard', 'kind:training', 'kind:reversal', 'null', 'not null', 'failed', 'signed',
    'valid after walk', 'not for csv', 'built from fields', 'odd signature', 'minus zero',
    'closed', 'open', 'unicode', 'big sums', 'cancel out'] + ['size:%d' % i for i in range(5, 17)]


def csv_ok(s):
    return ';' not in s and s == s.strip() and not ref.CTRL.search(s)


def load(form, text):
    R = modes.receipt.Receipt
    return {'jws': R.fromJWSString, 'qr': R.fromBasicCode, 'ocr': R.fromOCRCode,
            'csv': R.fromCSV}[form](text)


def dump(form, rec, prefix):
    return {'jws': rec.toJWSString, 'qr': rec.toBasicCode, 'ocr': rec.toOCRCode,
            'csv': rec.toCSV}[form](prefix)


def same(ctx, rec, prefix, r, **info):
    ctx.check(prefix == 'R1', 'algorithm', got=prefix, **info)
    got = dict(zda=rec.zda, reg=rec.registerId, rid=rec.receiptId, dt=rec.dateTimeStr,
               tc=rec.encTurnoverCounter, serial=rec.certSerial, chain=rec.previousChain,
               sig=rec.signature, header=rec.header,
               sums=[rec.sumAStr, rec.sumBStr, rec.sumCStr, rec.sumDStr, rec.sumEStr],
               date=rec.dateTime, null=rec.isNull(), dummy=rec.isDummy(),
               reversal=rec.isReversal(), broken=rec.isSignedBroken(), signed=rec.signed,
               cents=rec.turnoverInCents(), hash=rec.toURLHash(prefix),
               payload=rec.toPayloadString(prefix))
    want = dict(zda=r.zda, reg=r.reg, rid=r.rid, dt=r.dt, tc=r.tc64, serial=r.serial,
                chain=r.chain, sig=r.sig, header=ref.HEADER, sums=list(r.sums),
                date=datetime.datetime.strptime(r.dt, '%Y-%m-%dT%H:%M:%S'),
                null=r.null, dummy=r.dummy, reversal=r.reversal, broken=r.broken, signed=True,
                cents=r.cents, hash=ref.url_hash(r.code), payload=r.payload)
    bad = {k: (got[k], want[k]) for k in want if got[k] != want[k] or
           isinstance(want[k], bool) and type(got[k]) is not bool}
    ctx.check(not bad, 'a field differs', different=bad, **info)


def case(ctx):
    rng = ctx.rng
    closed = rng.random() < .5
    ks = ref.Ks()
    dev = gen.devices(rng, closed, rng.random() < .3, ks, 1)[0]
    k = dev.key
    csv = rng.random() < .8
    sim = gen.Sim(rng, size=rng.randrange(5, 17))
    while True:
        reg = gen.ident(rng).replace('_', '')
        rid = gen.ident(rng).replace('_', '')
        if not csv:
            reg = rng.choice([' a', 'b ', 'x;y', ';', u'\u00a0x', 'q;']) + rng.choice(['', reg])
            break
        if reg and rid and csv_ok(reg) and csv_ok(rid):
            break
    rid = rid or 'x'
    kind = rng.choice(['standard', 'standard', 'training', 'reversal'])
    total = rng.choice([0, sim.amount(), sim.amount()])
    failed = rng.random() < .25
    ov = {'reg': reg, 'rid': rid}
    p = rng.random()
    if p < .12:
        ov['sig'] = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 31, 62, 64, 65, 66, 100])))
        ctx.count('odd signature')
    if rng.random() < .1:
        a = rng.choice([1, 10**6, 10**30])
        ov['sums'] = [gen.cents_text(a), '0,00', gen.cents_text(-a), '-0,00', '0,00']
        total = 0
        ctx.count('cancel out')
    elif rng.random() < .1:
        ov['sums'] = [gen.cents_text(rng.randrange(-10**40, 10**40)) for _ in range(5)]
        ctx.count('big sums')
        kind = 'training'
    m = sim.emit(dev, kind, total, failed, **ov)
    r = m.r
    ctx.check(r.cls == ref.OK, 'generated receipt is malformed', jws=m.jws)
    texts = {'jws': r.jws, 'qr': r.code, 'ocr': r.ocr, 'csv': r.csv}
    ctx.check(texts['qr'].count('_') == 13, 'model')
    forms = FORMS if csv else FORMS[:3]
    R = modes.receipt.Receipt
    if rng.random() < .3:
        rec = R(r.zda, r.reg, r.rid, r.dt, *(list(r.sums) + [r.tc64, r.serial, r.chain]))
        ctx.check(rec.signed is False and rec.toPayloadString('R1') == r.payload, 'payload')
        rec.sign(ref.HEADER, r.sig)
        prefix = 'R1'
        cur = 'jws'
        ctx.count('built from fields')
    else:
        cur = rng.choice(forms)
        rec, prefix = load(cur, texts[cur])
    same(ctx, rec, prefix, r, text=r.jws, walk=[cur])
    walk = [cur]
    for _ in range(rng.randrange(3, 15)):
        nxt = rng.choice(forms)
        t = dump(nxt, rec, prefix)
        walk.append(nxt)
        ctx.check(t == texts[nxt], 'wrong %s text' % nxt, got=t, want=texts[nxt], walk=walk)
        ctx.count('%s>%s' % (cur, nxt))
        if rng.random() < .75:
            rec, prefix = load(nxt, t)
            same(ctx, rec, prefix, r, text=r.jws, walk=walk)
            cur = nxt
    t = rec.toJWSString(prefix)
    ctx.check(t == m.jws, 'identical text expected after the walk', got=t, want=m.jws, walk=walk)
    if not failed and 'sig' not in ov:
        rv = modes.verify_receipt.ReceiptVerifier.fromKeyStore(_ks(k, r))
        rv.verify(rec, prefix)
        ctx.count('valid after walk')
    ctx.count('kind:' + kind)
    ctx.count('null' if r.null else 'not null')
    ctx.count('failed' if r.broken else 'signed')
    ctx.count('closed' if closed else 'open')
    if len(r.tc) > 3:
        ctx.count('size:%d' % len(r.tc))
    if any(s == '-0,00' for s in r.sums):
        ctx.count('minus zero')
    if not (r.reg + r.rid).isascii():
        ctx.count('unicode')
    if not csv:
        ctx.count('not for csv')
    ctx.distinct(kind, walk, failed, len(r.tc), csv)
    ctx.sample(kind=kind, walk=walk, text=r.code)


def _ks(k, r):
    ks = modes.key_store.KeyStore()
    ks.putPEMKey(r.serial if r.closed else ref.serial_ids(r.serial)[0], k.spki_pem())
    return ks
