"""C17: malformed receipts are refused, well-formed ones are not."""
import base64
import datetime
from rv import gen, modes, ref
from rv.props import c16, common

LEVEL = 'exploration'
QUICK, THOROUGH = 64000, 600000
RULE = ('a case is one receipt text in one of the four formats: correct, or with 1 to 3 changes '
        'of fields, structure, encoding or single characters; the three-valued grammar of the '
        'regulation (accepted, refused, not specified) is the oracle, accepted texts are compared '
        'field by field; in the unspecified area only foreign exceptions are reported; distinct '
        'by format and changes')
FIELDS = ['alg', 'zda', 'reg', 'rid', 'dt', 'sum', 'tc', 'serial', 'chain']
MANDATORY = ['field:' + f for f in FIELDS] + [
    'structure', 'character', 'signature', 'header', 'type', 'constructor', 'ok', 'bad', 'unspec',
    'jws ok', 'qr ok', 'ocr ok', 'csv ok', 'jws bad', 'qr bad', 'ocr bad', 'csv bad'] + [
    f + ' good' for f in FIELDS] + [f + ' bad' for f in FIELDS]

POOL = {
    'alg': ['R1', 'R2', 'R0', 'R', 'r1', 'R01', 'R1 ', ' R1', 'R10', 'X1', '', 'R1-R1', '1',
            u'R\u0661', 'R1\n', 'S1'],
    'zda': ['AT0', 'AT1', 'AT2', 'AT10', 'DE1', 'ZZ999', 'AT', 'at1', 'AT01', 'A1', 'AT1x', 'AT00',
            'ATT1', 'DE0', '', ' AT1', 'AT1 ', 'AT1\n', u'AT\u0661', u'\u00c4T1', '0', 'AT-1',
            'AT0\n', 'AT0 ', 'BE0', 'AT1.0', '1AT'],
    'dt': ['2017-01-01T00:00:00', '2016-02-29T23:59:59', '9999-12-31T23:59:59',
           '0001-01-01T00:00:00', '1970-01-01T00:00:00', '2017-02-29T00:00:00',
           '2017-13-01T00:00:00', '2017-00-01T00:00:00', '2017-04-31T00:00:00',
           '2017-01-00T00:00:00', '2017-01-01T24:00:00', '2017-01-01T00:60:00',
           '2017-01-01T00:00:60', '2017-01-01T00:00:61', '2017-01-01 00:00:00',
           '2017-01-01t00:00:00', '2017-1-1T0:0:0', '2017-01-01T00:00', '2017-01-01',
           '2017-01-01T00:00:00Z', '2017-01-01T00:00:00.0', '2017-01-01T00:00:00+01:00',
           ' 2017-01-01T00:00:00', '2017-01-01T00:00:00 ', '2017-01-01T00:00:00\n', '',
           '17-01-01T00:00:00', '02017-01-01T00:00:00', '0000-01-01T00:00:00',
           '-017-01-01T00:00:00', '01.01.2017 00:00:00', '20170101T000000',
           u'2017-01-01T00:00:0\u0660', '2017-01-01T00:00: 0', '2017-01-01T00:0:000',
           '2100-02-29T00:00:00', '2000-02-29T00:00:00', '1900-02-29T00:00:00'],
    'sum': ['0,00', '-0,00', '1,00', '-1,00', '0,01', '-0,01', '10,00', '99999999999999999999,99',
            '123456789012345678901234567890,12', '00,00', '01,00', '-01,00', '1,0', '1,000', '1',
            '1.00', ',00', '0,', '-,00', '+1,00', '1 000,00', '1.000,00', '1,00-', '--1,00',
            '1,00 ', ' 1,00', '1,00\n', '', '1e5,00', 'NaN', 'inf', '0x1,00', '0,0a', u'\u0661,00',
            u'1,0\u0660', '- 1,00', u'\u22121,00', '1,,00', '1,00,00', '-', ',', '0,00\t', '1_0,00',
            '000,00'],
    'serial': ['1', 'abc', 'ABC', '123456', '0123', 'deadBEEF', '-1a', '-5', 'f' * 40, 'g', 'xyz',
               '', ' ', '12 34', '1.5', '1,5', 'U:ATU12345678', 'U:ATU12345678-K1', 'S:123456789',
               'S:12345678', 'S:1234567890', 'S:123456789-1', 'G:1234567890123',
               'G:123456789012', 'G:12345678901234', 'G:1234567890123-Kx', 'U:', 'U:123456789012345',
               'U:12345678901234', 'U:A', 'U:a', 'u:ATU12345678', 's:123456789', 'X:123',
               'U:ATU12345678-', 'U:ATU12345678-K1-K2', 'U:ATU 12345678', 'S:12345678a',
               'G:123456789012a', 'U:ATU12345678-K 1', 'U:ATU12345678-K.1', 'S123456789',
               'S:123456789\n', 'abc\n', 'U:ATU12345678\n', ' abc', 'abc ', '0x12', '+12', '1-2',
               'abc-1', '--1', '-', 'a-', u'\u0661\u0662', u'S:\u0661\u0662\u0663\u0664\u0665\u0666\u0667\u0668\u0669',
               u'U:\u00c4', 'U:AT%U', ':', 'U', 'S:', 'G:', '1_2'],
    'reg': ['x', ' ', u'\u00e4\u00f6\u00fc', u'\U0001f389', 'a b', '-', '0', '', 'x' * 500, 'a-b', 'a.b',
            '"', "'", '\\', '/', '%', '=', 'null'],
}
POOL['rid'] = POOL['reg']


def counters(rng):
    n = rng.choice([0, 1, 2, 3, 4, 4, 5, 5, 8, 15, 16, 16, 17, 17, 18, 32])
    b = bytes(rng.randrange(256) for _ in range(n))
    return rng.choice([b, b, b, b'TRA', b'STO', b'tra', b'TRB', b'TRAX', b'STOP!', b'ST', b'TRA\0'])


def chains(rng):
    n = rng.choice([8, 8, 8, 8, 0, 7, 9, 16, 32, 4, 10])
    return bytes(rng.randrange(256) for _ in range(n))


def mangle64(rng, s, alpha='AZaz09+/'):
    k = rng.randrange(8)
    if k == 0:
        return s.rstrip('=')
    if k == 1:
        return s + '='
    if k == 2 and s:
        i = rng.randrange(len(s))
        return s[:i] + rng.choice(['-', '_', ' ', '!', u'\u00e4', '.', '\n', '*', 'b', '1', '8']) + s[i + rng.choice([0, 1]):]
    if k == 3:
        return s.replace('+', '-').replace('/', '_')
    if k == 4:
        return s.lower()
    if k == 5:
        return s[:-1] if s else 'A'
    if k == 6:
        i = rng.randrange(len(s) + 1)
        return s[:i] + '=' + s[i:]
    return s + rng.choice(['A', 'AAAA', 'AA==', '\n', ' ', '\0'])


def good_serial(rng, closed):
    if closed:
        return rng.choice(['U:ATU%08d' % rng.randrange(10**8), 'S:%09d' % rng.randrange(10**9),
                           'G:%013d' % rng.randrange(10**13)]) + rng.choice(['', '-K1', '-7'])
    return gen.serial_text(rng, gen.serial_number(rng))


def field(rng, f, s, closed):
    """Changes the segments s (12 of the payload, raw binary) in field f."""
    if f == 'alg' or f == 'zda':
        a, z = s[0]
        s[0] = (rng.choice(POOL[f]), z) if f == 'alg' else (a, rng.choice(POOL[f]))
        if f == 'zda' and rng.random() < .8:
            s[10] = good_serial(rng, s[0][1] == 'AT0')
    elif f == 'reg':
        s[1] = rng.choice(POOL['reg'])
    elif f == 'rid':
        s[2] = rng.choice(POOL['rid'])
    elif f == 'dt':
        s[3] = rng.choice(POOL['dt'])
    elif f == 'sum':
        s[rng.randrange(4, 9)] = rng.choice(POOL['sum'])
    elif f == 'tc':
        s[9] = counters(rng)
    elif f == 'serial':
        s[10] = rng.choice(POOL['serial'])
        if rng.random() < .6:
            s[0] = (s[0][0], 'AT0' if rng.random() < .5 else 'AT1')
    elif f == 'chain':
        s[11] = chains(rng)


MUT = [u'\u00e4', '0', '9', 'a', 'Z', '-', ',', '.', ' ', ':', '=', '+', '/', '\n', '\t', '\0', 'T',
       u'\u0660', u'\U0001f389', '_', ';', '"', u'\u2028', u'\xa0', '\r', u'\ud83d']


def case(ctx):
    rng = ctx.rng
    form = rng.choice(['jws', 'jws', 'qr', 'ocr', 'csv'])
    closed = rng.random() < .5
    sums = [gen.cents_text(rng.randrange(-10**6, 10**6), rng) for _ in range(5)]
    n = rng.randrange(5, 17)
    tc = rng.choice([bytes(rng.randrange(256) for _ in range(n))] * 3 + [b'TRA', b'STO'])
    s = [('R1', 'AT0' if closed else 'AT%d' % rng.randrange(1, 50)), gen.ident(rng).replace('_', ''),
         gen.ident(rng).replace('_', ''), '20%02d-0%d-1%dT1%d:2%d:3%d' % (
             rng.randrange(100), rng.randrange(1, 10), rng.randrange(10), rng.randrange(10),
             rng.randrange(10), rng.randrange(10))] + sums + [
                 tc, good_serial(rng, closed), bytes(rng.randrange(256) for _ in range(8))]
    s[1], s[2] = s[1] or 'x', s[2] or 'y'
    sig = rng.choice([bytes(rng.randrange(256) for _ in range(64)), ref.BROKEN])
    notes = []
    header = ref.HEADER
    kinds = []
    p = rng.random()
    if p > .12:
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            kinds.append(rng.choice(['field'] * 6 + ['structure', 'character', 'character', 'enc',
                                                     'signature', 'header']))
    one = len(kinds) == 1
    for k in kinds:
        if k == 'field':
            f = rng.choice(FIELDS)
            field(rng, f, s, closed)
            notes.append('field:' + f)
        elif k == 'signature':
            sig = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 63, 65, 200])))
            notes.append('signature')
        elif k == 'header':
            header = rng.choice(['{"alg":"ES384"}', '{"alg":"none"}', '{"alg":"HS256"}', '{}', '',
                                 '{"alg":"ES256","typ":"JWT"}', '{"alg":"ES256"}x', 'null', '[]',
                                 '{"alg":"es256"}', '{"alg" : "ES256"}', u'\u00e4'])
            notes.append('header')
    # binary fields as text
    e = {'ocr': lambda b: base64.b32encode(b).decode()}.get(form, ref.b64)
    t = list(s)
    t[0] = '%s-%s' % s[0]
    t[9], t[11] = e(s[9]), e(s[11])
    st = ref.b64u(sig) if form == 'jws' else e(sig)
    if 'enc' in kinds:
        w = rng.choice(['tc', 'chain', 'signature'])
        notes.append('signature' if w == 'signature' else 'field:' + w)
        if w == 'tc':
            t[9] = mangle64(rng, t[9])
        elif w == 'chain':
            t[11] = mangle64(rng, t[11])
        else:
            st = mangle64(rng, st)
    segs = [''] + t
    if 'structure' in kinds:
        notes.append('structure')
        k = rng.randrange(5)
        if k == 0:
            del segs[rng.randrange(len(segs))]
        elif k == 1:
            segs.insert(rng.randrange(len(segs) + 1), rng.choice(['', 'x', '0,00']))
        elif k == 2:
            i, j = rng.randrange(1, 13), rng.randrange(1, 13)
            segs[i], segs[j] = segs[j], segs[i]
        elif k == 3:
            segs[0] = rng.choice(['x', ' ', 'R1'])
        else:
            segs = segs[:rng.randrange(len(segs))]
    if form == 'jws':
        pay = '_'.join(segs)
        if 'character' in kinds and rng.random() < .6:
            pay = poke(rng, pay)
            notes.append('character')
        raw = pay.encode('utf-8', 'surrogatepass')
        if rng.random() < .02:
            raw += rng.choice([b'\xff', b'\xc3'])
        text = '.'.join([ref.b64u(header.encode('utf-8')), ref.b64u(raw), st])
        if 'structure' in kinds and rng.random() < .4:
            text = rng.choice([text + '.', text + '.x', '.'.join(text.split('.')[:2]), '.' + text,
                               text.replace('.', '..', 1), text.replace('.', '_'), '..', ''])
        if 'enc' in kinds and rng.random() < .4:
            q = text.split('.')
            i = rng.randrange(len(q))
            q[i] = mangle64(rng, q[i])
            text = '.'.join(q)
    else:
        text = '_'.join(segs + [st])
        if form == 'csv':
            text = text[1:].replace('_', ';')
    if 'character' in kinds:
        text = poke(rng, text)
        notes.append('character')
    if not notes:
        notes.append('none')
    r = {'jws': ref.parse_jws, 'qr': ref.parse_code, 'ocr': ref.parse_ocr,
         'csv': ref.parse_csv}[form](text)
    judge(ctx, form, text, r, notes)
    for x in set(notes):
        ctx.count(x)
        if one and x.startswith('field:') and r.cls != ref.UNSPEC:
            ctx.count('%s %s' % (x[6:], 'good' if r.cls == ref.OK else 'bad'))
    ctx.distinct(form, sorted(notes), r.cls, text if one else None)
    ctx.sample(format=form, changes=notes, verdict=r.cls, text=text)
    if rng.random() < .05:
        types(ctx)
    if form == 'qr' and rng.random() < .3 and len(segs) == 13 and '_' not in ''.join(segs):
        constructor(ctx, t, r, st)


def poke(rng, text):
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.randrange(len(text) + 1)
        k = rng.randrange(4)
        if rng.random() < .25:
            # at the edge of a field
            k = 0
            i = rng.choice([j for j in range(len(text) + 1)
                            if j in (0, len(text)) or text[j - 1] in '_;.' or text[j] in '_;.'])
        if k == 0:
            text = text[:i] + rng.choice(MUT) + text[i:]
        elif k == 1:
            text = text[:i] + text[i + 1:]
        elif k == 2:
            text = text[:i] + rng.choice(MUT) + text[i + 1:]
        else:
            j = rng.randrange(len(text) + 1)
            text = text[:min(i, j)] + text[max(i, j):] if rng.random() < .3 else text[:i] + text[i:i + 1] + text[i:]
    return text


def judge(ctx, form, text, r, notes):
    out = modes.outcome(lambda: c16.load(form, text))
    info = dict(format=form, text=text, changes=notes)
    if form == 'jws' and r.cls == ref.OK and r.header64 != ref.HEADER64:
        r.cls = ref.UNSPEC
    ctx.count(r.cls)
    if out[0] == 'err':
        ctx.check(out[1] in ref.MALFORMED, 'refused with %s' % out[1], **info)
        ctx.check(r.cls != ref.OK, 'well-formed receipt refused: %s' % out[3], **info)
        ctx.count(form + ' bad')
        return
    ctx.check(r.cls != ref.BAD, 'malformed receipt accepted', **info)
    rec, prefix = out[1]
    if r.cls == ref.OK:
        c16.same(ctx, rec, prefix, r, **info)
        ctx.count(form + ' ok')
        T = modes.receipt.CertSerialType
        ctx.check(T.getCertSerialType(r.serial) is
                  {'S:': T.TAX, 'U:': T.UID, 'G:': T.GLN}.get(r.serial[:2], T.SERIAL),
                  'wrong type of serial', serial=r.serial, got=T.getCertSerialType(r.serial).name)


def types(ctx):
    R = modes.receipt.Receipt
    for f in (R.fromJWSString, R.fromBasicCode, R.fromOCRCode, R.fromCSV):
        for bad in ('', '.', '_', ';', '_' * 13, ';' * 12, '..', u'\ud800', u'\ud800.a.b', '\0',
                    'a' * 100000, '_' * 100000, u'\udfff_' * 13):
            out = modes.outcome(lambda: f(bad))
            ctx.check(out[0] == 'err' and out[1] in ref.MALFORMED, 'not refused properly',
                      got=modes.brief(out), text=bad)
        for bad in (None, 5, 1.5, True, b'_R1-AT1_x_y', [u'_R1-AT1'], {}, object()):
            out = modes.outcome(lambda: f(bad))
            ctx.check(out[0] == 'err' and out[1] in ref.MALFORMED, 'not refused properly',
                      got=modes.brief(out), text=repr(bad))
    rng = ctx.rng
    good = ['AT1', 'KASSE', 'r1', '2020-01-01T00:00:00', '1,00', '0,00', '0,00', '0,00', '0,00',
            ref.b64(bytes(8)), 'abc', ref.b64(bytes(8))]
    out = modes.outcome(lambda: R(*good))
    ctx.check(out[0] == 'ok', 'well-formed fields refused', got=modes.brief(out))
    for i in range(12):
        bad = rng.choice([None, 5, 0, 1.5, True, False, good[i].encode(), [good[i]], {}, good,
                          datetime.datetime(2020, 1, 1), bytearray(b'x')])
        t = good[:i] + [bad] + good[i + 1:]
        out = modes.outcome(lambda: R(*t))
        ctx.check(out[0] == 'err' and out[1] in ref.MALFORMED,
                  'argument of a wrong type not refused properly', got=modes.brief(out),
                  argument=i, value=repr(bad))
        if i != 2:
            ctx.check(out[2] == 'r1', 'error names %r' % (out[2],), argument=i, value=repr(bad))
    for i in (0, 1):
        bad = rng.choice([None, 5, 1.5, True, b'x', ['x'], {}, object()])
        rec = R(*good)
        out = modes.outcome(lambda: rec.sign(*[bad if i == j else 'eA' for j in (0, 1)]))
        ctx.check(out[0] == 'err' and out[1] in ref.MALFORMED and out[2] == 'r1',
                  'signing with an argument of a wrong type not refused properly',
                  got=modes.brief(out), argument=i, value=repr(bad))
        ctx.check(not rec.signed, "receipt is signed after a refused signature", argument=i)
    ctx.count('type')


def constructor(ctx, t, r, sig):
    """The constructor obeys the same grammar, except for empty binary fields."""
    zda = t[0].split('-')
    if len(zda) != 2 or zda[0] != 'R1' or ref.CTRL.search(''.join(t)):
        return
    out = modes.outcome(lambda: modes.receipt.Receipt(zda[1], *t[1:]))
    ctx.count('constructor')
    info = dict(fields=t)
    if out[0] == 'err':
        ctx.check(out[1] in ref.MALFORMED, 'refused with ' + out[1], **info)
        ctx.check(r.cls != ref.OK, 'well-formed fields refused: ' + out[3], **info)
        if t[2] and '_' not in t[2]:
            ctx.check(out[2] == t[2], 'error names %r' % (out[2],), **info)
    else:
        # only the sizes of counter and chaining value may be missing there
        q = ref.R()
        v = ref._fields(q, [t[0]] + t[1:9] + ['VFJB', t[10], 'AAAAAAAAAAA='])
        ctx.check(v != ref.BAD, 'malformed fields accepted', **info)
