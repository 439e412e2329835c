"""C19: hostile key stores end in documented errors."""
import base64
import configparser
import copy
import io
import json

from rv import core, gen, modes, ref
from rv.props import c18

LEVEL = 'exploration'
QUICK, THOROUGH = 15000, 120000
RULE = ('a case is a correct key store container with extra elements, read from its JSON value, its '
        'text or the legacy format; the same with one to three defects; and arbitrary JSON; the '
        'correct one must yield exactly the described entries, the defective one must be refused '
        'with a key store error; distinct by entries and defects')
DEFECTS = ['root', 'nomap', 'map type', 'entry type', 'missing', 'id type', 'id mismatch',
           'device type', 'device unknown', 'cert id', 'value type', 'value malformed',
           'value kind']
MANDATORY = ['defect:' + d for d in DEFECTS] + [
    'valid', 'valid text', 'valid legacy', 'legacy defect', 'arbitrary refused', 'arbitrary read',
    'lookups', 'unknown lookups', 'entry:cert', 'entry:key', 'key:p256', 'key:p384', 'key:rsa',
    'key:ed25519']
K = modes.key_store
DEV = {'cert': 'CERTIFICATE', 'key': 'PUBLIC_KEY'}


class Entry(object):
    """rid: ID as written, kid: ID for look-ups"""

    def json(self):
        return {'id': self.rid, 'signatureDeviceType': DEV[self.kind],
                'signatureCertificateOrPublicKey': self.text}


def entry(rng, ctx, used):
    e = Entry()
    kind = rng.choice(['p256', 'p256', 'p256', 'p384', 'rsa', 'ed25519', 'p521', 'k256'])
    k = gen.key(kind, rng.randrange(3))
    while True:
        if rng.random() < .5:
            e.kind = 'cert'
            c = gen.Cert(k, gen.key(rng.choice(['p256', 'rsa']), 1), gen.serial_number(rng), rng.choice(['leaf', u'\xe4']))
            e.rid = gen.serial_text(rng, c.serial, ['hex', 'hex', 'HEX', '0hex', 'neg'])
            e.kid = ref.serial_id(c.serial)
            e.text, e.der, e.spki, e.obj = c.b64, c.der, k.spki(), ('cert', c)
        else:
            e.kind = 'key'
            e.rid = e.kid = rng.choice([
                'U:ATU%08d' % rng.randrange(10**8), 'S:%09d' % rng.randrange(10**9),
                'G:%013d-K1' % rng.randrange(10**13), '%x' % rng.getrandbits(60),
                '%X' % rng.getrandbits(60), '', u'\xe4\u6f22', 'a b', ' a', 'a ', 'a\n', 'x' * 500, 'id', '-', '0', '00',
                'certificateOrPublicKeyMap', '"\\', '\0', 'None', gen.ident(rng)])
            e.text, e.der, e.spki = base64.b64encode(k.spki()).decode(), None, k.spki()
            e.obj = ('key', k.pub)
        if e.kid not in used:
            break
    used.add(e.kid)
    ctx.count('entry:' + e.kind)
    ctx.count('key:' + kind)
    return e


def spki(key):
    return key.public_bytes(gen.serialization.Encoding.DER,
                            gen.serialization.PublicFormat.SubjectPublicKeyInfo)


def expect(ctx, ks, entries, **info):
    ids = list(ks.getKeyIds())
    ctx.check(sorted(ids) == sorted(e.kid for e in entries), 'wrong IDs in the key store',
              got=ids, want=[e.kid for e in entries], **info)
    for e in entries:
        k, c = ks.getKey(e.kid), ks.getCert(e.kid)
        ctx.check(k is not None and spki(k) == e.spki, 'wrong key under an ID', id=e.kid, **info)
        if e.der is None:
            ctx.check(c is None, 'a certificate where a key was stored', id=e.kid, **info)
        else:
            ctx.check(c is not None and c18.b64cert(c) == base64.b64encode(e.der).decode(),
                      'wrong certificate under an ID', id=e.kid, **info)
        ctx.count('lookups')
    have = {e.kid for e in entries}
    for e in entries:
        for o in (gen.near(ctx.rng, e.kid), gen.near(ctx.rng, e.kid), e.rid, e.kid.upper(), e.kid.lower(), '0' + e.kid, '-' + e.kid, e.kid + ' ',
                  e.kid[1:], 'U:' + e.kid, e.text, e.kid[:-1], e.kid.replace(':', ';')):
            if o not in have:
                ctx.check(ks.getKey(o) is None and ks.getCert(o) is None,
                          'something else can be looked up', id=o, **info)
                ctx.count('unknown lookups')
    for o in ('id', '', 'CERTIFICATE', None, 0, 'signatureDeviceType'):
        if o not in have:
            ctx.check(ks.getKey(o) is None and ks.getCert(o) is None,
                      'something else can be looked up', id=o, **info)


def bad_key(rng):
    good = gen.key('p256', 1).spki()
    k = rng.randrange(10)
    b = base64.b64encode(good).decode()
    if k == 0:
        return rng.choice(['', 'x', ' ', 'AAAA', '!!!!', '-----', u'\xe4', '\0', '====', '\ud800'])
    if k == 1:
        return base64.b64encode(bytes(rng.randrange(256) for _ in range(rng.randrange(1, 200)))).decode()
    if k == 2:
        return base64.b64encode(good[:rng.randrange(1, len(good))]).decode()
    if k == 3:
        return base64.b64encode(good[:-1] + bytes([good[-1] ^ 1])).decode()  # not on the curve
    if k == 4:
        return base64.b64encode(good.replace(gen.oid('1.2.840.10045.3.1.7'),
                                             gen.oid('1.2.840.10045.3.1.9'))).decode()
    if k == 5:
        return base64.b64encode(good.replace(gen.oid('1.2.840.10045.2.1'),
                                             gen.oid('1.2.840.10045.2.9'))).decode()
    if k == 6:
        return base64.b64encode(good.replace(b'\x03\x42\x00\x04', b'\x03\x42\x00\x05')).decode()
    if k == 7:
        return base64.b64encode(good[2:]).decode()
    if k == 8:
        i = rng.randrange(len(b) - 2)
        return b[:i] + rng.choice(u'\xe4*~\ud800') + b[i + 1:]
    return base64.b64encode(b'\x30\x00').decode()


def bad_cert(rng):
    if rng.random() < .3:
        c = gen.Cert(gen.key('p256', 1), gen.key('p256', 1), 7)
        o, n = rng.choice([
            (gen.oid('1.2.840.10045.3.1.7'), gen.oid('1.2.840.10045.3.1.9')),
            (gen.oid('1.2.840.10045.2.1'), gen.oid('1.2.840.10045.2.9')),
            (b'\xa0\x03\x02\x01\x02', b'\xa0\x03\x02\x01' + bytes([rng.choice([1, 3, 9, 128])]))])
        return base64.b64encode(c.der.replace(o, n)).decode()
    return c18.bad_cert(rng, gen.Cert(gen.key('p256', 1), gen.key('p256', 1), 5))


NOTCERT = ['xyz', '', '-', 'U:ATU12345678', 'S:123', '12.5', 'g1', u'\xe4', 'CERTIFICATE', '1 2', '\0']


def wrong(rng, *good):
    return copy.deepcopy(rng.choice([w for w in c18.WRONG if not isinstance(w, good)]))


def defect(ctx, cont, entries):
    """Returns the changed container."""
    rng = ctx.rng
    d = rng.choice(DEFECTS)
    ctx.count('defect:' + d)
    m = cont['certificateOrPublicKeyMap']
    e = rng.choice(entries)
    v = m[e.rid]
    if d == 'root':
        return rng.choice([wrong(rng, dict), [cont], cont['certificateOrPublicKeyMap'] if
                           'certificateOrPublicKeyMap' not in m else []]), d
    if d == 'nomap':
        del cont['certificateOrPublicKeyMap']
        if rng.random() < .5:
            cont[rng.choice(['certificateorpublickeymap', 'certificateOrPublicKeyMap ', 'x'])] = m
    elif d == 'map type':
        cont['certificateOrPublicKeyMap'] = rng.choice([wrong(rng, dict), list(m.values()), e.rid, None])
    elif d == 'entry type':
        m[e.rid] = rng.choice([wrong(rng, dict), [v], e.text, e.rid, list(v.items())])
    elif d == 'missing':
        k = rng.choice(['id', 'signatureDeviceType', 'signatureCertificateOrPublicKey'])
        x = v.pop(k)
        if rng.random() < .3:
            v[k.upper()] = x
    elif d == 'id type':
        v['id'] = rng.choice([wrong(rng, str), [e.rid], {e.rid: e.rid},
                              int(e.rid) if e.rid.isdigit() and e.rid.isascii() else 5])
    elif d == 'id mismatch':
        n = rng.choice([e.rid + '0', '0' + e.rid, e.rid.swapcase(), e.rid + ' ', '', 'x',
                        rng.choice(entries).rid, '-' + e.rid, e.rid[1:]])
        if n == e.rid:
            n += 'z'
        if rng.random() < .5 or n in m:
            v['id'] = n
        else:
            m[n] = m.pop(e.rid)
    elif d == 'device type':
        v['signatureDeviceType'] = rng.choice([wrong(rng, str), [DEV[e.kind]]])
    elif d == 'device unknown':
        t = DEV[e.kind]
        v['signatureDeviceType'] = rng.choice([t.lower(), t + ' ', ' ' + t, t[:-1], '', 'x', 'null',
                                               'PUBLIC-KEY', 'CERT', 'KEY', t + '\n', 'AES'])
    elif d == 'cert id':
        n = rng.choice(NOTCERT)
        if n in m:
            n = 'zzz'
        m[n] = {'id': n, 'signatureDeviceType': 'CERTIFICATE',
                'signatureCertificateOrPublicKey': gen.Cert(gen.key('p256', 1), gen.key('p256', 1), 9).b64}
    elif d == 'value type':
        v['signatureCertificateOrPublicKey'] = rng.choice([wrong(rng, str), [e.text], {'x': e.text}])
    elif d == 'value malformed':
        v['signatureCertificateOrPublicKey'] = bad_cert(rng) if e.kind == 'cert' else bad_key(rng)
    elif d == 'value kind':
        o = {'cert': base64.b64encode(e.spki).decode(),
             'key': gen.Cert(gen.key('p256', 2), gen.key('p256', 2), 9).b64}[e.kind]
        v['signatureCertificateOrPublicKey'] = o
    return cont, d


def read(ctx, j):
    snap = copy.deepcopy(j)
    out = modes.outcome(lambda: K.KeyStore.readStoreFromJson(j))
    ctx.check(repr(j) == repr(snap), 'reading changed the container')
    if out[0] == 'err':
        ctx.check(isinstance(out[4], K.KeyStoreParseException), 'not a key store error: ' + out[1])
        str(out[4])
        repr(out[4])
    return out


def legacy(ctx, entries):
    rng = ctx.rng
    es = [e for e in entries if e.kind == 'cert' or e.rid[:2] in ('U:', 'S:', 'G:')]
    secs = {'certificates': [], 'public_keys': []}
    for e in es:
        k = e.kid
        if rng.random() < .8:
            k = k.replace('U:', 'u;').replace('S:', 's;').replace('G:', 'g;')
        secs['certificates' if e.kind == 'cert' else 'public_keys'].append([k, e.text])
    bad = None
    if rng.random() < .5 and es:
        sec = rng.choice([s for s in secs if secs[s]])
        x = rng.choice(secs[sec])
        bad = rng.choice(['malformed', 'kind'])
        if bad == 'malformed':
            x[1] = bad_cert(rng) if sec == 'certificates' else bad_key(rng)
        else:
            x[1] = base64.b64encode(gen.key('p256', 1).spki()).decode() if sec == 'certificates' \
                else gen.Cert(gen.key('p256', 2), gen.key('p256', 2), 9).b64
    cfg = configparser.RawConfigParser()
    cfg.optionxform = str
    for s in sorted(secs):
        if secs[s] or rng.random() < .5:
            cfg.add_section(s)
            for k, v in secs[s]:
                cfg.set(s, k, v)
    if rng.random() < .3:
        cfg.add_section('other')
        cfg.set('other', 'x', 'y')
    out = modes.outcome(lambda: K.KeyStore.readStore(cfg))
    if bad:
        ctx.check(out[0] == 'err' and isinstance(out[4], K.KeyStoreParseException),
                  'a defective legacy key store was read', kind=bad,
                  store={s: cfg.items(s) for s in cfg.sections()})
        ctx.count('legacy defect')
    else:
        ctx.check(out[0] == 'ok', 'a correct legacy key store was refused', error=modes.brief(out),
                  store={s: cfg.items(s) for s in cfg.sections()})
        expect(ctx, out[1], es)
        ctx.count('valid legacy')


NAMES = ['certificateOrPublicKeyMap', 'id', 'signatureDeviceType', 'signatureCertificateOrPublicKey',
         'base64AESKey', 'a', '5', '']


def arbitrary(rng, d=0):
    k = rng.randrange(10)
    if k < 4 and d < 5:
        return {n: arbitrary(rng, d + 1) for n in rng.sample(NAMES, rng.randrange(5))}
    if k == 4 and d < 5:
        return [arbitrary(rng, d + 1) for _ in range(rng.randrange(3))]
    if k == 5:
        return copy.deepcopy(rng.choice(c18.WRONG))
    return rng.choice(['CERTIFICATE', 'PUBLIC_KEY', '5', 'a', '', float('nan'), float('inf'), 2**70,
                       gen.Cert(gen.key('p256', 1), gen.key('p256', 1), 5).b64,
                       base64.b64encode(gen.key('p256', 1).spki()).decode()])


def shaped(rng):
    """Nearly a container."""
    def ent(i):
        e = {'id': rng.choice([i, i, i, arbitrary(rng, 4)]),
             'signatureDeviceType': rng.choice(['CERTIFICATE', 'PUBLIC_KEY', arbitrary(rng, 4)]),
             'signatureCertificateOrPublicKey': rng.choice([
                 gen.Cert(gen.key('p256', 1), gen.key('p256', 1), 5).b64,
                 base64.b64encode(gen.key('p256', 1).spki()).decode(), bad_cert(rng), bad_key(rng),
                 arbitrary(rng, 4)])}
        if rng.random() < .2:
            e.pop(rng.choice(list(e)))
        return e
    return {'certificateOrPublicKeyMap': {i: rng.choice([ent(i), ent(i), arbitrary(rng, 2)]) for i in
                                          rng.sample(['5', 'a', '', '9' * 5000, 'U:x', 'ff'], rng.randrange(3))}}


def case(ctx):
    rng = ctx.rng
    k = rng.random()
    if k < .2:
        j = arbitrary(rng) if rng.random() < .3 else shaped(rng)
        out = read(ctx, j)
        ctx.count('arbitrary refused' if out[0] == 'err' else 'arbitrary read')
        if out[0] == 'ok':
            m = j['certificateOrPublicKeyMap']
            ctx.check(len(list(out[1].getKeyIds())) <= len(m), 'more entries than described')
            for i, e in m.items():
                ctx.check(isinstance(e, dict) and e['id'] == i and
                          e['signatureDeviceType'] in DEV.values() and
                          isinstance(e['signatureCertificateOrPublicKey'], str),
                          'a malformed entry was accepted', container=repr(j))
        ctx.distinct('arbitrary', repr(j))
        ctx.sample(kind='arbitrary', result=out[0])
        return
    used = set()
    entries = [entry(rng, ctx, used) for _ in range(rng.choice([0, 1, 1, 2, 3, 6]))]
    # the IDs as written must differ, too
    seen = {}
    for e in entries:
        seen[e.rid] = e
    entries = list(seen.values())
    rng.shuffle(entries)
    if k < .35:
        legacy(ctx, entries)
        ctx.distinct('legacy', [(e.kind, e.rid) for e in entries])
        return
    cont = {}
    if rng.random() < .5:
        cont['base64AESKey'] = ref.b64(bytes(rng.randrange(256) for _ in range(32)))
    cont['certificateOrPublicKeyMap'] = {e.rid: e.json() for e in entries}
    if rng.random() < .4:
        for d in [cont] + [cont['certificateOrPublicKeyMap'][e.rid] for e in entries]:
            if rng.random() < .5:
                d[rng.choice(['extra', u'\xe4', '', 'Id', 'signatureDeviceTypes'])] = gen.junk(rng)
    ds = []
    if k < .75 and entries:
        for _ in range(rng.choice([1, 1, 1, 2])):
            if not isinstance(cont, dict) or not isinstance(cont.get('certificateOrPublicKeyMap'), dict) \
                    or any(not isinstance(cont['certificateOrPublicKeyMap'].get(e.rid), dict) or
                           len([1 for n in NAMES[1:4] if n in cont['certificateOrPublicKeyMap'][e.rid]]) < 3
                           for e in entries):
                break
            if ds and ds[-1] in ('id mismatch', 'value malformed', 'value kind'):
                break  # a second change could mend the first
            cont, d = defect(ctx, cont, entries)
            ds.append(d)
        out = read(ctx, cont)
        ctx.check(out[0] == 'err', 'a defective key store was read', defects=ds, container=repr(cont))
        ctx.distinct(ds, [(e.kind, e.rid) for e in entries], repr(cont)[-40:])
        ctx.count('error:' + out[1])
        ctx.sample(kind='defects', defects=ds, error=out[1])
        return
    if rng.random() < .5:
        t = gen.dumps(rng, cont, rng.choice([0, 1]), rng.random() < .3)
        b = (b'\xef\xbb\xbf' if rng.random() < .3 else b'') + t.encode('utf-8')
        f = io.BytesIO(b) if rng.random() < .5 else io.TextIOWrapper(io.BytesIO(b), encoding='utf-8')
        j = modes.utils.readJsonStream(f)
        ctx.check(j == cont, 'JSON text read differently')
        ctx.count('valid text')
    else:
        j = cont
    out = read(ctx, j)
    ctx.check(out[0] == 'ok', 'a correct key store was refused', error=modes.brief(out), container=repr(cont))
    expect(ctx, out[1], entries, container=repr(cont))
    ctx.count('valid')
    ctx.distinct('valid', [(e.kind, e.rid) for e in entries])
    ctx.sample(kind='valid', entries=len(entries))
