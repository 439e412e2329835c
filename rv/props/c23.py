"""C23: a key store behaves like a map and survives persistence."""
import base64
import configparser
import copy
import io
import json
import re
import warnings

from rv import core, gen, modes, ref
from rv.props import c18, c19

LEVEL = 'exploration'
QUICK, THOROUGH = 6000, 60000
TECHNIQUE = 'runtime monitoring: stateful model (a map) run in lockstep with real key stores'
RULE = ('a case is a random sequence of adding, replacing and deleting keys and certificates, looking '
        'up, copying, and writing and reading (JSON and legacy format) on several key stores at once; '
        'after each operation every store must show exactly its model; distinct by sequence')
MANDATORY = ['many keys', 'op:cert', 'op:pemkey', 'op:key', 'op:keycert', 'op:del', 'op:del unknown', 'op:copy',
             'op:json', 'op:legacy', 'op:replace', 'replace:cert by key', 'replace:key by cert',
             'symmetric key', 'no symmetric key', 'negative serial', 'key:p256', 'key:p384', 'key:rsa',
             'key:ed25519', 'lookup:decimal']
K = modes.key_store


def rsv(s):
    return s[:2] in ('U:', 'S:', 'G:')


class Store(object):
    def __init__(self, ks, model):
        self.ks, self.m = ks, model

    def check(self, ctx, **info):
        ks, m = self.ks, self.m
        ids = list(ks.getKeyIds())
        ctx.check(len(ids) == len(set(ids)) and set(ids) == set(m), 'wrong IDs', got=sorted(ids), want=sorted(m), **info)
        for i, (sp, der) in m.items():
            k, c = ks.getKey(i), ks.getCert(i)
            ctx.check(k is not None and c19.spki(k) == sp, 'wrong key under an ID', id=i, **info)
            ctx.check((None if c is None else c18.b64cert(c)) ==
                      (None if der is None else base64.b64encode(der).decode()),
                      'wrong certificate under an ID', id=i, **info)
            ctx.count('lookups')


def some_id(rng, m):
    if m and rng.random() < .5:
        return rng.choice(sorted(m))
    return rng.choice(['U:ATU%d' % rng.randrange(4), 'S:%d' % rng.randrange(4), 'G:%d-K1' % rng.randrange(4),
                       '%x' % rng.randrange(20), u'\xe4', 'x y', 'a' * 300, '', 'A', 'U:a', 'u:a', 's;1', '-5', ' ', ' A', 'A ', '\tA', 'A\n', ' U:a',
                       'U:a ', u'\xa0A', 'a;b', 'x;1', 'ab;C', 'S_1', 'a/b', 'a.b', '2;2'])


def case(ctx):
    rng = ctx.rng
    stores = [Store(K.KeyStore(), {})]
    pool = []
    log = []
    keys = [gen.key(k, i) for k in ('p256', 'p384', 'rsa', 'ed25519', 'p521', 'k256') for i in range(2)]
    if rng.random() < .01:
        # a company with many devices
        for i in range(rng.choice([70, 150, 300])):
            k = rng.choice(keys)
            i = 'U:ATU%08d-K%d' % (i // 3, i % 3)
            stores[0].ks.putPEMKey(i, k.spki_pem())
            stores[0].m[i] = (k.spki(), None)
        ctx.count('many keys')
    for _ in range(rng.choice([3, 8, 20, 40])):
        s = rng.choice(stores)
        op = rng.choice(['cert', 'cert', 'pemkey', 'pemkey', 'key', 'keycert', 'del', 'del', 'copy', 'json',
                         'legacy', 'look'])
        i = some_id(rng, s.m)
        k = rng.choice(keys)
        if op == 'cert':
            if pool and rng.random() < .4:
                c = rng.choice(pool)
                if rng.random() < .5:
                    # another one with the same serial
                    c = gen.Cert(k, gen.key('p256', 1), c.serial)
            else:
                n = rng.choice([rng.randrange(1, 20), -rng.randrange(1, 20), gen.serial_number(rng)])
                c = gen.Cert(k, gen.key(rng.choice(['p256', 'rsa', 'p384', 'p521']), 1), n)
            pool.append(c)
            i = ref.serial_id(c.serial)
            if c.serial < 0:
                ctx.count('negative serial')
            new = (c.key.spki(), c.der)
            pem = gen.dressed(rng, c.pem())
            do = lambda: s.ks.putPEMCert(pem)
            k = c.key
        elif op == 'pemkey':
            new = (k.spki(), None)
            pem = gen.dressed(rng, k.spki_pem())
            do = lambda: s.ks.putPEMKey(i, pem)
        elif op == 'key':
            new = (k.spki(), None)
            do = lambda: s.ks.putKey(i, modes.utils.loadPubKey(k.spki_pem()), None)
        elif op == 'keycert':
            c = gen.Cert(k, gen.key('p256', 1), rng.randrange(1, 20))
            i = ref.serial_id(c.serial)
            new = (k.spki(), c.der)
            rc = modes.real_cert(c)
            do = lambda: s.ks.putKey(i, rc.public_key(), rc)
        else:
            do = None
        log.append((op, i, stores.index(s)))
        ctx.count('op:' + op)
        if do is not None:
            ctx.count('key:' + k.kind)
            if i in s.m:
                ctx.count('op:replace')
                if s.m[i][1] is None and new[1] is not None:
                    ctx.count('replace:key by cert')
                if s.m[i][1] is not None and new[1] is None:
                    ctx.count('replace:cert by key')
            do()
            s.m[i] = new
        elif op == 'del':
            if i not in s.m:
                ctx.count('op:del unknown')
            s.ks.delKey(i)
            s.m.pop(i, None)
        elif op == 'copy':
            stores.append(Store(copy.deepcopy(s.ks), dict(s.m)))
        elif op == 'json':
            persist(ctx, s, stores, log)
        elif op == 'legacy':
            legacy(ctx, s, stores, log)
        else:
            for x in (i, i + '0', i.upper(), i.lower(), '0' + i, gen.near(rng, i), gen.near(rng, i), None, 5):
                if x in s.m:
                    continue
                ctx.check(s.ks.getKey(x) is None and s.ks.getCert(x) is None, 'an unknown ID is found', id=x, ops=log)
            for n in (c.serial for c in pool):
                d = str(abs(n))
                if d not in s.m:
                    ctx.check(s.ks.getKey(d) is None and s.ks.getCert(d) is None,
                              'a certificate is found under its decimal serial', id=d, ops=log)
                    ctx.count('lookup:decimal')
        if len(stores) > 4:
            stores.pop(rng.randrange(len(stores)))
        for t in stores:
            t.check(ctx, ops=log)
    ctx.distinct(log)
    ctx.sample(operations=len(log), stores=len(stores), entries=[len(t.m) for t in stores])


def plain(i):
    """An ID that the legacy format stores as it is."""
    return re.match(r'[A-Za-z0-9][A-Za-z0-9;_./-]{,60}\Z', i) and not re.search('[sug];', i)


def persist(ctx, s, stores, log):
    rng = ctx.rng
    sym = bytes(rng.randrange(256) for _ in range(32)) if rng.random() < .6 else None
    j = s.ks.writeStoreToJson(base64.b64encode(sym).decode() if sym else None)
    want = {'certificateOrPublicKeyMap': {
        i: {'id': i, 'signatureDeviceType': 'PUBLIC_KEY' if der is None else 'CERTIFICATE',
            'signatureCertificateOrPublicKey': base64.b64encode(sp if der is None else der).decode()}
        for i, (sp, der) in s.m.items()}}
    if sym:
        want['base64AESKey'] = base64.b64encode(sym).decode()
    ctx.check(j == want, 'wrong container written', got=j, want=want, ops=log)
    t = json.dumps(j, ensure_ascii=rng.random() < .5, indent=rng.choice([None, 2]))
    d = modes.utils.readJsonStream(rng.choice([io.StringIO(t), io.BytesIO(t.encode('utf-8'))]))
    ks = K.KeyStore.readStoreFromJson(d)
    got = modes.utils.loadKeyFromJson(d)
    ctx.check((None if got is None else bytes(got)) == sym, 'another symmetric key was read', got=repr(got), want=repr(sym))
    ctx.count('symmetric key' if sym else 'no symmetric key')
    n = Store(ks, dict(s.m))
    n.check(ctx, ops=log)
    # what was written does not follow the store
    stores.append(n)


def legacy(ctx, s, stores, log):
    # keep what the format can express
    for i in [i for i in s.m if not (rsv(i) and i[2:].replace('-', '').isalnum() or plain(i))]:
        s.ks.delKey(i)
        del s.m[i]
    cfg = configparser.RawConfigParser()
    cfg.optionxform = str
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        s.ks.writeStore(cfg)
        if ctx.rng.random() < .7:
            f = io.StringIO()
            cfg.write(f)
            f.seek(0)
            cfg = configparser.RawConfigParser()
            cfg.optionxform = str
            cfg.read_file(f)
        ks = K.KeyStore.readStore(cfg)
    n = Store(ks, dict(s.m))
    n.check(ctx, ops=log, format='legacy')
    stores.append(n)
