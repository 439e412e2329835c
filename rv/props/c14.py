"""C14: only certificates that chain up to the key store are trusted."""
from rv import gen, modes, ref
from rv.props import common

LEVEL = 'exploration'
QUICK, THOROUGH = 4500, 50000
RULE = ('a case is a chain of 1 to 7 certificates with random key and signature kinds, random '
        'trusted positions, broken links and stored impostors; the certificate check itself and '
        'a DEP with the group in several modes must give the verdict of the model; distinct by '
        'length, trusted, broken and colliding positions, kinds of keys')
MANDATORY = ['trusted', 'UntrustedCertificateException', 'CertificateChainBrokenException',
             'CertificateSerialCollisionException', 'broken behind trusted',
             'trusted behind broken', 'collision behind trusted', 'collision behind broken',
             'length 1', 'length 7', 'key only in store', 'ed25519 issuer', 'rsa issuer',
             'p384 issuer', 'sha512', 'sha384', 'damaged signature', 'other key', 'reordered',
             'removed', 'same key other content', 'other key same serial', 'second group bad',
             'self signed twice', 'serial of another', 'dep', 'no chain', 'unsigned tbs',
             'history', 'long chain', 'element twice', 'element again', 'p521 issuer', 'k256 issuer', 'history forged', 'history key replaced', 'history trusted', 'history refused']


def build(rng, leafkey):
    """certs: leaf to root; link i is broken if in the returned set."""
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7])
    if rng.random() < .02:
        n = rng.randrange(8, 40)
    kinds = rng.choice([('p256',), ('rsa',), ('p384',), ('p256', 'rsa', 'p384'),
                        ('p256', 'rsa', 'p384', 'ed25519'),
                        ('p256', 'rsa', 'p521', 'k256')])
    keys = [leafkey] + [gen.key(rng.choice(kinds), rng.randrange(3)) for _ in range(n - 1)]
    serials, certs, notes = set(), [], []
    brk = {}
    # names prove nothing
    names = rng.choice(['chained', 'chained', 'chained', 'same', 'self', 'foreign'])
    notes.append('names ' + names)
    for i in range(n - 1):
        if rng.random() < (.12 if n < 8 else .015):
            brk[i] = rng.choice(['damaged signature', 'other key', 'unsigned tbs'])
    for i, k in enumerate(keys):
        iss = keys[i + 1] if i + 1 < n else k
        num = gen.serial_number(rng)
        while ref.serial_id(num) in serials:
            num = gen.serial_number(rng)
        serials.add(ref.serial_id(num))
        h = rng.choice(['sha256', 'sha256', 'sha512', 'sha384'])
        damage = None
        cn, icn = 'c%d' % i, 'c%d' % (i + 1)
        if names == 'same':
            cn = icn = 'c'
        elif names == 'self':
            icn = cn
        elif names == 'foreign':
            icn = 'somebody'
        if i in brk:
            if brk[i] == 'damaged signature':
                damage = rng.randrange(20)
            elif brk[i] == 'other key':
                iss = gen.key(iss.kind, 7)
            notes.append(brk[i])
        c = gen.Cert(k, iss, num, cn, icn, h, damage=damage)
        if i in brk and brk[i] == 'unsigned tbs':
            # somebody else's signature
            d = gen.Cert(k, iss, num + 1, cn, icn, h)
            c = resign(c, d)
        if iss.kind == 'ed25519':
            h = None
        notes += [iss.kind + ' issuer', h or 'none'] if i + 1 < n else []
        certs.append(c)
    return certs, notes


def resign(c, d):
    """c with the signature of d."""
    import base64
    out = gen.Cert.__new__(gen.Cert)
    out.__dict__.update(c.__dict__)
    out.sig = d.sig
    alg = c.der[c.der.index(c.tbs) + len(c.tbs):]
    # AlgorithmIdentifier is one TLV
    ln = alg[1] + 2
    out.der = gen.seq(c.tbs, alg[:ln], gen.tlv(3, b'\0' + d.sig))
    out.b64 = base64.b64encode(out.der).decode()
    return out


def case(ctx):
    rng = ctx.rng
    sk = gen.key('p256', rng.randrange(40))
    certs, notes = build(rng, sk)
    n = len(certs)
    ks = ref.Ks()
    trusted, coll = [], []
    p = rng.choice([0, .15, .3, .6]) if n < 8 else rng.choice([0, 0, .02])
    ctx.count('long chain', n >= 8)
    for i, c in enumerate(certs):
        q = rng.random()
        if q < p or (i == n - 1 and rng.random() < .5):
            ks.add_cert(c)
            trusted.append(i)
        elif q < p + (.07 if n < 8 else .01):
            w = rng.randrange(3)
            if w == 0:
                d = gen.Cert(c.key, gen.key('p256', 3), c.serial, 'c%d' % i, 'c%d' % (i + 1))
                notes.append('same key other content')
            elif w == 1:
                d = gen.Cert(gen.key('p256', 41), gen.key('p256', 3), c.serial)
                notes.append('other key same serial')
            else:
                d = gen.Cert(c.key, gen.key('p256', 3), -c.serial if c.serial != 0 else 5)
                notes.append('serial of another')
            ks.add_cert(d)
            coll.append(i)
        elif q < p + .12:
            ks.add_key(ref.serial_id(c.serial), c.pub)
            notes.append('key only in store')
    for i in range(rng.choice([0, 1, 3]) if rng.random() < .99 else 300):
        c = gen.Cert(gen.key('p256', 50 + i % 9), gen.key('p256', 60), 10**19 + i)
        ks.add_cert(c)
    chain = list(certs[1:])
    q = rng.random()
    if q < .06 and len(chain) > 1:
        rng.shuffle(chain)
        notes.append('reordered')
    elif q < .12 and chain:
        del chain[rng.randrange(len(chain))]
        notes.append('removed')
    elif q < .17:
        chain.append((chain or certs)[-1])
        notes.append('self signed twice')
    elif q < .2 and chain:
        i = rng.randrange(len(chain) + 1)
        chain.insert(i, (certs[:1] + chain)[i])
        notes.append('element twice')
    elif q < .23 and len(chain) > 1:
        i = rng.randrange(len(chain) + 1)
        chain.insert(i, rng.choice(certs))
        notes.append('element again')
    elif q < .28:
        chain = []
        notes.append('no chain')
    want = ref.trust(certs[0], chain, ks)
    # positions in the chain as it is given
    full = [certs[0]] + chain
    tr = [i for i, c in enumerate(full) if ks.cert(ref.serial_id(c.serial)) is not None and
          ks.cert(ref.serial_id(c.serial)).der == c.der]
    co = [i for i, c in enumerate(full) if ks.cert(ref.serial_id(c.serial)) is not None and
          ks.cert(ref.serial_id(c.serial)).der != c.der]
    br = [i for i in range(len(full) - 1) if not ref.link_ok(full[i], full[i + 1])]
    if tr and br and min(tr) <= min(br):
        ctx.count('broken behind trusted')
    if tr and br and min(br) < min(tr):
        ctx.count('trusted behind broken')
    if tr and co and min(tr) < min(co):
        ctx.count('collision behind trusted')
    if co and br and min(br) < min(co):
        ctx.count('collision behind broken')
    if len(full) in (1, 7):
        ctx.count('length %d' % len(full))
    for x in set(notes):
        ctx.count(x)
    info = dict(trusted=tr, colliding=co, broken=br, length=len(full), notes=notes,
                kinds=[c.key.kind for c in full])
    ctx.distinct(tr, co, br, info['kinds'], sorted(set(notes)))
    ctx.count(want or 'trusted')
    # the check itself
    rks = modes.real_ks(ks)
    objs = [modes.real_cert(c) for c in full]
    out = modes.outcome(lambda: modes.verify.verifyCert(objs[0], objs[1:], rks))
    got = out[1] if out[0] == 'err' else None
    ctx.check(got == want, 'wrong verdict on a certificate: %s instead of %s' % (got, want),
              chain=[c.b64 for c in full], store=sorted(ks.d), **info)
    ctx.check(out[0] == 'err' or out[1] is None, 'verifyCert returns a value')
    if rng.random() < .4:
        history(ctx, full, ks, info)
    # in a DEP
    closed = rng.random() < .6
    if closed:
        dev = gen.Dev('AT0', 'U:ATU12345678-K%d' % sk.num, sk, certs[0], chain)
    else:
        dev = gen.Dev('AT1', gen.serial_text(rng, certs[0].serial, ['hex', 'HEX', '0hex']), sk,
                      certs[0], chain)
    sim = gen.Sim(rng)
    for _ in range(rng.randrange(1, 5)):
        sim.legal(dev)
    groups = [([m.jws for m in sim.metas], certs[0], chain)]
    if rng.random() < .35:
        # another group with a trusted certificate in front
        k2 = gen.key('p256', 44)
        c2 = gen.Cert(k2, k2, 10**20 + 5)
        ks.add_cert(c2)
        d2 = gen.Dev(dev.zda, 'U:ATU1' if closed else '%x' % c2.serial, k2, c2)
        sim = gen.Sim(rng)
        for _ in range(rng.randrange(1, 3)):
            sim.legal(d2)
        a = [m.jws for m in sim.metas]
        for _ in range(rng.randrange(1, 3)):
            sim.legal(dev)
        groups = [(a, c2, []), ([m.jws for m in sim.metas[len(a):]], certs[0], chain)]
        if want:
            ctx.count('second group bad')
    key = rng.choice([sim.key, None])
    res = ref.verify(groups, ks, key)
    ctx.check((res.ok is None) == (want is not None), 'model')
    common.check(ctx, groups, ks, key, info=info, n=2, res=res)
    ctx.count('dep')
    ctx.sample(want=want, **info)


def history(ctx, full, ks, info):
    """The verdict depends on the chain and the key store as they are, not on earlier verdicts."""
    rng = ctx.rng
    done = []
    for _ in range(rng.randrange(3, 9)):
        now = ref.Ks()
        for i, (t, c) in ks.d.items():
            if t == 'cert' and rng.random() < .7:
                now.add_cert(c)
        for c in full:
            if rng.random() < .15:
                now.add_cert(c)
        lo = rng.choice([0, 0, 0, rng.randrange(len(full))])
        hi = rng.choice([len(full), len(full), rng.randrange(lo, len(full)) + 1])
        part = full[lo:hi]
        w = rng.random()
        if w < .2:
            # another key, the rest and even the signature as before
            i = rng.randrange(len(part))
            k = gen.key(part[i].key.kind, 9)
            if len(k.spki()) == len(part[i].key.spki()):
                part[i] = gen.rekeyed(part[i], k)
                ctx.count('history key replaced')
        elif w < .6:
            # the same serials, keys and names, but another issuer's signature
            i = rng.randrange(len(part))
            c = part[i]
            part[i] = gen.Cert(c.key, gen.key('p256', 8), c.serial, 'c%d' % (lo + i), 'c%d' % (lo + i + 1))
            ctx.count('history forged')
        want = ref.trust(part[0], part[1:], now)
        load = rng.choice([modes.real_cert, lambda c: modes.depparser.parseDEPCert(c.b64)])
        objs = [load(c) for c in part]
        out = modes.outcome(lambda: modes.verify.verifyCert(objs[0], objs[1:], modes.real_ks(now)))
        got = out[1] if out[0] == 'err' else None
        done.append((lo, hi, sorted(now.d), got))
        ctx.check(got == want, 'wrong verdict on a certificate after others: %s instead of %s' % (
            got, want), chain=[c.b64 for c in part], history=done)
        ctx.count('history refused' if want else 'history trusted')
    ctx.count('history')
