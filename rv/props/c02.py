"""C02: tampered DEPs are never accepted."""
from rv import ec, gen, modes, ref
from rv.props import common

LEVEL = 'exploration'
QUICK, THOROUGH = 4500, 40000
RULE = ('a case is a legal history with 1..2 tampering operators applied (only such that '
        'the altered DEP falls in the stated class), run in 3 processing modes with or '
        'without key or prior state; distinct by operators, position and modes')
OPS = ['field', 'sigflip', 'sigswap', 'sigmarker', 'sigmall', 'noncanon', 'remove',
       'removegroup', 'dup', 'foreign', 'forged', 'forgedgroup', 'swap', 'resign',
       'othercert', 'mergegroups', 'header', 'truncated', 'almostmarker']
MANDATORY = ['op:' + o for o in OPS] + ['rejected', 'with state', 'pool:sim', 'pool:real',
                                        'nokey']


def tamper_field(rng, j):
    h, p, s = j.split('.')
    f = ref.unb64u(p).decode().split('_')
    k = rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 1])
    old = f[k]
    for _ in range(50):
        if k in (2, 3):
            f[k] = old + 'x' if rng.random() < .5 else (old[:-1] + chr(ord(old[-1]) ^ 1)).replace('_', 'x')
        elif k == 4:
            d = list(old)
            i = rng.choice([3, 6, 9, 12, 15, 18])
            d[i] = str(rng.randrange(10))
            f[k] = ''.join(d)
            if ref.cls_dt(f[k]) != ref.OK:
                f[k] = old
        elif k in (5, 6, 7, 8, 9):
            c = int(old.replace(',', '')) + rng.choice([1, -1, 100, -100, 10**6])
            f[k] = gen.cents_text(c)
            if rng.random() < .1:
                f[k] = '-0,00' if old == '0,00' else f[k]
        elif k in (10, 12):
            b = bytearray(ref.base64.b64decode(old))
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            f[k] = ref.b64(bytes(b))
        elif k == 11:
            f[k] = rng.choice([old.upper(), old.lower(), '0' + old, old[:-1] + 'A'])
            if ref.cls_serial(f[k], f[1] == 'R1-AT0') != ref.OK:
                f[k] = old
        else:
            f[k] = rng.choice(['R1-AT1', 'R1-AT2', 'R1-AT33']) if f[k] != 'R1-AT0' else f[k]
        if f[k] != old:
            break
        if k == 1 or k == 11:
            k = 5
            old = f[k]
    return h + '.' + ref.b64u('_'.join(f).encode()) + '.' + s, 'field%d' % k


def case(ctx):
    rng = ctx.rng
    n = rng.randrange(2, 14)
    h = gen.history(rng, n, stretch=.03)
    n = len(h.metas)
    groups = [([m.jws for m in g[0]], g[1], g[2]) for g in h.groups]
    orig = [list(g[0]) for g in groups]
    ks = h.ks
    info = []
    extra = None
    for _ in range(rng.choice([1, 1, 1, 2])):
        op = rng.choice(OPS)
        pos = [(a, b) for a, g in enumerate(groups) for b in range(len(g[0]))]
        if len(pos) < 2:
            break
        a, b = rng.choice(pos[:-1])          # never the last receipt
        la, lb = pos[-1]
        recs = groups[a][0]
        j = recs[b]
        r = ref.parse_jws(j)
        if r.cls != ref.OK:
            continue
        last = ref.parse_jws(groups[la][0][lb])
        if op == 'field':
            if rng.random() < .3 and last.cls == ref.OK and not last.broken:
                a, b = la, lb                 # content of a signed last receipt
                recs = groups[a][0]
            recs[b], d = tamper_field(rng, recs[b])
            info.append(d)
        elif op == 'sigflip':
            if rng.random() < .3 and last.cls == ref.OK and not last.broken:
                recs, b, r = groups[la][0], lb, last
            s = bytearray(ref.unb64u(r.sig)) or bytearray(1)
            s[rng.randrange(len(s))] ^= 1 << rng.randrange(8)
            recs[b] = r.signed + '.' + ref.b64u(bytes(s))
        elif op == 'sigswap':
            o = ref.parse_jws(rng.choice([x for g in groups for x in g[0]]))
            if o.cls != ref.OK or o.sig == r.sig:
                continue
            recs[b] = r.signed + '.' + o.sig
        elif op == 'sigmarker':
            if r.broken:
                continue
            recs[b] = r.signed + '.' + ref.BROKEN64
        elif op == 'sigmall':
            s = ref.unb64u(r.sig)
            if r.broken or len(s) != 64:
                continue
            v = ec.N - int.from_bytes(s[32:], 'big')
            recs[b] = r.signed + '.' + ref.b64u(s[:32] + v.to_bytes(32, 'big'))
        elif op == 'noncanon':
            # the unused bits of the last base 64 digit
            seg = j.split('.')
            i = rng.choice([1, 2])
            if len(seg[i]) % 4 == 0:
                i = 3 - i
            if len(seg[i]) % 4 == 0:
                continue
            al = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'
            seg[i] = seg[i][:-1] + al[al.index(seg[i][-1]) ^ 1]
            recs[b] = '.'.join(seg)
        elif op == 'remove':
            k = rng.choice([1, 1, 2, 3])
            if a == la:
                k = min(k, lb - b)
            del recs[b:b + k]
        elif op == 'removegroup':
            if a == la:
                continue
            del groups[a]
        elif op == 'dup':
            x, y = rng.choice(pos)
            recs.insert(b, groups[x][0][y])
        elif op == 'foreign':
            o = gen.history(rng, rng.randrange(1, 4), closed=h.closed, certful=h.certful)
            for kid, e in o.ks.d.items():
                ks.d.setdefault(kid, e)
            ins = [m.jws for m in o.metas]
            if h.certful and rng.random() < .5:
                og = [([m.jws for m in g[0]], g[1], g[2]) for g in o.groups if g[0]]
                if any(ref.trust(g[1], g[2], ks) for g in og):
                    continue
                groups[a:a + 1] = [(recs[:b], groups[a][1], groups[a][2])] + og + [
                    (recs[b:], groups[a][1], groups[a][2])]
            else:
                recs[b:b] = ins
        elif op in ('forged', 'resign', 'forgedgroup'):
            # properly formed and chained, but signed with the attacker's key
            f = r.payload.split('_')
            prev = None
            flat = [x for g in groups for x in g[0]]
            at = sum(len(g[0]) for g in groups[:a]) + b
            if op != 'resign':
                f[3] = 'forged%d' % rng.randrange(10**6)
                prev = flat[at - 1] if at else None
                f[12] = ref.chain_value(prev or r.reg)
            else:
                f[5] = gen.cents_text(int(f[5].replace(',', '')) + 100)
            evil = gen.key('p256', 90 + rng.randrange(3))
            sg = ref.HEADER64 + '.' + ref.b64u('_'.join(f).encode())
            bad = sg + '.' + ref.b64u(ec.sign_raw(evil.priv, sg.encode()))
            if op == 'resign':
                recs[b] = bad
            elif op == 'forged' or not h.certful:
                recs.insert(b, bad)
            else:
                real = groups[a][1]
                how = rng.choice(['serial', 'unknown', 'brokenlink'])
                if how == 'serial':
                    c = gen.Cert(evil, evil, real.serial, 'c0', 'c1')
                    ch = []
                elif how == 'unknown':
                    c, ch = gen.Cert(evil, evil, 4242424242, 'x', 'x'), []
                    if '%x' % 4242424242 in ks.d:
                        continue
                else:
                    c = gen.Cert(evil, evil, 4242424242, 'x', 'c1')
                    ch = [real] + list(groups[a][2])
                f[11] = '%x' % abs(c.serial) if not h.closed else f[11]
                sg = ref.HEADER64 + '.' + ref.b64u('_'.join(f).encode())
                bad = sg + '.' + ref.b64u(ec.sign_raw(evil.priv, sg.encode()))
                groups[a:a + 1] = [(recs[:b], groups[a][1], groups[a][2]), ([bad], c, ch),
                                   (recs[b:], groups[a][1], groups[a][2])]
                info.append(how)
        elif op == 'swap':
            x, y = rng.choice(pos)
            if (x, y) == (a, b):
                continue
            recs[b], groups[x][0][y] = groups[x][0][y], recs[b]
        elif op == 'othercert':
            if not h.certful or len(h.devs) < 2:
                continue
            # the group's receipts under another trusted certificate
            d = rng.choice(h.devs)
            if d.cert is groups[a][1]:
                continue
            rs = [ref.parse_jws(x) for x in recs]
            if all(x.broken and x.closed for x in rs if x.cls == ref.OK):
                continue
            groups[a] = (recs, d.cert, d.chain)
        elif op == 'mergegroups':
            if a + 1 >= len(groups) or groups[a + 1][1] is groups[a][1] or not h.certful:
                continue
            rs = [ref.parse_jws(x) for x in groups[a + 1][0]]
            if all(x.broken and x.closed for x in rs if x.cls == ref.OK):
                continue
            groups[a:a + 2] = [(recs + groups[a + 1][0], groups[a][1], groups[a][2])]
        elif op == 'almostmarker':
            # not quite the outage marker
            if rng.random() < .5 and last.cls == ref.OK and not last.broken:
                recs, b, r = groups[la][0], lb, last
            if r.broken:
                continue
            w = ref.BROKEN
            w = rng.choice([w[:-1], w + b'!', w + b'\0', w + b' ', w.lower(), w.upper(), w[1:], w * 2,
                            w[:20], b' ' + w, w.replace(b' ', b''), w[::-1],
                            w + b'\0' * (64 - len(w)), b'Signature system failed'])
            recs[b] = r.signed + '.' + ref.b64u(w)
        elif op == 'header':
            if rng.random() < .3 and last.cls == ref.OK and not last.broken:
                recs, b, r = groups[la][0], lb, last
                j = recs[b]
            hd = rng.choice(['{"alg":"none"}', '{"alg":"HS256"}', '{"alg":"ES384"}', '{}',
                             '{"alg":"ES256","b64":false}'])
            recs[b] = ref.b64u(hd.encode()) + j[j.index('.'):]
        elif op == 'truncated':
            k = rng.randrange(3)
            if rng.random() < .3 and last.cls == ref.OK and not last.broken:
                recs, b, r = groups[la][0], lb, last
            recs[b] = [r.signed + '.', r.signed + '.' + r.sig[:43], r.signed][k]
        groups = [(list(g[0]), g[1], g[2]) for g in groups]
        info.append(op)
        info.append((a, b))
    if not info:
        ctx.count('skipped')
        return
    flat0 = [(x, h.groups[i][1].b64 if h.groups[i][1] else None) for i, g in enumerate(orig) for x in g]
    flat1 = [(x, g[1].b64 if g[1] else None) for g in groups for x in g[0]]
    if flat0[:len(flat1)] == flat1:       # nothing changed, or only the end is missing
        ctx.count('undone')
        return
    key = h.key if rng.random() < .5 else None
    unspec = any(ref.parse_jws(x).cls == ref.UNSPEC for x, _ in flat1)
    if unspec:
        # not canonical base 64: any documented error, but never accepted
        dep = gen.make_dep(groups)
        for t in range(3):
            mode = modes.pick_mode(rng, len(flat1)) if t else modes.Mode(entry='dep')
            out = modes.run(mode, dep, modes.real_ks(ks), key, None, None, rng=rng)
            ctx.check(out[0] == 'err', 'tampered DEP accepted', info=info, dep=dep, mode=repr(mode))
            ctx.count('rejected')
    else:
        g2, cl, idx = common.maybe_state(ctx, groups, ks, key, 'unique', .3)
        res = ref.verify(g2, ks, key, cl, idx)
        if res.ok is not None:
            raise modes.core.Harness('tampering %r is not in the class' % (info,))
        common.check(ctx, g2, ks, key, cl, idx, info=info, res=res)
    for o in info:
        if o in OPS:
            ctx.count('op:' + o)
    ctx.count('nokey', key is None)
    ctx.distinct(info, n)
    ctx.sample(tampering=info, receipts=len(flat1))
