"""C03: turnover counters are checked against the exact running sum."""
import hashlib
from rv import gen, modes, ref
from rv.props import common

LEVEL = 'exploration'
QUICK, THOROUGH = 3900, 40000
RULE = ('a case is a chained and signed history in which the register itself puts a wrong '
        '(or, in one case of four, right) counter into one or more receipts, run in 4 modes '
        'with key and in 1 without; distinct by fault, receipt kinds, position, modes')
FAULTS = ['none', 'cent', 'rand', 'sign', 'wrap', 'training', 'reversal+', 'reversal0',
          'stale', 'otherkey', 'otherid', 'size', 'badsize', 'shift', 'float', 'amount', 'zero',
          'wrongkey', 'littleendian']
MANDATORY = ['fault:' + f for f in FAULTS] + [
    'accepted', 'rejected:InvalidTurnoverCounterException', 'with state', 'pool:sim',
    'pool:real', 'nokey ok', 'beyond 2^53', 'negative counter', 'wrong key', 'long']


def case(ctx):
    rng = ctx.rng
    ks, devs, sim, closed, certful = common.setup(
        rng, rng.choice([1, 2]), **({'profile': 'special'} if ctx.index % 13 == 3 else {}))
    n = rng.randrange(2, 14)
    fault = rng.choice(FAULTS + ['none'] * 5)
    if ctx.index % 13 == 3:
        n = rng.randrange(15, 45)
        fault = rng.choice(['none', 'none', fault])
        ctx.count('long')
    at = rng.randrange(1, n)
    if rng.random() < .2:
        at = 0
    later = rng.random() < .5          # later counters continue from the wrong one
    off = 0
    lim = 1 << (8 * sim.size - 1)
    done = False
    long = rng.randrange(1, n) if rng.random() < .04 else None
    for i in range(n):
        if i == long and off == 0:
            sim.stretch(devs)
            ctx.count('stretch')
        before = len(sim.metas)
        if i != at or fault == 'none':
            if off == 0:
                sim.legal(devs)
            else:
                emit_off(sim, devs, off)
            continue
        ov = {}
        rid = sim.ids.next()
        ov['rid'] = rid
        total = 0 if i == 0 or sim.need or rng.random() < .2 else sim.amount()
        failed = i > 0 and not sim.need and rng.random() < (.6 if sim.prev_failed else .15)
        tc = sim.tc + total
        dev = rng.choice(devs)
        if fault == 'cent':
            off = rng.choice([1, -1])
        elif fault == 'rand':
            off = rng.randrange(-lim, lim) - tc
        elif fault == 'sign':
            off = -2 * tc
        elif fault == 'wrap':
            # congruent modulo 2^32 (or any other size but the full one)
            off = rng.choice([1 << 32, -(1 << 32), 1 << (8 * sim.size - 8), 1 << (8 * sim.size - 16)])
        elif fault == 'stale':
            off = -total
        elif fault == 'float':
            off = int(round(float(tc) / 100 * 100)) - tc
        elif fault == 'zero':
            off = -tc
        elif fault in ('training', 'reversal+', 'reversal0'):
            if i == 0 or sim.need:
                total = 0
                sim.emit(dev, 'standard', 0, null=True, rid=rid)
                continue
            kind = 'training' if fault == 'training' else 'reversal'
            m = sim.emit(dev, kind, total, failed, rid=rid)
            c = m.r.cents
            off = {'training': c, 'reversal+': -2 * c, 'reversal0': -c}[fault]
            if not -lim <= sim.tc + off < lim:
                off = 1
            continue
        elif fault == 'otherkey':
            ov['key'] = hashlib.sha256(b'other').digest()
        elif fault == 'otherid':
            ov['tc64'] = ref.b64(ref.enc_counter(sim.key, sim.reg, rid + 'x', tc, sim.size))
        elif fault == 'size':
            ov['size'] = rng.randrange(5, 17)        # legal if the value fits
            if not -(1 << (8 * ov['size'] - 1)) <= tc < 1 << (8 * ov['size'] - 1):
                ctx.count('truncated')
        elif fault == 'badsize':
            ct = ref.enc_counter(sim.key, sim.reg, rid, tc, 16)
            k = rng.choice([1, 2, 3, 4, 4, 17, 20, 32])
            ov['tc64'] = ref.b64((ct + ct)[:k])
        elif fault == 'shift':
            off = rng.choice([tc * 9, tc // 10 - tc, tc * 99])
        elif fault == 'littleendian':
            b = (tc & (2 * lim - 1)).to_bytes(sim.size, 'little')
            off = int.from_bytes(b, 'big', signed=True) - tc
        elif fault == 'amount':
            # the sums say something else than what was added
            sums = [gen.cents_text(c) for c in gen.split_sums(rng, total)] if total else ['0,00'] * 5
            k = rng.randrange(5)
            if i > 0 and not sim.need:
                sums[k] = gen.cents_text(int(sums[k].replace(',', '')) + rng.choice([1, -1, 10, 100]))
            ov['sums'] = sums
            d = sum(int(s.replace(',', '')) for s in sums) - total
            ov['tc'] = sim.tc + total
            if fault == 'amount' and later:
                off = -d
        if not -lim <= tc + off < lim:
            off = -1 if tc > 0 else 1
        if off and 'tc' not in ov:
            ov['tc'] = tc + off
        sim.emit(dev, 'standard', total, failed, null=(total == 0), **ov)
        if not later:
            off = 0
    groups = common.groups_of(rng, sim.metas, certful)
    key = sim.key
    if fault == 'wrongkey':
        key = rng.choice([hashlib.sha256(b'wrong').digest(), sim.key[:16], sim.key + b'x', b'',
                          sim.key[::-1]])
        ctx.count('wrong key')
        if len(key) != 32 and key == b'':
            pass
    ctx.count('fault:' + fault)
    kinds = tuple((m.kind[0], m.failed) for m in sim.metas)
    ctx.count('beyond 2^53', any(abs(m.tc) > 1 << 53 for m in sim.metas))
    ctx.count('negative counter', any(m.tc < 0 for m in sim.metas))
    info = (fault, at, later, sim.size, kinds)
    g2, cl, idx = common.maybe_state(ctx, groups, ks, key, 'unique', .35, before=at)
    n2 = sum(len(g[0]) for g in g2)
    batch = [modes.Mode(entry='dep')]
    if n2 > 2:
        # the counter handed on from package to package within one batch
        batch.append(modes.Mode(entry='parsed', parser='dict', chunk=rng.randrange(1, n2),
                                nprocs=rng.choice([2, 3, 9]), pool=rng.choice([None, 'sim'])))
        batch.append(modes.Mode(entry='parsed', parser='dict', chunk=rng.choice([2, 3, 4, 5]),
                                nprocs=rng.choice([2, 3, 9])))
    common.check(ctx, g2, ks, key, cl, idx, info=info, fixed=batch, n=4)
    res = common.check(ctx, groups, ks, None, info=info, n=1,
                       fixed=[modes.pick_mode(rng, n, real=0)])
    if fault != 'badsize':
        ctx.check(res.ok is not None, 'harness: history without key', res=res.exact)
        ctx.count('nokey ok')
    ctx.sample(fault=fault, at=at, kinds=kinds, size=sim.size)


def emit_off(sim, devs, off):
    """A legal receipt whose counter is off by a constant."""
    rng = sim.rng
    lim = 1 << (8 * sim.size - 1)
    dev = rng.choice(devs)
    if sim.need or rng.random() < .2:
        k, t = 'standard', 0
    else:
        k = rng.choice(['standard', 'standard', 'training', 'reversal'])
        t = rng.choice([0, sim.amount()])
    v = sim.tc + t + off
    if k == 'standard' and -lim <= v < lim:
        sim.emit(dev, k, t, null=(t == 0), tc=v)
    else:
        sim.emit(dev, k, t, null=(t == 0))
