"""C08: the result does not depend on chunk size, parser or process count."""
import datetime
import json
from rv import gen, modes, ref
from rv.props import common

LEVEL = 'exploration'
QUICK, THOROUGH = 1260, 14000
RULE = ('a case is one DEP (valid or with exactly one defect) with keys and prior state, run '
        'in 10 modes (entry, parser, chunk size, packages, simulated or real pool with seeded '
        'schedule); all must give the same verdict, state or error; distinct by defect, shape '
        'and modes')
DEFECTS = ['none', 'counter', 'signature', 'chain', 'duplicate', 'date', 'restore', 'register',
           'malformed', 'initial', 'untrusted', 'serial', 'outageinit', 'extrareceipt']
MANDATORY = ['defect:' + d for d in DEFECTS] + [
    'accepted', 'rejected', 'pool:sim', 'pool:real', 'with state', 'parser:dict', 'parser:full',
    'parser:file', 'parser:stream', 'parser:fromfd', 'boundary at defect', 'sorted']


def build(rng, defect, idstyle=None):
    certful = True if defect == 'untrusted' else None
    closed = False if defect == 'serial' else None
    ks, devs, sim, closed, certful = common.setup(rng, rng.choice([1, 2, 3]), closed=closed,
                                                  certful=certful, idstyle=idstyle)
    n = rng.randrange(2, 16)
    at = rng.randrange(1, n)
    if defect in ('initial', 'outageinit'):
        at = 0
    atm = at
    long = rng.randrange(1, n) if rng.random() < .02 else None
    for i in range(n):
        if i == long:
            sim.stretch(devs)
        if i == at:
            atm = len(sim.metas)
        if i != at or defect in ('none', 'untrusted'):
            sim.legal(devs)
            continue
        ov = {}
        dev = rng.choice(devs)
        need = sim.need
        total = 0 if need or i == 0 else sim.amount()
        failed = False
        last = sim.metas[-1] if sim.metas else None
        if defect == 'counter':
            ov['tc'] = sim.tc + total + rng.choice([1, -1])
            lim = 1 << (8 * sim.size - 1)
            if not -lim <= ov['tc'] < lim:
                ov['tc'] = sim.tc + total + (1 if ov['tc'] < 0 else -1)
        elif defect == 'signature':
            ov['priv'] = gen.key('p256', 97).priv
        elif defect == 'chain':
            ov['chain'] = rng.choice([ref.chain_value('x'), ref.chain_value(sim.reg)])
        elif defect == 'duplicate':
            ov['rid'] = rng.choice(sim.metas).rid
        elif defect == 'date':
            t = datetime.datetime.strptime(last.r.dt, '%Y-%m-%dT%H:%M:%S')
            back = datetime.timedelta(seconds=rng.choice([1, 1, 3600, 86400 * 365]))
            ov['dt'] = gen.stamp(t - back if t.year > 2 else t - datetime.timedelta(seconds=1))
        elif defect == 'restore':
            # build the situation first
            if not sim.need:
                sim.emit(dev, 'standard', sim.amount(), True)
                sim.emit(dev, 'standard', sim.amount(), False)
            failed = rng.random() < .4
            total = sim.amount()
        elif defect == 'register':
            ov['reg'] = gen.near(rng, sim.reg)
        elif defect == 'malformed':
            ov.update(rng.choice([{'dt': '2017-13-01T00:00:00'}, {'sums': ['1.00'] * 5 if False else ['0,0'] + ['0,00'] * 4},
                                  {'tc64': 'AAAA'}, {'zda': 'at1'}, {'chain': 'AAAA'}, {'alg': 'R2'}]))
            if 'sums' in ov:
                total = 0
        elif defect == 'initial':
            total = 100
        elif defect == 'outageinit':
            failed = True
        elif defect == 'serial':
            ov['serial'] = '%x' % (abs(rng.getrandbits(60)) | 1)
        elif defect == 'extrareceipt':
            # somebody else's receipt in the middle, the chain goes on without it
            keep = (sim.last, sim.tc, sim.need, sim.prev_failed)
            sim.emit(dev, 'training', 0, null=True, chain=ref.chain_value('elsewhere'))
            sim.last, sim.tc, sim.need, sim.prev_failed = keep
            continue
        if 'sums' in ov:
            m = gen.Meta()
            keep = sim.tc
            try:
                sim.emit(dev, 'standard', 0, null=True, **ov)
            finally:
                sim.tc = keep
        elif at and defect in ('chain', 'duplicate', 'date', 'register') and rng.random() < .5:
            sim.legal(dev, **ov)
        else:
            sim.emit(dev, 'standard', total, failed, null=(total == 0), **ov)
    groups = common.groups_of(rng, sim.metas, certful)
    if defect == 'untrusted':
        k = rng.choice([i for i, g in enumerate(groups) if g[0]])
        c = groups[k][1]
        evil = gen.Cert(c.key, gen.key('p256', 98), c.serial, 'c0', 'c1')
        mode = rng.randrange(3)
        if mode == 0:
            groups[k] = (groups[k][0], evil, groups[k][2])
        elif mode == 1:
            for kid in list(ks.d):
                if ks.d[kid][0] == 'cert' and ks.d[kid][1] in [c] + list(groups[k][2]):
                    del ks.d[kid]
        else:
            groups[k] = (groups[k][0], evil, [gen.Cert(gen.key('p256', 98), gen.key('p256', 98), 7777777777, 'c1', 'c1')])
    return ks, devs, sim, certful, groups, atm


def case(ctx):
    rng = ctx.rng
    if ctx.index == 0:
        known(ctx)
    defect = rng.choice(DEFECTS + ['none'] * 6)
    kind = 'sorted' if rng.random() < .15 else 'unique'
    ks, devs, sim, certful, groups, at = build(
        rng, defect, rng.choice(['num', 'pad', 'nat']) if kind == 'sorted' else None)
    key = rng.choice([sim.key, sim.key, None])
    if defect == 'counter':
        key = sim.key
    res0 = ref.verify(groups, ks, key, kind=kind)
    if defect != 'none' and res0.ok is not None:
        ctx.count('no defect')
    groups, cl, idx = common.maybe_state(ctx, groups, ks, key, kind, .35, before=res0.at)
    res = ref.verify(groups, ks, key, cl, idx, kind)
    if kind == 'sorted' and defect == 'duplicate':
        strict = False
    else:
        strict = True
    if res.ok is None and strict:
        # one defect only: every mode has to report it
        res.loose = res.exact
    n = sum(len(g[0]) for g in groups)
    at = res.at if res.at is not None else rng.randrange(n)
    fixed = [modes.Mode(entry='dep')]
    if at:
        fixed.append(modes.Mode(entry='parsed', parser=rng.choice(['dict', 'file', 'full']),
                                how='bytes', chunk=at, nprocs=rng.choice([1, 2, 4]),
                                pool=rng.choice([None, 'sim', 'sim'])))
        ctx.count('boundary at defect')
    if at + 1 < n:
        fixed.append(modes.Mode(entry='parsed', parser='dict', chunk=at + 1, nprocs=rng.choice([2, 4]),
                                pool='sim'))
    fixed.append(modes.Mode(entry='parsed', parser='dict', chunk=1, nprocs=rng.choice([1, 2, 4, 40]),
                            pool='sim'))
    fixed.append(modes.Mode(entry='parsed', parser='dict', chunk=0, nparts=rng.choice([1, 2, 3, 5]),
                            nprocs=rng.choice([1, 2, 3]), pool=rng.choice([None, 'sim'])))
    while len(fixed) < 10:
        m = modes.pick_mode(rng, n, real=.1)
        fixed.append(m)
    for m in fixed:
        ctx.count('parser:%s' % m.parser)
    common.check(ctx, groups, ks, key, cl, idx, kind, info=(defect, at), fixed=fixed, res=res)
    ctx.count('defect:' + defect)
    ctx.count(kind)
    ctx.sample(defect=defect, at=at, modes=[repr(m) for m in fixed])


def known(ctx):
    """More than one group and no certificates."""
    rng = ctx.rng
    h = gen.history(rng, 6, certful=False, ndev=1)
    recs = [m.jws for m in h.metas]
    ks = modes.real_ks(h.ks)
    dep = gen.make_dep([(recs[:3], None, []), (recs[3:], None, [])])
    whole = modes.run(modes.Mode(entry='dep'), dep, ks, h.key, rng=rng)
    ctx.check(whole[0] == 'err' and whole[1] == 'NoCertificateGivenException',
              'groups without certificates accepted', got=modes.brief(whole))
    acc = 0
    for parser in ('dict', 'full', 'file'):
        for chunk in (0, 1, 2, 3, 4):
            m = modes.Mode(entry='parsed', parser=parser, chunk=chunk, nprocs=1, how='bytes', nparts=1)
            out = modes.run(m, dep, ks, h.key, rng=rng)
            if out[0] == 'ok':
                acc += 1
            else:
                ctx.check(out[1] == 'NoCertificateGivenException', 'other error',
                          got=modes.brief(out), mode=repr(m))
    if acc:
        ctx.known_finding('C08-certless-groups', '%d modes' % acc)
