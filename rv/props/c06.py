"""C06: register, system type and time never change backwards within a DEP."""
import datetime
from rv import gen, modes, ref
from rv.props import common

LEVEL = 'exploration'
QUICK, THOROUGH = 3900, 40000
RULE = ('a case is a chained and signed history in which one receipt (and possibly all that '
        'follow) has another register ID, the other system type, an earlier, equal or later '
        'time, another trust provider or certificate; in 3 modes, possibly behind a state cut '
        'right before it; distinct by deviation, position, modes')
DEVS = ['none', 'register', 'system', 'earlier', 'equal', 'provider', 'register-stay',
        'system-stay', 'register-similar']
MANDATORY = ['dev:' + d for d in DEVS] + [
    'cluster', 'accepted', 'with state', 'pool:sim', 'pool:real',
    'rejected:ChangingRegisterIdException', 'rejected:ChangingSystemTypeException',
    'rejected:DecreasingDateException']


def spoil(rng, sim, devs, ov):
    total = sim.amount() if not sim.need and rng.random() < .6 else 0
    failed = not sim.need and rng.random() < .2
    k = 'standard' if sim.need else rng.choice(['standard', 'standard', 'training', 'reversal'])
    sim.emit(rng.choice(devs), k, total, failed, null=(total == 0), **ov)


def case(ctx):
    rng = ctx.rng
    dev = rng.choice(DEVS)
    certful = rng.random() < .6 or dev.startswith('system')
    cluster = rng.random() < .2
    closed = cluster or rng.random() < .5
    ks = ref.Ks()
    serials = set()
    devs = gen.devices(rng, closed, certful, ks, 2, serials)
    other = gen.devices(rng, not closed, certful, ks, 1, serials)
    sim = gen.Sim(rng)
    n = rng.randrange(2, 10)
    cl = idx = None
    if cluster:
        prev = gen.Sim(rng, reg=sim.reg, key=sim.key, size=sim.size, ids=sim.ids, t=rng.choice([0] + gen.TIMES))
        for _ in range(rng.randrange(1, 5)):
            prev.legal(devs[0])
        sim.t = prev.t
        cl = ref.verify([([m.jws for m in prev.metas], devs[0].cert if certful else None,
                          devs[0].chain if certful else [])], ks, sim.key).ok
        idx = rng.choice([None, 1])
        sim.chain_to = prev.start
        ctx.count('cluster')
    at = rng.randrange(1, n)
    key = rng.choice([sim.key, None])
    cur = devs
    long = rng.randrange(1, n) if rng.random() < .03 else None
    for i in range(n):
        ov = {}
        if i == long:
            sim.stretch(cur)
            ctx.count('stretch')
        if i == at:
            atm = len(sim.metas)
        if i == at - 1 and rng.random() < .2:
            sim.t = max(sim.t, gen.change(gen.EPOCH + datetime.timedelta(seconds=sim.t), rng))
            ctx.count('change of daylight saving time')
        if i == at:
            last = sim.metas[-1].r.dt
            if dev in ('register', 'register-stay', 'register-similar'):
                r = gen.ident(rng).replace('_', '')
                if dev == 'register-similar':
                    r = gen.near(rng, sim.reg)
                ov['reg'] = r
            elif dev.startswith('system'):
                cur = other
            elif dev == 'earlier':
                t = datetime.datetime.strptime(last, '%Y-%m-%dT%H:%M:%S')
                d = datetime.timedelta(seconds=rng.choice([1, 1, 59, 1500, 3600, 86400, 86400 * 365]))
                ov['dt'] = gen.stamp(t - d if t.year > 2 else t - datetime.timedelta(seconds=1))
            elif dev == 'equal':
                ov['dt'] = last
        if ov or (i == at and dev.startswith('system')):
            if rng.random() < .5:
                sim.legal(cur, **ov)
            else:
                spoil(rng, sim, cur, ov)
            if dev == 'register-stay':
                sim.reg = ov['reg']
            if dev == 'system':
                cur = devs
        else:
            sim.legal(cur)
    groups = common.groups_of(rng, sim.metas, certful)
    if cluster:
        g2 = groups
    else:
        g2, cl, idx = common.maybe_state(ctx, groups, ks, key, 'unique', .4, before=atm)
    res = common.check(ctx, g2, ks, key, cl, idx, info=(dev, at, closed, cluster))
    if dev in ('none', 'equal', 'provider') and res.ok is None:
        raise modes.core.Harness('legal history refused by the model: %r' % (res.exact,))
    ctx.count('dev:' + dev)
    ctx.sample(deviation=dev, at=at)
