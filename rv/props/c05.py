"""C05: the initial receipt of a register must be a genuine start receipt."""
import itertools
from rv import gen, modes, ref
from rv.props import common

LEVEL = 'exploration'
QUICK, THOROUGH = 5200, 41600
RULE = ('a case is a history whose first receipt deviates in 0..3 of: outage, turnover, '
        'training, reversal, zero training/reversal, chaining (to other register, empty, '
        'random, to itself, to the AES key, previous start), bad signature; alone, behind an '
        'empty state or as a further register of a cluster; distinct by deviations and modes')
DEVS = ['failed', 'turnover', 'training', 'reversal', 'chain-other', 'chain-random',
        'chain-start', 'unsigned', 'cancel-out', 'chain-case', 'chain-last']
MANDATORY = ['dev:' + d for d in DEVS] + [
    'accepted', 'cluster', 'empty state', 'pool:sim', 'pool:real',
    'rejected:SignatureSystemFailedOnInitialReceiptException',
    'rejected:NonzeroTurnoverOnInitialReceiptException',
    'rejected:NonstandardTypeOnInitialReceiptException',
    'rejected:InvalidChainingOnInitialReceiptException',
    'rejected:InvalidChainingOnClusterInitialReceiptException',
    'rejected:InvalidSignatureException']


def case(ctx):
    rng = ctx.rng
    cluster = rng.random() < .35
    closed = True if cluster else rng.random() < .4
    ks, devs, sim, closed, certful = common.setup(rng, 1, closed=closed)
    cl = idx = None
    key = rng.choice([sim.key, sim.key, None])
    prev = None
    if cluster:
        prev = gen.Sim(rng, reg=sim.reg, key=sim.key, size=sim.size, ids=sim.ids, t=0)
        for _ in range(rng.randrange(1, 5)):
            prev.legal(devs)
        sim.t = prev.t
        res = ref.verify([([m.jws for m in prev.metas], devs[0].cert if certful else None,
                           devs[0].chain if certful else [])], ks, key)
        cl = res.ok
        idx = rng.choice([None, 1])
        sim.chain_to = prev.start
        ctx.count('cluster')
    elif rng.random() < .3:
        cl = ref.Cluster()
        if rng.random() < .5:
            cl.regs.append(ref.Reg())
            idx = 0
        else:
            idx = rng.choice([None, 0])
        ctx.count('empty state')
    k = rng.choice([0, 1, 1, 1, 1, 2, 3])
    ds = rng.sample(DEVS, k)
    if not cluster:
        ds = [d for d in ds if d not in ('chain-last',)] or ds[:0]
    ov = {}
    kind, total, failed = 'standard', 0, False
    for d in ds:
        ctx.count('dev:' + d)
        if d == 'failed':
            failed = True
        elif d == 'turnover':
            total = rng.choice([1, -1, 100, 12345, 10**8])
        elif d == 'cancel-out':
            a = rng.choice([1, 100, 4711])
            ov['sums'] = [gen.cents_text(a), gen.cents_text(-a), '0,00', '0,00', '0,00']
        elif d == 'training':
            kind = 'training'
        elif d == 'reversal':
            kind = 'reversal'
        elif d == 'chain-other':
            ov['chain'] = ref.chain_value(sim.reg + 'x') if not cluster else ref.chain_value(sim.reg)
        elif d == 'chain-random':
            ov['chain'] = ref.b64(bytes(rng.randrange(256) for _ in range(8)))
        elif d == 'chain-case':
            ov['chain'] = ref.chain_value(gen.near(rng, sim.reg))
        elif d == 'chain-start':
            # chained like a register of the other kind
            ov['chain'] = ref.chain_value(sim.reg) if cluster else ref.chain_value('')
        elif d == 'chain-last':
            ov['chain'] = ref.chain_value(prev.last)
        elif d == 'unsigned':
            ov['priv'] = gen.key('p256', 95).priv
    sim.emit(devs[0], kind, total, failed, null=(total == 0), **ov)
    for _ in range(rng.choice([0, 1, 3])):
        sim.legal(devs)
    groups = common.groups_of(rng, sim.metas, certful)
    common.check(ctx, groups, ks, key, cl, idx, info=(tuple(ds), cluster, idx), n=4)
    ctx.sample(deviations=ds, cluster=cluster)
