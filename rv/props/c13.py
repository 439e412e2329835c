"""C13: registers of a cluster are chained start to start, closed systems only."""
import copy
import datetime
import json
from rv import gen, modes, ref
from rv.props import common, c09

LEVEL = 'exploration'
QUICK, THOROUGH = 2700, 30000
RULE = ('a case is a cluster of 1 to 5 registers whose segments are verified in a random order '
        'that respects the chain of start receipts (the state is stored in between now and '
        'then); the whole state is compared with the model after each step; in some cases one '
        'register deviates and the matching error is expected; distinct by deviation, order and '
        'modes')
DEVS = ['startchain', 'regchain', 'otherchain', 'open', 'openprev', 'register', 'time', 'dup',
        'index', 'nostart', 'unsigned', 'turnover', 'training', 'swapped']
MANDATORY = ['dev:' + d for d in DEVS] + ['valid', 'registers:3', 'index by none',
                                          'later segment', 'sorted', 'used from other register',
                                          'equal start times']


def others_unchanged(ctx, before, after, r):
    a, b = before['cashRegisters'], after['cashRegisters']
    for i in range(max(len(a), len(b))):
        if i == r:
            continue
        ctx.check(i < len(a) and i < len(b) and a[i] == b[i],
                  'verifying register %d changed register %d' % (r, i), before=before, after=after)


def order(rng, segs, kind):
    """Another order of the segments that respects registers and their starts."""
    if kind == 'sorted' or rng.random() < .3:
        return list(segs)
    queues = {}
    for r, m in segs:
        queues.setdefault(r, []).append(m)
    out, started = [], set()
    while any(queues.values()):
        can = [r for r in queues if queues[r] and (r == 0 or r - 1 in started)]
        r = rng.choice(can)
        out.append((r, queues[r].pop(0)))
        started.add(r)
    return out


def deviation(rng, dev, sims, devs, ks, segs):
    """Returns (register, metas) that must be refused, given that segs are done."""
    last = sims[-1]
    n = len(sims)
    o = dict(reg=last.reg, chain_to=last.start, key=last.key, ids=last.ids,
             t=max(s.t for s in sims))
    kw = {}
    d = rng.choice(devs)
    total = 0
    kind = 'standard'
    failed = False
    if dev == 'startchain':
        # chained to the last instead of the start receipt
        kw['chain'] = ref.chain_value(last.last + ('' if last.last != last.start else 'x'))
    elif dev == 'regchain':
        kw['chain'] = ref.chain_value(last.reg)
    elif dev == 'otherchain':
        kw['chain'] = ref.chain_value(sims[0].start) if n > 1 else ref.chain_value('x')
    elif dev == 'open':
        kw.update(zda='AT3', serial='%x' % rng.getrandbits(60))
    elif dev == 'register':
        kw['reg'] = gen.near(rng, last.reg)
    elif dev == 'time':
        t = datetime.datetime.strptime(last.metas[0].dt, '%Y-%m-%dT%H:%M:%S')
        back = datetime.timedelta(seconds=rng.choice([1, 1, 3600, 86400 * 365]))
        kw['dt'] = gen.stamp(t - back if t.year > 2 else t - datetime.timedelta(seconds=1))
    elif dev == 'dup':
        kw['rid'] = rng.choice([m for s in sims for m in s.metas]).rid
    elif dev == 'unsigned':
        failed = True
    elif dev == 'turnover':
        total = rng.choice([1, -1, 100])
    elif dev == 'training':
        kind = rng.choice(['training', 'reversal'])
    s = gen.Sim(rng, **o)
    s.emit(d, kind, total, failed, null=(total == 0), **kw)
    for _ in range(rng.choice([0, 0, 2])):
        s.legal(devs)
    return n, s.metas


def case(ctx):
    rng = ctx.rng
    kind = 'sorted' if rng.random() < .15 else 'unique'
    nregs = rng.choice([1, 2, 2, 3, 3, 4, 5])
    if rng.random() < .02:
        nregs = rng.choice([12, 18, 40])
        ctx.count('many registers')
    dev = rng.choice(['valid', 'valid'] + DEVS)
    style = rng.choice(['num', 'nat', 'pad']) if kind == 'sorted' else None
    certful = None
    if dev == 'open':
        certful = False
    ks, devs, sims, certful, segs = common.cluster(rng, nregs, nregs + rng.randrange(4), style,
                                                   certful, maxlen=4)
    key = sims[0].key if rng.random() < .7 else None
    segs = order(rng, segs, kind)
    if any(sims[i].metas[0].dt == sims[i + 1].metas[0].dt for i in range(nregs - 1)):
        ctx.count('equal start times')
    if dev == 'openprev':
        openprev(ctx, kind)
        return
    if dev == 'swapped' and nregs >= 3 and kind == 'unique':
        # register 2 before register 1
        i = [r for r, _ in segs].index(1)
        segs = [s for s in segs[:i] if s[0] == 0] + [(1, sims[2].metas)]
        bad = len(segs) - 1
    else:
        bad = None
    st = modes.verification_state.ClusterState(modes.BACKENDS[kind])
    model = ref.Cluster(kind)
    nostart_at = rng.randrange(len(segs)) if dev == 'nostart' else None
    for i, (r, metas) in enumerate(segs):
        if i == nostart_at:
            nostart(ctx, rng, st, model, sims, ks, key, kind, devs, certful)
            return
        groups = common.groups_of(rng, metas, certful)
        idx = r
        if r == len(model.regs) and rng.random() < .5:
            idx = None
            ctx.count('index by none')
        res = ref.verify(groups, ks, key, model, idx, kind)
        mode = modes.pick_mode(rng, len(metas), real=.01)
        before = modes.view(st)
        out = modes.run(mode, gen.make_dep(groups), modes.real_ks(ks), key, st, idx, kind, rng)
        ctx.check((res.ok is None) == (i == bad), 'model', exact=res.exact)
        modes.expect(ctx, res, out, mode, key=key, register=r, order=[x[0] for x in segs],
                     state=modes.state_json(model), dep=gen.make_dep(groups))
        if i == bad:
            ctx.check(out[1] == 'InvalidChainingOnClusterInitialReceiptException' or
                      len(res.exact) > 1, 'wrong error', got=out[1])
            ctx.count('dev:swapped')
            return
        st, model = out[1], res.ok
        others_unchanged(ctx, before, modes.view(st), r)
        if metas[0].r.rid != sims[r].metas[0].r.rid:
            ctx.count('later segment')
        if rng.random() < .3:
            st = c09.through_text(ctx, st)
    ctx.count('registers:%d' % nregs)
    ctx.count(kind)
    ctx.distinct(dev, [r for r, _ in segs], kind, certful)
    ctx.sample(deviation=dev, order=[r for r, _ in segs])
    if dev in ('valid', 'swapped', 'nostart'):
        ctx.count('valid')
        # every register alone, same result
        for i, s in enumerate(sims):
            reg = model.regs[i]
            ctx.check(reg.start == s.start and reg.last == s.last, 'model registers')
        return
    if dev == 'index':
        n = len(sims)
        idx = rng.choice([-1, -n, -n - 1, n + 1, n + 7, 10**20])
        metas = gen.Sim(rng, reg=sims[0].reg, chain_to=sims[-1].start, ids=sims[0].ids)
        metas.legal(devs)
        metas = metas.metas
    else:
        idx, metas = deviation(rng, dev, sims, devs, ks, segs)
        if rng.random() < .5:
            idx = None
    groups = common.groups_of(rng, metas, certful)
    if dev == 'open':
        ks2 = ref.Ks(ks.d)
        for i in ref.serial_ids(metas[0].r.serial):
            ks2.add_key(i, metas[0].dev.key.pub)
        ks = ks2
    res = ref.verify(groups, ks, key, model, idx, kind)
    ctx.check(res.ok is None, 'model accepts deviation ' + dev)
    res.loose = res.exact if len(metas) == 1 else res.loose
    mode = modes.pick_mode(rng, len(metas))
    before = modes.view(st)
    out = modes.run(mode, gen.make_dep(groups), modes.real_ks(ks), key, st, idx, kind, rng)
    modes.expect(ctx, res, out, mode, deviation=dev, idx=idx, key=key,
                 state=modes.state_json(model), dep=gen.make_dep(groups))
    others_unchanged(ctx, before, modes.view(st), len(sims) if len(st.cashRegisters) > len(sims) else -1)
    if dev == 'dup':
        ctx.count('used from other register')
    ctx.count('dev:' + dev)


def nostart(ctx, rng, st, model, sims, ks, key, kind, devs, certful):
    """The last register has not been started."""
    if len(model.regs) >= len(sims):
        sims = sims + [gen.Sim(rng, reg=sims[0].reg, chain_to=sims[-1].start, ids=sims[0].ids,
                               t=sims[-1].t)]
        sims[-1].legal(devs)
    st.addNewCashRegister()
    model.regs.append(ref.Reg())
    if rng.random() < .5:
        st = c09.through_text(ctx, st)
    r = len(model.regs) - 1
    nxt = gen.Sim(rng, reg=sims[0].reg, chain_to=sims[r].start or 'x', ids=sims[0].ids)
    nxt.legal(devs)
    for idx in (None, len(model.regs)):
        groups = common.groups_of(rng, nxt.metas, certful)
        res = ref.verify(groups, ks, key, model, idx, kind)
        mode = modes.pick_mode(rng, 1)
        out = modes.run(mode, gen.make_dep(groups), modes.real_ks(ks), key, st, idx, kind, rng)
        ctx.check(out[0] == 'err' and out[1] == 'NoStartReceiptForLastCashRegisterException',
                  'register added although the last one has no start receipt',
                  got=modes.brief(out), idx=idx, state=modes.state_json(model))
        ctx.check(modes.view(st) == modes.model_view(model), 'state changed')
    # the register itself still can be started
    groups = common.groups_of(rng, sims[r].metas, certful)
    res = ref.verify(groups, ks, key, model, r, kind)
    mode = modes.pick_mode(rng, 1)
    out = modes.run(mode, gen.make_dep(groups), modes.real_ks(ks), key, st, r, kind, rng)
    modes.expect(ctx, res, out, mode, key=key, register=r, state=modes.state_json(model))
    ctx.count('dev:nostart')


def openprev(ctx, kind):
    """The first register is of an open system."""
    rng = ctx.rng
    ks = ref.Ks()
    serials = set()
    odevs = gen.devices(rng, False, False, ks, 1, serials)
    cdevs = gen.devices(rng, True, False, ks, 1, serials)
    style = 'num' if kind == 'sorted' else None
    a = gen.Sim(rng, idstyle=style)
    for _ in range(rng.randrange(1, 4)):
        a.legal(odevs)
    b = gen.Sim(rng, reg=a.reg, chain_to=a.start, key=a.key, ids=a.ids, t=a.t)
    for _ in range(rng.randrange(1, 3)):
        b.legal(rng.choice([odevs, cdevs]))
    key = rng.choice([a.key, None])
    st = modes.verification_state.ClusterState(modes.BACKENDS[kind])
    g = common.groups_of(rng, a.metas, False)
    res = ref.verify(g, ks, key, None, None, kind)
    out = modes.run(modes.Mode(entry='dep'), gen.make_dep(g), modes.real_ks(ks), key, st, None, kind, rng)
    modes.expect(ctx, res, out, modes.Mode(entry='dep'))
    st = out[1]
    g = common.groups_of(rng, b.metas, False)
    res2 = ref.verify(g, ks, key, res.ok, 1, kind)
    mode = modes.pick_mode(rng, len(b.metas))
    out = modes.run(mode, gen.make_dep(g), modes.real_ks(ks), key, st, rng.choice([1, None]), kind, rng)
    modes.expect(ctx, res2, out, mode, key=key, dep=gen.make_dep(g))
    ctx.count('dev:openprev')
    ctx.distinct('openprev', len(a.metas), len(b.metas))
