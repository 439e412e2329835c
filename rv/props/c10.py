"""C10: state advanced without verification, resumed from any receipt."""
import copy
from rv import gen, modes, ref
from rv.props import c08, common, c09

LEVEL = 'exploration'
QUICK, THOROUGH = 4400, 40000
RULE = ('a case is one legal history; its end (or all) is applied with updateFromDEPGroup() in '
        'chunks of random size from a random parser and compared with the state that '
        'verification leads to; or a state is made from a receipt at a random position and the '
        'section from there (intact or with one defect) is verified in a random mode and '
        'compared with the model and with the whole; distinct by kind, shape, position')
MANDATORY = ['resume in parts', 'advance', 'advance from start', 'advance with state', 'advance no key', 'resume',
             'resume key', 'resume no key', 'resume at failed', 'resume after failed',
             'resume at start', 'resume defect', 'start', 'start wrong', 'chunk=1', 'reversals only',
             'need at end', 'far counter']


def recs_of(mode, groups, rng):
    dep = gen.make_dep(groups)
    p = modes.make_parser(mode, dep, rng)
    for chunk in p.parse(mode.chunk or 0):
        for recs, cert, chain in chunk:
            yield recs


def advance(ctx):
    rng = ctx.rng
    o = {'profile': 'special'} if rng.random() < .4 else {}
    h = gen.history(rng, rng.randrange(1, 20), fail_p=rng.choice([.02, .1, .4]), stretch=.06, **o)
    ctx.count('stretch', h.stretch is not None)
    far = ctx.index % 24 == 6
    if far:
        # the last counter is far away
        h.sim.stretch(rng.choice(h.devs), how=rng.choice(['training', 'reversal', 'special']))
        h.groups = gen.regroup(rng, h.sim.metas, h.certful, .01)
        ctx.count('far counter')
    groups = h.ref_groups()
    key = h.key if far or rng.random() < .75 else None
    whole = ref.verify(groups, h.ks, key)
    n = len(h.metas)
    k = 0
    reg = modes.verification_state.CashRegisterState()
    if n > 1 and rng.random() < .6:
        k = rng.randrange(1, n)
        pre, groups = common.cut(groups, k)
        st = modes.real_state(ref.verify(pre, h.ks, key).ok)
        reg = st.getCashRegisterInfo(0)[1]
        ctx.count('advance with state')
    else:
        ctx.count('advance from start')
    ctx.count('advance' if key else 'advance no key')
    if all(m.kind != 'standard' for m in h.metas[k:]) and any(
            m.kind == 'reversal' for m in h.metas[k:]):
        ctx.count('reversals only')
    mode = modes.pick_mode(rng, n)
    while mode.entry == 'dep':
        mode = modes.pick_mode(rng, n)
    if far:
        mode.d['chunk'] = rng.choice([0, 1000, 200, mode.chunk])
    elif rng.random() < .5:
        mode.d['chunk'] = rng.choice([1, 1, 2, 3])
    if mode.chunk == 1:
        ctx.count('chunk=1')
    how = rng.choice(['from', 'update'])
    log = []
    for recs in recs_of(mode, groups, rng):
        if how == 'from':
            before = copy.deepcopy(reg.__dict__)
            new = modes.verification_state.CashRegisterState.fromDEPGroup(reg, recs, key)
            ctx.check(reg.__dict__ == before, 'fromDEPGroup modified the old state')
            reg = new
        else:
            reg.updateFromDEPGroup(recs, key)
        log.append(len(recs))
        if rng.random() < .05:
            reg.updateFromDEPGroup([], key)
    want = whole.ok.regs[0].view()
    if want['needRestoreReceipt']:
        ctx.count('need at end')
    ctx.check(reg.__dict__ == want, 'advancing leads to another state than verifying',
              want=want, got=dict(reg.__dict__), mode=repr(mode), chunks=log, key=key,
              dep=gen.make_dep(groups))
    ctx.distinct('advance', n, k, log, bool(key))
    ctx.sample(kind='advance', receipts=n, state_at=k, chunks=log)


def resume(ctx):
    rng = ctx.rng
    kind = rng.choice(['unique', 'unique', 'sorted'])
    style = rng.choice(['num', 'pad', 'nat']) if kind == 'sorted' else None
    defect = rng.random() < .35
    if defect:
        d = rng.choice(['counter', 'signature', 'chain', 'duplicate', 'date', 'register',
                        'malformed', 'restore', 'counter'])
        ks, devs, sim, certful, groups, at = c08.build(rng, d, style)
        hi = at
    else:
        d = 'none'
        h = gen.history(rng, rng.randrange(1, 20), idstyle=style, fail_p=rng.choice([.1, .4]), stretch=.03)
        ks, sim, groups = h.ks, h.sim, h.ref_groups()
        hi = len(h.metas) - 1
    k = rng.choice([0, hi, rng.randrange(hi + 1)])
    m = sim.metas[k]
    if m.r.cls != ref.OK:
        k = 0
        m = sim.metas[0]
    _, section = common.cut(groups, k)
    key = sim.key if m.kind == 'standard' and rng.random() < .8 else None
    rec, prefix = modes.receipt.Receipt.fromJWSString(m.jws)
    st = modes.verification_state.ClusterState.fromArbitraryReceipt(
        rec, prefix, sim.key if key or rng.random() < .5 else None, modes.BACKENDS[kind])
    ctx.check(rec.toJWSString(prefix) == m.jws, 'fromArbitraryReceipt modified the receipt')
    if rng.random() < .5:
        st = c09.through_text(ctx, st)
    start = ref.cluster_of(st.writeStateToJson())
    ctx.check(len(start.regs) == 1 and start.regs[0].chain_next == m.r.chain and
              start.used.view() in ([], (None, None)),
              'unexpected initial state', state=modes.view(st))
    # the model continues from an ideal state
    ideal = ref.Cluster(kind)
    reg = ref.Reg()
    reg.last = start.regs[0].last
    reg.chain_next = m.r.chain
    if key is not None:
        reg.tc = ref.dec_counter(key, m.r.reg, m.r.rid, m.r.tc) - m.r.cents
    ideal.regs.append(reg)
    base = start.regs[0].tc
    if key is None:
        reg.tc = base
    res = ref.verify(section, ks, key, ideal, 0, kind)
    if res.ok is None:
        # one defect, but its effect may be in front of the section
        res.loose = res.exact if d != 'duplicate' else res.loose
    n = sum(len(g[0]) for g in section)
    mode = modes.pick_mode(rng, n, real=.01)
    dep = gen.make_dep(section)
    st2 = copy.deepcopy(st)
    out = modes.run(mode, dep, modes.real_ks(ks), key, st, 0, kind, rng)
    modes.expect(ctx, res, out, mode, key=key, start=m.rid, defect=d, dep=dep)
    if out[0] == 'ok':
        c09.through_text(ctx, out[1])
    if n > 1 and rng.random() < .4:
        # the section in parts
        cuts = rng.sample(range(1, n), min(n - 1, rng.choice([1, 1, 2, 4])))
        ok, parts = c09.run_segments(ctx, c09.segments(rng, section, cuts), ks, key, kind,
                                     d not in ('none', 'duplicate'), (m.rid, d, cuts), ideal, st2)
        ctx.check(ok == (res.ok is not None), 'parts and whole differ in the model')
        if ok:
            ctx.check(modes.view(parts) == modes.view(out[1]), 'parts lead to another state',
                      parts=modes.view(parts), whole=modes.view(out[1]), dep=dep, cuts=cuts)
        ctx.count('resume in parts')
    if d == 'none':
        ctx.check(res.ok is not None, 'model rejects a section', exact=res.exact)
        whole = ref.verify(groups, ks, sim.key if key else None, kind=kind).ok.regs[0]
        got = modes.view(out[1])['cashRegisters'][0]
        ctx.check(got['lastReceiptJWS'] == whole.last, 'other last receipt')
        if key:
            ctx.check(got['lastTurnoverCounter'] == whole.tc, 'other turnover counter',
                      got=got, want=whole.tc)
        if not (k and sim.metas[k - 1].failed):
            ctx.check(got['needRestoreReceipt'] == whole.need, 'other restore obligation',
                      got=got, want=whole.need, dep=gen.make_dep(groups), start=m.rid)
        ctx.count('resume')
        if k and sim.metas[k - 1].failed:
            ctx.count('resume after failed')
        if m.failed:
            ctx.count('resume at failed')
        if k == 0:
            ctx.count('resume at start')
    else:
        ctx.count('resume defect')
    ctx.count('resume key' if key else 'resume no key')
    ctx.distinct('resume', d, k, n, bool(key), kind)
    ctx.sample(kind='resume', defect=d, start=k, receipts=n, mode=repr(mode))


def start(ctx):
    """A later register of a cluster, without the ones before it."""
    rng = ctx.rng
    prev = gen.Sim(rng)
    ks = ref.Ks()
    certful = rng.random() < .5
    devs = gen.devices(rng, True, certful, ks, 2)
    prev.legal(devs)
    sim = gen.Sim(rng, reg=prev.reg, chain_to=prev.start, t=prev.t)
    for _ in range(rng.randrange(1, 12)):
        sim.legal(devs)
    groups = common.groups_of(rng, sim.metas, certful)
    m = sim.metas[0]
    other = rng.random() < .3
    if other:
        x = gen.Sim(rng, reg=prev.reg, chain_to=prev.reg)
        m = x.legal(devs)
    rec, prefix = modes.receipt.Receipt.fromJWSString(m.jws)
    st = modes.verification_state.ClusterState.fromArbitraryStartReceipt(rec)
    if rng.random() < .5:
        st = c09.through_text(ctx, st)
    ideal = ref.Cluster('unique')
    ideal.regs.append(ref.Reg())
    ideal.regs[0].chain_next = m.r.chain
    key = sim.key if rng.random() < .7 else None
    res = ref.verify(groups, ks, key, ideal, 0)
    ctx.check((res.ok is None) == other, 'model')
    mode = modes.pick_mode(rng, len(sim.metas))
    dep = gen.make_dep(groups)
    out = modes.run(mode, dep, modes.real_ks(ks), key, st, 0, 'unique', rng)
    modes.expect(ctx, res, out, mode, key=key, dep=dep, other=other)
    ctx.count('start wrong' if other else 'start')
    ctx.distinct('start', other, len(sim.metas))


def case(ctx):
    f = ctx.rng.choice([advance, advance, resume, resume, start])
    f(ctx)
