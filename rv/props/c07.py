"""C07: a receipt ID is accepted at most once per DEP, cluster and stored state."""
from rv import gen, modes, ref
from rv.props import common

LEVEL = 'exploration'
QUICK, THOROUGH = 3900, 40000
RULE = ('a case is a chained and signed history whose IDs are distinct, repeated at some '
        'distance, already used in a stored state or by another register, or (ID range '
        'backend) increasing, equal or decreasing in natural order; run in 4 modes; distinct '
        'by IDs relation, backend, positions and modes')
KINDS = ['distinct', 'repeat', 'adjacent', 'far', 'initial', 'state', 'cluster', 'similar',
         'order', 'twice']
MANDATORY = ['kind:' + k for k in KINDS] + [
    'accepted', 'rejected:DuplicateReceiptIdException', 'with state', 'pool:sim', 'pool:real',
    'unique', 'many used', 'huge state', 'many by class', 'sorted', 'sorted accepted', 'sorted rejected']
NAT = ['R%d', '%d', '%05d', 'A-%d/x', u'ä%d', '%d', 'k%dm']


def scale(ctx):
    """A register that is used for years."""
    rng = ctx.rng
    B = modes.BACKENDS['unique']
    D = modes.verification_state.DuplicateReceiptIdException
    used = B()
    n = rng.choice([20000, 70000, 150000, 270000])
    ids = ['%d-%d' % (i * 7 % 1000, i) for i in range(n)]
    for j in range(0, n, 10007):
        part = B()
        for x in ids[j:j + 10007]:
            part.add(x)
        if rng.random() < .5:
            part = modes.verification_state.UsedReceiptIdsBackend.readFromJson(part.writeToJson(), 'x')
        used.merge([part])
        for x in ([ids[0]] + rng.sample(ids[:j + 1], min(300, j + 1)) if j else ids[:1]):
            out = modes.outcome(lambda: used.check(x))
            ctx.check(out[0] == 'err' and out[1] == D.__name__, 'a used ID is forgotten', id=x, used=j)
        for i in range(20):
            used.check('%d-new' % i)
    ctx.count('many by class')


def case(ctx):
    rng = ctx.rng
    if ctx.index % 1300 == 6:
        scale(ctx)
    kind = 'sorted' if rng.random() < .4 else 'unique'
    what = rng.choice(KINDS)
    huge = ctx.index % 650 == 5
    if huge:
        kind, what = 'unique', rng.choice(['state', 'initial'])
    closed = True if what == 'cluster' else rng.random() < .4
    idstyle = rng.choice(['num', 'pad', 'nat']) if kind == 'sorted' else None
    ks, devs, sim, closed, certful = common.setup(rng, rng.choice([1, 2]), closed=closed,
                                                  idstyle=idstyle)
    n = rng.randrange(2, 14)
    key = rng.choice([sim.key, None])
    cl = idx = None
    forced = {}
    if what == 'repeat':
        a = rng.randrange(n - 1)
        forced[rng.randrange(a + 1, n)] = a
    elif what == 'adjacent':
        a = rng.randrange(n - 1)
        forced[a + 1] = a
    elif what == 'far':
        forced[n - 1] = 0
    elif what == 'twice':
        for _ in range(2):
            a = rng.randrange(n - 1)
            forced[rng.randrange(a + 1, n)] = a
    fmt = rng.choice(NAT)
    base = rng.choice([1, 8, 95, 10**6, 10**25])
    if what in ('state', 'initial'):
        # IDs that some other register of the state has used
        cl = ref.Cluster(kind)
        cl.regs.append(ref.Reg())
        idx = 0
        many = rng.random() < .06
        for _ in range(rng.choice([300, 1100, 5000]) if many else rng.randrange(1, 6)):
            cl.used.add(sim.ids.next())
        ctx.count('many used', many)
        if huge:
            old = ['used %d/%d' % (i * 7 % 1000, i) for i in range(rng.choice([70000, 140000]))]
            cl.used.ids.update(old)
            ctx.count('huge state')
        pool = [cl.used.max] if kind == 'sorted' else sorted(cl.used.ids)
        if huge:
            forced[0 if what == 'initial' else n - 1] = rng.choice([old[0], rng.choice(old)])
        elif rng.random() < .75:
            forced[0 if what == 'initial' else rng.randrange(n)] = rng.choice(pool)
    elif what == 'cluster':
        prev = gen.Sim(rng, reg=sim.reg, key=sim.key, ids=sim.ids, t=0)
        for _ in range(rng.randrange(1, 6)):
            prev.legal(devs[0])
        res = ref.verify([([m.jws for m in prev.metas], devs[0].cert if certful else None,
                           devs[0].chain if certful else [])], ks, None, kind=kind)
        cl, idx = res.ok, None
        cl.regs[0].tc = prev.tc if key else 0
        sim.t, sim.chain_to = prev.t, prev.start
        if rng.random() < .75:
            forced[rng.randrange(n)] = rng.choice([m.rid for m in prev.metas])
    long = rng.randrange(1, n) if n > 1 and rng.random() < .03 else None
    for i in range(n):
        ov = {}
        if i == long:
            sim.stretch(devs)
            ctx.count('stretch')
        f = forced.get(i)
        if isinstance(f, int):
            ov['rid'] = sim.metas[f].rid
        elif f is not None:
            ov['rid'] = f
        elif what == 'similar' and i:
            p = rng.choice(sim.metas).rid
            c = gen.near(rng, p)
            if c and c not in [m.rid for m in sim.metas]:
                ov['rid'] = c
        elif what == 'order':
            base += rng.choice([1, 1, 1, 1, 7, 90, 0, -1]) if rng.random() < .3 else rng.choice([1, 2, 9, 91])
            ov['rid'] = fmt % base
        if ov:
            if rng.random() < .6:
                sim.legal(devs, **ov)
            elif i == 0:
                sim.emit(devs[0], 'standard', 0, null=True, **ov)
            else:
                special = not sim.need and rng.random() < .6
                sim.emit(rng.choice(devs), 'standard', sim.amount() if special else 0,
                         null=not special, **ov)
        else:
            sim.legal(devs)
    groups = common.groups_of(rng, sim.metas, certful)
    if cl is None:
        groups, cl, idx = common.maybe_state(
            ctx, groups, ks, key, kind, .5,
            before=ref.verify(groups, ks, key, kind=kind).at)
    else:
        ctx.count('with state')
    res = common.check(ctx, groups, ks, key, cl, idx, kind, n=4,
                       info=(what, kind, sorted(forced.items(), key=repr)))
    ctx.count('kind:' + what)
    ctx.count(kind)
    ctx.count(kind + (' accepted' if res.ok else ' rejected'))
    ctx.sample(kind=what, backend=kind, ids=[m.rid for m in sim.metas])
