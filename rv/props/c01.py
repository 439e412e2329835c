"""C01: every correctly produced DEP is accepted."""
from rv import gen, modes, ref

LEVEL = 'exploration'
QUICK, THOROUGH = 2700, 30000
RULE = ('a case is a legal history of one simulated register (1..40 receipts) run in '
        '3 processing modes with and without turnover key; distinct by receipt kinds, '
        'grouping and modes')
MANDATORY = ['accepted', 'pool:sim', 'pool:real', 'nokey', 'outages', 'restores',
             'groups>1', 'sorted', 'entry:dep', 'parser:stream', 'parser:file', 'stretch:outage', 'stretch:outages', 'stretch:training',
             'stretch:reversal', 'stretch:null', 'stretch:groups', 'stretch:standard']


def case(ctx):
    rng = ctx.rng
    kind = 'sorted' if rng.random() < .2 else 'unique'
    n = rng.choice([1, 2, 3, rng.randrange(4, 16), rng.randrange(4, 40)])
    opts = {}
    if kind == 'sorted':
        opts['idstyle'] = rng.choice(['num', 'pad', 'nat'])
    h = gen.history(rng, n, stretch=.05, **opts)
    n = len(h.metas)
    ctx.count('stretch:%s' % h.stretch, h.stretch is not None)
    sig = tuple((m.kind[0], m.failed, m.null) for m in h.metas)
    ctx.count('receipts', n)
    ctx.count('outages', any(m.failed for m in h.metas))
    ctx.count('restores', any(m.null and not m.failed and a.failed
                              for a, m in zip(h.metas, h.metas[1:])))
    ctx.count('groups>1', len(h.groups) > 1)
    ctx.count(kind)
    dep = h.dep()
    for t in range(3):
        key = h.key if rng.random() < .75 else None
        if key is None:
            ctx.count('nokey')
        mode = modes.Mode(entry='dep') if t == 0 else modes.pick_mode(rng, n)
        st = None
        if rng.random() < .5:
            st = modes.verification_state.ClusterState(modes.BACKENDS[kind])
        out = modes.run(mode, dep, modes.real_ks(h.ks), key, st,
                        rng.choice([None, 0]) if st is not None else None, kind, rng)
        res = ref.verify(h.ref_groups(), h.ks, key, kind=kind)
        # the simulator and the reference model have to agree first
        reg = res.ok.regs[0]
        assert (reg.start, reg.last, reg.need) == (h.sim.start, h.sim.last, h.sim.need)
        assert key is None or reg.tc == h.sim.tc
        modes.expect(ctx, res, out, mode, key=key, **modes.hist_info(h))
        ctx.count('pool:%s' % mode.pool)
        ctx.count('parser:%s' % mode.parser)
        ctx.count('entry:%s' % mode.entry)
        ctx.distinct(sig, [len(g[0]) for g in h.groups], repr(mode))
    ctx.sample(receipts=sig, mode=repr(mode))
