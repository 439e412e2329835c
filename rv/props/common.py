"""Shared by the checks of the DEP rules."""
import os
import subprocess
import sys

from rv import core, gen, modes, ref


def script(name, args, cwd, data=b'', env=None, timeout=400):
    """Runs a script of the repository: exit status, output, error output."""
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf-8')
    for k, v in (env or {}).items():
        e.pop(k, None)
        if v is not None:
            e[k] = v
    r = subprocess.run([sys.executable, os.path.join(core.REPO, name)] + [str(a) for a in args],
                       input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=e,
                       timeout=timeout)
    return r.returncode, r.stdout, r.stderr.decode('utf-8', 'replace')


def cut(groups, k):
    """Splits groups of (recs, cert, chain) after k receipts."""
    pre, post = [], []
    for recs, c, ch in groups:
        a, b = recs[:k], recs[k:]
        k = max(0, k - len(recs))
        if a:
            pre.append((a, c, ch))
        if b or not recs:
            post.append((b, c, ch))
    return pre, post


def maybe_state(ctx, groups, ks, key, kind, p=.35, before=None):
    """
    With probability p the beginning of the DEP is replaced by the state that it
    leads to (by the reference model). Returns groups, cluster, idx.
    before: cut in front of this receipt at the latest.
    """
    rng = ctx.rng
    n = sum(len(g[0]) for g in groups)
    if n < 2 or rng.random() >= p:
        return groups, None, None
    hi = min(n - 1, before if before else n - 1)
    if hi < 1:
        return groups, None, None
    k = rng.choice([hi, rng.randrange(1, hi + 1)])
    pre, post = cut(groups, k)
    res = ref.verify(pre, ks, key, kind=kind)
    if res.ok is None:
        return groups, None, None
    ctx.count('with state')
    if rng.random() < .1:
        # says once more what follows from the last receipt
        reg = res.ok.regs[0]
        reg.chain_next = ref.chain_value(reg.last)
        ctx.count('state with chaining value')
    return post, res.ok, 0


def check(ctx, groups, ks, key, cluster=None, idx=None, kind='unique', n=3,
          info=None, fixed=(), res=None):
    """
    Compares the outcome of several processing modes with the reference model.
    Returns the reference result.
    """
    rng = ctx.rng
    groups = [tuple(g) for g in groups]
    if res is None:
        res = ref.verify(groups, ks, key, cluster, idx, kind)
    dep = gen.make_dep(groups)
    total = sum(len(g[0]) for g in groups)
    todo = list(fixed) or [modes.Mode(entry='dep')]
    while len(todo) < n:
        todo.append(modes.pick_mode(rng, total))
    for mode in todo:
        st = modes.real_state(cluster) if cluster is not None else None
        out = modes.run(mode, dep, modes.real_ks(ks), key, st, idx, kind, rng)
        modes.expect(ctx, res, out, mode, key=key, info=info,
                     receipts=[r.rid if r.cls != ref.BAD else '?' for g in groups for r in
                               map(ref.parse_jws, g[0])],
                     dep=dep, state=modes.state_json(cluster) if cluster is not None else None)
        ctx.count('runs')
        ctx.count('entry:%s' % mode.entry)
        ctx.count('pool:%s' % mode.pool)
        ctx.count('receipts', total)
    ctx.distinct(info, [len(g[0]) for g in groups], [repr(m) for m in todo],
                 sorted(res.exact, key=repr)[:1] if res.exact else None)
    return res


def groups_of(rng, metas, certful):
    return [([m.jws for m in g[0]], g[1], g[2])
            for g in gen.regroup(rng, metas, certful)]


def setup(rng, ndev=2, closed=None, certful=None, fail_p=.15, **simopts):
    """ks, devices, simulator, closed, certful"""
    closed = rng.random() < .4 if closed is None else closed
    certful = rng.random() < .5 if certful is None else certful
    ks = ref.Ks()
    devs = gen.devices(rng, closed, certful, ks, ndev)
    sim = gen.Sim(rng, **simopts)
    return ks, devs, sim, closed, certful


def cluster(rng, nregs, nsegs, idstyle=None, certful=None, maxlen=6, fail_p=.15):
    """
    A cluster of registers of a closed system. Returns ks, devs, sims, certful and
    segments: (register, metas) in the order in which they were produced.
    """
    certful = rng.random() < .5 if certful is None else certful
    ks = ref.Ks()
    devs = gen.devices(rng, True, certful, ks, rng.choice([1, 2, 3]))
    ids = gen.Ids(rng, idstyle)
    sims, segs = [], []
    while len(segs) < nsegs or len(sims) < nregs:
        if len(sims) < nregs and (not sims or rng.random() < .4 or len(segs) >= nsegs):
            o = {'ids': ids}
            if sims:
                o.update(reg=sims[0].reg, chain_to=sims[-1].start, key=sims[0].key,
                         t=max(x.t for x in sims) if rng.random() < .5 else sims[-1].t0)
            s = gen.Sim(rng, **o)
            sims.append(s)
            r = len(sims) - 1
        else:
            r = rng.randrange(len(sims))
        s = sims[r]
        k = len(s.metas)
        for _ in range(rng.randrange(1, maxlen + 1)):
            s.legal(devs, fail_p)
            if len(s.metas) == 1:
                s.t0 = s.t
        segs.append((r, s.metas[k:]))
    return ks, devs, sims, certful, segs
