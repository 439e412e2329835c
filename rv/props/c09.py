"""C09: verifying a DEP in segments equals verifying it whole."""
import copy
import json
from rv import gen, modes, ref
from rv.props import c08, common

LEVEL = 'exploration'
QUICK, THOROUGH = 2700, 30000
RULE = ('a case is one DEP (valid or with one defect) cut at 1 to 6 points; the segments are '
        'verified in order, each in its own mode, with the state written to and read from JSON '
        'text in between; every state is compared with the model and the last one with a real '
        'verification of the whole; then one segment is skipped, repeated or swapped; distinct '
        'by defect, cuts and modes')
MANDATORY = ['whole', 'segment accepted', 'segment rejected', 'skipped', 'repeated', 'swapped',
             'sorted', 'need across cut', 'cut after failed', 'certless', 'certful', 'no key',
             'single receipt segment']


def through_text(ctx, st):
    j = st.writeStateToJson()
    text = json.dumps(j, ensure_ascii=ctx.rng.random() < .5, indent=ctx.rng.choice([None, 2]))
    st2 = modes.verification_state.ClusterState.readStateFromJson(json.loads(text))
    ctx.check(modes.view(st2) == modes.view(st), 'state changed by storing it',
              before=modes.view(st), after=modes.view(st2))
    return st2


def segments(rng, groups, cuts):
    out, rest, done = [], groups, 0
    for c in sorted(cuts):
        a, rest = common.cut(rest, c - done)
        done = c
        out.append(a)
    out.append(rest)
    return [s for s in out if sum(len(g[0]) for g in s)]


def run_segments(ctx, segs, ks, key, kind, defect=False, info=None, model=None, real=None):
    """True if all are accepted."""
    rng = ctx.rng
    for i, seg in enumerate(segs):
        idx = 0 if model else None
        res = ref.verify(seg, ks, key, model, idx, kind)
        if res.ok is None and defect:
            res.loose = res.exact
        n = sum(len(g[0]) for g in seg)
        mode = modes.pick_mode(rng, n, real=.01)
        if defect and i == 0 and rng.random() < .5:
            mode = modes.Mode(entry='dep')
        out = modes.run(mode, gen.make_dep(seg), modes.real_ks(ks), key, real,
                        idx, kind, rng)
        modes.expect(ctx, res, out, mode, key=key, info=info, segment=i,
                     state=modes.state_json(model) if model else None, dep=gen.make_dep(seg))
        ctx.count('runs')
        if n == 1:
            ctx.count('single receipt segment')
        if res.ok is None:
            ctx.count('segment rejected')
            return False, real
        ctx.count('segment accepted')
        model = res.ok
        real = through_text(ctx, out[1])
        if i + 1 < len(segs):
            if model.regs[0].need:
                ctx.count('need across cut')
            if ref.parse_jws(model.regs[0].last).broken:
                ctx.count('cut after failed')
    return True, real


def case(ctx):
    rng = ctx.rng
    kind = 'sorted' if rng.random() < .25 else 'unique'
    style = rng.choice(['num', 'pad', 'nat']) if kind == 'sorted' else None
    defect = rng.choice(['none'] * 12 + c08.DEFECTS)
    if kind == 'sorted' and defect == 'duplicate':
        defect = 'none'
    if defect == 'none':
        h = gen.history(rng, rng.randrange(2, 22), idstyle=style,
                        fail_p=rng.choice([.1, .35]), stretch=.03)
        ks, sim, groups = h.ks, h.sim, h.ref_groups()
        certful = h.certful
    else:
        ks, devs, sim, certful, groups, _ = c08.build(rng, defect, style)
    key = sim.key if defect == 'counter' or rng.random() < .7 else None
    if key is None:
        ctx.count('no key')
    ctx.count(kind)
    ctx.count('certful' if certful else 'certless')
    n = sum(len(g[0]) for g in groups)
    cuts = set(rng.sample(range(1, n), min(n - 1, rng.choice([1, 1, 2, 3, 6, n - 1]))))
    whole = ref.verify(groups, ks, key, kind=kind)
    if whole.at and rng.random() < .7:
        cuts |= {c for c in (whole.at, whole.at + 1) if 0 < c < n and rng.random() < .6}
    segs = segments(rng, groups, cuts)
    info = (defect, sorted(cuts))
    ok, final = run_segments(ctx, segs, ks, key, kind, defect != 'none', info)
    ctx.distinct(info, n, kind, certful)
    ctx.sample(defect=defect, cuts=sorted(cuts), receipts=n, accepted=ok)
    untr = defect == 'untrusted'
    if not untr:
        ctx.check(ok == (whole.ok is not None), 'segments and whole differ in the model')
    if whole.ok is None or not ok:
        return
    m = modes.pick_mode(rng, n)
    out = modes.run(m, gen.make_dep(groups), modes.real_ks(ks), key, None, None, kind, rng)
    modes.expect(ctx, whole, out, m)
    a, b = modes.view(out[1]), modes.view(final)
    ctx.check(a == b, 'segments lead to another state than the whole', whole=a, segments=b,
              cuts=sorted(cuts), dep=gen.make_dep(groups))
    ctx.count('whole')
    # skip, repeat, swap
    if len(segs) < 2:
        return
    what = rng.choice(['skipped', 'repeated', 'swapped'])
    bad = list(segs)
    if what == 'skipped':
        if len(bad) < 2:
            return
        del bad[rng.randrange(len(bad) - 1)]
    elif what == 'repeated':
        i = rng.randrange(len(bad))
        bad.insert(rng.randrange(i + 1, len(bad) + 1), bad[i])
    else:
        i = rng.randrange(len(bad) - 1)
        bad[i], bad[i + 1] = bad[i + 1], bad[i]
    ok, _ = run_segments(ctx, bad, ks, key, kind, False, (what, sorted(cuts)))
    ctx.check(not ok, 'segments accepted although one was ' + what, cuts=sorted(cuts))
    ctx.count(what)
