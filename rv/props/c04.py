"""C04: outages must be ended by a signed null receipt."""
import itertools
from rv import gen, modes, ref
from rv.props import common

LEVEL = 'exploration'
QUICK, THOROUGH = 2100, 16800
RULE = ('all sequences of length <= 3 (thorough: 4) over {signed, outage} x {null, turnover, '
        'training, reversal, zero training, zero reversal} after the initial receipt (the '
        'first cases of a run), then '
        'random sequences up to length 20 that mostly follow the rule; each in several '
        'modes and behind a stored state; distinct by sequence and modes')
MANDATORY = ['exhaustive', 'random', 'accepted', 'with state', 'pool:sim', 'pool:real',
             'rejected:NoRestoreReceiptAfterSignatureSystemFailureException',
             'two outages', 'need at end', 'turnover that adds up to zero']
ALPHA = [(f, k, z) for f in (False, True)
         for k, z in (('standard', 1), ('standard', 0), ('training', 0), ('reversal', 0),
                      ('training', 1), ('reversal', 1))]
SEQS = {}


def seqs(maxlen):
    if maxlen not in SEQS:
        SEQS[maxlen] = [s for k in range(1, maxlen + 1) for s in itertools.product(ALPHA, repeat=k)]
    return SEQS[maxlen]


def setup(tier):
    seqs(4 if tier == 'thorough' else 3)


def case(ctx):
    rng = ctx.rng
    per = 6 if ctx.thorough else 4
    all_ = seqs(4 if ctx.thorough else 3)
    lo = ctx.index * per
    if lo < len(all_):
        for s in all_[lo:lo + per]:
            one(ctx, s)
            ctx.count('exhaustive')
        return
    n = rng.randrange(3, 20)
    need = prev = False
    s = []
    long = rng.randrange(n) if rng.random() < .06 else None
    for j in range(n):
        if j == long and not need:
            s += [(True, rng.choice(['standard', 'training', 'reversal']), rng.choice([0, 1]))
                  for _ in range(rng.choice([70, 130, 260]))]
            prev = True
            ctx.count('long outage')
        legal = rng.random() < .93
        while True:
            f, k, z = rng.choice(ALPHA) if rng.random() < .6 else (False, 'standard', rng.choice([0, 1]))
            special = not z or k != 'standard'
            bad = need and (f or special)
            if not (legal and bad):
                break
        s.append((f, k, z))
        if not f:
            need = (need or prev) if special else False
        prev = f
    ctx.count('random')
    one(ctx, tuple(s))


def one(ctx, s):
    rng = ctx.rng
    ks, devs, sim, closed, certful = common.setup(rng, rng.choice([1, 1, 2]))
    sim.big = False
    sim.emit(devs[0], 'standard', 0, null=True)
    for f, k, z in s:
        if not z and rng.random() < .25:
            sim.emit(rng.choice(devs), k, 0, f, sums=gen.balanced(rng))
            ctx.count('turnover that adds up to zero')
            continue
        sim.emit(rng.choice(devs), k, 0 if z else sim.amount(), f, null=bool(z))
    groups = common.groups_of(rng, sim.metas, certful)
    key = rng.choice([sim.key, None])
    kind = 'unique'
    n = len(sim.metas)
    res0 = ref.verify(groups, ks, key)
    g2, cl, idx = common.maybe_state(ctx, groups, ks, key, kind, .5,
                                     before=res0.at)
    exp = s
    ctx.count('two outages', sum(x[0] for x in s) > 1)
    if res0.ok:
        ctx.count('need at end', res0.ok.regs[0].need)
    fixed = [modes.Mode(entry='dep'),
             modes.Mode(entry='parsed', parser='dict', chunk=1, nprocs=rng.choice([1, 2, 8]),
                        pool=rng.choice([None, 'sim'])),
             modes.Mode(entry='parsed', parser='dict', chunk=rng.choice([2, 3]), nprocs=rng.choice([1, 2]))]
    if rng.random() < .5:
        fixed.append(modes.pick_mode(rng, n))
    common.check(ctx, g2, ks, key, cl, idx, info=exp, fixed=fixed)
    ctx.sample(sequence=s)
