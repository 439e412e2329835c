"""C12: a failed verification commits nothing."""
import copy
import io
import json
import random
from rv import gen, modes, ref
from rv.props import common

LEVEL = 'exploration'
QUICK, THOROUGH = 2100, 25000
RULE = ('a case is a cluster of 1 to 3 registers whose segments are verified one after the '
        'other against one state object; before each of them 0 to 4 attempts fail (damaged '
        'receipts, untrusted certificates, wrong key or index, damaged JSON, injected faults of '
        'file, parser, key store and pool at a random point) in random modes; state, DEP and key '
        'store are compared before and after each failure, and the final results with the model; '
        'distinct by faults and modes')
FAULTS = ['receipt', 'last', 'untrusted', 'key', 'index', 'json', 'fd', 'parser', 'keystore',
          'pool', 'replay', 'nocert', 'shortkey']
MANDATORY = ['fault:' + f for f in FAULTS] + [
    'first register', 'later register', 'existing register', 'new register by none', 'retry ok',
    'pool:real', 'pool:sim', 'entry:dep', 'sorted', 'late failure']


class Injected(Exception):
    pass


class BadFd(io.BytesIO):
    left = 0

    def read(self, n=-1):
        if self.left <= 0:
            raise Injected('fd')
        self.left -= 1
        if n is None or n < 0 or n > 700:
            n = 700
        return io.BytesIO.read(self, n)


class BadKs(modes.key_store.KeyStore):
    left = None

    def _tick(self):
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                raise Injected('key store')

    def getKey(self, *a):
        self._tick()
        return super(BadKs, self).getKey(*a)

    def getCert(self, *a):
        self._tick()
        return super(BadKs, self).getCert(*a)


class BadParser(modes.depparser.DEPParserI):
    def __init__(self, inner, left):
        self.inner, self.left = inner, left

    def parse(self, *a):
        n = 0
        for c in self.inner.parse(*a):
            if n >= self.left:
                raise Injected('parser')
            yield c
            n += 1
        raise Injected('parser at the end')


class BadPool(modes.SimPool):
    def __init__(self, rng):
        modes.SimPool.__init__(self, rng)
        self.left = rng.randrange(3)
        self.at_get = rng.random() < .6

    def _tasks(self, *a, **k):
        self.left -= 1
        if self.left < 0:
            if not self.at_get:
                raise Injected('pool')
            return modes.SimResult(lambda: (False, Injected('pool result')))
        return modes.SimPool._tasks(self, *a, **k)


def damage(rng, groups, ks, last=False):
    """A copy in which one receipt is damaged."""
    out = [(list(g[0]), g[1], g[2]) for g in groups]
    spots = [(i, j) for i, g in enumerate(out) for j in range(len(g[0]))]
    i, j = spots[-1] if last or rng.random() < .5 else rng.choice(spots)
    h, p, s = out[i][0][j].split('.')
    k = rng.randrange(4)
    if k == 0:
        f = ref.unb64u(p).decode('utf-8').split('_')
        f[3] += 'x'
        p = ref.b64u('_'.join(f).encode('utf-8'))
    elif k == 1:
        s = ref.b64u(b'\5' * 64)
    elif k == 2:
        f = ref.unb64u(p).decode('utf-8').split('_')
        f[12] = ref.chain_value('something else')
        p = ref.b64u('_'.join(f).encode('utf-8'))
    else:
        p = p[:-3]
    out[i][0][j] = '.'.join((h, p, s))
    return out


def snap(st, dep, ks):
    return (copy.deepcopy(modes.view(st)), json.dumps(dep), modes.ser_ks(ks),
            sorted(ks.getKeyIds()))


def attempt(ctx, fault, groups, mks, key, st, idx, kind, known_ids):
    """Runs a failing verification. Returns False if it was no failure."""
    rng = ctx.rng
    ks = modes.real_ks(mks)
    n = sum(len(g[0]) for g in groups)
    mode = modes.pick_mode(rng, n, real=.06)
    if rng.random() < .5:
        mode.d['chunk'] = rng.choice([1, 1, 2])
    data = None
    parser = None
    pool = None
    use_key = key
    if fault in ('receipt', 'last'):
        groups = damage(rng, groups, mks, fault == 'last')
    elif fault == 'untrusted':
        g = rng.choice([i for i, x in enumerate(groups) if x[0]])
        evil = gen.Cert(gen.key('p256', 90), gen.key('p256', 98), 12345678901, 'x', 'y')
        groups = [(list(x[0]), evil if i == g else x[1], x[2]) for i, x in enumerate(groups)]
    elif fault == 'nocert':
        groups = [(x[0], None, []) for x in groups]
        groups.append(([[j for g in groups for j in g[0]][-1]], None, []))
    elif fault == 'key':
        if key is None:
            return False
        use_key = bytes(bytearray(b ^ 0x55 for b in bytearray(key)))
    elif fault == 'shortkey':
        use_key = b'x' * rng.choice([0, 1, 16, 31, 33])
    elif fault == 'index':
        idx = rng.choice([-1, len(st.cashRegisters) + 1, 99])
    elif fault == 'replay':
        if not known_ids:
            return False
        # this register's segment together with receipts that were verified before
        groups = [(list(g[0]), g[1], g[2]) for g in groups]
        groups.append(([rng.choice(known_ids)], groups[-1][1], groups[-1][2]))
    dep = gen.make_dep(groups)
    if fault == 'json':
        data = json.dumps(dep).encode('utf-8')
        data = data[:rng.randrange(len(data))] + rng.choice([b'', b'}', b'\0', b'"'])
        if mode.entry == 'dep' or mode.parser == 'dict':
            mode.d.update(entry='parsed', parser=rng.choice(['file', 'full', 'fromfd']),
                          how='bytes', chunk=rng.choice([0, 1, 2]),
                          nprocs=rng.choice([1, 2, 3]))
    elif fault == 'fd':
        f = BadFd(json.dumps(dep).encode('utf-8'))
        f.left = rng.randrange(1, 2 + len(f.getvalue()) // 700)
        cls = rng.choice(['FileDEPParser', 'FullFileDEPParser', 'StreamDEPParser'])
        mode = modes.Mode(entry='parsed', parser='faulty fd', chunk=rng.choice([1, 2, 5]),
                          nprocs=rng.choice([1, 2]))
        parser = getattr(modes.depparser, cls)(f)
    elif fault == 'keystore':
        bad = BadKs()
        for kid, (t, x) in mks.d.items():
            if t == 'cert':
                bad.putPEMCert(x.pem())
            else:
                bad.putPEMKey(kid, gen.spki_pem(x))
    elif fault in ('parser', 'pool') and mode.entry == 'dep':
        mode = modes.Mode(entry='parsed', parser='dict', chunk=rng.choice([1, 2, 3]), nprocs=rng.choice([1, 2]))
    if fault == 'parser':
        parser = BadParser(modes.make_parser(mode, dep, rng), rng.randrange(n + 1))
    if fault == 'pool':
        pool = BadPool(rng)
    before = snap(st, dep, ks)
    if fault == 'keystore':
        ks = bad
        ks.left = rng.randrange(3)
    regs = len(st.cashRegisters)
    ids = [id(r) for r in st.cashRegisters]
    try:
        if parser is not None or pool is not None:
            if parser is None:
                parser = modes.make_parser(mode, dep, rng)
            out = modes.outcome(lambda: modes.verify.verifyParsedDEP(
                parser, ks, use_key, st, idx, pool, mode.nprocs, mode.chunk,
                modes.BACKENDS[kind]))
        else:
            out = modes.run(mode, dep, ks, use_key, st, idx, kind, rng, data)
        err = out[1] if out[0] == 'err' else None
    except Injected as e:
        err = 'Injected ' + str(e)
    if fault == 'keystore':
        ks.left = None
    if err is None:
        # can only happen if the fault did not strike
        ctx.check(fault in ('receipt', 'last', 'key', 'fd', 'keystore', 'pool', 'json', 'shortkey'),
                  'accepted in spite of ' + fault, mode=repr(mode), dep=dep)
        ctx.count('did not strike')
        return None
    after = snap(st, dep, ks)
    a, b = before[0], after[0]
    extra = b['cashRegisters'][regs:]
    empty = [ref.Reg().view()]
    ok = (a['cashRegisters'] == b['cashRegisters'][:regs] and extra in ([], empty) and
          a['used'] == b['used'])
    info = dict(fault=fault, error=err, mode=repr(mode), idx=idx, dep=dep)
    ctx.check(ok, 'failed verification changed the state', before=a, after=b, **info)
    ctx.check(not extra or (idx in (None, regs) and fault != 'index'), 'register added', **info)
    ctx.check(before[1] == after[1], 'failed verification changed the DEP', **info)
    ctx.check(before[2:] == after[2:], 'failed verification changed the key store', **info)
    ctx.count('fault:' + fault)
    ctx.count('entry:%s' % mode.entry)
    ctx.count('pool:%s' % mode.pool)
    ctx.count('error:' + err)
    if fault == 'last':
        ctx.count('late failure')
    return (fault, err)


def case(ctx):
    rng = ctx.rng
    kind = 'sorted' if rng.random() < .2 else 'unique'
    nregs = rng.choice([1, 1, 2, 3])
    ks, devs, sims, certful, segs = common.cluster(
        rng, nregs, rng.choice([1, 2, 3, 4]) + nregs - 1,
        rng.choice(['num', 'nat', 'pad']) if kind == 'sorted' else None)
    key = sims[0].key if rng.random() < .75 else None
    st = modes.verification_state.ClusterState(modes.BACKENDS[kind])
    model = ref.Cluster(kind)
    known = []
    log = []
    for r, metas in segs:
        groups = common.groups_of(rng, metas, certful)
        for _ in range(rng.choice([0, 1, 1, 2, 4])):
            fault = rng.choice(FAULTS)
            idx = r
            if r == len(st.cashRegisters) and rng.random() < .5:
                idx = None
                ctx.count('new register by none')
            # a successful "failure" must not disturb the rest
            keep = copy.deepcopy(st)
            got = attempt(ctx, fault, groups, ks, key, st, idx, kind, known)
            if got is None:
                st = keep
            elif got:
                log.append(got)
                ctx.count('first register' if len(model.regs) == 0 else
                          'later register' if r == len(model.regs) else 'existing register')
        res = ref.verify(groups, ks, key, model, r, kind)
        ctx.check(res.ok is not None, 'model rejects a segment', exact=res.exact)
        mode = modes.pick_mode(rng, len(metas), real=.01)
        out = modes.run(mode, gen.make_dep(groups), modes.real_ks(ks), key, st, r, kind, rng)
        modes.expect(ctx, res, out, mode, faults=log, key=key)
        st, model = out[1], res.ok
        known += [m.jws for m in metas]
        if log:
            ctx.count('retry ok')
    ctx.count(kind)
    ctx.distinct(log, nregs, [len(s[1]) for s in segs])
    ctx.sample(faults=log, registers=nregs, segments=[(r, len(m)) for r, m in segs])
