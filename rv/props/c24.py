"""C24: errors and data survive the process boundary unchanged."""
import copy
import datetime
import decimal
import importlib
import inspect
import multiprocessing
import os
import pickle
import pkgutil
import re

from rv import core, gen, modes, ref
from rv.props import c08, c18, common

import librksv
from cryptography import x509

LEVEL = 'exploration'
QUICK, THOROUGH = 2100, 30000
RULE = ('a case transports (every exception class of librksv with generated arguments | the error '
        'of a defective DEP, key store or state | certificates, keys and key stores of all kinds | '
        'verification states) through every pickle protocol, copy and real processes and compares '
        'a canonical view; or watches every work package and result of a pool verification on both '
        'sides of the boundary; or runs packages on shared objects and watches that no package '
        'changes the data of another one; distinct by classes, values and schedules')
TECHNIQUE = ('runtime monitoring: monitor on every object that crosses the process boundary '
             '(canonical view before and after), aliasing monitor on work packages, simulated and '
             'real process pools')
MANDATORY = ['exception objects', 'exception classes', 'real errors', 'certificates', 'key stores',
             'states', 'fork transports', 'packages watched', 'results watched', 'errors watched',
             'packages shared', 'cert:p256', 'cert:rsa', 'cert:ed25519', 'with receipt',
             'spawn verifications', 'real pool errors', 'parallel shared']
PROTOCOLS = range(pickle.HIGHEST_PROTOCOL + 1)
X509 = x509.Certificate


def mods():
    for m in sorted(x.name for x in pkgutil.walk_packages(librksv.__path__, 'librksv.')):
        try:
            yield importlib.import_module(m)
        except ImportError:
            continue            # user interface and test parts need other packages


def classes():
    out = {}
    for m in mods():
        for n, c in inspect.getmembers(m, inspect.isclass):
            if issubclass(c, modes.utils.RKSVException):
                out[c.__module__ + '.' + c.__qualname__] = c
    return out


def canon(o, depth=0):
    """A comparable view of everything that a value consists of."""
    if depth > 30:
        raise core.Harness('too deep')
    if o is None or isinstance(o, (bool, int, float, str, bytes)):
        return o if not isinstance(o, str) else ('s', o)
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(canon(x, depth + 1) for x in o))
    if isinstance(o, (set, frozenset)):
        return ('set', tuple(sorted((canon(x, depth + 1) for x in o), key=repr)))
    if isinstance(o, dict):
        return ('dict', tuple((canon(k, depth + 1), canon(v, depth + 1)) for k, v in o.items()))
    if isinstance(o, X509):
        return ('cert', c18.b64cert(o))
    if hasattr(o, 'public_bytes'):
        return ('key', o.public_bytes(gen.serialization.Encoding.DER,
                                      gen.serialization.PublicFormat.SubjectPublicKeyInfo))
    if isinstance(o, BaseException):
        return ('exc', type(o), str(o), canon(o.args, depth + 1), canon(vars(o), depth + 1))
    if inspect.isclass(o) or inspect.isroutine(o):
        return ('fn', o.__module__, o.__qualname__)
    if hasattr(o, '__dict__'):
        return (type(o), canon(dict(sorted(vars(o).items())), depth + 1))
    if isinstance(o, (datetime.date, decimal.Decimal, re.Pattern)):
        return repr(o)
    try:
        r = o.__reduce_ex__(2)
        return (type(o), canon(r[1:3] if isinstance(r, tuple) else r, depth + 1))
    except TypeError:
        return (type(o), 'opaque')


def remote(o):
    return canon(o), o


def through(ctx, o, what):
    """Transports a value in all ways."""
    want = canon(o)
    for p in PROTOCOLS:
        try:
            r = pickle.loads(pickle.dumps(o, p))
        except Exception as e:
            ctx.fail('%s can not be transported' % what, value=repr(o), error=repr(e), protocol=p)
        ctx.check(canon(r) == want, '%s arrives changed' % what, sent=want, received=canon(r),
                  protocol=p)
    if ctx.rng.random() < .2:
        for r in (copy.deepcopy(o), copy.copy(o)):
            ctx.check(canon(r) == want, '%s changed by copying' % what, sent=want, got=canon(r))
    ctx.check(canon(o) == want, '%s changed by being sent' % what, before=want, after=canon(o))


def through_process(ctx, objs):
    pool = modes.real_pool(2)
    for o, (there, back) in zip(objs, pool.map(remote, objs)):
        ctx.check(there == canon(o), 'a value arrives changed in another process', sent=canon(o),
                  there=there)
        ctx.check(canon(back) == canon(o), 'a value comes back changed', sent=canon(o),
                  back=canon(back))
        ctx.count('fork transports')


TEXTS = [u'', u'r1', u'{}', u'{0} {1}', u'%s%d%', u'\xe4\u6f22\U0001f600', u'\ud800', u'\0\n\r', u'_',
         u'"\'\\', u'x' * 5000, u'None']


def value(rng, p):
    if p.default is not inspect.Parameter.empty and rng.random() < .4:
        return p.default
    if rng.random() < .15:
        return rng.choice([None, 0, 7, -1, 1 << 70, u'0', b'bytes', 1.5, True])
    return rng.choice(TEXTS + [gen.ident(rng)])


def exceptions(ctx):
    rng = ctx.rng
    cl = classes()
    ctx.count('exception classes', len(cl))
    objs = []
    for n, c in sorted(cl.items()):
        ps = [p for p in list(inspect.signature(c.__init__).parameters.values())[1:]]
        if any(p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD) for p in ps):
            # inherits the constructor of Exception or passes everything on
            args, kw = [rng.choice(TEXTS)], {}
        elif rng.random() < .3:
            args, kw = [], {p.name: value(rng, p) for p in ps}
        else:
            args, kw = [value(rng, p) for p in ps], {}
        try:
            e = c(*args, **kw)
        except TypeError as x:
            ctx.fail('an error can not be created', cls=n, args=repr(args), error=str(x))
        try:
            str(e)
        except TypeError:
            # a message that is not a text
            e = c(*[rng.choice(TEXTS) for _ in ps])
        through(ctx, e, 'an error')
        if getattr(e, 'receipt', None) is not None:
            ctx.count('with receipt')
        objs.append(e)
        ctx.count('exception objects')
        ctx.distinct('exc', n, repr(args), repr(sorted(kw.items())))
    if ctx.index % 7 == 0:
        through_process(ctx, objs)
    ctx.sample(kind='exceptions', classes=len(objs))


def real_errors(ctx):
    rng = ctx.rng
    errs = []
    for _ in range(4):
        k = rng.randrange(4)
        if k == 0:
            d = rng.choice([x for x in c08.DEFECTS if x != 'none'])
            ks, devs, sim, certful, groups, at = c08.build(rng, d)
            out = modes.run(modes.Mode(entry='dep'), gen.make_dep(groups), modes.real_ks(ks),
                            rng.choice([sim.key, sim.key, b'short']), rng=rng)
        elif k == 1:
            h = gen.history(rng, 3)
            st = modes.outcome(lambda: modes.verify.verifyDEP(h.dep(), modes.real_ks(h.ks), h.key))
            j = st[1].writeStateToJson()
            t = rng.choice([j, j['cashRegisters'][0], j['usedReceiptIds']])
            x = rng.choice(sorted(t))
            if rng.random() < .5:
                del t[x]
            else:
                t[x] = rng.choice([7.5, [1], {}, {'a': 1}])
            out = modes.outcome(lambda: modes.verification_state.ClusterState.readStateFromJson(j))
            if out[0] == 'ok':
                out = modes.outcome(lambda: modes.verify.verifyDEP(
                    h.dep(), modes.real_ks(h.ks), h.key, out[1], rng.choice([5, -1, None])))
        elif k == 2:
            e = {u'publicKeys': 1}
            kid = rng.choice(TEXTS)
            v = rng.choice([None, 7, {}, {'id': kid}, {
                'id': kid, 'signatureDeviceType': rng.choice([kid, 'CERTIFICATE', 'PUBLIC_KEY', 3]),
                'signatureCertificateOrPublicKey': rng.choice([kid, 'AAAA', 7])}])
            j = {'certificateOrPublicKeyMap': rng.choice([{kid: v}, {kid: v}, [], 0])}
            out = modes.outcome(lambda: modes.key_store.KeyStore.readStoreFromJson(j))
        else:
            h = gen.history(rng, 4)
            dep = h.dep()
            g = rng.choice(dep['Belege-Gruppe'])
            x = rng.choice(sorted(g))
            g[x] = rng.choice([None, 7, 'AAAA', [u'\xe4'], {}, ['a.b.c'], ''])
            out = modes.run(modes.pick_mode(rng, 4, real=0), dep, modes.real_ks(h.ks), h.key, rng=rng)
        if out[0] == 'ok':
            continue
        e = out[4]
        e.__traceback__ = None
        through(ctx, e, 'an error')
        ctx.count('real errors')
        ctx.count('real:' + out[1])
        ctx.distinct('real', out[1], out[2], out[3])
        errs.append(e)
    if errs and ctx.index % 5 == 0:
        through_process(ctx, errs)


def objects(ctx):
    rng = ctx.rng
    certs = []
    for kind in ('p256', 'p384', 'rsa', 'ed25519', 'p521', 'k256'):
        c = gen.Cert(gen.key(kind, rng.randrange(3)), gen.key(rng.choice(['p256', 'rsa', 'p384']), 3),
                     gen.serial_number(rng), rng.choice(['x', u'\xe4\u6f22']), 'y')
        certs.append(modes.utils.loadCert(modes.utils.addPEMCertHeaders(c.b64)))
        ctx.count('cert:' + kind)
    for c in certs:
        through(ctx, c, 'a certificate')
        ctx.count('certificates')
    pub = modes.utils.loadPubKey(modes.utils.addPEMPubKeyHeaders(
        gen.base64.b64encode(gen.key('p256', rng.randrange(5)).spki()).decode()))
    through(ctx, pub, 'a public key')
    ks = modes.key_store.KeyStore()
    names = [u'U:ATU1', u'S:9', u'a b', u'\xe4', u'0', u'ff', gen.ident(rng)]
    for kind in ('p256', 'p384', 'rsa', 'ed25519', 'p521', 'k256'):
        if rng.random() < .8:
            k = gen.key(kind, rng.randrange(3)).spki()
            ks.putPEMKey(names.pop(rng.randrange(len(names))),
                         modes.utils.addPEMPubKeyHeaders(gen.base64.b64encode(k).decode()))
    for c in certs:
        if rng.random() < .6:
            ks.putPEMCert(modes.utils.addPEMCertHeaders(c18.b64cert(c)))
    through(ctx, ks, 'a key store')
    ctx.count('key stores')
    for rv in (modes.verify_receipt.ReceiptVerifier.fromKeyStore(ks),
               modes.verify_receipt.ReceiptVerifier.fromCert(rng.choice(certs))):
        through(ctx, rv, 'a verifier')
    h = gen.history(rng, rng.randrange(1, 8))
    st = modes.real_state(ref.verify(h.ref_groups(), h.ks, h.key).ok)
    through(ctx, st, 'a state')
    rec, prefix = modes.receipt.Receipt.fromJWSString(rng.choice(h.metas).jws)
    through(ctx, rec, 'a receipt')
    ctx.count('states')
    # sending has no effect on its use
    st2 = pickle.loads(pickle.dumps(st))
    ctx.check(st2 == st and st2.writeStateToJson() == st.writeStateToJson() if hasattr(
        st, '__eq__') and type(st).__eq__ is not object.__eq__ else
        modes.view(st2) == modes.view(st), 'a state is not equal after transport')
    if ctx.index % 5 == 0:
        through_process(ctx, certs + [pub, ks, st, rec])
    ctx.distinct('objects', [c18.b64cert(c) for c in certs])


class Watch(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.pending = {}

    def __call__(self, ev, i, a, b):
        ctx = self.ctx
        if ev == 'begin':
            self.sent = [canon(x) for x in a]
        elif ev == 'args':
            ctx.check(canon(a) == canon(b), 'a work package arrives changed', number=i,
                      sent=canon(a), received=canon(b))
            ctx.check(self.sent[i] == canon(a),
                      'a work package was changed before it was sent or by another package',
                      number=i, first=self.sent[i], then=canon(a))
            ctx.count('packages watched')
        elif ev == 'result':
            ctx.check(canon(list(a)) == canon(list(b)), 'a result arrives changed', sent=canon(a),
                      received=canon(b))
            ctx.count('results watched')
            if 'Exception' in repr(a):
                ctx.count('errors watched')


class Alias(object):
    """No package may change what belongs to another one, before or after it ran."""

    def __init__(self, ctx):
        self.ctx = ctx

    def __call__(self, ev, i, a, b):
        ctx = self.ctx
        if ev == 'begin':
            self.items = list(a)
            self.views = [canon(x) for x in a]
            self.results = {}
            if len(a) > 1:
                ctx.count('parallel shared')
        elif ev == 'start':
            ctx.check(canon(a) == self.views[i], 'a work package was changed by another one',
                      number=i, before=self.views[i], after=canon(a), ran=sorted(self.results))
        elif ev == 'end':
            ctx.count('packages shared')
            for k, x in enumerate(self.items):
                if k == i:
                    self.views[k] = canon(x)
                    continue
                ctx.check(canon(x) == self.views[k], 'a work package changed another one',
                          changed=k, by=i, before=self.views[k], after=canon(x))
            for k, (r, v) in self.results.items():
                ctx.check(canon(r) == v, 'a work package changed the result of another one',
                          changed=k, by=i, before=v, after=canon(r))
            self.results[i] = (b, canon(b))


def pools(ctx):
    rng = ctx.rng
    kind = 'sorted' if rng.random() < .3 else 'unique'
    d = rng.choice(c08.DEFECTS + ['none'] * 8)
    ks, devs, sim, certful, groups, at = c08.build(
        rng, d, rng.choice(['num', 'pad', 'nat']) if kind == 'sorted' else None)
    key = rng.choice([sim.key, sim.key, None])
    if d == 'counter':
        key = sim.key
    res = ref.verify(groups, ks, key, kind=kind)
    if res.ok is None and (d != 'duplicate' or kind != 'sorted'):
        res.loose = res.exact
    groups, cl, idx = common.maybe_state(ctx, groups, ks, key, kind, .35, before=res.at)
    if cl is not None:
        res = ref.verify(groups, ks, key, cl, idx, kind)
        if res.ok is None and (d != 'duplicate' or kind != 'sorted'):
            res.loose = res.exact
    n = sum(len(g[0]) for g in groups)
    dep = gen.make_dep(groups)
    for share in (False, True):
        mode = modes.Mode(entry='parsed', parser=rng.choice(['dict', 'file', 'full']), how='bytes',
                          chunk=rng.choice([1, 2, 3, rng.randrange(1, n + 1)]),
                          nprocs=rng.choice([2, 3, 5, 50]), nparts=2, share=share)
        pool = modes.SimPool(rng, share, (Alias if share else Watch)(ctx))
        st = modes.real_state(cl) if cl is not None else None
        rks = modes.real_ks(ks)
        kv, dv = canon(rks), copy.deepcopy(dep)
        out = modes.run(mode, dep, rks, key, st, idx, kind, rng, pool=pool)
        modes.expect(ctx, res, out, mode, key=key, dep=dep, defect=d)
        ctx.check(canon(rks) == kv, 'the key store was changed')
        ctx.check(dep == dv, 'the DEP was changed')
        ctx.distinct('pools', d, n, repr(mode), pool.log)
    ctx.sample(kind='pools', defect=d, receipts=n, mode=repr(mode))
    if ctx.index % 11 == 0:
        # the same, really
        m = modes.Mode(entry='parsed', parser='dict', chunk=rng.choice([1, 2, 3]), nprocs=4, pool='real')
        st = modes.real_state(cl) if cl is not None else None
        out = modes.run(m, dep, modes.real_ks(ks), key, st, idx, kind, rng)
        modes.expect(ctx, res, out, m, key=key, dep=dep, defect=d)
        if out[0] != 'ok':
            ctx.count('real pool errors')
        ctx.count('real pools')


def spawned(ctx):
    """Processes that start from scratch instead of with a copy of our memory."""
    rng = ctx.rng
    pool = multiprocessing.get_context('spawn').Pool(2)
    try:
        for d in ('none', 'signature', 'none', 'counter'):
            ks, devs, sim, certful, groups, at = c08.build(rng, d)
            res = ref.verify(groups, ks, sim.key)
            res.loose = res.exact
            m = modes.Mode(entry='parsed', parser='dict', chunk=2, nprocs=3, spawn=True)
            dep = gen.make_dep(groups)
            out = modes.run(m, dep, modes.real_ks(ks), sim.key, rng=rng, pool=pool)
            modes.expect(ctx, res, out, m, key=sim.key, dep=dep)
            ctx.count('spawn verifications')
    finally:
        pool.terminate()
        pool.join()


def case(ctx):
    if ctx.index % 397 == 3:
        return spawned(ctx)
    f = ctx.rng.choice([exceptions, real_errors, real_errors, objects, pools, pools, pools])
    f(ctx)
