"""
Runs the real code in all its processing modes and normalises what comes out.
"""
import copy
import io
import json
import os
import pickle
import random

from . import core, gen, lang, ref
from .core import Violation

import librksv  # noqa: from RV_REPO
from librksv import (algorithms, cashreg, run_test, depexport, depparser, key_store,
                     receipt, sigsys, utils, verification_state, verify,
                     verify_receipt)

if not os.path.realpath(librksv.__path__[0]).startswith(core.REPO + os.sep):
    raise core.Harness('librksv was imported from ' + librksv.__path__[0])

BACKENDS = {
    'unique': verification_state.UsedReceiptIdsUnique,
    'sorted': verification_state.UsedReceiptIdsSortedNatural,
}
BTYPE = {'unique': 'USED_RECEIPT_IDS_UNIQUE', 'sorted': 'USED_RECEIPT_IDS_SORTED_NATURAL'}
NO_RECEIPT = {'InvalidKeyException', 'ClusterInOpenSystemException'}


# -------------------------------------------------------------- real <-> model

_certs = {}


def real_cert(c):
    """A fresh certificate object."""
    return utils.loadCert(c.pem())


def real_ks(ks):
    out = key_store.KeyStore()
    for kid, (t, x) in ks.d.items():
        if t == 'cert':
            if x.pub is not None and gen_supported(x):
                out.putPEMCert(x.pem())
        else:
            out.putPEMKey(kid, gen.spki_pem(x))
    return out


def gen_supported(c):
    return c.key.kind != 'weird'


def state_json(cl):
    """State JSON (the documented file format) of a model cluster."""
    return {
        'cashRegisters': [r.view() for r in cl.regs],
        'usedReceiptIds': {
            'backendType': BTYPE[cl.used.kind],
            'backendData': sorted(cl.used.ids) if cl.used.kind == 'unique' else
            {'minId': cl.used.min, 'maxId': cl.used.max}}}


def real_state(cl):
    return verification_state.ClusterState.readStateFromJson(state_json(cl))


def view(st):
    """Normalised content of a real ClusterState."""
    j = st.writeStateToJson()
    u = j['usedReceiptIds']
    d = u['backendData']
    if isinstance(d, list):
        if len(set(d)) != len(d):
            raise Violation('receipt IDs listed twice in a state', ids=d)
        d = sorted(d)
    return {'cashRegisters': [dict(r) for r in j['cashRegisters']],
            'used': [u['backendType'], d]}


def model_view(cl):
    j = state_json(cl)
    return {'cashRegisters': j['cashRegisters'],
            'used': [j['usedReceiptIds']['backendType'], j['usedReceiptIds']['backendData']]}


def ser_ks(ks):
    """Content of a real key store."""
    out = {}
    for kid in ks.getKeyIds():
        k, c = ks.getKey(kid), ks.getCert(kid)
        out[kid] = (utils.exportKeyToPEM(k) if k is not None else None,
                    utils.exportCertToPEM(c) if c is not None else None)
    return out


# ---------------------------------------------------------------- file objects

class Stream(object):
    """Not seekable; returns as many bytes as it likes."""

    def __init__(self, data, rng=None, maxread=None, minread=1):
        self.data, self.pos, self.rng = data, 0, rng
        self.maxread, self.minread = maxread, minread
        self.requested = []

    def tell(self):
        raise IOError('not seekable')

    def seek(self, *a):
        raise IOError('not seekable')

    def seekable(self):
        return False

    def readable(self):
        return True

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.data) - self.pos
        self.requested.append(n)
        if self.maxread and n:
            k = self.maxread
            if self.rng:
                k = self.rng.randrange(self.minread, self.maxread + 1)
            n = min(n, k)
        b = self.data[self.pos:self.pos + n]
        self.pos += len(b)
        return b


class ShortBytesIO(io.BytesIO):
    """Seekable, short reads (of at least the size of a BOM)."""
    rng = None
    maxread = None

    def read(self, n=-1):
        if self.maxread and n and n > 0:
            n = min(n, self.rng.randrange(3, self.maxread + 1))
        return io.BytesIO.read(self, n)


def open_bytes(data, how, rng):
    """how: bytes, text, short, stream, file"""
    if how == 'text':
        return io.TextIOWrapper(io.BytesIO(data), encoding='utf-8')
    if how == 'short':
        f = ShortBytesIO(data)
        f.rng = random.Random(rng.random())
        f.maxread = rng.choice([3, 7, 100, 5000])
        return f
    if how == 'stream':
        return Stream(data, random.Random(rng.random()), rng.choice([None, 3, 50, 4096]))
    return io.BytesIO(data)


# ----------------------------------------------------------------------- pools

class SimHang(Exception):
    pass


class SimResult(object):
    def __init__(self, f):
        self.f = f
        self.val = None

    def _run(self):
        if self.val is None:
            self.val = self.f()
        return self.val

    def get(self, timeout=None):
        ok, v = self._run()
        if ok:
            return v
        raise v

    def wait(self, timeout=None):
        self._run()

    def ready(self):
        return True

    def successful(self):
        return self._run()[0]


class SimPool(object):
    """
    Transports arguments, results and errors like multiprocessing.Pool, but
    executes the batches in a seeded order. Pickling of the arguments happens at
    once or, as in the real pool's feeder thread, some time later.
    """

    def __init__(self, rng, share=False, watch=None):
        """
        share: hand over the objects themselves as threads would.
        watch(event, number, sent, received): called for every transfer.
        """
        self.rng = random.Random(rng.random())
        self.log = []
        self._processes = 3
        self.share = share
        self.watch = watch or (lambda *a: None)

    def _tasks(self, fn, items, chunksize, star=False):
        items = list(items)
        b = chunksize or self.rng.choice([1, 1, 1, 2, 3])
        batches = [(i, items[i:i + b]) for i in range(0, len(items), b)]
        eager = self.rng.random() < .5
        enc = {}
        if self.share:
            return self._shared(fn, items, star)
        self.watch('begin', None, items, None)
        if eager:
            for i, bt in batches:
                enc[i] = pickle.dumps((fn, bt))
        order = list(batches)
        self.rng.shuffle(order)

        def run():
            out = [None] * len(items)
            err = None
            for i, bt in order:
                try:
                    data = enc[i] if eager else pickle.dumps((fn, bt))
                except Exception as e:
                    raise
                try:
                    f, args = pickle.loads(data)
                except Exception as e:
                    raise SimHang('work package can not be read in the worker: %r' % e) from e
                for k, (x, y) in enumerate(zip(bt, args)):
                    self.watch('args', i + k, x, y)
                self.log.append((i, len(args)))
                try:
                    r = (True, [f(*a) if star else f(a) for a in args])
                except Exception as e:
                    r = (False, e)
                try:
                    data = pickle.dumps(r)
                except Exception as e:
                    raise
                try:
                    ok, v = pickle.loads(data)
                except Exception as e:
                    raise SimHang('result %r can not be read: %r' % (r, e)) from e
                self.watch('result', i, r, (ok, v))
                if ok:
                    out[i:i + len(v)] = v
                elif err is None:
                    err = v
            if err is not None:
                return False, err
            return True, out
        return SimResult(run)

    def _shared(self, fn, items, star):
        def run():
            out, err = [None] * len(items), None
            order = list(range(len(items)))
            self.rng.shuffle(order)
            self.watch('begin', None, items, None)
            for i in order:
                self.watch('start', i, items[i], None)
                try:
                    out[i] = fn(*items[i]) if star else fn(items[i])
                except Exception as e:
                    err = err or e
                self.watch('end', i, items[i], out[i])
            self.watch('all', None, items, out)
            return (True, out) if err is None else (False, err)
        return SimResult(run)

    def map_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return self._tasks(fn, it, chunksize)

    def starmap_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return self._tasks(fn, it, chunksize, True)

    def map(self, fn, it, chunksize=None):
        return self.map_async(fn, it, chunksize).get()

    def starmap(self, fn, it, chunksize=None):
        return self.starmap_async(fn, it, chunksize).get()

    def imap(self, fn, it, chunksize=1):
        res = [self._tasks(fn, [x], 1) for x in it]
        order = list(res)
        self.rng.shuffle(order)
        for r in order:
            r.wait()
        for r in res:
            yield r.get()[0]

    def imap_unordered(self, fn, it, chunksize=1):
        res = [self._tasks(fn, [x], 1) for x in it]
        self.rng.shuffle(res)
        for r in res:
            yield r.get()[0]

    def apply_async(self, fn, args=(), kwds=None, callback=None, error_callback=None):
        r = self._tasks(_Apply(fn, kwds or {}), [tuple(args)], 1)
        one = SimResult(lambda: (lambda ok, v: (ok, v[0] if ok else v))(*r._run()))
        return one

    def apply(self, fn, args=(), kwds=None):
        return self.apply_async(fn, args, kwds).get()

    def close(self):
        pass

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class _Apply(object):
    def __init__(self, fn, kwds):
        self.fn, self.kwds = fn, kwds

    def __call__(self, args):
        return self.fn(*args, **self.kwds)


_pools = {}


def real_pool(n):
    import multiprocessing
    k = (os.getpid(), n, lang.current[0])
    if k not in _pools:
        _pools[k] = multiprocessing.get_context('fork').Pool(n)
    return _pools[k]


def drop_pools():
    for k, p in list(_pools.items()):
        if k[0] == os.getpid():
            p.terminate()
            p.join()
        del _pools[k]


# ----------------------------------------------------------------------- modes

class Mode(object):
    def __init__(self, **k):
        self.d = k

    def __getattr__(self, n):
        if n == 'd':
            raise AttributeError(n)
        return self.d.get(n)

    def __repr__(self):
        return 'Mode(%s)' % ', '.join('%s=%r' % x for x in sorted(self.d.items()))

    @property
    def sequential(self):
        """Is the outcome that of verifying receipt after receipt?"""
        return self.entry == 'dep'


def pick_mode(rng, n, certful=True, real=.03):
    """n: number of receipts."""
    if rng.random() < .15:
        return Mode(entry='dep')
    parser = rng.choice(['dict', 'dict', 'full', 'file', 'file', 'stream', 'fromfd'])
    chunk = rng.choice([0, 1, 1, 2, 3, rng.randrange(1, max(2, n + 2)), n, 1000])
    nprocs = rng.choice([1, 1, 2, 3, rng.randrange(1, 8)])
    m = Mode(entry='parsed', parser=parser, chunk=chunk, nprocs=nprocs)
    p = rng.random()
    if p < real:
        m.d['pool'] = 'real'
    elif p < .6:
        m.d['pool'] = 'sim'
    if parser in ('dict', 'full') and chunk == 0:
        m.d['nparts'] = rng.choice([1, nprocs, rng.randrange(1, 5)])
    if parser != 'dict':
        m.d['how'] = {'stream': 'stream'}.get(parser) or rng.choice(['bytes', 'text', 'short'])
        if parser == 'fromfd':
            m.d['how'] = rng.choice(['bytes', 'stream', 'text'])
    m.d['layout'] = rng.random() < .4
    return m


def make_parser(mode, dep, rng, data=None):
    if mode.parser == 'dict':
        return depparser.DictDEPParser(dep, mode.nparts or 1)
    stream = mode.how == 'stream'
    if data is None:
        if mode.layout:
            data = gen.layout(rng, dep, certs_first=stream, bom=False if stream else None)
        elif stream:
            data = gen.layout(rng, dep, certs_first=True, extras=False, bom=False)
        else:
            data = json.dumps(dep).encode('utf-8')
    fd = open_bytes(data, mode.how, rng)
    if mode.parser == 'full':
        return depparser.FullFileDEPParser(fd, mode.nparts or 1)
    if mode.parser == 'file':
        return depparser.FileDEPParser(fd)
    if mode.parser == 'stream':
        return depparser.StreamDEPParser(fd)
    if mode.parser == 'certless':
        return depparser.CertlessStreamDEPParser(fd)
    return depparser.IncrementalDEPParser.fromFd(fd, True)


def outcome(f):
    """('ok', value) or ('err', class name, receipt, message, exception)"""
    try:
        return ('ok', f())
    except utils.RKSVException as e:
        return ('err', type(e).__name__, getattr(e, 'receipt', None), str(e), e)
    except SimHang as e:
        raise Violation('verification in processes would hang: %s' % e)


def run(mode, dep, ks, key, state=None, idx=None, kind='unique', rng=None, data=None,
        pool=None):
    """dep: dict. Returns an outcome whose ok value is the ClusterState."""
    rng = rng or random.Random(0)
    be = BACKENDS[kind]
    if mode.entry == 'dep':
        return outcome(lambda: verify.verifyDEP(dep, ks, key, state, idx, be))
    out = outcome(lambda: make_parser(mode, dep, rng, data))
    if out[0] == 'err':
        return out
    parser = out[1]
    if pool is not None:
        pass
    elif mode.pool == 'sim':
        pool = SimPool(rng)
    elif mode.pool == 'real':
        pool = real_pool(max(2, min(mode.nprocs, 3)))
    return outcome(lambda: verify.verifyParsedDEP(
        parser, ks, key, state, idx, pool, mode.nprocs, mode.chunk, be))


def matches(out, allowed):
    for n, rid in allowed:
        if out[1] != n:
            continue
        if rid is None or n in NO_RECEIPT:
            return True
        got = out[2]
        if got == rid:
            return True
        if isinstance(got, str) and got.count('.') == 2:
            r = ref.parse_jws(got)
            if r.cls != ref.BAD and r.rid == rid:
                return True
    return False


def brief(out):
    return list(out[:4]) if out[0] == 'err' else [out[0]]


def expect(ctx, res, out, mode, **info):
    """Compares a real outcome with a reference result."""
    if res.ok is not None:
        if out[0] != 'ok':
            ctx.fail('rejected although correct: %s (%s)' % (out[1], out[3]),
                     mode=repr(mode), **info)
        want, got = model_view(res.ok), view(out[1])
        if want != got:
            ctx.fail('wrong resulting state', want=want, got=got, mode=repr(mode), **info)
        ctx.count('accepted')
        return
    allowed = res.exact if mode.sequential else res.loose
    if out[0] == 'ok':
        ctx.fail('accepted although it must be rejected', expected=sorted(allowed, key=repr),
                 mode=repr(mode), at=res.at, **info)
    if not matches(out, allowed):
        ctx.fail('wrong error: %s for %r' % (out[1], out[2]),
                 expected=sorted(allowed, key=repr), message=out[3], mode=repr(mode),
                 at=res.at, **info)
    ctx.count('rejected')
    ctx.count('rejected:' + out[1])


def hist_info(h, **k):
    d = {'groups': [[[(m.rid, m.kind, m.failed, m.null) for m in g[0]],
                     repr(g[1])] for g in h.groups], 'dep': h.dep()}
    d.update(k)
    return d
