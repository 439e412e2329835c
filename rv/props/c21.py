"""C21: large DEPs are processed with bounded look-ahead and memory."""
import gc
import io
import json
import os
import random
import resource
import subprocess
import sys
import tracemalloc
import weakref

from rv import core, gen, modes, ref
from rv.props import c20, c27

LEVEL = 'exploration'
QUICK, THOROUGH = 990, 9000
TECHNIQUE = ('runtime monitoring: counting file objects, census of live receipt objects by weak '
             'references, allocation tracing and peak memory of the scripts')
RULE = ('a case streams a DEP of many receipts through a parser or a pipeline of parser, adapter, '
        'stream, merger and exporter in chunks; monitors compare at every chunk the read position with '
        'the position of the last receipt delivered (bound: 256 KiB) and, at every receipt created, the '
        'number of receipts alive (bound: 4 chunks + 8) and the memory allocated; the same while a DEP is '
        'verified (bound: 4 chunks per process and 4 more + 16); scripts: peak memory '
        'for a small and a 20 times larger DEP; distinct by pipeline, shape and chunk size')
MANDATORY = ['ahead:file', 'ahead:stream', 'ahead:fromfd', 'ahead:certless', 'ahead:late certs',
             'memory:file', 'memory:stream', 'memory:certless', 'pipe:json', 'pipe:csv',
             'pipe:merge', 'pipe:split', 'pipe:csv2json', 'pipe:merge many groups', 'pipe:files',
             'script:merge.py', 'script:convert.py json2csv', 'script:convert.py csv2json',
             'script:split.py', 'script:cert_extract.py', 'pipe:dict', 'pipe:verify', 'pipe:verify with a pool',
             'script:verify.py', 'script:verify.py par 2']
P, E, R = modes.depparser, modes.depexport, modes.receipt
AHEAD = 256 * 1024


def shape(rng, n):
    """Sizes of groups that add up to n."""
    k = rng.choice(['one', 'few', 'many', 'single'])
    if k == 'one':
        return [n], k
    if k == 'single':
        return [1] * n, k
    out = []
    m = max(1, n // 4) if k == 'few' else 9
    while n > 0:
        x = min(n, rng.randrange(1, m + 1))
        out.append(x)
        n -= x
    return out, k


def text(rng, sizes, recs, certs_first, labels):
    """JSON text of a DEP and the end of each receipt in it."""
    it = iter(recs)
    out, pos, ends = [], 0, []

    def put(s):
        nonlocal pos
        b = s.encode('utf-8')
        out.append(b)
        pos += len(b)
    put('{"Belege-Gruppe":[')
    for gi, n in enumerate(sizes):
        c, ch = labels(gi)
        ct = '"Signaturzertifikat":%s,"Zertifizierungsstellen":%s' % (
            json.dumps(c.b64 if c else ''), json.dumps([x.b64 for x in ch]))
        put((',' if gi else '') + '{')
        if certs_first:
            put(ct + ',')
        put('"Belege-kompakt":[')
        for i in range(n):
            put((',' if i else '') + '"' + next(it) + '"')
            ends.append(pos)
        put(']')
        if not certs_first:
            put(',' + ct)
        put('}')
    put(']}')
    return b''.join(out), ends


def labels_for(rng):
    pool = c20.certs()
    k = rng.randrange(4)
    a, b = pool[0], pool[1]
    if k == 0:
        return (lambda i: (a, [b])), 'same'
    if k == 1:
        return (lambda i: (pool[i % 7], [pool[8]] if i % 3 else [])), 'changing'
    if k == 2:
        return (lambda i: (None, [])), 'none'
    return (lambda i: ((a, [b]) if i % 2 else (b, []))), 'alternating'


class Counting(io.BytesIO):
    pass


def ahead(ctx):
    rng = ctx.rng
    name = rng.choice(['file', 'stream', 'fromfd', 'certless'])
    n = rng.choice([800, 2000, 4000])
    size = rng.choice([40, 400, 3000]) if n < 4000 else 400
    sizes, k = shape(rng, n)
    lab, lk = labels_for(rng)
    certs_first = name != 'file' or rng.random() < .6
    if not certs_first:
        # every chunk needs passes over the file
        sizes = [n // 5] * 5
        ctx.count('ahead:late certs')
    recs = ['r%d.' % i + 'x' * size for i in range(sum(sizes))]
    data, ends = text(rng, sizes, recs, certs_first, lab)
    if name in ('stream', 'fromfd') or (name == 'certless' and rng.random() < .5):
        fd = modes.Stream(data, random.Random(rng.random()), rng.choice([None, 100, 5000]))
        where = lambda: fd.pos
    else:
        fd = Counting(data)
        where = fd.tell
    chunk = rng.choice([1, 2, 10, 100, 777]) if certs_first else rng.choice([50, 200])
    p = {'file': P.FileDEPParser, 'stream': P.StreamDEPParser, 'certless': P.CertlessStreamDEPParser,
         'fromfd': P.IncrementalDEPParser.fromFd}[name](fd)
    got, worst = 0, 0
    for c in p.parse(chunk):
        got += sum(len(g[0]) for g in c)
        c = None
        d = where() - ends[got - 1]
        worst = max(worst, d)
        if d > AHEAD:
            ctx.fail('read %d bytes beyond the last receipt delivered' % d, parser=name, chunk=chunk,
                     receipts=n, size=size, groups=k, certs_first=certs_first, delivered=got)
        ctx.count('chunks')
    ctx.check(got == len(ends), 'receipts lost', got=got, want=len(ends))
    ctx.count('ahead:' + name)
    ctx.count('receipts', got)
    ctx.distinct('ahead', name, n, size, k, lk, chunk, certs_first)
    ctx.sample(kind='ahead', parser=name, receipts=n, chunk=chunk, bytes=len(data), worst=worst)


def memory(ctx):
    """Parsers only, receipts as bytes."""
    rng = ctx.rng
    name = rng.choice(['file', 'stream', 'certless'])
    size = 4000
    n = 1500
    sizes, k = shape(rng, n)
    lab, lk = labels_for(rng)
    chunk = rng.choice([1, 3, 20])
    recs = ['r%d.' % i + 'x' * size for i in range(n)]
    certs_first = name != 'certless'
    if k in ('many', 'single') and name == 'file' and rng.random() < .3:
        certs_first = True
    data, ends = text(rng, sizes, recs, certs_first, lab)
    fd = modes.Stream(data) if name == 'stream' else io.BytesIO(data)
    del recs
    p = {'file': P.FileDEPParser, 'stream': P.StreamDEPParser, 'certless': P.CertlessStreamDEPParser}[name](fd)
    gc.collect()
    tracemalloc.start()
    try:
        base = tracemalloc.get_traced_memory()[0]
        got, peak = 0, 0
        for c in p.parse(chunk):
            got += sum(len(g[0]) for g in c)
            c = None
            peak = max(peak, tracemalloc.get_traced_memory()[1] - base)
            limit = 800000 + 4 * chunk * (size + 200)
            if peak > limit:
                ctx.fail('%d bytes allocated while reading' % peak, limit=limit, parser=name, chunk=chunk,
                         groups=k, delivered=got, certs_first=certs_first)
    finally:
        tracemalloc.stop()
    ctx.check(got == n, 'receipts lost', got=got)
    ctx.count('memory:' + name)
    ctx.distinct('memory', name, k, lk, chunk)
    ctx.sample(kind='memory', parser=name, chunk=chunk, bytes=len(data), peak=peak)


class Census(object):
    """Counts the receipts alive, at each creation."""

    def __init__(self, ctx, limit, info):
        self.ctx, self.limit, self.info = ctx, limit, info
        self.live, self.max, self.made = 0, 0, 0
        self.refs = set()

    def __enter__(self):
        self.orig = R.Receipt.__init__

        def gone(ref_):
            self.refs.discard(ref_)

        def init(rec, *a, **k):
            self.orig(rec, *a, **k)
            self.refs.add(weakref.ref(rec, gone))
            self.made += 1
            if len(self.refs) > self.max:
                if len(self.refs) > self.limit:
                    gc.collect()
                self.max = max(self.max, len(self.refs))
                if self.max > self.limit:
                    self.ctx.fail('%d receipts are held' % self.max, limit=self.limit, made=self.made,
                                  **self.info)
        R.Receipt.__init__ = init
        return self

    def __exit__(self, *a):
        R.Receipt.__init__ = self.orig


def receipts(n, pad=0):
    """Texts of receipts; the signatures do not matter."""
    k = (n, pad)
    if k not in receipts.cache:
        out = []
        chain = ref.b64(b'12345678')
        sig = ref.b64u(b'x' * 64)
        h = ref.b64u(ref.HEADER.encode())
        for i in range(n):
            p = ref.make_payload('AT1', 'K' + 'x' * pad, str(i), '2020-01-01T00:00:00', ['0,00'] * 5,
                                 ref.b64(b'12345678'), 'abc', chain, 'R1')
            out.append(h + '.' + ref.b64u(p.encode()) + '.' + sig)
        receipts.cache[k] = out
    return receipts.cache[k]


receipts.cache = {}


def read_json(t):
    return [r for g in json.loads(t)['Belege-Gruppe'] for r in g['Belege-kompakt']]


def pipeline(ctx):
    rng = ctx.rng
    kind = rng.choice(['json', 'csv', 'merge', 'merge', 'split', 'csv2json', 'files', 'dict'])
    n = rng.choice([300, 600])
    recs = receipts(n)
    sizes, k = shape(rng, n)
    lab, lk = labels_for(rng)
    chunk = rng.choice([1, 2, 5, 20])
    data, ends = text(rng, sizes, recs, True, lab)
    info = {'pipeline': kind, 'chunk': chunk, 'groups': k, 'labels': lk, 'receipts': n}
    cls = E.MergingDEPStream if kind == 'merge' or (kind == 'files' and rng.random() < .5) else E.DEPStream
    parts = 0
    with Census(ctx, 4 * chunk + 8, info) as cen:
        out = []
        if kind == 'csv2json':
            lines = [ref.parse_jws(r).csv for r in recs]
            gen_ = (R.Receipt.fromCSV(x) for x in lines)
            for s in E.JSONExporter.fromSingleGroup(gen_).export():
                out.append(s)
            want = recs
        elif kind == 'split':
            want = recs
            got = []
            for c in P.IncrementalDEPParser.fromFd(io.BytesIO(data)).parse(chunk):
                st = E.DEPStream(P.receiptGroupAdapter([c]))
                got += read_json(''.join(E.JSONExporter(st).export()))
                c = None
            ctx.check(got == recs, 'receipts lost', **info)
        elif kind == 'dict':
            # the exporter's default: nested generators
            want = recs
            got = []
            g = P.receiptGroupAdapter(P.StreamDEPParser(modes.Stream(data)).parse(chunk))
            for grp in E.DEPExporter(E.DEPStream(g)).export()['Belege-Gruppe']:
                for r in grp['Belege-kompakt']:
                    got.append(r)
                grp = None
            ctx.check(got == recs, 'receipts lost', **info)
        else:
            srcs = [data] * (rng.choice([2, 3]) if kind == 'files' else 1)
            want = recs * len(srcs)

            def one(d):
                f = modes.Stream(d) if rng.random() < .5 else io.BytesIO(d)
                for g in P.receiptGroupAdapter(P.IncrementalDEPParser.fromFd(f).parse(chunk)):
                    yield g
                    g = None
            st = cls.fromIterList([one(d) for d in srcs])
            if kind == 'csv':
                for s in E.CSVExporter(st).export():
                    out.append(s)
            else:
                for s in E.JSONExporter(st, rng.random() < .5).export():
                    out.append(s)
        if out:
            t = ''.join(out)
            if kind == 'csv':
                got = [ref.parse_csv(x).jws for x in t.split('\n')[1:]]
            else:
                got = read_json(t)
            ctx.check(got == want, 'receipts lost', **info)
            if kind not in ('csv', 'csv2json'):
                ctx.count('pieces', len(out))
                # what is written comes in pieces, too
                ctx.check(max(map(len, out)) < 50000, 'exported in one piece', **info)
    ctx.check(cen.made >= len(want), 'the census does not see the receipts', made=cen.made)
    ctx.count('pipe:' + kind)
    if kind == 'merge' and lk in ('changing', 'alternating') and len(sizes) > 50:
        ctx.count('pipe:merge many groups')
    ctx.count('receipts', cen.made)
    ctx.distinct('pipe', kind, n, k, lk, chunk, cls.__name__)
    ctx.sample(kind='pipeline', pipeline=kind, chunk=chunk, groups=len(sizes), max_live=cen.max)


class Tracked(bytes):
    """A receipt as the parsers deliver it that is counted while it exists."""

    live = most = limit = 0

    def __new__(cls, b):
        cls.live += 1
        if cls.live > cls.limit:
            # only what can still be reached counts
            gc.collect()
        cls.most = max(cls.most, cls.live)
        return bytes.__new__(cls, b)

    def __del__(self):
        Tracked.live -= 1

    def __reduce__(self):
        return bytes, (bytes(self),)


class Watched(object):
    """Passes the chunks of a real parser on; the receipts in them are counted."""

    def __init__(self, parser):
        self.parser, self.chunks = parser, 0

    def parse(self, chunksize):
        for c in self.parser.parse(chunksize):
            self.chunks += 1
            c = [([Tracked(x) for x in recs], cert, chain) for recs, cert, chain in c]
            yield c
            c = None


def register(rng, n, pad=0):
    """A long history; to be cheap, the device is out of order most of the time."""
    ks = ref.Ks()
    dev = gen.devices(rng, False, True, ks, 1)[0]
    sim = gen.Sim(rng, reg='K' * (pad + 1), idstyle=None, big=False, t=63000000, profile=gen.PROFILES[0])
    sim.emit(dev, 'standard', 0, null=True)
    signed = set(rng.sample(range(1, n), 3))
    for i in range(1, n):
        if i in signed or sim.need:
            sim.emit(dev, 'standard', 0, null=True)
        else:
            sim.emit(dev, rng.choice(['standard', 'training', 'reversal']), rng.randrange(1, 100), True)
    return ks, dev, sim


def cut_up(rng, metas, dev, sizes):
    it = iter(metas)
    return [([next(it).jws for _ in range(k)], dev.cert, dev.chain) for k in sizes]


def verifying(ctx):
    """Verification holds the receipts of few chunks."""
    rng = ctx.rng
    n = rng.choice([400, 700])
    ks, dev, sim = register(rng, n)
    sizes, k = shape(rng, n)
    groups = cut_up(rng, sim.metas, dev, sizes)
    data = json.dumps(gen.make_dep(groups)).encode('utf-8')
    chunk, nprocs = rng.choice([1, 2, 4, 7]), rng.choice([1, 1, 2, 3])
    pool = rng.choice([None, False, True])
    if pool is not None:
        pool = modes.SimPool(rng, pool)
    name = rng.choice(['file', 'stream'])
    p = Watched(P.FileDEPParser(io.BytesIO(data)) if name == 'file' else P.StreamDEPParser(modes.Stream(data)))
    info = {'pipeline': 'verify', 'chunk': chunk, 'nprocs': nprocs, 'groups': k, 'receipts': n, 'parser': name,
            'pool': pool and ('threads' if pool.share else 'processes')}
    limit = 4 * chunk * (nprocs + 1) + 16
    rks = modes.real_ks(ks)
    Tracked.live, Tracked.most, Tracked.limit = 0, 0, limit
    with Census(ctx, limit, info):
        modes.verify.verifyParsedDEP(p, rks, sim.key, None, None, pool, nprocs, chunk)
    ctx.check(Tracked.most <= limit, '%d receipts are held while verifying' % Tracked.most, limit=limit, **info)
    ctx.check(p.chunks >= n // chunk, 'the census does not see the chunks', chunks=p.chunks)
    ctx.count('pipe:verify')
    ctx.count('pipe:verify with a pool', pool is not None)
    ctx.distinct('verify', name, n, k, chunk, nprocs, info['pool'])
    ctx.sample(kind='verify', chunk=chunk, nprocs=nprocs, groups=len(sizes), max_live=Tracked.most)


SCRIPTS = ['merge.py', 'convert.py json2csv', 'convert.py csv2json', 'split.py', 'cert_extract.py', 'verify.py',
           'verify.py par 2']

# what runs the script in a process of its own and reports its peak memory
RUN = '''
import os, resource, sys
out = open(sys.argv[1], 'w')
pid = os.fork()
if pid == 0:
    os.execv(sys.executable, [sys.executable] + sys.argv[2:])
_, st, ru = os.wait4(pid, 0)
out.write('%d %d' % (os.waitstatus_to_exitcode(st), ru.ru_maxrss))
'''


def run_script(ctx, script, n, pad, chunk, groups):
    d = ctx.scratch()
    recs = receipts(n, pad) if not script.startswith('verify.py') else None
    pool = c20.certs()
    sizes = [n // groups] * groups
    tag = '%d' % n
    if script.startswith('verify.py'):
        ks, dev, sim = register(ctx.rng, n, pad)
        data = json.dumps(gen.make_dep(cut_up(ctx.rng, sim.metas, dev, sizes))).encode('utf-8')
        with open(os.path.join(d, 'ks' + tag), 'w') as f:
            json.dump(c27.store_json(ctx.rng, ks, sim.key), f)
    else:
        data, ends = text(ctx.rng, sizes, recs, True, lambda i: (pool[i % 7], [pool[8]]))
    p = os.path.join(d, 'in' + tag)
    with open(p, 'wb') as f:
        if script.endswith('csv2json'):
            f.write(b'head\n')
            for r in recs:
                f.write(ref.parse_jws(r).csv.encode() + b'\n')
        else:
            f.write(data)
    parts = script.split()
    args = [os.path.join(core.REPO, parts[0])] + parts[1:]
    if script == 'merge.py':
        args.append(p)
    elif script == 'split.py':
        args += [str(chunk), os.path.join(d, 'out' + tag)]
    elif script == 'cert_extract.py':
        args += [os.path.join(d, 'out' + tag)]
    elif parts[0] == 'verify.py':
        args += ['chunksize', str(chunk), os.path.join(d, 'ks' + tag), p]
    env = dict(os.environ, RKSV_DEP_CHUNKSIZE=str(chunk), PYTHONDONTWRITEBYTECODE='1')
    rep = os.path.join(d, 'report' + tag)
    with open(p, 'rb') as i, open(os.path.join(d, 'stdout'), 'wb') as o:
        r = subprocess.run([sys.executable, '-c', RUN, rep] + args, stdin=i, stdout=o,
                           stderr=subprocess.PIPE, env=env, timeout=400, cwd=d)
    rc, rss = map(int, open(rep).read().split())
    ctx.check(rc == 0, '%s failed' % script, stderr=r.stderr.decode('utf-8', 'replace')[-1000:])
    return rss, len(data)


def scripts(ctx):
    rng = ctx.rng
    script = SCRIPTS[ctx.index % len(SCRIPTS)] if ctx.index < len(SCRIPTS) else rng.choice(SCRIPTS)
    chunk = rng.choice([20, 40])
    small, _ = run_script(ctx, script, 400, 2000, chunk, 4)
    large, size = run_script(ctx, script, 4000 if script.startswith('verify.py') else 8000, 2000, chunk, 40)
    ctx.check(large - small < 10000, '%s needs more memory for a larger DEP' % script,
              small_kib=small, large_kib=large, dep_bytes=size)
    ctx.count('script:' + script)
    ctx.distinct('script', script, chunk)
    ctx.sample(kind='script', script=script, small_kib=small, large_kib=large, dep_bytes=size)


def case(ctx):
    if ctx.index < len(SCRIPTS) or (ctx.thorough and ctx.rng.random() < .02):
        return scripts(ctx)
    k = ctx.rng.random()
    if k < .3:
        ahead(ctx)
    elif k < .42:
        memory(ctx)
    elif k < .55:
        verifying(ctx)
    else:
        pipeline(ctx)
