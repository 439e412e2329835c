"""C20: all DEP parsers deliver the same receipts in bounded chunks."""
import copy
import json
import os
import random
import threading

from rv import core, gen, modes, ref
from rv.props import c18

LEVEL = 'exploration'
QUICK, THOROUGH = 4800, 80000
RULE = ('a case is a DEP (groups of any size, with and without certificates, empty groups) written in '
        'a random JSON layout and read by several parsers with random chunk sizes and read '
        'granularity; the log of delivered chunks must contain every receipt exactly once, in order, '
        'with the certificate and chain of its own group; distinct by shape, parser and chunk size')
MANDATORY = ['parser:dict', 'parser:full', 'parser:file', 'parser:stream', 'parser:certless',
             'parser:fromfd', 'parser:pipe', 'how:bytes', 'how:text', 'how:short', 'how:stream',
             'how:disk', 'chunk:0', 'chunk:1', 'chunk:exact', 'chunk:more', 'chunk:some', 'again',
             'again after part', 'late certs', 'stream refused', 'certless unlabelled', 'adapter',
             'empty group', 'no cert group', 'large', 'bom', 'parts', 'interleaved', 'utf8', 'many groups', 'long group', 'entry again']
P = modes.depparser


def certs():
    if not hasattr(certs, 'pool'):
        rng = random.Random('c20 certs')
        k = [gen.key('p256', i) for i in range(3)]
        certs.pool = [gen.Cert(k[i % 3], k[(i + 1) % 3], gen.serial_number(rng), 'c%d' % i) for i in range(10)]
    return certs.pool


def receipt_text(rng, i):
    k = rng.randrange(6)
    if k == 0:
        return rng.choice(['', 'a.b.c', u'\xe4\u6f22\U0001f389', 'x' * 3000, '"\\/\b\n', '\0', '}],{', ' ',
                           'Belege-Gruppe', u'\u2028', '0', 'null'])
    return 'r%d.%s.%s' % (i, 'ab' * rng.randrange(1, 40), rng.choice(['', u'\xe9', 'sig']))


def build(rng, ctx):
    pool = certs()
    groups = []
    n = rng.choice([1, 1, 2, 2, 3, 4, 8, 30])
    big = rng.random() < .02
    wide = rng.random() < .01
    if wide:
        n = rng.choice([130, 300])
        ctx.count('many groups')
    long = rng.randrange(n) if rng.random() < .01 else None
    h = None
    i = 0
    for _ in range(n):
        k = rng.choice([0, 1, 1, 2, 3, rng.randrange(1, 12)])
        if big:
            k *= 12
        if wide:
            k = min(k, 2)
        if len(groups) == long:
            k = rng.choice([300, 1500])
            ctx.count('long group')
        if groups and rng.random() < .2:
            _, c, ch = groups[-1]
        else:
            c = rng.choice(pool) if rng.random() < .85 else None
            ch = rng.sample(pool, rng.choice([0, 0, 1, 1, 2, 3])) if c is not None or rng.random() < .2 else []
        if groups and rng.random() < .15:
            ch = list(ch)[::-1]
        if ch and rng.random() < .1:
            # an entry again
            ch = list(ch)
            k2 = rng.randrange(len(ch))
            ch.insert(rng.choice([k2, len(ch)]), ch[k2])
            ctx.count('entry again')
        if c is not None and rng.random() < .05:
            ch = [c] + list(ch)
            ctx.count('entry again')
        if k == 0:
            ctx.count('empty group')
        if c is None:
            ctx.count('no cert group')
        recs = []
        for _ in range(k):
            i += 1
            recs.append(receipt_text(rng, i) if not big else 'r%d.' % i + 'xyz' * 400)
        groups.append((recs, c, ch))
    if not any(g[0] for g in groups):
        groups[rng.randrange(n)][0].append('only')
    if big:
        ctx.count('large')
    return groups


def log_of(chunks):
    return [[([bytes(r) for r in recs], modes_cert(c), [modes_cert(x) for x in ch])
             for recs, c, ch in chunk] for chunk in chunks]


def modes_cert(c):
    if c is None:
        return None
    k = id(c)
    return c18.b64cert(c)


def consume(it, limit=None):
    """All chunks and the log made as they came."""
    held, log = [], []
    for ch in it:
        held.append(ch)
        log += log_of([ch])
        if limit is not None and len(held) >= limit:
            break
    return held, log


def judge(ctx, log, groups, chunk, name, certless=False, info=None):
    seq = [(r.encode('utf-8'), c.b64 if c is not None else None, [x.b64 for x in ch])
           for recs, c, ch in groups for r in recs]
    got = [(r, c, ch) for chk in log for recs, c, ch in chk for r in recs]
    if [g[0] for g in got] != [s[0] for s in seq]:
        ctx.fail('wrong receipts delivered', got=[g[0][:40] for g in got], want=[s[0][:40] for s in seq],
                 parser=name, chunk=chunk, info=info)
    for g, s in zip(got, seq):
        if g[1:] == s[1:]:
            continue
        # A certless parser does not wait for what it does not know yet.
        if certless and g[1] in (None, s[1]) and (g[2] == [] or g[2] == s[2]):
            ctx.count('certless unlabelled')
            continue
        ctx.fail('receipt with the label of another group', receipt=g[0][:60], got=g[1:], want=s[1:],
                 parser=name, chunk=chunk, info=info)
    for chk in log:
        k = sum(len(g[0]) for g in chk)
        ctx.check(len(chk) > 0 and k > 0, 'empty chunk', parser=name, chunk=chunk, info=info)
        if chunk:
            ctx.check(k <= chunk, 'chunk too large', got=k, parser=name, chunk=chunk, info=info)
    ctx.count('receipts', len(got))
    ctx.count('chunks', len(log))


def pipe(data, rng):
    r, w = os.pipe()

    def feed():
        try:
            pos = 0
            while pos < len(data):
                k = rng.choice([1, 10, 1000, 70000])
                os.write(w, data[pos:pos + k])
                pos += k
        except OSError:
            pass
        finally:
            os.close(w)
    t = threading.Thread(target=feed, daemon=True)
    t.start()
    return os.fdopen(r, 'rb', rng.choice([0, -1])), t


def open_as(ctx, data, how, rng, name):
    if how == 'disk':
        p = os.path.join(ctx.scratch(), '%s-%d.json' % (name, rng.randrange(10**9)))
        with open(p, 'wb') as f:
            f.write(data)
        return open(p, 'rb') if rng.random() < .5 else open(p, 'r', encoding='utf-8')
    return modes.open_bytes(data, how, rng)


def case(ctx):
    rng = ctx.rng
    adapter = rng.random() < .06
    if adapter:
        h = gen.history(rng, rng.randrange(1, 12), certful=True)
        groups = h.ref_groups()
    else:
        groups = build(rng, ctx)
    dep = gen.make_dep(groups)
    total = sum(len(g[0]) for g in groups)
    names = rng.sample(['dict', 'full', 'file', 'file', 'stream', 'certless', 'fromfd', 'pipe'],
                       3 if total < 100 else 2)
    done = []
    for name in names:
        chunk = rng.choice([0, 1, 1, 2, 3, 5, 7, rng.randrange(1, total + 2), total, total + 1, 10**6])
        ctx.count('chunk:' + ('0' if chunk == 0 else '1' if chunk == 1 else 'exact' if chunk == total else
                              'more' if chunk > total else 'some'))
        nparts = 1
        certs_first = True
        if name == 'dict':
            nparts = rng.choice([1, 1, 2, 3, 7, total, total + 5])
            d = copy.deepcopy(dep)
            if rng.random() < .4:
                # other insertion order, extra elements
                d = json.loads(gen.layout(rng, dep, bom=False).decode('utf-8'))
            src = copy.deepcopy(d)
            p = P.DictDEPParser(d, nparts)
            how = None
        else:
            how = {'stream': 'stream', 'pipe': 'pipe'}.get(name) or rng.choice(
                ['bytes', 'bytes', 'text', 'short', 'disk', 'stream'])
            if how == 'stream' and name in ('full', 'file'):
                how = 'short'
            seekable = how not in ('stream', 'pipe')
            streaming = name in ('stream', 'pipe') or (name == 'fromfd' and not seekable)
            certs_first = streaming and rng.random() < .8
            data = gen.layout(rng, dep, certs_first=certs_first, bom=None if seekable else False)
            if data[:3] == b'\xef\xbb\xbf':
                ctx.count('bom')
            if any(b > 127 for b in data):
                ctx.count('utf8')
            if how == 'pipe':
                fd, thread = pipe(data, random.Random(rng.random()))
            else:
                fd = open_as(ctx, data, how, rng, name)
            ctx.count('how:' + how)
            if name == 'full':
                nparts = rng.choice([1, 1, 2, 3, total])
                p = P.FullFileDEPParser(fd, nparts)
            elif name == 'file':
                p = P.FileDEPParser(fd)
            elif name == 'certless':
                p = P.CertlessStreamDEPParser(fd) if rng.random() < .5 else \
                    P.IncrementalDEPParser.fromFd(fd, False)
            elif name == 'stream':
                p = P.StreamDEPParser(fd)
            else:
                p = P.IncrementalDEPParser.fromFd(fd, *rng.choice([(), (True,)]))
        ctx.count('parser:' + name)
        info = {'dep': dep, 'how': how}
        if how is not None:
            info['text'] = data.decode('utf-8')
            if not certs_first:
                ctx.count('late certs')
        if adapter:
            adapted(ctx, p, groups, chunk, name, info, how is not None and not certs_first)
            done.append((name, how, chunk))
            continue
        streaming = how is not None and (name in ('stream', 'pipe') or (name == 'fromfd' and how == 'stream'))
        try:
            held, log = consume(p.parse(chunk))
        except modes.utils.RKSVException as e:
            if streaming and not certs_first and 0 < chunk <= total:
                # specified: elements that come too late are an error
                ctx.check(isinstance(e, P.MalformedDEPException), 'wrong error', error=repr(e))
                ctx.count('stream refused')
                continue
            ctx.fail('a correct DEP was refused: %s' % e, parser=name, chunk=chunk, **info)
        finally:
            if how == 'pipe':
                fd.close()
                thread.join(10)
        judge(ctx, log, groups, chunk, name, name == 'certless', info)
        ctx.check(log_of(held) == log, 'delivered chunks are changed later', parser=name, chunk=chunk, info=info)
        if chunk == 0:
            if name in ('dict', 'full'):
                if nparts > 1:
                    ctx.check(len(log) <= nparts, 'more chunks than parts', parts=nparts, got=len(log), info=info)
                    ctx.count('parts')
                else:
                    ctx.check(len(log) == len([g for g in groups if g[0]]), 'not a chunk per group', info=info)
            else:
                ctx.check(len(log) == 1, 'not a single chunk', parser=name, info=info)
        if name == 'dict':
            ctx.check(d == src, 'the parser changed the DEP', info=info)
        done.append((name, how, chunk, len(log)))
        if (name in ('dict', 'full', 'file') or (name == 'fromfd' and not streaming)) and rng.random() < .5:
            again(ctx, p, groups, chunk, name, log, info)
        if how == 'disk':
            fd.close()
    ctx.distinct([len(g[0]) for g in groups], done)
    ctx.sample(groups=[(len(g[0]), g[1] is not None, len(g[2])) for g in groups], runs=done)


def again(ctx, p, groups, chunk, name, log, info):
    """The same source once more."""
    rng = ctx.rng
    k = rng.randrange(3)
    if k == 1:
        consume(p.parse(rng.choice([1, 2, chunk])), 1)
        ctx.count('again after part')
    if k == 2:
        chunk = rng.choice([0, 1, 2, 4])
    if k == 0 and name in ('dict', 'full') and rng.random() < .7:
        # two at the same time
        a, b = p.parse(chunk), p.parse(chunk)
        la, lb = [], []
        todo = [(a, la), (b, lb)]
        while todo:
            x = rng.choice(todo)
            try:
                x[1].extend(log_of([next(x[0])]))
            except StopIteration:
                todo.remove(x)
        ctx.check(la == log and lb == log, 'interleaved parsing differs', parser=name, chunk=chunk, info=info)
        ctx.count('interleaved')
        return
    held, log2 = consume(p.parse(chunk))
    if k != 2:
        ctx.check(log2 == log, 'parsing again delivers something else', parser=name, chunk=chunk, info=info)
    judge(ctx, log2, groups, chunk, name, False, info)
    ctx.count('again')


def adapted(ctx, p, groups, chunk, name, info, late):
    got = []
    try:
        for recs, cert, chain in P.receiptGroupAdapter(p.parse(chunk)):
            for r, prefix in recs:
                got.append((r.toJWSString(prefix), modes_cert(cert), [modes_cert(c) for c in chain]))
    except P.MalformedDEPException:
        # a stream whose certificates come too late
        ctx.check(late and name in ('stream', 'pipe', 'fromfd'), 'refused', parser=name, info=info)
        return
    want = [(r, c.b64 if c is not None else None, [x.b64 for x in ch]) for recs, c, ch in groups for r in recs]
    if name == 'certless':
        got, want = [g[0] for g in got], [w[0] for w in want]
    ctx.check(got == want, 'the adapter delivers something else', parser=name, chunk=chunk, info=info)
    ctx.count('adapter')
