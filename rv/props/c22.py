"""C22: split, merge, convert and export neither lose nor change receipts."""
import copy
import io
import json
import os
import random
import subprocess
import sys

from rv import core, gen, modes, ref

LEVEL = 'exploration'
QUICK, THOROUGH = 1980, 30000
RULE = ('a case sends a valid DEP (or one of arbitrary grouping) through a random pipeline of exporting, '
        'splitting, merging and converting; after each stage an independent reader compares the receipts, '
        'their texts and the certificates and chains they are grouped under with what went in, the result '
        'still has to verify; some run the scripts; distinct by grouping and stages')
MANDATORY = ['stage:export list', 'stage:export lazy', 'stage:export json', 'stage:split', 'stage:merge',
             'stage:nomerge', 'stage:two files', 'stage:csv', 'stage:append', 'still valid', 'joined',
             'kept apart', 'chain differs', 'near chains: order', 'bad receipt refused', 'script:split.py', 'script:merge.py',
             'script:convert.py', 'extra', 'single group', 'lazy source',
             'script:split.py again']
P, E, R = modes.depparser, modes.depexport, modes.receipt
CSV_HEAD = ('Alg+ZDA;Register ID;Receipt ID;Date+Time;Sum A;Sum B;Sum C;Sum D;Sum E;'
            'Turnover Counter;Cert. Serial;Chaining Value;Signature')


def flat(groups):
    return [(r, c, tuple(ch)) for recs, c, ch in groups for r in recs]


def of_dep(groups):
    return [(list(recs), c.b64 if c is not None else '', [x.b64 for x in ch]) for recs, c, ch in groups]


def read(ctx, text, what, extras=()):
    """Independent reader of an exported DEP."""
    try:
        d = json.loads(text)
    except ValueError as e:
        ctx.fail('%s: the output is not JSON: %s' % (what, e), text=text[:3000])
    return groups_in(ctx, d, what, extras)


def groups_in(ctx, d, what, extras=()):
    ok = isinstance(d, dict) and isinstance(d.get('Belege-Gruppe'), list) and \
        set(d) == {'Belege-Gruppe'} | {k for k, v in extras}
    if ok:
        for k, v in extras:
            ok = ok and d[k] == v
        for g in d['Belege-Gruppe']:
            ok = ok and isinstance(g, dict) and set(g) == {'Signaturzertifikat', 'Zertifizierungsstellen',
                                                          'Belege-kompakt'} \
                and isinstance(g['Signaturzertifikat'], str) and isinstance(g['Zertifizierungsstellen'], list) \
                and isinstance(g['Belege-kompakt'], list) \
                and all(isinstance(x, str) for x in g['Zertifizierungsstellen'] + g['Belege-kompakt'])
    ctx.check(ok, '%s: the output is not a well-formed DEP' % what, output=repr(d)[:3000], extras=extras)
    return [(g['Belege-kompakt'], g['Signaturzertifikat'], g['Zertifizierungsstellen'])
            for g in d['Belege-Gruppe']]


def same(ctx, got, want, what, **info):
    a, b = flat(got), flat(want)
    ctx.check([x[0] for x in a] == [x[0] for x in b], '%s: receipts lost, added or changed' % what,
              got=[x[0] for x in a], want=[x[0] for x in b], **info)
    ctx.check(a == b, '%s: receipts with other certificates' % what, got=got, want=want, **info)
    ctx.count('receipts', len(a))


def source(ctx, groups, rng):
    """A generator of (receipts, cert, chain) made from groups of texts, by a parser."""
    dep = {'Belege-Gruppe': [{'Signaturzertifikat': c, 'Zertifizierungsstellen': list(ch),
                              'Belege-kompakt': list(recs)} for recs, c, ch in groups]}
    k = rng.randrange(4)
    chunk = rng.choice([0, 1, 2, 3, 5, 100])
    if k == 0:
        p = P.DictDEPParser(dep, rng.choice([1, 2, 3]))
    elif k == 1:
        p = P.FileDEPParser(io.BytesIO(json.dumps(dep).encode('utf-8')))
    elif k == 2:
        p = P.StreamDEPParser(modes.Stream(json.dumps(dep).encode('utf-8'), random.Random(rng.random()), 50))
    else:
        p = P.FullFileDEPParser(io.BytesIO(json.dumps(dep).encode('utf-8')))
    g = P.receiptGroupAdapter(p.parse(chunk))
    if rng.random() < .5:
        ctx.count('lazy source')
        return ((iter(r), c, ch) if rng.random() < .5 else (r, c, ch) for r, c, ch in g)
    return list(g)


def export(ctx, stream, rng, what, how=None):
    """Returns groups read from what the exporter makes of the stream."""
    how = how or rng.choice(['list', 'lazy', 'json'])
    extras = [('extra%d' % i, gen.junk(rng)) for i in range(rng.choice([0, 0, 0, 1, 2]))]
    if how == 'json':
        e = E.JSONExporter(stream, rng.random() < .5) if rng.random() < .7 else E.JSONExporter(stream)
    elif how == 'list':
        e = E.DEPExporter(stream, list)
    else:
        e = E.DEPExporter(stream)
    for k, v in extras:
        e.addExtra(k, copy.deepcopy(v))
        ctx.count('extra')
    ctx.count('stage:export ' + how)
    if how == 'json':
        return read(ctx, ''.join(e.export()), what, extras)
    d = e.export()
    if how == 'lazy':
        out = []
        d = dict(d)
        for g in d['Belege-Gruppe']:
            g = dict(g)
            g['Belege-kompakt'] = list(g['Belege-kompakt'])
            out.append(g)
        d['Belege-Gruppe'] = out
    return groups_in(ctx, d, what, extras)


def runs_of(groups):
    """Labels of the receipts, adjacent equal ones once."""
    out = []
    for r, c, ch in flat(groups):
        if not out or out[-1] != (c, ch):
            out.append((c, ch))
    return out


def joined(ctx, got, what):
    """No two adjacent groups are left that could be joined."""
    g = [(x[1], tuple(x[2])) for x in got if x[0]]
    ctx.check(g == runs_of(got), '%s: groups with the same certificates are not merged' % what, got=got)
    ctx.count('joined')
    for a, b in zip(g, g[1:]):
        ctx.count('chain differs' if a[0] == b[0] else 'kept apart')


def pieces(ctx, groups, rng, size):
    dep = {'Belege-Gruppe': [{'Signaturzertifikat': c, 'Zertifizierungsstellen': list(ch),
                              'Belege-kompakt': list(recs)} for recs, c, ch in groups]}
    out = []
    for chunk in P.IncrementalDEPParser.fromFd(io.BytesIO(json.dumps(dep).encode('utf-8'))).parse(size):
        out.append(export(ctx, E.DEPStream(P.receiptGroupAdapter([chunk])), rng, 'split'))
    for p in out:
        n = sum(len(g[0]) for g in p)
        ctx.check(0 < n <= size, 'a piece with %d receipts' % n, size=size)
    same(ctx, [g for p in out for g in p], groups, 'split', size=size)
    ctx.count('stage:split')
    return out


def csv_stage(ctx, groups, rng):
    st = E.DEPStream(source(ctx, groups, rng))
    t = ''.join(E.CSVExporter(st).export())
    lines = t.split('\n')
    recs = [x[0] for x in flat(groups)]
    ctx.check(lines[0] == CSV_HEAD, 'wrong CSV header', header=lines[0])
    ctx.check(lines[1:] == [ref.parse_jws(r).csv for r in recs], 'wrong CSV lines', got=lines[1:], want=recs)
    g = (R.Receipt.fromCSV(x.strip()) for x in lines[1:])
    if rng.random() < .5:
        g = list(g)
    out = export(ctx, E.JSONExporter.fromSingleGroup(g)._stream, rng, 'csv2json') if rng.random() < .5 else \
        read(ctx, ''.join(E.JSONExporter.fromSingleGroup(g).export()), 'csv2json')
    ctx.count('single group')
    same(ctx, out, [(recs, '', [])], 'csv2json')
    ctx.check(len(out) == 1, 'not a single group')
    ctx.count('stage:csv')
    return out


def append_stage(ctx, groups, rng):
    """DEPStream filled by hand, before and during reading."""
    st = rng.choice([E.DEPStream, E.MergingDEPStream])()
    merging = type(st) is E.MergingDEPStream
    real = [([R.Receipt.fromJWSString(r) for r in recs], modes.utils.loadCert(modes.utils.addPEMCertHeaders(c))
             if c else None, [modes.utils.loadCert(modes.utils.addPEMCertHeaders(x)) for x in ch])
            for recs, c, ch in groups if recs]
    i = 0
    while i < len(real):
        if rng.random() < .5:
            recs, c, ch = real[i]
            if c is None and not ch:
                st.append(recs)
            elif not ch:
                st.append(iter(recs), c)
            else:
                st.append(recs, c, ch)
            i += 1
        else:
            k = rng.randrange(1, 4)
            st.extend(rng.choice([list, iter])(real[i:i + k]))
            i += k
    out = export(ctx, st, rng, 'append')
    same(ctx, out, groups, 'append')
    if merging:
        joined(ctx, out, 'append')
    ctx.count('stage:append')
    return out


def merge_stage(ctx, groups, rng):
    size = rng.choice([1, 2, 3, 5, 50])
    n = rng.randrange(3)
    if n == 0:
        srcs = [source(ctx, p, rng) for p in pieces(ctx, groups, rng, size)]
    elif n == 1:
        f = flat(groups)
        k = rng.randrange(1, max(2, len(f)))
        a, b = cut(groups, k)
        srcs = [source(ctx, x, rng) for x in (a, b) if flat(x)]
        ctx.count('stage:two files')
    else:
        srcs = [source(ctx, groups, rng)]
    merging = rng.random() < .6
    cls = E.MergingDEPStream if merging else E.DEPStream
    st = cls.fromIterList(srcs)
    out = export(ctx, st, rng, 'merge')
    same(ctx, out, groups, 'merge' if merging else 'nomerge')
    if merging:
        joined(ctx, out, 'merge')
    ctx.count('stage:merge' if merging else 'stage:nomerge')
    return out


def cut(groups, k):
    a, b = [], []
    for recs, c, ch in groups:
        x, y = recs[:k], recs[k:]
        k = max(0, k - len(recs))
        if x:
            a.append((x, c, ch))
        if y:
            b.append((y, c, ch))
    return a, b


def verifies(groups, ks, key):
    dep = {'Belege-Gruppe': [{'Signaturzertifikat': c, 'Zertifizierungsstellen': list(ch),
                              'Belege-kompakt': list(recs)} for recs, c, ch in groups if recs]}
    return modes.outcome(lambda: modes.verify.verifyDEP(dep, ks, key))


def script(ctx, args, data, rng, cwd):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    if rng.random() < .6:
        env['RKSV_DEP_CHUNKSIZE'] = str(rng.choice([1, 2, 7, 100]))
    r = subprocess.run([sys.executable, os.path.join(core.REPO, args[0])] + args[1:], input=data,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, cwd=cwd, env=env)
    ctx.check(r.returncode == 0, '%s failed' % args[0], stderr=r.stderr.decode('utf-8', 'replace')[-1000:])
    ctx.count('script:' + args[0])
    return r.stdout


def scripts(ctx, groups, rng):
    """split.py, merge.py and convert.py on files."""
    d = ctx.scratch()
    dep = {'Belege-Gruppe': [{'Signaturzertifikat': c, 'Zertifizierungsstellen': list(ch),
                              'Belege-kompakt': list(recs)} for recs, c, ch in groups]}
    data = gen.layout(rng, dep)
    size = rng.choice([1, 2, 3, 10, 1000])
    total = len(flat(groups))
    if total // size > 40:
        size = 3
    out = os.path.join(d, 'pieces')
    # a file, as certificates may come late
    src = os.path.join(d, 'in.json')
    with open(src, 'wb') as f:
        f.write(data)
    if total and rng.random() < .5:
        # the pieces of an earlier run are replaced
        os.mkdir(out)
        with open(os.path.join(out, 'dep-export0.json'), 'wb') as f:
            f.write(data + data if rng.random() < .5 else rng.choice([b'', b'{}', b'x' * 100000]))
        ctx.count('script:split.py again')
    with open(src, 'rb') as f:
        r = subprocess.run([sys.executable, os.path.join(core.REPO, 'split.py'), str(size), out], stdin=f,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, cwd=d)
    ctx.check(r.returncode == 0, 'split.py failed', stderr=r.stderr.decode('utf-8', 'replace')[-1000:])
    ctx.count('script:split.py')
    names = os.listdir(out)
    k = len(names)
    ctx.check(sorted(names) == sorted('dep-export%d.json' % i for i in range(k)), 'names of the pieces', names=names)
    files = [os.path.join(out, 'dep-export%d.json' % i) for i in range(k)]
    got = []
    for p in files:
        x = read(ctx, open(p, encoding='utf-8').read(), 'split.py')
        ctx.check(0 < len(flat(x)) <= size, 'piece of the wrong size', size=size, got=len(flat(x)))
        got += x
    same(ctx, got, groups, 'split.py', size=size)
    nomerge = rng.random() < .4
    if len(files) == 1:
        # merge.py wants two files at least
        files = files * 2
        groups = groups * 2
        data = json.dumps({'Belege-Gruppe': [
            {'Signaturzertifikat': c, 'Zertifizierungsstellen': list(ch), 'Belege-kompakt': list(recs)}
            for recs, c, ch in groups]}).encode('utf-8')
    m = script(ctx, ['merge.py'] + (['nomerge'] if nomerge else []) + files, b'', rng, d).decode('utf-8')
    got = read(ctx, m, 'merge.py')
    same(ctx, got, groups, 'merge.py', nomerge=nomerge)
    if not nomerge:
        joined(ctx, got, 'merge.py')
    if data[:3] == b'\xef\xbb\xbf':
        data = data[3:]  # a pipe can not be read twice
    c = script(ctx, ['convert.py', 'json2csv'], data, rng, d).decode('utf-8')
    recs = [x[0] for x in flat(groups)]
    lines = c.split('\n')
    ctx.check(lines[0] == CSV_HEAD and lines[1:] == [ref.parse_jws(r).csv for r in recs] + [''],
              'convert.py json2csv', got=lines, want=recs)
    end = rng.choice(['\n', '\n', '', '\r\n'])
    c = c.rstrip('\n').replace('\n', end or '\n') + end
    j = script(ctx, ['convert.py', 'csv2json'], c.encode('utf-8'), rng, d).decode('utf-8')
    same(ctx, read(ctx, j, 'convert.py csv2json'), [(recs, '', [])], 'convert.py csv2json')
    ctx.distinct('scripts', size, [len(g[0]) for g in groups], nomerge)


def bad(ctx, groups, rng):
    """A malformed receipt is not skipped."""
    i = rng.randrange(len(groups))
    recs = list(groups[i][0])
    k = rng.randrange(len(recs) + 1)
    recs.insert(k, rng.choice(['', 'a.b.c', 'x', (groups[i][0] or ['a.b.c'])[0][:-5], '..']))
    g2 = list(groups)
    g2[i] = (recs,) + tuple(groups[i][1:])

    def go():
        cls = rng.choice([E.DEPStream, E.MergingDEPStream])
        st = cls(source(ctx, g2, rng))
        if rng.random() < .3:
            return ''.join(E.CSVExporter(st).export())
        return export(ctx, st, rng, 'bad')
    out = modes.outcome(go)
    ctx.check(out[0] == 'err', 'a malformed receipt was lost or exported', groups=g2,
              out=repr(out[1])[:2000])
    ctx.count('bad receipt refused')


def near_chains(ctx, groups, h, rng):
    """Cut groups in two whose chains differ by little: order, repetition, one entry."""
    pool = [x.b64 for d in h.devs for x in [d.cert] + list(d.chain)]
    out = []
    for recs, c, ch in groups:
        if len(recs) < 2 or rng.random() < .3:
            out.append((recs, c, ch))
            continue
        base = list(ch)
        while len(base) < rng.choice([1, 2, 2, 3]):
            base.append(rng.choice(pool))
        how = rng.choice(['order', 'order', 'order', 'twice', 'last', 'first', 'more', 'none'])
        if how == 'order':
            if len(set(base)) < 2:
                base = rng.sample(sorted(set(pool)), 2) if len(set(pool)) > 1 else base
            other = base[::-1] if rng.random() < .5 else base[1:] + base[:1]
        elif how == 'twice':
            other = base + [rng.choice(base)]
        elif how == 'last':
            other = base[:-1]
        elif how == 'first':
            other = base[1:]
        elif how == 'more':
            other = base + [rng.choice(pool)]
        else:
            other = []
        n = rng.randrange(1, len(recs))
        if rng.random() < .5:
            base, other = other, base
        out += [(recs[:n], c, base), (recs[n:], c, other)]
        if base != other:
            ctx.count('near chains: ' + how)
    return out


def case(ctx):
    rng = ctx.rng
    certful = rng.random() < .8
    h = gen.history(rng, rng.choice([1, 2, 5, rng.randrange(1, 25)]), certful=certful, ndev=rng.choice([1, 2, 2, 3]),
                    stretch=.03)
    groups = of_dep(h.ref_groups())
    valid = True
    if certful and rng.random() < .4:
        # chains may differ between groups of one certificate
        for i, g in enumerate(groups):
            if rng.random() < .5:
                pool = [x.b64 for d in h.devs for x in [d.cert] + list(d.chain)]
                groups[i] = (g[0], g[1], rng.sample(pool, rng.randrange(min(3, len(pool)) + 1)))
        groups = near_chains(ctx, groups, h, rng)
        valid = False
    ks = modes.real_ks(h.ks)
    key = rng.choice([h.key, None])
    if valid:
        ctx.check(verifies(groups, ks, key)[0] == 'ok', 'the DEP is not accepted')
    if ctx.index % 59 == 0:
        return scripts(ctx, groups, rng)
    cur = groups
    stages = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        k = rng.choice(['merge', 'merge', 'append', 'split', 'csv', 'export'])
        if k == 'csv' and rng.random() < .5:
            k = 'merge'
        stages.append(k)
        if k == 'merge':
            cur = merge_stage(ctx, cur, rng)
        elif k == 'append':
            cur = append_stage(ctx, cur, rng)
        elif k == 'split':
            ps = pieces(ctx, cur, rng, rng.choice([1, 2, 3, 7, 100]))
            cur = [g for p in ps for g in p]
        elif k == 'csv':
            cur = csv_stage(ctx, cur, rng)
            groups = [([x[0] for x in flat(groups)], '', [])]
            valid = valid and not certful
        else:
            out = export(ctx, E.DEPStream(source(ctx, cur, rng)), rng, 'export')
            same(ctx, out, cur, 'export')
            cur = out
        same(ctx, cur, groups, 'pipeline', stages=stages)
    if valid:
        if not certful and len(cur) > 1:
            # only a single group may come without a certificate
            cur = export(ctx, E.MergingDEPStream(source(ctx, cur, rng)), rng, 'merge')
            ctx.check(len(cur) == 1, 'groups without certificates are not merged')
        out = verifies(cur, ks, key)
        ctx.check(out[0] == 'ok', 'the DEP is not accepted any more: %s' % (modes.brief(out),), stages=stages)
        ctx.count('still valid')
    if rng.random() < .25:
        bad(ctx, groups, rng)
    ctx.distinct([len(g[0]) for g in groups], stages, certful)
    ctx.sample(groups=[len(g[0]) for g in groups], stages=stages, certful=certful, verified=valid)
