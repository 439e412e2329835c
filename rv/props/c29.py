"""C29: the language of the messages changes nothing but their text."""
import copy
import inspect
import json
import os
import random
import re
import string

from rv import core, gen, lang, modes, ref
from rv.props import c08, c11, c15, c17, c18, c19, c24, c27, common

LEVEL = 'exploration'
LANGUAGE = 'en'
QUICK, THOROUGH = 700, 20000
RULE = ('a case performs one operation (verification of a DEP with or without defect, reading receipts, key '
        'stores, states or DEPs with defects, creating errors) with the same input in every provided language '
        'and an artificial one and compares verdict, type of error, receipt and values; every message must be '
        'the translation of the original one with the same values; or it runs a script as a process in two '
        'languages and compares status, output and files; the first case checks the catalogues; distinct by '
        'operation, outcome and message')
TECHNIQUE = ('runtime monitoring: differential monitor of one operation in several languages, offline checker '
             'that matches each message with the catalogue')
MANDATORY = ['catalogue entries', 'op:verify', 'op:receipt', 'op:key store', 'op:state', 'op:dep', 'op:errors',
             'op:single', 'errors', 'results', 'translated', 'script:verify.py', 'script:verify_receipt.py',
             'script:receipt.py', 'script:key_store.py', 'script:verification_state.py', 'script:split.py',
             'script translated']


class Quiet(object):
    """A context that only provides randomness."""

    def __init__(self, ctx, seed):
        self.ctx, self.rng, self.index, self.tier, self.thorough = ctx, random.Random(seed), 1, ctx.tier, ctx.thorough

    def count(self, *a, **k):
        pass

    distinct = sample = count

    def check(self, cond, msg, **d):
        pass


# ----------------------------------------- operations: functions that return a list of outcomes

def op_verify(q):
    rng = q.rng
    defect = rng.choice(DEFECTS)
    ks, devs, sim, certful, groups, at = c08.build(rng, defect)
    mode = modes.pick_mode(rng, len(sim.metas), real=.02)
    state = rng.random() < .5
    key = rng.choice([None, sim.key])

    def go():
        st = modes.verification_state.ClusterState() if state else None
        out = modes.run(mode, gen.make_dep(groups), modes.real_ks(ks), key, st, None, 'unique', random.Random(5))
        return [out[:1] + (modes.view(out[1]),) if out[0] == 'ok' and out[1] is not None else out]
    return go


def op_receipt(q):
    rng = q.rng
    ks, devs, sim, closed, certful = common.setup(rng, 1)
    texts = []
    R = modes.receipt.Receipt
    f = {'jws': R.fromJWSString, 'qr': R.fromBasicCode, 'ocr': R.fromOCRCode, 'csv': R.fromCSV}
    for _ in range(6):
        r = sim.legal(devs).r
        fmt = rng.choice(sorted(f))
        t = c27.forms(r)[fmt]
        if rng.random() < .6:
            sep = {'jws': '.', 'csv': ';'}.get(fmt, '_')
            x = t.split(sep)
            i = rng.randrange(len(x))
            x[i] = rng.choice([c17.poke(rng, x[i]), '', 'x', x[i] + '=', '1', u'\xe4', '{}', '{0}', '%s', 'R7-AT1'])
            t = sep.join(x)
        elif rng.random() < .6 and fmt == 'jws':
            p = r.payload.split('_')
            i = rng.randrange(len(p))
            p[i] = rng.choice([c17.poke(rng, p[i]), '', 'x', '1', u'\xe4', '{}', '{0}', '%s', 'R1-7'])
            t = '.'.join([ref.b64u(ref.HEADER.encode()), ref.b64u('_'.join(p).encode('utf-8', 'surrogatepass')),
                          r.sig])
        else:
            t = c17.poke(rng, t)
        texts.append((fmt, t))

    def go():
        outs = []
        for fmt, t in texts:
            o = modes.outcome(lambda: f[fmt](t))
            outs.append(('ok', o[1][0].toBasicCode(o[1][1])) if o[0] == 'ok' else o)
        return outs
    return go


def op_single(q):
    rng = q.rng
    ks, devs, sim, closed, certful = common.setup(rng, 2)
    texts = []
    rv = modes.verify_receipt.ReceiptVerifier.fromKeyStore(modes.real_ks(ks))
    for _ in range(3):
        d = rng.choice(['none', 'signature', 'outage', 'null outage', 'unknown'])
        ov = {'signature': {'priv': gen.key('p256', 97).priv}, 'unknown': {'serial': rng.choice(
            ['7%x' % rng.getrandbits(40), 'U:ATU12345678-K9'])}}.get(d, {})
        m = sim.emit(rng.choice(devs), 'standard', 0 if d == 'null outage' else sim.amount(),
                     'outage' in d, null=d == 'null outage', **ov)
        texts.append(rng.choice([m.jws, m.jws, m.jws[:-1]]))
    return lambda: [o[:1] if o[0] == 'ok' else o for o in (
        modes.outcome(lambda: rv.verifyJWS(t)) for t in texts)]


def op_keystore(q):
    used = set()
    es = {}
    for _ in range(q.rng.choice([1, 1, 2, 3])):
        e = c19.entry(q.rng, q, used)
        es[e.rid] = e
    es = list(es.values())
    cont = {'certificateOrPublicKeyMap': {e.rid: e.json() for e in es}}
    j = c19.defect(q, cont, es)[0] if q.rng.random() < .85 else c19.shaped(q.rng)

    def go():
        o = modes.outcome(lambda: modes.key_store.KeyStore.readStoreFromJson(j))
        return [('ok', sorted(o[1].getKeyIds())) if o[0] == 'ok' else o]
    return go


def op_state(q):
    rng = q.rng
    j = c11.base(rng)
    es = [x[2] for x in c11.edits(j)]
    es = [j] + [rng.choice(es) for _ in range(6)]

    def go():
        outs = []
        for e in es:
            o = modes.outcome(lambda: modes.verification_state.ClusterState.readStateFromJson(e))
            outs.append(('ok', modes.view(o[1])) if o[0] == 'ok' else o)
        return outs
    return go


def op_dep(q):
    rng = q.rng
    x = c18.build(q)
    try:
        data = json.dumps(x.dep).encode('utf-8') if x.data is None else x.data
    except ValueError:
        return list
    try:
        j = json.loads(data.decode('utf-8-sig'))
    except (ValueError, RecursionError):
        j = None

    def go():
        outs = []
        for name in ('file', 'full', 'certless'):
            m = modes.Mode(parser=name, how='bytes', nparts=1)

            def read():
                p = modes.make_parser(m, None, random.Random(1), data)
                return [[[r if isinstance(r, str) else repr(r) for r in g[0]] for g in c] for c in p.parse(3)]
            outs.append(modes.outcome(read))
        if j is not None:
            o = modes.outcome(lambda: modes.verify.verifyDEP(j, modes.real_ks(x.h.ks), None))
            outs.append(('ok',) if o[0] == 'ok' else o)
        return outs
    return go


def op_errors(q):
    made = []
    for n, c in sorted(c24.classes().items()):
        ps = list(inspect.signature(c.__init__).parameters.values())[1:]
        if any(p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD) for p in ps):
            args = ['text']
        else:
            args = [p.default if p.default is not p.empty and q.rng.random() < .4 else
                    q.rng.choice(['r1', u'\xe4{}', '{0}', '%s', 'a b', '7', 'x.y']) for p in ps]
        made.append((n, c, args))

    def go():
        es = [(n, c(*args)) for n, c, args in made]
        return [('err', n, getattr(e, 'receipt', None), str(e), e) for n, e in es]
    return go


ERROR = r'^([\w.]*(?:Exception|Error)): '
OPS = {'verify': op_verify, 'receipt': op_receipt, 'single': op_single, 'key store': op_keystore,
       'state': op_state, 'dep': op_dep, 'errors': op_errors}
DEFECTS = ['none', 'counter', 'signature', 'chain', 'duplicate', 'date', 'restore', 'register', 'malformed',
           'initial', 'outageinit', 'untrusted', 'serial', 'extrareceipt']


def catalogues(ctx):
    """The same fields in originals and translations."""
    ctx.check(lang.po_files(), 'no translation found')
    for l, cat in sorted(lang.CATALOGS.items()):
        ctx.check(len(cat) > 100, 'the translations can not be read', language=l)
        for k, v in sorted(cat.items()):
            ctx.count('catalogue entries')
            a, b = ([(m.group(0)[0], m.group(1) or str(i)) for i, m in enumerate(lang.FIELD.finditer(t))]
                    for t in (k, v))
            # named and numbered fields may change places
            same = sorted(a) == sorted(b)
            ctx.check(same, 'a translation has other fields', original=k, translation=v)
            if '{' in k:
                n = len(a)
                w = ['<%d>' % i for i in range(n)]
                names = {x[1]: '<%s>' % x[1] for x in a if not x[1].isdigit()}
                t = []
                for s in (k, v):
                    try:
                        t.append(s.format(*[0 if re.search(r'\{[^{}]*:', s) else x for x in w], **names))
                    except (ValueError, LookupError) as e:
                        ctx.fail('a text can not be filled in', text=s, error=repr(e))
            elif '%' in k:
                for s in (k, v):
                    try:
                        s % tuple(5 if f.group(0) == '%d' else 'x' for f in lang.FIELD.finditer(s))
                    except (ValueError, TypeError) as e:
                        ctx.fail('a text can not be filled in', text=s, error=repr(e))


def message(ctx, l, en, other, **info):
    if len(en) > 1500 or len(other) > 3000:
        return
    ctx.check(lang.corresponds(l, en, other), 'the message is not the translation of the original one',
              original=en, message=other, language=l, **info)
    if en != other:
        ctx.count('translated')


def compare(ctx, name, seed):
    res = {}
    go = OPS[name](Quiet(ctx, seed))
    for l in lang.LANGS:
        lang.use(l)
        try:
            res[l] = go()
        finally:
            lang.use('en')
    want = res['en']
    for l in lang.LANGS[1:]:
        got = res[l]
        info = dict(operation=name, language=l)
        ctx.check(len(got) == len(want), 'another number of outcomes', **info)
        for a, b in zip(want, got):
            ctx.check(a[:2] == b[:2] and (a[2:3] == b[2:3] or a[0] == 'err' and a[2] and b[2] and
                                          lang.corresponds(l, a[2], b[2])), 'another outcome in another language', want=a[:4], got=b[:4], **info)
            if a[0] == 'err':
                message(ctx, l, a[3], b[3], operation=name, error=a[1])
    for a in want:
        ctx.count('errors' if a[0] == 'err' else 'results')
        if a[0] == 'err':
            ctx.distinct(name, a[1], re.sub(r'"[^"]*"', '', a[3])[:80])
    ctx.sample(operation=name, outcomes=[a[1:4] if a[0] == 'err' else a[:1] for a in want[:3]])


# ------------------------------------------------------------------------------- scripts

def scripts(ctx):
    rng = ctx.rng
    l = rng.choice(sorted(lang.CATALOGS))
    dirs = []
    for i in (0, 1):
        d = os.path.join(ctx.scratch() if i == 0 else os.path.dirname(dirs[0]), 'cwd%d' % i)
        os.makedirs(d)
        dirs.append(d)
    lang.write_mo(lang.CATALOGS[l], os.path.join(dirs[1], 'lang', l, 'LC_MESSAGES', 'rktool.mo'))
    ks, devs, sim, certful, groups, at = c08.build(rng, rng.choice(DEFECTS))
    key = rng.choice([sim.key, None])
    files = {'ks.json': json.dumps(c27.store_json(rng, ks, key)).encode(),
             'dep.json': gen.layout(rng, gen.make_dep(groups)),
             'state.json': c27.state_text(rng, ref.Cluster('unique'))}
    if rng.random() < .3:
        n = rng.choice(sorted(files))
        b = files[n] if isinstance(files[n], bytes) else files[n].encode('utf-8')
        files[n] = rng.choice([b'{}', b'[]', b[:-2], b.replace(b'"id"', b'"ID"'), b'{"Belege-Gruppe": []}',
                               b.replace(b'"Belege-kompakt"', b'"Belege"'), b.replace(b'MI', b'M!'), b'5'])
    data = b''
    names = ['verify.py', 'verify_receipt.py', 'receipt.py', 'key_store.py', 'verify.py',
             'verification_state.py', 'split.py', 'merge.py', 'convert.py', 'cert_extract.py']
    name = names[ctx.index // 5 % len(names)]
    fmt = rng.choice(['jws', 'qr', 'ocr'])
    recs = [c27.forms(m.r)[fmt] if m.r.cls == ref.OK else m.jws for m in sim.metas]
    if rng.random() < .5:
        i = rng.randrange(len(recs))
        recs[i] = recs[i][:-3]
    lines = ''.join(t + '\n' for t in recs).encode('utf-8')
    if name == 'verify.py':
        args = rng.choice([[], ['state'], ['par', '2'], ['state', 'par', '1', 'chunksize', '2']])
        if args[:1] == ['state']:
            data = files['state.json'] if rng.random() < .7 else b''
        args = args + ['json', 'ks.json', 'dep.json']
    elif name == 'verify_receipt.py':
        args, data = [rng.choice([fmt, fmt, fmt, 'nonsense']), 'ks.json'], lines
    elif name == 'receipt.py':
        args, data = [fmt, rng.choice(['qr', 'csv', 'jws', 'x'])], lines
    elif name == 'key_store.py':
        files['crt'] = b'-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n'
        args = rng.choice([['ks.json', 'list'], ['ks.json', 'create'], ['ks.json', 'add', 'crt'],
                           ['ks.json', 'del', 'nothing'], ['ks.json'], ['ks.json', 'delSymmetricKey']])
    elif name == 'verification_state.py':
        args = ['state.json'] + rng.choice([['show'], ['create'], ['addCashRegister'], ['resetCashRegister', '3'],
                                            ['deleteCashRegister', '0'], ['updateCashRegister', '0', 'dep.json'],
                                            ['setLastReceiptJWS', '1', 'x']])
    elif name == 'split.py':
        args, data = [str(rng.choice([0, 1, 2])), 'out'], files['dep.json']
    elif name == 'merge.py':
        args = ['dep.json', 'dep.json']
    elif name == 'convert.py':
        args, data = ['json2csv'], files['dep.json']
    else:
        args, data = ['certs'], files['dep.json']
    out = []
    for i, d in enumerate(dirs):
        for n, b in files.items():
            with open(os.path.join(d, n), 'wb') as f:
                f.write(b if isinstance(b, bytes) else b.encode('utf-8'))
        env = dict.fromkeys(['LANGUAGE', 'LC_ALL', 'LC_MESSAGES', 'LANG'])
        if i:
            env.update(rng.choice([{'LANGUAGE': l}, {'LANG': l + '_AT.UTF-8'}, {'LANGUAGE': 'fr:' + l}]))
        r = common.script(name, args, d, data if isinstance(data, bytes) else data.encode('utf-8'), env)
        tree = {}
        for p, _, fs in os.walk(d):
            if os.path.join(d, 'lang') not in (p, p[:len(d) + 5]):
                for f in fs:
                    with open(os.path.join(p, f), 'rb') as fh:
                        tree[os.path.relpath(os.path.join(p, f), d)] = fh.read()
        out.append((r, tree))
    (a, ta), (b, tb) = out
    info = dict(script=name, args=args, language=l, stdout=[x[1].decode('utf-8', 'replace')[:1500] for x in (a, b)],
                stderr=[x[2][-1500:] for x in (a, b)])
    ctx.check(a[0] == b[0], 'another exit status in another language', status_en=a[0], status_other=b[0], **info)
    ctx.check(ta == tb, 'other files in another language', files=[sorted(ta), sorted(tb)], **info)
    ctx.count('script:' + name)

    def items(x):
        # a message may have several lines
        out, within = [], False
        for t in x.splitlines():
            if t.startswith(('During handling', 'The above exception', 'Traceback')):
                within = False
            if within:
                out[-1] += '\n' + t
            else:
                out.append(t)
                within = re.match(ERROR, t) is not None
        return out

    def texts(what, x, y):
        x, y = items(x), items(y)
        ctx.check(len(x) == len(y), 'other output in another language', **info)
        for s, t in zip(x, y):
            if s != t:
                ctx.count('script translated')
                if s.startswith('  '):
                    continue        # sources and places in tracebacks
                m = re.match(ERROR, s)
                p = m.group(0) if m else ''
                x, y = s[len(p):], t[len(p):]
                a, b = x.split(': ', 1), y.split(': ', 1)
                ctx.check(t.startswith(p) and (lang.same(l, x, y, 0) or len(a) == len(b) == 2 and all(
                    lang.same(l, u.strip(), v.strip(), 0) for u, v in zip(a, b))),
                          'output that is not the translation of the original one', line_en=s, line_other=t, **info)
    texts('stdout', a[1].decode('utf-8'), b[1].decode('utf-8'))
    texts('stderr', a[2], b[2])
    ctx.distinct('script', name, args, a[0], a[2][-200:])
    ctx.sample(script=name, args=args, rc=a[0])


def case(ctx):
    if ctx.index == 0:
        catalogues(ctx)
    if ctx.index % 5 == 2:
        scripts(ctx)
        return
    name = ctx.rng.choice(sorted(OPS))
    ctx.count('op:' + name)
    compare(ctx, name, '%s:%s' % (ctx.seed, ctx.index))
