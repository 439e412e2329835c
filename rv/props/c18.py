"""C18: hostile DEP files end in documented errors."""
import base64
import copy
import json
import os
import subprocess
import sys

from cryptography import x509
from cryptography.hazmat.primitives import serialization

from rv import core, gen, modes, ref
from rv.props import common

LEVEL = 'exploration'
QUICK, THOROUGH = 7800, 90000
RULE = ('a case is a valid DEP changed in its structure, types, certificates, receipts or bytes '
        '(1 to 3 changes), parsed with every parser and verified in several modes; only documented '
        'errors or results may come out, structurally broken DEPs must be refused and no receipt '
        'may be delivered with the certificate of another group; distinct by changes and parser')
STRUCT = ['root', 'nogroups', 'groups type', 'group type', 'missing', 'cert type', 'chain type',
          'chain item', 'recs type', 'rec type', 'cert malformed', 'chain malformed', 'norecs',
          'duplicate', 'dupgroups', 'truncated', 'root dup']
BYTES = ['flip', 'insert', 'delete', 'bom', 'utf16', 'garbage', 'numbers', 'deep', 'append',
         'empty', 'surrogate', 'latin1', 'invalid json']
RECS = ['receipt', 'receipt text', 'cert bytes', 'swapped certs', 'extra']
MANDATORY = ['change:' + c for c in STRUCT + BYTES + RECS] + [
    'refused', 'result', 'delivered', 'parser:dict', 'parser:full', 'parser:file',
    'parser:stream', 'parser:certless', 'parser:fromfd', 'pool:sim', 'pool:real', 'entry:dep',
    'huge integer', 'delivered from broken']
WRONG = [None, True, False, 0, 1, -1.5, '', 'x', [], {}, [[]], ['x'], {'x': 'y'}, {'item': 'x'}, {'item': ['x']}, [{'item': 'x'}],
         [None], 10**30]


class Obj(list):
    """JSON object as a list of pairs, may have duplicate keys."""


def to_obj(v):
    if isinstance(v, dict):
        return Obj([k, to_obj(x)] for k, x in v.items())
    if isinstance(v, list):
        return [to_obj(x) for x in v]
    return v


def text_of(v, rng=None):
    if isinstance(v, Obj):
        return '{' + ','.join(json.dumps(k) + ':' + text_of(x) for k, x in v) + '}'
    if isinstance(v, list):
        return '[' + ','.join(text_of(x) for x in v) + ']'
    return json.dumps(v)


def wrong(rng, good):
    """A value of another type than good ('str', 'list', 'dict')."""
    t = {'str': str, 'list': list, 'dict': dict}[good]
    return copy.deepcopy(rng.choice([w for w in WRONG if not isinstance(w, t)]))


def bad_cert(rng, c):
    der = c.der if c is not None else gen.Cert(gen.key('p256', 1), gen.key('p256', 1), 5).der
    b = base64.b64encode(der).decode()
    k = rng.randrange(9)
    if k == 8:
        return rng.choice([' ', '  ', '\n', '\t', '\r\n', u'\xa0', u'\u2003', '\0'])
    if k == 0:
        return rng.choice(['x', ' ', 'AAAA', '!!!!', '-----', 'null', u'\u00e4', '\0', '=', '===='])
    if k == 1:
        return base64.b64encode(bytes(rng.randrange(256) for _ in range(rng.randrange(1, 300)))).decode()
    if k == 2:
        return base64.b64encode(der[:rng.randrange(1, len(der))]).decode()
    if k == 3:
        return base64.b64encode(b'\x31' + der[1:]).decode()
    if k == 4:
        i = rng.randrange(len(b))
        return b[:i] + rng.choice(u'\u00e4*~\ud800') + b[i + 1:]
    if k == 5:
        return base64.b64encode(der[4:]).decode()
    if k == 6:
        return base64.b64encode(b'\x30\x00').decode()
    return b[:len(b) // 2 // 4 * 4]


def hostile_receipt(rng, recs):
    r = (rng.choice(recs) if recs else '') or 'a.b.c'
    k = rng.randrange(9)
    if k == 0:
        return rng.choice(['', '.', '..', 'a.b.c', u'\u00e4', '\0', 'x' * 5000, '\ud800', '\udc00.\ud800.x',
                           '....', '=.=.=', 'null'])
    if k == 1:
        i = rng.randrange(len(r))
        return r[:i] + rng.choice(u'\u00e4=+/. \n\0\ud8ff') + r[i + 1:]
    if k == 2:
        return r[:rng.randrange(len(r))]
    if k == 3:
        return r.upper()
    h, p, s = (r.split('.') + ['', ''])[:3]
    try:
        t = ref.unb64u(p).decode('utf-8')
    except Exception:
        t = p
    f = t.split('_')
    if k == 4 and len(f) > 3:
        f[rng.randrange(len(f))] = rng.choice(['', '\0', 'x' * 2000, u'\U0001f389', '9' * 400 + ',00', 'NaN',
                                               '-', 'U:', 'AT0', '1e999,00', '0' * 5000, '_', 'f' * 5000,
                                               '9' * 5000])
        return h + '.' + ref.b64u('_'.join(f).encode('utf-8')) + '.' + s
    if k == 5:
        return h + '.' + ref.b64u(bytes(rng.randrange(256) for _ in range(30))) + '.' + s
    if k == 6:
        return h + '.' + p + '.' + rng.choice(['', 'A', 'AA', ref.BROKEN64, s + 'AAAA', s[:-4], s[::-1]])
    if k == 7:
        return ref.b64u(rng.choice([b'{}', b'\xff', b'', b'{"alg":"none"}'])) + '.' + p + '.' + s
    return rng.choice([r + '.x', '.' + r, r + '\n', ' ' + r])


class Hostile(object):
    pass


def build(ctx):
    rng = ctx.rng
    h = gen.history(rng, rng.randrange(1, 9), certful=rng.random() < .8)
    groups = h.ref_groups()
    dep = gen.make_dep(groups)
    x = Hostile()
    x.h, x.dep, x.data = h, dep, None
    x.must = False        # has to be refused
    x.stream_only = False  # only parsers that see the text
    x.changes = []
    # where each receipt belongs
    x.kind = None
    n = rng.choice([1, 1, 1, 2, 3])
    family = rng.choice(['struct', 'struct', 'struct', 'recs', 'bytes', 'bytes'])
    gs = dep['Belege-Gruppe']
    if family == 'recs':
        for _ in range(n):
            recs_change(rng, x, gs)
    elif family == 'struct':
        for _ in range(n):
            if not struct_change(rng, x):
                break
    if x.data is None and family != 'bytes' and rng.random() < .2 and not x.stream_only:
        x.data = text_of(to_obj(x.dep)).encode('utf-8')
    if family == 'bytes':
        if rng.random() < .3:
            recs_change(rng, x, gs)
        x.data = gen.layout(rng, x.dep) if not any('\\ud' in json.dumps(g) for g in gs) else json.dumps(x.dep).encode()
        for _ in range(n):
            bytes_change(rng, x)
    return x


def recs_change(rng, x, gs):
    g = rng.choice(gs)
    c = rng.choice(RECS)
    recs = g['Belege-kompakt']
    x.changes.append(c)
    if c == 'receipt' and recs:
        i = rng.randrange(len(recs))
        recs[i] = hostile_receipt(rng, recs)
    elif c == 'receipt text':
        recs.insert(rng.randrange(len(recs) + 1), hostile_receipt(rng, recs))
    elif c == 'cert bytes':
        der = bytearray(base64.b64decode(g['Signaturzertifikat'] or x.h.devs[0].cert.b64
                                         if x.h.devs[0].cert else ''))
        for _ in range(rng.choice([1, 1, 3])):
            if der:
                der[rng.randrange(len(der))] = rng.randrange(256)
        b = base64.b64encode(bytes(der)).decode()
        if rng.random() < .5:
            g['Signaturzertifikat'] = b
        else:
            g['Zertifizierungsstellen'] = g['Zertifizierungsstellen'] + [b]
    elif c == 'swapped certs':
        o = rng.choice(gs)
        k = rng.choice(['Signaturzertifikat', 'Zertifizierungsstellen'])
        g[k], o[k] = o[k], g[k]
    elif c == 'extra':
        d = rng.choice([x.dep, g])
        d[rng.choice(['', ' ', 'x' * 1000, 'Belege-Gruppe ', 'belege-gruppe', u'\u00e4', 'item',
                      'Belege-kompakt2', '\0']) or 'e'] = gen.junk(rng)


def struct_change(rng, x):
    """Returns False if nothing more can be changed."""
    c = rng.choice(STRUCT)
    dep = x.dep
    gs = dep['Belege-Gruppe']
    g = rng.choice(gs)
    x.changes.append(c)
    x.must = True
    if c == 'root':
        x.dep = rng.choice([None, [], [dep], 'x', 1, True, {}, [[]], 1.5, ''])
        return False
    if c == 'nogroups':
        del dep['Belege-Gruppe']
        if rng.random() < .5:
            dep[rng.choice(['belege-gruppe', 'Belege-gruppe', 'Belege-Gruppe ', 'Belege'])] = gs
        return False
    if c == 'groups type':
        dep['Belege-Gruppe'] = rng.choice([None, True, 1, 'x', '', {}, g, {'item': g}, [], {'0': g}])
        return False
    if c == 'group type':
        gs.insert(rng.randrange(len(gs) + 1), wrong(rng, 'dict'))
        return False
    if c == 'missing':
        k = rng.choice(['Belege-kompakt', 'Signaturzertifikat', 'Zertifizierungsstellen'])
        v = g.pop(k)
        if rng.random() < .3:
            g[k.lower()] = v
        return False
    if c == 'cert type':
        g['Signaturzertifikat'] = wrong(rng, 'str')
    elif c == 'chain type':
        g['Zertifizierungsstellen'] = wrong(rng, 'list') if rng.random() < .6 else {'item': rng.choice(['x', [], ['x'], {}, None])}
        return False
    elif c == 'chain item':
        g['Zertifizierungsstellen'].insert(0, wrong(rng, 'str'))
    elif c == 'recs type':
        g['Belege-kompakt'] = rng.choice([None, True, 1, 'x', {}, {'a': 'b'}, 'a.b.c',
                                          {'0': 'a.b.c'}, 1.5])
        return False
    elif c == 'rec type':
        r = g['Belege-kompakt']
        r.insert(rng.randrange(len(r) + 1), wrong(rng, 'str'))
    elif c == 'cert malformed':
        g['Signaturzertifikat'] = bad_cert(rng, x.h.devs[0].cert)
    elif c == 'chain malformed':
        z = g['Zertifizierungsstellen']
        z.insert(rng.randrange(len(z) + 1), rng.choice(['', bad_cert(rng, x.h.devs[0].cert)]))
    elif c == 'norecs':
        for y in gs:
            y['Belege-kompakt'] = []
    elif c == 'duplicate':
        o = to_obj(dep)
        og = [v for k, v in o if k == 'Belege-Gruppe'][0]
        y = rng.choice(og)
        p = list(rng.choice(y))
        if rng.random() < .3:
            p[1] = rng.choice(['', [], None]) if rng.random() < .5 else rng.choice(
                [v for k, v in rng.choice(og) if k == p[0]])
        y.insert(rng.randrange(len(y) + 1), p)
        x.stream_only = True
        x.data = text_of(o).encode('utf-8')
        return False
    elif c == 'dupgroups':
        o = to_obj(dep)
        o.append(['Belege-Gruppe', rng.choice([o[0][1], [], None, 'x'])])
        x.stream_only = True
        x.data = text_of(o).encode('utf-8')
        return False
    elif c == 'root dup':
        t = text_of(to_obj(dep))
        x.data = (t + rng.choice(['', ' ', '\n', ',']) + rng.choice([t, '{}', '[]', '1', '"x"'])).encode('utf-8')
        x.stream_only = True
        x.must = False
        return False
    elif c == 'truncated':
        t = json.dumps(dep).encode('utf-8')
        x.data = t[:rng.randrange(len(t))]
        return False
    return True


def bytes_change(rng, x):
    c = rng.choice(BYTES)
    b = x.data
    x.changes.append(c)
    i = rng.randrange(len(b) + 1)
    if c == 'flip' and b:
        q = bytearray(b)
        for _ in range(rng.choice([1, 1, 5])):
            q[rng.randrange(len(q))] ^= 1 << rng.randrange(8)
        b = bytes(q)
    elif c == 'insert':
        b = b[:i] + rng.choice([b'\0', b'\xff', b'{', b'}', b'[', b']', b'"', b',', b':', b'\\', b'\xc3',
                                b'\xed\xa0\x80', b'/*x*/', b'//\n', b"'", b'\n', b'\\u', b'\xf5\x80\x80\x80']) + b[i:]
    elif c == 'delete':
        b = b[:i] + b[i + rng.choice([1, 1, 2, 50]):]
    elif c == 'bom':
        b = rng.choice([b'\xef\xbb\xbf', b'\xef\xbb', b'\xff\xfe', b'\xfe\xff', b'\xef\xbb\xbf\xef\xbb\xbf']) + b
    elif c == 'utf16':
        b = b.decode('utf-8', 'ignore').encode(rng.choice(['utf-16', 'utf-16-le', 'utf-16-be', 'utf-32']))
    elif c == 'garbage':
        b = bytes(rng.randrange(256) for _ in range(rng.choice([1, 3, 10, 1000])))
    elif c == 'numbers':
        v = rng.choice([b'1e999', b'-1e999', b'1e99999999999999999999', b'1' * 400, b'-', b'01', b'1.',
                        b'.5', b'1e', b'NaN', b'Infinity', b'-Infinity', b'0x10', b'1_000', b'+1',
                        b'9' * 4200, b'0.' + b'1' * 5000, b'1E+2', b'-0', b'1e-99999999999999999999'])
        b = b'{"n":' + v + b',' + b.lstrip()[1:] if rng.random() < .7 else v
    elif c == 'deep':
        n = rng.choice([10, 100, 900, 1500])
        v = rng.choice([b'[' * n + b']' * n, b'{"a":' * n + b'1' + b'}' * n])
        b = b'{"n":' + v + b',' + b.lstrip()[1:] if rng.random() < .7 else v
    elif c == 'append':
        b = b + rng.choice([b'x', b'{}', b'\0', b',', b']', b'}', b'\xef\xbb\xbf', b'\n\n\n', b'\x1a'])
    elif c == 'empty':
        b = rng.choice([b'', b' ', b'\n', b'\xef\xbb\xbf', b'{', b'[', b'"', b'null', b'{}', b'[]',
                        b'{"Belege-Gruppe":', b'{"Belege-Gruppe":[{', b'{"Belege-Gruppe":[]}'])
    elif c == 'surrogate':
        b = b.replace(b'":', b'\\ud800":', 1) if rng.random() < .5 else b.replace(b'"', b'"\\udfff', 5)
    elif c == 'latin1':
        b = b'{"k":"\xe4\xf6",' + b.lstrip()[1:]
    elif c == 'invalid json':
        b = rng.choice([b.replace(b'"', b"'"), b.replace(b',', b',,', 1), b.replace(b':', b'=', 1),
                        b.replace(b'}', b',}', 1), b.replace(b']', b',]', 1), b[::-1]])
    x.data = b


ERR = modes.utils.RKSVException


def has_dotted(data):
    return False


def owners(dep):
    """receipt text -> set of (cert, chain) of the groups it is in, for sane groups."""
    out = {}
    try:
        for g in dep['Belege-Gruppe']:
            for r in g['Belege-kompakt']:
                if isinstance(r, str):
                    out.setdefault(r, []).append((g.get('Signaturzertifikat'),
                                                  g.get('Zertifizierungsstellen')))
    except (KeyError, TypeError, AttributeError):
        pass
    return out


def delivered(ctx, x, parser, name, chunk, dep):
    """Parses and looks at the labels of what is delivered."""
    own = owners(dep)
    log = []

    def go():
        for ch in parser.parse(chunk):
            for recs, cert, chain in ch:
                for r in recs:
                    log.append((r, cert, chain))
    out = modes.outcome(go)
    for r, cert, chain in log:
        r = r.decode('utf-8')
        if r not in own or 'duplicate' in x.changes:
            continue
        lab = None if cert is None else b64cert(cert)
        if lab is None:
            continue
        ctx.check(any(lab == norm(c) for c, ch in own[r]),
                  'receipt delivered with the certificate of another group', receipt=r,
                  changes=x.changes, parser=name, chunk=chunk, dep=dep, cert=lab)
        labs = [b64cert(c) for c in chain]
        if labs:
            ctx.check(any(isinstance(ch, list) and labs == [norm(q) for q in ch]
                          for c, ch in own[r]),
                      'receipt delivered with the chain of another group', receipt=r,
                      changes=x.changes, parser=name, chunk=chunk, dep=dep)
        ctx.count('delivered from broken' if x.must else 'delivered')
    return out, len(log)


def b64cert(c):
    return base64.b64encode(c.public_bytes(serialization.Encoding.DER)).decode()


def norm(c):
    """The DER that OpenSSL makes of a certificate text."""
    if not isinstance(c, str):
        return None
    try:
        return b64cert(x509.load_der_x509_certificate(base64.b64decode(c), gen.BE))
    except Exception:
        return None


def reorder(rng, v):
    """The elements of all objects in another order."""
    if isinstance(v, dict):
        ks = list(v)
        rng.shuffle(ks)
        return {k: reorder(rng, v[k]) for k in ks}
    if type(v) is list:
        return [reorder(rng, y) for y in v]
    return v


def case(ctx):
    if ctx.index == 0:
        huge_integer(ctx)
    rng = ctx.rng
    x = build(ctx)
    ks = modes.real_ks(x.h.ks)
    key = rng.choice([x.h.key, None])
    data = x.data
    dictable = data is None
    if data is None:
        if rng.random() < .4:
            x.dep = reorder(rng, x.dep)
        try:
            data = json.dumps(x.dep).encode('utf-8')
        except ValueError:
            return
    try:
        src = json.loads(data.decode('utf-8-sig')) if not x.stream_only else x.dep
    except (ValueError, RecursionError):
        src = None
    for c in set(x.changes):
        ctx.count('change:' + c)
    ctx.distinct(sorted(x.changes), len(data), rng.random() if x.data is not None else None)
    names = ['file', 'stream', 'fromfd', 'certless', 'full'] + (['dict'] if dictable else [])
    for name in rng.sample(names, 3):
        m = modes.Mode(parser=name, how='stream' if name == 'stream' else
                       rng.choice(['bytes', 'bytes', 'text', 'short']), nparts=rng.choice([1, 1, 2, 3]))
        chunk = rng.choice([0, 1, 2, 5, 100])
        if name == 'dict':
            p = modes.depparser.DictDEPParser(copy.deepcopy(x.dep), m.nparts)
        else:
            o = modes.outcome(lambda: modes.make_parser(m, None, rng, data))
            if o[0] == 'err':
                ctx.count('refused')
                continue
            p = o[1]
        out, n = delivered(ctx, x, p, name, chunk, src if src is not None else
                           {} if set(x.changes) & set(BYTES) else x.dep)
        ctx.count('parser:' + name)
        must = x.must and (not x.stream_only or name not in ('full', 'dict'))
        if must:
            ctx.check(out[0] == 'err', 'broken DEP parsed without an error', changes=x.changes,
                      parser=name, chunk=chunk, dep=data.decode('utf-8', 'replace'))
            ctx.check(out[1] not in ('RKSVException',), 'vague error')
        if name == 'certless' and not must and out[0] == 'ok':
            ctx.check(n > 0, 'a DEP without receipts was parsed')
    for _ in range(2):
        m = modes.pick_mode(rng, 5, real=.03)
        if m.entry == 'dep' or m.parser == 'dict':
            if not dictable:
                m = modes.Mode(entry='parsed', parser=rng.choice(['file', 'full', 'stream']),
                               chunk=rng.choice([0, 1, 3]), nprocs=rng.choice([1, 2]),
                               pool=rng.choice([None, 'sim']))
                m.d['how'] = 'stream' if m.parser == 'stream' else 'bytes'
        if m.parser in ('dict', 'full') and m.chunk == 0 and m.nparts is None:
            m.d['nparts'] = 1
        try:
            out = modes.run(m, copy.deepcopy(x.dep) if dictable else None, ks, key, None, None,
                            'unique', rng, data)
        except RecursionError:
            raise
        must = x.must and (not x.stream_only or m.parser in ('file', 'stream', 'fromfd'))
        ctx.count('entry:%s' % m.entry)
        ctx.count('pool:%s' % m.pool)
        ctx.count('refused' if out[0] == 'err' else 'result')
        if out[0] == 'err':
            ctx.count('error:' + out[1])
            str(out[4])
            repr(out[4])
        if must:
            ctx.check(out[0] == 'err', 'broken DEP accepted', changes=x.changes, mode=repr(m),
                      dep=data.decode('utf-8', 'replace'))
    ctx.sample(changes=x.changes, size=len(data))


HUGE = '''
import sys, io
sys.path.insert(0, sys.argv[1])
from librksv import gettext_helper
gettext_helper.install()
from librksv import depparser, utils
try:
    for c in depparser.FileDEPParser(io.BytesIO(open(sys.argv[2], 'rb').read())).parse(1):
        pass
    print('result')
except utils.RKSVException as e:
    print('documented')
'''


def huge_integer(ctx):
    """An integer with very many digits in an element that is ignored."""
    d = ctx.scratch()
    h = gen.history(ctx.rng, 3)
    t = json.dumps(h.dep())
    p = os.path.join(d, 'dep.json')
    with open(p, 'w') as f:
        f.write('{"n":' + '7' * 6000 + ',' + t[1:])
    r = subprocess.run([sys.executable, '-c', HUGE, core.REPO, p], stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=60)
    ctx.count('huge integer')
    if r.returncode == 0 and r.stdout.strip() in (b'result', b'documented'):
        return
    if r.returncode == -11:
        ctx.known_finding('C18-huge-integer', 'segmentation fault in ijson')
        return
    ctx.fail('huge integer: exit %d' % r.returncode, stderr=r.stderr.decode('utf-8', 'replace')[-800:])
