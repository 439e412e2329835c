"""C27: the command line tools report what the library decides."""
import base64
import configparser
import contextlib
import copy
import io
import json
import os
import re
import runpy
import sys
import traceback

from cryptography import x509
from cryptography.hazmat.backends import default_backend

from rv import core, gen, modes, ref
from rv.props import c08, c19, common

LEVEL = 'exploration'
LANGUAGE = 'en'     # what the scripts print is read here (other languages: C29)
QUICK, THOROUGH = 1600, 30000
RULE = ('a case runs one or several scripts (in this process with own standard streams, or as a process of '
        'their own) with generated files and arguments and compares exit status, output and every file with '
        'what the reference model decides; distinct by script, arguments and outcome')
STATE_OPS = ['addCashRegister', 'deleteCashRegister', 'copyCashRegister', 'updateCashRegister',
             'setLastReceiptJWS', 'setLastTurnoverCounter', 'setChainNextTo', 'toggleNeedRestoreReceipt',
             'setStartReceiptJWS', 'readUsedReceiptIds', 'fromArbitraryReceipt',
             'fromArbitraryStartReceipt', 'show', 'create', 'resetCashRegister']
KEY_OPS = ['create', 'list', 'add cert', 'add key', 'del', 'showSymmetricKey', 'setSymmetricKey',
           'delSymmetricKey', 'toLegacyIni', 'fromLegacyIni']
MANDATORY = ['process', 'verify accepted', 'verify refused', 'verify state', 'verify workflow', 'continue',
             'par', 'chunksize 0', 'chunksize', 'json', 'env chunksize', 'empty state', 'verify bad input',
             'verify usage', 'receipts arg', 'receipts stdin', 'receipts failing', 'receipts all good',
             'convert receipt', 'convert receipt bad', 'key refused', 'state refused',
             'extract', 'extract refused', 'usage', 'env receipt ids', 'verify sorted', 'state sorted', 'verify state sorted'] + \
    ['key:' + o for o in KEY_OPS] + ['state:' + o for o in STATE_OPS]


# ------------------------------------------------------------------ running scripts

def inside(name, args, cwd, data, env):
    """Like common.script, but in this process."""
    out, err = io.BytesIO(), io.BytesIO()
    so = io.TextIOWrapper(out, 'utf-8', newline='\n')
    se = io.TextIOWrapper(err, 'utf-8', 'backslashreplace', newline='\n')
    keep = sys.argv, sys.stdin, sys.stdout, sys.stderr, os.getcwd(), dict(os.environ), list(sys.path)
    rc = 0
    path = os.path.join(core.REPO, name)
    try:
        os.chdir(cwd)
        for k, v in (env or {}).items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
        sys.argv = [path] + [str(a) for a in args]
        sys.stdin = io.TextIOWrapper(io.BytesIO(data), 'utf-8')
        sys.stdout, sys.stderr = so, se
        try:
            runpy.run_path(path, run_name='__main__')
        except SystemExit as e:
            rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            if rc and not isinstance(e.code, int):
                print(e.code, file=sys.stderr)
        except Exception:
            rc = 1
            traceback.print_exc(file=se)
        so.flush()
        se.flush()
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = keep[:4]
        os.chdir(keep[4])
        os.environ.clear()
        os.environ.update(keep[5])
        sys.path[:] = keep[6]
    return rc, out.getvalue(), err.getvalue().decode('utf-8')


class Shell(object):
    """Runs scripts and watches the files."""

    def __init__(self, ctx):
        self.ctx, self.rng, self.d = ctx, ctx.rng, ctx.scratch()
        self.process = ctx.index % 17 == 3
        self.log = []

    def path(self, name):
        return os.path.join(self.d, name)

    def write(self, name, data):
        with open(self.path(name), 'wb') as f:
            f.write(data if isinstance(data, bytes) else data.encode('utf-8'))
        return self.path(name)

    def read(self, name):
        with open(self.path(name), 'rb') as f:
            return f.read()

    def files(self):
        return {n: self.read(n) for n in sorted(os.listdir(self.d))}

    def run(self, name, *args, data=b'', env=None, may=()):
        """may: names of the files that may change."""
        before = self.files()
        if isinstance(data, str):
            data = data.encode('utf-8')
        if self.process:
            self.ctx.count('process')
            r = common.script(name, args, self.d, data, env)
        else:
            r = inside(name, args, self.d, data, env)
        self.log.append([name] + [str(a) for a in args] + ['rc=%d' % r[0]])
        after = self.files()
        for n in sorted(set(before) | set(after)):
            if n not in may:
                self.ctx.check(before.get(n) == after.get(n), 'a file was changed', file=n,
                               before=before.get(n), after=after.get(n), log=self.log[-5:])
        return r

    def info(self, r, **k):
        k.update(log=self.log[-6:], status=r[0], stdout=r[1][:1500], stderr=r[2][-1500:])
        return k


def jtext(rng, v):
    return gen.dumps(rng, v, rng.random() < .5, rng.random() < .5)


def store_json(rng, ks, key=None):
    m = {}
    for kid in ks.d:
        kind, x = ks.d[kid][0], ks.d[kid][1]
        if kind == 'cert':
            m[kid] = {'id': kid, 'signatureDeviceType': 'CERTIFICATE', 'signatureCertificateOrPublicKey': x.b64}
        else:
            m[kid] = {'id': kid, 'signatureDeviceType': 'PUBLIC_KEY',
                      'signatureCertificateOrPublicKey': base64.b64encode(c19.spki(x)).decode()}
    j = {'certificateOrPublicKeyMap': m}
    if key is not None:
        j['base64AESKey'] = ref.b64(key)
    return j


# ------------------------------------------------------------------ verify.py

ERROR = re.compile(r'^(?:[A-Za-z_][\w]*\.)*([A-Za-z_]\w*(?:Exception|Error)): ?(.*(?:\n(?!Traceback).*)*)', re.M)


def error_of(err):
    m = list(ERROR.finditer(err))
    return (m[-1].group(1), m[-1].group(2)) if m else (None, '')


def allowed_error(err, allowed):
    name, msg = error_of(err)
    for n, rid in allowed:
        if n != name:
            continue
        if rid is None or n in modes.NO_RECEIPT or rid in msg:
            return True
        for w in re.findall(r'[\w-]+\.[\w-]+\.[\w-]+', msg):
            r = ref.parse_jws(w)
            if r.cls != ref.BAD and r.rid == rid:
                return True
    return False


def options(ctx, sh, n):
    """Arguments that must not make a difference."""
    rng = ctx.rng
    a = []
    seq, chunked, par = True, 0, 1
    env = {'RKSV_DEP_CHUNKSIZE': None, 'RKSV_STATE_RECEIPT_IDS': None}
    if rng.random() < .25:
        par = rng.choice([1, 2, 3])
        a += ['par', par]
        ctx.count('par')
    env_chunk = None
    if rng.random() < .4:
        env_chunk = rng.choice([0, 1, 2, n, n + 5, 1000])
        env['RKSV_DEP_CHUNKSIZE'] = str(env_chunk)
        ctx.count('env chunksize')
    if rng.random() < .6:
        chunk = rng.choice([0, 0, 1, 2, 3, max(1, n // 2), n, n + 1, 10**6])
        a += ['chunksize', chunk]
        ctx.count('chunksize' if chunk else 'chunksize 0')
    else:
        chunk = env_chunk
    if rng.random() < .3:
        a.append('json')
        ctx.count('json')
    return a, env, chunk, par


def state_text(rng, cl):
    return jtext(rng, modes.state_json(cl)).encode('utf-8')


def judge_verify(ctx, sh, r, res, exact, state, **info):
    """state: whether a resulting state has to be printed."""
    rc, out, err = r
    said = 'Verification successful' in err or b'Verification successful' in out
    info = sh.info(r, **info)
    if res.ok is not None:
        ctx.check(rc == 0 and said, 'verify.py refused what is correct', **info)
        if state:
            try:
                st = modes.verification_state.ClusterState.readStateFromJson(json.loads(out.decode('utf-8')))
                got = modes.view(st)
            except (ValueError, modes.utils.RKSVException) as e:
                ctx.fail('the printed state cannot be read: %s' % e, **info)
            ctx.check(got == modes.model_view(res.ok), 'wrong state was printed', got=got,
                      want=modes.model_view(res.ok), **info)
        else:
            ctx.check(out.strip() == b'', 'unexpected output', **info)
        ctx.count('verify accepted')
        return out
    ctx.check(rc != 0 and not said, 'verify.py accepted what is wrong',
              expected=sorted(res.loose or res.exact, key=repr), **info)
    ctx.check(out.strip() == b'', 'a state was printed although verification failed', **info)
    al = res.exact if exact else (res.loose or res.exact)
    ctx.check(allowed_error(err, al), 'verify.py reports another error', expected=sorted(al, key=repr), **info)
    ctx.count('verify refused')


def id_kind(ctx, sh, env, p=.08):
    """How used receipt IDs are kept unless a state says otherwise. Read when the library is imported."""
    rng = ctx.rng
    if sh.process or rng.random() < p:
        sh.process = True
        kind = rng.choice(['sorted', 'sorted', 'unique', None])
        env['RKSV_STATE_RECEIPT_IDS'] = modes.BTYPE[kind] if kind else None
        ctx.count('env receipt ids', kind is not None)
        return kind or 'unique'
    return 'unique'


def verify_one(ctx, sh):
    rng = ctx.rng
    env = {}
    ekind = id_kind(ctx, sh, env)
    kind = rng.choice([ekind, ekind, ekind, 'unique', 'sorted'])
    style = rng.choice(['num', 'pad', 'nat', None]) if 'sorted' in (kind, ekind) else None
    defect = rng.choice(c08.DEFECTS + ['none'] * 10)
    if style is None and 'sorted' in (kind, ekind) or defect == 'duplicate' and 'sorted' in (kind, ekind):
        # the next receipts would be duplicates, too
        defect = 'none'
    ks, devs, sim, certful, groups, at = c08.build(rng, defect, style)
    key = rng.choice([sim.key, sim.key, None])
    if defect == 'counter':
        key = sim.key
    res0 = ref.verify(groups, ks, key)
    groups, cl, idx = common.maybe_state(ctx, groups, ks, key, kind, .5, before=res0.at)
    n = sum(len(g[0]) for g in groups)
    opts, e, chunk, par = options(ctx, sh, n)
    env = dict(e, **env)
    st = cl is not None or rng.random() < .3
    data = b''
    args = []
    if cl is None:
        kind = ekind
    if st:
        args.append('state')
        ctx.count('verify state')
        ctx.count('verify state sorted', kind == 'sorted')
        if cl is None:
            if rng.random() < .5:
                r = sh.run('verify.py', 'state', env=env)
                ctx.check(r[0] == 0, 'verify.py state', **sh.info(r))
                data = r[1]
                got = json.loads(data.decode('utf-8'))
                want = modes.state_json(ref.Cluster(ekind))
                ctx.check(norm_state(got) == norm_state(want), 'verify.py state does not print an empty state',
                          got=got, want=want, **sh.info(r))
                ctx.count('empty state')
            else:
                kind = rng.choice([ekind, 'unique', 'sorted'])
                data = state_text(rng, ref.Cluster(kind))
            cl = ref.Cluster(kind)
        else:
            data = state_text(rng, cl)
            x = rng.choice(['continue', '0'])
            args.append(x)
            ctx.count('continue', x == 'continue')
    ctx.count('verify sorted', kind == 'sorted')
    res = ref.verify(groups, ks, key, cl, idx, kind)
    sh.write('ks.json', jtext(rng, store_json(rng, ks, key)))
    sh.write('dep.json', gen.layout(rng, gen.make_dep(groups)))
    r = sh.run('verify.py', *(args + opts + [sh.path('ks.json'), sh.path('dep.json')]), data=data, env=env)
    one = kind == 'unique' or style is not None
    if res.ok is None and one:
        # one defect only: always the same error
        res.loose = res.exact
    judge_verify(ctx, sh, r, res, one, st, defect=defect, kind=kind, dep=sh.read('dep.json'), ks=sh.read('ks.json'))
    ctx.distinct('verify', defect, args, opts, n)


def verify_flow(ctx, sh):
    """A whole cluster, DEP by DEP, with the state passed on."""
    rng = ctx.rng
    ks, devs, sims, certful, segs = common.cluster(rng, rng.choice([1, 2, 3]), rng.choice([2, 3, 4]))
    key = sims[0].key if rng.random() < .8 else None
    sh.write('ks.json', jtext(rng, store_json(rng, ks, key)))
    r = sh.run('verify.py', 'state')
    data = r[1]
    cl, nregs = None, 0
    for i, (reg, metas) in enumerate(segs):
        groups = common.groups_of(rng, metas, certful)
        n = len(metas)
        opts, env, chunk, par = options(ctx, sh, n)
        args = ['state']
        idx = reg if reg < nregs else None
        if idx is not None:
            args.append('continue' if idx == nregs - 1 and rng.random() < .5 else str(idx))
            ctx.count('continue', args[-1] == 'continue')
        sh.write('dep.json', gen.layout(rng, gen.make_dep(groups)))
        cmd = args + opts + [sh.path('ks.json'), sh.path('dep.json')]
        if rng.random() < .3 and n > 1:
            # a damaged DEP in between
            bad = [(list(g[0]), g[1], g[2]) for g in groups]
            g = rng.choice([g for g in bad if g[0]])
            k = rng.randrange(len(g[0]))
            g[0][k] = g[0][k][:-5] + ('A' if g[0][k][-5] != 'A' else 'B') + g[0][k][-4:]
            res = ref.verify(bad, ks, key, cl, idx)
            sh.write('bad.json', gen.layout(rng, gen.make_dep(bad)))
            r = sh.run('verify.py', *(cmd[:-1] + [sh.path('bad.json')]), data=data, env=env)
            if res.ok is None:
                judge_verify(ctx, sh, r, res, False, True, number=i)
        res = ref.verify(groups, ks, key, cl, idx)
        ctx.check(res.ok is not None, 'harness: the cluster breaks the rules')
        r = sh.run('verify.py', *cmd, data=data, env=env)
        data = judge_verify(ctx, sh, r, res, False, True, number=i)
        cl = res.ok
        nregs = max(nregs, reg + 1)
    ctx.count('verify workflow')
    ctx.distinct('flow', [(s[0], len(s[1])) for s in segs])


def verify_bad(ctx, sh):
    """Broken files and arguments."""
    rng = ctx.rng
    ks, devs, sim, certful, groups, at = c08.build(rng, 'none')
    ksj = jtext(rng, store_json(rng, ks, sim.key)).encode('utf-8')
    dep = gen.layout(rng, gen.make_dep(groups))
    st = state_text(rng, ref.Cluster('unique'))
    opts, env, chunk, par = options(ctx, sh, len(sim.metas))
    k = rng.randrange(9)
    args = ['state'] if k in (2, 3, 4) or rng.random() < .5 else []
    files = ['ks.json', 'dep.json']
    usage = False
    if k == 0:
        dep = rng.choice([b'', b'{', b'[]', b'{}', b'null', dep.rstrip()[:-1], b'\xff\xfe', b'{"Belege-Gruppe": {}}'])
    elif k == 1:
        ksj = rng.choice([b'', b'{', b'[]', b'{}', b'null', ksj.rstrip()[:-1], b'{"certificateOrPublicKeyMap": 5}'])
    elif k == 2:
        st = rng.choice([b'', b'{', b'[]', b'{}', b'null', st.rstrip()[:-1], b'{"cashRegisters": []}'])
    elif k == 3 or k == 4:
        # there is no register yet
        args.append(rng.choice(['7', '-1', 'continue', '1']))
    elif k == 5:
        files[rng.randrange(2)] = 'missing.json'
    elif k == 6:
        opts = rng.choice([['par', '0'], ['par', 'x'], ['par', '-3'], ['chunksize', '-1'], ['chunksize', 'x'],
                           ['json', 'json'], ['par'], ['chunksize'], ['par', '2', 'par', '2']])
        usage = True
    elif k == 7:
        files = rng.choice([files[:1], files + files[:1]] + [[]] * (args != ['state'] or bool(opts)))
        usage = True
    else:
        j = json.loads(ksj.decode('utf-8'))
        j['base64AESKey'] = rng.choice(['', 'AAAA', ref.b64(b'x' * 31), '*', 5, ['x']])
        ksj = json.dumps(j).encode()
    sh.write('ks.json', ksj)
    sh.write('dep.json', dep)
    r = sh.run('verify.py', *(args + opts + [sh.path(f) for f in files]), data=st, env=env)
    info = sh.info(r, kind=k)
    ctx.check('Verification successful' not in r[2] and b'Verification successful' not in r[1],
              'verify.py accepted broken input', **info)
    if usage:
        ctx.check('Usage' in r[2] or 'Usage' in r[1].decode('utf-8') or r[0] != 0, 'neither usage nor error', **info)
        ctx.count('verify usage')
    else:
        ctx.check(r[0] != 0, 'exit status 0 for broken input', **info)
        ctx.count('verify bad input')
    try:
        v = json.loads(r[1].decode('utf-8'))
    except ValueError:
        v = None
    ctx.check(not (isinstance(v, dict) and 'cashRegisters' in v), 'a state was printed for broken input', **info)
    ctx.distinct('verify bad', k, opts, args)


# ------------------------------------------------------------------ verify_receipt.py

COUNT = re.compile(r'^(\d+) of (\d+) receipts verified successfully\.$')
LINE = re.compile(r'^Line +(\d+): (.*)$')


def forms(r):
    return {'jws': r.jws, 'qr': r.code, 'ocr': r.ocr, 'csv': r.csv}


PARSE = {'jws': ref.parse_jws, 'qr': ref.parse_code, 'ocr': ref.parse_ocr, 'csv': ref.parse_csv}


def bad_text(rng, fmt, t):
    """A damaged receipt that is certainly none any more."""
    while True:
        k = rng.randrange(len(t))
        x = rng.choice(['', 'x', 'a.b.c', t[:20], t[5:], t[:-30], t[:-rng.randrange(1, 60)], t[:k] + '!' + t[k + 1:],
                        t.replace('R1', 'R9', 1), t.replace(':', '-'), t + '.x', t[:k] + t[k + 1:]])
        if PARSE[fmt](x).cls == ref.BAD:
            return x


def receipts(ctx, sh):
    rng = ctx.rng
    ks, devs, sim, closed, certful = common.setup(rng, rng.choice([1, 2, 3]), certful=False)
    fmt = rng.choice(['jws', 'qr', 'ocr', 'csv'])
    lines, want = [], []
    for i in range(rng.choice([70, 140]) if rng.random() < .04 else rng.randrange(1, 9)):
        dev = rng.choice(devs)
        bad = rng.choice([None, None, None, 'signature', 'unknown', 'malformed', 'outage', 'null outage'])
        ov = {}
        kind, failed, total = rng.choice(['standard', 'training', 'reversal']), False, sim.amount()
        if bad == 'signature':
            ov['priv'] = gen.key('p256', 97).priv
        elif bad == 'unknown':
            ov['serial'] = '%x' % (rng.getrandbits(60) | 1) if not closed else 'U:ATU00000000-K9'
        elif bad == 'outage':
            failed, kind = True, 'standard'
        elif bad == 'null outage':
            failed, kind, total = True, 'standard', 0
            ov['null'] = True
        m = sim.emit(dev, kind, total, failed, **ov)
        r = m.r
        t = forms(r)[fmt]
        if fmt == 'csv' and (';' in r.reg + r.rid + r.serial or '"' in r.reg + r.rid):
            continue
        if bad == 'malformed':
            t = bad_text(rng, fmt, t)
            v = {'malformed'}
        else:
            v = ref.single(r, ks)
        lines.append(t)
        want.append((v == {'ok'}, bad, r.rid, v))
    if not lines:
        return
    sh.write('ks.json', jtext(rng, store_json(rng, ks, rng.choice([None, sim.key]))))
    if len(lines) == 1 and lines[0] and rng.random() < .8 or rng.random() < .15 and lines[0]:
        del lines[1:], want[1:]
        r = sh.run('verify_receipt.py', fmt, sh.path('ks.json'), lines[0])
        ctx.count('receipts arg')
    else:
        r = sh.run('verify_receipt.py', fmt, sh.path('ks.json'),
                   data='\n'.join(lines) + rng.choice(['\n', '\n', '' if lines[-1] else '\n']))
        ctx.count('receipts stdin')
    info = sh.info(r, lines=lines, want=[w[:3] for w in want], format=fmt)
    got = r[1].decode('utf-8').splitlines()
    m = COUNT.match(got[-1]) if got else None
    ctx.check(m, 'no summary', **info)
    ctx.check((int(m.group(1)), int(m.group(2))) == (sum(w[0] for w in want), len(want)),
              'wrong number of receipts', **info)
    named = {}
    for l in got[:-1]:
        x = LINE.match(l)
        if x:
            named[int(x.group(1))] = x.group(2)
    ctx.check(sorted(named) == [i for i, w in enumerate(want) if not w[0]], 'wrong receipts were named', **info)
    for i, msg in named.items():
        if want[i][1] not in ('malformed', None):
            ctx.check(want[i][2] in msg, 'the failing receipt is not named', line=i, **info)
        if want[i][3] == {'InvalidSignatureException'}:
            ctx.check('Invalid Signature' in msg, 'another error', line=i, **info)
        elif want[i][3] == {'NoPublicKeyException'}:
            ctx.check('No public key' in msg, 'another error', line=i, **info)
        elif want[i][3] == {'UnsignedNullReceiptException'}:
            ctx.check('Null receipt not signed' in msg, 'another error', line=i, **info)
        elif want[i][3] == {'SignatureSystemFailedException'}:
            ctx.check('Signature System failed' in msg, 'another error', line=i, **info)
    ctx.count('receipts failing' if named else 'receipts all good')
    ctx.distinct('receipts', fmt, [w[:2] for w in want])


def convert(ctx, sh):
    rng = ctx.rng
    ks, devs, sim, closed, certful = common.setup(rng, 2)
    a = rng.choice(['jws', 'qr', 'ocr', 'csv'])
    b = rng.choice(['jws', 'qr', 'ocr', 'csv', 'url'])
    rs = []
    for i in range(rng.choice([70, 140]) if rng.random() < .04 else rng.randrange(1, 7)):
        r = sim.legal(devs).r
        if 'csv' in (a, b) and (';' in r.reg + r.rid + r.serial or '"' in r.reg + r.rid):
            continue
        rs.append(r)
    want = [ref.url_hash(r.code) if b == 'url' else forms(r)[b] for r in rs]
    lines = [forms(r)[a] for r in rs]
    bad = None
    if rng.random() < .25 and rs:
        bad = rng.randrange(len(lines))
        lines[bad] = bad_text(rng, a, lines[bad])
    r = sh.run('receipt.py', a, b, data=''.join(l + '\n' for l in lines))
    info = sh.info(r, lines=lines)
    got = r[1].decode('utf-8').split('\n')
    if bad is None:
        ctx.check(r[0] == 0 and got == want + [''], 'wrong conversion', want=want, got=got, **info)
        ctx.count('convert receipt')
    else:
        ctx.check(r[0] != 0 and got[:-1] == want[:bad], 'conversion of a malformed receipt', want=want[:bad],
                  got=got, **info)
        ctx.count('convert receipt bad')
    ctx.distinct('convert', a, b, len(rs), bad)


# ------------------------------------------------------------------ key_store.py

def stored(ctx, sh, name, model, sym, r):
    j = json.loads(sh.read(name).decode('utf-8'))
    info = sh.info(r, file=sh.read(name)[:3000])
    m = j.get('certificateOrPublicKeyMap')
    ctx.check(isinstance(m, dict) and set(j) <= {'certificateOrPublicKeyMap', 'base64AESKey'},
              'form of the key store', **info)
    ctx.check(sorted(m) == sorted(model), 'IDs in the key store', got=sorted(m), want=sorted(model), **info)
    for kid, (kind, der) in model.items():
        e = m[kid]
        ctx.check(e.get('id') == kid and e.get('signatureDeviceType') ==
                  {'cert': 'CERTIFICATE', 'key': 'PUBLIC_KEY'}[kind] and
                  base64.b64decode(''.join(e.get('signatureCertificateOrPublicKey').split())) == der,
                  'entry of the key store', id=kid, got=e, **info)
    got = j.get('base64AESKey')
    ctx.check((None if got is None else base64.b64decode(got)) == sym, 'symmetric key', got=got, want=sym, **info)


def keystore(ctx, sh):
    rng = ctx.rng
    model, sym = {}, None
    f = sh.path('ks.json')
    exists = False
    if rng.random() < .6:
        ks = ref.Ks()
        gen.devices(rng, rng.random() < .5, rng.random() < .5, ks, rng.choice([1, 2, 4]))
        sym = rng.choice([None, bytes(rng.randrange(256) for _ in range(32))])
        sh.write('ks.json', jtext(rng, store_json(rng, ks, sym)))
        for kid in ks.d:
            x = ks.d[kid]
            model[kid] = ('cert', x[1].der) if x[0] == 'cert' else ('key', c19.spki(x[1]))
        exists = True
    ops = []
    for _ in range(rng.randrange(1, 4 if sh.process else 9)):
        op = rng.choice(KEY_OPS) if exists else rng.choice(['create', 'create', 'list', 'fromLegacyIni'])
        bad = rng.random() < .2
        may = ['ks.json']
        ops.append((op, bad))
        before = dict(model), sym
        data, ok = b'', True
        if op == 'create':
            args = ['create']
            model, sym = {}, None
        elif op == 'list':
            args, may = ['list'], []
        elif op == 'add cert':
            kp = gen.key(rng.choice(['p256', 'p256', 'rsa', 'p384', 'k256']), rng.randrange(3))
            n = gen.serial_number(rng)
            if model and rng.random() < .2:
                h = rng.choice(sorted(model))
                n = int(h, 16) if re.fullmatch('[0-9a-f]+', h) else n
            c = gen.Cert(kp, gen.key('p256', 1), n)
            t = gen.dressed(rng, c.pem())
            if bad:
                t = c.pem()
                t = rng.choice(['', t[:100], t.replace('M', '!', 1), kp.spki_pem()])
                ok = False
            args = ['add', sh.write('c.pem', t)]
            model['%x' % abs(n)] = ('cert', c.der)
        elif op == 'add key':
            kp = gen.key(rng.choice(['p256', 'p256', 'rsa', 'p384', 'k256']), rng.randrange(3))
            kid = rng.choice(['U:ATU12345678-K1', 'abc', u'sch\xf6n', 'a b', 'S:123456789', '0']) \
                if not model or rng.random() < .8 else rng.choice(sorted(model))
            t = gen.dressed(rng, kp.spki_pem())
            if bad:
                t = rng.choice(['', kp.spki_pem()[:60], gen.Cert(kp, kp, 5).pem()])
                ok = False
            args = ['add', sh.write('k.pem', t), kid]
            model[kid] = ('key', kp.spki())
        elif op == 'del':
            kid = rng.choice(sorted(model)) if model and rng.random() < .7 else rng.choice(['nope', '0', 'U:x', ''])
            args = ['del', kid]
            model.pop(kid, None)
        elif op == 'showSymmetricKey':
            args, may = ['showSymmetricKey'], []
        elif op == 'setSymmetricKey':
            args = ['setSymmetricKey']
            new = bytes(rng.randrange(256) for _ in range(32))
            data = (ref.b64(new) + rng.choice(['\n', '', '\r\n', '\nmore\n', ' \n'])).encode()
            sym = new
            if bad:
                data = rng.choice([b'*\n', b'AAA\n', b'\n', b'', ref.b64(new).encode()[:-2] + b'\n'])
                ok = None if data.strip() == b'' else False
        elif op == 'delSymmetricKey':
            args = ['delSymmetricKey']
            sym = None
        elif op == 'toLegacyIni':
            args, may = ['toLegacyIni'], []
        else:
            args = ['fromLegacyIni']
            cfg = configparser.RawConfigParser()
            cfg.optionxform = str
            new = {}
            for s in ('certificates', 'public_keys'):
                cfg.add_section(s)
            for i in range(rng.randrange(4)):
                kp = gen.key('p256', rng.randrange(5))
                if rng.random() < .5:
                    c = gen.Cert(kp, kp, abs(gen.serial_number(rng)) or 1)
                    kid = '%x' % c.serial
                    if kid in new:
                        continue
                    cfg.set('certificates', kid, c.b64)
                    new[kid] = ('cert', c.der)
                else:
                    kid = rng.choice(['U:ATU1234567%d-K1', 'S:12345678%d', 'G:123456789012%d', 'xyz%d']) % i
                    cfg.set('public_keys', kid.replace('U:', 'u;').replace('S:', 's;').replace('G:', 'g;'),
                            base64.b64encode(kp.spki()).decode())
                    new[kid] = ('key', kp.spki())
            t = io.StringIO()
            cfg.write(t)
            data = t.getvalue()
            model, sym = new, None
            if bad:
                data = rng.choice(['[certificates\n', 'x', '[certificates]\n12 = AAAA\n',
                                   '[public_keys]\nu;ATU1 = AAAA\n'])
                ok = False
        if bad and op not in ('add cert', 'add key', 'setSymmetricKey', 'fromLegacyIni') and exists \
                and rng.random() < .5:
            # a damaged file
            if op != 'create':
                good = sh.read('ks.json')
                sh.write('ks.json', rng.choice([b'', b'{', b'[]', b'{"certificateOrPublicKeyMap": 1}', good[:-3]]))
                r = sh.run('key_store.py', f, *args, data=data)
                ctx.check(r[0] != 0, 'a damaged key store was accepted', **sh.info(r))
                sh.write('ks.json', good)
                model, sym = before
                ctx.count('key refused')
                continue
        if not exists and op == 'list':
            r = sh.run('key_store.py', f, *args)
            ctx.check(r[0] != 0 and not os.path.exists(f), 'listed a file that does not exist', **sh.info(r))
            ctx.count('key refused')
            continue
        if ok is False or ok is None:
            r = sh.run('key_store.py', f, *args, data=data)
            ctx.check(ok is None or r[0] != 0, 'a wrong command was accepted', op=op, **sh.info(r, data=data))
            model, sym = before
            ctx.count('key refused')
            if not exists:
                continue
        else:
            r = sh.run('key_store.py', f, *args, data=data, may=may)
            ctx.check(r[0] == 0, 'key_store.py failed', op=op, **sh.info(r, data=data))
            exists = exists or os.path.exists(f)
            ctx.count('key:' + op)
            if op == 'list':
                ctx.check(sorted(r[1].decode('utf-8').split('\n')) == sorted(list(model) + ['']), 'wrong list',
                          want=sorted(model), **sh.info(r))
            elif op == 'showSymmetricKey':
                t = r[1].decode('utf-8').strip()
                ctx.check(t == ref.b64(sym) if sym is not None else 'No symmetric key' in t, 'wrong symmetric key',
                          **sh.info(r))
            elif op == 'toLegacyIni':
                cfg = configparser.RawConfigParser()
                cfg.optionxform = str
                cfg.read_string(r[1].decode('utf-8'))
                got = {}
                for s, kind in (('certificates', 'cert'), ('public_keys', 'key')):
                    for k, v in cfg.items(s) if cfg.has_section(s) else []:
                        for p in 'SUG':
                            k = k.replace(p.lower() + ';', p + ':')
                        got[k] = (kind, base64.b64decode(v))
                if not any(c in k for k in model for c in '=[#; \n') and '' not in model:
                    ctx.check(got == model, 'wrong legacy key store', got=sorted(got), want=sorted(model),
                              **sh.info(r))
        stored(ctx, sh, 'ks.json', model, sym, r)
    # usage
    if rng.random() < .2:
        r = sh.run('key_store.py', f, *rng.choice([['nonsense'], ['add'], ['del'], ['list', 'x'], [],
                                                   ['del', 'a', 'b'], ['add', 'a', 'b', 'c']]))
        ctx.check('Usage' in r[1].decode('utf-8') + r[2], 'no usage', **sh.info(r))
    ctx.distinct('keystore', ops)


# ------------------------------------------------------------------ verification_state.py

def reg_json():
    return {'startReceiptJWS': None, 'lastReceiptJWS': None, 'lastTurnoverCounter': 0,
            'needRestoreReceipt': False, 'chainNextTo': None}


def norm_state(j):
    u = j['usedReceiptIds']
    d = u['backendData']
    return [j['cashRegisters'], u['backendType'], sorted(d) if isinstance(d, list) else d]


def vstate(ctx, sh):
    rng = ctx.rng
    f = sh.path('state.json')
    ks, devs, sims, certful, segs = common.cluster(rng, rng.choice([1, 2, 3]), rng.choice([1, 2, 3]))
    key = sims[0].key
    cl = None
    for reg, metas in segs:
        res = ref.verify(common.groups_of(rng, metas, certful), ks, key, cl,
                         reg if cl is not None and reg < len(cl.regs) else None)
        cl = res.ok
    full = modes.state_json(cl)
    ids = list(full['usedReceiptIds']['backendData'])
    benv = {'RKSV_STATE_RECEIPT_IDS': None}
    kind = id_kind(ctx, sh, benv)
    if rng.random() < .2 and ids:
        full['usedReceiptIds'] = {'backendType': modes.BTYPE['sorted'],
                                  'backendData': {'minId': rng.choice(ids), 'maxId': rng.choice(ids)}}
    model = None
    if rng.random() < .75:
        model = copy.deepcopy(full)
        sh.write('state.json', jtext(rng, model))
    other = copy.deepcopy(full)
    rng.shuffle(other['cashRegisters'])
    sh.write('other.json', jtext(rng, other))
    sh.write('key', ref.b64(key) + rng.choice(['', '\n', '\r\n', '\n\n', ' \n']))
    log = []
    for _ in range(rng.randrange(1, 4 if sh.process else 10)):
        if model is None:
            op = rng.choice(['create', 'create', 'show', 'addCashRegister', 'fromArbitraryStartReceipt'])
        else:
            op = rng.choice(STATE_OPS)
        regs = model['cashRegisters'] if model else []
        n = len(regs)
        bad = rng.random() < .2 or (n == 0 and op not in ('create', 'show', 'addCashRegister',
                                                          'readUsedReceiptIds', 'fromArbitraryReceipt',
                                                          'fromArbitraryStartReceipt'))
        i = n + rng.randrange(3) if bad else rng.randrange(n) if n else 0
        reg, metas = rng.choice(segs)
        m = rng.choice(metas)
        args, ok, may, loose = [], True, ['state.json'], False
        new = copy.deepcopy(model)
        if op == 'create':
            new = modes.state_json(ref.Cluster(kind))
            if bad:
                args, ok = ['x'], False
        elif op == 'show':
            ok = model is not None      # the file is written again
        elif op == 'addCashRegister':
            ok = model is not None and not (n and not regs[-1]['startReceiptJWS'])
            if ok:
                new['cashRegisters'].append(reg_json())
        elif op == 'deleteCashRegister':
            args, ok = [i], not bad
            if ok:
                del new['cashRegisters'][i]
        elif op == 'resetCashRegister':
            # what happens to the receipt IDs is not specified
            args, ok, loose = [i], not bad, True
            if ok:
                new['cashRegisters'][i] = reg_json()
        elif op == 'copyCashRegister':
            k = rng.randrange(len(other['cashRegisters']) + (1 if bad else 0))
            args = [i, sh.path('other.json'), k]
            ok = not bad and k < len(other['cashRegisters'])
            if ok:
                new['cashRegisters'][i] = copy.deepcopy(other['cashRegisters'][k])
        elif op == 'updateCashRegister':
            s = rng.choice([s for s in range(len(segs))])
            recs = [x.jws for x in segs[s][1]]
            groups = common.groups_of(rng, segs[s][1], certful)
            sh.write('dep.json', gen.layout(rng, gen.make_dep(groups)))
            args = [i, sh.path('dep.json')] + ([sh.path('key')] if rng.random() < .7 else [])
            ok = not bad
            if ok:
                # judged by the library, whose functions have their own checks
                c = modes.verification_state.CashRegisterState.fromDict(copy.deepcopy(regs[i]))
                c.updateFromDEPGroup([modes.depparser.shrinkDEPReceipt(x) for x in recs], key if len(args) == 3 else None)
                want = dict(c.__dict__)
                loose = 'update'
                new['cashRegisters'][i] = want
        elif op == 'setLastReceiptJWS' or op == 'setStartReceiptJWS':
            v = rng.choice([m.jws, m.jws, None])
            args, ok = [i, 'None' if v is None else v], not bad
            if ok:
                new['cashRegisters'][i][op[3].lower() + op[4:]] = v
        elif op == 'setLastTurnoverCounter':
            v = rng.choice([0, 5, -7, 10**20 + 1, 2**53 + 1, -2**63 - 1, 2**127 - 1, rng.randrange(-10**9, 10**9)])
            args, ok = [i, v], not bad
            if bad and n and rng.random() < .5:
                args = [0, rng.choice(['x', '', '1.5', '1,5'])]
            if ok:
                new['cashRegisters'][i]['lastTurnoverCounter'] = v
        elif op == 'setChainNextTo':
            v = rng.choice([m.r.chain, m.r.chain, None])
            args, ok = [i, 'None' if v is None else v], not bad
            if ok:
                new['cashRegisters'][i]['chainNextTo'] = v
        elif op == 'toggleNeedRestoreReceipt':
            args, ok = [i], not bad
            if ok:
                new['cashRegisters'][i]['needRestoreReceipt'] ^= True
        elif op == 'readUsedReceiptIds':
            v = rng.sample(ids, rng.randrange(len(ids) + 1)) if rng.random() < .8 else []
            v = [x for x in v if x == x.strip() and len(x.splitlines()) == 1]
            if kind == 'sorted':
                v.sort(key=ref.natkey)
            sh.write('ids', ''.join(x + '\n' for x in v))
            args = [sh.path('ids')] if v or rng.random() < .5 else ['None']
            if bad:
                args, ok = [sh.path('nothing')], False
            else:
                new['usedReceiptIds'] = {
                    'backendType': modes.BTYPE[kind],
                    'backendData': v if kind == 'unique' else
                    {'minId': v[0] if v else None, 'maxId': v[-1] if v else None}}
        elif op == 'fromArbitraryReceipt' or op == 'fromArbitraryStartReceipt':
            fmt = rng.choice(['jws', 'qr', 'ocr', 'csv'])
            if ';' in m.r.reg + m.r.rid or '"' in m.r.reg + m.r.rid:
                fmt = 'jws'
            t = forms(m.r)[fmt]
            if bad:
                t, ok = bad_text(rng, fmt, t), False
            args = [fmt, t]
            rec, p = modes.receipt.Receipt.fromJWSString(m.jws)
            backend = modes.BACKENDS[kind]
            if op == 'fromArbitraryReceipt':
                withkey = rng.random() < .6
                if withkey:
                    args.append(sh.path('key'))
                st = modes.verification_state.ClusterState.fromArbitraryReceipt(
                    rec, p, key if withkey else None, backend)
            else:
                st = modes.verification_state.ClusterState.fromArbitraryStartReceipt(rec, backend)
            new = json.loads(json.dumps(st.writeStateToJson()))
            ctx.check(not ok or all(r['chainNextTo'] == m.r.chain for r in new['cashRegisters'][:1]),
                      'chaining value of the state')
        if model is None and op not in ('create', 'fromArbitraryReceipt', 'fromArbitraryStartReceipt'):
            ok = False
        log.append((op, ok))
        env = dict(benv, RKSV_DEP_CHUNKSIZE=rng.choice([None, '0', '1', '2', '3', '100000']))
        ctx.count('state sorted', kind == 'sorted')
        r = sh.run('verification_state.py', f, op, *args, env=env, may=may if ok else ())
        info = sh.info(r, before=model)
        if not ok:
            ctx.check(r[0] != 0 or 'Usage' in r[1].decode('utf-8'), 'a wrong command was accepted', **info)
            ctx.count('state refused')
            continue
        ctx.check(r[0] == 0, 'verification_state.py failed', **info)
        ctx.count('state:' + op)
        got = json.loads(sh.read('state.json').decode('utf-8'))
        if op == 'show':
            t = r[1].decode('utf-8')
            want = ['Cash Register %d:' % k for k in range(n)] + \
                [str(x[k]) for x in regs for k in ('startReceiptJWS', 'lastReceiptJWS', 'lastTurnoverCounter',
                                                   'needRestoreReceipt')] + [model['usedReceiptIds']['backendType']]
            ctx.check(all(w in t for w in want), 'show does not show everything', **info)
            new = model
        if op == 'resetCashRegister':
            ctx.check(got['cashRegisters'] == new['cashRegisters'], 'wrong state after ' + op, got=got, want=new, **info)
        else:
            ctx.check(norm_state(got) == norm_state(new), 'wrong state after ' + op, got=got, want=new, **info)
        model = got
    if rng.random() < .2:
        r = sh.run('verification_state.py', f, *rng.choice([['nonsense'], ['setChainNextTo'], [], ['show', 'x'],
                                                            ['copyCashRegister', '0']]))
        ctx.check('Usage' in r[1].decode('utf-8') + r[2] or r[0], 'no usage', **sh.info(r))
    ctx.distinct('state', log)


def extract(ctx, sh):
    """cert_extract.py writes the certificates of a DEP."""
    rng = ctx.rng
    h = gen.history(rng, rng.randrange(1, 7), certful=rng.random() < .9)
    groups = h.ref_groups()
    bad = rng.random() < .2
    dep = gen.make_dep(groups)
    chunk = rng.choice([None, '1', '2', '0', '100'])
    data = gen.layout(rng, dep)
    # The input is a pipe: no marks before it, and no looking ahead for a certificate.
    if data.startswith(b'\xef\xbb\xbf'):
        data = data[3:]
    if chunk in ('1', '2'):
        data = json.dumps({'Belege-Gruppe': [dict(sorted(g.items(), key=lambda kv: kv[0] == 'Belege-kompakt'))
                                             for g in dep['Belege-Gruppe']]}, indent=rng.choice([None, 1])).encode()
    if bad:
        g = rng.choice(dep['Belege-Gruppe'])
        how = rng.randrange(3)
        if how == 0:
            g[rng.choice(['Signaturzertifikat', 'Zertifizierungsstellen', 'Belege-kompakt'])] = rng.choice([5, None, {}])
            data = json.dumps(dep).encode()
        elif how == 1:
            g['Signaturzertifikat'] = rng.choice(['AAAA', 'x', '!'])
            data = json.dumps(dep).encode()
        else:
            data = data[:rng.randrange(len(data) - 8)]
    name = 'certs'
    d = sh.path(name)
    want = {}
    for recs, c, ch in groups:
        if recs:
            for x in list(ch) + ([c] if c else []):
                want[ref.serial_id(x.serial) + '.crt'] = x
    old = {}
    if rng.random() < .5:
        os.mkdir(d)
        for n in ['other.crt', 'README'] + [x for x in want if rng.random() < .4]:
            old[n] = 'old' * rng.randrange(3000)
            with open(os.path.join(d, n), 'w') as f:
                f.write(old[n])
    before = {n: sh.read(n) for n in os.listdir(sh.d) if n != name}
    if sh.process:
        r = common.script('cert_extract.py', [name if rng.random() < .5 else d], sh.d, data, {'RKSV_DEP_CHUNKSIZE': chunk})
    else:
        r = inside('cert_extract.py', [name if rng.random() < .5 else d], sh.d, data, {'RKSV_DEP_CHUNKSIZE': chunk})
    got = {}
    for n in os.listdir(d):
        with open(os.path.join(d, n), 'rb') as f:
            got[n] = f.read()
    info = dict(status=r[0], stderr=r[2][-800:], dep=data.decode('utf-8', 'replace')[:3000])
    ctx.check({n: sh.read(n) for n in os.listdir(sh.d) if n != name} == before, 'a file elsewhere was changed', **info)
    if bad:
        ctx.check(r[0] != 0, 'a malformed DEP is not reported', **info)
        ctx.check(set(got) <= set(want) | set(old), 'files that belong to no certificate', got=sorted(got), **info)
        ctx.count('extract refused')
        return
    ctx.check(r[0] == 0, 'certificates cannot be extracted', **info)
    ctx.check(set(got) == set(want) | set(old), 'not the certificates of the DEP', got=sorted(got), want=sorted(want), **info)
    for n, b in got.items():
        if n not in want:
            ctx.check(b == old[n].encode(), 'another file was changed', file=n, **info)
            continue
        t = b.decode('ascii').strip().split('\n')
        ctx.check(t[0] == '-----BEGIN CERTIFICATE-----' and t[-1] == '-----END CERTIFICATE-----' and
                  all('-' not in x for x in t[1:-1]), 'no PEM', file=n, got=b[:3000], **info)
        x = x509.load_pem_x509_certificate(b, default_backend())
        ctx.check(x.serial_number == want[n].serial and
                  base64.b64decode(''.join(t[1:-1])) == want[n].der, 'not the certificate of the DEP', file=n, **info)
    ctx.count('extract')
    ctx.distinct('extract', sorted(want), sorted(old), chunk)


MANY = list('abcdefghijklm')
USAGE = {
    'cert_extract.py': [[], MANY, ['a', 'b']],
    'convert.py': [[], MANY, ['csv2csv'], ['json2csv', 'x'], ['JSON2CSV']],
    'demo.py': [[], MANY, ['a', 'b', 'c']],
    'key_store.py': [[], MANY, ['a'], ['a', 'nonsense'], ['store.json', 'nonsense'], ['store.json', 'add'], ['store.json', 'del'],
                     ['store.json', 'list', 'x'], ['store.json', 'create', 'x'], ['store.json', 'del', 'a', 'b'],
                     ['store.json', 'delSymmetricKey', 'x']],
    'merge.py': [[], ['a'], ['nomerge']],
    'receipt.py': [[], MANY, ['jws'], ['jws', 'qr', 'x']],
    'receipt_host.py': [[], MANY, ['nonsense'], ['jws', 'x']],
    'split.py': [[], MANY, ['1'], ['1', 'out', 'x']],
    'verification_state.py': [[], MANY, ['state.json'], ['state.json', 'nonsense'], ['state.json', 'setChainNextTo'],
                              ['state.json', 'show', 'x'], ['state.json', 'create', 'x'], ['state.json', 'copyCashRegister', '0'],
                              ['state.json', 'deleteCashRegister'], ['state.json', 'addCashRegister', 'x'],
                              ['state.json', 'fromArbitraryReceipt', 'jws'], ['state.json', 'fromArbitraryStartReceipt', 'jws'],
                              ['state.json', 'fromArbitraryReceipt', 'nonsense', 'x'],
                              ['state.json', 'fromArbitraryStartReceipt', 'nonsense', 'x']],
    'verify.py': [[], MANY, ['store.json'], ['json'], ['json', 'store.json'], ['state', 'par', '2']],
    'verify_receipt.py': [[], MANY, ['nonsense', 'store.json'], ['jws'], ['jws', 'store.json', 'a', 'b']],
}


def usage(ctx, sh):
    """Missing and superfluous arguments: what is possible is said, nothing is done."""
    rng = ctx.rng
    sh.write('store.json', json.dumps({'certificateOrPublicKeyMap': {}, 'base64AESKey': base64.b64encode(bytes(32)).decode()}))
    sh.write('state.json', json.dumps({'cashRegisters': [reg_json()], 'usedReceiptIds': {'backendType': 'unique', 'receiptIds': []}}))
    for name in rng.sample(sorted(USAGE), 5):
        args = rng.choice(USAGE[name])
        r = sh.run(name, *args)
        out = r[1].decode('utf-8')
        ctx.check('Usage' in out + r[2] or 'nonsense' in args, 'wrong arguments, but it is not said which ones are right', **sh.info(r))
        ctx.check('Traceback' not in r[2], 'wrong arguments lead to an exception', **sh.info(r))
        ctx.count('usage')
        ctx.distinct('usage', name, args)


def case(ctx):
    sh = Shell(ctx)
    k = ctx.index % 15
    if k == 13:
        return extract(ctx, sh)
    if k == 14:
        return usage(ctx, sh)
    if k < 4:
        verify_one(ctx, sh)
    elif k == 4:
        verify_flow(ctx, sh)
    elif k == 5:
        verify_bad(ctx, sh)
    elif k < 8:
        receipts(ctx, sh)
    elif k == 8:
        convert(ctx, sh)
    elif k < 11:
        keystore(ctx, sh)
    else:
        vstate(ctx, sh)
