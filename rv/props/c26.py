"""C26: simulated registers produce conforming receipts even if signing fails."""
import base64
import datetime
import http.server
import json
import os
import random
import re
import shutil
import socket
import struct
import subprocess
import sys
import threading
from decimal import Decimal

from cryptography import x509
from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec as cec
from cryptography.hazmat.primitives.asymmetric import padding

from rv import core, ec, gen, modes, ref
from rv.props import c22, common

LEVEL = 'exploration'
QUICK, THOROUGH = 2100, 32000
RULE = ('a case drives the simulated register through a generated request sequence (with failing devices, '
        'exceptions, counter overflow, a loopback signing service that fails in many ways, or a test '
        'description) and compares every receipt, its counter (decrypted by an own implementation), chain, '
        'signature and marker with an own model; DEPs that keep the outage rules have to verify; '
        'distinct by sequence and faults')
FAULTS = ['refused', 'reset', 'closed', 'truncated', '400', '401', '404', '500', '503', 'garbage',
          'html', 'not utf8', 'empty', 'list', 'null', 'no result', 'result null', 'result number',
          'result list', 'result object', 'result empty', 'two parts', 'four parts', 'payload', 'header',
          'bad base64', 'padded', 'no signature', 'space', '500 with result', 'bad chunks', 'bad status line',
          'text', 'unicode signature', 'no payload']
MANDATORY = ['long session', 'receipts', 'kind:standard', 'kind:training', 'kind:reversal', 'failed device', 'recreated',
             'verified', 'cluster', 'sub-cent', 'atomic:raise', 'atomic:overflow', 'atomic:nan',
             'atomic:algorithm', 'atomic:key', 'service ok', 'service back', 'test case open',
             'test case closed', 'test case groups', 'test case chain', 'test case cluster',
             'test case continued', 'test case verified', 'script run_test.py', 'script demo.py',
             'counter size changed'] + \
    ['fault:' + f for f in FAULTS]
C, S, U = modes.cashreg, modes.sigsys, modes.utils
SCRIPTS = 47
CLUSTER = ('runTest names DEP %d instead of DEP %d as the preceding one of a continued register, as a register '
           'was started while an earlier one than the latest was in use')


def setup(tier):
    os.environ['NO_PROXY'] = os.environ['no_proxy'] = '*'


# ------------------------------------------------------------------ model

class Model(object):
    """What the register has to be like."""

    def __init__(self, reg, key, size, tc=0, last=None):
        self.reg, self.key, self.size, self.tc, self.last = reg, key, size, tc, last

    def expect(self, ctx, rec, dev, rid, dt, amounts, kind, failed, r=None):
        """Checks an issued receipt; amounts: the floats that were given."""
        jws = rec.toJWSString('R1')
        r = ref.parse_jws(jws)
        info = dict(jws=jws, rid=rid, amounts=amounts, kind=kind, failed=failed)
        ctx.check(r.cls != ref.BAD, 'the receipt is malformed', **info)
        ctx.check(r.header64 == ref.HEADER64, 'header', **info)
        ctx.check((r.zda, r.reg, r.rid, r.serial) == (dev.zda, self.reg, rid, dev.serial),
                  'texts of the receipt', got=[r.zda, r.reg, r.rid, r.serial],
                  want=[dev.zda, self.reg, rid, dev.serial], **info)
        ctx.check(r.dt == dt.strftime('%Y-%m-%dT%H:%M:%S'), 'time', got=r.dt, want=str(dt), **info)
        for s, x in zip(r.sums, amounts):
            ctx.check(ref.SUM.fullmatch(s) and
                      abs(Decimal(s.replace(',', '.')) - Decimal(x)) <= Decimal('0.005'),
                      'amount', got=s, want=repr(x), **info)
        if kind != 'training':
            self.tc += r.cents
        if kind == 'standard':
            ctx.check(len(r.tc) == self.size, 'size of the turnover counter', got=len(r.tc), **info)
            got = ref.dec_counter(self.key, self.reg, rid, r.tc)
            ctx.check(got == self.tc, 'turnover counter', got=got, want=self.tc, **info)
        else:
            ctx.check(r.tc == {'training': b'TRA', 'reversal': b'STO'}[kind], 'marker', got=r.tc, **info)
        ctx.check(r.chain == ref.chain_value(self.reg if self.last is None else self.last),
                  'chaining value', got=r.chain, last=self.last, **info)
        if failed:
            ctx.check(r.broken, 'the outage marker is missing', **info)
            ctx.count('failed device')
        else:
            ctx.check(not r.broken, 'outage marker although the device works', **info)
            ctx.check(ref.verify_es256(dev.key.pub, r.signed, ref.unb64u(r.sig)), 'signature', **info)
        self.last = jws
        ctx.count('receipts')
        ctx.count('kind:' + kind)
        return r

    def register(self, ctx, reg):
        ctx.check(reg.lastReceiptSig == self.last and reg.turnoverCounter == self.tc and
                  reg.registerId == self.reg and reg.turnoverCounterSize == self.size,
                  'state of the register', got=[reg.lastReceiptSig, reg.turnoverCounter],
                  want=[self.last, self.tc])


def plan(ctx, devs, sim, n, legal=True, fail_p=.15):
    """Requests, from the simulator of the generator (its texts are not used)."""
    rng = ctx.rng
    out = []
    # (strftime does not fill up the years before 1000)
    sim.t = max(sim.t, int((datetime.datetime(1000, 1, 1) - gen.EPOCH).total_seconds()))
    for _ in range(n):
        if legal:
            m = sim.legal(devs, fail_p)
        else:
            m = sim.emit(rng.choice(devs), rng.choice(['standard', 'training', 'reversal']),
                         rng.choice([0, sim.amount()]), rng.random() < .4)
        out.append((m.dev, m.rid, datetime.datetime.strptime(m.dt, '%Y-%m-%dT%H:%M:%S'),
                    [int(s.replace(',', '')) for s in m.sums], m.kind, m.failed))
    return out


def dev_of(d):
    d.pem = getattr(d, 'pem', None) or d.key.priv_pem()
    d.ok = S.SignatureSystemWorking(d.zda, d.serial, d.pem)
    d.bad = S.SignatureSystemBroken(d.zda, d.serial)
    return d


def small(rng, ctx, **o):
    """Key store, devices and simulator with amounts that floats can express."""
    ks, devs, sim, closed, certful = common.setup(rng, ndev=rng.choice([1, 2, 3]), big=False, **o)
    return ks, [dev_of(d) for d in devs], sim, certful


def call(reg, dev_sys, rid, dt, amounts, kind):
    return reg.receipt('R1', rid, dt, *amounts, dev_sys, kind == 'training', kind == 'reversal')


def floats(rng, cents):
    return [c / 100 if rng.random() < .8 or c % 100 else c // 100 for c in cents]


def whole(ctx, devs, ks, metas, certful, key, cluster=None, idx=None):
    """(dev, jws) in order: the DEP has to verify."""
    groups, cur = [], None
    for d, jws in metas:
        if cur is None or certful and (cur[3] is not d or ctx.rng.random() < .1):
            cur = ([], d.cert if certful else None, list(d.chain) if certful else [], d)
            groups.append(cur)
        cur[0].append(jws)
    groups = [g[:3] for g in groups]
    res = ref.verify(groups, ks, key, cluster, idx)
    ctx.check(res.ok is not None, 'the DEP breaks the rules', expected=sorted(res.exact or [], key=repr),
              groups=[g[0] for g in groups])
    out = modes.run(modes.Mode(entry='dep'), gen.make_dep(groups), modes.real_ks(ks), key,
                    modes.real_state(cluster) if cluster is not None else None, idx)
    modes.expect(ctx, res, out, modes.Mode(entry='dep'), groups=[g[0] for g in groups])
    ctx.count('verified')
    return res.ok


# ------------------------------------------------------------------ register

def histories(ctx):
    rng = ctx.rng
    ks, devs, sim, certful = small(rng, ctx)
    cl = None
    start = None
    for regno in range(rng.choice([1, 1, 2, 3]) if sim.reg and devs[0].zda == 'AT0' else 1):
        if regno:
            ctx.count('cluster')
            o = dict(reg=sim.reg, key=sim.key, ids=sim.ids, t=sim.t, big=False)
            sim = gen.Sim(rng, chain_to=start, **o)
        legal = rng.random() < .7
        many = rng.random() < .03
        ctx.count('long session', many)
        todo = plan(ctx, devs, sim, rng.choice([130, 300]) if many else rng.randrange(1, 15), legal,
                    rng.choice([0, .15, .4]))
        size = sim.size
        m = Model(sim.reg, sim.key, size, 0, start)
        wrong = rng.choice([0, 1, 4, 17, 18, 32, -8, 255])
        try:
            C.CashRegister(sim.reg, start, 0, sim.key, wrong)
        except Exception:
            pass
        else:
            ctx.fail('a register with an impossible size of the turnover counter', size=wrong)
        reg = C.CashRegister(sim.reg, start, rng.choice([0, 0.0]), sim.key, size) if size != 8 or \
            rng.random() < .5 else C.CashRegister(sim.reg, start, 0, sim.key)
        scale = rng.choice([1, 1, 1, 1000]) if size > 5 else 1
        done = []
        for dev, rid, dt, cents, kind, failed in todo:
            amounts = floats(rng, [c * scale for c in cents])
            if rng.random() < .1 and any(cents):
                amounts = [a + rng.uniform(-.0049, .0049) for a in amounts]
                ctx.count('sub-cent')
            if rng.random() < .15:
                dt = dt.replace(microsecond=rng.randrange(10**6))
            rec = call(reg, dev.bad if failed else dev.ok, rid, dt, amounts, kind)
            r = m.expect(ctx, rec, dev, rid, dt, amounts, kind, failed)
            m.register(ctx, reg)
            ctx.check(rec.isNull() == r.null and rec.isDummy() == (kind == 'training') and
                      rec.isReversal() == (kind == 'reversal') and rec.isSignedBroken() == failed,
                      'kind of the receipt object', jws=m.last)
            if not done:
                start = m.last
            done.append((dev, m.last))
            if rng.random() < .1:
                reg = C.CashRegister(sim.reg, m.last, m.tc, sim.key, size)
                ctx.count('recreated')
        if not legal:
            # Still judged the same by everybody.
            groups = [([j for _, j in done], None, [])] if not certful else \
                [([j], d.cert, list(d.chain)) for d, j in done]
            res = ref.verify(groups, ks, sim.key, cl, None)
            out = modes.run(modes.Mode(entry='dep'), gen.make_dep(groups), modes.real_ks(ks), sim.key,
                            modes.real_state(cl) if cl is not None else None, None)
            modes.expect(ctx, res, out, modes.Mode(entry='dep'), groups=groups)
            cl = res.ok
            if cl is None:
                break
        else:
            cl = whole(ctx, devs, ks, done, certful, sim.key, cl)
    ctx.distinct('history', [t[3:] for t in todo])


# ------------------------------------------------------------------ atomicity

class Failing(object):
    def __init__(self, dev, how):
        self.zda, self.serial, self.how = dev.zda, dev.serial, how

    def sign(self, data, algorithm):
        if self.how == 'raise':
            raise IOError('device unplugged')
        if self.how == 'text':
            return 'no signature'
        if self.how == 'none':
            return None
        return 'a.b'


def atomic(ctx):
    rng = ctx.rng
    ks, devs, sim, certful = small(rng, ctx)
    todo = plan(ctx, devs, sim, rng.randrange(2, 9))
    size = sim.size
    m = Model(sim.reg, sim.key, size)
    reg = C.CashRegister(sim.reg, None, 0, sim.key, size)
    done = []
    for dev, rid, dt, cents, kind, failed in todo:
        amounts = floats(rng, cents)
        for _ in range(rng.choice([0, 1, 1, 2])):
            how = rng.choice(['raise', 'text', 'none', 'two', 'overflow', 'overflow', 'nan', 'inf',
                              'algorithm', 'key', 'time', 'amount'])
            a, k, sys_, t, prefix = list(amounts), kind, Failing(dev, how), dt, 'R1'
            if how not in ('raise', 'text', 'none', 'two'):
                sys_ = rng.choice([dev.ok, dev.bad])
            key = reg.key
            if how == 'overflow':
                k = 'standard'
                if size > 9:
                    a[rng.randrange(5)] = rng.choice([-1, 1]) * float(1 << (8 * size))
                else:
                    a[rng.randrange(5)] = rng.choice([-1, 1]) * (1 << (8 * size - 1)) / 10.
            elif how in ('nan', 'inf'):
                a[rng.randrange(5)] = float(how)
                k = 'standard'
            elif how == 'algorithm':
                prefix = 'R9'
            elif how == 'key':
                k = 'standard'
                reg.key = rng.choice([b'', b'short', sim.key + b'x'])
            elif how == 'time':
                t = None
            elif how == 'amount':
                a[rng.randrange(5)] = rng.choice([None, 'x'])
            try:
                reg.receipt(prefix, rid, t, *a, sys_, k == 'training', k == 'reversal')
                ctx.fail('a receipt was issued: ' + how, amounts=repr(a), size=size)
            except core.Violation:
                raise
            except Exception as e:
                ctx.count('atomic:' + how)
            finally:
                reg.key = key
            m.register(ctx, reg)
        rec = call(reg, dev.bad if failed else dev.ok, rid, dt, amounts, kind)
        m.expect(ctx, rec, dev, rid, dt, amounts, kind, failed)
        m.register(ctx, reg)
        done.append((dev, m.last))
    whole(ctx, devs, ks, done, certful, sim.key)
    ctx.distinct('atomic', [t[3:] for t in todo])


# ------------------------------------------------------------------ signing service

class Service(object):
    """The signing service of one device, on the loopback interface."""

    def __init__(self):
        self.fault, self.seen, self.dev, self.n = None, [], None, 0
        svc = self

        class H(http.server.BaseHTTPRequestHandler):
            def log_message(self, *a):
                pass

            def reply(self, code, body, ctype='application/json', length=None):
                self.send_response(code)
                self.send_header('Content-Type', ctype)
                self.send_header('Content-Length', str(len(body) if length is None else length))
                self.end_headers()
                self.wfile.write(body)

            def do_GET(self):
                p = [x for x in self.path.split('/') if x]
                svc.gets.append(self.path)
                if p[-2:] == [svc.user, 'Certificate']:
                    self.reply(200, json.dumps({'ZertifikatsseriennummerHex': svc.dev.serial, 'alg': svc.alg,
                                                'Signaturzertifikat': 'x'}).encode())
                elif p[-2:] == [svc.user, 'ZDA']:
                    self.reply(200, json.dumps({'zdaid': svc.dev.zda}).encode())
                else:
                    self.reply(404, b'{}')

            def do_POST(self):
                body = self.rfile.read(int(self.headers.get('Content-Length', 0)))
                svc.seen.append((self.path, body))
                svc.answer(self, body)

        class T(http.server.ThreadingHTTPServer):
            daemon_threads = True

            def handle_error(self, *a):
                pass

        self.server = T(('127.0.0.1', 0), H)
        t = threading.Thread(target=self.server.serve_forever, kwargs={'poll_interval': .05})
        t.daemon = True
        t.start()
        s = socket.socket()
        s.bind(('127.0.0.1', 0))
        self.dead = s               # bound, but not listening
        self.deadport = s.getsockname()[1]

    def url(self, dead=False):
        return 'http://127.0.0.1:%d/v2/' % (self.deadport if dead else self.server.server_address[1])

    def answer(self, h, body):
        f = self.fault
        try:
            data = json.loads(body.decode('utf-8'))['jws_payload']
        except Exception:
            data = ''
        signed = ref.HEADER64 + '.' + ref.b64u(data.encode('utf-8'))
        self.n += 1
        jws = signed + '.' + ref.b64u(ec.sign_raw(self.dev.key.priv, signed.encode(), b'%d' % self.n))
        good = json.dumps({'result': jws}).encode()
        if f is None:
            self.jws = jws
            return h.reply(200, good)
        if f == 'reset':
            h.connection.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            h.close_connection = True
            # Both wrappers have to be gone before the socket is.
            h.rfile.close()
            h.connection.close()
            return
        if f == 'closed':
            h.close_connection = True
            return
        if f == 'truncated':
            h.reply(200, good[:-20], length=len(good))
            h.close_connection = True
            return
        if f in ('400', '401', '404', '500', '503'):
            return h.reply(int(f), b'{"message": "no"}')
        if f == '500 with result':
            return h.reply(500, good)
        if f == 'bad status line':
            h.wfile.write(b'HTTQ/9 what\r\n\r\n')
            h.close_connection = True
            return
        if f == 'bad chunks':
            h.send_response(200)
            h.send_header('Transfer-Encoding', 'chunked')
            h.end_headers()
            h.wfile.write(b'zz\r\n' + good)
            h.close_connection = True
            return
        p = jws.split('.')
        v = {
            'garbage': bytes(self.rng.randrange(256) for _ in range(40)), 'html': b'<html>Wartung</html>',
            'not utf8': b'{"result": "\xff\xfe"}', 'empty': b'', 'list': json.dumps([jws]).encode(),
            'null': b'null', 'no result': json.dumps({'Result': jws}).encode(),
            'text': json.dumps(jws).encode(),
        }.get(f)
        if v is None:
            v = json.dumps({'result': {
                'result null': None, 'result number': 12, 'result list': [jws], 'result object': {'jws': jws},
                'result empty': '', 'two parts': p[0] + '.' + p[2], 'four parts': jws + '.' + p[2],
                'payload': '.'.join([p[0], ref.b64u(b'_R1-AT1_x_y'), p[2]]),
                'header': '.'.join([ref.b64u(b'{"alg":"HS256"}'), p[1], p[2]]),
                'bad base64': '.'.join([p[0], p[1], '*' + p[2][1:]]), 'padded': jws + '==',
                'no signature': '.'.join([p[0], p[1], '']), 'space': jws + '\n',
                'unicode signature': '.'.join([p[0], p[1], u'\xe4' + p[2]]),
                'no payload': '.'.join([p[0], '', p[2]]),
            }[f]}).encode()
        return h.reply(200, v, 'text/html' if f == 'html' else 'application/json')


_service = []


def service(ctx):
    rng = ctx.rng
    if not _service or _service[0] != os.getpid():
        _service[:] = [os.getpid(), Service()]
    svc = _service[1]
    svc.rng = random.Random(rng.random())
    svc.gets, svc.fault, svc.alg = [], None, 'ES256'
    svc.user = 'u%09d' % rng.randrange(10**9)
    password = rng.choice(['123456789', u'p\xe4ss"w\\ord', ''])
    ks, devs, sim, certful = small(rng, ctx, closed=False)
    dev = svc.dev = devs[0]
    # The service gives its serial as hexadecimal text.
    todo = plan(ctx, [dev], sim, rng.randrange(3, 14), rng.random() < .7,
                rng.choice([.3, .5]))
    Sys = type('Sys', (S.SignatureSystemATrustMobile,), {'ATrustURL': svc.url()})
    try:
        sysd = Sys(svc.user, password, rng.choice([True, False]))
        ctx.check(sysd.zda == dev.zda and sysd.serial == dev.serial, 'identity of the signing service',
                  zda=sysd.zda, serial=sysd.serial)
        m = Model(sim.reg, sim.key, sim.size)
        reg = C.CashRegister(sim.reg, None, 0, sim.key, sim.size)
        done, was, faults = [], False, []
        for dev, rid, dt, cents, kind, failed in todo:
            f = FAULTS[(ctx.index // 8 + rng.randrange(len(FAULTS))) % len(FAULTS)] if failed else None
            faults.append(f)
            svc.fault, svc.seen, svc.jws = f, [], None
            sysd.ATrustURL = svc.url(f == 'refused')
            amounts = floats(rng, cents)
            try:
                rec = call(reg, sysd, rid, dt, amounts, kind)
            except Exception as e:
                if not f:
                    raise
                ctx.fail('no receipt was issued although only the service failed (%s): %s: %s'
                         % (f, type(e).__name__, e), fault=f)
            r = m.expect(ctx, rec, dev, rid, dt, amounts, kind, failed)
            m.register(ctx, reg)
            ctx.check(f == 'refused' or svc.seen, 'the service was not asked')
            for path, body in svc.seen:
                d = json.loads(body.decode('utf-8'))
                ctx.check(d.get('jws_payload') == r.payload and d.get('password') == password and
                          [x for x in path.split('/') if x] == ['v2', svc.user, 'Sign', 'JWS'],
                          'request to the service', path=path, body=body, want=r.payload)
            if f:
                ctx.count('fault:' + f)
            else:
                ctx.count('service ok')
                if was:
                    ctx.count('service back')
            was = bool(f)
            done.append((dev, m.last))
        groups = [([j for _, j in done], dev.cert if certful else None,
                   list(dev.chain) if certful else [])]
        res = ref.verify(groups, ks, sim.key)
        out = modes.run(modes.Mode(entry='dep'), gen.make_dep(groups), modes.real_ks(ks), sim.key)
        modes.expect(ctx, res, out, modes.Mode(entry='dep'), groups=groups, faults=faults)
        # A service for another algorithm is not asked to sign.
        svc.alg, svc.fault, svc.seen = rng.choice(['RS256', 'ES384', 'ES512', 'es256', 'ES25', 'none', 'E', 'HS256']), None, []
        other = Sys(svc.user, password, True)
        try:
            rec = call(reg, other, 'other', dt, [0.0] * 5, 'standard')
            ctx.check(ref.parse_jws(rec.toJWSString('R1')).broken, 'signed with another algorithm')
            return
        except core.Violation:
            raise
        except Exception:
            m.register(ctx, reg)
        ctx.distinct('service', faults, [t[3:] for t in todo])
        ctx.sample(service_faults=faults, kinds=[t[4] for t in todo])
    finally:
        svc.fault = None


# ------------------------------------------------------------------ test descriptions

def x5(pem):
    return x509.load_der_x509_certificate(base64.b64decode(pem), default_backend())


def signed_by(c, i):
    try:
        k = i.public_key()
        if isinstance(k, cec.EllipticCurvePublicKey):
            k.verify(c.signature, c.tbs_certificate_bytes, cec.ECDSA(c.signature_hash_algorithm))
        else:
            k.verify(c.signature, c.tbs_certificate_bytes, padding.PKCS1v15(), c.signature_hash_algorithm)
        return True
    except InvalidSignature:
        return False


def description(ctx):
    """A test description with its key material, as a random legal sequence."""
    rng = ctx.rng
    closed = rng.random() < .45
    n = rng.choice([1, 1, 2, 3])
    start = rng.randrange(30)
    ids = set()
    keys, mat = [], []
    usual = True        # serials a certificate can be made with
    for i in range(n):
        k = gen.key('p256', start + i)
        keys.append(k)
        if closed:
            mat.append((k.spki_pem(), k.priv_pem()))
        else:
            c = gen.make_chain(rng, k, 0, ids)[0]
            usual = usual and 0 < c.serial < 1 << 159
            mat.append((c.pem(), k.priv_pem()))
    spec = {
        'simulationRunLabel': 'run%d' % rng.randrange(100), 'cashBoxId': gen.ident(rng).replace('_', ''),
        'companyID': rng.choice(['U:ATU%08d' % rng.randrange(10**8), 'S:%09d' % rng.randrange(10**9),
                                 'G:%013d' % rng.randrange(10**13)]) if closed
        else 'U:ATU%08d' % rng.randrange(10**8),
        'base64AesKey': ref.b64(bytes(rng.randrange(256) for _ in range(32))),
        'numberOfSignatureDevices': n, 'cashBoxInstructionList': []}
    groups = rng.random() < .5
    if groups or rng.random() < .3:
        spec['multipleGroups'] = groups
    if rng.random() < .4:
        spec['turnoverCounterSize'] = rng.choice([5, 6, 7, 8, 9, 12, 16])
    if rng.random() < .3:
        spec['includePublicKey'] = rng.random() < .6
    if not closed and rng.random() < .3:
        spec['decimalSerial'] = True
    odd = False
    if not closed and groups and rng.random() < .6:
        spec['certChainLength'] = [rng.choice([0, 1, 2, 3]) for _ in range(n)]
        if rng.random() < .3:
            spec['certChainFailure'] = [rng.choice([0, 1, 2]) for _ in range(n)]
            odd = odd or any(0 < f <= l for f, l in zip(spec['certChainFailure'], spec['certChainLength']))
    if groups and rng.random() < .15:
        spec['omitSignCert'] = [rng.random() < .5 for _ in range(n)]
        odd = odd or any(spec['omitSignCert'])
    if rng.random() < .15:
        spec['omitRootCert'] = [rng.random() < .5 for _ in range(n)]
        odd = odd or any(spec['omitRootCert'])
    if usual and rng.random() < .15:
        spec['certChainSerialCollision'] = [rng.random() < .5 for _ in range(n)]
        odd = odd or any(spec['certChainSerialCollision'])
    # several DEPs: only one cash box, so that they share it
    multi = rng.choice([None, None, 'continued', 'cluster', 'both']) if closed else \
        rng.choice([None, None, None, 'continued'])
    ids = gen.Ids(rng)
    t = rng.randrange(10**7)
    resize = rng.random() < .15
    regs = [gen.Sim(rng, big=False, ids=ids, t=t, reg=spec['cashBoxId'])]
    devs = [gen.Dev('AT0', str(i), k) for i, k in enumerate(keys)]
    cur = 0
    plan = []       # (register, new register?, new DEP?)
    often = .25
    if closed and ctx.index % 5 < 2:
        multi, often = 'both', .7
    for i in range(rng.randrange(1, 16)):
        ins = {}
        newdep = i > 0 and multi and rng.random() < often
        if newdep:
            if multi == 'cluster' or (multi == 'both' and rng.random() < .5):
                ins['beginNewDEP'] = 'NEW_CLUSTER_DEP'
                regs.append(gen.Sim(rng, big=False, ids=ids, t=regs[cur].t, reg=spec['cashBoxId'],
                                    chain_to='x'))
                cur = len(regs) - 1
            else:
                ins['beginNewDEP'] = 'NEW_CONTINUED_DEP'
                if len(regs) > 1 and rng.random() < .7 or rng.random() < .2:
                    cur = ins['continueRegister'] = rng.randrange(len(regs))
        elif rng.random() < .1:
            ins['beginNewDEP'] = 'NO_NEW_DEP'
        sim = regs[cur]
        sim.t = max(x.t for x in regs)
        m = sim.legal(devs, .15)
        ins.update(usedSignatureDevice=int(m.dev.serial), signatureDeviceDamaged=m.failed,
                   dateToUse=m.dt, receiptIdentifier=m.rid,
                   simplifiedReceipt=dict(zip(['taxSetNormal', 'taxSetErmaessigt1', 'taxSetErmaessigt2',
                                               'taxSetNull', 'taxSetBesonders'],
                                              floats(rng, [int(s.replace(',', '')) for s in m.sums]))))
        if m.kind != 'standard' or rng.random() < .3:
            ins['typeOfReceipt'] = {'training': 'TRAINING_BELEG', 'reversal': 'STORNO_BELEG',
                                    'standard': rng.choice(['STANDARD_BELEG', 'NULL_BELEG', 'START_BELEG',
                                                            'MONATS_BELEG'])}[m.kind]
        if rng.random() < .15:
            ins['annotateTurnoverCounter'] = rng.choice([m.tc, 12345, -7]) or 5
        if resize and rng.random() < .3:
            ins['override'] = {'turnoverCounterSize': rng.choice([5, 6, 7, 8, 9, 12, 15, 16])}
            ctx.count('counter size changed')
        spec['cashBoxInstructionList'].append(ins)
        plan.append((cur, m))
    return spec, mat, keys, closed, groups, odd, plan, multi


def judge(ctx, spec, mat, keys, closed, groups, odd, plan, deps, ksj, tcsize=None):
    """Compares the DEPs and the key store with the description."""
    rng = ctx.rng
    ins = spec['cashBoxInstructionList']
    n = len(keys)
    key = base64.b64decode(spec['base64AesKey'])
    size = tcsize or spec.get('turnoverCounterSize', 8)
    flag = lambda name, d: spec.get(name, [d] * n)
    # what the DEPs consist of
    want, extras, first = [], [], {}
    lastdep, prevstart = {}, 0
    # the known finding: a register started after another one was continued is taken for the one
    # following the continued one when it comes to which DEP its last one is
    stale, cur, asis = [], -1, []
    for i, x in enumerate(ins):
        c = plan[i][0]
        nd = x.get('beginNewDEP', 'NO_NEW_DEP')
        if not want or nd != 'NO_NEW_DEP':
            ex = {}
            if want:
                if nd == 'NEW_CLUSTER_DEP':
                    ex['Vorheriges-DEP'] = prevstart
                else:
                    ex['Vorheriges-DEP'] = lastdep[c] if 'continueRegister' in x else len(want) - 1
                    ex['Fortgesetztes-DEP'] = True
                wrong = dict(ex)
                stale[cur] = len(want) - 1
                if 'continueRegister' in x:
                    cur = x['continueRegister']
                    wrong['Vorheriges-DEP'] = stale[cur]
                asis.append(wrong)
            else:
                asis.append(dict(ex))
            want.append([])
            extras.append(ex)
        lastdep[c] = len(want) - 1
        if c not in first:
            first[c] = i
            prevstart = len(want) - 1
            stale.append(len(want) - 1)
            cur += 1
        g = want[-1]
        s = x['usedSignatureDevice']
        if not g or (groups and g[-1][0] != s):
            g.append((s, []))
        g[-1][1].append(i)
        extras[-1].pop('Umsatz-gesamt', None)
        if 'annotateTurnoverCounter' in x:
            extras[-1]['Umsatz-gesamt'] = x['annotateTurnoverCounter']
    ctx.check(isinstance(deps, list) and len(deps) == len(want), 'number of DEPs', got=len(deps),
              want=len(want), spec=spec)
    models, seen, jwss = {}, {}, {}
    sys_of = {}
    for di, (dep, wg, ex) in enumerate(zip(deps, want, extras)):
        wrong = asis[di].get('Vorheriges-DEP')
        if wrong != ex.get('Vorheriges-DEP') and isinstance(dep, dict) and dep.get('Vorheriges-DEP') == wrong:
            ctx.known_finding('C26-cluster-after-continue', CLUSTER % (wrong, ex['Vorheriges-DEP']))
            ex = dict(ex, **{'Vorheriges-DEP': wrong})
        got = c22.groups_in(ctx, json.loads(json.dumps(dep)), 'runTest', sorted(ex.items()))
        ctx.check([len(g[0]) for g in got] == [len(w[1]) for w in wg], 'receipts of the groups',
                  got=[len(g[0]) for g in got], want=[w[1] for w in wg], spec=spec)
        for (recs, cert, chain), (s, idxs) in zip(got, wg):
            omit = flag('omitSignCert', False)[s]
            if not groups:
                ctx.check(cert == '' and chain == [], 'certificates in a DEP without any', cert=cert)
            else:
                ctx.check(seen.setdefault(s, (cert, chain)) == (cert, chain), 'certificates of a device differ')
                ctx.check((cert == '') == bool(omit), 'signature certificate', cert=cert, omit=omit)
                ln = 0 if closed or omit else flag('certChainLength', 0)[s]
                ctx.check(len(chain) == ln, 'length of the chain', got=len(chain), want=ln)
            for jws, i in zip(recs, idxs):
                x = ins[i]
                c, pm = plan[i]
                s = x['usedSignatureDevice']
                r = ref.parse_jws(jws)
                ctx.check(r.cls != ref.BAD, 'malformed receipt', jws=jws, spec=spec)
                sys_of.setdefault(s, (r.zda, r.serial))
                ctx.check(sys_of[s] == (r.zda, r.serial), 'identity of the device changes', jws=jws)
                ctx.check(r.zda == 'AT0' if closed else r.zda != 'AT0', 'ZDA', zda=r.zda)
                if c not in models:
                    st = jwss[first[c - 1]] if c else None
                    models[c] = Model(spec['cashBoxId'], key, size, 0, st)
                if 'turnoverCounterSize' in x.get('override', ()):
                    models[c].size = x['override']['turnoverCounterSize']
                d = gen.Dev(r.zda, r.serial, Signer(keys[s], seen.get(s), spec, s, closed))
                models[c].expect(ctx, Text(jws), d, x['receiptIdentifier'],
                                 datetime.datetime.strptime(x['dateToUse'], '%Y-%m-%dT%H:%M:%S'),
                                 list(x['simplifiedReceipt'].values()), pm.kind, x['signatureDeviceDamaged'])
                jwss[i] = jws
    store = ksj['certificateOrPublicKeyMap']
    ctx.check(ksj.get('base64AESKey') == spec['base64AesKey'] and
              set(ksj) == {'certificateOrPublicKeyMap', 'base64AESKey'}, 'key store', got=ksj)
    certs = 0
    pubs = {}
    for i in range(n):
        root = (not closed or groups) and not flag('omitRootCert', False)[i]
        certs += root
        if closed or spec.get('includePublicKey'):
            pubs['%s-K%d' % (spec['companyID'], i)] = i
        if i not in sys_of:
            continue
        ser = sys_of[i][1]
        if closed:
            ctx.check(ser == '%s-K%d' % (spec['companyID'], i), 'key ID', got=ser)
            continue
        leaf = x5(seen[i][0]) if i in seen and seen[i][0] else None
        if leaf is None and not flag('certChainLength', 0)[i]:
            leaf = x5(strip(mat[i][0]))
        if leaf is not None:
            w = abs(leaf.serial_number)
            ctx.check(ser == ('%d' % w if spec.get('decimalSerial') else '%x' % w), 'serial in the receipts',
                      got=ser, want=w)
    gotc = {k: v for k, v in store.items() if v['signatureDeviceType'] == 'CERTIFICATE'}
    gotp = {k: v for k, v in store.items() if v['signatureDeviceType'] == 'PUBLIC_KEY'}
    ctx.check(len(gotc) + len(gotp) == len(store) and all(v['id'] == k for k, v in store.items()) and
              set(gotp) == set(pubs) and len(gotc) == certs, 'entries of the key store',
              got=sorted(store), spec=spec)
    for k, v in gotc.items():
        ctx.check('%x' % abs(x5(v['signatureCertificateOrPublicKey']).serial_number) == k, 'ID of a root')
    for k, i in pubs.items():
        der = base64.b64decode(gotp[k]['signatureCertificateOrPublicKey'])
        if closed or not flag('certChainLength', 0)[i]:
            ctx.check(der == keys[i].spki(), 'public key of the store', id=k)
    for i, (cert, chain) in seen.items():
        if not cert:
            continue
        cs = [x5(cert)] + [x5(c) for c in chain]
        if not closed:
            ctx.check(base64.b64decode(([cert] + chain)[-1]) == base64.b64decode(strip(mat[i][0])),
                      'the given certificate is not the root of the chain')
        f = flag('certChainFailure', 0)[i] if not closed else 0
        for j in range(len(cs) - 1):
            # certificate j is intermediate number j + 1
            ctx.check(signed_by(cs[j], cs[j + 1]) == (f != j + 1), 'signatures of the chain', at=j, failure=f)
        if flag('omitRootCert', False)[i]:
            continue
        rid = '%x' % abs(cs[0 if flag('certChainSerialCollision', False)[i] else -1].serial_number)
        if closed and not flag('certChainSerialCollision', False)[i]:
            rid = '%x' % abs(cs[0].serial_number)
        ctx.check(rid in gotc, 'the root is missing in the key store', want=rid, got=sorted(gotc))
        same = x5(gotc[rid]['signatureCertificateOrPublicKey']).public_key().public_numbers() == \
            cs[-1].public_key().public_numbers()
        ctx.check(same != bool(flag('certChainSerialCollision', False)[i]), 'key of the root')
    return key, extras, want


class Text(object):
    def __init__(self, jws):
        self.jws = jws

    def toJWSString(self, prefix):
        return self.jws


class Signer(object):
    """The key a device signs with, as far as it is known."""

    def __init__(self, k, certs, spec, i, closed):
        self.pub = k.pub
        if not closed and spec.get('certChainLength', [0] * 9)[i]:
            if certs and certs[0]:
                self.pub = x5(certs[0]).public_key()
            else:
                self.pub = None


def strip(pem):
    return ''.join(l for l in pem.splitlines() if '-----' not in l)


def described(ctx):
    rng = ctx.rng
    spec, mat, keys, closed, groups, odd, plan, multi = description(ctx)
    if odd and any(spec.get('omitSignCert', [])) and any(spec.get('certChainLength', [])):
        del spec['omitSignCert']        # the signing keys would be unknown
    tcsize = rng.choice([None, None, None, 5, 9, 16])
    before = json.dumps(spec)
    deps, ksj = modes.run_test.runTest(spec, mat, closed, tcsize) if tcsize or rng.random() < .5 \
        else modes.run_test.runTest(spec, mat, closed)
    ctx.check(json.dumps(spec) == before, 'the description was changed')
    ctx.check(json.loads(json.dumps([deps, ksj])) == [deps, ksj], 'the results are not plain JSON')
    key, extras, want = judge(ctx, spec, mat, keys, closed, groups, odd, plan, deps, ksj, tcsize)
    ctx.count('test case ' + ('closed' if closed else 'open'))
    ctx.count('test case groups', groups)
    ctx.count('test case chain', 'certChainLength' in spec)
    for x in spec['cashBoxInstructionList']:
        nd = x.get('beginNewDEP')
        if nd == 'NEW_CLUSTER_DEP':
            ctx.count('test case cluster')
        if nd == 'NEW_CONTINUED_DEP':
            ctx.count('test case continued')
    if not odd:
        # The real verifier has to accept them one after the other.
        store = modes.key_store.KeyStore.readStoreFromJson(json.loads(json.dumps(ksj)))
        st = None
        nreg = 0
        owner = []
        at = 0
        for di, dep in enumerate(deps):
            c = plan[at][0]
            at += sum(len(g[1]) for g in want[di])
            idx = c if c < nreg else None
            nreg = max(nreg, c + 1)
            out = modes.outcome(lambda: modes.verify.verifyDEP(dep, store, key, st, idx))
            ctx.check(out[0] == 'ok', 'a DEP made from a correct description does not verify: %s'
                      % (modes.brief(out),), dep=dep, spec=spec, number=di)
            st = out[1]
        ctx.count('test case verified')
    ctx.distinct('described', [(p[0], p[1].kind, p[1].failed) for p in plan], sorted(spec))


# ------------------------------------------------------------------ scripts

# Python 3.11 removed an argument that run_test.py still gives.
WRAP = '''
import gettext, os, runpy, sys
install = gettext.install
gettext.install = lambda domain, localedir=None, *a: install(domain, localedir)
repo = sys.argv[1]
sys.argv = sys.argv[2:]
sys.path.insert(0, repo)
runpy.run_path(os.path.join(repo, sys.argv[0]), run_name='__main__')
'''


def scripts(ctx):
    rng = ctx.rng
    tmp = ctx.scratch()
    if (ctx.index // SCRIPTS) % 2 == 0:
        spec, mat, keys, closed, groups, odd, plan, multi = description(ctx)
        if 'omitSignCert' in spec:
            del spec['omitSignCert']
        spec['simulationRunLabel'] = os.path.join(tmp, spec['simulationRunLabel'])
        n = spec['numberOfSignatureDevices']
        args = ['closed' if closed else 'open', os.path.join(tmp, 'spec.json')]
        with open(args[1], 'w') as f:
            json.dump(spec, f)
        for i, (pub, priv) in enumerate(mat):
            for name, t in (('priv%d' % i, priv), ('pub%d' % i, pub)):
                with open(os.path.join(tmp, name), 'w') as f:
                    f.write(t)
                args.append(os.path.join(tmp, name))
        tcsize = rng.choice([None, None, 7])
        if tcsize:
            args.append(str(tcsize))
        rc, out, err = common.script('run_test.py', args, tmp)
        if rc and "gettext.install('rktool', './lang', True)" in err and 'TypeError: install()' in err:
            ctx.known_finding('C26-run-test-start', 'run_test.py does not start on Python 3.11 and later')
            out = subprocess.run([sys.executable, '-B', '-c', WRAP, core.REPO, 'run_test.py'] + args, cwd=tmp,
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=90)
            rc, out, err = out.returncode, out.stdout, out.stderr.decode('utf-8', 'replace')
        d = spec['simulationRunLabel']
        ctx.check(rc == 0, 'run_test.py failed', err=err, out=out)
        names = sorted(os.listdir(d))
        with open(os.path.join(d, 'cryptographicMaterialContainer.json')) as f:
            ksj = json.load(f)
        deps = []
        k = len(names) - 1
        for i in range(k):
            with open(os.path.join(d, 'dep-export.json' if k == 1 else 'dep-export%d.json' % i)) as f:
                deps.append(json.load(f))
        judge(ctx, spec, mat, keys, closed, groups, odd, plan, deps, ksj, tcsize)
        ctx.count('script run_test.py')
        return
    key = bytes(rng.randrange(256) for _ in range(32))
    k = gen.key('p256', rng.randrange(40))
    n = rng.choice([1, 2, 9])
    ks = ref.Ks()
    files = {'key': ref.b64(key) + rng.choice(['', '\n', '\n', '\r\n', ' \n']), 'priv': k.priv_pem()}
    closed = rng.random() < .5
    if closed:
        kid = 'U:ATU12345678-K%d' % rng.randrange(5)
        files['pub'] = k.spki_pem()
        ks.add_key(kid, k.pub)
        args = ['priv', 'pub', kid, 'key', str(n)]
    else:
        c = gen.make_chain(rng, k, 0, set())[0]
        files['cert'] = c.pem()
        ks.add_cert(c)
        args = ['priv', 'cert', 'key', str(n)]
    for name, t in files.items():
        with open(os.path.join(tmp, name), 'w') as f:
            f.write(t)
    args = [os.path.join(tmp, a) if a in files else a for a in args]
    rc, out, err = common.script('demo.py', args, tmp)
    ctx.check(rc == 0, 'demo.py failed', err=err)
    got = c22.read(ctx, out.decode('utf-8'), 'demo.py')
    ctx.check(len(got) == 1 and len(got[0][0]) == n, 'number of receipts', got=[len(g[0]) for g in got], want=n)
    tc, last = 0, 'PIGGYBANK-007'
    for j in got[0][0]:
        r = ref.parse_jws(j)
        ctx.check(r.cls != ref.BAD and r.reg == 'PIGGYBANK-007' and r.chain == ref.chain_value(last) and
                  ref.verify_es256(k.pub, r.signed, ref.unb64u(r.sig)), 'receipt of demo.py', jws=j)
        if not r.dummy:
            tc += r.cents
        if not r.dummy and not r.reversal:
            ctx.check(ref.dec_counter(key, r.reg, r.rid, r.tc) == tc, 'counter of demo.py', jws=j)
        last = j
    groups = [(got[0][0], None, [])]
    res = ref.verify(groups, ks, key)
    ctx.check(res.ok is not None, 'the DEP of demo.py breaks the rules', exact=sorted(res.exact or [], key=repr))
    modes.expect(ctx, res, modes.run(modes.Mode(entry='dep'), gen.make_dep(groups), modes.real_ks(ks), key),
                 modes.Mode(entry='dep'), groups=groups)
    ctx.count('script demo.py')


def case(ctx):
    if ctx.index % SCRIPTS == 5:
        return scripts(ctx)
    k = ctx.index % 7
    if k < 2:
        histories(ctx)
    elif k == 2:
        atomic(ctx)
    elif k < 5:
        service(ctx)
    else:
        described(ctx)
