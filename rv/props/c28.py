"""C28: receipts on the web."""
import http.server
import json
import os
import random
import socket
import struct
import sys
import threading
import subprocess
import time

import flask

from rv import core, gen, modes, ref
from rv.props import common
from rv.props.c27 import Shell, bad_text, inside, jtext, store_json

from librksv import url_receipt_helpers as U
from librksv import verify_receipt

LEVEL = 'exploration'
LANGUAGE = 'en'     # what the scripts print is read here (other languages: C29)
QUICK, THOROUGH = 2200, 40000
RULE = ('a case asks a loopback server for receipts, with a generated answer, URL and key store, and compares the '
        'verdict with the reference model, or queries the receipt host; distinct by URL form, answer and verdict')
FAULTS = ['reset', 'closed', 'truncated', '400', '403', '404', '410', '500', '503', 'garbage', 'html', 'empty',
          'list', 'null', 'no code', 'text', 'code null', 'code number', 'code list', 'code object', 'code empty',
          'code bool', 'not utf8', 'bad status line', 'bad chunks', 'redirect to nothing', 'refused', 'loop',
          'jws', 'csv', 'ocr']
FORMS = ['path', 'deep path', 'query', 'anchor', 'anchor over path', 'two hashes', 'slash', 'before query',
         'long words', 'wrong last', 'wrong anchor', 'empty anchor', 'no hash', 'joined', 'short', 'long',
         'wrong path', 'other case', 'anchor padded', 'anchor prefix']
MANDATORY = ['fault:' + f for f in FAULTS] + ['form:' + f for f in FORMS] + \
    ['accepted', 'rejected', 'answer other', 'answer tampered', 'answer failing', 'answer redirected',
     'answer malformed', 'host dep', 'host jws', 'host refused', 'host end to end', 'host process', 'extract',
     'verify_receipt.py', 'receipt.py', 'verification_state.py']
B64U = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'


def setup(tier):
    os.environ['NO_PROXY'] = os.environ['no_proxy'] = '*'


# ------------------------------------------------------------------ server

class Server(object):
    def __init__(self):
        srv = self
        self.answers, self.seen = {}, []

        class H(http.server.BaseHTTPRequestHandler):
            def log_message(self, *a):
                pass

            def do_GET(self):
                srv.seen.append(self.path)
                f = srv.answers.get(self.path)
                if f is None:
                    srv.reply(self, 404, b'{"error": "Not found"}')
                else:
                    srv.answer(self, *f)

        class T(http.server.ThreadingHTTPServer):
            daemon_threads = True

            def handle_error(self, *a):
                pass

        self.server = T(('127.0.0.1', 0), H)
        t = threading.Thread(target=self.server.serve_forever, kwargs={'poll_interval': .05})
        t.daemon = True
        t.start()
        s = socket.socket()
        s.bind(('127.0.0.1', 0))
        self.dead = s               # bound, but not listening
        self.base = 'http://127.0.0.1:%d' % self.server.server_address[1]
        self.deadbase = 'http://127.0.0.1:%d' % s.getsockname()[1]

    def reply(self, h, code, body, ctype='application/json', length=None, headers=()):
        h.send_response(code)
        h.send_header('Content-Type', ctype)
        h.send_header('Content-Length', str(len(body) if length is None else length))
        for k, v in headers:
            h.send_header(k, v)
        h.end_headers()
        h.wfile.write(body)

    def answer(self, h, fault, body, code):
        if fault is None:
            return self.reply(h, 200, body)
        if fault.startswith('redirect:'):
            return self.reply(h, 302, b'', headers=[('Location', fault[9:])])
        if fault == 'redirect to nothing':
            return self.reply(h, 302, body, headers=[('Location', '/nothing/here')])
        if fault == 'loop':
            return self.reply(h, 302, body, headers=[('Location', h.path)])
        if fault == 'reset':
            h.connection.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            h.close_connection = True
            h.rfile.close()
            h.connection.close()
            return
        if fault == 'closed':
            h.close_connection = True
            return
        if fault == 'truncated':
            self.reply(h, 200, body[:-20], length=len(body))
            h.close_connection = True
            return
        if fault.isdigit():
            return self.reply(h, int(fault), body)
        if fault == 'bad status line':
            h.wfile.write(b'HTTQ/9 what\r\n\r\n')
            h.close_connection = True
            return
        if fault == 'bad chunks':
            h.send_response(200)
            h.send_header('Transfer-Encoding', 'chunked')
            h.end_headers()
            h.wfile.write(b'zz\r\n' + body)
            h.close_connection = True
            return
        r = ref.parse_code(code)
        v = {'garbage': os.urandom(40), 'html': b'<html>' + code.encode('utf-8') + b'</html>', 'empty': b'',
             'list': json.dumps([code]).encode(), 'null': b'null', 'no code': json.dumps({'Code': code}).encode(),
             'text': json.dumps(code).encode(), 'not utf8': b'{"code": "\xff\xfe\xff"}'}.get(fault)
        if v is None:
            v = json.dumps({'code': {'code null': None, 'code number': 7, 'code list': [code],
                                     'code object': {'code': code}, 'code empty': '', 'code bool': True,
                                     'jws': r.jws, 'csv': r.csv, 'ocr': r.ocr}[fault]}).encode()
        self.reply(h, 200, v, 'text/html' if fault == 'html' else 'application/json')


_server = []


def server():
    if not _server or _server[0] != os.getpid():
        _server[:] = [os.getpid(), Server()]
    s = _server[1]
    s.answers, s.seen = {}, []
    return s


# ------------------------------------------------------------------ URLs

def runs(text):
    out, cur = [], ''
    for c in text:
        if c in B64U:
            cur += c
        else:
            out.append(cur)
            cur = ''
    return [x for x in out + [cur] if x]


def hash_in(url):
    """What the hash in an URL is; None if there is none."""
    if '#' in url:
        return url.split('#', 1)[1]
    v = [x for x in runs(url) if len(x) == 11]
    return v[-1] if v else None


def noise(rng, n=11):
    return ''.join(rng.choice(B64U) for _ in range(n))


def swap(rng, h):
    k = rng.randrange(len(h))
    return h[:k] + rng.choice([c for c in B64U if c != h[k]]) + h[k + 1:]


def make_url(rng, form, h):
    """Path, query and anchor; the hash that counts is computed by hash_in."""
    words = rng.choice(['', '/r', '/beleg/v1', '/a.b/c', '/x' * 3])
    o = noise(rng)
    q = rng.choice(['?lang=de', '?a=b&c=d', '?v=1'])
    other = swap(rng, h)
    return {
        'path': lambda: words + '/' + h,
        'deep path': lambda: words + '/' + noise(rng, 9) + '/x/' + h,
        'query': lambda: words + '/?' + rng.choice(['', 'h=', 'a=1&hash=']) + h,
        'anchor': lambda: words + rng.choice(['/', '/?x=y', '/receipt']) + '#' + h,
        'anchor over path': lambda: words + '/' + o + '#' + h,
        'two hashes': lambda: words + '/' + o + '/' + h,
        'slash': lambda: words + '/' + h + rng.choice(['/', '/x', '.json']),
        'before query': lambda: words + '/' + h + q,
        'long words': lambda: words + '/' + noise(rng, rng.choice([10, 12, 13, 22])) + '/' + h,
        'wrong last': lambda: words + '/' + h + '/' + rng.choice([o, other]),
        'wrong anchor': lambda: words + '/' + h + '#' + rng.choice([o, other, 'x', 'None']),
        'empty anchor': lambda: words + '/' + h + '#',
        'no hash': lambda: rng.choice([words, '/abc', '/?lang=de']) or '/',
        'joined': lambda: words + '/' + rng.choice([h + noise(rng, 1), noise(rng, 1) + h, o + h, h + h]),
        'short': lambda: words + '/' + h[:-1],
        'long': lambda: words + '/' + h + 'A',
        'wrong path': lambda: words + '/' + other,
        'other case': lambda: words + '/' + h.swapcase(),
        'anchor padded': lambda: words + '/#' + h + '=',
        'anchor prefix': lambda: words + '/#' + rng.choice([h[:8], h[:-1], h[1:], h + 'A', ' ' + h, h + ' ']),
    }[form]()


def body_of(rng, code):
    d = {'code': code}
    if rng.random() < .3:
        d = dict(rng.sample([('code', code), ('Code', 'x'), ('jws', 'a.b.c'), ('data', {'code': 'no'}),
                             (u'\xe4', None)], 5))
    return json.dumps(d, ensure_ascii=rng.random() < .5, indent=rng.choice([None, 1])).encode('utf-8')


def some(ctx, n=None):
    """Key store and single receipts with the reasons for which they fail."""
    rng = ctx.rng
    ks, devs, sim, closed, certful = common.setup(rng, rng.choice([1, 2, 3]), certful=False)
    out = []
    for i in range(n or (40 if rng.random() < .02 else rng.randrange(2, 6))):
        bad = rng.choice([None, None, None, None, 'signature', 'unknown', 'outage', 'null outage'])
        ov = {}
        kind, failed, total = rng.choice(['standard', 'training', 'reversal']), False, sim.amount()
        if bad == 'signature':
            ov['priv'] = gen.key('p256', 97).priv
        elif bad == 'unknown':
            ov['serial'] = '%x' % (rng.getrandbits(60) | 1) if not closed else 'U:ATU00000000-K9'
        elif bad == 'outage':
            failed, kind = True, 'standard'
        elif bad == 'null outage':
            failed, kind, total, ov['null'] = True, 'standard', 0, True
        out.append((sim.emit(rng.choice(devs), kind, total, failed, **ov).r, bad))
    return ks, out


def tamper(rng, code):
    """Another well-formed code with the same signature."""
    for _ in range(60):
        f = code.split('_')
        k = rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 12, 13])
        if k in (2, 3):
            f[k] += '1'
        elif k == 4:
            f[k] = f[k][:-1] + str((int(f[k][-1]) + 1) % 10)
        elif k < 10:
            f[k] = '1' + f[k] if f[k][0] != '-' else f[k][1:]
        else:
            j = rng.randrange(len(f[k]) - 3)
            f[k] = f[k][:j] + rng.choice('ABCabc+/') + f[k][j + 1:]
        t = '_'.join(f)
        r = ref.parse_code(t)
        if t != code and r.cls == ref.OK and r.code == t:
            return t
    return None


def ask(url, rv):
    try:
        r = U.getAndVerifyReceiptURL(rv, url)
    except Exception as e:
        return type(e).__name__, e
    return 'ok', r


def library(ctx):
    rng = ctx.rng
    srv = server()
    ks, recs = some(ctx)
    rv = verify_receipt.ReceiptVerifier.fromKeyStore(modes.real_ks(ks))
    log = []
    for step in range(rng.randrange(2, 6)):
        r, bad = rng.choice(recs)
        code, fault, kind = r.code, None, 'same'
        x = rng.random()
        if x < .15:
            kind, code = 'other', rng.choice(recs)[0].code
        elif x < .3:
            t = tamper(rng, r.code)
            if t:
                kind, code = 'tampered', t
        elif x < .36:
            kind, code = 'malformed', bad_text(rng, 'qr', code)
        elif x < .62:
            fault = FAULTS[(ctx.index // 8 + rng.randrange(3)) % len(FAULTS)]
        form = FORMS[(ctx.index // 8 * 3 + step) % len(FORMS)] if rng.random() < .7 else 'path'
        # The hash of what is delivered, or of what should have been.
        h = ref.url_hash(code if rng.random() < .5 else r.code)
        url = make_url(rng, form, h)
        target = url.split('#')[0]
        if target.startswith('?'):
            target = '/' + target
        body = body_of(rng, code)
        srv.answers = {target: (fault, body, code)}
        moved = False
        if fault is None and rng.random() < .1:
            other = '/moved/' + noise(rng, rng.choice([3, 11]))
            if rng.random() < .3:
                other = '/moved/' + ref.url_hash(code)
            srv.answers = {target: ('redirect:' + other, b'', code), other: (None, body, code)}
            moved = True
        full = (srv.deadbase if fault == 'refused' else srv.base) + url
        p = ref.parse_code(code)
        ctx.check(p.cls in (ref.OK, ref.BAD), 'harness: unspecified code')
        verdict = {'malformed'} if p.cls == ref.BAD else ref.single(p, ks)
        right = p.cls == ref.OK and hash_in(full) == ref.url_hash(code)
        got, e = ask(full, rv)
        info = dict(url=full, fault=fault, answer=kind, form=form, code=code, delivered=body[:400], right=right,
                    verdict=sorted(verdict), got=got, message=str(e)[:300], requests=srv.seen[-5:])
        if verdict == {'ok'} and right and fault is None:
            ctx.check(got == 'ok', 'a correct receipt was rejected', **info)
            ctx.count('accepted')
        else:
            ctx.check(got != 'ok', 'a receipt was accepted that must not be', **info)
            ctx.count('rejected')
            if fault is None and verdict == {'ok'}:
                ctx.check(got == 'InvalidURLHashException', 'another error for a wrong hash', **info)
                ctx.check(e.receipt and e.receipt in (hash_in(full), p.rid), 'error names %r' % e.receipt,
                          **info)
            elif fault is None and right:
                ctx.check(got in verdict, 'another error for a wrong receipt', **info)
        ctx.check(fault == 'refused' or srv.seen and srv.seen[-1 - moved] == target or fault in
                  ('loop', 'redirect to nothing'), 'another resource was asked for', target=target, **info)
        if fault:
            ctx.count('fault:' + fault)
        else:
            ctx.count('form:' + form)
            ctx.count('answer ' + kind, kind != 'same')
            ctx.count('answer failing', bool(bad))
            ctx.count('answer redirected', moved)
        log.append((form, kind, fault, bad, moved, got))
        ctx.distinct(*log[-1])
    ctx.sample(requests=log)


def extract(ctx):
    rng = ctx.rng
    for _ in range(30):
        parts = []
        for _ in range(rng.randrange(1, 8)):
            parts.append(noise(rng, rng.choice([0, 1, 2, 10, 11, 11, 12, 22])))
            parts.append(rng.choice(['/', '?', '&', '=', '.', ':', '//', '%', u'\xe4', '~', '+', ' ', u'\u0663']))
        url = rng.choice(['', 'http://', 'https://example.com:8080/']) + ''.join(parts)
        if rng.random() < .3:
            url += '#' + rng.choice(['', noise(rng), noise(rng, 5), 'a b', u'\xe4'])
        got = U.getURLHashFromURL(url)
        ctx.check(got == hash_in(url), 'wrong hash in an URL', url=url, got=got, want=hash_in(url))
        ctx.distinct('extract', url)
    ctx.count('extract')


# ------------------------------------------------------------------ host

PORT = '''
import runpy, socket, sys, flask
s = socket.socket(); s.bind(('127.0.0.1', 0)); p = s.getsockname()[1]; s.close()
orig = flask.Flask.run
def run(self, *a, **k):
    print('PORT %d' % p); sys.stdout.flush()
    return orig(self, port=p, debug=False, use_reloader=False)
flask.Flask.run = run
path = sys.argv[1]
sys.argv = sys.argv[1:]
sys.path.insert(0, path.rpartition('/')[0])
runpy.run_path(path, run_name='__main__')
'''


def queries(rng, want):
    q = [('/' + h, want[h]) for h in want]
    for h in rng.sample(sorted(want), min(3, len(want))):
        for x in [swap(rng, h), h[:-1], h + 'A', h + '=', h.swapcase(), ' ' + h, h + '%20', h + '/', h + '/x',
                  'x/' + h, h[:5] + '%2F' + h[6:]]:
            q.append(('/' + x, want.get(x)))
    q += [('/', None), ('/None', None), ('/' + noise(rng), None)]
    rng.shuffle(q)
    # requests do not influence each other
    return q + [(p, w) for p, w in q if w is not None][:3]


def judge_host(ctx, path, status, body, code, info):
    if code is None:
        ctx.check(status in (404, 308), 'the host has an answer for an unknown hash', path=path, code=status,
                  body=body[:300], **info)
        ctx.check(b'_R1-' not in body, 'the host delivers a receipt for an unknown hash', path=path, **info)
        return
    ctx.check(status == 200, 'the host does not know a receipt', path=path, code=status, **info)
    ctx.check(json.loads(body.decode('utf-8')).get('code') == code, 'the host delivers something else', path=path,
              body=body, want=code, **info)


def host(ctx):
    rng = ctx.rng
    ks, devs, sim, closed, certful = common.setup(rng, rng.choice([1, 2, 3]))
    for _ in range(rng.randrange(1, 12)):
        sim.legal(devs)
    recs = [m.r for m in sim.metas]
    if certful and not closed:
        groups = common.groups_of(rng, sim.metas, certful)
    else:
        groups = common.groups_of(rng, sim.metas, certful)
    how = rng.choice(['dep', 'jws'])
    broken = rng.random() < .15
    if how == 'dep':
        if broken:
            g = rng.choice([g for g in groups if g[0]])
            k = rng.randrange(len(g[0]))
            g[0][k] = bad_text(rng, 'jws', g[0][k])
        data = gen.layout(rng, gen.make_dep(groups))
    else:
        lines = [r.jws for r in recs]
        if rng.random() < .3:
            lines += [rng.choice(lines)]
        rng.shuffle(lines)
        if broken:
            k = rng.randrange(len(lines))
            lines[k] = bad_text(rng, 'jws', lines[k])
        if rng.random() < .3 and not broken:
            lines = [rng.choice(['', '', ' ', '\t']) + l + rng.choice(['', '', ' ', '\r', '\t']) for l in lines]
        data = '\n'.join(lines) + rng.choice(['\n', '' if lines[-1] else '\n'])
        data = data.encode('utf-8')
    env = {'RKSV_DEP_CHUNKSIZE': rng.choice([None, '0', '1', '2', '3', '100000'])}
    want = {ref.url_hash(r.code): r.code for r in recs}
    info = dict(how=how, data=data[:2000], env=env)
    qs = queries(rng, want)
    d = ctx.scratch()
    if not broken and ctx.index % 77 == 8:
        # A byte order mark in a stream that cannot be read again is not specified.
        if data[:3] == b'\xef\xbb\xbf':
            data = data[3:]
        process(ctx, how, d, data, env, want, ks, recs, info)
        return
    answers, verdicts = [], []
    rv = verify_receipt.ReceiptVerifier.fromKeyStore(modes.real_ks(ks))
    live = rng.random() < .3

    def serve(app, *a, **k):
        client = app.test_client()
        for path, code in qs:
            r = client.get(path)
            answers.append((path, r.status_code, r.data, code))
        if live:
            from werkzeug.serving import make_server, WSGIRequestHandler

            class Q(WSGIRequestHandler):
                def log(self, *a):
                    pass
            s = make_server('127.0.0.1', 0, app, request_handler=Q)
            t = threading.Thread(target=s.serve_forever, kwargs={'poll_interval': .05})
            t.daemon = True
            t.start()
            try:
                for r in rng.sample(recs, min(4, len(recs))):
                    u = 'http://127.0.0.1:%d/' % s.server_port
                    h = ref.url_hash(r.code)
                    verdicts.append((r, h, ask(u + h, rv)[0]))
                    verdicts.append((r, None, ask(u + h + '#' + swap(rng, h), rv)[0]))
            finally:
                s.shutdown()
                s.server_close()

    keep = flask.Flask.run
    flask.Flask.run = serve
    try:
        r = inside('receipt_host.py', [how], d, data, env)
    finally:
        flask.Flask.run = keep
    info.update(rc=r[0], stderr=r[2][-1500:])
    if broken:
        ctx.check(r[0] != 0 and not answers, 'the host serves malformed receipts', **info)
        ctx.count('host refused')
        return
    ctx.check(r[0] == 0 and len(answers) == len(qs), 'the host did not start', **info)
    for path, status, body, code in answers:
        judge_host(ctx, path, status, body, code, info)
    for rec, h, got in verdicts:
        ok = h is not None and ref.single(rec, ks) == {'ok'}
        ctx.check((got == 'ok') == ok, 'verdict about a hosted receipt', got=got, hash=h, jws=rec.jws, **info)
    ctx.count('host ' + how)
    ctx.count('host end to end', bool(verdicts))
    ctx.distinct('host', how, len(recs), env, live)


def process(ctx, how, d, data, env, want, ks, recs, info):
    """The script as it is, on another port, with the verification script as a client."""
    sh = Shell(ctx)
    sh.write('ks.json', json.dumps(store_json(ctx.rng, ks)))
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf-8')
    for k, v in env.items():
        e.pop(k, None)
        if v is not None:
            e[k] = v
    p = subprocess.Popen([sys.executable, '-c', PORT, os.path.join(core.REPO, 'receipt_host.py'), how],
                         stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=d, env=e)
    try:
        p.stdin.write(data)
        p.stdin.close()
        line = p.stdout.readline()
        ctx.check(line.startswith(b'PORT '), 'the host did not start', line=line, **info)
        base = 'http://127.0.0.1:%d/' % int(line.split()[1])
        for _ in range(200):
            try:
                socket.create_connection(('127.0.0.1', int(line.split()[1])), 1).close()
                break
            except OSError:
                time.sleep(.05)
        hashes = sorted(want)
        urls = [base + h for h in hashes] + [base + h + '#' + swap(ctx.rng, h) for h in hashes[:2]]
        by = {ref.url_hash(r.code): r for r in recs}
        good = [ref.single(by[h], ks) == {'ok'} for h in hashes] + [False] * len(hashes[:2])
        r = common.script('verify_receipt.py', ['url', sh.path('ks.json')], d, '\n'.join(urls).encode())
        ctx.check(r[0] == 0 and r[1].decode().splitlines()[-1] ==
                  '%d of %d receipts verified successfully.' % (sum(good), len(good)),
                  'verdicts about hosted receipts', out=r, want=good, **info)
    finally:
        p.kill()
        p.wait()
        p.stdout.close()
    ctx.count('host process')


# ------------------------------------------------------------------ scripts

def scripts(ctx):
    rng = ctx.rng
    srv = server()
    sh = Shell(ctx)
    ks, recs = some(ctx, rng.randrange(1, 7))
    sh.write('ks.json', jtext(rng, store_json(rng, ks)))
    urls, want, codes = [], [], []
    for i, (r, bad) in enumerate(recs):
        code = r.code
        if rng.random() < .2:
            code = tamper(rng, code) or code
        h = ref.url_hash(code)
        form = rng.choice(FORMS)
        url = '/%d' % i + make_url(rng, form, h)
        srv.answers[url.split('#')[0]] = (None, body_of(rng, code), code)
        full = srv.base + url
        p = ref.parse_code(code)
        v = ref.single(p, ks)
        # lines are stripped
        right = hash_in(full.strip()) == h
        urls.append(full)
        codes.append(p)
        want.append(v == {'ok'} and right)
    r = sh.run('verify_receipt.py', 'url', sh.path('ks.json'), data='\n'.join(urls))
    got = r[1].decode('utf-8').splitlines()
    info = sh.info(r, urls=urls, want=want)
    ctx.check(r[0] == 0 and got and got[-1] == '%d of %d receipts verified successfully.' % (sum(want), len(want)),
              'verdicts about receipts on the web', **info)
    named = [int(l[5:].split(':')[0]) for l in got if l.startswith('Line ')]
    ctx.check(named == [i for i, w in enumerate(want) if not w], 'wrong receipts were named', named=named, **info)
    ctx.count('verify_receipt.py')
    fmt = rng.choice(['jws', 'qr', 'url'])
    r = sh.run('receipt.py', 'url', fmt, data=''.join(u + '\n' for u in urls))
    conv = [{'jws': p.jws, 'qr': p.code, 'url': ref.url_hash(p.code)}[fmt] for p in codes]
    ctx.check(r[0] == 0 and r[1].decode('utf-8').split('\n') == conv + [''], 'conversion of receipts on the web',
              want=conv, **sh.info(r, urls=urls))
    ctx.count('receipt.py')
    k = rng.randrange(len(urls))
    a = sh.run('verification_state.py', sh.path('a.json'), 'fromArbitraryReceipt', 'url', urls[k], may=['a.json'])
    b = sh.run('verification_state.py', sh.path('b.json'), 'fromArbitraryReceipt', 'qr', codes[k].code,
               may=['b.json'])
    ctx.check(a[0] == b[0] and os.path.exists(sh.path('a.json')) == os.path.exists(sh.path('b.json')) and
              (a[0] or json.loads(sh.read('a.json').decode()) == json.loads(sh.read('b.json').decode())),
              'state from a receipt on the web', url=urls[k], **sh.info(a))
    ctx.count('verification_state.py')
    # a failing server
    f = rng.choice([f for f in FAULTS if f not in ('refused', 'ocr')])
    for x in srv.answers:
        srv.answers[x] = (f,) + srv.answers[x][1:]
    r = sh.run('verify_receipt.py', 'url', sh.path('ks.json'), urls[0])
    ctx.check(b'1 of 1' not in r[1], 'a receipt was accepted although the server failed', fault=f, **sh.info(r))
    r = sh.run('receipt.py', 'url', 'qr', data=urls[0] + '\n')
    ctx.check(r[0] != 0 and not r[1].strip(), 'a receipt was converted although the server failed', fault=f,
              **sh.info(r))
    ctx.distinct('scripts', want, fmt, f)


def case(ctx):
    k = ctx.index % 11
    if k < 7:
        library(ctx)
    elif k < 9:
        host(ctx)
    elif k == 9:
        scripts(ctx)
    else:
        extract(ctx)
