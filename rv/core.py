"""
Case runner: deterministic cases, forked workers, watchdog, coverage counters,
evidence and replay files.

Exit status: 0 held on everything explored, 1 violation, 2 no answer.
"""
import collections
import hashlib
import importlib
import json
import os
import pickle
import random
import re
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get('RV_REPO', '/repo'))
sys.path.insert(0, REPO)

WORKERS = int(os.environ.get('RV_WORKERS', '8'))
CASE_LIMIT = float(os.environ.get('RV_CASE_LIMIT', '100'))
RETRY_LIMIT = float(os.environ.get('RV_RETRY_LIMIT', '150'))
MAX_VIOLATIONS = 3
OUT = int(os.environ.get('RV_OUT', '1200'))


class Violation(Exception):
    def __init__(self, msg, **details):
        Exception.__init__(self, msg)
        self.msg = msg
        self.details = details


class Harness(Exception):
    """The check itself is in trouble: no answer."""


def jsonable(o, depth=0):
    if depth > 8:
        return repr(o)[:200]
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(o.items())[:200]}
    if isinstance(o, (set, frozenset)):
        return sorted((jsonable(v, depth + 1) for v in o), key=repr)[:200]
    if isinstance(o, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(o)[:200]]
    if isinstance(o, (int, float, bool)) or o is None:
        return o
    if isinstance(o, str):
        return o if len(o) < 4000 else o[:4000] + '...(%d)' % len(o)
    if isinstance(o, bytes):
        return repr(o[:1000])
    return repr(o)[:1000]


class Ctx(object):
    def __init__(self, prop, tier, seed, index, tmp):
        self.prop, self.tier, self.seed, self.index = prop, tier, seed, index
        self.rng = random.Random('%s:%s:%s' % (seed, prop, index))
        self.counters = collections.Counter()
        self.dist = set()
        self.samples = []
        self.known = {}
        self.tmp = tmp
        self.thorough = tier == 'thorough'

    def count(self, name, n=1):
        self.counters[name] += n

    def distinct(self, *key):
        h = hashlib.blake2b(repr(key).encode('utf-8', 'surrogatepass'),
                            digest_size=8).digest()
        self.dist.add(h)

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(jsonable(kw))

    def fail(self, msg, **details):
        raise Violation(msg, **details)

    def check(self, cond, msg, **details):
        if not cond:
            raise Violation(msg, **details)

    def known_finding(self, kid, text):
        self.known[kid] = text

    def scratch(self):
        d = os.path.join(self.tmp, 'c%d' % self.index)
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
        return d


def repo_frames(exc):
    fr = []
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        tb = exc.__traceback__
        while tb is not None:
            fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
            if fn.startswith(REPO + os.sep):
                fr.append('%s:%d' % (os.path.relpath(fn, REPO), tb.tb_lineno))
            tb = tb.tb_next
        exc = exc.__cause__ or exc.__context__
    return fr


# Receipts carry local times without zone: nothing may depend on the zone of the machine.
ZONES = ['UTC', 'CET-1CEST,M3.5.0,M10.5.0/3', 'NZST-12NZDT,M9.5.0,M4.1.0/3', 'XXX+11:30', 'CET-1CEST,M3.5.0,M10.5.0/3']


def run_case(mod, ctx):
    """Returns None or (kind, message, details)."""
    os.environ['TZ'] = ZONES[ctx.index % len(ZONES)]
    time.tzset()
    if 'rv.lang' in sys.modules:
        lang = sys.modules['rv.lang']
        lang.use(getattr(mod, 'LANGUAGE', None) or lang.LANGS[max(0, ctx.index % 7 - 4) % len(lang.LANGS)])
        ctx.count('language:' + lang.current[0])
    try:
        mod.case(ctx)
        return None
    except Violation as v:
        return ('violation', v.msg, jsonable(v.details))
    except Harness as e:
        return ('harness', str(e), {'traceback': traceback.format_exc()})
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # noqa
        tb = traceback.format_exc()
        fr = repo_frames(e)
        remote = getattr(e, '__cause__', None)
        if remote is not None and REPO in str(remote):
            fr.append('remote')
        if fr:
            return ('violation', 'unexpected exception escaped: %s: %s' % (
                type(e).__name__, str(e)[:300]), {'frames': fr, 'traceback': tb})
        # The harness uses public interfaces only. If it trips over the form of what they returned
        # (nothing instead of a state, say), they have not returned what they are documented to.
        # A function that is gone altogether is no such case.
        last = traceback.extract_tb(e.__traceback__)[-1].filename
        if isinstance(e, (TypeError, AttributeError, LookupError, ValueError)) and \
                os.path.basename(last) not in ('random.py', 'gen.py') and \
                not re.search(r"^module '|type object |argument", str(e)) or isinstance(
                    e, (ArithmeticError, RecursionError, SyntaxError, struct.error)) or \
                type(e).__name__ == 'InvalidSignature':
            return ('violation', 'the code returned something of an unexpected form: %s: %s' % (
                type(e).__name__, str(e)[:300]), {'traceback': tb})
        if isinstance(e, (FileNotFoundError, NotADirectoryError, IsADirectoryError)) and \
                os.path.join(ctx.tmp, 'c%d' % ctx.index, '') in str(e.filename):
            return ('violation', 'a file is not where it should have been written: %s' % str(e)[:300],
                    {'traceback': tb})
        return ('harness', '%s: %s' % (type(e).__name__, str(e)[:500]),
                {'traceback': tb})


def send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack('<I', len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def worker(mod, prop, tier, seed, indices, wfd, tmp, deadline):
    counters = collections.Counter()
    dist = set()
    samples = []
    known = {}
    done = 0
    for i in indices:
        if time.time() > deadline:
            break
        send(wfd, ('start', i))
        ctx = Ctx(prop, tier, seed, i, tmp)
        res = run_case(mod, ctx)
        done += 1
        counters.update(ctx.counters)
        dist |= ctx.dist
        known.update(ctx.known)
        if len(samples) < 2:
            samples += ctx.samples
        if res is not None:
            send(wfd, ('result', i, res))
            if res[0] == 'violation' or res[0] == 'harness':
                break
    send(wfd, ('done', done, counters, dist, samples[:2], known))


def spawn(mod, prop, tier, seed, indices, tmp, deadline):
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.setpgid(0, 0)
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            worker(mod, prop, tier, seed, indices, w, tmp, deadline)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    os.close(w)
    return {'pid': pid, 'fd': r, 'buf': b'', 'cur': None, 'since': time.time(),
            'done': False, 'todo': list(indices)}


def killw(w):
    for f in (lambda: os.killpg(w['pid'], signal.SIGKILL),
              lambda: os.kill(w['pid'], signal.SIGKILL)):
        try:
            f()
        except OSError:
            pass


def drive(mod, prop, tier, seed, n, start, tmp, soft, case_limit):
    """Runs cases [start, start+n); returns aggregated results."""
    agg = {'counters': collections.Counter(), 'dist': set(), 'samples': [],
           'known': {}, 'done': 0, 'viol': [], 'harness': [], 'stuck': [],
           'died': []}
    deadline = time.time() + soft
    ws = []
    k = min(WORKERS, max(1, n))
    for j in range(k):
        idx = range(start + j, start + n, k)
        ws.append(spawn(mod, prop, tier, seed, idx, tmp, deadline))
    live = list(ws)
    try:
        while live:
            rl, _, _ = select.select([w['fd'] for w in live], [], [], 1.0)
            now = time.time()
            for w in list(live):
                eof = False
                if w['fd'] in rl:
                    b = os.read(w['fd'], 1 << 20)
                    if not b:
                        eof = True
                    w['buf'] += b
                    while len(w['buf']) >= 4:
                        ln = struct.unpack('<I', w['buf'][:4])[0]
                        if len(w['buf']) < 4 + ln:
                            break
                        m = pickle.loads(w['buf'][4:4 + ln])
                        w['buf'] = w['buf'][4 + ln:]
                        if m[0] == 'start':
                            w['cur'], w['since'] = m[1], now
                        elif m[0] == 'result':
                            if m[2][0] == 'violation':
                                agg['viol'].append((m[1], m[2][1], m[2][2]))
                            else:
                                agg['harness'].append((m[1], m[2][1], m[2][2]))
                        elif m[0] == 'done':
                            w['done'] = True
                            agg['done'] += m[1]
                            agg['counters'].update(m[2])
                            agg['dist'] |= m[3]
                            agg['samples'] += m[4]
                            agg['known'].update(m[5])
                if eof:
                    live.remove(w)
                    os.close(w['fd'])
                    try:
                        _, st = os.waitpid(w['pid'], 0)
                    except OSError:
                        st = 0
                    # children that a pool left behind
                    killw(w)
                    if not w['done']:
                        agg['died'].append((w['cur'], st))
                elif not w['done'] and now - w['since'] > case_limit:
                    live.remove(w)
                    killw(w)
                    os.close(w['fd'])
                    try:
                        os.waitpid(w['pid'], 0)
                    except OSError:
                        pass
                    agg['stuck'].append(w['cur'])
            if len(agg['viol']) >= MAX_VIOLATIONS:
                break
    finally:
        for w in live:
            killw(w)
            try:
                os.close(w['fd'])
                os.waitpid(w['pid'], 0)
            except OSError:
                pass
    return agg


def load_known():
    out = {}
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p):
        for e in json.load(open(p))['known']:
            out[e['id']] = e
    return out


def main(argv):
    prop = argv[0].upper()
    opts = dict(zip(argv[1::2], argv[2::2]))
    tier = opts.get('--tier') or os.environ.get('VERIF_TIER') or 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED') or 1)
    except ValueError:
        seed = 1
    t0 = time.time()
    replay = None
    if '--replay' in opts:
        replay = json.load(open(opts['--replay']))
        tier, seed = replay['tier'], replay['seed']
    # hashing order of sets must not depend on the caller
    mod = importlib.import_module('rv.props.' + prop.lower())
    n = int(opts.get('--cases') or (mod.THOROUGH if tier == 'thorough' else mod.QUICK))
    start = int(opts.get('--start') or 0)
    if replay:
        start, n = replay['index'], 1
    tmp = tempfile.mkdtemp(prefix='rv-%s-' % prop)
    soft = 600 if tier == 'quick' else 3600
    if os.environ.get('RV_SOFT'):
        soft = float(os.environ['RV_SOFT'])
    try:
        if hasattr(mod, 'setup'):
            mod.setup(tier)
        agg = drive(mod, prop, tier, seed, n, start, tmp, soft,
                    CASE_LIMIT if not replay else RETRY_LIMIT)
        # A case that got stuck, or whose process died, is tried once more on
        # its own: only what happens again counts.
        for i in agg['stuck'][:1]:
            print('case %s gave no answer within %.0f s, trying it alone'
                  % (i, CASE_LIMIT))
            a2 = drive(mod, prop, tier, seed, 1, i, tmp, 1e9, RETRY_LIMIT)
            agg['viol'] += a2['viol']
            if a2['stuck']:
                agg['viol'].append((i, 'does not terminate', {
                    'limits_s': [CASE_LIMIT, RETRY_LIMIT]}))
            elif a2['died']:
                agg['harness'].append((i, 'worker died', {}))
            elif not a2['viol']:
                print('case %d terminates on its own, not counted' % i)
        for i, st in agg['died'][:1]:
            if i is None:
                agg['harness'].append((-1, 'worker died at start', {'status': st}))
                continue
            a2 = drive(mod, prop, tier, seed, 1, i, tmp, 1e9, RETRY_LIMIT)
            agg['viol'] += a2['viol']
            if a2['died'] and os.WIFSIGNALED(a2['died'][0][1]):
                agg['viol'].append((i, 'process killed by signal %d'
                                    % os.WTERMSIG(a2['died'][0][1]), {}))
            elif not a2['viol']:
                agg['harness'].append((i, 'worker died', {'status': st}))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    wall = time.time() - t0

    c = agg['counters']
    missing = []
    if not replay and '--cases' not in opts and not agg['viol']:
        for m in getattr(mod, 'MANDATORY', []):
            if not c.get(m):
                missing.append(m)
    known = load_known()
    unlisted = [k for k in agg['known'] if k not in known]
    for k in unlisted:
        agg['viol'].append((start, 'finding %s is not listed: %s' % (
            k, agg['known'][k]), {}))

    paths = []
    for (i, msg, det) in sorted(agg['viol'], key=lambda v: v[0])[:MAX_VIOLATIONS]:
        rd = os.path.join(VERIF, 'replay')
        os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, '%s-%s-%s-%d.json' % (prop, tier, seed, i))
        with open(p, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'seed': seed, 'index': i,
                       'message': msg, 'details': det}, f, indent=1)
        paths.append(p)
        print('--- case %d: %s' % (i, msg))
        d = json.dumps(det, indent=1)
        print(d if len(d) < OUT else d[:OUT] + '...')
        print('VIOLATION property=%s replay=%s' % (prop, p))
    for (i, msg, det) in agg['harness'][:3]:
        print('HARNESS ERROR case %s: %s' % (i, msg))
        print(det.get('traceback', ''))
    for k in sorted(agg['known']):
        if k in known:
            print('KNOWN-FINDING: property=%s %s' % (known[k]['property'],
                                                     known[k]['what']))
    if not replay:
        ev = {
            'property': prop, 'tier': tier, 'seed': seed,
            'level': mod.LEVEL,
            'coverage': {
                'evaluations': agg['done'],
                'distinct_nontrivial': len(agg['dist']),
                'rule': mod.RULE,
                'samples': agg['samples'][:4],
                'observed': {k: c[k] for k in sorted(c)},
                'cases_planned': n,
            },
            'assumptions': getattr(mod, 'ASSUMPTIONS', []),
            'wall_s': round(wall, 3),
            'violations': len(agg['viol']),
        }
        ed = os.path.join(VERIF, 'evidence')
        os.makedirs(ed, exist_ok=True)
        with open(os.path.join(ed, prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s seed=%s cases=%d distinct=%d violations=%d wall=%.1fs' % (
        prop, tier, seed, agg['done'], len(agg['dist']), len(agg['viol']), wall))
    if os.environ.get('RV_STATS'):
        print(json.dumps({k: c[k] for k in sorted(c)}, indent=0))
    if agg['viol']:
        return 1
    if agg['harness']:
        return 2
    if missing:
        print('INCONCLUSIVE: never observed: %s' % ', '.join(missing))
        return 2
    if agg['done'] == 0:
        return 2
    return 0


if __name__ == '__main__':
    # run under the importable name, so that objects pickle
    from rv import core as _core
    rc = _core.main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
