#!/usr/bin/env python3
"""mutate.py [--stride N --offset K] FILE...: mutates the code under test and runs the checks.
Mutants that no check reports are then run against the repository's tests; results in /tmp/mut/results.jsonl."""
import ast, json, os, random, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/mut'
CHECKS = {
    'librksv/algorithms.py': 'C25 C03 C17 C15 C14 C05 C26',
    'librksv/cashreg.py': 'C26',
    'librksv/sigsys.py': 'C26',
    'librksv/depexport.py': 'C22 C20 C27',
    'librksv/depparser.py': 'C20 C22 C18 C08 C21 C24 C07 C14',
    'librksv/key_store.py': 'C23 C19 C15 C14 C24 C27',
    'librksv/receipt.py': 'C17 C16 C15 C18 C24 C25 C01 C02 C26',
    'librksv/url_receipt_helpers.py': 'C28 C30',
    'librksv/utils.py': 'C25 C18 C19 C14 C23 C08 C12 C24 C20 C27 C22 C21',
    'librksv/verification_state.py': 'C11 C07 C09 C10 C13 C12 C24 C27 C03',
    'librksv/verify.py': 'C01 C02 C03 C04 C05 C06 C07 C13 C14 C08 C09 C12 C24 C10 C21',
    'librksv/verify_receipt.py': 'C15 C14 C02 C24 C28 C17 C01',
    'librksv/run_test.py': 'C26',
    'librksv/gettext_helper.py': 'C27',
}
SCRIPTS = {'cert_extract.py': 'C22 C27', 'convert.py': 'C22 C27', 'split.py': 'C22', 'merge.py': 'C22',
           'receipt.py': 'C27 C28 C16', 'receipt_host.py': 'C28', 'verify.py': 'C27', 'verify_receipt.py': 'C27 C28',
           'verification_state.py': 'C27 C28', 'key_store.py': 'C27 C23', 'demo.py': 'C26', 'rktool.py': 'C30', 'img_decode.py': 'C28 C30'}
CHECKS.update(SCRIPTS)
CMP = {ast.Eq: ['!='], ast.NotEq: ['=='], ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='],
       ast.GtE: ['>', '<'], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    raw = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        a, b = pos(n)
        return raw[a:b].decode()
    out = []

    def rep(n, new, what):
        a, b = pos(n)
        out.append((n.lineno, what, a, b, new))
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP[type(n.ops[0])]:
                rep(n, '(%s %s %s)' % (seg(n.left), o, seg(n.comparators[0])), 'cmp ' + o)
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, '(' + op.join('(%s)' % seg(v) for v in n.values) + ')', 'bool' + op)
            for i in range(len(n.values)):
                o2 = ' and ' if isinstance(n.op, ast.And) else ' or '
                rep(n, '(' + o2.join('(%s)' % seg(v) for j, v in enumerate(n.values) if j != i) + ')', 'drop %d' % i)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, '(%s)' % seg(n.operand), 'not')
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            rep(n, '%d' % (n.value + 1), 'int+1')
            if n.value:
                rep(n, '%d' % (n.value - 1), 'int-1')
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            rep(n, str(not n.value), 'flip')
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            o = '-' if isinstance(n.op, ast.Add) else '+'
            rep(n, '(%s %s %s)' % (seg(n.left), o, seg(n.right)), 'arith')
        elif isinstance(n, (ast.If, ast.While)):
            rep(n.test, '(not (%s))' % seg(n.test), 'negate')
        elif isinstance(n, ast.Expr) and n not in docs and isinstance(n.value, (ast.Call, ast.Yield)):
            rep(n, 'pass', 'delete')
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            t = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if not isinstance(t, ast.Name) or isinstance(n, ast.AugAssign):
                rep(n, 'pass', 'delete')
        elif isinstance(n, ast.Raise):
            rep(n, 'pass', 'delete')
        elif isinstance(n, (ast.Break, ast.Continue)):
            rep(n, 'pass', 'delete')
        elif isinstance(n, ast.Delete):
            rep(n, 'pass', 'delete')
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            rep(n.value, 'None', 'return None')
        elif isinstance(n, ast.Slice):
            if n.lower is not None and n.upper is not None:
                rep(n, seg(n.lower) + ':', 'slice')
                rep(n, ':' + seg(n.upper), 'slice')
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not n.keywords and \
                all(isinstance(a, (ast.Name, ast.Attribute)) for a in n.args[:2]):
            a, b = pos(n.args[0])[0], pos(n.args[1])[1]
            out.append((n.lineno, 'swap args', a, b, seg(n.args[1]) + ', ' + seg(n.args[0])))
    res = []
    for ln, what, a, b, new in sorted(out):
        t = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            compile(t, 'x', 'exec')
        except SyntaxError:
            continue
        res.append((ln, what, t, raw[a:b].decode().split('\n')[0][:60], new[:60]))
    return res


def check(repo, cid):
    e = dict(os.environ, RV_REPO=repo, RV_CASE_LIMIT='20', RV_RETRY_LIMIT='30')
    p = subprocess.Popen([os.environ.get('MUT_VERIF', V) + '/bin/check', cid, '--tier', 'quick'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         env=e, start_new_session=True, text=True)
    viol = False
    for l in p.stdout:
        if l.startswith('VIOLATION'):
            viol = True
            break
    if viol:
        os.killpg(p.pid, 9)
    p.stdout.close()
    rc = p.wait()
    return 'caught' if viol else 'quiet' if rc == 0 else 'rc%d' % rc


def main():
    a = sys.argv[1:]
    stride, offset = 1, 0
    while a and a[0].startswith('--'):
        if a[0] == '--stride':
            stride = int(a[1])
        else:
            offset = int(a[1])
        a = a[2:]
    d = W + '/sut%d' % os.getpid()
    subprocess.check_call([V + '/tools/sut.sh', d])
    repo = d + '/repo'
    done = set()
    if os.path.exists(W + '/results.jsonl'):
        for l in open(W + '/results.jsonl'):
            j = json.loads(l)
            done.add((j['file'], j['n']))
    for f in a or sorted(CHECKS):
        src = open(repo + '/' + f).read()
        for n, (ln, what, t, old, new) in enumerate(mutants(src)):
            if n % stride != offset or (f, n) in done:
                continue
            open(repo + '/' + f, 'w').write(t)
            t0 = time.time()
            r = {}
            for c in CHECKS[f].split():
                r[c] = check(repo, c)
                if r[c] == 'caught':
                    break
            caught = 'caught' in r.values()
            tests = None
            if not caught and f not in SCRIPTS:
                tests = subprocess.call([V + '/tools/suttest.sh', d]) == 0
            with open(W + '/results.jsonl', 'a') as o:
                o.write(json.dumps(dict(file=f, n=n, line=ln, what=what, old=old, new=new, caught=caught, tests=tests,
                                        by=[c for c in r if r[c] == 'caught'],
                                        broken=[c for c in r if r[c].startswith('rc')],
                                        t=round(time.time() - t0, 1))) + '\n')
        open(repo + '/' + f, 'w').write(src)
    shutil.rmtree(d)


main()
