#!/usr/bin/env python3
"""newseed.py SPEC.py: SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO.
Writes seeded/ID from the edits applied to a copy of /repo's HEAD."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    for s in (g['SEEDS'] if 'SEEDS' in g else [g]):
        d = os.path.join(V, 'seeded', s['ID'])
        os.makedirs(d, exist_ok=True)
        t = tempfile.mkdtemp()
        diff = ''
        for f in sorted(set(e[0] for e in s['EDITS'])):
            a = subprocess.run(['git', '-C', '/repo', 'show', 'HEAD:' + f], stdout=subprocess.PIPE, check=True).stdout.decode()
            b = a
            for fn, old, new in s['EDITS']:
                if fn == f:
                    if b.count(old) != 1:
                        sys.exit('%s: %d matches in %s: %r' % (s['ID'], b.count(old), f, old))
                    b = b.replace(old, new)
            for n, x in (('a', a), ('b', b)):
                p = os.path.join(t, n, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, 'w').write(x)
            diff += subprocess.run(['git', 'diff', '--no-index', '--no-prefix', '--no-color', 'a/' + f, 'b/' + f],
                                   cwd=t, stdout=subprocess.PIPE).stdout.decode()
        shutil.rmtree(t)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        open(os.path.join(d, 'demo.py'), 'w').write('from lib import *\n' + s['DEMO'].lstrip('\n'))
        for n in ('lib.py', 'demo.sh') + (('gui.py',) if 'from gui' in s['DEMO'] else ()):
            shutil.copy(os.path.join(V, 'tools/demo', n), d)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
