#!/usr/bin/env python3
"""tryseed.py [--new] ID...: confirm planted bugs: applies each patch to /repo, builds, runs the stable tests,
the demonstration and the property's check, and undoes it. --new SUFFIX: takes /repo's uncommitted diff as the patch of ID first."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
a = sys.argv[1:]
if a[0] == '--new':
    a = a[1:]
    d = subprocess.run('git -C /repo diff', shell=True, capture_output=True).stdout
    assert d.strip()
    os.makedirs(V + '/seeded/' + a[0], exist_ok=True)
    open(V + '/seeded/%s/patch.diff' % a[0], 'wb').write(d)
    sh('git -C /repo checkout -- .')
assert not sh('git -C /repo status --porcelain').stdout.strip()
for i in a:
    D = V + '/seeded/' + i
    m = json.load(open(D + '/meta.json'))
    out = [i, m['property']]
    if sh('bash /opt/vp/build.sh').returncode: print(i, 'clean build fails'); continue
    r = sh('bash %s/demo.sh' % D, cwd='/repo'); out.append('demo-clean=%d' % r.returncode)
    if r.returncode: print((r.stdout + r.stderr)[-1500:])
    try:
        r = sh('git -C /repo apply %s/patch.diff' % D); assert r.returncode == 0, r.stderr
        r = sh('bash /opt/vp/build.sh'); out.append('build=%d' % r.returncode)
        if r.returncode: print((r.stdout + r.stderr)[-1500:])
        else:
            r = sh('bash /opt/vp/test.sh /tmp/seedtest.json'); t = json.load(open('/tmp/seedtest.json')); out.append('failed-tests=%d passed=%d' % (len(t['failed']), len(t['passed'])))
            if t['failed']: print(t['failed'][:5])
            r = sh('bash %s/demo.sh' % D, cwd='/repo'); out.append('demo-bug=%d' % r.returncode)
            r = sh('python3 check.py %s' % m['property'], cwd=V); out.append('check=%d' % r.returncode)
            print('\n'.join(l[:300] for l in r.stdout.split('\n')[:6]))
    finally:
        sh('git -C /repo checkout -- .')
    print('SEED', ' '.join(out), flush=True)
sh('bash /opt/vp/build.sh')
