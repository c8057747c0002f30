#!/usr/bin/env python3
"""check.py PROPERTY [--thorough] [--replay FILE]: decide one property by watching the real code run.

Builds the library from /repo's working tree, runs the property's harness in eight
processes, reads what its monitors observed, sets listed findings aside, writes
evidence/PROPERTY.json. Exit 0: held on everything observed; 1: a VIOLATION line
was printed; 2: no answer (build failure, or the monitors observed too little)."""
import json, os, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build as B
from vlib.specs import SPECS

VERIF = B.VERIF

def findings(prop):
    """[(compiled key pattern, text)] of the known findings of a property."""
    out = []
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out

def key_matches(pattern, key):
    # exact, except that {a,b} lists alternatives
    parts = re.split(r'(\{[^}]*\})', pattern)
    rx = ''.join('(?:' + '|'.join(map(re.escape, p[1:-1].split(','))) + ')' if p.startswith('{') else re.escape(p) for p in parts)
    return re.fullmatch(rx, key) is not None

def run_harness(name, exe, seed, cases, limit, hang, env):
    outdir = os.path.join(B.BUILD, 'out')
    os.makedirs(outdir, exist_ok=True)
    n = B.JOBS
    ps = []
    for i in range(n):
        out = os.path.join(outdir, '%s.%d' % (name, i))
        if os.path.exists(out):
            os.remove(out)
        ps.append((out, subprocess.Popen([exe, '--seed', str(seed), '--cases', str(cases), '--shard', str(i), '--nshards', str(n),
                                          '--limit', str(limit), '--hang', str(hang), '--out', out], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors='replace', env=env)))
    res = dict(events={}, notes={}, viols={}, distinct=set(), samples=[])
    for out, p in ps:
        err = p.communicate()[1]
        if p.returncode != 0 or not os.path.exists(out):
            raise B.BuildError('harness %s ended with %s\n%s' % (name, p.returncode, err[-2000:]))
        txt = open(out, errors='replace').read()
        if not txt.endswith('OK\n'):
            raise B.BuildError('harness %s wrote no complete result' % name)
        for line in txt.split('\n'):
            f = line.split('\t')
            if f[0] == 'E':
                res['events'][f[2]] = res['events'].get(f[2], 0) + int(f[1])
            elif f[0] == 'N':
                res['notes'][f[2]] = res['notes'].get(f[2], 0) + int(f[1])
            elif f[0] == 'D':
                res['distinct'].add(int(f[1]))
            elif f[0] == 'S':
                res['samples'].append(f[1])
            elif f[0] == 'V':
                k = f[3]
                c, cse, d = int(f[1]), int(f[2]), '\t'.join(f[4:])
                if k in res['viols']:
                    o = res['viols'][k]
                    res['viols'][k] = (o[0] + c,) + min((o[1], o[2]), (cse, d))
                else:
                    res['viols'][k] = (c, cse, d)
        os.remove(out)
    return res

def main():
    a = sys.argv[1:]
    if '--replay' in a:
        rp = json.load(open(a[a.index('--replay') + 1]))
        spec = SPECS[rp['property']]
        part = [p for p in spec['parts'] if p['name'] == rp['harness']][0]
        bins = B.build({part['name']: os.path.join(VERIF, 'harness', part['src'])}, part['lib'], part.get('flavour', 'plain'))
        print(rp['key'], '\n', rp['detail'])
        os.execve(bins[part['name']], [bins[part['name']], '--seed', str(rp['seed']), '--case', str(rp['case'])], dict(os.environ, **part.get('env', {})))
    prop = a[0]
    tier = 'thorough' if '--thorough' in a else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    spec = SPECS[prop]
    t0 = time.time()
    tot = dict(events={}, notes={}, distinct=set(), samples=[])
    known = findings(prop)
    hits, bad = {}, []
    try:
        groups = {}
        for part in spec['parts']:
            if tier == 'quick' and part.get('thorough_only'):
                continue
            groups.setdefault((part['lib'], part.get('flavour', 'plain')), []).append(part)
        plan = []
        for (lib, fl), parts in groups.items():
            bins = B.build({p['name']: os.path.join(VERIF, 'harness', p['src']) for p in parts}, lib, fl)
            plan += [(p, bins[p['name']]) for p in parts]
        tb = time.time() - t0
        for part, exe in plan:
            cases = part[tier] if not os.environ.get('VERIF_CASES') else int(os.environ['VERIF_CASES'])
            limit = part.get('limit', 450) if tier == 'quick' else part.get('limit_thorough', 3000)
            r = run_harness(part['name'], exe, seed, cases, limit, part.get('hang', 60), dict(os.environ, **part.get('env', {})))
            for k, v in r['events'].items():
                tot['events'][k] = tot['events'].get(k, 0) + v
            for k, v in r['notes'].items():
                tot['notes'][k] = tot['notes'].get(k, 0) + v
            tot['distinct'] |= {(part['name'], h) for h in r['distinct']}
            tot['samples'] += r['samples'][:8]
            for k in sorted(r['viols']):
                if part.get('only') and not k.endswith('/' + part['only']):
                    continue  # judged by the property of that behaviour
                c, cse, d = r['viols'][k]
                for i, (pat, text) in enumerate(known):
                    if key_matches(pat, k):
                        hits[i] = hits.get(i, 0) + c
                        break
                else:
                    bad.append((part['name'], k, c, cse, d))
    except B.BuildError as e:
        print('NO ANSWER:', e)
        return 2
    nev = sum(tot['events'].values())
    ran = tot['notes'].get('cases-run', 0)
    rdir = os.path.join(B.BUILD, 'replay')
    os.makedirs(rdir, exist_ok=True)
    for i, (pat, text) in enumerate(known):
        if i in hits:
            print('KNOWN-FINDING: property=%s %s' % (prop, text))
    shown = 0
    for h, k, c, cse, d in bad:
        path = os.path.join(rdir, '%s-%s.json' % (prop, re.sub(r'[^A-Za-z0-9_.-]+', '_', k)[:80]))
        json.dump(dict(property=prop, harness=h, key=k, count=c, seed=seed, case=cse, detail=d), open(path, 'w'), indent=1)
        if shown < 40:
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  %s x%d (case %d): %s' % (k, c, cse, d[:600]))
        shown += 1
    keys = sorted(tot['events'].items(), key=lambda kv: -kv[1])
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=nev, distinct_nontrivial=len(tot['distinct']), rule=spec['rule'],
                            samples=(tot['samples'][:8] + ['%s: %d observations' % kv for kv in keys[:40]])[:48],
                            monitors=len(keys), cases=ran, events_by_monitor=dict(keys[:400]),
                            notes={k: v for k, v in sorted(tot['notes'].items())[:200]},
                            known_findings_observed={known[i][1]: n for i, n in hits.items()}),
              assumptions=spec['assumptions'], wall_s=round(time.time() - t0, 2),
              violations=[dict(key=k, count=c, replay='harness %s seed %d case %d' % (h, seed, cse), detail=d[:400]) for h, k, c, cse, d in bad[:50]])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s seed=%d: %d observations by %d monitors in %d cases, %d distinct states, build %.0fs, total %.0fs' %
          (prop, tier, seed, nev, len(keys), ran, len(tot['distinct']), tb, time.time() - t0))
    if bad:
        return 1
    if nev < spec.get('floor', 1000):
        print('NO ANSWER: the monitors observed only %d events' % nev)
        return 2
    return 0

if __name__ == '__main__':
    sys.exit(main())
