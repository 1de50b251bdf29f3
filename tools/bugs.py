#!/usr/bin/env python3
"""Run checks against planted bugs: bugs.py [--all] [--only PNN,PNN] [BUG ...]

Applies each seeded patch to /repo, runs the check of its property (--all: every
check), undoes it, and prints which checks reported a violation.
"""
import glob, json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = '--all' in args
only = None
if '--only' in args:
    i = args.index('--only'); only = args[i + 1].split(','); del args[i:i + 2]
names = [a for a in args if not a.startswith('--')] or sorted(os.path.basename(p) for p in glob.glob(V + '/seeded/*'))
env = dict(os.environ); env.setdefault('VERIF_SEED', '1'); env.setdefault('VERIF_TIER', 'quick')
subprocess.run('git -C /repo diff --quiet', shell=True, check=True)
for n in names:
    d = V + '/seeded/' + n
    prop = json.load(open(d + '/meta.json'))['property']
    props = only or (['P%02d' % i for i in [*range(1, 13), 14, 16]] if every else [prop])
    subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], check=True)
    try:
        out = []
        for p in props:
            t = time.time()
            r = subprocess.run(['bash', V + '/check.sh', p], capture_output=True, text=True, env=env)
            hit = re.search(r'^VIOLATION property=%s .*' % p, r.stdout, re.M)
            out.append('%s:%s%s(%.0fs)' % (p, 'CAUGHT' if hit and r.returncode == 1 else 'quiet' if r.returncode == 0 else 'rc%d' % r.returncode, '*' if p == prop else '', time.time() - t))
        print(n, prop, ' '.join(out), flush=True)
    finally:
        subprocess.run('git -C /repo checkout -q -- .', shell=True, check=True)
