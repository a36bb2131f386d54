#!/usr/bin/env python3
"""Runs checks against planted bugs, on /repo itself: ./tools/seedrun.py [--all] seeded/ID...
Without --all only the check of the bug's own property; the patch is undone afterwards."""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = ['C%02d' % i for i in range(1, 18)]

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, errors='replace', **kw)

def main():
    args = [a for a in sys.argv[1:] if a != '--all']
    for d in args:
        meta = json.load(open(d + '/meta.json'))
        a = sh('git -C /repo apply %s/patch.diff' % os.path.abspath(d))
        if a.returncode:
            print(d, 'does not apply', a.stderr)
            continue
        try:
            res = []
            for p in PROPS if '--all' in sys.argv else [meta['property']]:
                t = time.time()
                r = sh('./check.py %s quick' % p, cwd=HERE)
                lines = r.stdout.strip().splitlines()
                res.append('%s=%d(%.0fs)' % (p, r.returncode, time.time() - t))
                if '--all' not in sys.argv or r.returncode == 2:
                    res.append(' | '.join(l[:200] for l in lines[:2]))
        finally:
            sh('git -C /repo checkout -q -- .')
        print(os.path.basename(d.rstrip('/')), ' '.join(res), flush=True)

main()
