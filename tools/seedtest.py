#!/usr/bin/env python3
"""Checks a planted bug in a scratch copy of /repo: ./tools/seedtest.py seeded/ID...
The patch must apply, build and pass the stable tests; demo.sh must pass without and fail with it."""
import json, os, shutil, subprocess, sys
COPY = '/tmp/seedrepo'
SCRIPTS = '/tmp/seedscripts'

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, errors='replace', **kw)

def prepare():
    if not os.path.exists(COPY):
        sh('cp -a /repo %s' % COPY)
    os.makedirs(SCRIPTS, exist_ok=True)
    for f in ('build.sh', 'test.sh'):
        t = open('/opt/vp/' + f).read().replace('/repo', COPY)
        open(SCRIPTS + '/' + f, 'w').write(t)

def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    return b

def tests():
    out = SCRIPTS + '/out.json'
    sh('timeout 800 bash %s/test.sh %s' % (SCRIPTS, out))
    r = json.load(open(out))
    return r

def passed(r):
    for k in ('stable', 'passed', 'pass', 'passing'):
        if k in r:
            return set(r[k])
    return set(k for k, v in r.get('tests', r).items() if v in ('pass', 'passed', True))

def main():
    prepare()
    sh('git -C %s checkout -q -- . && git -C %s clean -fdq' % (COPY, COPY))
    base = passed(stable())
    for d in sys.argv[1:]:
        d = os.path.abspath(d)
        problems = []
        demo = '/tmp/seeddemo'
        shutil.rmtree(demo, ignore_errors=True)
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
        sh('git -C %s checkout -q -- .' % COPY)
        b = sh('bash %s/build.sh' % SCRIPTS)
        r0 = sh('timeout 300 bash %s/demo.sh' % demo, cwd=COPY)
        if r0.returncode:
            problems.append('demo fails without the patch: ' + r0.stdout[-300:] + r0.stderr[-300:])
        a = sh('git -C %s apply %s/patch.diff' % (COPY, d))
        if a.returncode:
            problems.append('does not apply: ' + a.stderr)
        else:
            b = sh('bash %s/build.sh' % SCRIPTS)
            if b.returncode:
                problems.append('does not build: ' + b.stderr[-500:])
            else:
                missing = base - passed(tests())
                if missing:
                    problems.append('tests fail: %s' % sorted(missing))
                r1 = sh('timeout 300 bash %s/demo.sh' % demo, cwd=COPY)
                if r1.returncode == 0:
                    problems.append('demo passes with the patch')
        sh('git -C %s checkout -q -- .' % COPY)
        print('%-28s %s' % (os.path.basename(d), 'ok' if not problems else '; '.join(problems)), flush=True)

main()
