#!/usr/bin/env python3
"""Decides one property by generated-input search: ./check.py C01 [quick|thorough]

Builds the harness against /repo's working tree, runs the saved cases and then a fixed number of
generated cases in parallel worker processes, minimises the first failure into a replay file, and
writes evidence/<id>.json. Exit 0: held; 1: VIOLATION; 2: no verdict.

    ./check.py --replay FILE     runs a replay file and prints its operations
    ./check.py --build           only builds
"""
import array, glob, json, os, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
TARGET = os.environ.get('VERIF_TARGET', os.path.join(HERE, 'target'))
CORES = 8
MEMORY_KB = 4 << 20

# Generated cases of the quick tier; the thorough tier takes THOROUGH times as many.
CASES = dict(C01=560000, C02=520000, C03=800000, C04=1440000, C05=1200000, C06=96000, C07=112000, C08=1200000,
             C09=320000, C10=320000, C11=800000, C12=640000, C13=110000, C14=340000, C15=1440000, C16=1200000,
             C17=560000)
THOROUGH = 12
# Workers stop here whatever is left, and the evidence says so.
BUDGET = dict(quick=330, thorough=3000)
# A worker that stays on one case for this long is stopped, and the case is run alone.
HANG = 60
# A case takes milliseconds: one that alone burns this much processor time does not end.
CPU_LIMIT = 40

RULES = dict(
    C01='history of weighted random operations (of every kind, or of a few kinds only) on four vectors; non-trivial: at least three kinds of operation and a vector of more than 128 elements',
    C02='history weighted towards cloning and in-place changes; non-trivial: after a vector of more than 64 elements was cloned, another operation changed a vector of more than 64',
    C03='vectors made by a history of growing/cutting operations, then read at every index and by strided walks of a focus; non-trivial: a walk over more than 64 elements',
    C04='as C03, then get/narrow/split/clone steps on a pool of foci; non-trivial: more than 64 elements and a focus narrowed or split again',
    C05='as C03, then writes through nested splits of a mutable focus and the other mutable accessors; non-trivial: more than 64 elements and at least one split',
    C06='contents of 12 patterns in trees of random construction, sorted over random ranges; non-trivial: more than 64 elements sorted',
    C07='as C06 with a second vector of unique tags, other type, flavour, tree or length; non-trivial: more than 64 elements sorted',
    C08='sorted contents with runs in trees of random construction, searched in random ranges; non-trivial: more than 64 elements and a matching run longer than one',
    C09='a pair of lists (equal, or different by one edit), each built by a random construction plan; non-trivial: more than 64 elements in trees of different shape',
    C10='history weighted towards cloning on elements that account for each instance, then letting go in some order; non-trivial: more than 64 positions and elements shared at the end',
    C11='as C01 with the tree walked after each step; non-trivial: at least three kinds of operation and a vector of more than 128 elements',
    C12='unshared histories, or single operations on clones, on elements that count their copies; non-trivial: a single operation on a clone of more than 128 elements',
    C13='a history, then per-thread histories on clones with concurrent readers, a focus split between threads, and concurrent drops; non-trivial: more than 64 elements and work for every thread',
    C14='operations on clones, each repeated with a panic at up to ten (all, if there are no more) of the places where it calls user code; non-trivial: at least one injected panic fired',
    C15='out-of-range requests on vectors made by a history; non-trivial: a request on more than 64 elements',
    C16='mixed next/next_back/nth walks of each kind of iterator over vectors made by a history; non-trivial: a walk over more than 64 elements',
    C17='runs of pushes, pops, cuts and concatenations with height and allocated bytes measured; non-trivial: a vector of more than 1984 elements',
)
LEVEL = {'C14': 'fault_enumeration'}
# Builds of the library: cargo profile and flags. 'narrow' and 'tiny' have nodes of 8 and 4 slots instead
# of 64, so that small cases reach tall trees; 'asan' and 'tsan' are 'tiny' and 'narrow' with the address or
# thread sanitizer (nightly toolchain; the second one, for C13 only, with an instrumented standard library);
# 'dangle', for C10 only, is 'narrow' with the feature may_dangle, which has a destructor of its own.
NARROW = '--cfg librrb_verif_narrow'
TINY = '--cfg librrb_verif_tiny'
BUILDS = dict(checked=('checked', ''), release=('release', ''), narrow=('checked', NARROW),
              tiny=('checked', TINY), asan=('checked', TINY + ' -Zsanitizer=address'), tsan=('checked', NARROW + ' -Zsanitizer=thread'),
              dangle=('checked', NARROW))
SANITIZED = ('asan', 'tsan')
NIGHTLY = SANITIZED + ('dangle',)
TRIPLE = 'x86_64-unknown-linux-gnu'
ASAN_OPTIONS = 'detect_leaks=0:abort_on_error=1:hard_rss_limit_mb=4096:malloc_context_size=2:quarantine_size_mb=32'
TSAN_OPTIONS = 'halt_on_error=1:exitcode=66'
# The build that each worker runs; the sanitized ones are slow and take their first cases only.
ROTA = ('checked', 'release', 'narrow', 'checked', 'tiny', 'release', 'narrow', 'asan')
ROTA_THREADS = ('checked', 'release', 'narrow', 'tsan', 'tiny', 'release', 'asan', 'tsan')
ROTA_DROPS = ('checked', 'release', 'narrow', 'checked', 'tiny', 'dangle', 'narrow', 'asan')
SLOW = 8


def fail(msg):
    print('ERROR: ' + msg)
    sys.exit(2)


def rota_of(prop):
    return {'C13': ROTA_THREADS, 'C10': ROTA_DROPS}.get(prop, ROTA)


def target(name):
    return TARGET if name in ('checked', 'release') else os.path.join(TARGET, name)


def compile_one(name, flags):
    profile, extra = BUILDS[name]
    env = dict(os.environ, RUSTFLAGS=(flags + ' ' + extra).strip(), CARGO_NET_OFFLINE='true')
    cmd = ['cargo', '+nightly'] if name in NIGHTLY else ['cargo']
    cmd += ['build', '-q', '--offline', '--profile', profile, '--target-dir', target(name)]
    if name in SANITIZED:
        cmd += ['--target', TRIPLE]
    if name == 'dangle':
        cmd += ['--features', 'librrb/may_dangle']
    if name == 'tsan':
        cmd += ['-Zbuild-std']
    return subprocess.Popen(cmd, cwd=os.path.join(HERE, 'harness'), env=env, stdout=subprocess.PIPE,
                            stderr=subprocess.STDOUT, text=True, errors='replace')


def works(name):
    """Whether the build runs here at all."""
    r = subprocess.run(limited(name, [binary(name), 'gen', 'C01', '1', '0']), env=environment(name),
                       capture_output=True, text=True, errors='replace')
    return r.returncode == 0


def build(names):
    """Returns (whether the shape hook is compiled in, the builds there are)."""
    lockfile = os.path.join(HERE, 'harness', 'Cargo.lock')
    lock = open(lockfile, 'rb').read()
    last = ''
    for hooked in (True, False):
        procs = {name: compile_one(name, '--cfg librrb_verif' if hooked else '') for name in names}
        out = {name: p.communicate()[0] for name, p in procs.items()}
        if open(lockfile, 'rb').read() != lock:
            open(lockfile, 'wb').write(lock)
        good = [name for name in names if procs[name].returncode == 0]
        if 'checked' in good and 'release' in good:
            for name in names:
                if name not in ('checked', 'release') and (name not in good or not works(name)):
                    print('note: the %s build failed, going on without it' % name)
                    good = [x for x in good if x != name]
            return hooked, good
        last = ''.join(out[name] for name in names if name not in good)
        if hooked:
            print('note: the build with the shape hook failed, trying without it')
    fail('the harness does not build:\n' + last[-3000:])


def binary(name):
    return os.path.join(target(name), TRIPLE if name in SANITIZED else '', BUILDS[name][0], 'rrb-harness')


def environment(name):
    return dict(os.environ, ASAN_OPTIONS=ASAN_OPTIONS, TSAN_OPTIONS=TSAN_OPTIONS)


def limited(name, cmd, cpu=0):
    limits = 'ulimit -c 0; '
    if name not in SANITIZED:
        limits += 'ulimit -v %d; ' % MEMORY_KB
    if cpu:
        limits += 'ulimit -t %d; ' % (cpu * (SLOW if name in SANITIZED else 1))
    return ['sh', '-c', limits + 'exec "$0" "$@"'] + cmd


def describe_crash(code, err, alone=False):
    """None if the death says nothing about the property."""
    if 'harness thread failed' in err or 'Cannot allocate memory' in err:
        return None
    if 'hard rss limit exhausted' in err:
        return 'the operations asked for more than 4 GB of memory' if alone else None
    if 'memory allocation of' in err:
        # Cases need some megabytes of the gigabytes allowed; believed only of a case run alone.
        return 'the operations asked for more than %d GB of memory' % (MEMORY_KB >> 20) if alone or code == -signal.SIGABRT else None
    if code == -signal.SIGXCPU or (alone and code == 128 + signal.SIGXCPU):
        return 'the operations did not end within %d s of processor time' % CPU_LIMIT
    if code == 66 and 'WARNING: ThreadSanitizer' in err:
        what = [l.strip() for l in err.splitlines() if 'ThreadSanitizer' in l or l.startswith('    #0')]
        return '; '.join(what[:3])[:300]
    if code >= 0 or -code in (signal.SIGKILL, signal.SIGTERM, signal.SIGINT):
        return None
    what = signal.Signals(-code).name
    lines = [l for l in err.splitlines() if l.strip()]
    lines = [l for l in lines if 'AddressSanitizer' in l] or lines
    return 'the process died of %s%s' % (what, ': ' + lines[0][:300] if lines else '')


def evaluate(prop, profile, text, workdir, tag, repeat=1, timeout=60, show=False):
    """(outcome, message, output); outcome is 'pass', 'fail' or 'none'."""
    path = os.path.join(workdir, 'eval-%s' % tag)
    with open(path, 'w') as f:
        f.write(text)
    try:
        r = subprocess.run(limited(profile, [binary(profile), 'show' if show else 'eval', prop, path, str(repeat)],
                                   CPU_LIMIT * (1 if repeat == 1 else 4)), env=environment(profile),
                           capture_output=True, text=True, errors='replace', timeout=timeout)
    except subprocess.TimeoutExpired:
        return 'none', 'no end within %d s' % timeout, ''
    if r.returncode == 0:
        return 'pass', '', r.stdout
    if r.returncode == 1:
        msg = [l[7:] for l in r.stdout.splitlines() if l.startswith('FAILED ')]
        return 'fail', msg[0] if msg else '?', r.stdout
    crash = describe_crash(r.returncode, r.stderr, True)
    return ('fail', crash, r.stdout) if crash else ('none', 'exit %d %s' % (r.returncode, r.stderr[:200]), r.stdout)


# ------------------------------------------------------------------ minimising

def parse(text):
    head, ops, probe = [], [], []
    for line in text.splitlines():
        w = line.split('#')[0].split()
        if not w or w[0] not in ('head', 'op', 'probe'):
            continue
        n = [int(x) for x in w[1:]]
        if w[0] == 'head':
            head = n
        else:
            (ops if w[0] == 'op' else probe).append(n)
    return [head, ops, probe]


def unparse(c):
    out = ['head ' + ' '.join(map(str, c[0]))]
    for tag, l in (('op', c[1]), ('probe', c[2])):
        out += [tag + ' ' + ' '.join(map(str, o)) for o in l]
    return '\n'.join(out) + '\n'


def minimise(prop, profile, text, message, workdir, repeat, seconds=60, limit=2500):
    """Removes operations and lowers numbers while the case still fails."""
    deadline = time.time() + seconds
    best, best_msg, used = parse(text), message, 0
    pool = ThreadPoolExecutor(CORES)

    def first_failing(cands):
        nonlocal best, best_msg, used
        for at in range(0, len(cands), CORES):
            if time.time() > deadline or used > limit:
                return False
            batch = cands[at:at + CORES]
            used += len(batch)
            res = list(pool.map(lambda ic: evaluate(prop, profile, unparse(ic[1]), workdir, 'm%d' % ic[0], repeat, 20),
                                enumerate(batch)))
            for c, r in zip(batch, res):
                if r[0] == 'fail':
                    best, best_msg = c, r[1]
                    return True
        return False

    progress = True
    while progress and time.time() < deadline and used < limit:
        progress = False
        for part in (2, 1):
            size = max(1, len(best[part]) // 2)
            while size >= 1:
                cands = []
                n = len(best[part])
                for a in range(0, n, size):
                    c = [list(best[0]), list(best[1]), list(best[2])]
                    del c[part][a:a + size]
                    cands.append(c)
                if cands and first_failing(cands):
                    progress = True
                    size = min(size, max(1, len(best[part]) // 2))
                    continue
                size //= 2
        # Numbers: the parameters, then the operands
        slots = [(0, i, None) for i in range(len(best[0]))]
        slots += [(p, i, j) for p in (1, 2) for i in range(len(best[p])) for j in (1, 2, 3)]
        for p, i, j in slots:
            old = best[0][i] if p == 0 else best[p][i][j]
            for _ in range(12):
                tries = sorted({0, 1, old % 8, old % 64, old // 2, old // 16, old - 1} - {old, -1})
                tries = [t for t in tries if t < old]
                cands = []
                for t in tries:
                    c = [list(best[0]), [list(o) for o in best[1]], [list(o) for o in best[2]]]
                    if p == 0:
                        c[0][i] = t
                    else:
                        c[p][i][j] = t
                    cands.append(c)
                if not cands or not first_failing(cands):
                    break
                progress = True
                old = best[0][i] if p == 0 else best[p][i][j]
            if time.time() > deadline or used > limit:
                break
    pool.shutdown()
    return unparse(best), best_msg, used


# ------------------------------------------------------------------ the search

class Worker:
    def __init__(self, k, prop, seed, first, step, end, profile, base, budget):
        self.k, self.prop, self.seed, self.first, self.step, self.end = k, prop, seed, first, step, end
        self.profile, self.budget = profile, budget
        self.dir = os.path.join(base, 'w%d-%d' % (k, first))
        os.makedirs(self.dir)
        self.err = open(os.path.join(self.dir, 'stderr'), 'w+')
        self.proc = subprocess.Popen(
            limited(profile, [binary(profile), 'worker', prop, str(seed), str(first), str(step), str(end), self.dir, str(int(budget))]),
            env=environment(profile), stdout=subprocess.DEVNULL, stderr=self.err)
        self.started = time.time()
        self.seen, self.seen_at = None, time.time()

    def state(self):
        try:
            text = open(os.path.join(self.dir, 'state')).read()
            return int(text.split()[1]), text.split('\n', 1)[1]
        except (OSError, IndexError, ValueError):
            return None, ''

    def stderr(self):
        self.err.flush()
        self.err.seek(0)
        return self.err.read()[:4000]

    def hung(self):
        i = self.state()[0]
        if i != self.seen:
            self.seen, self.seen_at = i, time.time()
        return time.time() - self.seen_at > HANG


def corpus(prop):
    return sorted(glob.glob(os.path.join(HERE, 'corpus', prop, '*.case')))


def main():
    args = sys.argv[1:]
    if args and args[0] == '--build':
        hooked, builds = build(list(BUILDS))
        print('built %s %s the shape hook' % (', '.join(builds), 'with' if hooked else 'without'))
        return 0
    if len(args) == 2 and args[0] == '--replay':
        return replay(args[1])
    if not args or args[0] not in CASES:
        print(__doc__)
        return 2
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    tier = 'thorough' if tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    hooked, builds = build([name for name in BUILDS if name in rota_of(prop)])
    t_build = time.time() - t0
    total = CASES[prop] * (THOROUGH if tier == 'thorough' else 1)
    total = int(os.environ.get('VERIF_CASES', total))
    base = tempfile.mkdtemp(prefix='rrb-%s-' % prop)
    try:
        return search(prop, tier, seed, total, base, hooked, builds, t0, t_build)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def search(prop, tier, seed, total, base, hooked, builds, t0, t_build):
    repeat = 30 if prop == 'C13' else 1
    problems, failure, samples = [], None, []
    evals = {p: 0 for p in BUILDS}
    hits, maxes, hashes, truncated = {}, {}, set(), 0
    # Saved cases first
    saved = 0
    for path in corpus(prop):
        text = open(path).read()
        for profile in builds:
            r = evaluate(prop, profile, text, base, 'saved', repeat)
            saved += 1
            if r[0] == 'fail' and not failure:
                failure = (profile, text, r[1], 'saved case ' + os.path.basename(path))
            elif r[0] == 'none':
                problems.append('saved case %s: %s' % (path, r[1]))
    workers = []
    if not failure:
        rota = [name if name in builds else 'checked' for name in rota_of(prop)]
        workers = [Worker(k, prop, seed, k, CORES, total // SLOW if rota[k] in SANITIZED else total, rota[k], base, BUDGET[tier])
                   for k in range(CORES)]
    restarts = {}
    while workers:
        time.sleep(0.1)
        for w in list(workers):
            code = w.proc.poll()
            if code is None:
                if w.hung():
                    w.proc.kill()
                    w.proc.wait()
                    i, text = w.state()
                    workers.remove(w)
                    again = ('none', '')
                    if i is not None and not failure:
                        again = evaluate(prop, w.profile, text, base, 'confirm', repeat, 240)
                    if again[0] == 'fail':
                        failure = (w.profile, text, again[1], 'case %d of seed %d' % (i, seed))
                        break
                    problems.append('case %s (%s build) made no progress for %d s' % (i, w.profile, HANG))
                    restart(w, i, workers, restarts, base, BUDGET[tier])
                continue
            workers.remove(w)
            result = os.path.join(w.dir, 'result')
            if code in (0, 1) and os.path.exists(result):
                r = json.load(open(result))
                evals[w.profile] += r['evaluations']
                truncated += r['truncated']
                for k, v in r['hits'].items():
                    hits[k] = hits.get(k, 0) + v
                for k, v in r['maxes'].items():
                    maxes[k] = max(maxes.get(k, 0), v)
                samples += r['samples']
                a = array.array('Q')
                a.frombytes(open(os.path.join(w.dir, 'hashes'), 'rb').read())
                hashes.update(a)
                if r['failure'] and not failure:
                    f = r['failure']
                    failure = (w.profile, f['case'], f['message'], 'case %d of seed %d' % (f['index'], seed))
            else:
                i, text = w.state()
                crash = describe_crash(code, w.stderr())
                if i is not None:
                    evals[w.profile] += (i - w.first) // w.step + 1
                if crash and i is not None:
                    again = evaluate(prop, w.profile, text, base, 'confirm', repeat)
                    if again[0] == 'fail' and not failure:
                        failure = (w.profile, text, again[1], 'case %d of seed %d' % (i, seed))
                    elif again[0] != 'fail':
                        # What earlier cases left behind may matter: the same stretch again
                        w2 = Worker(w.k, prop, seed, w.first, w.step, i + 1, w.profile,
                                    tempfile.mkdtemp(dir=base), BUDGET[tier])
                        w2.proc.wait()
                        second = describe_crash(w2.proc.returncode, w2.stderr())
                        if second and 'of memory' in second:
                            second = None
                        if second and not failure:
                            failure = (w.profile, text, second + ' (only after the cases before it)',
                                       'cases %d to %d by %d of seed %d' % (w.first, i, w.step, seed))
                        elif not second:
                            problems.append('case %d (%s build): %s, but not again' % (i, w.profile, crash))
                            restart(w, i, workers, restarts, base, BUDGET[tier])
                else:
                    problems.append('a worker ended with %s at case %s: %s' % (code, i, w.stderr()[:300]))
                    restart(w, i, workers, restarts, base, BUDGET[tier])
            if failure:
                break
        if failure:
            for x in workers:
                x.proc.kill()
            for x in workers:
                x.proc.wait()
                i, _ = x.state()
                if i is not None:
                    evals[x.profile] += (i - x.first) // x.step
            workers = []
    replay_path = None
    if failure:
        profile, text, message, where = failure
        first = evaluate(prop, profile, text, base, 'confirm', repeat)
        small, small_msg, used = text, message, 0
        if first[0] == 'fail' and 'did not end' not in first[1]:
            small, small_msg, used = minimise(prop, profile, text, first[1], base, repeat)
        shown = evaluate(prop, profile, small, base, 'show', 1, show=True)[2]
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        replay_path = os.path.join(HERE, 'replays', '%s-%d.case' % (prop, seed))
        with open(replay_path, 'w') as f:
            f.write('# property=%s build=%s hook=%s\n# %s\n# found as %s: %s\n' % (prop, profile, hooked, small_msg, where, message))
            f.write('# %s; %d runs to minimise\n' % ('fails again alone' if first[0] == 'fail' else 'did not fail again alone', used))
            f.write(small)
            for l in shown.splitlines():
                f.write('# ' + l.lstrip('# ') + '\n')
    slow = sum(1 for name in rota_of(prop) if name in SANITIZED and name in builds)
    planned = total - slow * (total // CORES - total // SLOW // CORES)
    evidence = dict(
        property=prop, tier=tier, seed=seed, level=LEVEL.get(prop, 'exploration'),
        coverage=dict(
            evaluations=sum(evals.values()) + saved,
            distinct_nontrivial=len(hashes),
            rule=RULES[prop],
            samples=samples[:6],
            evaluations_with_debug_assertions=evals['checked'],
            evaluations_of_the_release_build=evals['release'],
            evaluations_with_narrow_nodes=evals['narrow'],
            evaluations_with_tiny_nodes=evals['tiny'],
            evaluations_with_tiny_nodes_and_address_sanitizer=evals['asan'],
            evaluations_with_narrow_nodes_and_thread_sanitizer=evals['tsan'],
            evaluations_with_narrow_nodes_and_may_dangle=evals['dangle'],
            saved_cases_run=saved,
            planned=planned,
            workers_stopped_by_the_time_limit=truncated,
            shape_hook=hooked,
            classes=hits,
            maxima=maxes,
            build_s=round(t_build, 1),
        ),
        assumptions=['the list model, comparators and element accounting of the harness', 'rustc, the standard library, archery, rand_xoshiro'],
        wall_s=round(time.time() - t0, 1),
        violations=1 if failure else 0,
    )
    if problems:
        evidence['coverage']['problems'] = problems[:10]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    print('%s: %d cases, %d distinct non-trivial, %.0f s (build %.0f s)%s' % (
        prop, evidence['coverage']['evaluations'], len(hashes), evidence['wall_s'], t_build,
        '' if hooked else ', without the shape hook'))
    if failure:
        print('%s: %s' % (prop, small_msg))
        print('VIOLATION property=%s replay=%s' % (prop, replay_path))
        return 1
    for p in problems:
        print('ERROR: ' + p)
    if problems:
        return 2
    return 0


def restart(w, i, workers, restarts, base, budget):
    restarts[w.k] = restarts.get(w.k, 0) + 1
    nxt = w.first if i is None else i + w.step
    if restarts[w.k] <= 3 and nxt < w.end and i is not None:
        workers.append(Worker(w.k, w.prop, w.seed, nxt, w.step, w.end, w.profile, base, budget))


def replay(path):
    text = open(path).read()
    fields = dict(x.split('=', 1) for x in text.splitlines()[0].lstrip('# ').split() if '=' in x)
    build([name for name in BUILDS if name in ('checked', 'release', fields.get('build'))])
    base = tempfile.mkdtemp(prefix='rrb-replay-')
    try:
        prop = fields['property']
        r = evaluate(prop, fields.get('build', 'checked'), text, base, 'replay', 200 if prop == 'C13' else 1, 300, show=prop != 'C13')
    finally:
        shutil.rmtree(base, ignore_errors=True)
    print(r[2], end='')
    if r[0] == 'fail':
        print(r[1])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print(r[0], r[1])
    return 0 if r[0] == 'pass' else 2


if __name__ == '__main__':
    sys.exit(main())
