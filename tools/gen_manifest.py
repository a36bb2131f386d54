#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
T = dict(
 C01=('stateful model-based generation against a list model', 'Histories of all editing operations on four vectors are compared step by step with plain lists.'),
 C02=('stateful model-based generation; every sharing vector re-read after each step', 'Histories weighted towards cloning and in-place mutation; all vectors, not only the one operated on, are compared with their lists after every step.'),
 C03=('generated trees, differential reads against a list model', 'Every position and generated access walks through every reader.'),
 C04=('stateful model-based generation of focus operations', 'Pools of foci under get/narrow/split/clone against list slices.'),
 C05=('stateful model-based generation of nested mutable splits', 'Writes through trees of split foci and all mutable accessors against list slices.'),
 C06=('generated contents and trees; validity predicate (ordered, permutation, outside untouched) and a comparison budget', 'Order, permutation and bounds are checked on every sort; comparator calls are counted, the stack is 2 MiB.'),
 C07=('generated pairs of vectors; validity predicate with uniquely tagged secondary', 'Every secondary element is identified by a unique tag, so any other permutation shows.'),
 C08=('generated sorted contents; linear-scan oracle', 'Each search result is compared with a linear scan.'),
 C09=('generated pairs of lists in differently built trees; comparison with Vec', 'Equality, order and hash are compared with those of Vec, for total and partial orders.'),
 C10=('stateful generation with elements that account for each instance', 'Each instance is registered at creation and at drop; double drops, use after drop, wild reads and leaks are reported.'),
 C11=('stateful generation with a full tree walk after each step', 'The documented invariants are evaluated on the real tree by the guarded hook; without the hook only contents are compared.'),
 C12=('generated histories with copy-counting elements and a counting allocator', 'Element clones and allocated bytes are counted against fixed limits.'),
 C13=('generated per-thread histories on sharing vectors against sequential models', 'Interleavings are those the platform produces (8 workers with 3 to 6 threads each on 8 cores); schedules are sampled, not enumerated.'),
 C14=('generated histories with a panic injected at enumerated callback positions', 'For each generated operation the calls into user code are counted, then it is repeated with a panic at each of them (ten of them if there are more).'),
 C15=('generated out-of-range requests against the stated outcome', 'The outcome (nothing, panic, clamping), the contents and the usability afterwards are checked.'),
 C16=('stateful generation of iterator walks against a list model', 'Mixed walks from both ends with the exact remaining length checked before every step.'),
 C17=('generated histories with height hook and counting allocator', 'Height and allocated bytes are compared with explicit bounds; without the hook only allocation is.'),
)
checks = []
for k in sorted(T):
    tech, note = T[k]
    checks.append(dict(property=k, quick_cmd='./check.py %s quick' % k, thorough_cmd='./check.py %s thorough' % k,
        evidence_file='evidence/%s.json' % k, technique='property-based testing: ' + tech,
        level='fault_enumeration' if k == 'C14' else 'exploration',
        level_note=note + ' Generated-input search: it shows presence, not absence. Trusts the harness\'s models, rustc and the dependencies of the crate.'))
m = dict(version=1, setup_cmd='./check.py --build',
    hooks=dict(guard='librrb_verif', enable='RUSTFLAGS="--cfg librrb_verif" for the shape hook, and "--cfg librrb_verif --cfg librrb_verif_narrow" for the build with narrow nodes (check.py sets them when it builds the harness)', source_commits=os.popen('git -C /repo log --format=%h --grep="^hook:"').read().split()),
    checks=checks, not_applicable=[],
    notes='All checks are ./check.py (see DESIGN.md). Defects that were found and repaired are listed in known_findings.txt. Replay a violation with ./check.py --replay FILE.')
json.dump(m, open(os.path.join(HERE, '..', 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, '..', 'MANIFEST.json'), 'a').write('\n')
