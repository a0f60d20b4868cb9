#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered rules."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/rules', V + '/engine']
from registry import PROPS, TECH
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = {
 'N01': 'A claim about real-valued optimisation (monotone penalised likelihood, numerical accuracy of log-sum-exp chains): the quantity depends on run-time floating-point values that no static argument here can bound.',
 'N02': 'Closeness of an approximated loss to a true one is a numerical statement about data; there is no source-level criterion for "close".',
 'N03': 'A probability distribution of random draws; static analysis sees which draw is compared with which bound (C04), not its distribution or independence.',
 'N04': 'An asymptotic cost claim over run-time sizes (trie depth, hash behaviour, reallocation); no sound static cost analysis of this Rust code is available in the sandbox.',
 'N05': 'Correctness of third-party crates (unicode-normalization, fancy-regex, regex) outside this repository; their sources are trusted as models.',
 'N06': 'Crash atomicity depends on what the operating system does with a partially written file; the code makes a single fs::write call and promises nothing beyond it, so the property does not hold and cannot be decided from the source.',
}
checks = []
for p in ids:
    if p in PROPS:
        tech, note = TECH.get(p, (None, None))
        checks.append(dict(property=p, quick_cmd=f'python3 check.py {p}', thorough_cmd=f'VERIF_TIER=thorough python3 check.py {p}',
            technique=tech or 'value-flow normal forms of the type-checked program (THIR abstract interpretation), obligations per entry point',
            level='other', level_note=note or 'Decided for all inputs on the value-flow normal form of the current source; trusts the library models in engine/models.py and rustc. Constructs outside the models make an obligation undecided (recorded in the evidence), never silently passed as discharged.'))
na = [dict(property=p, reason=NA.get(p, 'No sound static rule built yet.')) for p in ids if p not in PROPS]
json.dump(dict(version=1, setup_cmd='python3 engine/dump.py', checks=checks, not_applicable=na,
    notes='Static analysis only. Every check dumps THIR of /repo\'s working tree with driver/ (rustc_private, nightly) and decides the rules in rules/.'),
    open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
