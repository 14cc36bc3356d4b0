#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = '/verif'
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
CHECKS = {
 'C01': ('stateful property-based testing against a BTreeMap model', 'Random histories over the whole roster of key types; no absence proof. Trusts the harness model and the std BTreeMap.'),
 'C02': ('stateful property-based testing against a BTreeSet model', 'Random histories over the whole roster of element types; no absence proof.'),
 'C03': ('stateful property-based testing: every view against the model at every step', 'Random histories; views compared with the model and with one another.'),
 'C04': ('stateful property-based testing against a declared order', 'The declaration order is written down in the roster independently of the crate; contiguity only for dynamic parts.'),
 'C05': ('model-based iterator driver over generated interleavings', 'Interleavings of at most a few dozen steps; fusedness is required of fixed keys only.'),
 'C06': ('stateful property-based testing of the entry API against a reference entry over a BTreeMap', 'Random plans of entry operations including closures and references kept and written through.'),
 'C07': ('stateful property-based testing of retain with recorded predicate calls', 'Random predicates by table; order of calls is not constrained.'),
 'C08': ('stateful property-based testing with drop-tracking values', 'Values with identities; liveness compared with the model after every call.'),
 'C09': ('fault injection: a generated panic at the n-th user callback', 'One panic per operation; leaks of hashbrown itself are a known finding.'),
 'C10': ('model-based generated programs interpreted under Miri (Stacked and Tree Borrows) and AddressSanitizer; generated programs which must not type-check', 'Undefined behaviour is seen only on the generated programs; the result of every operation is compared with a model as well.'),
 'C11': ('metamorphic and model-based property testing of ==, clone and default', 'Random pairs and triples of histories; floats include NaN and signed zero.'),
 'C12': ('differential testing against BTreeMap and BTreeSet', 'Random triples; laws checked on every pair.'),
 'C13': ('metamorphic testing with recording hashers', 'Separation is checked between collections of the same type only.'),
 'C14': ('differential testing of bitset enums against their regular twins', 'Enums of 0 to 128 variants in the roster.'),
 'C15': ('round-trip and model-based property testing of raw values', 'Raw values are generated by structure (sparse, dense, out of range).'),
 'C16': ('model-based iterator driver over generated pairs of sets', 'As for C05.'),
 'C17': ('differential testing of collect against insertion', 'Iterators with generated, inexact size hints.'),
 'C18': ('differential testing against debug_map, debug_set and debug_list', '14 sets of formatting flags.'),
 'C19': ('round-trip property testing through generated formats, serde_json and bincode', 'Tokens announce lengths, formats vary in being self-describing.'),
 'C20': ('structure-aware fuzzing of deserializers against a reference visitor', 'Inputs are token streams, JSON texts and bytes; values are drop-tracked.'),
 'C22': ('grammar-based generation of programs, compiled and run against reference models', 'Declarations of documented shapes only; a few names which clash with names of the derive are known findings.'),
 'C23': ('grammar-based generation of declarations with a generated defect, judged by the diagnostics of the compiler', 'One defect at a time; parameters with defaults are not generated.'),
 'C24': ('differential testing of generated histories across all feature combinations; generated no_std programs linked and run', 'Histories of at most a few dozen operations; formats of the serialization are the generated ones.'),
 'C25': ('generated histories under single-stepping: executed instructions against constant and linear limits', 'Instructions are counted in builds at opt-level 1; limits are at least four times what is needed, so that growth is seen for large types and contents only. Wall-clock time is not judged.'),
 'C26': ('differential testing: generated programs type-checked over the crate and over two reference containers', 'Programs the two references decide differently are left open; rustc is trusted.'),
 'C21': ('property-based testing under a counting allocator; measured sizes', 'Allocations are counted over generated histories; sizes for every type of the roster.'),
}
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        t, n = CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f'./check.sh {i}', thorough_cmd=f'VERIF_TIER=thorough ./check.sh {i}', technique=t, level='exploration', level_note=n))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'The check for this property has not been built yet.')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
 notes='No hooks are needed: every property is decided through the public API.')
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
open(f'{V}/MANIFEST.json', 'a').write('\n')
