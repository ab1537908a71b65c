#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a harness is claimed."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import check
T = {
 'C01': ('exhaustive enumeration of byte streams, trees and structural deviations on the real code against a reference grammar', 'every stream of the alphabet and every single/double deviation of every small tree; sizes and values outside the alphabets are covered on one axis at a time'),
 'C02': ('exhaustive enumeration of hierarchies, round trip on the real code against a reference serializer', 'all small trees, all byte values/positions, one-axis-large trees'),
 'C03': ('exhaustive enumeration of hostile inputs and the operations that follow, run under address/undefined-behaviour instrumentation with two memory fills', 'memory errors are seen by ASan/UBSan, uninitialized reads by comparing two fill patterns'),
 'C04': ('exhaustive enumeration of end-of-input, I/O error and short-read positions', 'every fault position of every tree in the bounds'),
 'C05': ('exhaustive enumeration of output failure positions and kinds', 'every fault position of every tree in the bounds'),
 'C06': ('exhaustive enumeration of failing allocations (each one, and each one and all later ones)', 'every allocation of every scenario in the bounds'),
 'C07': ('explicit-state exploration of all sequences of building operations on the real code against a reference model', 'all sequences up to the depth bound'),
 'C08': ('exhaustive enumeration of ancestor chains and trees against a reference model of the scoping rules', 'all trees in the bounds'),
 'C09': ('exhaustive enumeration of trees and type sets against a reference search', 'all trees in the bounds'),
 'C10': ('exhaustive pairwise comparison of trees against structural equality', 'all pairs in the bounds'),
 'C11': ('exhaustive enumeration of registries and trees with recording handlers against a reference resolution', 'all registries and trees in the bounds'),
 'C12': ('exhaustive enumeration of field layouts, declared sizes and stream faults against a reference model', 'all layouts up to the bound'),
 'C13': ('exhaustive enumeration of values and short streams', 'thorough: all 2^32 values'),
 'C14': ('exhaustive enumeration of hierarchies, indentations and byte values against a reference printer', 'all trees in the bounds'),
 'C15': ('exhaustive enumeration of inputs, options and output faults on the built tool', 'all inputs in the bounds'),
 'C16': ('exhaustive enumeration of IDs against the reference rules', 'thorough: all 2^32 values'),
 'C17': ('stateless exploration of all interleavings up to a preemption bound with a controlled scheduler on the instrumented code, and of all operation sequences', 'preemption bounded; data races are detected from the recorded accesses'),
 'C18': ('exhaustive enumeration of input lists, options and output faults on the built tool and of adding sequences in the library', 'all inputs in the bounds'),
 'C20': ('exhaustive enumeration of hierarchies and of every part of each, and of all ways to move a hierarchy into two others, against the reference model of the part alone', 'all trees in the bounds'),
 'C21': ('stateless exploration of all sequences of changes and inspections on the real code against a reference model of the present state', 'all sequences up to the depth bound'),
 'C22': ('exhaustive enumeration of direct calls of the building blocks, and of hierarchies with group types composed of them, on the real code against a reference model', 'all pairs of border sizes, all hierarchies in the bounds'),
 'C19': ('exhaustive enumeration of inputs, deviations and faults with the diagnostics channel observed', 'all inputs in the bounds'),
}
checks, na = [], []
for p in sorted(check.CHECKS):
    if all(os.path.exists(os.path.join(HERE, 'mc', s)) for s, _ in check.CHECKS[p]):
        checks.append(dict(property=p, quick_cmd='python3 check.py %s' % p, thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % p,
                           technique='model checking: ' + T[p][0], level=check.LEVEL.get(p, 'model_checking'),
                           level_note='Bounded exhaustive: ' + T[p][1] + '. Trusts the reference model in mc/, the compiler and libc. Bounds: DESIGN.md, section ' + p + '.'))
    else:
        na.append(dict(property=p, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na,
               notes='No hooks in /repo: the checks compile the unmodified sources and intercept libc at link time.'), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
