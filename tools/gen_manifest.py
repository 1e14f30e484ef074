#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the list of claimed properties."""
import json, os, sys
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
CLAIMED = {
 'C01': 'ledger of every live element; panics injected at any call into caller code',
 'C02': 'reference list model stepped along the same history, closure-call log',
 'C03': 'pull log of the source against the model of the stream',
 'C04': 'items yielded, abandoned or resumed after a crash, against the model sequence',
 'C05': 'old / new / torn value per component after completed and interrupted assignments',
 'C06': 'definitions over an exact field and over floats, per computation, whatever was interleaved with it',
 'C07': 'independent exact formulas (multiplication table, 2x2 matrices) per computation, whatever was interleaved with it',
 'C08': 'pairs (A, b) and 2x2 matrices stepped along the same history',
 'C09': 'expected text, prefix of it in the sink, error reported, silence after a failure',
 'C10': 'the promise of each distribution judged on every sample; bounded draws once the source is healthy',
 'C11': 'the same draws handed again to the parts sampled one after another; call log of the inner distribution; same bits under other schedules',
 'C12': 'moments, correlations, tail frequencies and circular/spherical statistics of seeded ensembles at 7 sigma',
 'C14': 'conjunction of scripted or numeric component verdicts, through crashes and interleavings',
 'C16': 'the same seeded histories, with the same faults and schedules, executed in builds with each feature combination: the verdicts of all other oracles must coincide; plus every combination builds and the std-less one is not linked with std',
}
NOTE = ('Seeded search over simulated runs of the real crate: operands, histories, interleavings, faults and re-entry are drawn from one seed; '
        'a clean run is evidence over the explored runs, not proof. Oracle: %s. Trusted: rustc, std, the reference model in /verif/sim.')
NA = {
 'C13': 'accuracy of f32/f64 formulas is a pure function of the operands: no schedule, fault, clock, I/O or randomness can influence it, so simulation would be plain input sampling',
 'C15': 'scalar trait impls of primitives are pure single-expression functions with no seam for a scheduler or a fault',
 'C16': 'a relation between builds with different cargo features: nothing of it happens inside one simulated process',
}
m = {
 'version': 1,
 'setup_cmd': './build.sh',
 'checks': [{
   'property': p,
   'quick_cmd': f'./check.sh {p} quick',
   'thorough_cmd': f'./check.sh {p} thorough',
   'technique': 'deterministic simulation with fault injection',
   'level': 'exploration',
   'level_note': NOTE % CLAIMED[p],
 } for p in CLAIMED],
 'not_applicable': [{'property': p, 'reason': NA[p]} for p in NA if p not in CLAIMED],
 'notes': 'No hooks in /repo: every seam is an existing trait of the crate. Replay a reported file with ./replay.sh <file>.',
}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
