#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = 'model-based property testing (rapid): generated chain histories, independent reference model of the state machine'
T = {
    'C01': 'property testing (rapid) over generated chain histories: conservation invariant after every slot',
    'C02': MODEL, 'C03': MODEL, 'C04': MODEL, 'C05': MODEL, 'C06': MODEL, 'C07': MODEL, 'C08': MODEL, 'C14': MODEL, 'C15': MODEL, 'C16': MODEL, 'C31': MODEL,
    'C09': 'differential property testing (rapid): several oracle instances fed the same generated chain, with operations that must not matter interleaved',
    'C10': 'property testing (rapid) over generated states and histories against an independent Merkle tree and proof verifier',
    'C11': 'property testing (rapid): invariants over generated histories of slots, queries, saves and reloads',
    'C12': 'differential property testing (rapid): restarted oracle against an uninterrupted one on generated histories and restart points',
    'C13': 'mutation fuzzing of saved state files (rapid) with a round-trip oracle, and generated foreign configurations',
    'C25': 'property testing (rapid) against closed-form cadence and verdict oracles, and generated histories',
    'C26': 'property testing (rapid) over generated states, claims and balances against an exact-solvency oracle',
    'C17': 'property testing (rapid) with fault injection: fake beacon and execution nodes that fail or lie at generated points, compared block by block with the generated chain',
    'C18': 'property testing (rapid) with fault injection: fake execution node that records, rejects, reverts or never mines the transaction',
    'C24': 'property testing (rapid): generated blocks with one part replaced by that of another block, fed to the assembly and to the state machine',
    'C20': 'property testing (rapid) of the real HTTP server with a simulated contract: served proofs verified by an independent Merkle verifier',
    'C21': 'property testing (rapid) of the real HTTP server: answers over generated histories against the state, with node faults',
    'C22': 'fuzzing (rapid) of request segments and raw request bytes against a grammar oracle and the requests seen by simulated nodes and relays',
    'C23': 'differential property testing (rapid): the served preview against really processing the generated blocks',
    'C27': 'property testing (rapid) of generated command lines (in child processes) and key files against a reference parser',
    'C28': 'property testing (rapid) of generated concurrent schedules under the race detector, answers checked against the sequence of states of a serial run',
    'C30': 'property testing (rapid) with simulated relays that answer, lie, fail or are unreachable, against a verdict oracle',
    'C32': 'property testing (rapid) with fault injection: saves onto disks full at generated bytes, watched while they happen, and killed processes',
    'C19': 'property testing (rapid) with fault injection: the real program run against simulated nodes and contract over generated finality, votes, faults and stops, its requests and transactions checked against a reference of what it may do',
    'C33': 'property testing (rapid): metrics of the real program sampled over generated runs with restarts, and request counters over generated API requests, against what was done',
    'C29': 'property testing (rapid): generated deployments (contract storage, deployment blocks, faults) served by fake nodes, against the generating description',
}
try:
    exec(open(os.path.join(V, 'tools/techniques.py')).read())
except FileNotFoundError:
    pass
NOTE = 'Generated search over the domain DESIGN.md states; no exhaustiveness is claimed.'
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    i = p['id']
    if i not in T:
        continue
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                   'technique': T[i], 'level': LEVEL.get(i, 'exploration') if 'LEVEL' in globals() else 'exploration', 'level_note': NOTES.get(i, NOTE) if 'NOTES' in globals() else NOTE})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': 'check under construction'} for p in props if p['id'] not in T],
     'notes': 'No hooks in /repo. Harness: Go module in harness/, built against /repo by check.py. Replay: python3 check.py <ID> --replay FILE.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
