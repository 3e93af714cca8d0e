#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
sys.dont_write_bytecode = True
import importlib
reg = {}
for m in ('fmt', 'split', 'opts', 'ptree', 'conc', 'mailbox', 'many'):
    if os.path.exists(os.path.join(V, 'lib', m + '.py')):
        reg.update(importlib.import_module(m).CHECKS)
TECH = {
    'F': 'TLA+ specification of Format (TLC), exhaustive model check of the scanner and the field renderers, TLC-generated and random histories replayed into the real class and validated as traces',
    'U': 'TLA+ specification of the string helpers (TLC), loops model-checked against it, TLC-enumerated and random calls of the real functions validated as traces',
    'O': 'TLA+ token machine of Options (TLC), code-level machine model-checked against it, TLC-enumerated and random command lines replayed into the real class and validated as traces',
    'P': 'TLA+ specification of the property tree (TLC), heap model of fillRecurse checked against it, TLC-enumerated and random YAML documents read by the real class and validated as traces',
    'B': 'TLA+ specification of Barrier (TLC), lock-level model checked against it, executions of the real class under controlled schedules and virtual time validated as traces',
    'M': 'TLA+ specification of MailBox (TLC), lock-level model checked against it, sequential histories and controlled concurrent schedules of the real class validated as traces',
    'C': 'TLA+ model of threads with private working state (TLC), and the TLA+ specifications of the sequential components: executions of the real code by several threads under controlled schedules, split into one trace per thread and validated as traces of the component alone',
}
NOTE = {
    'F': 'The specification is checked exhaustively within small bounds; conformance of the code holds for the executions explored (all short format strings and histories, plus seeded random values). Trusts TLC, the driver, and for floating point the exact decimal expansion computed by Python. Text of long double rounding: values within floating point error of a tie may go either way in e notation.',
    'U': 'Exhaustive for all strings up to the bound over a small alphabet; sampled beyond it. Trusts TLC and the driver.',
    'O': 'Exhaustive for all lines up to the bound over a small alphabet and four option sets; sampled beyond it. Tokens whose conversion by iostream is a matter of taste (3abc for an int, -1 for an unsigned) are not generated. Trusts TLC and the driver.',
    'P': 'Exhaustive for all small documents and pairs of documents; sampled beyond it. Trusts TLC, the driver and yaml-cpp; paths with different kinds of node in several files, null values and keys containing colons or runs of blanks are outside the statement.',
    'B': 'The model is exhaustive for few threads; the code is explored over controlled schedules (random, priority based and preemption bounded) of real threads with virtual time, not over all schedules. Sequentially consistent memory.',
    'M': 'The model is exhaustive for few threads; the code is explored over controlled schedules (random, priority based and preemption bounded) of real threads, not over all schedules. Sequentially consistent memory.',
    'C': 'The model is exhaustive for few threads and short calls; the code is explored over controlled schedules (switches at function entries, basic blocks and memory accesses of the library), not over all schedules and not inside yaml-cpp or the C++ library. Sequentially consistent memory.',
}
checks = []
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
na = []
for p in props:
    if p not in reg:
        na.append({'property': p, 'reason': 'the check is not built yet'})
        continue
    checks.append({'property': p, 'quick_cmd': 'bin/check ' + p, 'thorough_cmd': 'VERIF_TIER=thorough bin/check ' + p,
                   'technique': TECH[p[0]], 'level': 'model_checking', 'level_note': NOTE[p[0]]})
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the checks compile the unmodified sources of the working tree. All scratch files live in '
              'temporary directories that each check removes.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
