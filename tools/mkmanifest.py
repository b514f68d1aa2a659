#!/usr/bin/env python3
"""writes MANIFEST.json from the check modules that exist (vh/checks/cNN.py) and properties.jsonl"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'runtime monitoring: random workloads on the real library, every observed result judged online by '
OR = {
 'C01': 'an independent nodal network model', 'C02': 'Kirchhoff-law monitors on every node and an independent nodal model',
 'C03': 'renormalisation laws and an independent network model', 'C04': 'definitions of the conversions (residual oracles) and round trips',
 'C05': 'power and wave definitions of general conversions', 'C06': 'an independent high-order integration of the telegrapher equations',
 'C07': 'physical definitions of the line parameters', 'C08': 'element reference models', 'C09': 'an even/odd-mode coupler model',
 'C10': 'a reference model of the table and its interpolation', 'C11': 'an independent touchstone parser and writer round trip',
 'C12': 'an independent touchstone generator', 'C13': 'a model of the present definition and freshly built objects (history monitor)',
 'C14': 'a two-sided history monitor over copies', 'C15': 'equivalence of call forms against the model of the definition',
 'C16': 'before/after comparison around every observer and across log levels', 'C17': 'node solutions and an independent line sampling',
 'C18': 'an independent model of positions', 'C19': 'embed/de-embed round trips against the model', 'C20': 'metamorphic renaming/reordering against the model',
 'C21': 'power balance, passivity, losslessness and reciprocity monitors', 'C22': 'metamorphic grouping of flat programs',
 'C23': 'fault injection of invalid calls, twin object comparison', 'C24': 'mutation of arguments and results, fingerprints before and after',
 'C25': 'a model of the search order on scratch directory trees', 'C26': 'a hand-assembled twin circuit', 'C27': 'parsing back texts and figures',
 'C28': 'running every program alone in a process of its own and interleaved under a seeded scheduler of threads',
 'C29': 'parsing texts back into ports, blocks, values, equations (which are solved) and evaluations, compared with the reference model',
 'C30': 'twin programs with the same values in other forms, compared with each other and with the reference model',
 'C31': 'comparing the state of the process around every call from outside, and an audit hook on what calls ask of the system',
 'C32': 'comparing the traces of all calls of a program in two surroundings (settings, threads, memory contents, interpreter processes)'}
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(H, 'vh', 'checks', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd=f'/opt/venv/bin/python check.py {i}',
                           thorough_cmd=f'VERIF_TIER=thorough /opt/venv/bin/python check.py {i}',
                           evidence_file=f'evidence/{i}.json', technique=TECH + OR[i], level='exploration',
                           level_note='held on every execution explored (random, seeded); see DESIGN.md for workload, oracle and bounds'))
    else:
        na.append(dict(property=i, reason='no check built yet'))
m = dict(version=1, setup_cmd='/opt/venv/bin/python check.py --setup', checks=checks, not_applicable=na,
         notes='All checks import /repo/src directly (pure Python, nothing to build); no hooks in /repo are needed. '
               'Violations are replayed with: /opt/venv/bin/python check.py <id> --replay <file>')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
