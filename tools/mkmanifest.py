#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the table below.
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 'C21': 'fault_enumeration',
}
T = {
 'C01': 'property-based testing (rapid): grammar-generated sources, differential oracle against protoc descriptors',
 'C02': 'property-based testing (rapid): idempotence and metamorphic relation over re-layouts and reorderings',
 'C03': 'property-based testing (rapid): conservation of uniquely numbered comments in generated sources',
 'C04': 'property-based testing (rapid): reference model of derived options, idempotence, lint agreement',
 'C05': 'property-based testing (rapid): differential relation between the modes of format, file system snapshots',
 'C06': 'property-based testing (rapid): schema mutation with a reference model of the documented breaking changes',
 'C07': 'property-based testing (rapid): random compatible edit sequences, oracle of silence',
 'C08': 'property-based testing (rapid): package graph generation with a reference model of beta handling',
 'C09': 'stateful property-based testing (rapid): generated git histories, differential oracle between sources, residue check',
 'C10': 'property-based testing (rapid): planted offences with a reference model of each lint rule',
 'C11': 'property-based testing (rapid): generated lint configurations, set algebra over single-rule runs',
 'C12': 'property-based testing (rapid): round trip of generated ignores, differential with lint output',
 'C13': 'property-based testing (rapid): generated directory trees and configurations, reference file selection model',
 'C14': 'property-based testing (rapid): metamorphic equivalence of configuration encodings, mutation of valid configurations',
 'C15': 'property-based testing (rapid): reference model of package inference plus compile, format and lint round trip',
 'C16': 'property-based testing (rapid): generated argument lists with faults, file system snapshots',
 'C17': 'property-based testing (rapid): source mutation, differential oracle against protoc',
 'C18': 'property-based testing (rapid): relations between output formats over generated failures',
 'C19': 'property-based testing (rapid): differential oracle against protoc descriptor sets',
 'C20': 'property-based testing (rapid): recording plugin against a reference model of generate',
 'C21': 'property-based testing (rapid): generated cache corruptions, kill points and concurrent runs',
 'C22': 'property-based testing (rapid): generated cache settings, file system snapshots in a scratch home',
 'C23': 'property-based testing (rapid): generated services and messages against a recording loopback server',
 'C24': 'property-based testing (rapid): generated import graphs with a reference model',
 'C25': 'property-based testing (rapid): independent reference implementation of the derivations, metamorphic laws',
 'C26': 'property-based testing (rapid): generated flag and directory states, differential between init forms',
 'C27': 'property-based testing (rapid): differential between all and its separate steps',
 'C28': 'property-based testing (rapid): path spelling metamorphic relation, residue snapshots',
 'C29': 'property-based testing (rapid): generated interruption points, metamorphic against the run left alone',
 'C31': 'structure-aware fuzzing (rapid): damaged files, configurations, descriptor sets and command lines, invariants on how a command ends',
 'C30': 'property-based testing (rapid): generated schedules (delays, processors, timeouts), metamorphic, with the race detector',
}
src = ''.join(open(os.path.join(V, 'harness', f)).read() for f in os.listdir(os.path.join(V, 'harness')) if f.endswith('.go'))
built = set(re.findall(r'prop\("(C\d+)", "', src))
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p in built:
        checks.append({'property': p, 'quick_cmd': './check.sh %s quick' % p, 'thorough_cmd': './check.sh %s thorough' % p,
          'evidence_file': 'evidence/%s.json' % p, 'technique': T[p], 'level': NOTE.get(p, 'exploration'),
          'level_note': 'Random search with shrinking over generated inputs, bounded by the number of cases in the evidence file; a pass means no counterexample among them. Trusted: the oracle in harness/, the system protoc 3.21.12 where it is the reference, and the file system snapshots.'})
    else:
        na.append({'property': p, 'reason': 'No check built yet.'})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
  'notes': 'No hooks: every check drives the prototool binary built from /repo. See DESIGN.md.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not built')
