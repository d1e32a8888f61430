#!/usr/bin/env python3
"""Writes MANIFEST.json: python3 tools/manifest.py > MANIFEST.json"""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
TECH = {
 'C01': 'property-based testing: generated values in every driver form against the value itself',
 'C02': 'property-based testing: generated unrepresentable deliveries must be refused and leave the field alone',
 'C03': 'property-based testing: generated delivery histories against the last delivery, with buffers overwritten',
 'C04': 'property-based testing: generated histories against an array model with guard cells',
 'C05': 'property-based testing: round trip, with encoding/json as differential oracle',
 'C06': 'property-based testing: round trip, with a model of PostgreSQL array_in/array_out as oracle',
 'C07': 'grammar-mutation fuzzing against an independent parser of the list grammars',
 'C08': 'property-based testing: round trip and differential against the standard codecs',
 'C09': 'property-based testing: differential against encoding/json, sequential and concurrent',
 'C10': 'property-based testing: round trip through a model of the PostgreSQL lexer',
 'C11': 'structured fuzzing of model packages through the generator, with the Go compiler as oracle',
 'C12': 'property-based testing: metamorphic relations between repeated generations',
 'C13': 'property-based testing: generated packages are generated, compiled and run against an independent model of their columns',
 'C14': 'property-based testing: round trip of generated values through the generated accessors and scan targets, in every driver form',
 'C15': 'property-based testing: against an independent converter, and invariants of the conversion',
 'C16': 'property-based testing: generated statements are executed in a database emulator and compared with a keyed table',
 'C17': 'structured fuzzing of invalid packages and injected write failures, with the file tree as oracle',
 'C18': 'property-based testing: generated packages with hand-written methods are generated, compiled and run',
 'C19': 'property-based testing: generated source trees and patterns against an independent glob and declaration model',
 'C20': 'property-based testing and fuzzing of configurations against a model of the settings, and of their effect on the output',
 'C21': 'stateful (model-based) testing: generated operation histories on an emulated database against a keyed-table model',
 'C22': 'property-based testing: generated batches on an emulated database against a table model',
 'C23': 'stateful (model-based) testing: generated tables and upserts on an emulated database against a conflict model',
 'C24': 'property-based testing: generated condition trees against an evaluator with three-valued logic',
 'C25': 'stateful (model-based) testing: generated conditional updates and deletes against a table model',
 'C26': 'property-based testing: generated tables, orderings and cursors against the sorted list of matching rows',
 'C27': 'property-based fault injection: a fault at any driver call of a generated operation, against the run without it',
 'C28': 'property-based testing of interleavings: concurrent and nested operations against each of them alone',
 'C29': 'property-based testing: metamorphic relation between operations of the same shape with different values',
 'C30': 'property-based testing: statements generated from tokens of the dialect, read back by a literal parser',
 'C31': 'property-based testing: generated packages are generated, compiled and their getters called on generated values',
}
NOTE = {}
try:
    exec(open(root + '/tools/notes.py').read())
except FileNotFoundError:
    pass
checks, na = [], []
for p in props:
    i = p['id']
    if i in TECH:
        checks.append({'property': i, 'quick_cmd': './run.sh ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./run.sh ' + i,
                       'technique': TECH[i], 'level': 'exploration',
                       'level_note': NOTE.get(i, 'Generated-input search with an explicit oracle; evidence counts the cases. Nothing is claimed beyond the inputs generated.')})
    else:
        na.append({'property': i, 'reason': 'The check is not built yet.'})
json.dump({'version': 1, 'setup_cmd': './run.sh build', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the checks use public API and the generator as a program. run.sh ID --replay FILE replays a counterexample.'}, sys.stdout, indent=1)
print()
