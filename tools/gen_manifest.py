#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = 'TLA+ specification checked with TLC; '
CHECKS = [
 ('C01', 'model_checking', T + 'emitted scripts executed on Server.tla and compared with the new schema (Migration.tla); planner machine Migrate.tla model checked on small universes of schemas, every pair replayed on the real diff',
  'Every pair of nine small universes (25k pairs), and random pairs; every emitted script is executed statement by statement on the TLA+ server; assumes Server.tla and Canon.tla say what MySQL does.'),
 ('C02', 'model_checking', T + 'emitted scripts executed on Server.tla, no statement refused; planner machine Migrate.tla model checked on small universes of schemas, every pair replayed on the real diff',
  'As C01, for every prefix of every emitted script; foreign key checks between tables are off, as the property says.'),
 ('C03', 'model_checking', T + 'statements of emitted scripts compared with the warranted ones (Migration.tla); planner machine Migrate.tla model checked on small universes of schemas, every pair replayed on the real diff',
  'Decided on the statements the TLA+ grammar reads from the output.'),
 ('C04', 'exploration', T + 'diffs of equivalent schemas (equivalence decided by Canon.tla and Migration.tla) must be empty',
  'The pairs are equivalent by the specification, not by construction only: TLC rejects a case that is not.'),
 ('C05', 'model_checking', T + 'positions in emitted scripts against Server.tla; planner machine Migrate.tla model checked on small universes of schemas, every pair replayed on the real diff',
  'Column order on the TLA+ server after execution, and the position clause of every ADD COLUMN.'),
 ('C06', 'model_checking', T + 'grammar automaton explored, every move replayed on the real parser; models compared with Grammar.tla',
  'Every control state and move of the grammar automaton (finite) is replayed, and random schemas in random spellings; the parsed model is compared with the one Grammar.tla denotes.'),
 ('C07', 'exploration', T + 'printed text read by Lexer.tla and Grammar.tla and compared with the model',
  'The printed text is judged by the specification of MySQL\'s lexical and CREATE TABLE rules, not by the parser alone.'),
 ('C08', 'exploration', T + 'normalized columns and tables compared with Canon.tla',
  'All types, sizes, signs, NULL states and kinds of defaults (sampled in the quick tier), tables with coinciding names.'),
 ('C09', 'exploration', T + 'token streams of the real scanner compared with Lexer.tla',
  'The real scanner runs in-package through a test overlay; every token is compared.'),
 ('C10', 'model_checking', T + 'grammar automaton explored, every impossible token after every state replayed on the real parser',
  'Every control state with every token kind that can not follow it is replayed, with position, context, EOF flag and file name of the error; and damaged random texts.'),
 ('C11', 'model_checking', T + 'scanner/parser pipeline model checked (safety, liveness), observations replayed against it',
  'The design is model checked for every interleaving; the code is run on the grammar\'s cut points and on damaged and random bytes, with goroutine counts and under the race detector.'),
 ('C12', 'exploration', T + 'statements of emitted scripts compared across entry points and options',
  'Every entry point and option combination; the envelope is read by the TLA+ grammar.'),
 ('C13', 'fault_enumeration', T + 'traces of runs in faulty environments replayed against Emit.tla',
  'A fault at every byte of the destination and every read of the sources for the explored pairs; Emit.tla itself is model checked.'),
 ('C14', 'fault_enumeration', T + 'resolution compared with Source.tla in a world of real files and repositories, copies replayed against it',
  'Files and repositories are real and live in a scratch folder; a fault at every read and write of a copy.'),
 ('C15', 'fault_enumeration', T + 'conversations with a scripted MySQL server replayed against MySQLSource.tla',
  'The driver and the source talk to a server of ours over loopback that fails at every byte and packet of its replies.'),
 ('C16', 'exploration', T + 'linted text read by Lexer.tla and Grammar.tla and compared with the source\'s model',
  'As C07, with statement separation and indentation.'),
 ('C17', 'model_checking', T + 'order of the steps of a command model checked (CliModel.tla); runs of the real commands replayed against Cli.tla',
  'The built commands run in a scratch folder with every kind of arguments, sources and output file.'),
 ('C18', 'model_checking', T + 'histories of TableModel.tla enumerated by TLC and replayed on real tables; concurrent histories checked against it',
  'All histories up to a bound over two tables and shared columns, random longer ones, and concurrent ones under the race detector.'),
 ('C19', 'model_checking', T + 'histories of ObjectModel.tla enumerated by TLC and replayed on real objects; parts printed alone read by Lexer.tla and Grammar.tla',
  'All histories of setters, additions and clones up to a bound over a few objects of each kind (sampled in the quick tier), random longer ones, parts of random tables.'),
 ('C20', 'model_checking', T + 'operations over shared schemas model checked (Readers.tla); every sequence of operations up to a bound replayed on the real code, and concurrent sets under the race detector',
  'All sequences of three operations (four in the thorough tier), each over a random pair of schemas; longer random ones; concurrent ones are sampled by the scheduler.'),
]
import sys
have = set(sys.argv[1:]) or {c[0] for c in CHECKS}
m = {"version": 1,
     "setup_cmd": "bash tools/setup.sh",
     "checks": [{"property": p, "quick_cmd": "python3 tools/check.py %s" % p,
                 "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py %s" % p,
                 "technique": t, "level": l, "level_note": n} for p, l, t, n in CHECKS if p in have],
     "not_applicable": [{"property": c[0], "reason": "the check is under construction"} for c in CHECKS if c[0] not in have],
     "notes": "Specification in TLA+ (spec/), checked with TLC. The harness (harness/) is linked against /repo's working tree by every check; /repo has no hooks."}
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
