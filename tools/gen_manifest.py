#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/vp')
from checks import CHECKS
NA = {
    'P20': 'Quantifies over schemas: the code generator (FreeMarker templates run by the Java compiler zserio) cannot be built or run offline here, and no contract verifier here takes templates of code; its run-time half is covered by P01-P13.',
    'P21': 'Walker and WalkerConst work on generated introspectable objects through virtual interfaces, std::regex and std::map; without generated code there is nothing to put under contract, and std::regex is beyond the verifier.',
    'P22': 'JsonWriter/JsonReader/JsonParser depend on std::istream/std::ostream (locale and stream-buffer code without source contracts) and on generated type information; the literal coding they rest on is P19.',
    'P23': 'FileUtil is a thin layer over std::ofstream/std::ifstream; a contract would only restate assumed contracts of the file system and iostreams, nothing of the code would be decided.',
    'P24': 'The SQLite helpers are wrappers around the sqlite3 C library, which is not built here (external library); everything of interest would be an assumption about it.',
}
TECH = 'contract-based deductive verification: pre/postconditions on the real functions (LLVM IR compiled from /repo on every run), obligations discharged for all inputs by bit-blasting/linear facts/SMT'
NOTE = ('Every obligation of the listed contracts (assertions, memory bounds, undefined operations, escaping exceptions) is generated from the current sources and must be discharged; '
        'buffers, positions and values are symbolic. Trusted: clang front end, the verifier in /verif/engine, SAT/SMT solvers, library model. ')
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 vp/run.py %s' % i, thorough_cmd='python3 vp/run.py %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=c.get('technique', TECH), level=c.get('level', 'proof'), level_note=NOTE + c.get('note', '')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'No contract built yet.')))
m = dict(version=1, setup_cmd='bash engine/build.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo. Genuine defects were repaired by fix: commits, see known_findings.json and DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
