#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json
TECH = 'symbolic execution of the LLVM IR of the real code; SMT (Z3) decides every assertion'
NOTE = {}
L = [json.loads(l) for l in open('properties.jsonl')]
base = 'Decides the assertion for every value of the symbolic inputs on every path within the bounds that the evidence lists per job; nothing is claimed outside them. Trusted: clang 18 -O1 IR generation, the engine in engine/, Z3 and the specification models in spec/; sampled paths are re-executed natively under ASan/UBSan on each run, and every counterexample is replayed against the real code before it is reported.'
extra = dict(
 C09='The length counter found in the object is overwritten with a symbolic count, so that states which only exabytes of input reach are covered.',
 C11='One recorded known finding (xxhash_32) is excluded from the claim and reported.',
 C14='Constant evaluation is represented by compiling the library with is_constant_evaluated() true.',
 C15='Decided on the IR for s390x, powerpc and i386; counterexamples there are replayed by the engine on concrete inputs, not natively.',
 C16='The IR is instrumented by clang -fsanitize=undefined in trap mode; the engine adds object bounds, use of uninitialised data and memory function arguments.')
m = dict(version=1, setup_cmd='mkdir -p build && engine/build.sh ../build/symex',
 checks=[dict(property=d['id'], quick_cmd='python3 check.py %s quick' % d['id'], thorough_cmd='python3 check.py %s thorough' % d['id'], evidence_file='evidence/%s.json' % d['id'],
   technique=TECH, level='model_checking', level_note=(extra.get(d['id'], '') + ' ' + base).strip()) for d in L],
 not_applicable=[], notes='No hooks in /repo: the harnesses use public headers only.')
json.dump(m, open('MANIFEST.json', 'w'), indent=1); open('MANIFEST.json', 'a').write('\n')
