#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from vc/registry.py and the reasons below."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(here, '..', 'vc'))
import registry
NA = {
 'L12': 'vfprintf/vsnprintf take their arguments through va_list: the front end here has no model of argument access by a type chosen by the format, so no contract could relate the text to the arguments',
 'M01': 'the back end is Scheme code (module/mescc/x86_64/as.scm) that computes lists of bytes: no deductive verifier for Scheme is available here, and proving a transcription would be a model',
 'M02': 'as M01: Scheme code (module/mescc/i386/as.scm)',
 'M04': 'the routines are Scheme code (module/mescc/bytevectors.scm and M1.scm); no deductive verifier for Scheme is available here',
 'M03': 'whole-compiler semantics: neither a C semantics of arbitrary source programs nor MesCC\'s Scheme front end can be put under contracts with the verifiers here; no C function carries this',
 'M05': 'relates whole builds on several hosts (determinism of a pipeline of programs): not a contract of any function',
 'S20': 'space consumption over unbounded runs of the evaluator is a resource property of a whole history; function contracts over the heap say nothing about it',
 'S21': 'control flow captured as stack copies inside the 700-line goto machine eval_apply; a contract would need the full CEK semantics of the language as specification',
 'S22': 'implemented in 10k lines of expanded Scheme (psyntax); no deductive verifier for Scheme is available here',
 'S23': 'needs a formal semantics of the whole language as specification of a goto machine; the pieces with contracts (lookup, binding, primitives) are S02-S14',
}
props = [json.loads(l) for l in open(os.path.join(here, '..', 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']; r = registry.R.get(i)
    if not r: na.append(dict(property=i, reason=NA.get(i, 'no check built (yet)'))); continue
    checks.append(dict(property=i, quick_cmd='python3-vt check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3-vt check.py ' + i,
        technique=r.get('technique') or 'deductive verification: contracts on the extracted C functions, weakest preconditions (why3), SMT',
        level=r.get('level') or 'proof',
        level_note=r.get('level_note') or 'every obligation of the functions under contract discharged for all inputs, no bound; replay program only looks for a failing input when an obligation stays open'))
m = dict(version=1, setup_cmd='python3-vt -c "import pycparser" && why3 --version && z3-new --version && cvc5 --version | head -1 && mkdir -p evidence', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(here, '..', 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
