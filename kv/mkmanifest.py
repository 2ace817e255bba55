"""writes MANIFEST.json from the tables below"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'path-sensitive abstract interpretation of the type-checked MIR against decision tables'
TRUST = ('Decides all paths of the compiled functions for all inputs; trusts rustc\'s MIR, the models of the std/chumsky/miette '
         'functions called, and lists anything it could not model as undecided in the evidence.')
CLAIM = {}
for c in ('C08', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20'):
    CLAIM[c] = (AI, TRUST)
DER = ('path-sensitive abstract interpretation of the type-checked MIR of derived decoders, with loop summaries, '
       'against the meaning of a family of definitions')
DTRUST = ('Decides every path of the decoders the derive generates for a fixed family of about 100 definitions that covers '
          'every field kind and combination rule, for all nodes; a derive change that only affects a shape of definition outside the family is not seen. '
          + TRUST)
for c in ('C21', 'C22', 'C23', 'C24', 'C25', 'C26', 'C27', 'C28', 'C30'):
    CLAIM[c] = (DER, DTRUST)
CLAIM['C29'] = ('compile-time witnesses: definitions and uses judged by the type checker against the built crate, and trait implementations read from the type-checked program',
                'Decides acceptance, rejection and the generated implementations for a fixed family of definitions and uses; shapes of definition outside the family are not seen.')
CLAIM['C33'] = ('compile-pass and compile-fail witnesses type-checked against the crate built from the current tree',
                'Each contract is decided by the compiler for all values of the types involved; contracts outside the listed ones are not seen.')
GR = ('grammar extracted from the type-checked MIR (closures interpreted symbolically) as a parsing-expression automaton, '
      'product construction against a KDL 1.0 reference automaton')
GTRUST = ('Decides all texts, with recursion of child blocks and block comments treated compositionally; raw strings with up to 3 (quick) or 8 '
          '(thorough) hash marks. Trusts the semantics given to the chumsky 0.9 combinators and the reference grammar in kv/kdl.py. ' + TRUST)
for c in ('C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C09'):
    CLAIM[c] = (GR, GTRUST)
CLAIM['C01'] = (AI + ': reachability of panics, failed assertions, bounds and overflow checks; grammar closures against the automaton of the texts they are run on',
                'Decides every function reachable from parsing and decoding; assumes that sums of usize positions do not overflow, that Message errors never '
                'tie with another error in chumsky, and that user-written decoders do not panic. ' + TRUST)
CLAIM['C31'] = ('comparison of the type-checked programs of all 16 feature combinations: public names, signatures, implementations, types, and the MIR of every body; '
                'bodies that differ are compared path by path; clients and derived definitions type-checked against every combination',
                'Decides all combinations; what dependencies do under their own features is not compared. Code that differs between builds and cannot be compared path by path counts as a violation.')
CLAIM['C32'] = (AI + ': every path of each encoder, taken apart into written items, is read back through its decoder',
                'Decides every type of the tree by induction over its parts; trusts the binary format library to read back its own items and that no span type encodes as nil. ' + TRUST)
CLAIM['C34'] = ('effect analysis: every function of other crates, static, thread local, address and unsafe block each body of the library, of derived decoders and of the derive macro uses, '
                'judged against rules; the file name followed along every path of the entry points',
                'Decides every body of the crate; functions of other crates are pure unless a rule says otherwise, and an unsafe block counts as undecided.')
NA = {
    'C40': 'running time and termination of a backtracking parser are quantities no sound static argument in reach bounds',
    'C41': 'stack use of the recursive parser depends on input depth; no static bound exists (the recursion is inherent in the design)',
    'C42': 'correct rounding is a property of the standard library parser; only the delegation to it is decided (C13)',
}
import sys
sys.path.insert(0, os.path.join(V, 'kv'))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    if p in CLAIM:
        t, n = CLAIM[p]
        checks.append({'property': p, 'quick_cmd': 'bin/check ' + p, 'thorough_cmd': 'env VERIF_TIER=thorough bin/check ' + p,
                       'technique': t, 'level': 'other', 'level_note': n})
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': NA.get(p, 'check not built yet')} for p in props if p not in CLAIM],
     'notes': 'All checks analyse the source of /repo statically (MIR dumped by a rustc driver); nothing of knuffel is executed.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
