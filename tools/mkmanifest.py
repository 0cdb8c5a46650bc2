#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run by hand when a claim changes)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = 'abstract interpretation of MIR with witness builders; enumeration of abstract histories'
A_NOTE = ('Sound over all histories, inputs and dependency graphs within its model: inductive over the bookkeeping invariant, both success, failure '
          'and panic of user code, debug and release. Trusts the models of std collections and smart pointers, the abstraction in '
          'analyzer/engine, and that containers, formatters and blueprints of the user behave.')
CL = {p: (A, A_NOTE) for p in 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C15 C16 C22 C24 C25 C28 C30'.split()}
S = 'abstract interpretation of MIR against function specifications'
S_NOTE = ('All outcomes of each function concerned, for every argument (inputs are symbols) and every behaviour of user code it calls; counters are decided '
          'inductively. Trusts the models of std and the abstraction in analyzer/engine, and that user traits keep their contracts.')
W = 'type-level witness programs (compile-pass / compile-fail with twins)'
W_NOTE = 'Decided by the type, privacy and borrow checker of rustc for all uses of the types named; the list of witness programs is finite.'
Q = 'queries over the type-checked program'
Q_NOTE = 'Decided for every exported function, field, impl, static and body of the crate, in every feature set; trusts the rules in lib/querycheck.py.'
CL.update({
    'C13': (S, S_NOTE), 'C17': (S, S_NOTE), 'C18': (S, S_NOTE), 'C19': (S, S_NOTE),
    'C14': (Q + '; ' + W, Q_NOTE + ' ' + W_NOTE), 'C20': (S + '; ' + Q, S_NOTE + ' ' + Q_NOTE), 'C21': (Q, Q_NOTE), 'C26': (Q, Q_NOTE), 'C27': (Q, 'Every public operation, release configuration, all reachable bodies; a lint over MIR: it knows where collections come from and which blocks are in loops, not how often loops run. ' + Q_NOTE), 'C29': (Q, Q_NOTE), 'C31': (S, S_NOTE), 'C23': (W, W_NOTE),
    'C15': (A + '; ' + S, A_NOTE + ' The containers themselves: ' + S_NOTE), 'C24': (A + '; ' + Q + '; ' + W, A_NOTE + ' ' + W_NOTE),
})
NA = {
}
m = {'version': 1, 'setup_cmd': 'cd analyzer && cargo build --offline --release',
     'checks': [{'property': p, 'quick_cmd': './check.py %s' % p, 'thorough_cmd': './check.py %s --tier thorough' % p, 'technique': t, 'level': 'other', 'level_note': n}
                for p, (t, n) in sorted(CL.items())],
     'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(NA.items()) if p not in CL]}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
