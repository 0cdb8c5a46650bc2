"""Method B: witness programs of C14, C23 and C24 (lib/witness/*.txt)."""
import os
import base, witness

WHAT = {'C14': 'builders, cans and identities cannot be reached or forged', 'C23': 'Send and Sync of blueprints, bins and what the Arc containers accept',
        'C24': 'what a builder cannot do with its resolver'}


def check(c):
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'witness')
    witness.run(c, open(os.path.join(d, c.prop + '.txt')).read(), open(os.path.join(d, 'prelude.rs')).read(), WHAT[c.prop])
    c.assumptions.append('The type checker, privacy and borrow checks of rustc.')
