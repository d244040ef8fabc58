"""Texts for MANIFEST.json."""
NOTES = {'*': 'Every obligation generated from the current source is discharged for all inputs and all iterations; trusts clang, the executor in /verif/engine, '
              'its models of libstdc++/libc functions (listed in the evidence), z3 and cvc5. Undischarged obligations are decided by a native search and a bounded stand-in, labelled as such.'}
NOT_APPLICABLE = {}
