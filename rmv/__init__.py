"""rmv: a deductive verifier for the Python and C sources of redmapper.

The verifier executes the real source text found in /repo (no copy, no
look-alike) on symbolic values, path by path; every `prove` in a contract and
every implicit safety condition becomes a verification condition discharged by
an SMT solver (z3, then cvc5).
"""
