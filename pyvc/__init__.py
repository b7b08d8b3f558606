"""pyvc: a contract-based deductive verifier for the Python subset vblf is written in.

See /verif/DESIGN.md.  The verified text is /repo's own source: every run parses the
current files, applies a mechanical, semantics-preserving rewriting of calls,
subscripts, membership tests and loops (instrument.py), and executes the result under
CPython with symbolic values (values.py).  Obligations are decided by SMT (core.py).
"""
