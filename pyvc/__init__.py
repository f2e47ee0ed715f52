"""pyvc: a small deductive verifier for the Python functions of /repo.

The functions are taken, as ASTs, from the files the imported modules were
loaded from, on every run.  See DESIGN.md for what the extraction keeps, what
it drops and what is trusted.
"""
