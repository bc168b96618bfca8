"""pyvc: a small deductive verifier for Python.

It reads the *current* source text of the functions under contract, generates
verification conditions by symbolic execution of the AST (loops with a symbolic
trip count are summarised, never unrolled to a bound) and discharges them with z3.
"""
