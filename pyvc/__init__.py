"""pyvc: a small contract-based deductive verifier for the real Python code in /repo.

See DESIGN.md.  The package runs under /opt/venv/bin/python (which has kasa and its
dependencies); z3 and cvc5 come from the veriftools virtualenv, appended to sys.path.
"""
