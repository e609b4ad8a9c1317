"""A small deductive verifier for Python functions."""
