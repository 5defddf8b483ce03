"""pyvc: a small deductive verifier for numeric Python (see /verif/DESIGN.md)."""
