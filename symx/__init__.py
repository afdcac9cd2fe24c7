"""symx: dynamic symbolic execution of the real PyCTBN code with z3 (see /verif/DESIGN.md)."""
