"""symx: bounded symbolic execution of the real fairseq2 code with z3."""
