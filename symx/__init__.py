"""symx: path-exhaustive symbolic execution of the real gcodeutils Python code on top of z3."""
