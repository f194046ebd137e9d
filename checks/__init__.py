import pyvc  # noqa: F401  (puts z3 on the path)
