"""pyvc: a verification-condition generator for (a subset of) Python.  See DESIGN.md."""
