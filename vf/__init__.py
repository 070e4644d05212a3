"""Solver-based checking of /repo's Python and Cython code (see DESIGN.md)."""
