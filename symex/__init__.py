"""Symbolic execution of the real yangson sources (see DESIGN.md)."""
