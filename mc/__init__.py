"""Bounded exhaustive exploration of the real DFO-LS code (see /verif/DESIGN.md)."""
