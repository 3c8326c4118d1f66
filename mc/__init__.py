"""Bounded explicit-state model checker for pyserde (see /verif/DESIGN.md)."""
