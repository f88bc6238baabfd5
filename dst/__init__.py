"""Deterministic simulation with fault injection for empymod."""
