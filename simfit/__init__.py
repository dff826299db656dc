"""Deterministic simulation with fault injection for menpofit."""
