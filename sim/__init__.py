"""Deterministic simulation with fault injection for aiootp."""
