"""Deterministic simulation with fault injection for IMTreatment."""
