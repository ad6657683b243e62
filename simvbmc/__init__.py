"""Deterministic simulation of PyVBMC with fault injection."""
