"""Deterministic simulation of rxls with fault injection."""
