"""Deterministic simulation of ade."""
