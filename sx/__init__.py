"""Solver-based symbolic execution of the real golem_messages code."""
