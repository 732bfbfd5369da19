"""Deterministic simulation of kamrecsys with fault injection."""
