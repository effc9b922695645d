"""Minimal stand-in for the parts of lightning the repository's modules use (offline)."""
