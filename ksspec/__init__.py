"""Specification functions: what every kickstart command line means (see tools/mkspec.py and DESIGN.md)."""
