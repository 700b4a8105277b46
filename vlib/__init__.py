"""Shared machinery for the eprempy runtime monitors."""
