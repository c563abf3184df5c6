"""Registers every check."""
import checks, checks2, checks3, checks4, checks5, checks6, checks7  # noqa
import checks8  # noqa
