"""Packages which parameters refer to."""
OUTER = "outer value"
