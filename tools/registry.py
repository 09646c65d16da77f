"""All checks, by property id."""
from engine import Check
import curves
import graphs
import paths
import planar
import table
import text
import vecopt

CHECKS = {}


def add(*checks):
    for c in checks:
        CHECKS[c.pid] = c


add(*vecopt.checks(Check))
add(*table.checks(Check))
add(*graphs.checks(Check))
add(*paths.checks(Check))
add(*planar.checks(Check))
add(*text.checks(Check))
add(*curves.checks(Check))
