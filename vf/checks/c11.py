"""Tuples: growable sequences, shared by reference."""
from ..engine import Part
from .. import coll
from . import common

ID = "C11"
RULE = ("histories of operations on tuples (push, pop, shift, unshift, put, indexing in three notations, slices, clones, reversal, removal, map, filter, each, reduce, join, "
        "comparison) through several names, parameters and captured variables are compared with Python lists; non-trivial: aliases, nesting, growth beyond 40 elements or garbage")
ASSUMPTIONS = ["[ ] is documented as unchecked and only used with indices inside of the tuple"]


def gen(c):
    return coll.World(c, "tuple").run(c.n(4, 34))


PARTS = [Part("histories", gen, common.run_program, 7000, 200000, nontrivial=lambda k: k["nt"], show=common.show)]
