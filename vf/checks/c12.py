"""Tables: mappings from keys to values, shared by reference."""
from ..engine import Part
from .. import coll
from . import common

ID = "C12"
RULE = ("histories of operations on tables (put, at, remove, keys, values, length, each, map, filter, slice, clone, mass insertion and removal, tuples turning into tables) through several "
        "names are compared with Python dicts; non-trivial: aliases, collections as keys or values, mass changes or garbage")
ASSUMPTIONS = ["keys are integers, strings, booleans, nil and collections; the order of a table's entries is unspecified"]


def gen(c):
    return coll.World(c, "table").run(c.n(4, 40))


PARTS = [Part("histories", gen, common.run_program, 7000, 200000, nontrivial=lambda k: k["nt"], show=common.show)]
