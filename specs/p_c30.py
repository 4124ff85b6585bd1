"""C30: the syntax tree spells out exactly the tokens of the text."""
from parselib import *
import parselib

TITLE = "The syntax tree is exactly what the text spells out"
ASSUME = PASSUME


def units(tier):
    return [Unit(c, SRC, lambda prog, c=c: check(prog, c, True), timeout=300) for c in RANK]


witness = W.searcher("c30.cc", ALL_SRC)
