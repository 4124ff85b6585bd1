"""C16: which dependencies are suggested to be added (the contracts of p_c15, read for additions)."""
from p_c15 import *
import p_c15

TITLE = "Suggested new dependencies are needed, visible and not there yet"
units = p_c15.units
witness = W.searcher("c15.cc", SRCS, extra=("-fno-access-control", "-DWHICH=16"))
