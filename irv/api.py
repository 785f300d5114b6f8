import z3
from z3 import And, Or, Not, Implies, If, ForAll, Exists, Length, Extract, IndexOf, LastIndexOf, Contains, PrefixOf, SuffixOf, Concat, Unit, Select, Store
from . import ctype as C, sym, stdmodel
from .sym import I, signed, unsigned_of, fresh, NPOS, TRUE, FALSE, b2i, i2b
from .stdmodel import EMPTY, SEQ
from .contract import Contract
from .driver import Unit as IRUnit, Harness
def lit(s):
    """sequence value of a Python str/bytes"""
    if isinstance(s, str): s = s.encode()
    return stdmodel.seq_of_bytes(s)
def ch(c): return I(ord(c))
def ival(m, e):
    v = m.eval(e, model_completion=True)
    return v.as_long()
def seqval(m, e):
    n = ival(m, Length(e))
    return bytes(ival(m, e[i]) & 255 for i in range(min(n, 200)))
