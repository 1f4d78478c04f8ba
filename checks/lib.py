"""Helpers shared by the checks."""
import ir
from flow import Flow, Fork, const, nonzero, isconst, excluded, mk, meet, empty, TOP
from ir import Broken

WG_ILLEGAL = 0xff
NZ = mk(None, None, frozenset([0]))

def derives(f, o, pred, through=()):
    """does the value o of function f derive (address arithmetic, phis, selects) from an instruction with pred?
    loads and calls end the search unless pred accepts them or they are in `through`"""
    seen = set(); st = [o]
    while st:
        x = st.pop()
        if not isinstance(x, int) or x in seen: continue
        seen.add(x); d = f.defs.get(x)
        if d is None: continue
        if pred(d): return True
        if d.op == "load": continue
        if d.op == "call" and d.callee() not in through: continue
        st += d.args
    return False

def is_seg(d): return d.op == "load" and d.fld == "db_handle.db"

def seg_derived(f, o): return derives(f, o, is_seg)

def addr_of(i):
    if i.op == "store": return i.args[1]
    if i.op in ("load", "cmpxchg", "atomicrmw"): return i.args[0]
    return None

def callers_closure(m, base, exempt=()):
    """names of functions that are in base or call (transitively) one that is"""
    out = set(base); ch = True
    while ch:
        ch = False
        for f in m.funcs.values():
            if f.name in out or f.name in exempt: continue
            if any(c.callee() in out for c in f.calls()): out.add(f.name); ch = True
    return out

def seg_writers(m, exempt_files=("Db/dblock.c", "Db/dblog.c")):
    """functions that store through an address derived from the segment pointer, and their callers"""
    base = {"wg_compare_and_swap"} & set(m.funcs)
    ex = {f.name for f in m.funcs.values() if f.file in exempt_files}
    for f in m.funcs.values():
        if f.name in ex: continue
        for i in f.instrs():
            if i.op in ("store", "cmpxchg", "atomicrmw") and seg_derived(f, addr_of(i)):
                base.add(f.name); break
    return callers_closure(m, base, ex)

FAILV = {           # range of results that mean failure
 "nz": NZ, "zero": const(0), "illegal": const(WG_ILLEGAL), "neg": (None, -1, frozenset()), "ltm1": (None, -2, frozenset()), "m1": const(-1)}
OKV = {"nz": const(0), "zero": NZ, "illegal": mk(None, None, frozenset([WG_ILLEGAL])), "neg": (0, None, frozenset()), "ltm1": (-1, None, frozenset()),
  "m1": mk(None, None, frozenset([-1]))}
def within(v, r):
    """all values of v lie in r"""
    if empty(v): return True
    if r[0] is not None and (v[0] is None or v[0] < r[0]): return False
    if r[1] is not None and (v[1] is None or v[1] > r[1]): return False
    return all(excluded(v, x) for x in r[2])
def disjoint(v, r): return empty(meet(v, r))
