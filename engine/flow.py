"""Path-sensitive typestate dataflow over one normalised function.

A rule is an object with
   start(fx)                -> iterable of initial automaton states (hashable)
   step(fx, st, ins)        -> None (keep st.a), or an iterable of new automaton states
   edge(fx, st, ins, key, truth)  optional: after a conditional branch was taken
   ret(fx, st, ins)         -> called at ret (report through fx.report)
The engine propagates (automaton state, value facts) to a fixpoint.  Value facts are
intervals with exclusions per canonical expression; they prune infeasible branches.
Merging (beyond MAXST states per block) only drops facts, so it keeps every
behaviour (it can add infeasible ones)."""
import sys
from collections import deque

INF = None
TOP = (None, None, frozenset())
E = frozenset()

def mk(lo, hi, ne=E):
    ch = True
    while ch and ne:
        ch = False
        if lo is not None and lo in ne: lo += 1; ch = True
        if hi is not None and hi in ne: hi -= 1; ch = True
    if ne: ne = frozenset(x for x in ne if (lo is None or x > lo) and (hi is None or x < hi))
    return (lo, hi, ne)
def empty(v): return v[0] is not None and v[1] is not None and v[0] > v[1]
def meet(a, b):
    lo = a[0] if b[0] is None else b[0] if a[0] is None else max(a[0], b[0])
    hi = a[1] if b[1] is None else b[1] if a[1] is None else min(a[1], b[1])
    return mk(lo, hi, a[2] | b[2])
def excluded(v, c):
    return c in v[2] or (v[0] is not None and c < v[0]) or (v[1] is not None and c > v[1])
def join(a, b):
    lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
    hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
    ne = frozenset(x for x in a[2] | b[2] if excluded(a, x) and excluded(b, x))
    # keep zero-exclusion when both exclude it
    if excluded(a, 0) and excluded(b, 0): ne = ne | {0}
    return mk(lo, hi, ne)
def const(c): return (c, c, E)
def isconst(v): return v[0] is not None and v[0] == v[1]
def nonzero(v): return excluded(v, 0)

def t2_if(fx, k, truth): return k if truth else fx.knot(k)

class Fork:
    """automaton state together with an assumption on the instruction's result (or on another key)"""
    __slots__ = ("a", "v", "k")
    def __init__(s, a, v, k=None): s.a = a; s.v = v; s.k = k

class St:
    __slots__ = ("a", "vals", "alias", "mem", "trace", "_h")
    def __init__(s, a, vals, alias, mem, trace):
        s.a = a; s.vals = vals; s.alias = alias; s.mem = mem; s.trace = trace
    def copy(s): return St(s.a, dict(s.vals), dict(s.alias), dict(s.mem), s.trace)
    def key(s): return (s.a, frozenset(s.vals.items()), frozenset(s.alias.items()), frozenset(s.mem.items()))

PURE_LIB = {"strlen", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "fprintf", "printf", "puts", "putchar", "fputs", "fputc", "fwrite", "perror", "fflush",
  "close", "open", "write", "fclose", "fopen", "strchr", "strrchr", "strstr", "memcmp", "atoi", "__errno_location", "malloc", "free", "calloc", "time", "clock",
  "usleep", "nanosleep", "isspace", "getpid", "lseek", "lseek64", "abs", "strdup", "sprintf", "snprintf", "strncpy", "strcpy", "strcat", "memset", "memcpy", "memmove",
  "llvm.fabs.f64", "llvm.abs.i32", "llvm.abs.i64", "flock", "unlink", "rename", "fsync", "syscall"}

# library functions without side effects whose result depends only on their arguments
# (for records: on their immutable header), so two calls with equal arguments agree
FPURE = {"wg_get_encoded_type", "wg_get_record_len", "wg_encode_record", "wg_encode_null", "wg_encode_char",
  "wg_decode_record", "wg_decode_null", "wg_decode_char", "wg_get_record_dataarray"}

class Flow:
    MAXST = 48
    MAXSTEPS = 400000
    def __init__(s, fn, rule, pure=(), forward=True, mem_alias=None, fpure=None):
        s.fn = fn; s.rule = rule; s.forward = forward
        s.fpure = FPURE if fpure is None else fpure   # result is a function of the arguments
        s.pure = set(pure) | PURE_LIB | s.fpure       # does not change memory the facts are about
        s.kt = []; s.ki = {}; s.kleaf = []
        s.reports = []; s._rep = set()
        s.init_vals = {}
        s.redef = getattr(rule, "redefine", None)   # told before SSA values get a new meaning
        s.steps = 0; s.merged = 0; s.paths_states = 0
        s.esc = s._escapes()
        s.U = s._uses()
        s.headers = {t for (_, t) in fn.backedges()}
        s.argids = set(range(fn.nargs))
    # ---- canonical keys
    def intern(s, t, leaves):
        k = s.ki.get(t)
        if k is None:
            k = len(s.kt); s.ki[t] = k; s.kt.append(t); s.kleaf.append(frozenset(leaves))
        return k
    def kconst(s, c): return s.intern(("c", c), ())
    def leaf(s, i): return s.intern(("ssa", i), (i,))
    def key(s, st, o):
        if isinstance(o, int):
            if o < s.fn.nargs: return s.leaf(o)
            a = st.alias.get(o)
            if a is not None: return a
            return s.leaf(o)
        if isinstance(o, list):
            if o[0] == "c": return s.kconst(o[1])
            if o[0] == "ce":
                if o[1] == "inttoptr" or o[1] == "ptrtoint": return s.key(st, o[3])
                return s.intern(("k", repr(o)), ())
            return s.intern(("k", repr(o)), ())
        return s.leaf(o)
    def ex(s, k): return s.kt[k]
    def cval(s, k):
        t = s.kt[k]
        return t[1] if t[0] == "c" else None
    def mkop(s, st, t):
        """interned, simplified operation"""
        op = t[0]
        if op == "icmp":
            _, pred, a, b = t
            neg = False
            if pred == "ne": pred = "eq"; neg = True
            elif pred in ("sge", "uge"): pred = pred[0] + "lt"; neg = True
            elif pred in ("sgt", "ugt"): pred = pred[0] + "lt"; a, b = b, a
            elif pred in ("sle", "ule"): pred = pred[0] + "lt"; a, b = b, a; neg = True
            if pred == "eq" and (s.kt[a][0] == "c" or (s.kt[b][0] != "c" and a > b)): a, b = b, a
            while pred == "eq" and s.kt[b][0] == "c":
                # comparisons of a widened truth value with 0 or 1
                t2 = s.kt[a]; c = s.kt[b][1]
                if t2[0] in ("zext", "sext") and c == 0:
                    if s.kt[t2[1]][0] in ("icmp", "not") or (t2[0] == "zext" and t2[2] == 1): return t2[1] if neg else s.knot(t2[1])
                    if s.kt[t2[1]][0] in ("zext", "sext"): a = t2[1]; continue
                if t2[0] == "zext" and t2[2] == 1 and c == 1: return s.knot(t2[1]) if neg else t2[1]
                if t2[0] in ("icmp", "not") and c in (0, 1): return t2_if(s, a, bool(c) != neg)
                break
            if a == b: r = s.kconst(0 if pred != "eq" else 1)
            else: r = s.intern(("icmp", pred, a, b), s.kleaf[a] | s.kleaf[b])
            return s.knot(r) if neg else r
        lv = frozenset()
        for x in t[1:]:
            if isinstance(x, int): lv |= s.kleaf[x]
            elif isinstance(x, tuple):
                for y in x:
                    for z in y if isinstance(y, tuple) else (): 
                        pass
        return s.intern(t, lv)
    def knot(s, k):
        t = s.kt[k]
        if t[0] == "not": return t[1]
        if t[0] == "c": return s.kconst(0 if t[1] else 1)
        return s.intern(("not", k), s.kleaf[k])
    # ---- abstract evaluation
    def val(s, st, o): return s.kval(st, s.key(st, o))
    def kval(s, st, k, d=0):
        t = s.kt[k]
        if t[0] == "c": return const(t[1])
        f = st.vals.get(k, TOP)
        if isconst(f) or d > 6: return f
        r = TOP; op = t[0]
        if op == "zext":
            a = s.kval(st, t[1], d+1)
            if a[0] is not None and a[0] >= 0: r = a
            elif isconst(a): r = const(a[0] & ((1 << t[2]) - 1))
            else: r = (0, a[1] if (a[1] is not None and a[0] is not None and a[0] >= 0) else (1 << t[2]) - 1, E)
            if nonzero(a): r = mk(r[0], r[1], r[2] | {0})
        elif op == "sext": r = s.kval(st, t[1], d+1)
        elif op == "trunc":
            a = s.kval(st, t[1], d+1); n = t[2]
            if a[0] is not None and a[1] is not None and -(1 << (n-1)) <= a[0] and a[1] < (1 << (n-1)): r = a
            elif isconst(a) and n > 1:
                v = a[0] & ((1 << n) - 1); r = const(v - (1 << n) if v >= 1 << (n-1) else v)
        elif op in ("icmp",):
            r = s.icmp(st, t, d)
        elif op == "not":
            a = s.kval(st, t[1], d+1)
            if isconst(a): r = const(0 if a[0] else 1)
            else: r = (0, 1, E)
        elif op == "and":
            a = s.kval(st, t[1], d+1); b = s.kval(st, t[2], d+1)
            if isconst(a) and isconst(b): r = const(a[0] & b[0])
            else:
                for x in (a, b):
                    if x[0] is not None and x[0] >= 0 and x[1] is not None: r = meet(r, (0, x[1], E))
        elif op == "or":
            a = s.kval(st, t[1], d+1); b = s.kval(st, t[2], d+1)
            if isconst(a) and isconst(b): r = const(a[0] | b[0])
            elif nonzero(a) or nonzero(b): r = (None, None, frozenset([0]))
        elif op == "xor":
            a = s.kval(st, t[1], d+1); b = s.kval(st, t[2], d+1)
            if isconst(a) and isconst(b): r = const(a[0] ^ b[0])
        elif op == "add":
            a = s.kval(st, t[1], d+1); b = s.kval(st, t[2], d+1)
            lo = None if a[0] is None or b[0] is None else a[0]+b[0]
            hi = None if a[1] is None or b[1] is None else a[1]+b[1]
            ne = E
            if isconst(b): ne = frozenset(x+b[0] for x in a[2])
            r = (lo, hi, ne)
        elif op == "sub":
            a = s.kval(st, t[1], d+1); b = s.kval(st, t[2], d+1)
            lo = None if a[0] is None or b[1] is None else a[0]-b[1]
            hi = None if a[1] is None or b[0] is None else a[1]-b[0]
            r = (lo, hi, E)
        elif op == "mul":
            a = s.kval(st, t[1], d+1); b = s.kval(st, t[2], d+1)
            if isconst(a) and isconst(b): r = const(a[0]*b[0])
            elif isconst(b) and b[0] > 0: r = (None if a[0] is None else a[0]*b[0], None if a[1] is None else a[1]*b[0], frozenset([0]) if nonzero(a) else E)
        elif op == "shl":
            a = s.kval(st, t[1], d+1); b = s.kval(st, t[2], d+1)
            if isconst(a) and isconst(b) and 0 <= b[0] < 63: r = const(a[0] << b[0])
        elif op == "select":
            c = s.kval(st, t[1], d+1)
            if isconst(c): r = s.kval(st, t[2] if c[0] else t[3], d+1)
            else: r = join(s.kval(st, t[2], d+1), s.kval(st, t[3], d+1))
        elif op == "srem":
            b = s.kval(st, t[2], d+1)
            if isconst(b) and b[0]: r = (-abs(b[0])+1, abs(b[0])-1, E)
        elif op == "urem":
            b = s.kval(st, t[2], d+1)
            if isconst(b) and b[0] > 0: r = (0, b[0]-1, E)
        elif op == "k":
            r = (None, None, frozenset([0]))   # address of a global, string, function
        elif op == "gep":
            # address arithmetic inside an object never yields the null pointer
            if t[2] or t[3] or s.kt[t[1]][0] in ("alloca", "k"): r = (None, None, frozenset([0]))
        elif op == "alloca": r = (None, None, frozenset([0]))
        return meet(f, r) if r is not TOP else f
    def icmp(s, st, t, d=0):
        _, pred, ka, kb = t
        a = s.kval(st, ka, d+1); b = s.kval(st, kb, d+1)
        if pred == "eq":
            if isconst(a) and isconst(b): return const(1 if a[0] == b[0] else 0)
            if isconst(b) and excluded(a, b[0]): return const(0)
            if isconst(a) and excluded(b, a[0]): return const(0)
            if a[0] is not None and b[1] is not None and a[0] > b[1]: return const(0)
            if b[0] is not None and a[1] is not None and b[0] > a[1]: return const(0)
        else:
            if pred == "ult":
                na = a[0] is not None and a[0] >= 0; nb = b[0] is not None and b[0] >= 0
                if not (na and nb): return (0, 1, E)
            if a[1] is not None and b[0] is not None and a[1] < b[0]: return const(1)
            if a[0] is not None and b[1] is not None and a[0] >= b[1]: return const(0)
        return (0, 1, E)
    def refine_val(s, st, k, v, d=0):
        """meet fact of k with v; False if infeasible"""
        t = s.kt[k]
        cur = s.kval(st, k)
        n = meet(cur, v)
        if empty(n): return False
        if t[0] == "c": return True
        if n != TOP: st.vals[k] = n
        if d > 6: return True
        op = t[0]
        if op in ("icmp", "not"):
            if isconst(n): return s.assume(st, k, bool(n[0]), d+1)
            if nonzero(n): return s.assume(st, k, True, d+1)
        elif op == "zext":
            if (n[0] is not None or n[1] is not None or n[2]):
                return s.refine_val(st, t[1], n if t[2] > 1 else (0 if n[0] is None else n[0], 1 if n[1] is None else n[1], n[2]), d+1)
        elif op == "sext": return s.refine_val(st, t[1], n, d+1)
        elif op == "trunc":
            if nonzero(n): return s.refine_val(st, t[1], (None, None, frozenset([0])), d+1)
        elif op == "add":
            b = s.kval(st, t[2])
            if isconst(b):
                c = b[0]
                return s.refine_val(st, t[1], (None if n[0] is None else n[0]-c, None if n[1] is None else n[1]-c, frozenset(x-c for x in n[2])), d+1)
        elif op == "and":
            if nonzero(n): return s.refine_val(st, t[1], (None, None, frozenset([0])), d+1) and s.refine_val(st, t[2], (None, None, frozenset([0])), d+1)
        elif op == "or":
            if isconst(n) and n[0] == 0: return s.refine_val(st, t[1], n, d+1) and s.refine_val(st, t[2], n, d+1)
        elif op == "mul":
            if nonzero(n): return s.refine_val(st, t[1], (None, None, frozenset([0])), d+1) and s.refine_val(st, t[2], (None, None, frozenset([0])), d+1)
        elif op == "select":
            va = s.kval(st, t[2]); vb = s.kval(st, t[3])
            fa = empty(meet(va, n)); fb = empty(meet(vb, n))
            if fa and fb: return False
            if fa: return s.assume(st, t[1], False, d+1) and s.refine_val(st, t[3], n, d+1)
            if fb: return s.assume(st, t[1], True, d+1) and s.refine_val(st, t[2], n, d+1)
        return True
    def assume(s, st, k, truth, d=0):
        t = s.kt[k]
        if t[0] == "c": return bool(t[1]) == truth
        if t[0] == "not": return s.assume(st, t[1], not truth, d+1)
        cur = s.kval(st, k)
        if isconst(cur) and bool(cur[0]) != truth: return False
        if t[0] == "icmp":
            st.vals[k] = const(1 if truth else 0)
            _, pred, ka, kb = t
            a = s.kval(st, ka); b = s.kval(st, kb)
            if pred == "eq":
                if truth:
                    return s.refine_val(st, ka, b, d+1) and s.refine_val(st, kb, a, d+1)
                if isconst(b) and not s.refine_val(st, ka, (None, None, frozenset([b[0]])), d+1): return False
                if isconst(a) and not s.refine_val(st, kb, (None, None, frozenset([a[0]])), d+1): return False
                return True
            if pred == "ult":
                if b[1] is not None and b[0] is not None and b[0] >= 0 and truth:
                    return s.refine_val(st, ka, (0, b[1]-1, E), d+1)
                if not (a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] >= 0): return True
            if truth:
                if b[1] is not None and not s.refine_val(st, ka, (None, b[1]-1, E), d+1): return False
                if a[0] is not None and not s.refine_val(st, kb, (a[0]+1, None, E), d+1): return False
            else:
                if b[0] is not None and not s.refine_val(st, ka, (b[0], None, E), d+1): return False
                if a[1] is not None and not s.refine_val(st, kb, (None, a[1], E), d+1): return False
            return True
        if t[0] == "and" and truth:
            return s.assume(st, t[1], True, d+1) and s.assume(st, t[2], True, d+1)
        if t[0] == "or" and not truth:
            return s.assume(st, t[1], False, d+1) and s.assume(st, t[2], False, d+1)
        if t[0] == "trunc" or t[0] == "zext" or t[0] == "sext":
            st.vals[k] = meet(cur, (1, 1, E) if truth and t[0] == "trunc" and t[2] == 1 else ((None, None, frozenset([0])) if truth else const(0)))
            if t[0] != "trunc": return s.assume(st, t[1], truth, d+1)
            if t[0] == "trunc" and t[2] == 1:
                x = s.kt[t[1]]
                if x[0] in ("zext", "icmp", "not"): return s.assume(st, t[1], truth, d+1)
                st.vals[t[1]] = meet(s.kval(st, t[1]), const(1) if truth else const(0)) if s._isbool(st, t[1]) else s.kval(st, t[1])
            return True
        if t[0] == "select":
            # boolean select (logical and / or)
            if s.cval(t[3]) == 0 and truth: return s.assume(st, t[1], True, d+1) and s.assume(st, t[2], True, d+1)
            if s.cval(t[2]) == 1 and not truth: return s.assume(st, t[1], False, d+1) and s.assume(st, t[3], False, d+1)
        st.vals[k] = const(1) if truth else const(0)
        return True
    def _isbool(s, st, k):
        v = s.kval(st, k)
        return v[0] is not None and v[0] >= 0 and v[1] is not None and v[1] <= 1
    # ---- structure helpers
    def _escapes(s):
        fn = s.fn; esc = set(); base = {}
        al = {i.id for i in fn.instrs() if i.op == "alloca"}
        der = {a: a for a in al}
        ch = True
        while ch:
            ch = False
            for i in fn.instrs():
                if i.op in ("getelementptr", "bitcast", "addrspacecast") and isinstance(i.args[0], int) and i.args[0] in der and i.id not in der:
                    der[i.id] = der[i.args[0]]; ch = True
                if i.op in ("phi", "select"):
                    for a in i.args:
                        if isinstance(a, int) and a in der:
                            esc.add(der[a])
        for i in fn.instrs():
            if i.op in ("load", "getelementptr", "icmp"): continue
            if i.op == "store":
                if isinstance(i.args[0], int) and i.args[0] in der: esc.add(der[i.args[0]])
                continue
            if i.op == "call" and i.callee() in PURE_LIB and i.callee() not in ("memset", "memcpy", "memmove", "sprintf", "snprintf", "strcpy", "strncpy", "strcat"): continue
            for a in i.args:
                if isinstance(a, int) and a in der: esc.add(der[a])
        s.allocas = al
        return esc
    def _uses(s):
        fn = s.fn; n = len(fn.blocks)
        own = []
        for blk in fn.blocks:
            u = set()
            for i in blk:
                if i.op == "phi":
                    continue
                for a in i.args:
                    if isinstance(a, int): u.add(a)
                f = i.d.get("f")
                if isinstance(f, int): u.add(f)
            own.append(u)
        for b, blk in enumerate(fn.blocks):
            for i in blk:
                if i.op == "phi":
                    for a, p in zip(i.args, i.d["p"]):
                        if isinstance(a, int): own[p].add(a)
        # transitive operands
        memo = {}
        def ops(x):
            r = memo.get(x)
            if r is not None: return r
            memo[x] = r = {x}
            i = fn.defs.get(x)
            if i is not None and i.op not in ("phi", "call", "alloca"):
                for a in i.args:
                    if isinstance(a, int): r |= ops(a)
            return r
        tot = []
        for u in own:
            t = set()
            for x in u: t |= ops(x)
            tot.append(t)
        reach = fn.reach()
        U = []
        for b in range(n):
            t = set()
            for x in reach[b]: t |= tot[x]
            U.append(frozenset(t))
        return U
    # ---- address reasoning
    def abase(s, k):
        while True:
            t = s.kt[k]
            if t[0] == "gep": k = t[1]
            else: return k
    def may_alias(s, k1, f1, k2, f2):
        if k1 == k2: return True
        b1 = s.abase(k1); b2 = s.abase(k2)
        t1 = s.kt[b1]; t2 = s.kt[b2]
        a1 = t1[0] == "alloca"; a2 = t2[0] == "alloca"
        if b1 != b2:
            if a1 and a2: return False
            if a1 and t1[1] not in s.esc: return False
            if a2 and t2[1] not in s.esc: return False
            if t1[0] == "k" and t2[0] == "k": return False
        else:
            o1 = s.aoff(k1); o2 = s.aoff(k2)
            if o1 is not None and o2 is not None and o1[0] == o2[0] and abs(o1[1]-o2[1]) >= 8: return False
        if f1 and f2 and f1 != f2: return False
        return True
    def aoff(s, k):
        """(symbolic part, constant) of the address relative to its base"""
        sym = []; c = 0
        while True:
            t = s.kt[k]
            if t[0] != "gep": return (tuple(sorted(sym)), c)
            c += t[2]; sym += list(t[3]); k = t[1]
    # ---- transfer
    def kill_leaf(s, st, i):
        """SSA leaf i is defined anew: forget everything about its previous value"""
        if s.redef is not None: s.redef(s, st, {i}, (), s.fn.defs.get(i))
        L = s.leaf(i)
        st.alias.pop(i, None)
        for d in (st.vals,):
            for k in [k for k in d if i in s.kleaf[k]]: del d[k]
        for p in [p for p, k in st.alias.items() if i in s.kleaf[k]]: 
            k = st.alias.pop(p)
        for a in [a for a, (v, f) in st.mem.items() if i in s.kleaf[a] or i in s.kleaf[v]]: del st.mem[a]
    def expr(s, st, i):
        """key of a pure instruction"""
        op = i.op; a = i.args
        if op in ("add", "mul", "and", "or", "xor"):
            x, y = s.key(st, a[0]), s.key(st, a[1])
            if s.kt[x][0] == "c" and s.kt[y][0] != "c": x, y = y, x
            elif s.kt[y][0] != "c" and x > y: x, y = y, x
            if op == "add" and s.cval(y) is not None:
                t = s.kt[x]
                if t[0] == "add" and s.cval(t[2]) is not None: x, y = t[1], s.kconst(s.cval(t[2]) + s.cval(y))
                if s.cval(y) == 0: return x
            if op == "xor" and i.ty == "i1" and s.cval(y) is not None: return s.knot(x) if s.cval(y) else x
            if op == "mul" and s.cval(y) == 1: return x
            k = s.intern((op, x, y), s.kleaf[x] | s.kleaf[y])
        elif op == "sub":
            x, y = s.key(st, a[0]), s.key(st, a[1])
            if s.cval(y) is not None:
                c = s.kconst(-s.cval(y)); t = s.kt[x]
                if t[0] == "add" and s.cval(t[2]) is not None: x, c = t[1], s.kconst(s.cval(t[2]) - s.cval(y))
                if s.cval(c) == 0: return x
                k = s.intern(("add", x, c), s.kleaf[x])
            else: k = s.intern(("sub", x, y), s.kleaf[x] | s.kleaf[y])
        elif op in ("shl", "lshr", "ashr", "srem", "urem", "sdiv", "udiv", "fadd", "fsub", "fmul", "fdiv"):
            x, y = s.key(st, a[0]), s.key(st, a[1]); k = s.intern((op, x, y), s.kleaf[x] | s.kleaf[y])
        elif op in ("zext", "sext", "trunc"):
            x = s.key(st, a[0])
            if op == "trunc": n = int(i.ty[1:])
            else: n = s.width(a[0])
            t = s.kt[x]
            if t[0] == "c":
                v = t[1]
                if op == "zext" and v < 0: v &= (1 << n) - 1
                if op == "trunc":
                    v &= (1 << n) - 1
                    if n > 1 and v >= 1 << (n-1): v -= 1 << n
                return s.kconst(v)
            if op == "trunc" and t[0] in ("zext", "sext") and s.kwidth(t) == n: return t[1]
            if op == "trunc" and n == 1 and t[0] in ("zext",) and t[2] == 1: return t[1]
            if op == "trunc" and n == 8 and t[0] == "zext" and t[2] == 1: return x
            k = s.intern((op, x, n), s.kleaf[x])
        elif op in ("bitcast", "ptrtoint", "inttoptr", "freeze", "addrspacecast"):
            return s.key(st, a[0])
        elif op == "icmp":
            return s.mkop(st, ("icmp", i.d["pred"], s.key(st, a[0]), s.key(st, a[1])))
        elif op == "select":
            c, x, y = s.key(st, a[0]), s.key(st, a[1]), s.key(st, a[2])
            cv = s.kval(st, c)
            if isconst(cv): return x if cv[0] else y
            k = s.intern(("select", c, x, y), s.kleaf[c] | s.kleaf[x] | s.kleaf[y])
        elif op == "getelementptr":
            b = s.key(st, a[0])
            if "off" not in i.d:
                ks = tuple(s.key(st, x) for x in a); lv = frozenset()
                for x in ks: lv |= s.kleaf[x]
                return s.intern(("gepx",) + ks, lv)
            off = i.d["off"]; sym = []; lv = s.kleaf[b]
            for o, sc in i.d["vo"]:
                x = s.key(st, o); v = s.kval(st, x)
                c = s.cval(x)
                if c is not None: off += c*sc
                else: sym.append((x, sc)); lv = lv | s.kleaf[x]
            t = s.kt[b]
            if t[0] == "gep": off += t[2]; sym += list(t[3]); b = t[1]
            if off == 0 and not sym: return b
            k = s.intern(("gep", b, off, tuple(sorted(sym))), lv)
        else:
            return None
        # constant folding through facts
        v = s.kval(st, k)
        if isconst(v) and op not in ("getelementptr",): return s.kconst(v[0])
        return k
    def width(s, o):
        if isinstance(o, int):
            i = s.fn.defs.get(o)
            ty = i.ty if i is not None else s.fn.args[o][1]
            return int(ty[1:]) if ty.startswith("i") and ty[1:].isdigit() else 64
        if isinstance(o, list) and o[0] == "c": return o[2]
        return 64
    def kwidth(s, t):
        # width of the operand of an extension
        return t[2] if t[0] in ("zext", "sext") else -1
    def exec(s, st, i):
        """update facts for instruction i (not for terminators/phis)"""
        op = i.op
        if op == "alloca":
            st.alias[i.id] = s.intern(("alloca", i.id), ()); return
        if op == "load":
            ak = s.key(st, i.args[0]) 
            m = st.mem.get(ak) if s.forward and not i.d.get("vol") else None
            s_k = m[0] if m else None
            if s_k is not None and i.id in s.kleaf[s_k]: s_k = None
            if s_k is None:
                s.kill_leaf(st, i.id)
                if i.id in s.kleaf[ak]: return
                if s.forward and not i.d.get("vol"): st.mem[ak] = (s.leaf(i.id), i.fld)
            else:
                st.alias[i.id] = s_k
            return
        if op == "store":
            ak = s.key(st, i.args[1]); vk = s.key(st, i.args[0])
            if isinstance(i.args[0], list) and i.args[0][0] == "u": vk = None
            for k in [k for k, (v, f) in st.mem.items() if s.may_alias(k, f, ak, i.fld)]: del st.mem[k]
            if vk is not None and s.forward: st.mem[ak] = (vk, i.fld)
            return
        if op in ("cmpxchg", "atomicrmw", "fence"):
            st.mem.clear(); s.kill_leaf(st, i.id); return
        if op == "call":
            c = i.callee()
            if c in s.fpure:
                ks = tuple(s.key(st, x) for x in i.args); lv = frozenset()
                for x in ks: lv |= s.kleaf[x]
                if i.id not in lv:
                    s.kill_leaf(st, i.id)
                    st.alias[i.id] = s.intern(("fcall", c) + ks, lv)
                    return
            s.kill_leaf(st, i.id)
            if c in s.pure or (c or "").startswith("llvm."):
                if c and (c.startswith("llvm.mem") or c in ("memset", "memcpy", "memmove", "snprintf", "sprintf", "strcpy", "strncpy", "strcat")):
                    b = s.abase(s.key(st, i.args[0]))
                    if s.kt[b][0] == "alloca":
                        for k in [k for k in st.mem if s.abase(k) == b]: del st.mem[k]
                    else:
                        for k in [k for k in st.mem if not (s.kt[s.abase(k)][0] == "alloca" and s.kt[s.abase(k)][1] not in s.esc)]: del st.mem[k]
                return
            for k in [k for k in st.mem if not (s.kt[s.abase(k)][0] == "alloca" and s.kt[s.abase(k)][1] not in s.esc)]: del st.mem[k]
            return
        if i.ty == "void": return
        if op in ("phi",): return
        k = s.expr(st, i)
        if k is None:
            s.kill_leaf(st, i.id); return
        if i.id in s.kleaf[k]:
            # depends on a previous value of itself (through a loop): opaque
            s.kill_leaf(st, i.id); return
        st.alias[i.id] = k
    # ---- running
    def report(s, st, ins, msg, **kw):
        k = (ins.id if ins is not None else None, msg)
        if k in s._rep: return
        s._rep.add(k)
        path = []
        t = st.trace if st is not None else None
        while t is not None and len(path) < 40:
            path.append(t[0]); t = t[1]
        path.reverse()
        d = dict(fn=s.fn.name, where=ins.where() if ins is not None else s.fn.file + ":" + str(s.fn.line), msg=msg, path=path, ins=ins)
        d.update(kw)
        s.reports.append(d)
    def enter(s, st, p, b):
        """state for entering block b from p; handles phis, pruning"""
        n = st
        blk = s.fn.blocks[b]
        new = []
        back = (p, b) in s.fn.backedges()
        for i in blk:
            if i.op != "phi": break
            k = None; v = TOP
            for a, pb in zip(i.args, i.d["p"]):
                if pb == p:
                    k = s.key(n, a); v = s.kval(n, k)
                    if back and isinstance(a, int):
                        di = s.fn.defs.get(a)
                        if s.cval(k) is not None:
                            if di is not None and di.op not in ("phi", "select", "load"): k = None; v = TOP
                        elif s.kt[k][0] not in ("ssa",) and s.kt[k][0] not in ("alloca", "k"):
                            k = None
                            v = v if not (v[0] is not None or v[1] is not None) else mk(None, None, frozenset([0]) if nonzero(v) else E)
                    break
            new.append((i.id, k, v))
        if new:
            keep = []
            for pid, k, v in new:
                keep.append((pid, k, v))
            ids = {x[0] for x in new}
            if s.redef is not None: s.redef(s, n, ids, keep, s.fn.blocks[p][-1] if p >= 0 else None)
            for pid, k, v in new:
                s.kill_leaf(n, pid)
            for pid, k, v in keep:
                if k is not None and not (s.kleaf[k] & ids):
                    n.alias[pid] = k
                    if s.kt[k][0] == "ssa" and v != TOP: n.vals[k] = meet(n.vals.get(k, TOP), v)
                else:
                    n.alias.pop(pid, None)
                    if v != TOP: n.vals[s.leaf(pid)] = v
        # prune
        U = s.U[b]
        phis = {x[0] for x in new}
        live = set(U) | phis | s.argids
        for q in [q for q in n.alias if q not in live]: del n.alias[q]
        L = set(live)
        for q, k in n.alias.items(): L |= s.kleaf[k]
        for a in [a for a, (v, f) in n.mem.items() if not (s.kleaf[a] <= L)]: del n.mem[a]
        for a, (v, f) in n.mem.items(): L |= s.kleaf[v]
        ek = s.rule.extra_live(n.a) if hasattr(s.rule, "extra_live") else ()
        for q in ek: L.add(q)
        for k in [k for k in n.vals if not (s.kleaf[k] <= L)]: del n.vals[k]
        return n
    def merge(s, sts, base=None):
        m = sts[0].copy()
        for x in sts[1:]:
            nv = {}
            for k, v in m.vals.items():
                w = s.kval(x, k)
                j = join(v, w)
                if j != TOP: nv[k] = j
            for q in set(m.alias) | set(x.alias):
                # the value has different names in the two states: it keeps what holds for both
                L = s.leaf(q); k1 = m.alias.get(q, L); k2 = x.alias.get(q, L)
                if k1 == k2: continue
                v = s.kval(m, k1); j = join(v, s.kval(x, k2))
                if base is not None: base[L] = v
                if j != TOP: nv[L] = j
                else: nv.pop(L, None)
            m.vals = nv
            m.alias = {k: v for k, v in m.alias.items() if x.alias.get(k) == v}
            m.mem = {k: v for k, v in m.mem.items() if x.mem.get(k) == v}
        return m
    def widen(s, old, new):
        b = {}
        m = s.merge([old, new], b)
        nv = {}
        for k, v in m.vals.items():
            o = b.get(k) or old.vals.get(k)
            if o is None: continue
            if v != o:
                v = mk(o[0] if v[0] == o[0] else 0 if v[0] is not None and v[0] >= 0 and o[0] is not None else None,
                       o[1] if v[1] == o[1] else None, frozenset(x for x in v[2] if excluded(o, x)))
                if v == TOP: continue
            nv[k] = v
        m.vals = nv
        return m
    def run(s):
        fn = s.fn
        st0s = [St(a, dict(s.init_vals), {}, {}, None) for a in s.rule.start(s)]
        order = {b: n for n, b in enumerate(fn.rpo())}
        seen = [set() for _ in fn.blocks]; cnt = [dict() for _ in fn.blocks]; summ = [dict() for _ in fn.blocks]
        import heapq
        heap = []; n = 0; inq = {}
        def push(b, st):
            nonlocal n
            k = st.key()
            if k in seen[b]: return
            sm = summ[b].get(st.a)
            c = cnt[b].get(st.a, 0)
            if sm is not None or c >= s.MAXST:
                s.merged += 1
                if sm is None: m = st.copy()
                else:
                    m = s.widen(sm, st)
                    if m.key() == sm.key(): return
                summ[b][st.a] = m
                m = m.copy(); m.trace = st.trace
                k = m.key()
                if k in seen[b]: return
                seen[b].add(k); st = m
            else:
                cnt[b][st.a] = c+1; seen[b].add(k)
            n += 1
            heapq.heappush(heap, (order[b], n, b, st))
        for st in st0s: push(0, s.enter(st, -1, 0))
        while heap:
            _, _, b, st = heapq.heappop(heap)
            s.paths_states += 1
            s.block(b, st, push)
        return s
    def block(s, b, st, push):
        fn = s.fn
        work = [st]
        blk = fn.blocks[b]
        for i in blk:
            if i.op == "phi": continue
            s.steps += len(work)
            if s.steps > s.MAXSTEPS * 10: raise RuntimeError("flow budget exceeded in " + fn.name)
            if i.op in ("br", "switch", "ret", "unreachable"): break
            nw = []
            for x in work:
                r = s.rule.step(s, x, i)
                if r is not None: r = list(r)
                s.exec(x, i)
                if r is None: nw.append(x)
                else:
                    for q, a in enumerate(r):
                        y = x if q == len(r)-1 else x.copy()
                        if isinstance(a, Fork):
                            y.a = a.a
                            if isinstance(a.v, list):
                                if not all(s.refine_val(y, k, v) for k, v in a.v): continue
                            elif not s.refine_val(y, s.key(y, i.id) if a.k is None else a.k, a.v): continue
                        else: y.a = a
                        nw.append(y)
                if hasattr(s.rule, "after"):
                    for y in nw[-1:]: s.rule.after(s, y, i)
            work = nw
            if not work: return
        t = blk[-1]
        for x in work:
            if t.op == "ret":
                s.rule.ret(s, x, t)
            elif t.op == "unreachable":
                if hasattr(s.rule, "noreturn"): s.rule.noreturn(s, x, t)
            elif t.op == "br" and not t.args:
                push(t.d["s"][0], s.enter(x.copy(), b, t.d["s"][0]))
            elif t.op == "br":
                k = s.key(x, t.args[0]); v = s.kval(x, k)
                for truth, tgt in ((True, t.d["s"][0]), (False, t.d["s"][1])):
                    if isconst(v) and bool(v[0]) != truth: continue
                    y = x.copy()
                    if not s.assume(y, k, truth): continue
                    y.trace = ((t.line(), truth), x.trace)
                    if hasattr(s.rule, "edge"):
                        r = s.rule.edge(s, y, t, k, truth)
                        if r is not None: y.a = r
                    push(tgt, s.enter(y, b, tgt))
            elif t.op == "switch":
                k = s.key(x, t.args[0]); v = s.kval(x, k)
                byt = {}
                for c, tgt in t.d["cases"]: byt.setdefault(tgt, []).append(c)
                for tgt, cs in byt.items():
                    ok = [c for c in cs if not excluded(v, c)]
                    if not ok: continue
                    y = x.copy()
                    for_c = const(ok[0]) if len(ok) == 1 else (min(ok), max(ok), E)
                    if not s.refine_val(y, k, for_c): continue
                    y.trace = ((t.line(), "case %s" % ok), x.trace)
                    if hasattr(s.rule, "edge"):
                        r = s.rule.edge(s, y, t, k, tuple(ok))
                        if r is not None: y.a = r
                    push(tgt, s.enter(y, b, tgt))
                y = x.copy()
                vv = meet(v, (None, None, frozenset(c for c, _ in t.d["cases"])))
                if empty(vv): continue
                if not s.refine_val(y, k, vv): continue
                y.trace = ((t.line(), "default"), x.trace)
                if hasattr(s.rule, "edge"):
                    r = s.rule.edge(s, y, t, k, "default")
                    if r is not None: y.a = r
                push(t.d["def"], s.enter(y, b, t.d["def"]))
