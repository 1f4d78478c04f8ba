"""C24: comparison conditions: scan filter, index bounds, bound slots, rejection of undefined conditions"""
import ir
from flow import Flow, Fork, const, isconst, mk, meet, empty, TOP, nonzero
from common import pmap
from lib import NZ, addr_of
from data import D, A

CONDS = (1, 2, 4, 8, 16, 32)
NAMES = {1: "EQUAL", 2: "NOT_EQUAL", 4: "LESSTHAN", 8: "GREATER", 16: "LTEQUAL", 32: "GTEQUAL", "bad": "undefined condition"}
ON = {-1: "less", 0: "equal", 1: "greater"}
SAT = {1: {0}, 2: {-1, 1}, 4: {-1}, 8: {1}, 16: {-1, 0}, 32: {0, 1}, "bad": set()}
BAD = (None, None, frozenset(CONDS)); N255 = mk(None, None, frozenset([255]))
ROWLOADS = ("wg_query.curr_record", "wg_tnode.array_of_values[]", "wg_tnode.array_of_values")
PURE = ("wg_compare", "wg_get_field", "wg_get_record_len", "wg_search_ttree_leftmost", "wg_search_ttree_rightmost", "wg_search_tnode_first", "wg_search_tnode_last",
  "wg_ttree_find_lub_node", "wg_ttree_find_glb_node")

class QBase:
    m = None
    def __init__(s, f): s.f = f; s.cnt = {}; s.rid = "C24"
    def c(s, what, i): s.cnt.setdefault(what, set()).add(i.where())
    def rep(s, fx, st, i, rule, msg): fx.report(st, i, msg, rule=rule)
    def elt(s, fx, st, i, off):
        """key parts of the argument-list element an access belongs to"""
        k = fx.key(st, addr_of(i)); t = fx.kt[k]
        if t[0] == "gep": return (t[1], t[2] - off, t[3])
        return (k, -off, ())
    def strip(s, fx, k):
        while fx.kt[k][0] in ("sext", "zext", "trunc", "freeze"): k = fx.kt[k][1]
        return k
    def lf(s, fx, k):
        t = fx.kt[s.strip(fx, k)]
        return t[1] if t[0] == "ssa" else None
    def fldof(s, fx, k):
        l = s.lf(fx, k); d = s.f.defs.get(l) if l is not None else None
        return d.fld if d is not None and d.op == "load" else d.callee() if d is not None and d.op == "call" else ""

def stale(fx, d, ids):
    """the element of the argument list that was looked at is no longer the current one"""
    e = d.get("e")
    if e and len(e) == 3 and any(fx.kleaf[k] & ids for k, _ in e[2]): d["e"] = ("past",); return True
    if e and len(e) == 3 and fx.kleaf[e[0]] & ids: d["e"] = ("past",); return True
    return False

class FilterRule(QBase):
    """a row is taken exactly if every condition evaluated on it accepts the outcome of its comparison"""
    def __init__(s, f, one, cond=None, only=None, filt=(), boolean=False):
        QBase.__init__(s, f); s.one = one; s.cond = cond; s.only = only; s.filt = filt; s.boolean = boolean
    def start(s, fx):
        if s.boolean and s.one: fx.init_vals[fx.leaf(3)] = const(1); fx.init_vals[fx.leaf(2)] = NZ
        if s.cond is not None:
            fx.init_vals[fx.leaf(2)] = BAD if s.cond == "bad" else const(s.cond)
        return [A()]
    def redefine(s, fx, st, ids, keep, ins):
        d = D(st.a)
        if stale(fx, d, ids): st.a = A(**d)
    def isval(s, fx, st, k):
        if s.fldof(fx, k) == "wg_query_arg.value": return True
        return s.cond is not None and fx.kt[k] == ("ssa", 3)
    def isfld(s, fx, k): return s.fldof(fx, k) == "wg_get_field"
    def outcome(s, fx, st, i, d, o):
        """the comparison of the row's field with the value of the condition has this outcome"""
        if d.get("o") is not None and d["o"] != o: return None
        d = dict(d, o=o); c = d.get("c")
        if c is None: s.rep(fx, st, i, "filter", "a value is compared before its condition is known"); return d
        if o not in SAT[c]: d["want"] = 1
        return d
    def newrow(s, fx, st, i, d):
        if d.get("ev") and not d.get("want"):
            s.rep(fx, st, i, "filter", "a row that satisfies the condition is passed over%s" % s.desc(d))
        return {}
    def desc(s, d): return " (%s, field %s)" % (NAMES.get(d.get("c"), "?"), ON.get(d.get("o"), "not compared"))
    def step(s, fx, st, i):
        d = D(st.a)
        if i.op == "load" and i.fld == "wg_query_arg.cond":
            s.c("condition read", i); e = s.elt(fx, st, i, 8)
            if d.get("e") == e and d.get("ev"): return None
            if d.get("n", 0) == (1 if s.one else 2): return []
            d.pop("o", None); d["e"] = e; d["ev"] = 1; d["n"] = d.get("n", 0) + 1
            if s.cond == "bad": d["want"] = 1
            if s.cond is not None: return [A(**dict(d, c=s.cond))]
            if s.only == "bad": d["want"] = 1
            return [Fork(A(**dict(d, c=s.only)), BAD if s.only == "bad" else const(s.only))]
        if i.op == "load" and i.fld == "wg_query.qtype": return [Fork(st.a, const(4)), Fork(st.a, const(1))]
        if i.op == "load" and s.one and i.fld == "wg_query.argc": return [Fork(st.a, const(1))]
        if i.op == "load" and s.one and i.fld == "wg_query.arglist": return [Fork(st.a, NZ)]
        if i.op == "load" and i.fld in ROWLOADS: return [A(**s.newrow(fx, st, i, d))]
        if i.op == "call" and i.callee() in ("wg_get_next_record", "wg_get_first_record") and d.get("ev"): return [A(**s.newrow(fx, st, i, d))]
        if i.op == "load" and i.fld == "wg_query_arg.value" and d.get("e") and s.elt(fx, st, i, 16) != d["e"]:
            s.rep(fx, st, i, "filter", "the value of another condition is used")
        if i.op == "call" and i.callee() == "wg_get_field":
            s.c("field read", i); k = s.strip(fx, fx.key(st, i.args[2]))
            if s.fldof(fx, k) != "wg_query_arg.column" and not (s.cond is not None and fx.kt[k][0] == "ssa" and k in (fx.leaf(1), fx.key(st, 1))) and s.fldof(fx, k) != "": s.rep(fx, st, i, "filter", "the field compared is not that of the condition's column")
        if i.op == "call" and i.callee() == "wg_multi_column_to_index_id": return [Fork(st.a, const(-1))]
        if i.op == "call" and i.callee() in s.filt:
            s.c("filter result", i); d["ev"] = 1; d["o"] = d["c"] = 0
            y = dict(d); y.pop("want", None)
            return [Fork(A(**y), NZ), Fork(A(**dict(d, want=1)), const(0))]
        if i.op == "store" and s.filt and i.fld.startswith("wg_query_arg.") and s.cond is not None:
            n = {"column": 1, "cond": 2, "value": 3}[i.fld.split(".")[1]]; s.c("condition set up", i); k = fx.key(st, i.args[0])
            if k != fx.leaf(n) and not (n == 1 and s.fldof(fx, k) == ""): s.rep(fx, st, i, "filter", "the %s of the condition is not the one given" % i.fld.split(".")[1])
        if i.op == "call" and i.callee() == "wg_compare":
            s.c("comparison", i); a, b = fx.key(st, i.args[1]), fx.key(st, i.args[2])
            if s.isfld(fx, a) and s.isval(fx, st, b): sg = 1
            elif s.isfld(fx, b) and s.isval(fx, st, a): sg = -1
            else: return None
            out = []
            for o in (-1, 0, 1):
                n = s.outcome(fx, st, i, d, o)
                if n is not None: out.append(Fork(A(**n), const(sg * o)))
            return out
        return None
    def edge(s, fx, st, t, k, truth):
        d = D(st.a); tr = truth
        while fx.kt[k][0] == "not": k = fx.kt[k][1]; tr = not tr
        q = fx.kt[k]
        if q[0] == "icmp" and q[1] == "eq" and tr is True:
            a, b = q[2], q[3]
            if (s.isfld(fx, a) and s.isval(fx, st, b)) or (s.isfld(fx, b) and s.isval(fx, st, a)):
                n = s.outcome(fx, st, t, d, 0)
                if n is not None: return A(**n)
        if q[0] == "icmp" and q[1] == "slt":
            x, y = s.strip(fx, q[2]), s.strip(fx, q[3])
            def ln(z): return fx.kt[z][0] == "fcall" and fx.kt[z][1] == "wg_get_record_len"
            def col(z): return s.fldof(fx, z) == "wg_query_arg.column" or (s.cond is not None and not ln(z))
            if (ln(y) and col(x) and tr is False) or (ln(x) and col(y) and tr is True): return A(**dict(d, want=1, ev=1))
        return None
    def ret(s, fx, st, i):
        d = D(st.a); v = fx.val(st, i.args[0]); s.c("return", i)
        if s.boolean and not isconst(v) and not nonzero(v): return
        if v == const(0):
            if d.get("ev") and not d.get("want"): s.rep(fx, st, i, "filter", "a row that satisfies the condition is passed over%s" % s.desc(d))
            return
        if d.get("want"): s.rep(fx, st, i, "filter", "a row that does not satisfy the condition is returned%s" % s.desc(d))
        elif d.get("ev") and d.get("o") is None: s.rep(fx, st, i, "filter", "a row is returned although its field was not compared%s" % s.desc(d))
        elif s.one and not d.get("ev"): s.rep(fx, st, i, "filter", "a row is returned although no condition was looked at")

SIDE = {1: ((1,), (1,)), 4: ((), (0,)), 8: ((0,), ()), 16: ((), (1,)), 32: ((1,), ()), 2: ((), ()), "bad": ((), ())}
def tightest(cs, rel):
    """bounds that the conditions on values 0, 1 (rel = outcome of comparing value 0 with value 1) define: per side None or (label, inclusive)"""
    out = []
    for side in (0, 1):
        best = None
        for n, c in enumerate(cs):
            for inc in SIDE[c][side]:
                if best is None: best = (n, inc); continue
                if rel == 0: best = (best[0], min(inc, best[1])); continue
                newer = (rel == -1) == (side == 0)      # value 1 is the tighter one
                if newer: best = (n, inc)
        out.append(best)
    return out
def empty_range(cs, rel):
    b = tightest(cs, rel)
    return b[0] is not None and b[1] is not None and b[0][0] != b[1][0] and (rel == 1) == (b[0][0] == 0) and rel != 0

def plus(x, v):
    if x[0] == "c": return ("c", x[1] + v)
    if x[0] == "+": x, v = x[1], x[2] + v
    return ("+", x, v) if v else x

class BoundsRule(QBase):
    def __init__(s, f, mode, cond=None):
        QBase.__init__(s, f); s.mode = mode; s.cond = cond; s.two = mode == "pair"; s.conds = (cond,) if mode == "single" else () if mode == "other" else cond
    def start(s, fx):
        if s.mode == "find":
            fx.init_vals[fx.leaf(2)] = const(s.cond); fx.init_vals[fx.leaf(3)] = N255
            return [A(cs=(s.cond,), nm=((3, 0),))]
        return [A(cs=())]
    def extra_live(s, a): return D(a).get("live", ())
    # names of the values of the conditions
    def label(s, fx, d, k):
        l = s.lf(fx, k)
        return dict(d.get("nm", ())).get(l) if l is not None else None
    def redefine(s, fx, st, ids, keep, ins):
        if ins is not None and ins.op == "phi" and not keep: return       # done on the edge
        d = D(st.a); nm = dict(d.get("nm", ())); T = dict(d.get("T", ()))
        if stale(fx, d, ids): st.a = A(**d)
        if not nm and not T: return
        new = {}; newT = {}
        for p, k in st.alias.items():
            t = fx.kt[k]
            if t[0] == "ssa" and t[1] in ids and p not in ids:
                if t[1] in nm: new[p] = nm[t[1]]; st.vals[fx.leaf(p)] = N255
                if t[1] in T: newT[p] = T[t[1]]
        for pid, k, v in keep:
            if k is None:
                # a computed value that goes round a loop
                phi = s.f.defs[pid]; a = [a for a, pb in zip(phi.args, phi.d["p"]) if ins is not None and pb == ins.bb]
                if not a: continue
                k = fx.key(st, a[0])
            t = fx.kt[k]
            if t[0] == "ssa" and t[1] in ids:
                if t[1] in nm: new[pid] = nm[t[1]]
                if t[1] in T: newT[pid] = T[t[1]]
            else:
                x = s.term(fx, {"T": tuple(T.items())}, k)
                if x is not None: newT[pid] = x
        for x in ids: nm.pop(x, None); T.pop(x, None)
        nm.update(new); T.update(newT)
        d["nm"] = tuple(sorted(nm.items())); d["T"] = tuple(sorted(T.items()))
        st.a = A(**{k: v for k, v in d.items() if v or k == "cs"})
    # terms
    def term(s, fx, d, k):
        k = s.strip(fx, k); t = fx.kt[k]
        if t[0] == "c": return ("c", t[1])
        if t[0] == "ssa": return dict(d.get("T", ())).get(t[1])
        for n, sg in (("add", 1), ("sub", -1)):
            if t[0] != n: continue
            for a, b in ((t[1], t[2]), (t[2], t[1])):
                v = fx.cval(b)
                if v is None:
                    x = s.term(fx, d, b); v = x[1] if x is not None and x[0] == "c" else None
                if v is None or (n == "sub" and b != t[2]): continue
                x = s.term(fx, d, a)
                return plus(x, sg * v) if x is not None else None
        return None
    def aoff(s):
        """offset of the array in a node"""
        return min(i.d.get("off", 0) for f in s.m.funcs.values() for i in f.instrs() if i.op == "getelementptr" and i.fld.startswith("wg_tnode.array_of_values") and i.d.get("off"))
    def nodeterm(s, fx, st, d, i):
        t = fx.kt[fx.key(st, i.args[0])]
        if t[0] != "gep" or len(t[3]) != 1 or t[3][0][1] != 1:
            return None
        return s.term(fx, d, t[3][0][0])
    def setT(s, d, i, term):
        T = dict(d.get("T", ())); T[i.id] = term
        return dict(d, T=tuple(sorted(T.items(), key=repr)))
    def bounds(s, d):
        rels = d.get("rel", (-1, 0, 1)); r = {tuple(tightest(d["cs"], x)) for x in rels}
        return r
    def expected(s, d):
        """(node, slot) of the start and of the end; None while undetermined"""
        b = tightest(d["cs"], -1); o = dict(d.get("out", ()))
        if b[0] is None: st_ = (("min",), ("c", 0))
        else:
            inc = b[0][1]; n = ("L" if inc else "R", 0); q = o.get(n)
            if q == 0:
                if inc: st_ = (n, ("F", n, 0))
                else:
                    z = ("+", ("Z", n, 0), 1); x = dict(d.get("cmp", ())).get(("cross", n))
                    st_ = None if x is None else (n, z) if x == 0 else (("succ", n), ("c", 0))
            elif q == 2: st_ = (("succ", n), ("c", 0))
            elif q == 1: st_ = (n, ("c", 0))
            else: st_ = None
        def last(n): return ("+", ("n", n), -1)
        if b[1] is None: en = (("max",), last(("max",)))
        else:
            inc = b[1][1]; n = ("R" if inc else "L", 0); q = o.get(n)
            if q == 0:
                if inc: en = (n, ("Z", n, 0))
                else:
                    x = dict(d.get("cmp", ())).get(("under", n)); z = ("+", ("F", n, 0), -1)
                    en = None if x is None else (n, z) if x == 0 else (("pred", n), last(("pred", n)))
            elif q == 2: en = (n, last(n))
            elif q == 1: en = (("pred", n), last(("pred", n)))
            else: en = None
        return st_, en
    def matched(s, d): return len(d["cs"])
    def desc(s, d): return " (%s)" % " and ".join(NAMES[c] for c in d["cs"])
    def step(s, fx, st, i):
        d = D(st.a)
        if d.get("done"): return []
        if i.op == "load" and i.fld == "wg_query_arg.cond" and s.mode != "find":
            e = s.elt(fx, st, i, 8)
            if d.get("e") == e and d["cs"] or d.get("fin"): return None
            s.c("condition read", i)
            if s.matched(d) == len(s.conds): return []
            if d.get("mm") or not d.get("ceq"): s.rep(fx, st, i, "bounds", "a condition on another column sets the bounds of the index"); return []
            d["e"] = e; c = s.conds[s.matched(d)]
            return [Fork(A(**dict(d, cs=d["cs"] + (c,))), const(c))]
        if i.op == "load" and i.fld == "wg_query_arg.column" and not d.get("fin"):
            if d.get("mm"): return []
            d.pop("ceq", None)
            return [A(**d)]
        if s.mode == "other" and i.op == "call" and i.callee() == "prepare_params":
            return [Fork(A(**dict(d, pa=tuple(a for a in i.args if isinstance(a, int) and a in s.f.defs and s.f.defs[a].op == "alloca") if i.args else ())), const(0))]
        if s.mode == "other" and i.op == "load":
            ak = fx.kt[fx.key(st, i.args[0])]
            if ak[0] == "alloca" and ak[1] in d.get("pa", ()): return [Fork(st.a, NZ if i.ty == "ptr" else const(1))]
        if s.mode == "other" and d.get("fin"):
            if i.op == "store" and i.fld in ("wg_query_arg.cond", "wg_query_arg.column", "wg_query_arg.value"):
                return [A(**dict(d, cp=tuple(sorted(set(d.get("cp", ())) | {i.fld}))))]
            if i.op == "store" and i.fld == "wg_query.arglist":
                l = s.lf(fx, fx.key(st, i.args[0])); x = s.f.defs.get(l) if l is not None else None
                if x is None or x.op != "call": return [A(**dict(d, cp=("full",)))] if x is not None else None
                return None
            if i.op == "call" and i.callee() in ("wg_create_mpool", "wg_fetch"): s.lost(fx, st, i, d); return []
        if i.op == "load" and i.fld == "wg_query_arg.value" and s.mode != "find" and not d.get("alist"):
            if d["cs"] and s.elt(fx, st, i, 16) == d.get("e"):
                nm = dict(d.get("nm", ()))
                m = st.mem.get(fx.key(st, i.args[0]))
                if m is not None and fx.kt[m[0]][0] == "ssa" and fx.kt[m[0]][1] in nm: return None
                # the instruction may still name the value of an earlier condition: move that name first
                s.redefine(fx, st, {i.id}, (), i); d = D(st.a); nm = dict(d.get("nm", ()))
                nm[i.id] = len(d["cs"]) - 1
                for p in [p for p, k in st.alias.items() if i.id in fx.kleaf[k]]: del st.alias[p]
                return [Fork(A(**dict(d, nm=tuple(sorted(nm.items())))), [(fx.leaf(i.id), N255)])]
            return None
        if i.op == "load" and i.fld.endswith("offset_min_node") and not d["cs"] and not (s.mode == "other" and d.get("mm")): return []
        if i.op == "call":
            c = i.callee()
            if c in ("wg_get_first_record", "wg_get_next_record"): return []
            if c == "wg_multi_column_to_index_id" and s.mode == "find": return [Fork(A(**dict(d, idx=1)), (1, None, frozenset()))]
            if c == "wg_compare":
                la, lb = s.label(fx, d, fx.key(st, i.args[1])), s.label(fx, d, fx.key(st, i.args[2]))
                if la is None or lb is None: return None
                s.c("comparison of bounds", i)
                if la == lb: return [Fork(st.a, const(0))]
                out = []
                for o in (-1, 0, 1):
                    r = o if la == 0 else -o
                    if r in d.get("rel", (-1, 0, 1)): out.append(Fork(A(**dict(d, rel=(r,))), const(o)))
                return out
            if c in ("wg_search_ttree_leftmost", "wg_search_ttree_rightmost"):
                s.c("bound search", i); L = "L" if c.endswith("leftmost") else "R"
                lab = s.label(fx, d, fx.key(st, i.args[2]))
                if lab is None: s.rep(fx, st, i, "bounds", "an index search is made for something other than the value of a condition on the column"); return []
                ok = set()
                for b in s.bounds(d):
                    w = set()
                    if b[0] is not None: w.add(("L" if b[0][1] else "R", b[0][0]))
                    if b[1] is not None: w.add(("R" if b[1][1] else "L", b[1][0]))
                    if d.get("rel") == (0,): w |= {(x, 1 - y) for x, y in w}
                    ok.add(frozenset(w))
                if any((L, lab) not in w for w in ok):
                    s.rep(fx, st, i, "bounds", "the %s position of value %d is taken as a bound, which %s do not define" % ("first" if L == "L" else "last", lab + 1, s.desc(d).strip(" ()")))
                    return []
                se = tuple(sorted(set(d.get("se", ())) | {(L, lab)}))
                bt = fx.kt[fx.key(st, i.args[3])]; st.mem.pop(fx.key(st, i.args[3]), None)
                return [A(**s.setT(dict(d, se=se, bt=tuple(sorted((x, y) for x, y in list(d.get("bt", ())) + [(bt[1] if bt[0] == "alloca" else None, (L, lab))] if x is not None and not (x == bt[1] and y != (L, lab))))), i, (L, lab)))]
            if c in ("wg_search_tnode_first", "wg_search_tnode_last"):
                s.c("slot search", i); n = s.term(fx, d, fx.key(st, i.args[1])); lab = s.label(fx, d, fx.key(st, i.args[2]))
                col = fx.key(st, i.args[3])
                if d.get("col") is not None and col != d["col"]: s.rep(fx, st, i, "bounds", "the slot is searched on another column")
                return [Fork(A(**s.setT(d, i, ("F" if c.endswith("first") else "Z", n, lab))), TOP)]
        if i.op == "load":
            if not s.two:
                ak = fx.kt[fx.key(st, i.args[0])]
                if ak[0] == "alloca" and ak[1] in dict(d.get("bt", ())):
                    n = dict(d["bt"])[ak[1]]; o = dict(d.get("out", ()))
                    out = []
                    for v in (0, 1, 2):
                        if n in o and o[n] != v: continue
                        out.append(Fork(A(**dict(d, out=tuple(sorted({**o, n: v}.items())))), const(v)))
                    return out
                if i.fld.endswith("offset_min_node"): return [A(**s.setT(d, i, ("min",)))]
                if i.fld.endswith("offset_max_node"): return [A(**s.setT(d, i, ("max",)))]
                for fl, nm in (("wg_tnode.succ_offset", "succ"), ("wg_tnode.pred_offset", "pred"), ("wg_tnode.number_of_elements", "n")):
                    if i.fld == fl:
                        n = s.nodeterm(fx, st, d, i)
                        if n is not None: return [A(**s.setT(d, i, (nm, n)))]
                if i.fld.startswith("wg_tnode.array_of_values") and s.mode == "find":
                    s.c("first row", i); t = fx.kt[fx.key(st, i.args[0])]
                    node = slot = None
                    if t[0] == "gep":
                        slot = ("c", (t[2] - s.aoff()) // 8)
                        for kk, sc in t[3]:
                            x = s.term(fx, d, kk)
                            if sc == 1: node = x
                            elif sc == 8: slot = plus(x, slot[1]) if x is not None else None
                    if d.get("acc"):
                        s.c("next row", i); s.nextrow(fx, st, i, d, node, slot)
                        return []
                    s.setcheck(fx, st, i, d)
                    s.final(fx, st, i, d, "co", node); s.final(fx, st, i, d, "cs", slot)
                    return [A(**dict(d, acc=1))]
        if i.op == "store" and s.mode != "find":
            g = i.fld or (s.f.defs[i.args[1]].fld if isinstance(i.args[1], int) and i.args[1] in s.f.defs else "")
            if g in ("wg_query.curr_offset", "wg_query.curr_slot", "wg_query.end_offset", "wg_query.end_slot") and (d["cs"] or d.get("mm")):
                nm = g.split(".")[1]
                if nm == "curr_offset" and s.mode != "other":
                    s.setcheck(fx, st, i, d)
                    if s.two: s.c("pair of conditions", i); return []
                if s.two: return None
                s.c("bound stored", i)
                k = fx.key(st, i.args[0]); t = s.term(fx, d, k)
                q = {"curr_offset": "co", "curr_slot": "cs", "end_offset": "eo", "end_slot": "es"}[nm]
                if q == "co" or q == "eo":
                    zero = fx.kval(st, k) == const(0)
                    if zero:
                        if not s.emptyok(d): s.rep(fx, st, i, "bounds", "the range is made empty although it need not be%s" % s.desc(d))
                        return [A(**dict(d, zero=1))]
                if s.mode == "other": return [A(cs=(), fin=1, mm=1, pa=d.get("pa", ()))] if q == "es" else None
                if d.get("zero"): return [] if q == "es" else None
                s.final(fx, st, i, d, q, t)
                if q == "es": return [A(cs=d["cs"], fin=1)] if 2 in d["cs"] else []
                return [A(**d)]
            if g == "wg_query.arglist":
                k = fx.key(st, i.args[0]); l = s.lf(fx, k); dd = s.f.defs.get(l) if l is not None else None
                if not d.get("fin"): return None
                if 2 in d["cs"] and (fx.cval(k) is not None or (dd is not None and dd.op == "call" and dd.callee() == "malloc")):
                    s.rep(fx, st, i, "filter", "rows found through an index are not filtered with the full argument list (NOT_EQUAL)")
                return []
        return None
    def nextrow(s, fx, st, i, d, node, slot):
        (co, cs), (eo, es) = s.expected(d); c = dict(d.get("wk", ()))
        if c.get("ne") != 0 and c.get("se") != 0: s.rep(fx, st, i, "walk", "goes on without testing for the last row of the range%s" % s.desc(d))
        elif c.get("over") == 0:
            if (node, slot) != (co, plus(cs, 1)): s.rep(fx, st, i, "walk", "the row after the first is not that of the next slot%s: %s %s" % (s.desc(d), node, slot))
        elif c.get("over") == 1:
            if (node, slot) != (("succ", co), ("c", 0)): s.rep(fx, st, i, "walk", "the row after the last of a node is not the first of its successor%s: %s %s" % (s.desc(d), node, slot))
        else: s.rep(fx, st, i, "walk", "goes on without testing for the end of the node%s" % s.desc(d))
    def lost(s, fx, st, i, d):
        s.c("condition kept", i)
        if "full" not in d.get("cp", ()) and len(d.get("cp", ())) != 3: s.rep(fx, st, i, "filter", "a condition on another column than that of the index is not kept as a filter")
    def setcheck(s, fx, st, i, d):
        """the searches made are those the conditions call for"""
        se = set(d.get("se", ()))
        for r in d.get("rel", (-1, 0, 1)):
            b = tightest(d["cs"], r); w = set()
            if b[0] is not None: w.add(("L" if b[0][1] else "R", b[0][0]))
            if b[1] is not None: w.add(("R" if b[1][1] else "L", b[1][0]))
            def norm(x): return {(p, 0 if r == 0 else q) for p, q in x}
            if norm(w) != norm(se): s.rep(fx, st, i, "bounds", "%s do not set the bounds they define%s" % (s.desc(d).strip(" ()"), "" if len(d["cs"]) < 2 else " when the first value is %s than the second" % ON[r])); return
            if empty_range(d["cs"], r): s.rep(fx, st, i, "bounds", "an empty range is searched in the index%s" % s.desc(d)); return
    def wk(s, d, n, tr): d["wk"] = tuple(sorted({**dict(d.get("wk", ())), n: 1 if tr else 0}.items()))
    def emptyok(s, d):
        c = dict(d.get("cmp", ()))
        return c.get("co0") or c.get("eo0") or c.get("prev") or (c.get("same") and c.get("before"))
    def final(s, fx, st, i, d, q, t):
        e = s.expected(d)
        x = {"co": e[0] and e[0][0], "cs": e[0] and e[0][1], "eo": e[1] and e[1][0], "es": e[1] and e[1][1]}[q]
        what = {"co": "first node", "cs": "first slot", "eo": "last node", "es": "last slot"}[q]
        if x is None: s.rep(fx, st, i, "bounds", "the %s of the range is used before it is determined%s" % (what, s.desc(d))); return
        if t != x: s.rep(fx, st, i, "bounds", "the %s of the range is not the one the condition defines%s: %s instead of %s" % (what, s.desc(d), t, x)); return
        if q in ("co", "eo"):
            c = dict(d.get("cmp", ()))
            if c.get("eo0") != 0: s.rep(fx, st, i, "bounds", "a range without an end node is not made empty%s" % s.desc(d))
            elif c.get("co0") != 0: s.rep(fx, st, i, "bounds", "a range without a start node is not made empty%s" % s.desc(d))
            elif c.get("prev") != 0: s.rep(fx, st, i, "bounds", "a range that lies between two nodes is not made empty%s" % s.desc(d))
            elif c.get("same") != 0 and c.get("before") != 0: s.rep(fx, st, i, "bounds", "a range whose end precedes its start is not made empty%s" % s.desc(d))
    def edge(s, fx, st, t, k, truth):
        d = D(st.a); tr = truth
        if d.get("fin"):
            while fx.kt[k][0] == "not": k = fx.kt[k][1]; tr = not tr
            q = fx.kt[k]
            if s.mode == "other" and q[0] == "icmp" and q[1] == "eq" and tr is True and "wg_query_arg.column" in (s.fldof(fx, q[2]), s.fldof(fx, q[3])): return A(**dict(d, done=1))
            return None
        while fx.kt[k][0] == "not": k = fx.kt[k][1]; tr = not tr
        q = fx.kt[k]
        if q[0] != "icmp":
            if fx.kt[k][0] in ("ssa",) and tr in (True, False): q = ("icmp", "eq", k, fx.kconst(0)); tr = not tr
            else: return None
        if tr not in (True, False): return None
        a, b = q[2], q[3]
        if q[1] == "eq":
            # a condition on the column of the index
            for x, y in ((a, b), (b, a)):
                if s.fldof(fx, x) == "wg_query_arg.column" and s.mode != "find":
                    if tr: d["ceq"] = 1
                    if tr and s.mode == "other": return A(**dict(d, done=1))
                    if tr and d.get("col") is None: d["col"] = y
                    if not tr: d["mm"] = 1
            la, lb = s.label(fx, d, a), s.label(fx, d, b)
            if la is not None and lb is not None and la != lb:
                r = d.get("rel", (-1, 0, 1))
                if tr: return A(**dict(d, rel=(0,))) if 0 in r else A(**dict(d, done=1))
                return None
        if s.two: return A(**d)
        ta, tb = s.term(fx, d, a), s.term(fx, d, b)
        cm = dict(d.get("cmp", ()))
        def put(n, v):
            if cm.get(n, v) == v: cm[n] = 1 if v else 0
        if q[1] == "slt":
            for n in (("R", 0), ("L", 0)):
                z = ("Z", n, 0)
                if ta == ("+", z, 1) and tb == ("n", n): put(("cross", n), not tr)
                if ta == ("n", n) and tb == ("+", z, 1): 
                    if tr: put(("cross", n), True)
                if ta == z and tb == ("+", ("n", n), -1): put(("cross", n), not tr)
                f = ("F", n, 0)
                if ta == ("+", f, -1) and tb == ("c", 0): put(("under", n), tr)
                if ta == f and tb == ("c", 1): put(("under", n), tr)
                if ta == ("c", 0) and tb == f: put(("under", n), not tr)
        if q[1] == "eq":
            for n in (("R", 0), ("L", 0)):
                for x, y in ((ta, tb), (tb, ta)):
                    if x == ("+", ("Z", n, 0), 1) and y == ("n", n): put(("cross", n), tr)
                    if x == ("F", n, 0) and y == ("c", 0): put(("under", n), tr)
        d["cmp"] = tuple(sorted(cm.items(), key=repr))
        e = s.expected(d)
        if e[0] and e[1]:
            co, cs = e[0]; eo, es = e[1]
            if q[1] == "eq":
                for x, y in ((ta, tb), (tb, ta)):
                    if x == co and y == ("c", 0): put("co0", tr)
                    if x == eo and y == ("c", 0): put("eo0", tr)
                    if x == eo and y == ("pred", co): put("prev", tr)
                    if x == co and y == eo: put("same", tr)
                    if x == eo and y == ("succ",): pass
                    if d.get("acc"):
                        if x == co and y == eo: s.wk(d, "ne", tr)
                        if x == cs and y == es: s.wk(d, "se", tr)
                        if x == ("n", co) and y == plus(cs, 1): s.wk(d, "over", tr)
                        if x == ("succ", co) and y == ("c", 0): s.wk(d, "last", tr)
            if q[1] == "slt" and d.get("acc"):
                if (ta, tb) in ((cs, es), (es, plus(cs, 1))): s.wk(d, "se", (ta == cs) != tr)
                if (ta, tb) == (plus(cs, 1), ("n", co)): s.wk(d, "over", not tr)
                if (ta, tb) == (cs, plus(("n", co), -1)): s.wk(d, "over", not tr)
                if (ta, tb) == (("n", co), plus(cs, 2)): s.wk(d, "over", tr)
            if q[1] == "slt":
                if ta == es and tb == cs: put("before", tr)
                if (ta, tb) == (cs, es) and tr: put("before", False)
        elif q[1] == "eq":
            # a predecessor that does not exist is known before its last slot is
            for x, y in ((ta, tb), (tb, ta)):
                pass
        if q[1] == "eq":
            for x, y in ((ta, tb), (tb, ta)):
                if y == ("c", 0) and e[1] and x == e[1][0]: put("eo0", tr)
                if y == ("c", 0) and e[0] and x == e[0][0]: put("co0", tr)
        d["cmp"] = tuple(sorted(cm.items(), key=repr))
        return A(**d)
    def ret(s, fx, st, i):
        d = D(st.a)
        if d.get("done"): return
        s.c("return", i); v = fx.val(st, i.args[0])
        if s.mode == "other":
            if d.get("fin") and v != const(0): s.lost(fx, st, i, d)
            return
        if s.mode == "find":
            c = dict(d.get("wk", ()))
            if v == const(0) and d.get("acc") and not (c.get("ne") == 1 and (c.get("se") == 1 or c.get("over") == 1)) and not (c.get("ne") == 0 and c.get("last") == 1):
                s.rep(fx, st, i, "walk", "the search ends before the last row of the range%s" % s.desc(d))
            if v == const(0) and d.get("idx") and s.cond == 2: s.rep(fx, st, i, "bounds", "NOT_EQUAL is answered from an index")
            return
        if s.matched(d) == len(s.conds) and not d.get("fin") and v != const(0):
            if not all(empty_range(d["cs"], r) for r in d.get("rel", (-1, 0, 1))): s.rep(fx, st, i, "bounds", "the range is taken for empty although it need not be%s" % s.desc(d))

class WalkRule(BoundsRule):
    """the cursor of an index query moves to the next slot, the next node or past the end"""
    Q = {"curr_offset": "CO", "curr_slot": "CS", "end_offset": "EO", "end_slot": "ES"}
    def __init__(s, f): BoundsRule.__init__(s, f, "walk", None)
    def start(s, fx): return [A(cs=())]
    def extra_live(s, a): return ()
    def desc(s, d): return ""
    def step(s, fx, st, i):
        d = D(st.a)
        if d.get("dead"): return []
        if i.op == "load" and i.fld == "wg_query.qtype": return [Fork(st.a, const(1))]
        if i.op == "load" and i.fld == "wg_query.direction": return [Fork(A(**s.setT(d, i, ("c", 1))), const(1))]
        if i.op == "load" and i.fld.startswith("wg_query."):
            n = s.Q.get(i.fld.split(".")[1])
            if n is None or fx.key(st, i.args[0]) in st.mem: return None
            return [A(**s.setT(d, i, (n,)))]
        if i.op == "store" and i.fld.startswith("wg_query."):
            n = s.Q.get(i.fld.split(".")[1])
            if n is None: return None
            s.c("cursor moved", i); k = fx.key(st, i.args[0]); t = s.term(fx, d, k)
            if n in ("EO", "ES"): s.rep(fx, st, i, "walk", "the end of the range is moved"); return None
            return [A(**dict(d, mv=tuple(sorted({**dict(d.get("mv", ())), n: t or ("?",)}.items()))))]
        if i.op == "load":
            for fl, nm in (("wg_tnode.succ_offset", "succ"), ("wg_tnode.pred_offset", "pred"), ("wg_tnode.number_of_elements", "n")):
                if i.fld == fl:
                    n = s.nodeterm(fx, st, d, i)
                    if n is not None: return [A(**s.setT(d, i, (nm, n)))]
            if i.fld.startswith("wg_tnode.array_of_values"):
                if d.get("acc"): s.verdict(fx, st, i, d); return []
                s.c("row read", i); t = fx.kt[fx.key(st, i.args[0])]; node = slot = None
                if t[0] == "gep":
                    slot = ("c", (t[2] - s.aoff()) // 8)
                    for kk, sc in t[3]:
                        x = s.term(fx, d, kk)
                        if sc == 1: node = x
                        elif sc == 8: slot = plus(x, slot[1]) if x is not None else None
                if (node, slot) != (("CO",), ("CS",)) or d.get("mv"): s.rep(fx, st, i, "walk", "the row read is not the one the cursor names: %s %s" % (node, slot)); return []
                return [A(**dict(d, acc=1))]
        return None
    def edge(s, fx, st, t, k, truth):
        d = D(st.a); tr = truth
        while fx.kt[k][0] == "not": k = fx.kt[k][1]; tr = not tr
        q = fx.kt[k]
        if q[0] != "icmp" or tr not in (True, False): return None
        ta, tb = s.term(fx, d, q[2]), s.term(fx, d, q[3]); co, cs, eo, es = ("CO",), ("CS",), ("EO",), ("ES",)
        for x, y in ((ta, tb), (tb, ta)):
            if q[1] == "eq":
                if (x, y) == (co, eo): s.wk(d, "ne", tr)
                if (x, y) == (cs, es): s.wk(d, "se", tr)
                if (x, y) == (("n", co), plus(cs, 1)): s.wk(d, "over", tr)
        if q[1] == "slt":
            if (ta, tb) in ((cs, es), (es, plus(cs, 1))): s.wk(d, "se", (ta == cs) != tr)      # in one node the end is not before the cursor
            if (ta, tb) in ((plus(cs, 1), ("n", co)), (cs, plus(("n", co), -1))): s.wk(d, "over", not tr)
            if (ta, tb) == (("n", co), plus(cs, 2)): s.wk(d, "over", tr)
            if tb == ("c", 0) and ta == plus(cs, 1) and tr: return A(**dict(d, dead=1))      # slots are not negative
        return A(**d)
    def verdict(s, fx, st, i, d):
        s.c("next row", i); c = dict(d.get("wk", ())); mv = dict(d.get("mv", ())); co, cs = mv.get("CO", ("CO",)), mv.get("CS", ("CS",))
        if c.get("ne") == 1 and c.get("se") == 1:
            if co != ("c", 0): s.rep(fx, st, i, "walk", "the query goes on after the last row of the range")
        elif c.get("ne") == 1 and c.get("over") == 1: pass        # end slot beyond the node: cannot be
        elif c.get("ne") != 0 and c.get("se") != 0: s.rep(fx, st, i, "walk", "the cursor moves without testing for the last row of the range")
        elif c.get("over") == 0:
            if (co, cs) != (("CO",), plus(("CS",), 1)): s.rep(fx, st, i, "walk", "the next row is not that of the next slot: %s %s" % (co, cs))
        elif c.get("over") == 1:
            if (co, cs) != (("succ", ("CO",)), ("c", 0)): s.rep(fx, st, i, "walk", "the next row is not the first of the next node: %s %s" % (co, cs))
        else: s.rep(fx, st, i, "walk", "the cursor moves without testing for the end of the node")
    def ret(s, fx, st, i):
        d = D(st.a)
        if d.get("acc") and not d.get("dead"): s.verdict(fx, st, i, d)

class CopyRule(QBase):
    """undefined conditions and values are refused (a list of one condition)"""
    def __init__(s, f, null): QBase.__init__(s, f); s.null = null
    def start(s, fx):
        a = [n for n, x in enumerate(s.f.args) if x[0] in ("arglist",)] or [3]
        s.al, s.ac = a[0], a[0] + 1
        fx.init_vals[fx.leaf(s.al)] = NZ; fx.init_vals[fx.leaf(s.ac)] = const(1)
        return [A()]
    def step(s, fx, st, i):
        d = D(st.a)
        if i.op == "load" and i.fld in ("wg_query_arg.cond", "wg_query_arg.value"):
            k = fx.key(st, i.args[0]); t = fx.kt[k]
            if fx.kt[fx.abase(k)] != ("ssa", s.al): return None
            if t[0] == "gep" and t[3]: return []          # a second element does not exist
            if k in st.mem: return None
            n = i.fld.split(".")[1]
            if n in d: return None
            s.c("element read", i)
            if n == "cond": return [Fork(A(**dict(d, cond=c)), const(c)) for c in CONDS] + [Fork(A(**dict(d, cond=1, bad="condition")), BAD)]
            return [Fork(A(**dict(d, value=1)), N255), Fork(A(**dict(d, value=1, bad=d.get("bad", "value"))), const(255))]
        return None
    def ret(s, fx, st, i):
        d = D(st.a); v = fx.val(st, i.args[0]); s.c("return", i)
        fail = (v == const(0)) if s.null else nonzero(v)
        if fail: return
        if d.get("bad"): s.rep(fx, st, i, "reject", "a query with an undefined %s is built" % d["bad"])
        elif not d.get("cond"): s.rep(fx, st, i, "reject", "a query is built without looking at the conditions")

def copies(res, f):
    """elements of argument lists are copied field by field"""
    n = 0
    for i in f.instrs():
        if i.op != "store" or not i.fld.startswith("wg_query_arg."): continue
        o = i.args[0]
        v = f.defs.get(o) if isinstance(o, int) else None
        if v is not None and v.op == "load" and v.fld.startswith("wg_query_arg."):
            n += 1
            if v.fld != i.fld: res.violation("copy", "%s:%s" % (f.name, i.fld), i.where(), "the %s of a condition is copied from the %s of another" % (i.fld.split(".")[1], v.fld.split(".")[1]))
        elif i.fld.endswith("cond") and isinstance(o, list):
            n += 1
            if o[1] != 1: res.violation("copy", "%s:matchrec" % f.name, i.where(), "a field of the match record becomes a %s condition" % NAMES.get(o[1], o[1]))
    res.obligation(n, "%s: %d fields of conditions copied" % (f.name, n), "copy")
    return n

KEEP = ("most_restricting_column", "prepare_params", "check_arglist")
def c24(res, tier):
    m = ir.load(("db", "json"), "main", extra_keep=KEEP); res.module(m)
    for r in ("a row is returned by the filter exactly for the outcomes of the comparison that the condition names (six conditions and undefined ones, three outcomes)",
              "an index query starts and ends at the node and slot that the condition defines, for each result of the bound search, and is empty exactly if the range is",
              "two conditions on the indexed column give the tighter bound on either side for every order of their values",
              "a query with an undefined condition or value is refused; the copied conditions are those given"):
        res.rule(r)
    jobs = []
    pp = m.funcs.get("prepare_params")
    mk_ = [x for x in ("wg_make_query_rc", "wg_make_query") if x in m.funcs]
    res.need(len(mk_), 1, "query construction")
    for f in mk_: jobs += [(f, "single", c) for c in CONDS] + [(f, "other", None)]
    jobs += [(mk_[0], "pair", (a, b)) for a in CONDS for b in CONDS]
    AC = CONDS + ("bad",)
    filt = ("check_arglist",) if "check_arglist" in m.funcs else ()
    if filt: jobs += [("check_arglist", "bool%d" % o, c) for c in AC for o in (0, 1)] + [("wg_fetch", "kept", None), ("wg_find_record", "kept", 4)]
    else: jobs += [("wg_fetch", "filter%d" % o, c) for c in AC for o in (0, 1)] + [("wg_find_record", "ffilter", c) for c in AC]
    for c in CONDS: jobs.append(("wg_find_record", "find", c))
    jobs.append(("wg_fetch", "walk", None))
    cf = ["prepare_params"] if pp is not None else mk_
    jobs += [(f, "copy", None) for f in cf]
    nc = sum(copies(res, m.fn(f)) for f in sorted(set(cf + mk_)))
    QBase.m = m
    def one(j):
        f = m.fn(j[0]); md = j[1]
        if md in ("single", "pair", "find", "other"): r = BoundsRule(f, md, j[2])
        elif md == "walk": r = WalkRule(f)
        elif md.startswith("filter"): r = FilterRule(f, int(md[-1]), only=j[2])
        elif md.startswith("bool"): r = FilterRule(f, int(md[-1]), only=j[2], boolean=True)
        elif md == "ffilter": r = FilterRule(f, 0, j[2])
        elif md == "kept": r = FilterRule(f, 1, j[2], filt=filt)
        else: r = CopyRule(f, f.ret == "ptr")
        fx = Flow(f, r, pure=PURE + filt); fx.run()
        return j, {k: sorted(v) for k, v in r.cnt.items()}, [(d["rule"], d["msg"], d["where"], d["path"]) for d in fx.reports], fx.paths_states
    seen = {}
    for j, cnt, reps, ps in pmap(one, jobs):
        res.funcs.add(j[0])
        for k, v in cnt.items():
            res.obligation(len(v), "%s (%s %s): %s %s" % (j[0], j[1], NAMES.get(j[2], j[2]), k, v[0]), k); seen.setdefault(j[1], set()).add(k)
        for rule, msg, where, path in reps: res.violation(rule, "%s:%s" % (j[0], msg), where, msg, path[-12:])
    res.notes.append("helpers analysed on their own: %s" % ", ".join(x for x in KEEP if x in m.funcs))
    al = {k for v in seen.values() for k in v}
    for k in ("comparison", "bound stored", "pair of conditions", "first row", "element read", "condition kept", "next row", "cursor moved"): res.need(k in al, 1, k)
