"""C21: atomic field operations"""
import ir, data
from flow import Flow, Fork, const, isconst, mk, meet, empty, TOP, nonzero
from ir import Broken
from common import pmap
from lib import NZ, derives, is_seg, addr_of, within, disjoint
from data import Base, D, A, kind_facts, addr_roots, INDEXTAB, TMPLTAB, fieldwriters, DEAD

PTRS = ("rec", "longstr", "shortstr", "fulldouble", "fullint0", "fullint1"); IMM = ("null", "imm3", "imm7")

class CasRule(Base):
    """the primitive: the word is changed only by the compare-and-swap, after all refusals"""
    def __init__(s, fn, dk, ok):
        s.f = fn; s.dk = dk; s.ok = ok; s.cnt = {}; s.data = None; s.delete = False
    def c(s, what, i): s.cnt.setdefault(what, set()).add(i.where())
    def start(s, fx):
        s.rec, s.fnr, s.new, s.old = (fx.leaf(n) for n in (1, 2, 3, 4))
        for x, kd in ((s.new, s.dk), (s.old, s.ok)):
            if kd is None: continue
            fs = kind_facts(fx, x, kd, "loc") + ([(x, mk(None, None, frozenset([255])))] if kd.startswith("imm") else [])
            for k, v in fs: fx.init_vals[k] = meet(fx.init_vals.get(k, TOP), v)
        return [()]
    def imm(s, fx, st, k):
        if fx.kval(st, k) == const(0): return True
        for m in (3, 7):
            a = fx.ki.get(("and", k, fx.kconst(m)))
            if a is not None:
                v = fx.kval(st, a)
                if isconst(v) and v[0] & 3 == 3: return True
        return False
    def edge(s, fx, st, t, k, truth):
        d = D(st.a)
        if s.imm(fx, st, s.new): d["di"] = 1
        if s.imm(fx, st, s.old): d["oi"] = 1
        v = fx.kval(st, s.fnr)
        if v[0] is not None and v[0] > 127: d["far"] = 1
        for l in fx.kleaf[k]:
            ld = s.f.defs.get(l)
            if ld is None or ld.op != "load": continue
            v = fx.kval(st, fx.leaf(l))
            if ld.fld.endswith(".logging.active"):
                if v == const(0): d["nolog"] = 1
                elif nonzero(v): d["log"] = 1
            for tab, n in ((INDEXTAB, "t1"), (TMPLTAB, "t2")):
                if ld.fld.endswith(tab):
                    g = s.f.defs.get(ld.args[0])
                    if g is not None and g.op == "getelementptr" and len(g.d.get("vo", ())) == 1 and fx.key(st, g.d["vo"][0][0]) == s.fnr:
                        if v == const(0): d[n] = 1
                        elif nonzero(v): d["idx"] = 1
            if any(r[0] == "ptr" and r[1] == 1 and r[2] == 8 for r in addr_roots(s.f, ld.args[0])):
                a = fx.ki.get(("and", fx.leaf(l), fx.kconst(1)))
                if a is not None and isconst(fx.kval(st, a)) and fx.kval(st, a)[0]: d["spec"] = 1
        return A(**d)
    def cas(s, fx, st, i, p, old, new):
        d = D(st.a); s.c("compare-and-swap", i)
        t = fx.kt[p]
        if not (t[0] == "gep" and t[1] == s.rec and t[2] == 24 and t[3] == ((s.fnr, 8),)): s.rep(fx, st, i, "C21", "target", "the compare-and-swap is not done on the field")
        if old != s.old: s.rep(fx, st, i, "C21", "expected", "the compare-and-swap does not expect the old value of the caller")
        if new != s.new: s.rep(fx, st, i, "C21", "value", "the compare-and-swap stores another value than that of the caller")
        if not d.get("di"): s.rep(fx, st, i, "C21", "refusal", "a value that is not immediate may be stored")
        if not d.get("oi"): s.rep(fx, st, i, "C21", "refusal", "a value that is not immediate may be replaced")
        if not d.get("nolog"): s.rep(fx, st, i, "C21", "refusal", "the field may be changed while journaling is active")
        if not (d.get("spec") or d.get("far") or (d.get("t1") and d.get("t2"))): s.rep(fx, st, i, "C21", "refusal", "the field may be changed although an index or index template uses it")
        if d.get("cas"): s.rep(fx, st, i, "C21", "once", "the compare-and-swap may be done twice")
    def step(s, fx, st, i):
        d = D(st.a)
        if i.op == "call" and i.callee() == "wg_compare_and_swap":
            s.cas(fx, st, i, *(fx.key(st, a) for a in i.args))
            return [Fork(A(**dict(d, cas="ok")), NZ), Fork(A(**dict(d, cas="no")), const(0))]
        if i.op == "cmpxchg":
            s.cas(fx, st, i, *(fx.key(st, a) for a in i.args))
            return [A(**dict(d, cas="?"))]
        if i.op == "extractvalue" and i.d.get("idx") == 1 and d.get("cas") == "?":
            return [Fork(A(**dict(d, cas="ok")), const(1)), Fork(A(**dict(d, cas="no")), const(0))]
        if i.op in ("store", "atomicrmw"):
            k = fx.key(st, addr_of(i)); b = fx.kt[fx.abase(k)]
            if b[0] == "alloca" or (b[0] == "ssa" and b[1] in s.f.defs and s.f.defs[b[1]].op == "call"): return None
            s.rep(fx, st, i, "C21", "plain-store", "changes shared data other than by the compare-and-swap")
    def ret(s, fx, st, i):
        d = D(st.a); v = fx.val(st, i.args[0]); s.c("return", i)
        ok = d.get("cas") == "ok"
        if ok and v != const(0): s.rep(fx, st, i, "C21", "result", "reports failure although the field was changed")
        if not ok and not disjoint(v, const(0)): s.rep(fx, st, i, "C21", "result", "may report success although the field was not changed")
        if ok or d.get("cas") is None and v[0] is None: 
            if not ok: s.rep(fx, st, i, "C21", "codes", "returns an undefined code")
            return
        want = {-1, -2}
        if s.dk in PTRS: want |= {-10}
        elif s.ok in PTRS: want |= {-11}
        else:
            if d.get("cas") == "no": want = {-15}
            if d.get("idx"): want |= {-13}
            if d.get("log"): want |= {-14}
        if not (isconst(v) and v[0] in want): s.rep(fx, st, i, "C21", "codes", "returns %s where only %s are documented" % (v[0] if isconst(v) else v, sorted(want)))

class RetryRule(Base):
    """the repeating operations: a fresh old value for every attempt, nothing after a success, the result of the attempt is the result"""
    def __init__(s, fn, prim): s.f = fn; s.prim = prim; s.cnt = {}; s.data = None; s.delete = False
    c = CasRule.c
    def start(s, fx):
        s.rec, s.fnr, s.dat = (fx.leaf(n) for n in (1, 2, 3)); return [()]
    def isfld(s, fx, k):
        t = fx.kt[k]
        return t[0] == "gep" and t[1] == s.rec and t[2] == 24 and t[3] == ((s.fnr, 8),)
    def summands(s, fx, st, k):
        """key -> (set of summand keys, truncated?)"""
        t = fx.kt[k]
        if t[0] == "add": return s.summands(fx, st, t[1]) + s.summands(fx, st, t[2])
        if t[0] == "sext": return s.summands(fx, st, t[1])
        return [k]
    def edge(s, fx, st, t, k, truth):
        d = D(st.a)
        kk, tr = k, truth
        while fx.kt[kk][0] == "not": kk = fx.kt[kk][1]; tr = not tr
        q = fx.kt[kk]
        if d.get("cur") is not None:
            L = fx.leaf(d["cur"])
            for m in (7, 3):
                a = fx.ki.get(("and", L, fx.kconst(m)))
                if a is not None and fx.kval(st, a) == const(3): d["small"] = 1
        if q[0] == "icmp" and q[1] == "eq" and tr is True: d["eqs"] = tuple(sorted(set(d.get("eqs", ())) | {q[2], q[3]}))[-6:]
        return A(**d)
    def redefine(s, fx, st, ids, keep, ins):
        d = D(st.a)
        if d.get("eqs"): d["eqs"] = tuple(k for k in d["eqs"] if not (fx.kleaf[k] & ids))
        if d.get("cur") in ids: d.pop("cur"); d.pop("small", None)
        st.a = A(**{k: v for k, v in d.items() if v})
    def chain(s, o, seen=None):
        """instructions that compute the new value, up to loads, calls and arguments"""
        seen = seen if seen is not None else set()
        if not isinstance(o, int) or o in seen or o not in s.f.defs: return []
        seen.add(o); d = s.f.defs[o]
        if d.op in ("load", "call", "phi"): return [d]
        return [d] + [x for a in d.args for x in s.chain(a, seen)]
    def lin(s, o, cur):
        """linear form over the decoded old value and the given number (old value = 8 * decoded + 3)"""
        if isinstance(o, list): return {"": o[1]} if o[0] == "c" and isinstance(o[1], int) else None
        if o == 3: return {"add": 1}
        if o == cur: return {"old": 8, "": 3}
        i = s.f.defs.get(o)
        if i is None: return None
        if i.op in ("sext", "zext", "freeze"): return s.lin(i.args[0], cur)
        if i.op == "call" and i.callee() == "wg_decode_int": a = s.lin(i.args[1], cur); sh = 3
        elif i.op == "ashr" and isinstance(i.args[1], list): a = s.lin(i.args[0], cur); sh = i.args[1][1]
        else: sh = None
        if sh is not None:
            if a is None or any(v % (1 << sh) for k, v in a.items() if k) or not 0 <= a.get("", 0) % (1 << sh) < (1 << sh): return None
            return {k: v >> sh for k, v in a.items() if v >> sh}
        if i.op in ("add", "sub", "or"):
            a, b = s.lin(i.args[0], cur), s.lin(i.args[1], cur)
            if a is None or b is None: return None
            if i.op == "or" and not (set(b) <= {""} and 0 <= b.get("", 0) < 8 and all(v % 8 == 0 for v in a.values())): return None
            g = -1 if i.op == "sub" else 1
            r = {k: a.get(k, 0) + g * b.get(k, 0) for k in set(a) | set(b)}
            return {k: v for k, v in r.items() if v}
        if i.op in ("shl", "mul") and isinstance(i.args[1], list):
            a = s.lin(i.args[0], cur); q = i.args[1][1]
            if a is None or (i.op == "shl" and not 0 <= q < 63): return None
            return {k: v << q if i.op == "shl" else v * q for k, v in a.items()}
        return None
    def step(s, fx, st, i):
        d = D(st.a)
        if i.op == "load" and s.isfld(fx, fx.key(st, i.args[0])):
            s.c("old value read", i)
            d["cur"] = i.id; d["live"] = (i.id,); d.pop("small", None); d.pop("eqs", None)
            return [A(**d)]
        if i.op in ("store", "atomicrmw", "cmpxchg"):
            k = fx.key(st, addr_of(i)); b = fx.kt[fx.abase(k)]
            if b[0] == "alloca" or (b[0] == "ssa" and b[1] in s.f.defs and s.f.defs[b[1]].op == "call"): return None
            s.rep(fx, st, i, "C21", "plain-store", "changes shared data other than by the compare-and-swap")
            return None
        if i.op == "call" and i.callee() in s.prim:
            s.c("attempt", i); args = [fx.key(st, a) for a in i.args]
            if d.get("u") == "ok": s.rep(fx, st, i, "C21", "once", "another attempt is made after the field was changed")
            if args[1] != s.rec or args[2] != s.fnr: s.rep(fx, st, i, "C21", "target", "the attempt is made on another field")
            L = fx.leaf(d["cur"]) if d.get("cur") is not None else None
            if args[4] != L: s.rep(fx, st, i, "C21", "expected", "the attempt does not use the value of the field read since the last attempt")
            if args[3] == s.dat: pass
            elif L is not None:
                ch = s.chain(i.args[3]); ops = {x.op for x in ch}
                if "trunc" in ops: s.rep(fx, st, i, "C21", "width", "the new value is computed in a narrower integer (%s)" % next(x for x in ch if x.op == "trunc").line())
                lf = s.lin(i.args[3], d["cur"])
                if lf is not None and lf != {"old": 8, "add": 8, "": 3}: s.rep(fx, st, i, "C21", "value", "the new value is not the encoded sum of the old value and the given number")
                if not any(x.id == d["cur"] or (x.op == "call" and d["cur"] in x.args) for x in ch): s.rep(fx, st, i, "C21", "value", "the new value is not computed from the value that is replaced")
                if not any(3 in x.args for x in ch): s.rep(fx, st, i, "C21", "value", "the new value is not computed from the given number")
                if not d.get("small"): s.rep(fx, st, i, "C21", "refusal", "the old value may be of another type than a small integer")
                # the sum fits: compared equal with itself shifted forth and back
                sm = [x for x in ch if x.op == "add" and (3 in x.args or any(isinstance(a, int) and a in s.f.defs and s.f.defs[a].op == "sext" and s.f.defs[a].args[0] == 3 for a in x.args))]
                if not sm or not any(fx.leaf(x.id) in d.get("eqs", ()) or any(fx.kt[q] == fx.kt[fx.key(st, x.id)] for q in d.get("eqs", ())) for x in sm): s.rep(fx, st, i, "C21", "range", "the sum is not known to fit a small integer")
            d.pop("cur", None); d.pop("eqs", None); d.pop("small", None)
            return [Fork(A(**dict(d, u="ok")), const(0)), Fork(A(**dict(d, u="retry")), const(-15)), Fork(A(**dict(d, u="err", live=(i.id,), rid=i.id)), mk(None, -1, frozenset([-15])))]
        return None
    def ret(s, fx, st, i):
        d = D(st.a); v = fx.val(st, i.args[0]); s.c("return", i); u = d.get("u")
        if u == "ok" and v != const(0): s.rep(fx, st, i, "C21", "result", "reports failure although the field was changed")
        if u != "ok" and not disjoint(v, const(0)): s.rep(fx, st, i, "C21", "result", "may report success although the field was not changed")
        if u == "err" and fx.key(st, i.args[0]) != fx.leaf(d["rid"]): s.rep(fx, st, i, "C21", "codes", "does not pass on the code of the refusal")
        if u != "ok" and not within(v, (None, -1, frozenset())): s.rep(fx, st, i, "C21", "codes", "returns an undefined code")

def bounded(f, call):
    """the cycle through the call has a test that leaves it when a counter of the attempts exceeds a constant"""
    b0 = call.bb
    def oncycle(skip):
        seen = set(); w = [x for x in f.succ[b0] if x not in skip]
        while w:
            b = w.pop()
            if b in seen: continue
            if b == b0: return True
            seen.add(b); w += [x for x in f.succ[b] if x not in skip]
        return False
    if not oncycle(()): return True, None
    fw = set(); w = list(f.succ[b0])
    while w:
        b = w.pop()
        if b in fw: continue
        fw.add(b); w += f.succ[b]
    bw = set(); w = [b0]
    while w:
        b = w.pop()
        if b in bw: continue
        bw.add(b); w += f.pred[b]
    scc = fw & bw
    def strip(o):
        while isinstance(o, int) and o in f.defs and f.defs[o].op in ("sext", "zext", "trunc"): o = f.defs[o].args[0]
        return o
    def counter(o):
        o = strip(o); d = f.defs.get(o) if isinstance(o, int) else None
        if d is not None and d.op == "add" and isinstance(d.args[1], list): o = strip(d.args[0]); d = f.defs.get(o) if isinstance(o, int) else None
        if d is None or d.op != "phi" or d.bb not in scc: return False
        n = 0
        for a, p in zip(d.args, d.d["p"]):
            if p not in scc: continue
            a = strip(a); x = f.defs.get(a) if isinstance(a, int) else None
            if x is None or x.op not in ("add", "sub") or not isinstance(x.args[1], list) or x.args[1][0] != "c" or x.args[1][1] == 0 or strip(x.args[0]) != o: return False
            n += 1
        return n > 0
    for b in scc:
        t = f.blocks[b][-1]
        if t.op != "br" or not t.args or all(x in scc for x in f.succ[b]): continue
        cnd = f.defs.get(t.args[0]) if isinstance(t.args[0], int) else None
        if cnd is None or cnd.op != "icmp": continue
        x, y = cnd.args[:2]
        if not ((isinstance(y, list) and counter(x)) or (isinstance(x, list) and counter(y))): continue
        return True, t.line()
    return False, None

def c21(res, tier):
    m = ir.load(("db", "json"), "main"); res.module(m)
    for r in ("the word of the field is changed only by one compare-and-swap on that word, expecting the caller's old value and storing the caller's value",
              "it is reached only with both values immediate, journaling inactive, and no index or index template on the column (or a special record)",
              "success is reported exactly when the swap succeeded; every refusal has its documented code",
              "the repeating operations read the field anew for every attempt, make none after a success, compute a sum without narrowing and only if it fits, pass on the code of a refusal, and stop after a constant number of attempts",
              "wg_compare_and_swap is one atomic instruction on its arguments and returns its success"):
        res.rule(r)
    prim = sorted({f for f, ws in fieldwriters(m).items() if any(op in ("cmpxchg", "call") for op, i in ws)} | {"wg_update_atomic_field"} & set(m.funcs))
    res.need(len(prim), 1, "atomic update")
    wr = sorted(f.name for f in m.funcs.values() if f.name not in prim and any(True for c in f.calls(*prim)))
    jobs = [(f, "cas", a, b) for f in prim for a in (None,) + PTRS + IMM for b in ((None,) if a is None or a in PTRS else PTRS + IMM)]
    jobs += [(f, "retry", None, None) for f in wr]
    def one(j):
        f = m.fn(j[0]); r = CasRule(f, j[2], j[3]) if j[1] == "cas" else RetryRule(f, prim)
        fx = Flow(f, r); fx.run()
        return j, {k: sorted(v) for k, v in r.cnt.items()}, [(d["rule"], d["msg"], d["where"], d["path"]) for d in fx.reports]
    for j, cnt, reps in pmap(one, jobs):
        res.funcs.add(j[0])
        for k, v in cnt.items(): res.obligation(len(v), "%s: %s %s" % ("/".join(str(x) for x in j if x), k, v[0]), k)
        if j[1] == "cas" and j[2] in IMM and j[3] in IMM and not cnt.get("compare-and-swap"):
            res.violation("refusal", "%s:never" % j[0], m.fn(j[0]).file, "%s refuses every pair of immediate values (%s, %s)" % (j[0], j[2], j[3]))
        for rule, msg, where, path in reps:
            if j[1] == "cas" and rule == "codes" and j[2] is None: continue      # judged with the kinds of value fixed
            res.violation(rule, "%s:%s" % (j[0], msg), where, "%s%s" % (msg, " (new %s, old %s)" % (j[2], j[3]) if j[2] else ""), path[-12:])
    for f in wr:
        for c in m.fn(f).calls(*prim):
            ok, at = bounded(m.fn(f), c); res.obligation(1, "%s: attempts bounded at %s" % (f, at), "bounded")
            if not ok: res.violation("bounded", "%s:bounded" % f, c.line(), "the attempts are not bounded by a counter that every repetition tests")
    f = m.fn("wg_compare_and_swap"); res.funcs.add(f.name)
    cx = [i for i in f.instrs() if i.op == "cmpxchg"]; ok = len(cx) == 1 and list(cx[0].args[:3]) == [0, 1, 2] and not any(i.op in ("store", "atomicrmw", "call") for i in f.instrs())
    for i in f.instrs():
        if i.op == "ret" and ok:
            o = i.args[0]
            while isinstance(o, int) and o in f.defs and f.defs[o].op in ("zext", "sext", "trunc", "extractvalue"):
                d = f.defs[o]; o = d.args[0]
                if d.op == "extractvalue" and (d.d.get("idx") != 1 or o != cx[0].id): ok = False
            ok = ok and o == cx[0].id
    res.obligation(1, "wg_compare_and_swap", "compare-and-swap")
    if not ok: res.violation("primitive", "wg_compare_and_swap", f.file, "wg_compare_and_swap is not a single atomic compare-and-swap of its arguments that returns its success")
