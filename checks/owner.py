"""Ownership typestate of private resources: heap blocks, streams, descriptors, mappings and the
library objects built from them (memory pools, hash tables, queries, handles).  C13."""
import re
import ir
from flow import Flow, Fork, const, nonzero, isconst, excluded, mk
from ir import Broken
from common import pmap
from lib import NZ

# acquire: callee -> (kind, result on failure)
ACQ = {"malloc": ("heap", 0), "calloc": ("heap", 0), "realloc": ("heap", 0), "strdup": ("heap", 0), "fopen": ("stream", 0), "fdopen": ("stream", 0),
       "open": ("descriptor", -1), "dup": ("descriptor", -1), "shmat": ("mapping", -1), "yajl_alloc": ("parser", 0), "yajl_gen_alloc": ("generator", 0), "popen": ("stream", 0),
       "tmpfile": ("stream", 0), "opendir": ("stream", 0), "mmap": ("mapping", -1), "socket": ("descriptor", -1), "accept": ("descriptor", -1)}
# release: callee -> argument
REL = {"free": 0, "fclose": 0, "close": 0, "shmdt": 0, "yajl_free": 0, "yajl_gen_free": 0, "pclose": 0, "closedir": 0, "munmap": 0}
# external functions that keep a pointer they are given
KEEPS = {"atexit": (0,), "pthread_create": (3,), "signal": (1,), "setbuf": (1,), "setvbuf": (1,), "yajl_alloc": (2,)}

# length of a decoded value: not negative (callers dispatch on the type first; C16 decides that the
# decode functions check it)
DECLEN = re.compile(r"wg_decode_\w+_len$")

class Summary:
    """per function: parameters that are kept, released; kind of a resource handed out"""
    def __init__(s, m):
        s.m = m; s.keeps = {k: set(v) for k, v in KEEPS.items()}; s.rel = {k: {v} for k, v in REL.items()}
        s.acq = dict(ACQ); s.relf = {}
        ch = True
        while ch:
            ch = False
            for f in m.funcs.values():
                for n in range(f.nargs):
                    if f.args[n][1] not in ("ptr", "i64"): continue
                    if f.name in REL or f.name in ACQ: continue
                    k, r = s.param(f, n)
                    if k and not f.file.startswith("json/") and n not in s.keeps.setdefault(f.name, set()): s.keeps[f.name].add(n); ch = True
                    if r and n not in s.rel.setdefault(f.name, set()): s.rel[f.name].add(n); ch = True
    def fields(s, name, n, d=0):
        """fields of what parameter n points to (at any depth) that the function releases; None: not known"""
        f = s.m.funcs.get(name)
        if f is None or f.file.startswith("json/") or d > 6: return None
        if (name, n) in s.relf: return s.relf[name, n]
        s.relf[name, n] = out = set()
        der = {n}; ch = True
        while ch:
            ch = False
            for i in f.instrs():
                if i.id in der or i.op not in ("getelementptr", "bitcast", "phi", "select", "load", "inttoptr", "ptrtoint"): continue
                if any(isinstance(x, int) and x in der for x in i.args): der.add(i.id); ch = True
        for c in f.calls():
            for q in s.rel.get(c.callee(), ()):
                x = c.args[q]
                if not isinstance(x, int) or x not in der: continue
                seen = set(); w = [x]
                while w:
                    y = w.pop()
                    if y in seen or not isinstance(y, int): continue
                    seen.add(y); g = f.defs.get(y)
                    if g is None: continue
                    if g.op == "load": out.add(g.fld or "?")
                    w += [z for z in g.args if isinstance(z, int) and z in der]
                if c.callee() not in REL:
                    r = s.fields(c.callee(), q, d+1)
                    if r is None: s.relf[name, n] = None; return None
                    out |= r
        return out
    def param(s, f, n):
        der = {n}; st = [n]; keep = rel = False; enc = set()
        u = f.uses()
        while st:
            x = st.pop()
            for i in u.get(x, ()):
                if i.op in ("getelementptr", "bitcast", "phi", "select", "ptrtoint", "inttoptr", "add", "sub", "or", "and"):
                    if i.op == "getelementptr" and i.args[0] != x:
                        # base + offset: the address of the object an encoded (integer) parameter stands for
                        if f.args[n][1] != "i64": continue
                        enc.add(i.id)
                    elif x in enc: enc.add(i.id)
                    if i.id not in der: der.add(i.id); st.append(i.id)
                elif i.op == "store" and i.args[0] == x:
                    a = i.args[1]
                    while isinstance(a, int) and a in f.defs and f.defs[a].op == "getelementptr": a = f.defs[a].args[0]
                    if not (isinstance(a, int) and a in f.defs and f.defs[a].op == "alloca"): keep = True
                    else:
                        for l in u.get(a, ()):
                            if l.op == "load" and l.id not in der: der.add(l.id); st.append(l.id)
                elif i.op == "ret" and f.ret == "ptr": pass
                elif i.op == "call":
                    c = i.callee()
                    for q, a in enumerate(i.args):
                        if a != x: continue
                        if q in s.keeps.get(c, ()): keep = True
                        if q in s.rel.get(c, ()) and x == n or (q in s.rel.get(c, ()) and f.defs.get(x) is not None and (x in enc or f.defs[x].op in ("bitcast", "phi", "load", "ptrtoint", "inttoptr"))): rel = True
        return keep, rel

class OwnerRule:
    def __init__(s, m, fn, sm):
        s.m = m; s.fn = fn; s.sm = sm; s.hands = {}; s.sites = set(); s.paths = 0; s.stored = s.outp = False; s.consts = set()
    # state: frozenset of (SSA id that stands for the resource, status, holder, acquiring call)
    def start(s, fx): return [frozenset()]
    def extra_live(s, a): return {x[0] for x in a}
    def redefine(s, fx, st, ids, new, where):
        """SSA values in ids are about to change: a resource they stand for gets another name, or is lost"""
        for x in sorted(st.a, key=str):
            if x[0] not in ids: continue
            leaf = fx.leaf(x[0]); to = None
            for pid, k, v in new:
                if k is not None and k == leaf: to = pid; break
            if to is None:
                qs = sorted(q for q, k in st.alias.items() if k == leaf and q not in ids)
                if qs:
                    to = qs[0]; del st.alias[to]
                    for q in qs[1:]: st.alias[q] = fx.leaf(to)
                    if leaf in st.vals: st.vals[fx.leaf(to)] = st.vals[leaf]
            if to is not None:
                st.a = frozenset((to if y[0] == x[0] else y[0], y[1], to if y[2] == x[0] else y[2], y[3], y[4]) for y in st.a)
            else:
                if x[1] == "live" and x[2] is None and not any(v == leaf for v, f in st.mem.values()) and where is not None:
                    fx.report(st, where, "leak|%d|%s is lost: nothing refers to it any more" % (x[3], s.desc(x[3])))
                st.a = s.escape(st.a, x[0])
    def base(s, fx, k):
        t = fx.kt[fx.abase(k)]
        return t[1] if t[0] == "ssa" else None
    def deep(s, fx, k, d=0):
        """ids a pointer-like value is computed from (encoded pointers included)"""
        t = fx.kt[fx.abase(k)]
        if t[0] == "ssa": return {t[1]}
        if t[0] in ("add", "sub", "or", "and", "shl", "lshr", "ashr", "mul", "select", "sext", "zext", "trunc") and d < 8:
            r = set()
            for x in t[1:]:
                if isinstance(x, int) and x < len(fx.kt) and not (t[0] in ("sext", "zext", "trunc") and x == t[2]): r |= s.deep(fx, x, d+1)
            return r
        return set()
    def who(s, fx, st, o, exact=True, deep=False):
        """tracked resources the operand stands for"""
        if not isinstance(o, int): return []
        k = fx.key(st, o)
        sites = {x[0] for x in st.a}
        if deep:
            r = s.deep(fx, k) & sites
            if r: return sorted(r)
        b = s.base(fx, k)
        if b in sites: return [b]
        if exact: return []
        # facts lost by merging: def-use derivation
        out = []; seen = set(); w = [o]; byc = {}
        for x in st.a: byc.setdefault(x[3], []).append(x[0])
        while w:
            x = w.pop()
            if not isinstance(x, int) or x in seen: continue
            seen.add(x)
            if x in sites: out.append(x)
            out += [y for y in byc.get(x, ()) if y not in out]
            d = s.fn.defs.get(x)
            if d is None: continue
            if d.op in ("phi", "select", "bitcast", "getelementptr", "ptrtoint", "inttoptr", "zext", "sext", "trunc"): w += d.args
            elif d.op == "load":
                a = d.args[0]; a0 = a
                while isinstance(a, int) and a in s.fn.defs and s.fn.defs[a].op in ("getelementptr", "bitcast"): a = s.fn.defs[a].args[0]
                for i in s.fn.instrs():
                    if i.op == "store":
                        b = i.args[1]
                        if b == a0: w.append(i.args[0]); continue
                        while isinstance(b, int) and b in s.fn.defs and s.fn.defs[b].op in ("getelementptr", "bitcast"): b = s.fn.defs[b].args[0]
                        if b == a and i.fld == d.fld: w.append(i.args[0])
        return out
    def status(s, a, site):
        for x in a:
            if x[0] == site: return x
        return None
    def drop(s, a, site): return frozenset(x for x in a if x[0] != site)
    def put(s, a, x, status, holder, fld=""): return s.drop(a, x[0]) | {(x[0], status, holder, x[3], fld)}
    def release(s, fx, st, a, site, i, destructor):
        """destructor: the fields it releases too (None: all of them; False: only the block itself)"""
        x = s.status(a, site)
        if x[1] == "freed":
            fx.report(st, i, "double|%d|%s is released a second time" % (x[3], s.desc(x[3]))); return a
        held = [y for y in a if y[2] == site and y[1] == "live"]
        a = s.put(a, x, "freed", None)
        for y in held:
            if destructor is False: a = s.put(a, y, "live", None)
            elif destructor is None or not y[4] or y[4] in destructor: a = s.release(fx, st, a, y[0], i, destructor)
            else: a = s.put(a, y, "live", None)
        return a
    def desc(s, site):
        i = s.fn.defs[site]
        return "the result of %s (%s)" % (i.callee(), i.where())
    def escape(s, a, site):
        gone = {site}; ch = True
        while ch:
            ch = False
            for y in a:
                if y[2] in gone and y[0] not in gone: gone.add(y[0]); ch = True
        return frozenset(y for y in a if y[0] not in gone)
    def usecheck(s, fx, st, i, k, what):
        b = s.base(fx, k)
        x = s.status(st.a, b) if b is not None else None
        if x and x[1] == "freed": fx.report(st, i, "uaf|%d|%s is %s after it was released" % (x[3], s.desc(x[3]), what))
    def step(s, fx, st, i):
        if i.op == "load": s.usecheck(fx, st, i, fx.key(st, i.args[0]), "read"); return None
        if i.op == "store":
            ak = fx.key(st, i.args[1]); s.usecheck(fx, st, i, ak, "written to")
            a = st.a
            for site in s.who(fx, st, i.args[0], deep=True):
                x = s.status(a, site)
                if x[1] != "live": continue
                t = fx.kt[fx.abase(ak)]
                if t[0] == "alloca": continue
                h = s.base(fx, ak)
                hs = s.status(a, h) if h is not None else None
                if h == site: continue
                if hs is not None: a = s.put(a, x, "live", h, i.fld); continue
                if h is not None and not i.fld and fx.key(st, i.args[1]) == fx.leaf(h) and h < s.fn.nargs: s.outp = True
                if h is not None and (h < s.fn.nargs or s.fn.defs[h].op == "load" and isinstance(s.fn.defs[h].args[0], int) and s.fn.defs[h].args[0] < s.fn.nargs): s.stored = True
                a = s.escape(a, site)
            return [a] if a != st.a else None
        if i.op != "call": return None
        c = i.callee()
        a = st.a
        if c is None:                       # indirect call: arguments may be kept
            for o in i.args:
                for site in s.who(fx, st, o):
                    x = s.status(a, site)
                    if x and x[1] == "live": a = s.escape(a, site)
            return [a] if a != st.a else None
        rel = s.sm.rel.get(c, ()); kp = s.sm.keeps.get(c, ())
        if c == "realloc":
            v = fx.val(st, i.args[0]); ok = a
            old = [] if isconst(v) and v[0] == 0 else s.who(fx, st, i.args[0], False)
            moved = None
            for o in old:
                x = s.status(ok, o)
                if x[1] == "freed": s.release(fx, st, ok, o, i, False); continue
                moved = x
                ok = frozenset((y[0], y[1], "new" if y[2] == o else y[2], y[3], y[4]) for y in s.drop(ok, o))
            s.sites.add(i.id)
            def fin(z): return frozenset((y[0], y[1], i.id if y[2] == "new" else y[2], y[3], y[4]) for y in z) | {(i.id, "live", moved[2] if moved else None, i.id, moved[4] if moved else "")}
            s.acqfail(fx, st, i)
            if s.status(ok, i.id): ok = s.rename(fx, st, i, ok)
            return [Fork(fin(ok), NZ), Fork(a, const(0))]
        for q, o in enumerate(i.args):
            if q in rel:
                v = fx.val(st, o)
                if isconst(v) and v[0] in (0, -1): continue
                for site in s.who(fx, st, o, False):
                    x = s.status(a, site)
                    exact = s.base(fx, fx.key(st, o)) == site
                    if x[1] == "freed" and not exact: continue
                    if c in REL and fx.kt[fx.key(st, o)][0] == "gep": continue
                    a = s.release(fx, st, a, site, i, False if c in REL else s.sm.fields(c, q))
            elif isinstance(o, int):
                b = s.base(fx, fx.key(st, o)); x = s.status(a, b) if b is not None else None
                if x and x[1] == "freed": fx.report(st, i, "uaf|%d|%s is passed to %s after it was released" % (x[3], s.desc(x[3]), c))
                elif x and q in kp: a = s.escape(a, b)
        if c in s.sm.acq:
            kind, fail = s.sm.acq[c]; s.sites.add(i.id)
            st.a = a; s.acqfail(fx, st, i); a = st.a
            ok = a | {(i.id, "live", None, i.id, "")}
            if c == "fdopen":
                for site in s.who(fx, st, i.args[0], False): ok = s.drop(ok, site)
            return [Fork(ok, NZ if fail == 0 else ((0, None, frozenset()) if kind == "descriptor" else mk(None, None, frozenset([-1, 0])))), Fork(a, const(fail))]
        if DECLEN.match(c): return [Fork(a, (0, None, frozenset()))]
        return [a] if a != st.a else None
    def edge(s, fx, st, t, k, truth):
        """a field that holds a live resource is not null: a path that takes it for null lost the facts"""
        x = fx.kt[k]
        if x[0] == "not": truth = not truth; x = fx.kt[x[1]]
        if x[0] != "icmp" or x[1] != "eq" or truth is not True or fx.cval(x[3]) != 0: return None
        d = s.fn.defs.get(fx.kt[x[2]][1]) if fx.kt[x[2]][0] == "ssa" else None
        if d is None or d.op != "load": return None
        h = s.base(fx, fx.key(st, d.args[0]))
        a = st.a
        for site in s.who(fx, st, d.id, False):
            y = s.status(a, site)
            if y and y[1] == "live" and y[2] == h and h is not None: a = s.drop(a, site)
        return a if a != st.a else None
    def acqfail(s, fx, st, i):
        """the call is executed again: resources of the earlier round get another name"""
        s.redefine(fx, st, {i.id}, (), i)
    def rename(s, fx, st, i, ok): return s.drop(ok, i.id)
    def ret(s, fx, st, i):
        a = st.a; s.paths += 1; handed = False
        if i.args:
            for site in s.who(fx, st, i.args[0], deep=True):
                x = s.status(a, site)
                if x[1] == "freed": fx.report(st, i, "uaf|%d|%s is returned after it was released" % (x[3], s.desc(x[3])))
                else:
                    s.hands.setdefault(x[3], set()).add(any(y[2] == site for y in a)); handed = True
                    a = s.escape(a, site)
            if not handed:
                v = fx.val(st, i.args[0])
                if isconst(v): s.consts.add(v[0])
        for x in a:
            if x[1] == "live":
                fx.report(st, i, "leak|%d|%s is neither released nor handed out on this path" % (x[3], s.desc(x[3])))

def analyse(m, sm, names):
    def one(name):
        f = m.funcs[name]
        r = OwnerRule(m, f, sm)
        fx = Flow(f, r); fx.run()
        reps = []
        for d in fx.reports:
            what, site, msg = d["msg"].split("|", 2)
            i = f.defs[int(site)]
            reps.append((what, i.srcfunc(), i.callee(), i.where(), d["where"], msg, d["path"]))
        hk = {f.defs[x].callee(): v for x, v in r.hands.items()}
        return dict(name=name, sites=[(f.defs[x].callee(), f.defs[x].where()) for x in sorted(r.sites)], reps=reps, hands=hk, paths=r.paths, stored=r.stored, outp=r.outp, consts=r.consts, merged=fx.merged)
    return pmap(one, names)

def relevant(m, sm):
    return [f.name for f in m.funcs.values() if not f.file.startswith("json/") and f.name not in ACQ
            and any(c.callee() in sm.acq or sm.rel.get(c.callee()) for c in f.calls())]

def fixpoint(m, sm):
    """adds functions that hand out what they acquired to the acquiring functions"""
    done = {}; todo = None
    for rnd in range(8):
        names = relevant(m, sm)
        out = analyse(m, sm, [n for n in names if n not in done or any(c.callee() in todo for c in m.funcs[n].calls())])
        done.update((r["name"], r) for r in out)
        todo = set()
        for r in out:
            if r["hands"] and r["name"] not in sm.acq:
                cs = r["consts"]; todo.add(r["name"])
                sm.acq[r["name"]] = (sorted({sm.acq[c][0] for c in r["hands"]})[0], 0 if 0 in cs else (min(cs) if cs else sm.acq[sorted(r["hands"])[0]][1]))
        if not todo: return [done[n] for n in names]
    raise Broken("the set of acquiring functions does not stabilise")

def destructors(m):
    """loop-free functions that release their parameter and something it points to: inlined, so that what
    they release under which condition is exact"""
    sm = Summary(m); out = set()
    for f in m.funcs.values():
        if f.backedges() or not sm.rel.get(f.name) or f.file.startswith("json/") or len(list(f.instrs())) > 120: continue
        fld = False; rets = [i.bb for i in f.instrs() if i.op == "ret"]
        if not any(isinstance(c.args[q], int) and c.args[q] < f.nargs and all(f.dominates(c.bb, b) for b in rets)
                   for c in f.calls() for q in sm.rel.get(c.callee(), ())): continue
        for c in f.calls():
            for q in sm.rel.get(c.callee(), ()):
                d = f.defs.get(c.args[q]) if isinstance(c.args[q], int) else None
                if d is not None and d.op == "load" and d.fld: fld = True
        if fld: out.add(f.name)
    return out

def load(units, cfg):
    """nothing inlined, except those destructors and static functions that store what they acquire through a parameter
    (their callers see the resource only in memory)"""
    force = destructors(ir.load(units, cfg, keep="all"))
    for rnd in range(6):
        m = ir.load(units, cfg, keep="all", force=tuple(sorted(force)))
        sm = Summary(m)
        out = fixpoint(m, sm)
        more = {r["name"] for r in out if r["outp"] or r["stored"] and m.funcs[r["name"]].internal} - force
        if not more: return m, sm, out
        force |= more
    return m, sm, out

def c13(res, tier):
    res.rule("every heap block, stream, descriptor, mapping or library object acquired in a function is, on every path to a return, released exactly once, handed out as the result, or stored in an object that is; it is not used or released after its release")
    n = 0; paths = 0
    for cfg in ("main",) if tier == "quick" else ("main", "reasoner"):
        m, sm, out = load(("db", "json"), cfg)
        res.module(m); m.fn("yajl_alloc"); m.fn("yajl_free")
        for r in out:
            res.funcs.add(r["name"]); n += len(r["sites"]); paths += r["paths"]
            for c, w in r["sites"]: res.obligation(1, "%s: %s at %s" % (r["name"], c, w), kind="acquisitions (%s)" % cfg)
            for what, src, c, aw, where, msg, path in r["reps"]:
                res.violation("owner-" + what, "%s: result of %s" % (src, c), where, msg, path)
        res.samples.append("acquiring functions: %s" % sorted(sm.acq))
        res.samples.append("releasing functions: %s" % sorted(k for k, v in sm.rel.items() if v))
    res.obligation(paths, kind="return paths")
    res.notes.append("the length calls wg_decode_*_len do not fail for a value whose type was dispatched on")
    res.notes.append("resources stored in an object that outlives the call belong to that object; shared memory segments themselves (shmget) are not resources of a call")
    res.need(n, 30, "acquisitions")
