"""C15: public calls verify the database pointer and field numbers."""
import ir
from flow import Flow, const, nonzero, isconst, excluded
from ir import Broken
from common import pmap

MAGIC = 1232319011

class DbRule:
    """no access to the segment before the magic mark of its header was verified"""
    def __init__(s, fn, unsafe, guarded=()):
        s.fn = fn; s.unsafe = unsafe; s.guarded = guarded; s.deleg = {}
        s.calls = {i.id for i in fn.calls() if i.callee() in guarded}
        s.S = {i.id for i in fn.instrs() if i.op == "load" and i.fld == "db_handle.db"}
        s.magic = set(); s.acc = 0
        s.recs = {n for n, a in enumerate(fn.args) if a[0] in ("record", "rec", "parent") and a[1] == "ptr"}
    def start(s, fx): return [0]
    def extra_live(s, a): return s.magic | s.calls
    def onseg(s, fx, k, o):
        b = fx.abase(k); t = fx.kt[b]
        if t[0] != "ssa" or t[1] not in s.S: return False
        # db + (private - db): an offset of private memory
        return not s.private(o)
    def private(s, o):
        seen = set(); st = [o]
        while st:
            x = st.pop()
            if not isinstance(x, int) or x in seen: continue
            seen.add(x); d = s.fn.defs.get(x)
            if d is None: continue
            if d.op == "call":
                if d.callee() in ("malloc", "calloc"): return True
            elif d.op != "load": st += d.args
        return False
    def onrec(s, fx, k):
        t = fx.kt[fx.abase(k)]
        return t[0] == "ssa" and t[1] in s.recs
    def step(s, fx, st, i):
        if st.a: return None
        if i.op in ("load", "store", "cmpxchg", "atomicrmw"):
            ak = fx.key(st, i.args[1] if i.op == "store" else i.args[0])
            if s.onseg(fx, ak, i.args[1] if i.op == "store" else i.args[0]):
                t = fx.kt[ak]
                if i.op == "load" and t[0] == "ssa" and i.ty == "i32": s.magic.add(i.id); return None
                if i.op == "load" and i.fld.endswith(".mark"): s.magic.add(i.id); return None
                s.acc += 1
                fx.report(st, i, "accesses the database before the database pointer has been verified")
            elif s.onrec(fx, ak):
                s.acc += 1
                fx.report(st, i, "accesses the record before the database pointer has been verified")
        elif i.op == "call":
            c = i.callee()
            if c in s.guarded and i.args and fx.key(st, i.args[0]) == fx.leaf(0): s.deleg[i.id] = c
            if c in s.unsafe and i.args and fx.key(st, i.args[0]) == fx.leaf(0):
                s.acc += 1
                fx.report(st, i, "passes the database pointer to %s, which uses it unchecked, before it has been verified" % c)
        return None
    def edge(s, fx, st, i, k, truth):
        if st.a: return None
        for l in s.magic:
            a = st.alias.get(l)
            v = fx.kval(st, a if a is not None else fx.leaf(l))
            if isconst(v) and v[0] == MAGIC: return 1
        for l, c in s.deleg.items():
            # a call that verifies the pointer itself and whose result says it succeeded
            v = fx.kval(st, fx.leaf(l))
            if s.guarded[c] == "ptr" and nonzero(v): return 1
            if s.guarded[c] == "len" and v[0] is not None and v[0] >= 0: return 1
        return None
    def ret(s, fx, st, i): pass

def evalk(fx, k, env):
    """concrete value of a canonical expression (None when it has other inputs)"""
    t = fx.kt[k]; op = t[0]
    if op == "c": return t[1]
    if k in env: return env[k]
    if op in ("and", "or", "xor", "add", "sub", "mul", "ashr", "lshr", "shl", "sdiv", "udiv"):
        a = evalk(fx, t[1], env); b = evalk(fx, t[2], env)
        if a is None or b is None: return None
        return {"and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b, "add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b,
                "ashr": lambda: a >> b, "lshr": lambda: a >> b, "shl": lambda: a << b, "sdiv": lambda: a // b if b else None, "udiv": lambda: a // b if b else None}[op]()
    if op in ("sext", "zext", "trunc"): return evalk(fx, t[1], env)
    return None

class FieldRule:
    """a field slot is accessed only where 0 <= fieldnr < record length is established"""
    H = 3   # header words of a record
    def __init__(s, fn, frec, ffld):
        s.fn = fn; s.rec = frec; s.fld = ffld; s.n = set()
        s.hdr = {i.id for i in fn.instrs() if i.op == "load"}
    def start(s, fx): return [0]
    def extra_live(s, a): return s.hl
    hl = ()
    def step(s, fx, st, i):
        if i.op not in ("load", "store", "cmpxchg", "atomicrmw"):
            if i.op == "call" and i.callee() == "wg_compare_and_swap": ak = fx.key(st, i.args[0])
            else: return None
        else: ak = fx.key(st, i.args[1] if i.op == "store" else i.args[0])
        t = fx.kt[ak]
        if t[0] != "gep" or fx.abase(ak) != fx.leaf(s.rec): return None
        if i.op == "load" and not t[3] and t[2] == 0: return None
        if not any(s.fld in fx.kleaf[x] for x, _ in t[3]): return None
        s.n.add(i.id)
        if st.a: return None
        if not s.proved(fx, st, s.fld): fx.report(st, i, "accesses field number '%s' of the record although it has not been checked against 0 and the record length on this path" % fx.fn.args[s.fld][0])
        return None
    def edge(s, fx, st, i, k, truth):
        # neither the record's length nor the argument changes, so the fact stays
        return 1 if not st.a and s.proved(fx, st, s.fld) else None
    def lenval(s, fx, k, n):
        """value of expression k when the record has n fields, if k is the record's length or its word count"""
        t = fx.kt[k]
        env = {}
        def coll(k):
            t = fx.kt[k]
            if t[0] == "ssa" and t[1] in fx.fn.defs:
                d = fx.fn.defs[t[1]]
                if d.op == "load" and s.isrec(fx, d.args[0]): env[k] = ((n + s.H) * 8) | 2
            if t[0] == "fcall" and t[1] == "wg_get_record_len" and fx.kt[t[3]] == ("ssa", s.rec): env[k] = n
            if t[0] in ("and", "or", "xor", "add", "sub", "mul", "ashr", "lshr", "shl", "sdiv", "udiv"): coll(t[1]); coll(t[2])
            if t[0] in ("sext", "zext", "trunc"): coll(t[1])
        coll(k)
        if not env: return None
        return evalk(fx, k, env)
    def isrec(s, fx, o):
        while isinstance(o, int) and o in fx.fn.defs and fx.fn.defs[o].op == "bitcast": o = fx.fn.defs[o].args[0]
        return o == s.rec
    def proved(s, fx, st, f):
        v = fx.kval(st, fx.leaf(f))
        if v[0] is None or v[0] < 0: return False
        for k, val in st.vals.items():
            t = fx.kt[k]
            if t[0] != "icmp" or not isconst(val) or f not in fx.kleaf[k]: continue
            a, b = t[2], t[3]
            ok = True; seen = 0
            for n in (0, 1, 5, 100):
                xa = s.side(fx, a, n); xb = s.side(fx, b, n)
                if xa is None or xb is None: ok = False; break
                # fieldnr values that satisfy the fact must all be < n
                for fv in (n, n+1, n+2, n+3, n+4, n+50):
                    av = xa(fv); bv = xb(fv)
                    if av is None or bv is None: ok = False; break
                    if t[1] in ("slt", "ult"): r = av < bv
                    elif t[1] == "eq": r = av == bv
                    else: ok = False; break
                    if r == bool(val[0]): ok = False; break
                if not ok: break
                seen += 1
            if ok and seen: return True
        return False
    def side(s, fx, k, n):
        l = s.lenval(fx, k, n)
        if l is not None: return lambda fv: l
        if s.fld in fx.kleaf[k]: return lambda fv: evalk(fx, k, {fx.leaf(s.fld): fv})
        c = fx.cval(k)
        if c is not None: return lambda fv: c
        return None
    def ret(s, fx, st, i): pass

def api_functions():
    """names declared in the public headers with a database handle as first argument"""
    import re, os
    out = set()
    for h in ("Db/dbapi.h", "Db/indexapi.h"):
        p = os.path.join(ir.REPO, h)
        if not os.path.exists(p): raise Broken(h + " not found")
        t = open(p).read()
        t = re.sub(r"/\*.*?\*/", "", t, flags=re.S)
        for x in re.finditer(r"\b(wg_\w+)\s*\(\s*void\s*\*\s*(db|dbase)\b", t): out.add(x.group(1))
    return out

# outside the property: no error result (size queries, printing), or operations on
# segments that are only being set up, dumped or journaled
EXEMPT = {"wg_database_freesize", "wg_database_size", "wg_print_db", "wg_print_record", "wg_snprint_value", "wg_dump", "wg_import_dump",
  "wg_register_external_db", "wg_replay_log", "wg_start_logging", "wg_stop_logging", "wg_import_db_csv", "wg_get_rec_owner",
  "wg_drop_index", "wg_get_index_template", "wg_get_all_indexes", "wg_column_to_index_id", "wg_multi_column_to_index_id", "wg_get_index_type"}
# results that are only given for a verified pointer
GUARD = {"wg_create_raw_record": "ptr", "wg_get_first_record": "ptr", "wg_get_next_record": "ptr", "wg_create_record": "ptr", "wg_get_record_len": "len",
  "wg_get_record_dataarray": "ptr", "wg_get_first_parent": "ptr", "wg_get_next_parent": "ptr"}

def c15(res, tier):
    m = ir.load(("db", "json"), "main"); res.module(m)
    fns = [f.name for f in m.funcs.values() if f.args and f.args[0][0] in ("db", "dbase") and f.args[0][1] == "ptr" and f.file.startswith("Db/")]
    unsafe = set(); reps = {}; todo = fns; info = {}
    while todo:
        def one(n):
            f = m.funcs[n]; r = DbRule(f, unsafe, {g: k for g, k in GUARD.items() if g not in unsafe}); fx = Flow(f, r); fx.MAXST = 12; fx.run()
            return n, [(d["where"], d["msg"], d["path"]) for d in fx.reports], len(r.magic)
        new = set()
        for n, rep, k in pmap(one, todo):
            info[n] = k
            if rep: reps[n] = rep; new.add(n)
        new -= unsafe; unsafe |= new
        todo = [f for f in fns if f not in unsafe and any(c.callee() in new for c in m.funcs[f].calls())]
    api = api_functions()
    # plus what today checks although it is not in the public headers
    n = 0
    res.rule("no public record, field, value, traversal, locking, index, query or JSON call accesses the segment or a record, or hands the database pointer to a function that does, before the magic mark of the segment header was compared (itself or by a callee whose result shows it succeeded)")
    for f in sorted(api & set(fns)):
        if f in EXEMPT: continue
        n += 1; res.funcs.add(f); res.obligation(1, "%s verifies its database pointer%s" % (f, "" if info[f] else " (by delegation, or it does not access the segment)"), kind="database pointer")
        for where, msg, path in reps.get(f, [])[:1]:
            res.violation("db-verified", f, where, "%s: %s" % (f, msg), path)
    res.need(n, 100, "public calls with a database argument")
    # field numbers
    res.rule("every public call with a record and a field number accesses the record's slot of that number only where 0 <= number < record length is established (decided by evaluating the established comparisons for record lengths 0, 1, 5, 100)")
    fl = []
    for f in m.funcs.values():
        names = [a[0] for a in f.args]
        if f.name in api and "fieldnr" in names and any(x in names for x in ("record", "rec")):
            fl.append((f.name, names.index("record") if "record" in names else names.index("rec"), names.index("fieldnr")))
    def two(x):
        f = m.funcs[x[0]]; r = FieldRule(f, x[1], x[2]); 
        r.hl = frozenset(i.id for i in f.instrs() if i.op == "load" and r.isrec(type("F", (), {"fn": f})(), i.args[0]))
        fx = Flow(f, r); fx.run()
        return x[0], [(d["where"], d["msg"], d["path"]) for d in fx.reports], len(r.n)
    tot = 0
    for name, rep, k in pmap(two, fl):
        res.funcs.add(name); tot += k; res.obligation(k, "%s: %d slot accesses" % (name, k), kind="field slot accesses")
        for where, msg, path in rep: res.violation("field-in-range", name, where, "%s: %s" % (name, msg), path)
    for need in ("wg_get_field", "wg_get_field_type", "wg_set_field", "wg_set_new_field", "wg_update_atomic_field", "wg_set_atomic_field", "wg_add_int_atomic_field"):
        if need not in [x[0] for x in fl]: raise Broken("no field access analysed in " + need)
    res.need(tot, 5, "field slot accesses")
    res.notes.append("the record pointer itself is trusted (the API takes raw pointers)")
