"""The Python module: reference ownership (C31) and the exception protocol (C30)."""
import re
import ir
from flow import Flow, Fork, const, isconst, excluded, TOP, mk, join
from ir import Broken
from common import pmap
from lib import NZ, WG_ILLEGAL

UNIT = ("Python/wgdbmodule.c",)
# Python API: results that are borrowed references or no objects at all
BORROWED = {"PyTuple_GetItem", "PyList_GetItem", "PyDict_GetItemString", "PyErr_Occurred", "PyModule_GetState", "PyBytes_AsString", "PyUnicode_AsUTF8", "PyUnicode_AsUTF8AndSize",
            "PyErr_SetString", "PyErr_Format", "PyErr_NoMemory", "PyImport_AddModule", "PyModule_GetDict", "PyCapsule_Import", "PySequence_Fast_GET_ITEM"}
RAISE = {"PyErr_SetString", "PyErr_Format", "PyErr_NoMemory", "PyErr_SetObject", "PyErr_SetNone", "PyErr_BadArgument"}
PARSE = {"PyArg_ParseTuple": 1, "PyArg_ParseTupleAndKeywords": 2}
# integer results with an error value: an exception is set together with it
ERRINT = {"PyLong_AsLong", "PyLong_AsLongLong", "PyLong_AsSsize_t", "PySequence_Size", "PyObject_Length", "PySequence_Length", "PyNumber_AsSsize_t", "PyObject_IsTrue", "PyObject_IsInstance"}
# library calls: which results are failures
LIB = {}
for names, k in (
    ("wg_attach_database wg_attach_existing_database wg_attach_local_database wg_attach_logged_database wg_attach_memsegment wg_create_record wg_create_raw_record "
     "wg_get_first_record wg_get_next_record wg_get_first_raw_record wg_get_next_raw_record wg_fetch wg_make_query wg_make_query_rc wg_decode_record wg_decode_date wg_get_encoded_type "
     "wg_start_write wg_start_read wg_end_write wg_end_read", "zero"),
    ("wg_delete_database wg_dump wg_import_dump wg_replay_log wg_create_index wg_drop_index", "nz"),
    ("wg_detach_database wg_get_record_len wg_delete_record wg_set_field wg_set_new_field wg_update_atomic_field", "neg"),
    ("wg_start_logging wg_stop_logging", "ltm1"),
    ("wg_get_field wg_encode_null wg_encode_record wg_encode_int wg_encode_double wg_encode_str wg_encode_uri wg_encode_xmlliteral wg_encode_blob wg_encode_char wg_encode_fixpoint "
     "wg_encode_date wg_encode_time wg_encode_var wg_encode_query_param_null wg_encode_query_param_record wg_encode_query_param_int wg_encode_query_param_double "
     "wg_encode_query_param_str wg_encode_query_param_uri wg_encode_query_param_xmlliteral wg_encode_query_param_char wg_encode_query_param_fixpoint "
     "wg_encode_query_param_date wg_encode_query_param_time wg_encode_query_param_var", "illegal")):
    for n in names.split(): LIB[n] = k
# failure codes are small numbers (they are kept in int variables)
RNG = {"zero": (const(0), NZ), "nz": ((-1000, 1000, frozenset([0])), const(0)), "neg": ((-1000, -1, frozenset()), (0, None, frozenset())), "ltm1": ((-1000, -2, frozenset()), (-1, None, frozenset())),
       "illegal": (const(WG_ILLEGAL), (None, None, frozenset([WG_ILLEGAL])))}
ALLOCS = {"malloc", "calloc"}
# library calls that may be given no database (they do not use it)
NODB = {"wg_free_query", "wg_free_query_param"}
# the character strings that must exist
TEXT = {n: 1 for n in LIB if re.match(r"wg_encode_(query_param_)?(str|uri|xmlliteral)$", n)}
# releases of what an object's field holds
FREES = {"free": 0, "wg_free_query": 1, "wg_delete_local_database": 0, "wg_detach_database": 0}
DBFLD = "wg_database.db"

DROPPED = "%s is overwritten although what it held was not released"
TOUCHED = (-1, ""); ATTACHED = (-2, "")
# these fields hold something of their own only when the count is not 0
COUNT = {"wg_query_ob.matchrec": "wg_query_ob.reclen"}

class PyRule:
    """state: (exception pending, failed call, references owned {key: count}, fields whose content was released, objects freed)"""
    def __init__(s, m, fn, kind, inv):
        s.m = m; s.fn = fn; s.kind = kind; s.sites = {}; s.rets = 0; s.convs = set(); s.out = {}; s.summ = inv.get("summ", {})
        s.handles = {i.args[0] for i in fn.instrs() if i.op == "getelementptr" and i.fld == DBFLD and isinstance(i.args[0], int) and i.args[0] < fn.nargs} if kind == "inner" else set()
        s.owned = inv["owned"]; s.types = inv["types"]; s.conv = inv["conv"]; s.dboff = inv["dboff"]; s.holdf = inv["hold"]; s.allhold = inv["allhold"]
        s.parsed = {i.id for i in fn.instrs() if i.op == "call" and i.callee() in PARSE}
    def start(s, fx):
        return [(0, None, frozenset(), frozenset(), frozenset(), frozenset())]
    def leaves(s, fx, a):
        out = set()
        for k, n in a[2]: out |= fx.kleaf[k]
        for k in a[3]: out |= fx.kleaf[k]
        for k in a[4]: out |= fx.kleaf[k]
        for k, t in a[5]:
            if k >= 0: out |= fx.kleaf[k]
        return out
    def extra_live(s, a): return s.leaves(s.fx, a) | s.parsed
    def site(s, kind, i): s.sites[kind, i.id] = i.where()
    def say(s, fx, st, i, kind, msg):
        fx.report(st, i, kind + "|" + msg)
    def name(s, fx, k):
        t = fx.kt[k]
        if t[0] == "ssa" and t[1] in fx.fn.defs:
            i = fx.fn.defs[t[1]]
            return "the object from %s (%s)" % (i.callee() or i.fld or i.op, i.where()) if i.op == "call" else "the object loaded from %s (%s)" % (i.fld or "a variable", i.where())
        if t[0] == "fcall": return "an argument"
        if t[0] == "k": return str(t[1])[:60]
        return "an object"
    @staticmethod
    def addref(refs, k, d):
        r = dict(refs); r[k] = r.get(k, 0) + d
        if not r[k]: del r[k]
        return frozenset(r.items())
    # an object reference gets a new meaning while it is still owned
    def redefine(s, fx, st, ids, keep, ins):
        a = st.a; lost = []
        for k, n in a[2]:
            if not (fx.kleaf[k] & ids): continue
            # another name carries on?
            if any(kk == k for pid, kk, v in keep): lost.append((k, n, [pid for pid, kk, v in keep if kk == k][0])); continue
            o = [q for q, kk in st.alias.items() if kk == k and q not in ids]
            if o:
                lost.append((k, n, o[0])); continue
            if n > 0: s.say(fx, st, ins, "C31:lost", "%s is never released: the reference to it is lost" % s.name(fx, k))
            lost.append((k, n, None))
        if not lost and not any(fx.kleaf[k] & ids for k in a[3] | a[4] | {x[0] for x in a[5] if x[0] >= 0}): return
        refs = dict(a[2])
        for k, n, to in lost:
            del refs[k]
            if to is not None:
                nk = fx.leaf(to)
                if st.alias.get(to) == k and to not in ids: del st.alias[to]
                refs[nk] = n
                if k in st.vals: st.vals[nk] = st.vals[k]
        for k in a[3]:
            if fx.kleaf[k] & ids: s.say(fx, st, ins, "C31:stale", "a field still refers to what was released")
        for k, t in a[5]:
            if isinstance(t, tuple) and fx.kleaf[k] & ids and fx.kval(st, k) != const(0): s.say(fx, st, ins, "C31:dropped", DROPPED % t[1])
        st.a = (a[0], a[1], frozenset(refs.items()), frozenset(k for k in a[3] if not fx.kleaf[k] & ids), frozenset(k for k in a[4] if not fx.kleaf[k] & ids), frozenset(x for x in a[5] if not x[0] >= 0 or not fx.kleaf[x[0]] & ids))
    def fieldof(s, fx, st, k, o=None):
        """address of the object field that holds the value with this key"""
        for q, (v, f) in st.mem.items():
            if v == k and fx.kt[fx.abase(q)][0] != "alloca" and f: return q, f
        d = fx.fn.defs.get(o) if isinstance(o, int) else None
        if d is not None and d.op == "load" and d.fld:
            q = fx.key(st, d.args[0])
            if fx.kt[fx.abase(q)][0] != "alloca": return q, d.fld
        return None
    def release(s, fx, st, i, o, what):
        """a reference or resource is released: one of our own, or the one a field holds"""
        exc, fail, refs, pend, freed, types = st.a
        k = fx.key(st, o)
        if what == "ref":
            r = dict(refs)
            if r.get(k, 0) > 0: st.a = (exc, fail, s.addref(refs, k, -1), pend, freed, types); return
        mv = {x for x in types if x[0] == k and isinstance(x[1], tuple)}
        if mv: st.a = (exc, fail, refs, pend, freed, types - mv); return
        f = s.fieldof(fx, st, k, o)
        if f is None:
            if what == "ref": s.say(fx, st, i, "C31:excess", "%s is released although no reference to it is owned here" % s.name(fx, k))
            return
        q, fld = f
        if q in pend: s.say(fx, st, i, "C31:double", "what %s holds is released a second time" % fld); return
        if fx.kt[fx.abase(q)] == ("ssa", 0): types = types | {TOUCHED}
        st.a = (exc, fail, refs, pend | {q}, freed, types)
    def step(s, fx, st, i):
        s.fx = fx
        a = st.a; exc, fail, refs, pend, freed, types = a
        if i.op == "load" or i.op == "store":
            o = i.args[0] if i.op == "load" else i.args[1]
            k = fx.key(st, o); b = fx.abase(k)
            if b in freed: s.say(fx, st, i, "C31:freed", "%s is used after it was freed" % s.name(fx, b))
            s.typed(fx, st, i, b)
        if i.op == "store":
            q = fx.key(st, i.args[1])
            if fx.kt[fx.abase(q)][0] == "alloca": return None
            if q in pend: pend = pend - {q}
            elif i.fld in s.allhold and fx.cval(fx.key(st, i.args[0])) == 0:
                # emptied without having released what it holds
                s.site("C31:emptied", i)
                o = st.mem.get(q); ov = fx.kval(st, o[0]) if o else TOP
                fresh = o is None and fx.own(fx.abase(q)) and fx.kt[fx.abase(q)][0] == "ssa"
                if not fresh and ov != const(0):
                    # a local variable may carry what it held
                    if o is not None and fx.kt[o[0]][0] != "k": types = types | {(o[0], ("moved", i.fld))}
                    else: s.say(fx, st, i, "C31:dropped", DROPPED % i.fld)
            if fx.kt[fx.abase(q)] == ("ssa", 0): types = types | {TOUCHED}
            v = fx.key(st, i.args[0])
            if i.fld in s.owned:
                s.site("C31:store", i)
                old = st.mem.get(q)
                if not (isconst(fx.kval(st, v)) and fx.kval(st, v)[0] == 0):
                    refs = s.addref(refs, v, -1)
            st.a = (exc, fail, refs, pend, freed, types)
            return None
        if i.op != "call": return None
        c = i.callee(); kind = None
        if c is None:
            d = fx.fn.defs.get(i.d["f"]) if isinstance(i.d["f"], int) else None
            fld = d.fld if d is not None else None
            if fld is None: raise Broken("%s: indirect call not understood" % i.where())
            if fld.endswith(".tp_alloc"): kind = "new"
            elif fld.startswith("PyDateTime_CAPI."): kind = "new"
            elif fld.endswith(".tp_free"): return s.tpfree(fx, st, i)
            else: raise Broken("%s: indirect call through %s not understood" % (i.where(), fld))
        if c is not None and re.match("_?Py", c):
            if exc and c not in RAISE and c not in ("PyErr_Occurred", "PyErr_Clear", "PyModule_GetState", "Py_INCREF", "Py_DECREF", "Py_XDECREF", "PyErr_ExceptionMatches") and i.ty == "ptr":
                s.say(fx, st, i, "C30:pending", "%s is called while an exception is pending" % c)
            for n, x in enumerate(i.args):
                if n == 0 and c not in ("Py_XDECREF", "PyErr_Clear") and (isinstance(x, int) or x[0] == "c") and i.d["at"][n] == "ptr":
                    s.site("C30:argument", i)
                    v = fx.val(st, x)
                    if isconst(v) and v[0] == 0: s.say(fx, st, i, "C30:null", "%s is given a NULL pointer" % c); return []
        if c in RAISE:
            s.site("C30:raise", i); st.a = (1, fail, refs, pend, freed, types); return None
        if c == "PyErr_Clear": st.a = (0, fail, refs, pend, freed, types); return None
        if c == "PyErr_Occurred": return [Fork(a, NZ if exc else const(0))]
        if c in PARSE:
            s.site("C30:parse", i)
            for f, opt, dst, how in parsefmt(i, PARSE[c]):
                d = fx.fn.defs.get(dst) if isinstance(dst, int) else None
                if d is None or d.op != "alloca": continue
                w = {"i": 4, "I": 4, "h": 2, "b": 1, "p": 4}.get(f[0], 8)
                if d.d.get("size", w) != w: s.say(fx, st, i, "C30:size", "%s stores a value of %d bytes (format %s) in a variable of %d" % (c, w, f, d.d["size"]))
            return [Fork((1, fail, refs, pend, freed, types), const(0)), Fork(a, NZ)]
        if c in ("Py_INCREF", "Py_XINCREF"):
            s.site("C31:take", i)
            k = fx.key(st, i.args[0]); v = fx.kval(st, k)
            if isconst(v) and v[0] == 0: return None
            st.a = (exc, fail, s.addref(refs, k, 1), pend, freed, types); return None
        if c in ("Py_DECREF", "Py_XDECREF"):
            s.site("C31:release", i)
            v = fx.val(st, i.args[0])
            if isconst(v) and v[0] == 0:
                if c == "Py_DECREF": s.say(fx, st, i, "C30:null", "Py_DECREF is given a NULL pointer")
                return None
            if c == "Py_XDECREF" and not excluded(v, 0) and fx.key(st, i.args[0]) not in dict(refs):
                # maybe NULL: both cases
                y = st.copy(); s.release(fx, y, i, i.args[0], "ref")
                return [Fork(a, const(0), fx.key(st, i.args[0])), Fork(y.a, NZ, fx.key(st, i.args[0]))]
            s.release(fx, st, i, i.args[0], "ref"); return None
        if c == "PyType_IsSubtype" and isinstance(i.args[1], list) and i.args[1][1] in s.types:
            o = s.typeof(fx, st, fx.key(st, i.args[0]))
            if o is not None: return [Fork(a, const(0)), Fork(a[:5] + (types | {(o, s.types[i.args[1][1]])},), NZ)]
        if c in ERRINT:
            s.site("C30:convert", i)
            return [Fork((1, fail, refs, pend, freed, types), const(-1)), Fork(a, TOP if c.startswith(("PyLong", "PyNumber")) else (0, 0x7fffffff, frozenset()))]
        if kind == "new" or c is not None and re.match("_?Py", c) and i.ty == "ptr" and c not in BORROWED:
            s.site("C31:new", i)
            k = fx.leaf(i.id)
            s.redefine(fx, st, {i.id}, (), i)
            exc, fail, refs, pend, freed, types = st.a
            return [Fork((1, fail, refs, pend, freed, types), const(0)), Fork((exc, fail, s.addref(refs, k, 1), pend, freed, types), NZ)]
        if c in s.summ:
            s.site("C30:handle", i)
            for n in s.summ[c]["handles"]:
                v = s.handle(fx, st, i.args[n])
                if v is None or not excluded(v, 0): s.say(fx, st, i, "C30:handle", "%s is called although the database handle may be NULL" % c)
            for n in s.summ[c]["objects"]:
                v = fx.val(st, i.args[n])
                if isconst(v) and v[0] == 0: s.say(fx, st, i, "C30:null", "%s is given no object" % c)
            return [Fork((1 if e else exc, fail or ((c, i.where()) if f else None), refs, pend, freed, types), v) for (e, f), v in s.summ[c]["out"].items()]
        if c == "PyBytes_AsString" and excluded(fx.val(st, i.args[0]), 0): return [Fork(a, NZ)]
        if c in ALLOCS:
            return [Fork((exc, fail or (c, i.where()), refs, pend, freed, types), const(0)), Fork(a, NZ)]
        if c is not None and c.startswith("wg_") and i.args and c not in NODB and i.d["at"][0] == "ptr" and not c.startswith("wg_attach_") and c != "wg_delete_database":
            s.site("C30:handle", i)
            v = fx.val(st, i.args[0])
            if not excluded(v, 0): s.say(fx, st, i, "C30:handle", "%s is called although the database handle may be NULL" % c)
        if c in TEXT:
            v = fx.val(st, i.args[TEXT[c]])
            if isconst(v) and v[0] == 0: s.say(fx, st, i, "C30:null", "%s is given no string" % c)
        if c in FREES:
            s.site("C31:release", i)
            # (a failed detach has not released anything)
            y = st.copy(); s.release(fx, y, i, i.args[FREES[c]], "res"); ya = y.a
            if c in LIB:
                f, ok = RNG[LIB[c]]
                if s.kind != "dealloc": return [Fork((exc, fail or (c, i.where()), refs, pend, freed, types), f), Fork(ya, ok)]
            st.a = ya; return None
        if c in LIB:
            s.site("C30:library", i)
            f, ok = RNG[LIB[c]]
            return [Fork((exc, fail or (c, i.where()), refs, pend, freed, types), f), Fork(a, ok)]
        return None
    def handle(s, fx, st, o):
        """value of the database handle in the wg_database the operand stands for"""
        k = fx.key(st, o)
        for q, (v, f) in st.mem.items():
            if f == DBFLD and fx.abase(q) == k: return fx.kval(st, v)
        return None
    def typed(s, fx, st, i, b):
        """an object is accessed as the type it was checked for"""
        sn = (i.fld or "").split(".")[0]
        if sn not in s.types.values() or s.kind == "dealloc" and fx.kt[b] == ("ssa", 0): return
        t = fx.kt[b]
        if fx.fn.args and t == ("ssa", 0) and s.kind in ("object", "status", "dealloc"): return
        if s.kind == "inner" and t[0] == "ssa" and t[1] in s.handles and sn == DBFLD.split(".")[0]: return
        s.site("C30:typed", i)
        if t[0] == "ssa" and t[1] in fx.fn.defs:
            d = fx.fn.defs[t[1]]
            if d.op == "call" and d.callee() is None: ty = s.types.get(d.args[0][1]) if isinstance(d.args[0], list) else None
            else: ty = None
        else: ty = fx.ptype.get(b)
        if ty != sn and (b, sn) not in st.a[5] and s.fieldtype(fx, st, b) != sn:
            s.say(fx, st, i, "C30:type", "%s is accessed as a %s%s" % (s.name(fx, b), sn, " although it was checked to be a %s" % ty if ty else " without having been checked to be one"))
    def fieldtype(s, fx, st, b):
        """objects held in fields of the module's own objects"""
        t = fx.kt[b]
        if t[0] == "ssa" and t[1] in fx.fn.defs and fx.fn.defs[t[1]].op == "load" and fx.fn.defs[t[1]].fld in s.owned: return DBFLD.split(".")[0]
        return None
    def tpfree(s, fx, st, i):
        exc, fail, refs, pend, freed, types = st.a
        s.site("C31:free", i)
        k = fx.key(st, i.args[0])
        own = dict(refs).get(k, 0)
        if not own and not (s.kind == "dealloc" and fx.kt[k] == ("ssa", 0)):
            s.say(fx, st, i, "C31:excess", "%s is freed although it is not owned here" % s.name(fx, k))
        if k in freed: s.say(fx, st, i, "C31:double", "%s is freed twice" % s.name(fx, k))
        # what the object's fields hold must have been released or never been there
        if s.kind == "dealloc" and fx.kt[k] == ("ssa", 0):
            s.holds(fx, st, i, k, pend)
        else:
            for q, (v, f) in st.mem.items():
                if fx.abase(q) == k and q not in pend and (f in s.owned or f == DBFLD or s.block(fx, v)) and excluded(fx.kval(st, v), 0):
                    s.say(fx, st, i, "C31:drop", "%s is freed while its %s still holds something" % (s.name(fx, k), f))
        r = dict(refs); r.pop(k, None)
        # what it holds goes with it
        st.a = (exc, fail, frozenset(r.items()), frozenset(q for q in pend if fx.abase(q) != k), freed | {k}, types)
        return None
    def block(s, fx, v):
        t = fx.kt[v]; d = fx.fn.defs.get(t[1]) if t[0] == "ssa" else None
        return d is not None and d.op == "call" and (d.callee() in ALLOCS or d.callee() == "wg_make_query")
    def holds(s, fx, st, i, k, pend):
        """the destructor: every field that can hold a resource was released, or is empty"""
        types = st.a[5]
        def known(f):
            for q, (v, g) in st.mem.items():
                if g == f and fx.abase(q) == k: return q, fx.kval(st, v)
            return None, TOP
        z = {f: known(f) for f in s.holdf}
        for f in sorted(s.holdf):
            q, v = z[f]
            s.sites["C31:field " + f, i.id] = i.where()
            if q in pend or isconst(v) and v[0] == 0: continue
            if f in COUNT and known(COUNT[f])[1] == const(0): continue
            # a field of the object says that it holds nothing at all
            if TOUCHED not in types and any(isconst(y[1]) and y[1][0] == 0 for y in z.values()): continue
            s.say(fx, st, i, "C31:held", "the object is freed while its %s can still hold something" % f)
    def ret(s, fx, st, i):
        s.rets += 1
        exc, fail, refs, pend, freed, types = st.a
        refs = dict(refs)
        for q in pend:
            t = [f for a, (v, f) in st.mem.items() if a == q]
            s.say(fx, st, i, "C31:stale", "%s still refers to what was released" % (t[0] if t else "a field"))
        for k, t in types:
            if isinstance(t, tuple) and fx.kval(st, k) != const(0): s.say(fx, st, i, "C31:dropped", DROPPED % t[1])
        if s.kind == "object":
            v = fx.val(st, i.args[0]); k = fx.key(st, i.args[0])
            if isconst(v) and v[0] == 0:
                if not exc: s.say(fx, st, i, "C30:silent", "NULL is returned without an exception")
            else:
                if not excluded(v, 0): s.say(fx, st, i, "C30:maybe", "the result can be NULL without an exception")
                if exc: s.say(fx, st, i, "C30:both", "an object is returned while an exception is pending")
                if fail: s.say(fx, st, i, "C30:hidden", "the failure of %s (%s) is not reported: an object is returned" % fail)
                n = refs.get(k, 0)
                if n < 1: s.say(fx, st, i, "C31:borrowed", "%s is returned without a reference of its own" % s.name(fx, k))
                if k in freed: s.say(fx, st, i, "C31:freed", "%s is returned after it was freed" % s.name(fx, k))
                if n: refs[k] = n - 1
        elif s.kind == "inner":
            v = fx.val(st, i.args[0]); f = bool(fail) or s.fn.ret == "i64" and v == const(WG_ILLEGAL) and not exc
            e = (exc, f)
            s.out[e] = join(s.out[e], v) if e in s.out else v
        elif s.kind in ("status", "convert"):
            v = fx.val(st, i.args[0])
            bad = (lambda x: isconst(x) and x[0] == -1 or (x[1] is not None and x[1] < 0)) if s.kind == "status" else (lambda x: isconst(x) and x[0] == 0)
            if bad(v):
                if not exc: s.say(fx, st, i, "C30:silent", "failure is returned without an exception")
            else:
                if exc: s.say(fx, st, i, "C30:both", "success is returned while an exception is pending")
                if s.kind == "convert":
                    if ATTACHED not in types: s.say(fx, st, i, "C30:handle", "an object is accepted without knowing that it is attached to a database")
                    if not s.checked(fx, st): s.say(fx, st, i, "C30:type", "an object is accepted without knowing that it is a wgdb.Database")
        for k, n in refs.items():
            if n > 0: s.say(fx, st, i, "C31:leak", "%s is not released: %d reference%s too many" % (s.name(fx, k), n, "" if n == 1 else "s"))
            elif n < 0: s.say(fx, st, i, "C31:nostake", "%s is kept in an object without a reference of its own" % s.name(fx, k))
    def checked(s, fx, st):
        return any(t == DBFLD.split(".")[0] and fx.kt[k] == ("ssa", 0) for k, t in st.a[5] if k >= 0)
    def edge(s, fx, st, t, k, truth):
        """obj->ob_type == &type"""
        if not isinstance(truth, bool): return None
        if s.kind == "convert" and any(f == DBFLD and fx.kt[fx.abase(q)] == ("ssa", 0) and excluded(fx.kval(st, v), 0) for q, (v, f) in st.mem.items()):
            st.a = st.a[:5] + (st.a[5] | {ATTACHED},); 
        x = fx.kt[k]
        while x[0] == "not": truth = not truth; x = fx.kt[x[1]]
        if x[0] != "icmp" or x[1] != "eq" or not truth: return None
        for p, q in ((x[2], x[3]), (x[3], x[2])):
            g = fx.kt[q]
            if g[0] != "k": continue
            for n, ty in s.types.items():
                if "'%s'" % n in str(g[1]) and s.typeof(fx, st, p) is not None: return st.a[:5] + (st.a[5] | {(s.typeof(fx, st, p), ty)},)
        return st.a
    def typeof(s, fx, st, k):
        """the object whose ob_type this is"""
        for q, (v, f) in st.mem.items():
            if v == k and f == "_object.ob_type": return fx.abase(q)
        return None

class PyFlow(Flow):
    def enter(s, st, p, b):
        if p < 0:
            for n in s.rule.handles:
                k = s.leaf(n); q = s.intern(("gep", k, s.rule.dboff, ()), s.kleaf[k]); h = s.intern(("fcall", "handle", k), s.kleaf[k])
                st.mem[q] = (h, DBFLD); st.vals[h] = NZ
        return Flow.enter(s, st, p, b)
    """after PyArg_Parse* the arguments the format asks for exist"""
    def may_alias(s, k1, f1, k2, f2):
        """addresses of local variables are handed to calls only, never kept: nothing else points to them"""
        b1 = s.abase(k1); b2 = s.abase(k2)
        if b1 != b2 and ("alloca" in (s.kt[b1][0], s.kt[b2][0])): return False
        if b1 != b2 and s.own(b1) and s.own(b2): return False
        return Flow.may_alias(s, k1, f1, k2, f2)
    def own(s, b):
        """a block of its own: just allocated, an argument, a global"""
        t = s.kt[b]
        if t[0] == "k" or t[0] == "fcall" and t[1] == "parsed": return True
        d = s.fn.defs.get(t[1]) if t[0] == "ssa" else None
        return d is not None and d.op == "call" and (d.callee() in ALLOCS or d.callee() is None)
    def exec(s, st, i):
        if i.op == "store" and isinstance(i.args[0], int) and s.kt[s.abase(s.key(st, i.args[0]))][0] == "alloca": raise Broken("%s: the address of a local variable is stored" % i.where())
        save = None
        if i.op == "call" and (i.callee() or "").startswith("llvm.mem") and s.own(s.abase(s.key(st, i.args[0]))):
            b = s.abase(s.key(st, i.args[0])); save = {k: x for k, x in st.mem.items() if s.abase(k) != b and s.own(s.abase(k))}
        Flow.exec(s, st, i)
        if save: st.mem.update(save)
        if i.op == "call" and i.callee() in PARSE:
            for n, (f, opt, dst, how) in enumerate(parsefmt(i, PARSE[i.callee()])):
                ak = s.key(st, dst)
                if f[0] not in "Osz" or opt: continue
                k = s.intern(("fcall", "parsed", s.kconst(i.id), s.kconst(n)), frozenset([i.id]))
                st.mem[ak] = (k, None); st.vals[k] = NZ
                if f == "O!": s.ptype[k] = s.rule.types.get(how[1] if isinstance(how, list) else None)
                if f == "O&" and isinstance(how, list) and how[0] in ("f", "fp"):
                    s.rule.convs.add(how[1])
                    t = s.rule.conv(how[1])
                    s.ptype[k] = t
                    if t == DBFLD.split(".")[0]:
                        q = s.intern(("gep", k, s.rule.dboff, ()), s.kleaf[k])
                        h = s.intern(("fcall", "handle", k), s.kleaf[k])
                        st.mem[q] = (h, DBFLD); st.vals[h] = NZ

def parsefmt(i, k):
    f = i.args[k]
    if not (isinstance(f, list) and f[0] == "s"): raise Broken("%s: the argument format is not a constant" % i.where())
    fmt = f[1]; n = k + (2 if k == 2 else 1); opt = False; out = []; p = 0
    while p < len(fmt):
        ch = fmt[p]; p += 1
        if ch == "|": opt = True; continue
        if ch in ":;": break
        if ch == "$": continue
        if ch == "O" and p < len(fmt) and fmt[p] in "!&":
            out.append((ch + fmt[p], opt, i.args[n+1], i.args[n])); n += 2; p += 1
        elif ch in "OsnilKkdLbHIpzUSy":
            if p < len(fmt) and fmt[p] in "#*": raise Broken("%s: argument format %s not understood" % (i.where(), fmt))
            out.append((ch, opt, i.args[n], None)); n += 1
        else: raise Broken("%s: argument format %s not understood" % (i.where(), fmt))
    if n != len(i.args): raise Broken("%s: the argument format %s and the arguments do not fit" % (i.where(), fmt))
    return out

def inventory(m):
    types = {}; owned = set(); hold = {}; dboff = None; convs = set()
    for f in [m.fn(n) for n in m.funcs if not n.startswith(("Py_", "_Py"))]:
        byid = {}
        for i in f.instrs():
            if i.op == "call" and i.callee() is None and isinstance(i.args[0], list) and i.args[0][0] == "g": byid[i.id] = i.args[0][1]
            if i.op == "getelementptr" and i.fld == DBFLD and i.d.get("off"): dboff = i.d["off"]
            if i.op == "call" and i.callee() in PARSE:
                for x in parsefmt(i, PARSE[i.callee()]):
                    if x[0] == "O&": convs.add(x[3][1])
            if i.op == "call" and i.callee() in ("Py_DECREF", "Py_XDECREF"):
                d = f.defs.get(i.args[0]) if isinstance(i.args[0], int) else None
                if d is not None and d.op == "load" and (d.fld or "").startswith("wg_"): owned.add(d.fld)
        for i in f.instrs():
            if i.op == "getelementptr" and isinstance(i.args[0], int) and i.args[0] in byid and i.fld: types.setdefault(byid[i.args[0]], i.fld.split(".")[0])
            if i.op == "store" and i.fld and isinstance(i.args[0], int):
                d = f.defs.get(i.args[0])
                if d is not None and d.op == "call" and ((d.callee() or "").startswith("wg_attach_") or d.callee() in ("wg_make_query",) or d.callee() in ALLOCS): hold.setdefault(i.fld.split(".")[0], set()).add(i.fld)
    for x in owned: hold.setdefault(x.split(".")[0], set()).add(x)
    return dict(types=types, owned=owned, hold=hold, allhold=set().union(*hold.values()) if hold else set(), dboff=dboff, convs=convs)

def kinds(m, inv):
    """what the results of the module's functions mean"""
    out = {}
    for n, f in m.funcs.items():
        if n.startswith(("Py_", "_Py", "PyInit", "PyObject_")): continue
        f = m.fn(n)
        if n in m.inner: out[n] = "inner"
        elif f.ret == "ptr": out[n] = "object"
        elif f.ret == "void": out[n] = "dealloc"
        elif f.ret == "i32": out[n] = "convert" if n in inv["convs"] else "status"
    return out

def analyse(m):
    inv = inventory(m)
    if not inv["types"] or inv["dboff"] is None: raise Broken("the object types of the module were not found")
    names = set()
    for n in m.funcs:
        for i in m.fn(n).instrs():
            if i.op == "call": names.add(i.callee())
    ks = kinds(m, inv)
    inv["conv"] = lambda n: DBFLD.split(".")[0] if ks.get(n) == "convert" else None
    inv["summ"] = {}
    def one(n):
        f = m.fn(n)
        v = dict(inv); pre = None
        if ks[n] == "dealloc":
            g = {i.fld.split(".")[0] for i in f.instrs() if i.fld and i.fld.startswith("wg_") and i.op == "getelementptr" and i.args[0] == 0}
            if len(g) != 1: raise Broken("%s: the type of the object is not clear" % n)
            v["hold"] = inv["hold"].get(g.pop(), set())
        else: v["hold"] = set()
        r = PyRule(m, f, ks[n], v)
        fx = PyFlow(f, r, pure=names - set(PARSE)); fx.ptype = {}; r.fx = fx
        if r.parsed: fx.U = [u | r.parsed for u in fx.U]
        fx.run()
        sm = None
        if ks[n] == "inner":
            der = {i.args[0] for i in f.instrs() if i.op in ("load", "getelementptr") and isinstance(i.args[0], int)} | {a for i in f.instrs() if i.op == "call" for a in i.args if isinstance(a, int)}
            sm = dict(out=r.out, handles=sorted(r.handles), objects=[k for k in range(f.nargs) if f.args[k][1] == "ptr" and k in der])
        return n, sorted((k, w) for (k, i), w in r.sites.items()), r.rets, [(d["msg"], d["where"], d["path"], d["ins"].srcfunc() if d["ins"] is not None else n) for d in fx.reports], sm
    # functions that are analysed on their own come first, callees before callers
    todo = [n for n in ks if ks[n] == "inner"]; out = []
    while todo:
        r = [n for n in todo if not any(i.callee() in todo for i in m.fn(n).calls())]
        if not r: raise Broken("recursion between %s" % ", ".join(sorted(todo)))
        for n in r:
            x = one(n); inv["summ"][n] = x[4]; out.append(x); todo.remove(n)
    return out + pmap(one, sorted(n for n in ks if ks[n] != "inner")), ks, inv

def report(res, which, m, keys):
    res.module(m)
    rs, ks, inv = analyse(m)
    n = 0
    for name, sites, rets, reps, sm in rs:
        res.funcs.add(name)
        for k, w in sites:
            if k.startswith(which): res.obligation(1, "%s: %s at %s" % (name, k[4:], w), kind=k[4:].split(" ")[0]); n += 1
        if rets: res.obligation(rets, "%s: %d ends of paths (%s)" % (name, rets, ks[name]), kind="path ends"); n += 1
        for msg, where, path, src in reps:
            k, msg = msg.split("|", 1)
            if k.startswith(which): res.violation(k[4:], "%s: %s" % (src, re.sub(r" \([^()]*:\d+\)", "", msg)), where, "%s (in %s)" % (msg, name), path)
    res.need(len(rs), 30, "functions of the module")
    return n

KEEP = ("Py_INCREF", "Py_DECREF", "Py_XDECREF")
def load():
    """large helpers that one function uses several times are analysed on their own"""
    raw = ir.load(UNIT, "main", keep="all", extra_keep=KEEP)
    size = {}
    def sz(n, seen=()):
        if n not in raw.funcs or n in seen: return 1
        if n not in size: size[n] = sum(sz(i.callee(), seen + (n,)) if i.op == "call" else 1 for i in raw.fn(n).instrs())
        return size[n]
    inner = set()
    for n in raw.funcs:
        cnt = {}
        def walk(f, d=0):
            for i in raw.fn(f).calls():
                if i.callee() in raw.funcs and d < 8: cnt[i.callee()] = cnt.get(i.callee(), 0) + 1; walk(i.callee(), d+1)
        walk(n)
        inner |= {c for c, k in cnt.items() if k > 1 and sz(c) >= 300}
    # the outermost of them only
    for c in sorted(inner):
        if any(c != o and c in reach(raw, o) for o in inner): inner.discard(c)
    m = ir.load(UNIT, "main", extra_keep=KEEP + tuple(sorted(inner)))
    m.inner = inner
    return m

def reach(m, n, seen=None):
    seen = set() if seen is None else seen
    for i in m.fn(n).calls():
        c = i.callee()
        if c in m.funcs and c not in seen: seen.add(c); reach(m, c, seen)
    return seen

def c31(res, tier):
    res.rule("every reference the module obtains is returned, kept in an object or released exactly once on every path; none is returned or released that it does not own; what an object's field held is not released without emptying the field; a destructor releases every field")
    m = load()
    n = report(res, "C31", m, None)
    res.need(n, 80, "reference operations")

def c30(res, tier):
    res.rule("on every path NULL is returned exactly when an exception is set, no failure of a library call is followed by an ordinary result, no NULL pointer reaches the Python API, and library functions are only called with the handle of an attached database of a checked type")
    m = load()
    n = report(res, "C30", m, None)
    res.need(n, 200, "calls and results")
