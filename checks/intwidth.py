"""C22: integers keep their full width on the way between the database and every other layer."""
import re
import ir
from flow import Flow, isconst, empty, excluded
from ir import Broken

ENC = {"wg_encode_int": 1, "wg_encode_query_param_int": 1, "wg_set_int_field": 3}
IMPORT = re.compile(r"^(wg_parse_and_encode(_param)?|wg_import_.*|wg_parse_json_.*|elem_integer_cb|isint_cb|wgdb_.*)$")
CONV = {"strtol", "strtoll", "__isoc23_strtol", "__isoc23_strtoll", "atol", "atoll", "PyLong_AsLong", "PyLong_AsLongLong", "PyLong_AsSsize_t", "PyInt_AsLong", "wg_decode_int"}
TEXT = {"strtol", "strtoll", "__isoc23_strtol", "__isoc23_strtoll", "atol", "atoll"}

def bits(t): return int(t[1:]) if t[:1] == "i" and t[1:].isdigit() else None

def bits_of(f, o):
    if isinstance(o, list): return o[2] if len(o) > 2 and isinstance(o[2], int) else None
    d = f.defs.get(o); t = d.ty if d is not None else f.args[o][1] if o < f.nargs else ""
    return bits(t) or (64 if t in ("double", "ptr") else None)

def format_widths(fmt):
    """the size of every printf conversion argument"""
    out = []
    for m in re.finditer(r"%(?:%|[-+ #0]*(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|j|z|t|q|L)?([a-zA-Z]))", fmt):
        if m.group(0) == "%%": continue
        if m.group(1) == "*": out.append(32)
        if m.group(2) == "*": out.append(32)
        c = m.group(4)
        if c in "diuxXo": out.append(64 if m.group(3) in ("l", "ll", "j", "z", "t", "q") else 32)
        else: out.append(None)
    return out

def build_widths(fmt):
    out = []
    for c in fmt:
        if c in "()[]{},: \t": continue
        out.append({"l": 64, "L": 64, "k": 64, "K": 64, "n": 64, "i": 32, "I": 32, "h": 16, "b": 8, "H": 16, "B": 8}.get(c))
        if c == "#": out[-1] = None
    return out

PRINT = {"printf": 0, "fprintf": 1, "snprintf": 2, "sprintf": 1, "dprintf": 1, "PyUnicode_FromFormat": 0, "PyString_FromFormat": 0, "Py_BuildValue": 0, "_Py_BuildValue_SizeT": 0, "__snprintf_chk": 4, "__fprintf_chk": 2, "__printf_chk": 1}

def users(f):
    u = {}
    for i in f.instrs():
        for a in i.args:
            if isinstance(a, int): u.setdefault(a, []).append(i)
    return u

def forward(m, f, src, res, hashfn):
    """values computed from a decoded integer"""
    u = users(f); T = set(); slots = set(); work = []
    for i in f.instrs():
        if i.op == "call" and i.callee() in src: work.append(i.id)
    n = len(work); out = False
    while work:
        v = work.pop()
        if v in T: continue
        T.add(v)
        for i in u.get(v, ()):
            if i.op in ("phi", "add", "sub", "mul", "freeze") or i.op == "select" and v in i.args[1:]: work.append(i.id)
            elif i.op == "trunc" and not f.name in hashfn:
                us = u.get(i.id, ())
                if us and all(x.op in ("sext", "zext") and all(y.op == "icmp" for y in u.get(x.id, ())) for x in us): continue
                res.violation("narrowed", "%s: a stored integer is narrowed" % f.name, i.where(), "an integer of the database is cut down to %s in %s" % (i.ty, f.name), [])
            elif i.op == "and" and any(isinstance(x, list) and x[0] == "c" and 255 < x[1] < (1 << 62) for x in i.args) and any(x.op not in ("icmp", "zext", "trunc") for x in u.get(i.id, ())):
                res.violation("narrowed", "%s: a stored integer is masked" % f.name, i.where(), "only some bits of an integer of the database are used in %s" % f.name, [])
            elif i.op in ("sitofp", "uitofp"):
                res.violation("float", "%s: a stored integer is converted to floating point" % f.name, i.where(), "an integer of the database is converted to floating point, which does not hold all of them (in %s)" % f.name, [])
            elif i.op == "ret": out = True
            elif i.op == "store" and i.args[0] == v:
                d = f.defs.get(i.args[1]) if isinstance(i.args[1], int) else None
                if d is not None and d.op == "alloca" and d.id not in slots:
                    slots.add(d.id)
                    for l in u.get(d.id, ()):
                        if l.op == "load":
                            w = bits(l.ty)
                            if w is not None and w < 64 and f.name not in hashfn: res.violation("narrowed", "%s: a stored integer is read as a smaller type" % f.name, l.where(), "an integer of the database is read back as %s in %s" % (l.ty, f.name), [])
                            else: work.append(l.id)
            elif i.op == "call" and i.callee() in PRINT:
                p = PRINT[i.callee()]; a = i.args[p] if p < len(i.args) else None
                s = a[1] if isinstance(a, list) and a[0] == "s" else None
                if s is None: continue
                ws = (build_widths if "BuildValue" in i.callee() else format_widths)(s); k = i.args.index(v) - p - 1
                w = ws[k] if 0 <= k < len(ws) else None
                res.obligation(1, "%s: printed with \"%s\" at %s" % (f.name, s, i.where()), kind="printed")
                if w is not None and w < 64: res.violation("printed", "%s: a stored integer is printed as a smaller type" % f.name, i.where(), "the conversion in \"%s\" takes %d bits of the integer (in %s)" % (s, w, f.name), [])
    return n, out

def backward(f, res):
    n = 0; imp = bool(IMPORT.match(f.name))
    for i in f.instrs():
        if i.op != "call" or i.callee() not in ENC or ENC[i.callee()] >= len(i.args): continue
        n += 1; w = [i.args[ENC[i.callee()]]]; seen = set()
        while w:
            o = w.pop()
            if not isinstance(o, int) or o in seen: continue
            seen.add(o); d = f.defs.get(o)
            if d is None:
                continue
            bad = None
            if d.op in ("phi", "freeze", "sext", "zext", "add", "sub"):
                if d.op in ("sext", "zext") and imp:
                    x = f.defs.get(d.args[0]) if isinstance(d.args[0], int) else None
                    if x is None or x.op in ("call", "load", "phi", "trunc"): bad = "comes from a %s-bit value" % (bits(x.ty) if x is not None and bits(x.ty) else 32)
                w += d.args
            elif d.op == "select": w += d.args[1:]
            elif d.op == "trunc": bad = "is cut down to %s" % d.ty
            elif d.op in ("fptosi", "fptoui") and imp: bad = "comes from a floating-point number"
            elif d.op == "load" and isinstance(d.args[0], int) and f.defs.get(d.args[0]) is not None and f.defs[d.args[0]].op == "alloca":
                for s in f.instrs():
                    if s.op == "store" and s.args[1] == d.args[0]: w.append(s.args[0])
                if imp and bits(d.ty) is not None and bits(d.ty) < 64: bad = "comes from a %s variable" % d.ty
            elif d.op == "call" and imp:
                res.obligation(1, "%s: %s gives the integer encoded at %s" % (f.name, d.callee(), i.where()), kind="conversions")
                if d.callee() not in CONV and d.callee() and not d.callee().startswith("wg_"): bad = "is converted by %s, which does not give or check all of them" % d.callee()
            if bad: res.violation("source", "%s: the integer encoded %s" % (f.name, bad), d.where(), "the integer given to %s at %s %s (in %s)" % (i.callee(), i.where(), bad, f.name), [])
    return n

class Text:
    """State: (errno cleared, the conversion last done, its range error was excluded)"""
    def __init__(s): s.sites = {}
    def start(s, fx): return [(False, None, False)]
    def step(s, fx, st, i):
        z, c, ok = st.a
        if i.op == "store":
            k = fx.kt[fx.key(st, i.args[1])]
            d = fx.fn.defs.get(i.args[1]) if isinstance(i.args[1], int) else None
            if d is not None and d.op == "call" and d.callee() == "__errno_location":
                v = fx.val(st, i.args[0]); return [(isconst(v) and v[0] == 0, c, ok)]
        if i.op == "call":
            if i.callee() in TEXT:
                s.sites[i.id] = i.where()
                return [(z, i.id, False)]
            if i.callee() in ENC and c is not None:
                a = i.args[ENC[i.callee()]]
                k = fx.kt[fx.key(st, a)]
                while k[0] in ("sext", "zext", "trunc"): k = fx.kt[k[1]]
                if k[0] == "ssa" and k[1] == c and not z: fx.report(st, fx.fn.defs[c], "stale|errno is not cleared before %s, so an earlier error decides about this number" % fx.fn.defs[c].callee())
                if k[0] == "ssa" and k[1] == c and not ok: fx.report(st, i, "range|a number outside the range of an integer is stored as another one: ERANGE was not excluded")
        return None
    def edge(s, fx, st, t, k, truth):
        z, c, ok = st.a
        if c is None or ok: return None
        work = [k]; seen = set()
        while work:
            j = work.pop()
            if j in seen: continue
            seen.add(j); x = fx.kt[j]
            if x[0] == "ssa":
                d = fx.fn.defs.get(x[1]); d = fx.fn.defs.get(d.args[0]) if d is not None and d.op == "load" and isinstance(d.args[0], int) else None
                if d is not None and d.op == "call" and d.callee() == "__errno_location":
                    v = fx.kval(st, j)
                    if not empty(v) and excluded(v, 34): return (z, c, True)
            elif x[0] in ("icmp", "not", "and", "or", "zext", "sext", "trunc", "select"): work += [y for y in x[1:] if isinstance(y, int) and 0 <= y < len(fx.kt)]
        return None
    def ret(s, fx, st, i): pass

class Hash:
    """State: what each local variable holds: (variable, bits, decoding call, decoded through a cut)), and the decoded
    integers known to fit what they were cut down to"""
    def __init__(s): s.sites = {}
    def start(s, fx): return [((), frozenset())]
    def extra_live(s, a): return {c for _, _, c, _ in a[0] if c is not None} | set(a[1])
    def root(s, fx, st, o):
        if not isinstance(o, int): return None, None
        cut = None; t = fx.kt[fx.key(st, o)]
        while t[0] in ("trunc", "sext", "zext"):
            if t[0] == "trunc": cut = min(cut or 64, bits_of(fx.fn, o) or 32, t[2] if len(t) > 2 else 64)
            t = fx.kt[t[1]]
        d = fx.fn.defs.get(t[1]) if t[0] == "ssa" else None
        return (d.id, cut) if d is not None and d.op == "call" else (None, cut)
    def step(s, fx, st, i):
        if i.op == "store":
            b = fx.kt[fx.abase(fx.key(st, i.args[1]))]
            if b[0] != "alloca": return None
            w = bits_of(fx.fn, i.args[0])
            c, cut = s.root(fx, st, i.args[0])
            return [(tuple(sorted([x for x in st.a[0] if x[0] != b[1]] + [(b[1], w, c, cut)], key=str)), st.a[1])]
        if i.op == "call" and (i.callee() or "").startswith(("llvm.memcpy", "memcpy", "memmove", "llvm.memmove")):
            b = fx.kt[fx.abase(fx.key(st, i.args[1]))]
            if b[0] != "alloca": return None
            n = fx.val(st, i.args[2]); h = [x for x in st.a[0] if x[0] == b[1]]
            s.sites[i.where(), b[1], n] = i.where()
            if not h: fx.report(st, i, "stale|the key is made from a variable that was not set for this value"); return None
            _, w, c, cut = h[0]
            d = fx.fn.defs.get(c) if c is not None else None
            if w and (not isconst(n) or n[0] * 8 != w): fx.report(st, i, "length|the key takes %s bytes of a value of %d" % (n[0] if isconst(n) else "an unknown number of", w // 8))
            if d is not None and d.callee() == "wg_decode_int" and (cut or 64) < 64 and c not in st.a[1]:
                v = fx.kval(st, fx.leaf(c))
                if v[0] is None or v[1] is None or v[0] < -(1 << cut - 1) or v[1] >= 1 << cut - 1: fx.report(st, i, "narrowed|integers that differ only above bit %d are the same key" % cut)
        return None
    def edge(s, fx, st, t, k, truth):
        x = fx.kt[k]; pol = truth
        while x[0] == "not": x = fx.kt[x[1]]; pol = not pol
        if x[0] != "icmp" or not isinstance(pol, bool) or not (x[1] == "eq" and pol or x[1] == "ne" and not pol): return None
        def strip(p):
            y = fx.kt[p]; cut = False
            while y[0] in ("sext", "trunc"):
                cut |= y[0] == "trunc"; y = fx.kt[y[1]]
            return (y[1] if y[0] == "ssa" else None), cut
        (a, ca), (b, cb) = strip(x[2]), strip(x[3])
        if a is not None and a == b and ca != cb: return (st.a[0], st.a[1] | {a})
        return None
    def ret(s, fx, st, i): pass

def c22(res, tier):
    res.rule("no value computed from a decoded integer is narrowed, converted to floating point or printed with a shorter conversion")
    res.rule("the integer given to an encoder by an importing layer comes from a full-width conversion")
    res.rule("a text that is out of range is not stored as another integer: errno is cleared before the conversion and ERANGE excluded after it")
    res.rule("a hash index key covers all bytes of the value it is made from")
    nd = ne = nt = 0; done = set()
    for units in (("db",), ("Python/wgdbmodule.c",), ("Main/wgdb.c",), ("Server/dserve.c",)):
        m = ir.load(units, "main", keep="ext"); res.module(m)
        if units == ("db",):
            for n, k in (("wg_encode_int", 1), ("wg_encode_query_param_int", 1), ("wg_set_int_field", 3)):
                f = m.fn(n); t = f.args[k][1]
                res.obligation(1, "%s: the integer parameter is %s" % (n, t), kind="interface")
                if t != "i64": res.violation("interface", "%s: the integer parameter is %s" % (n, t), f.file, "%s takes the integer as %s" % (n, t), [])
            if m.fn("wg_decode_int").ret != "i64": res.violation("interface", "wg_decode_int: the result is %s" % m.fn("wg_decode_int").ret, m.fn("wg_decode_int").file, "wg_decode_int returns %s" % m.fn("wg_decode_int").ret, [])
        hashfn = {f.name for f in m.funcs.values() if any(f.calls("wg_decode_int")) and any(f.calls("wg_decode_double")) and any(i.op == "call" and (i.callee() or "").startswith(("llvm.memcpy", "memcpy")) for i in f.instrs()) and any(f.calls("malloc")) and f.file.endswith("dbhash.c")}
        src = {"wg_decode_int"}; more = True
        while more:
            more = False; rep = len(res.violations) if hasattr(res, "violations") else 0
            class Q:
                def violation(s, *a): pass
                def obligation(s, *a, **k): pass
            for f in list(m.funcs.values()):
                if f.name in src or f.name.startswith(("Py_", "_Py")) or not any(f.calls(*src)): continue
                if forward(m, m.fn(f.name), src, Q(), hashfn)[1] and not f.name.startswith("wgdb_"): src.add(f.name); more = True
        for f in list(m.funcs.values()):
            if f.name.startswith(("Py_", "_Py")): continue
            a = any(f.calls(*src)); b = any(f.calls(*ENC))
            if not a and not b: continue
            f = m.fn(f.name); res.funcs.add(f.name)
            if a:
                n = forward(m, f, src, res, hashfn)[0]; nd += n
                res.obligation(n, "%s: decoded integers" % f.name, kind="decoded")
            if b:
                n = backward(f, res); ne += n
                res.obligation(n, "%s: encoded integers" % f.name, kind="encoded")
            if b and IMPORT.match(f.name) and any(f.calls(*TEXT)):
                r = Text(); fx = Flow(f, r); fx.run(); nt += len(r.sites)
                for w in r.sites.values(): res.obligation(1, "%s: number converted at %s" % (f.name, w), kind="text")
                for d in fx.reports:
                    k, msg = d["msg"].split("|", 1); res.violation(k, "%s: %s" % (f.name, msg.split(" before ")[0][:60]), d["where"], msg + " (in %s)" % f.name, d["path"])
            if f.name in hashfn:
                r = Hash(); fx = Flow(f, r); fx.run()
                res.need(len(r.sites), 2, "hash key copies")
                for (w, _, n), _ in r.sites.items(): res.obligation(1, "%s: key of %s bytes at %s" % (f.name, n[0], w), kind="hash keys")
                done.add(f.name)
                for d in fx.reports:
                    k, msg = d["msg"].split("|", 1); res.violation(k, "%s: %s" % (f.name, msg[:60]), d["where"], msg + " (in %s)" % f.name, d["path"])
    res.need(nd, 6, "decoded integers"); res.need(ne, 4, "encoded integers"); res.need(nt, 2, "text conversions"); res.need(len(done), 1, "hash key functions")
