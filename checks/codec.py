"""C16: a stored value is followed into shared memory only as what its tag says.
C33: encoding, type query and decoding agree on the bits of every value."""
import ir
from flow import Flow, Fork, const, isconst, nonzero, mk, meet, TOP, empty
from ir import Broken
from common import pmap
from lib import NZ, WG_ILLEGAL, is_seg, within
from journal import bits
from files import strip, unnot, loaded

# what the low bits of a stored value say: (name, value, number of known bits)
KINDS = (("null", 0, 64), ("record", 0, 3), ("longstr", 4, 3), ("shortstr", 6, 3), ("double", 2, 3), ("fullint", 1, 3), ("fullint", 5, 3),
         ("smallint", 3, 3), ("var", 7, 4), ("fixpoint", 0x0f, 8), ("char", 0x1f, 8), ("date", 0x2f, 8), ("time", 0x3f, 8), ("tinystr", 0x4f, 8), ("anonconst", 0x5f, 8))
TAG = {"longstr": (4,), "shortstr": (6,), "double": (2,), "fullint": (1, 5)}
MASK = {-8: ("longstr", "shortstr", "double", "fullint"), -4: ("fullint",)}
SHORTMAX = 32
# values each typed decoder accepts
OWN = {"wg_decode_int": {"smallint", "fullint"}, "wg_decode_double": {"double"}, "wg_decode_date": {"date"}, "wg_decode_time": {"time"}, "wg_decode_fixpoint": {"fixpoint"}}
for n in ("unistr", "unistr_len", "unistr_copy", "unistr_lang"): OWN["wg_decode_" + n] = {"shortstr", "longstr"}
STRFN = {"strlen": 0, "memcpy": 1, "memmove": 1, "strcpy": 1, "strncpy": 1, "strcmp": 0, "memcmp": 0, "strdup": 0, "llvm.memcpy.p0.p0.i64": 1}

def facts(fx, f, x, val, n):
    """facts about a value whose low n bits are val"""
    out = []
    if n == 64: out.append((x, const(val)))
    elif val or n < 3: out.append((x, NZ))
    else: out.append((x, (1, None, frozenset())))
    ms = {1, 3, 7, 15, 255}; consts = set()
    for i in f.instrs():
        if i.op == "icmp": consts |= {a[1] for a in i.args if isinstance(a, list) and a[0] == "c"}
        elif i.op == "switch": consts |= {c for c, _ in i.d["cases"]}
    for i in f.instrs():
        if i.op == "and":
            for a in i.args:
                if isinstance(a, list) and a[0] == "c" and a[1] > 0: ms.add(a[1])
    for m in ms:
        if m.bit_length() > n and n < 64:     # constants it cannot be equal to
            ex = frozenset(c for c in consts if 0 <= c <= m and (c ^ val) & ((1 << n) - 1) & m)
            out.append((fx.intern(("and", x, fx.kconst(m)), fx.kleaf[x]), (None, None, ex)))
        elif m.bit_length() <= n or n == 64: out.append((fx.intern(("and", x, fx.kconst(m)), fx.kleaf[x]), const(val & m)))
    return out

def followed(fx, k):
    """(value key, mask, offset) if the address key is segment + (value & mask) [+ offset]"""
    t = fx.kt[k]
    if t[0] != "gep" or not t[3]: return None
    b = loaded(fx, t[1])
    if b is None or not is_seg(b): return None
    for x, sc in t[3]:
        c = t[2]; u = fx.kt[x]
        while u[0] == "add" and fx.cval(u[2]) is not None: c += fx.cval(u[2]); u = fx.kt[u[1]]
        if sc == 1 and u[0] == "and" and fx.cval(u[2]) in MASK: return u[1], fx.cval(u[2]), c
    return None

class FollowRule:
    """one kind of value for parameter p (or None: every value, tags known from the path)"""
    def __init__(s, p=None, kind=None, trusted=()): s.p = p; s.kind = kind; s.sites = set(); s.rets = []; s.trusted = trusted
    def start(s, fx):
        if s.kind:
            for k, v in facts(fx, fx.fn, fx.leaf(s.p), s.kind[1], s.kind[2]): fx.init_vals[k] = meet(fx.init_vals.get(k, TOP), v)
        return [None]
    def name(s, fx, st, v):
        """kind of object the value is known to refer to"""
        if s.kind and v == fx.leaf(s.p): return s.kind[0]
        for m in (7, 3):
            k = fx.ki.get(("and", v, fx.kconst(m)))
            if k is None: continue
            x = fx.kval(st, k)
            if isconst(x):
                for n, tags in TAG.items():
                    if m == 7 and x[0] in tags or m == 3 and n == "fullint" and x[0] == 1: return n
        return None
    def direct(s, fx, k):
        """the value itself, its tag taken off by arithmetic: segment + value + constant"""
        t = fx.kt[k]
        if s.kind is None or s.kind[0] not in TAG or t[0] != "gep" or len(t[3]) != 1: return None
        b = loaded(fx, t[1]); x, sc = t[3][0]; c = t[2]
        if b is None or not is_seg(b) or sc != 1: return None
        while True:
            u = fx.kt[x]
            if u[0] == "add" and fx.cval(u[2]) is not None: c += fx.cval(u[2]); x = u[1]
            elif u[0] == "sub" and fx.cval(u[2]) is not None: c -= fx.cval(u[2]); x = u[1]
            else: break
        return (x, -8, c + s.kind[1]) if x == fx.leaf(s.p) else None
    def check(s, fx, st, i, o, what, size=None):
        r = followed(fx, fx.key(st, o))
        if r is None: r = s.direct(fx, fx.key(st, o))
        if r is None: return
        v, m, c = r
        s.sites.add(i.where())
        n = s.name(fx, st, v)
        vn = "the value given" if s.p is not None and v == fx.leaf(s.p) else "a value"
        if n is None and s.trusted == "chain": return
        if n is None: fx.report(st, i, "%s is followed as an offset (%s) although its tag was not found to mark one" % (vn, what)); return
        if n not in TAG: fx.report(st, i, "%s is followed as an offset (%s) although its tag says it is %s" % (vn, what, {"null": "NULL", "record": "a record"}.get(n, "an immediate value (%s)" % n))); return
        if n not in MASK[m]: fx.report(st, i, "%s, tagged as %s, is followed with the tag bits of another kind removed" % (vn, n)); return
        if n in ("double", "fullint") and (c != 0 or what == "text"): fx.report(st, i, "%s, tagged as %s, is followed as something else (%s at offset %d)" % (vn, n, what, c)); return
        if n == "shortstr" and (what in ("number", "double") or not 0 <= c < SHORTMAX): fx.report(st, i, "%s, tagged as a short string, is followed as something else (%s at offset %d)" % (vn, what, c)); return
        if n == "longstr" and (what == "double" or what == "text" and c <= 0): fx.report(st, i, "%s, tagged as a long string, is followed as something else (%s at offset %d)" % (vn, what, c)); return
        if what == "double" and n != "double" or n == "double" and what == "number": fx.report(st, i, "%s, tagged as %s, is read as %s" % (vn, n, what)); return
    def step(s, fx, st, i):
        if i.op == "load": s.check(fx, st, i, i.args[0], "double" if i.ty == "double" else "text" if i.ty == "i8" else "number")
        elif i.op == "store":
            s.check(fx, st, i, i.args[1], "number")
        elif i.op == "call" and i.callee() in STRFN: s.check(fx, st, i, i.args[STRFN[i.callee()]], "text")
        elif i.op == "call":
            for o in i.args:
                if isinstance(o, int) and i.callee() not in ("wg_free_object", "wg_free_fixlen_object"):
                    d = fx.fn.defs.get(o)
                    if d is not None and d.ty == "ptr": s.check(fx, st, i, o, "object" if i.callee() == "free" else "pointer")
        return None
    def ret(s, fx, st, i):
        if not i.args: return
        k = fx.key(st, i.args[0]); v = fx.val(st, i.args[0])
        s.check(fx, st, i, i.args[0], "text")
        s.rets.append((k, v, fx.kt[k], i.where(), followed(fx, k) or s.direct(fx, k)))

def params_followed(f):
    """parameters of f that are followed into the segment, statically; and whether other values are"""
    ps = set(); other = False; n = 0
    for i in f.instrs():
        if i.op != "getelementptr" or not i.d.get("vo"): continue
        b = f.defs.get(i.args[0]) if isinstance(i.args[0], int) else None
        if b is None or not is_seg(b): continue
        for v, sc in i.d["vo"]:
            d = f.defs.get(v) if isinstance(v, int) else None
            while d is not None and d.op == "add": d = f.defs.get(d.args[0]) if isinstance(d.args[0], int) else None
            if d is None or d.op != "and" or not (isinstance(d.args[1], list) and d.args[1][1] in MASK): continue
            n += 1; src = set(); w = [d.args[0]]; seen = set()
            while w:
                x = w.pop()
                if not isinstance(x, int) or x in seen: continue
                seen.add(x)
                if x < f.nargs: src.add(x); continue
                e = f.defs.get(x)
                if e is not None and e.op in ("phi", "select", "freeze"): w += e.args
                else: src.add(None)
            if src <= set(range(f.nargs)): ps |= src
            else: other = True; ps |= src - {None}
    return ps, other, n

# values that are long strings by the structure they come from: callers establish it, or the chains of the string hash hold nothing else
GIVEN = {"wg_remove_from_strhash": 1}
CHAINS = {"wg_remove_from_strhash", "wg_find_strhash_bucket"}      # loads of chain links

def c16(res, tier):
    res.rule("wherever a stored value is turned into an address (segment + value without its tag bits), the tag is known to mark an offset to just that kind of object, and the access fits the kind; "
             "each function is analysed once per kind of value it may be given; typed decoders end with a constant error value on every other kind")
    m = ir.load(("db", "json"), "main"); res.module(m)
    jobs = []
    for f in sorted(m.funcs.values(), key=lambda f: f.name):
        ps, other, n = params_followed(f)
        if not n and f.name not in OWN: continue
        if f.name in OWN: ps = {1}
        for p in sorted(ps):
            if GIVEN.get(f.name) == p: jobs.append((f.name, p, ("longstr", 4, 3))); other = False; continue
            if f.name in CHAINS: other = True; continue
            for k in KINDS: jobs.append((f.name, p, k))
        if other: jobs.append((f.name, None, None))
    def one(j):
        n, p, k = j
        r = FollowRule(p, k, "chain" if n in CHAINS else ()); fx = Flow(m.fn(n), r); fx.run()
        rets = []
        if n in OWN:
            for kk, v, t, w, fo in r.rets:
                if k[0] not in OWN[n] and not (isconst(v) and v[0] in (0, -1) or t in (("k", "['fp', '0']"), ("k", "['fp', '-1']"))): rets.append((w, "given a value that is %s the decoder does not end with its error value" % k[0]))
                if m.fn(n).ret == "ptr" and k[0] in OWN[n] and n == "wg_decode_unistr":
                    if fo is None or fo[0] != fx.leaf(p): rets.append((w, "given a %s the decoder does not return its text" % k[0]))
        return n, p, k, sorted(r.sites), [(d["msg"], d["where"], d["path"]) for d in fx.reports], rets
    sites = set(); fns = set()
    for n, p, k, ss, reps, rets in pmap(one, jobs):
        res.funcs.add(n); sites |= set(ss); fns.add(n)
        res.obligation(1, "%s given %s" % (n, k[0] if k else "any value"), kind="function and kind of value")
        for msg, w, path in reps: res.violation("tag", n, w, "%s (in %s%s)" % (msg, n, ", given " + k[0] if k else ""), path)
        for w, msg in rets: res.violation("error-value", n, w, "%s (in %s)" % (msg, n), [])
    for w in sorted(sites): res.obligation(1, "value followed at " + w, kind="places a value is followed")
    res.need(len(sites), 15, "places where a value is followed")
    # callers of functions that take a long string for granted
    for g, p in GIVEN.items():
        if g not in m.funcs: continue
        class CR:
            def start(s, fx): return [None]
            def step(s, fx, st, i):
                if i.op == "call" and i.callee() == g:
                    k = fx.key(st, i.args[p]); a = fx.ki.get(("and", k, fx.kconst(7)))
                    v = fx.kval(st, a) if a is not None else TOP
                    b = bits(fx, k, {})
                    if not (isconst(v) and v[0] == 4) and b[:3] != [0, 0, 1]: fx.report(st, i, "a value not known to be a long string is passed to " + g)
                    else: s.n += 1
                return None
            def ret(s, fx, st, i): pass
        for f in m.funcs.values():
            if not any(True for _ in f.calls(g)): continue
            r = CR(); r.n = 0
            jobs2 = [k for k in KINDS] if f.nargs > 1 and f.args[1][1] == "i64" else [None]
            fx = Flow(f, r); fx.run()
            res.obligation(1, "%s: %s is given a long string" % (f.name, g), kind="callers")
            for d in fx.reports: res.violation("tag", f.name, d["where"], d["msg"], d["path"])

# ---------------------------------------------------------------- C33
TYPE = {"int": 3, "double": 4, "str": 5, "char": 9, "fixpoint": 10, "date": 11, "time": 12, "var": 14, "record": 2, "null": 1}
PAIRS = [("wg_encode_int", "wg_decode_int", "int"), ("wg_encode_double", "wg_decode_double", "double"), ("wg_encode_char", "wg_decode_char", "char"),
         ("wg_encode_date", "wg_decode_date", "date"), ("wg_encode_time", "wg_decode_time", "time"), ("wg_encode_var", "wg_decode_var", "var"),
         ("wg_encode_record", "wg_decode_record", "record"), ("wg_encode_fixpoint", "wg_decode_fixpoint", "fixpoint"),
         ("wg_encode_query_param_int", "wg_decode_int", "int"), ("wg_encode_query_param_double", "wg_decode_double", "double"), ("wg_encode_query_param_char", "wg_decode_char", "char"),
         ("wg_encode_query_param_date", "wg_decode_date", "date"), ("wg_encode_query_param_time", "wg_decode_time", "time"), ("wg_encode_query_param_var", "wg_decode_var", "var"),
         ("wg_encode_query_param_fixpoint", "wg_decode_fixpoint", "fixpoint"), ("wg_encode_query_param_record", "wg_decode_record", "record")]
ENC = {e: t for e, d, t in PAIRS}
W = {"i8": 8, "i32": 32, "i64": 64, "ptr": 64}
ALLOC = {"wg_alloc_fixlen_object", "malloc", "wg_alloc_gints"}

def signed(n, w=64): return [("v", j) for j in range(n)] + [("v", n-1)] * (w-n)
def unsigned(n, w=64): return [("v", j) for j in range(n)] + [0] * (w-n)

def vecbits(fx, k, env):
    """bits of a key; a pointer into the segment counts as its offset"""
    env = dict(env); seen = set()
    def seg(x):
        b = loaded(fx, x)
        return b is not None and is_seg(b)
    def walk(x):
        if x in seen or not isinstance(x, int) or x >= len(fx.kt): return
        seen.add(x); t = fx.kt[x]
        if x in env: return
        if t[0] == "gep":
            if len(t[3]) == 1 and t[3][0][1] == 1 and t[2] == 0 and seg(t[1]): walk(t[3][0][0]); env[x] = bits(fx, t[3][0][0], env)
            return
        if t[0] == "sub" and seg(t[2]): walk(t[1]); env[x] = bits(fx, t[1], env); return
        if t[0] in ("and", "or", "xor", "add", "sub", "shl", "lshr", "ashr", "mul"): walk(t[1]); walk(t[2])
        elif t[0] in ("zext", "sext", "trunc"): walk(t[1])
    walk(k)
    return bits(fx, k, env)

def isparam(fx, k):
    """the key is the value argument, or a load of the local it was kept in"""
    if k == fx.leaf(1): return True
    t = fx.kt[k]
    if t[0] != "ssa": return False
    d = fx.fn.defs.get(t[1])
    if d is None or d.op != "load" or not isinstance(d.args[0], int): return False
    a = fx.fn.defs.get(d.args[0])
    if a is None or a.op != "alloca": return False
    st = [i for i in fx.fn.instrs() if i.op == "store" and i.args[1] == a.id]
    return bool(st) and all(i.args[0] == 1 for i in st)

class EncRule:
    """returns of an encoder: (value key, stores made through an allocated object, path facts)"""
    def __init__(s): s.out = []
    def start(s, fx): return [()]
    def extra_live(s, a):
        r = set()
        for x in a: r |= set(x[3])
        return r
    def step(s, fx, st, i):
        if i.op == "store" and (i.fld or "").find(".") < 0 or i.op == "store":
            k = fx.key(st, i.args[1]); t = fx.kt[k]
            if t[0] == "gep" and len(t[3]) == 1 and t[3][0][1] == 1:
                b = loaded(fx, t[1])
                if b is not None and is_seg(b): return [st.a + ((t[3][0][0], t[2], fx.key(st, i.args[0]), tuple(fx.kleaf[k] | fx.kleaf[fx.key(st, i.args[0])])),)]
            if t[0] == "ssa":
                d = fx.fn.defs.get(t[1])
                if d is not None and d.op == "call" and d.callee() in ALLOC: return [st.a + ((k, 0, fx.key(st, i.args[0]), tuple(fx.kleaf[k] | fx.kleaf[fx.key(st, i.args[0])])),)]
        if i.op == "call" and i.callee() in ALLOC:
            return [Fork(st.a, NZ), Fork(st.a, const(0))]
        return None
    def ret(s, fx, st, i):
        v = fx.val(st, i.args[0])
        if isconst(v) and v[0] == WG_ILLEGAL: return
        k = fx.key(st, i.args[0])
        s.out.append((k, st.a, dict(st.vals), fx.val(st, 1) if fx.fn.nargs > 1 else TOP, i.where()))

def fpc(o): return float(o[1]) if isinstance(o, list) and o[0] == "fp" and not o[1].startswith("0x") else None

def scale(f, ids):
    """the constant C when a value is round(argument * C), and the largest magnitude let through"""
    for l in ids:
        d = f.defs.get(l)
        if d is None or d.op != "fptosi": continue
        r = f.defs.get(d.args[0]) if isinstance(d.args[0], int) else None
        if r is not None and r.op == "call" and "round" in (r.callee() or "") and isinstance(r.args[0], int): r = f.defs.get(r.args[0])
        else: return None
        if r is None or r.op != "fmul" or 1 not in r.args: return None
        c = fpc(r.args[1] if r.args[0] == 1 else r.args[0])
        lim = [abs(fpc(a)) for i in f.instrs() if i.op == "fcmp" for a in i.args if fpc(a) is not None]
        return c, max(lim) if lim else None
    return None

def encodings(m, name):
    """[(bits of the result, width class, object key or None, stored value ok, where)]"""
    f = m.fn(name); r = EncRule(); fx = Flow(f, r); fx.run()
    res = []; p = fx.leaf(1); w = W.get(f.args[1][1], 64)
    for k, stores, vals, rng, where in r.out:
        # width of the argument on this path
        env = {}; lo, hi = rng[0], rng[1]
        vec = None
        if f.args[1][1] == "double": vec = None
        elif f.args[1][1] == "ptr": vec = [0, 0, 0] + [("v", j) for j in range(3, 64)]; env[p] = vec
        else:
            n = w; uns = False
            if lo is not None and hi is not None:
                if lo >= 0: n = min(w, hi.bit_length()); uns = True
                else: n = min(w, max(hi.bit_length(), (-lo - 1).bit_length()) + 1)
            vec = unsigned(n, w) if uns else signed(n, w)
            # a test that a narrower copy of the argument equals it
            for kk, vv in vals.items():
                t = fx.kt[kk]
                if t[0] == "icmp" and t[1] == "eq" and isconst(vv) and vv[0] == 1:
                    for a, b in ((t[2], t[3]), (t[3], t[2])):
                        if b == p and p in [fx.leaf(x) for x in fx.kleaf[a]] and a != p:
                            bv = bits(fx, a, {p: signed(w, w) if w == 64 else signed(w, w)})[:w]
                            q = [j for j in range(w) if bv[j] != ("v", j)]
                            if q and all(bv[j] == ("v", q[0]-1) for j in q): vec = signed(q[0], w)
            env[p] = vec + [None]*(64-w)
        # objects allocated: offsets are multiples of 8
        for l in fx.kleaf[k] | frozenset(x for s_ in stores for x in s_[3]):
            d = f.defs.get(l)
            if d is not None and d.op == "call" and d.callee() in ALLOC: env[fx.leaf(l)] = [0, 0, 0] + [("o", j) for j in range(3, 64)]
            if d is not None and is_seg(d): env[fx.leaf(l)] = None
        env = {a: b for a, b in env.items() if b is not None}
        for l in fx.kleaf[k]:
            d = f.defs.get(l)
            if d is not None and d.op in ("fptosi",): env[fx.leaf(l)] = [("r", j) for j in range(24)] + [("r", 23)]*40
        t = fx.kt[k]; d = f.defs.get(t[1]) if t[0] == "ssa" else None
        if t[0] == "fcall" and t[1] in ENC and t[3] == p: res.append((t[1], vec, [], where)); continue
        if d is not None and d.op == "call" and d.callee() in ENC:
            if d.args[1] == 1: res.append((d.callee(), vec, [], where)); continue
        bv = vecbits(fx, k, env)
        st = []
        for a, off, v, _ in stores:
            st.append((vecbits(fx, a, env), off, isparam(fx, v)))
        res.append((bv, vec, st, where))
    return res, w

class DecRule:
    def __init__(s, low, n): s.low = low; s.n = n; s.out = []; s.addr = {}
    def start(s, fx):
        for k, v in facts(fx, fx.fn, fx.leaf(1), s.low, s.n): fx.init_vals[k] = meet(fx.init_vals.get(k, TOP), v)
        return [None]
    def step(s, fx, st, i):
        if i.op in ("load", "sitofp"): s.addr[i.id] = fx.key(st, i.args[0])
        return None
    def ret(s, fx, st, i): s.out.append((fx.key(st, i.args[0]), fx.val(st, i.args[0]), i.where()))

def c33(res, tier):
    res.rule("for each type: the bits the encoder produces, on every path, carry a tag from which the type query returns that type, and the decoder given these bits returns the encoded bits (or the number stored in the object allocated for it)")
    m = ir.load(("db",), "main"); res.module(m)
    for en, dn, ty in PAIRS:
        if en not in m.funcs: res.violation("codec", en, "", "the encoder %s is gone" % en); continue
        encs, w = encodings(m, en); res.funcs |= {en, dn}
        ef = m.fn(en)
        if not encs: raise Broken("no successful path found in " + en)
        for bv, vec, stores, where in encs:
            res.obligation(1, "%s: %s" % (en, where), kind="encodings")
            if isinstance(bv, str):        # handed on to another encoder
                if ENC[bv] != ty: res.violation("codec", "%s / %s" % (en, dn), where, "%s hands its argument to %s" % (en, bv), [])
                continue
            n = 0
            while n < 8 and bv[n] in (0, 1): n += 1
            low = sum(b << j for j, b in enumerate(bv[:n]))
            def bad(msg): res.violation("codec", "%s / %s" % (en, dn), where, msg, [])
            if n < 3: bad("the value %s returns carries no definite tag (low bits %s)" % (en, bv[:8])); continue
            # the type query
            f = m.fn("wg_get_encoded_type"); res.funcs.add(f.name)
            r = DecRule(low, n); fx = Flow(f, r); fx.run()
            ts = {v[0] if isconst(v) else None for k, v, _ in r.out} - {0}
            if ts != {TYPE[ty]}: bad("the type query returns %s for the bits %s produces (low bits %s), not %d" % (sorted(ts, key=str), en, bin(low), TYPE[ty]))
            # the decoder
            f = m.fn(dn); r = DecRule(low, n); fx = Flow(f, r); fx.run()
            p = fx.leaf(1); wr = W.get(f.ret, 64); good = 0
            for k, v, w2 in r.out:
                if isconst(v) and v[0] in (0, -1): continue      # wrong database handle
                if fx.kt[k] in (("k", "['fp', '0']"), ("k", "['fp', '-1']")): continue
                good += 1
                obj = [x for x in bv if isinstance(x, tuple) and x[0] == "o"]
                if obj:
                    d = loaded(fx, k)
                    if d is None or fx.kt[k][0] != "ssa": bad("%s does not read the object %s stored the number in (%s)" % (dn, en, w2)); continue
                    ak = fx.key(None, d.args[0]) if False else r.addr.get(d.id)
                    fo = r.addr.get(d.id)
                    if fo is None: bad("%s does not read the object %s stored the number in (%s)" % (dn, en, w2)); continue
                    ab = vecbits(fx, fo, {p: bv})
                    hit = [ok for a, off, ok in stores if a == ab and off == 0]
                    if not hit: bad("%s reads %s at an address other than the one %s stored it at" % (dn, "a number", en))
                    elif not hit[-1]: bad("%s stores something other than its argument" % en)
                    continue
                ob = vecbits(fx, k, {p: bv})[:wr]
                want = (vec + [vec[-1]]*64)[:wr] if vec is not None else None
                if ty == "fixpoint":
                    t = fx.kt[k]; d = f.defs.get(t[1]) if t[0] == "ssa" else None; sc = scale(ef, ef.defs)
                    if sc is None or sc[0] is None: bad("%s does not store its argument rounded to the decimal places it keeps" % en); continue
                    if sc[1] is None or sc[1] * sc[0] >= 1 << (64 - 8 - 33): bad("%s accepts numbers whose %d bits are not all kept" % (en, 23)); continue
                    if d is None: d = next((i for i in f.instrs() if i.op == t[0] and i.op in ("fdiv", "fmul")), None)
                    if d is not None and d.op == "fdiv": c = fpc(d.args[1])
                    elif d is not None and d.op == "fmul" and fpc(d.args[1]): c = 1 / fpc(d.args[1])
                    else: c = None
                    if c is None or abs(c - sc[0]) > 1e-9 * sc[0]: bad("%s scales by %s, %s by %s" % (en, sc[0], dn, c)); continue
                    x = f.defs.get(d.args[0])
                    if x is None or x.op != "sitofp" or x.id not in r.addr: bad("%s does not return the number stored" % dn); continue
                    ob = vecbits(fx, r.addr[x.id], {p: bv})
                    if ob[:24] != [("r", j) for j in range(24)] or any(b != ("r", 23) for b in ob[24:32]): bad("%s does not read back the bits %s stores the number in" % (dn, en))
                    continue
                if ob != want:
                    j = [x for x in range(wr) if ob[x] != want[x]][0]
                    bad("bit %d of a value encoded by %s is not returned by %s (%s)" % (j, en, dn, w2))
            if not good: bad("%s returns its error value for what %s produces" % (dn, en))
    res.need(res.obl, 14, "encodings")
