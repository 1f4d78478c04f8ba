"""C18 index maintenance, C19 back references, C20 reference counts, C29 external data:
the record operations are analysed once per kind of stored value (record, long string, ... immediate; local or external)."""
import ir
from flow import Flow, Fork, const, isconst, mk, meet, empty, TOP, nonzero
from ir import Broken
from common import pmap
from lib import NZ, derives, is_seg, addr_of, within, disjoint

POS = (1, None, frozenset())
BITS = {"rec": 0, "longstr": 4, "shortstr": 6, "fulldouble": 2, "fullint0": 1, "fullint1": 5, "imm3": 3, "imm7": 7}
TYPES = {"null": 1, "rec": 2, "shortstr": 5, "fulldouble": 4, "fullint0": 3, "fullint1": 3}
PTRK = ("rec", "longstr", "shortstr", "fulldouble", "fullint0", "fullint1")
FREED = ("longstr", "shortstr", "fulldouble", "fullint0", "fullint1")
INDEXTAB = ".index_table[]"; TMPLTAB = ".index_template_table[]"

def kind_facts(fx, x, kind, loc, dbk=None):
    """facts that hold for an encoded value x of this kind"""
    out = []; c = fx.kconst
    def a(m): return fx.intern(("and", x, c(m)), fx.kleaf[x])
    ft = fx.intern(("fcall", "wg_get_encoded_type", fx.leaf(0), x), fx.kleaf[x] | {0})
    if kind == "null":
        return [(x, const(0)), (ft, const(1))]
    b = BITS[kind]
    out += [(x, NZ), (a(7), const(b)), (a(3), const(b & 3)), (a(1), const(b & 1))]
    out.append((ft, const(TYPES[kind]) if kind in TYPES else (5, None, frozenset([2])) if kind == "longstr" else (3, None, frozenset([2, 4]))))
    if kind in PTRK:
        neg = loc == "extneg"
        out += [(a(-8), (None, -1, frozenset()) if neg else POS), (a(-4), (None, -1, frozenset()) if neg else POS)]
        if kind == "rec": out.append((x, (None, -1, frozenset()) if neg else POS))
    return out

def field_of(f, o, recs):
    """static: address of a data field of one of the records recs (reached through phis and additions)"""
    seen = set(); w = [o]; hit = False
    while w:
        x = w.pop()
        if not isinstance(x, int) or x in seen: continue
        seen.add(x)
        if x in recs: hit = True; continue
        d = f.defs.get(x)
        if d is None: return False
        if d.op in ("getelementptr", "bitcast", "freeze"): w.append(d.args[0])
        elif d.op in ("phi", "select"): w += d.args if d.op == "phi" else d.args[1:]
        else: return False
    return hit

def addr_roots(f, o):
    """static: [(kind, operand, offset, field name)] the address may stand for; kind 'off': segment + operand, 'ptr': operand + offset"""
    out = []; seen = set(); w = [(o, 0, "")]
    while w:
        x, off, fld = w.pop()
        if (repr(x), off) in seen or len(seen) > 60: continue
        seen.add((repr(x), off))
        d = f.defs.get(x) if isinstance(x, int) else None
        if d is None: out.append(("ptr", x, off, fld)); continue
        if d.op in ("bitcast", "freeze", "inttoptr", "ptrtoint"): w.append((d.args[0], off, fld))
        elif d.op == "getelementptr" and "off" in d.d:
            b = d.args[0]; bd = f.defs.get(b) if isinstance(b, int) else None
            vo = [v for v in d.d["vo"]]
            if bd is not None and is_seg(bd) and len(vo) == 1 and vo[0][1] == 1:
                x, c = vo[0][0], off + d.d["off"]
                while isinstance(x, int) and x in f.defs and f.defs[x].op == "add" and isinstance(f.defs[x].args[1], list) and f.defs[x].args[1][0] == "c": x, c = f.defs[x].args[0], c + f.defs[x].args[1][1]
                out.append(("off", x, c, fld))
            elif vo: out.append(("ptr", x, off, fld or d.fld))
            else: w.append((b, off + d.d["off"], fld or d.fld))
        elif d.op == "phi": w += [(a, off, fld) for a in d.args]
        elif d.op == "select": w += [(a, off, fld) for a in d.args[1:]]
        else: out.append(("ptr", x, off, fld))
    return out

DEAD = (("dead", 1),)
def D(a): return dict(a)
def A(**d): return tuple(sorted(d.items(), key=lambda x: x[0]))

class Base:
    """state: tuple of (name, value) pairs"""
    def isarea(s, fx, k, name):
        t = fx.kt[k]
        ar = s.__dict__.setdefault("areas", {})
        if name not in ar: ar[name] = {x.d["off"] for x in s.f.instrs() if x.op == "getelementptr" and x.fld.endswith("." + name)}
        return t[0] == "gep" and s.segleaf(fx, t[1]) and not t[3] and t[2] in ar[name]
    def get(s, st, n, dflt=0): return D(st.a).get(n, dflt)
    def put(s, st, **kw):
        d = D(st.a); d.update(kw)
        return A(**{k: v for k, v in d.items() if v not in (0, None)})
    def rep(s, fx, st, i, prop, rule, msg): fx.report(st, i, msg, prop=prop, rule=rule)
    def extra_live(s, a):
        d = D(a); L = set()
        for n in d.get("live", ()): L.add(n)
        return L
    # --- keys
    def segleaf(s, fx, k):
        t = fx.kt[k]
        return t[0] == "ssa" and t[1] in fx.fn.defs and is_seg(fx.fn.defs[t[1]])
    def offaddr(s, fx, k):
        """address key -> (offset key, constant) for segment + offset, or the decoded record's value"""
        t = fx.kt[k]
        if t[0] == "fcall" and t[1] == "wg_decode_record": return (t[3], 0)
        if t[0] != "gep": return None
        b = fx.kt[t[1]]
        if b[0] == "fcall" and b[1] == "wg_decode_record" and not t[3]: return (b[3], t[2])
        if s.segleaf(fx, t[1]):
            if len(t[3]) == 1 and t[3][0][1] == 1:
                x = t[3][0][0]; c = t[2]
                while fx.kt[x][0] == "add" and fx.cval(fx.kt[x][2]) is not None: c += fx.cval(fx.kt[x][2]); x = fx.kt[x][1]
                return (x, c)
        return None
    def isoff(s, fx, k, ptr):
        """k == ptrtooffset(ptr)"""
        t = fx.kt[k]
        if t[0] == "sub" and t[1] == ptr and s.segleaf(fx, t[2]): return True
        if t[0] == "fcall" and t[1] == "wg_encode_record" and t[3] == ptr: return True
        d = fx.fn.defs.get(t[1]) if t[0] == "ssa" else None      # name lost where paths were merged
        if d is not None and d.op == "sub" and fx.kt[ptr] == ("ssa", s.plain(fx, d.args[0])):
            x = s.plain(fx, d.args[1])
            return x in fx.fn.defs and is_seg(fx.fn.defs[x])
        return False
    def plain(s, fx, o):
        while isinstance(o, int) and o in fx.fn.defs and fx.fn.defs[o].op in ("ptrtoint", "bitcast", "inttoptr", "freeze"): o = fx.fn.defs[o].args[0]
        return o
    def unmask(s, fx, k):
        t = fx.kt[k]
        while t[0] == "and" and fx.cval(t[2]) in (-8, -4): k = t[1]; t = fx.kt[k]
        return k
    # --- locality of the scenario's value
    def local_edge(s, fx, st, k, truth, x, loc):
        """False if this branch contradicts the locality of the value x"""
        t = fx.kt[k]
        while True:
            if t[0] == "not": truth = not truth; t = fx.kt[t[1]]
            elif t[0] in ("zext", "sext", "trunc"): t = fx.kt[t[1]]
            elif t[0] == "icmp" and t[1] == "eq" and fx.cval(t[3]) == 0 and fx.kt[t[2]][0] in ("zext", "icmp", "not", "sext", "trunc"):
                truth = not truth; t = fx.kt[t[2]]
            else: break
        if t[0] != "icmp": return True
        d = fx.fn.defs
        def isld(kk, fld):
            q = fx.kt[kk]
            return q[0] == "ssa" and q[1] in d and d[q[1]].op == "load" and d[q[1]].fld.endswith(fld)
        if t[1] == "slt" and isld(t[3], "_db_memsegment_header.size") and s.unmask(fx, t[2]) == x:
            if loc in ("extneg", "unk"): return True
            return truth == (loc == "loc")
        if t[1] == "slt" and isld(t[2], "_db_memsegment_header.size") and s.unmask(fx, t[3]) == x:
            return (not truth) if loc == "loc" else True
        if t[1] == "eq" and type(truth) is bool:
            a, b = t[2], t[3]
            if s.segleaf(fx, a) and s.segleaf(fx, b): return truth
            for p, q in ((a, b), (b, a)):
                u = fx.kt[p]
                if s.segleaf(fx, q) and u[0] == "gep" and s.segleaf(fx, u[1]) and u[3]: return not truth
        return True

class FieldRule(Base):
    """one scenario of wg_set_field / wg_set_new_field / wg_delete_record.  side: which value the scenario fixes."""
    def __init__(s, fn, names, side, kind, loc, props):
        s.f = fn; s.n = names; s.side = side; s.kind = kind; s.loc = loc; s.props = props
        s.cnt = {}; s.delete = fn.name == "wg_delete_record"; s.new = fn.name == "wg_set_new_field"
        s.zs = set()
    def c(s, what, i): s.cnt.setdefault(what, set()).add(i.where())
    def start(s, fx):
        s.rec = fx.leaf(1); s.fnr = fx.leaf(2); s.data = fx.leaf(3) if not s.delete else None
        if s.side == "new":
            for k, v in kind_facts(fx, s.data, s.kind, s.loc): fx.init_vals[k] = meet(fx.init_vals.get(k, TOP), v)
        return [()]
    def redefine(s, fx, st, ids, keep, ins):
        if st.a == DEAD: return
        d = D(st.a)
        if d.get("match") in ids: d.pop("match")
        ch = [n for n in ("zs", "cur") if n in d and ids & set(sum((list(fx.kleaf[k]) for k in (d[n] if isinstance(d[n], frozenset) else (d[n],))), []))]
        for n in ch:
            if n == "cur": continue
            d[n] = frozenset(k for k in d[n] if not (fx.kleaf[k] & ids))
        st.a = A(**{k: v for k, v in d.items() if v not in (0, None, frozenset())})
    def isfield(s, fx, st, i):
        """the access is to a data field of the record"""
        k = fx.key(st, addr_of(i)); t = fx.kt[k]
        if s.delete:
            if t[0] == "gep" and t[1] == s.rec and not t[3]: return t[2] >= 24
            if t[0] == "gep" and t[1] == s.rec: return True
            return k != s.rec and field_of(s.f, addr_of(i), {1})
        return t[0] == "gep" and t[1] == s.rec and t[2] == 24 and t[3] == ((s.fnr, 8),)
    def isfld(s, fx, k, off):
        """k is the content of the record's header word at this offset"""
        t = fx.kt[k]
        if t[0] != "ssa" or t[1] not in s.f.defs: return False
        d = s.f.defs[t[1]]
        if d.op != "load": return False
        return (("ptr", 1, off) in [(r[0], r[1], r[2]) for r in addr_roots(s.f, d.args[0])])
    def value(s, fx, st, k):
        """'new', 'old' or None: the encoded value the offset key stands for"""
        x = s.unmask(fx, k)
        if s.data is not None and x == s.data: return "new"
        if x == s.get(st, "cur", None) and x is not None: return "old"
        return None
    def slot(s, fx, st, i):
        """the address is a link of a back reference list: list head of a record or the next link of a cell"""
        if i.fld == "gcell.cdr": return True
        k = fx.key(st, addr_of(i)); oa = s.offaddr(fx, k)
        if oa is not None: return oa[1] == 16 and s.value(fx, st, oa[0]) or False
        r = addr_roots(s.f, addr_of(i)); ok = bool(r)
        for kd, x, off, fld in r:
            if fld == "gcell.cdr": continue
            if kd == "off" and off == 16: continue
            d = s.f.defs.get(x) if isinstance(x, int) else None
            if off == 16 and d is not None and d.op == "call" and d.callee() == "wg_decode_record": continue
            ok = False
        return ok
    def excused(s, fx, st):
        """no index can contain the field"""
        d = D(st.a)
        return d.get("spec") == 1 or d.get("big") == 1 or (d.get("t1") == "z" and d.get("t2") == "z")
    def touch(s, fx, st, i, what):
        """effects of any kind on shared data: what must have been settled before"""
        if s.delete and not s.get(st, "nobl"): s.rep(fx, st, i, "C19", "delete-referenced", "%s although the record may still be referred to" % what)
        if s.delete and not (s.get(st, "spec") == 1 or s.get(st, "delidx")): s.rep(fx, st, i, "C18", "delete-index", "%s before the record is removed from the indexes" % what)
    def done_item(s, fx, st, i):
        """the handling of the current old value is over"""
        if not s.delete or s.get(st, "cur", None) is None: return st.a
        s.old_done(fx, st, i)
        d = D(st.a)
        for n in ("cur", "rel", "unl", "ufree", "curlv"): d.pop(n, None)
        return A(**d)
    def old_done(s, fx, st, i):
        if s.side != "old": return
        d = D(st.a)
        if s.kind == "rec" and s.loc == "loc":
            s.c("unlinked", i)
            if d.get("unl", 0) != 1: s.rep(fx, st, i, "C19", "unlink", "the back reference of the overwritten or deleted record reference is %s" % ("not removed" if not d.get("unl") else "removed twice"))
            elif d.get("ufree", 0) == 0: s.rep(fx, st, i, "C19", "unlink", "the list cell of the removed back reference is not released")
        elif d.get("unl"): s.rep(fx, st, i, "C19", "unlink", "a back reference is removed for a value that is no local record")
        if s.kind in FREED:
            if s.loc == "loc": s.c("released", i)
            if s.loc == "loc" and d.get("rel", 0) != 1:
                s.rep(fx, st, i, "C20", "release", "the old value (%s) is %s" % (s.kind, "not released" if not d.get("rel") else "released twice"))
        if s.delete and s.side == "old" and s.loc == "loc" and s.kind == "rec" and d.get("rel", 0) > 1: pass
    def step(s, fx, st, i):
        if st.a == DEAD: return []
        op = i.op; d = D(st.a)
        if op == "load":
            if i.fld == "gcell.cdr" and d.get("ufree", 0) not in (0, 1):
                oa = s.offaddr(fx, fx.key(st, i.args[0]))
                if oa and oa[0] == d["ufree"] and fx.key(st, i.args[0]) not in st.mem:
                    s.rep(fx, st, i, "C19", "use-after-release", "reads the link of a list cell after it was released")
            if i.fld.endswith(INDEXTAB) or i.fld.endswith(TMPLTAB):
                t = fx.kt[fx.key(st, i.args[0])]
                if not s.delete and t[0] == "gep" and t[3] == ((s.fnr, 8),):
                    s.c("index table lookup", i)
                    v = fx.kval(st, s.fnr)
                    if v[1] is None or v[1] > 127: s.rep(fx, st, i, "C18", "table-range", "looks the field up in the index table without knowing that its number is in the range of the table")
                    n = "t1" if i.fld.endswith(INDEXTAB) else "t2"
                    if fx.key(st, i.args[0]) in st.mem: return None
                    return [Fork(s.put(st, **{n: "z"}), const(0)), Fork(st.a, NZ)]
            if s.isfield(fx, st, i):
                L = fx.leaf(i.id)
                if s.delete:
                    base = s.done_item(fx, st, i)
                    m = st.mem.get(fx.key(st, i.args[0]))
                    if m: return None
                    nd = D(base); nd["cur"] = L; nd["live"] = (i.id,); nd["seen"] = 1
                    a = A(**nd)
                else:
                    if d.get("store") or fx.key(st, i.args[0]) in st.mem: return None
                    a = s.put(st, cur=L, live=(i.id,))
                if s.side == "old":
                    return [Fork(a, kind_facts(fx, L, s.kind, s.loc))]
                return [a]
            return None
        if op == "store" or op in ("cmpxchg", "atomicrmw"):
            k = fx.key(st, addr_of(i)); t = fx.kt[k]; b = fx.kt[fx.abase(k)]
            if b[0] in ("alloca", "k") or (b[0] == "ssa" and b[1] in s.f.defs and s.f.defs[b[1]].op == "call" and s.f.defs[b[1]].callee() in ("malloc", "calloc")): return None
            zs = set(d.get("zs", ()))
            for a, (v, f) in st.mem.items():
                tv = fx.kval(st, v)
                if isconst(tv) and tv[0] == 0: zs.add(a)
            d["zs"] = frozenset(a for a in zs if a != k)
            vk = fx.key(st, i.args[0]) if op == "store" else None
            if not s.delete and s.isfield(fx, st, i):
                s.c("field store", i)
                if d.get("store"): s.rep(fx, st, i, "C18", "store-twice", "the field is stored twice")
                if vk != s.data: s.rep(fx, st, i, "C18", "stored-value", "stores another value than the one given")
                if not (d.get("delidx") or s.excused(fx, st)): s.rep(fx, st, i, "C18", "remove-before", "the field changes before the record is removed from the indexes on it")
                if not (d.get("p1") == "done" or d.get("nobl")): s.rep(fx, st, i, "C18", "parents-before", "the field changes before the rows of the records that refer to this record are removed from the indexes")
                if s.loc in ("ext", "extneg") and s.side == "new" and not d.get("reg") == 3:
                    s.rep(fx, st, i, "C29", "unregistered", "stores a reference to another database without having found the database among the registered ones")
                d["store"] = 1; d["dirty"] = 1
                return [A(**d)]
            what = "changes shared data"
            oa = s.offaddr(fx, k)
            d["dirty"] = 1
            # stores through addresses derived from the values
            val = s.value(fx, st, oa[0]) if oa else None
            if val == s.side and s.loc in ("ext", "extneg"):
                s.rep(fx, st, i, "C29", "external-store", "changes data at an address in another database")
            if val and oa[1] == 16 and s.unmask(fx, oa[0]) != oa[0] or (val == s.side and s.kind == "longstr"):
                # reference count
                s.c("reference count change", i)
                tt = fx.kt[vk] if vk is not None else ("?",)
                isinc = tt[0] == "add" and fx.cval(tt[2]) == 1 and oa[1] == 16 and s.loadof(fx, st, tt[1], k)
                if not isinc: s.rep(fx, st, i, "C20", "refcount", "the reference count is changed other than by one")
                if val == "new":
                    if s.side == "new" and s.kind != "longstr": s.rep(fx, st, i, "C20", "refcount", "changes a reference count of a value that has none (%s)" % s.kind)
                    if s.side == "new" and d.get("inc"): s.rep(fx, st, i, "C20", "refcount", "the reference count of the new value is increased twice")
                    if d.get("rel") and d.get("cur") is not None: s.rep(fx, st, i, "C20", "refcount-order", "the old value is released before the reference count of the new value is increased")
                    d["inc"] = 1
                return [A(**d)]
            if oa and d.get("cell") is not None and fx.leaf(d["cell"]) == oa[0]:
                if oa[1] == 0:
                    d["car"] = 1 if vk is not None and s.isoff(fx, vk, s.rec) else 2
                elif oa[1] == 8: d["cdr"] = vk; d["live"] = tuple(set(d.get("live", ())) | set(fx.kleaf[vk]))
                return [A(**d)]
            if s.slot(fx, st, i):
                s.c("link store", i)
                if s.side == "old" and s.kind != "rec" and vk != fx.leaf(d.get("cell", -1)) and s.value(fx, st, oa[0] if oa else vk) == "old":
                    s.rep(fx, st, i, "C19", "unlink", "changes a link although the old value is no record")
                if d.get("cell") is not None and vk == fx.leaf(d["cell"]):
                    if d.get("link"): s.rep(fx, st, i, "C19", "link", "the new back reference is linked twice")
                    m = st.mem.get(k); zero = k in zs
                    cont = m[0] if m else None
                    d["link"] = 1 if zero else ("c", cont)
                    return [A(**d)]
                # unlink
                ld = s.ldef(fx, vk)
                okv = ld is not None and ld.fld == "gcell.cdr"
                cell = None
                if okv:
                    la = s.offaddr(fx, fx.key(st, ld.args[0]))
                    cell = la[0] if la else None
                if not okv: s.rep(fx, st, i, "C19", "link-value", "a link of a back reference list is set to something that is neither the new cell nor the link of a removed cell"); return [A(**d)]
                if not s.matched(fx, st): s.rep(fx, st, i, "C19", "unlink-which", "removes a back reference without having found that it is the one to this record")
                s.touch(fx, st, i, "removes a back reference")
                d["unl"] = d.get("unl", 0) + 1
                if cell is not None:
                    d["ucell"] = cell; d["live"] = tuple(set(d.get("live", ())) | set(fx.kleaf[cell]))
                    if d.get("ufree", 0) not in (0, 1) and d["ufree"] != cell: s.rep(fx, st, i, "C19", "unlink-free", "releases another list cell than the one that is removed")
                return [A(**d)]
            return [A(**d)]
        if op != "call": return None
        c = i.callee()
        args = [fx.key(st, a) for a in i.args]
        if c in ("wg_index_del_field", "wg_index_add_field"):
            ok = args[1:3] == [s.rec, s.fnr] if not s.delete else False
            if not ok: return None
            if c == "wg_index_del_field":
                s.c("index removal", i)
                if d.get("store"): s.rep(fx, st, i, "C18", "remove-before", "removes the record from the indexes after the field was changed")
                d["delidx"] = 1
            else:
                s.c("index insertion", i)
                if not d.get("store"): s.rep(fx, st, i, "C18", "add-after", "inserts the record into the indexes before the field was changed")
                if d.get("addidx"): s.rep(fx, st, i, "C18", "add-after", "inserts the record into the indexes twice")
                d["addidx"] = 1
            d["dirty"] = 1
            return [A(**d)]
        if c == "wg_index_del_rec" and s.delete and args[1] == s.rec:
            s.c("index removal", i); d["delidx"] = 1
            if not d.get("nobl"): s.rep(fx, st, i, "C19", "delete-referenced", "removes the record from the indexes although it may still be referred to")
            d["dirty"] = 1
            return [A(**d)]
        if c in (s.n["remove"], s.n["restore"]) and not s.delete:
            s.c("referring records", i)
            oa = s.offaddr(fx, args[1]); ld = s.ldef(fx, oa[0]) if oa and oa[1] == 0 else None
            enc = fx.kt[args[2]]
            if not (ld is not None and ld.fld == "gcell.car"): s.rep(fx, st, i, "C18", "parents", "the referring record is not taken from the back reference list")
            if not (s.isoff(fx, args[2], s.rec)): s.rep(fx, st, i, "C18", "parents", "the rows of referring records are looked for with another value than this record")
            s.depth.setdefault(c, set()).add(fx.kval(st, args[3]))
            n = "p1" if c == s.n["remove"] else "p2"
            if n == "p2" and not d.get("store"): s.rep(fx, st, i, "C18", "parents", "restores rows of referring records before the field was changed")
            if n == "p1" and d.get("store"): s.rep(fx, st, i, "C18", "parents-before", "removes rows of referring records after the field was changed")
            d[n] = "visited"; d["dirty"] = 1
            return [A(**d)]
        if c == s.n["release"]:
            v = s.value(fx, st, args[1])
            s.c("release", i)
            if args[1] == s.data: s.rep(fx, st, i, "C20", "release", "releases the new value")
            elif args[1] == d.get("cur"):
                d["rel"] = d.get("rel", 0) + 1
                if s.side == "new" and s.kind == "longstr" and s.loc == "loc" and not d.get("inc"):
                    s.rep(fx, st, i, "C20", "refcount-order", "the old value is released before the reference count of the new value is increased")
                if not s.delete and not (d.get("delidx") or s.excused(fx, st)): s.rep(fx, st, i, "C18", "remove-before", "the old value is released before the record is removed from the indexes")
                if not s.delete and not (d.get("p1") == "done" or d.get("nobl")): s.rep(fx, st, i, "C18", "parents-before", "the old value is released before the rows of the referring records are removed from the indexes")
                s.touch(fx, st, i, "releases a field value")
                if s.new: s.rep(fx, st, i, "C20", "release", "releases a value although the field was empty")
            elif v is None: s.rep(fx, st, i, "C20", "release", "releases something that is not the old value of the field")
            d["dirty"] = 1
            return [A(**d)]
        if c in ("wg_free_shortstr", "wg_free_doubleword", "wg_free_word", "wg_free_tinystr"):
            s.rep(fx, st, i, "C20", "release", "releases storage directly (%s)" % c); return [A(**d)]
        if c == "wg_free_listcell" or (c == "wg_free_fixlen_object" and len(args) == 3 and s.isarea(fx, args[1], "listcell_area_header")):
            x = args[-1]
            if d.get("cell") is not None and x == fx.leaf(d["cell"]):
                d["cellfree"] = 1
                if d.get("link"): s.rep(fx, st, i, "C19", "link", "releases the linked list cell of the new back reference")
                return [A(**d)]
            s.c("list cell release", i)
            if d.get("ufree"): s.rep(fx, st, i, "C19", "unlink-free", "a list cell is released twice")
            if d.get("unl") and d.get("ucell") is not None and d.get("ucell") != x and not s.samecell(fx, st, d["ucell"], x):
                s.rep(fx, st, i, "C19", "unlink-free", "releases another list cell than the one that is removed")
            d["ufree"] = x; d["live"] = tuple(set(d.get("live", ())) | set(fx.kleaf[x])); d["dirty"] = 1
            return [A(**d)]
        if c == "wg_alloc_fixlen_object" and s.isarea(fx, args[1], "listcell_area_header"):
            s.c("list cell", i)
            ok = dict(d); ok["cell"] = i.id; ok["live"] = tuple(set(d.get("live", ())) | {i.id})
            return [Fork(A(**ok), NZ), Fork(A(**d), const(0))]
        if c == "wg_free_object":
            if s.delete and s.isarea(fx, args[1], "datarec_area_header") :
                s.c("record release", i)
                a = s.done_item(fx, st, i); d = D(a)
                st2 = st
                if not s.isoff(fx, args[2], s.rec): s.rep(fx, st, i, "C20", "record-release", "releases other storage than that of the record")
                if not d.get("nobl"): s.rep(fx, st, i, "C19", "delete-referenced", "releases the record although it may still be referred to")
                if not (d.get("spec") == 1 or d.get("delidx")): s.rep(fx, st, i, "C18", "delete-index", "releases the record before it is removed from the indexes")
                if not d.get("all"): s.rep(fx, st, i, "C20", "all-fields", "releases the record without having gone through all its fields")
                if d.get("recfree"): s.rep(fx, st, i, "C20", "record-release", "releases the record twice")
                d["recfree"] = 1; d["dirty"] = 1
                return [A(**d)]
            s.rep(fx, st, i, "C20", "release", "releases storage directly (wg_free_object)")
        return None
    def matched(s, fx, st): return s.get(st, "match", None) is not None
    def ismatch(s, fx, k, truth):
        """the branch establishes that a list cell names this record"""
        t = fx.kt[k]
        while t[0] == "not": truth = not truth; t = fx.kt[t[1]]
        if truth is True and t[0] == "icmp" and t[1] == "eq":
            for p, q in ((t[2], t[3]), (t[3], t[2])):
                ld = s.ldef(fx, q)
                if s.isoff(fx, p, s.rec) and ld is not None and ld.fld == "gcell.car": return ld.id
        return None
    def samecell(s, fx, st, a, b):
        la, lb = s.ldef(fx, a), s.ldef(fx, b)
        return la is not None and lb is not None and fx.key(st, la.args[0]) == fx.key(st, lb.args[0])
    def ldef(s, fx, k):
        t = fx.kt[k]
        if t[0] != "ssa": return None
        d = s.f.defs.get(t[1])
        return d if d is not None and d.op == "load" else None
    def loadof(s, fx, st, k, addr):
        """k is the content of addr"""
        m = st.mem.get(addr)
        if m and m[0] == k: return True
        ld = s.ldef(fx, k)
        return ld is not None and fx.key(st, ld.args[0]) == addr
    def edge(s, fx, st, t, k, truth):
        if st.a == DEAD: return DEAD
        d = D(st.a)
        x = s.data if s.side == "new" else d.get("cur")
        if x is not None and isinstance(truth, bool) and not s.local_edge(fx, st, k, truth, x, s.loc): return DEAD
        if s.loc in ("ext", "extneg") and x is not None and s.side == "new":
            d["reg"] = d.get("reg", 0) | s.registered(fx, k, truth, x)
        if s.delete and not s.local_rec(fx, k, truth): return DEAD
        # sticky facts
        if d.get("spec") != 1:
            for l in fx.kleaf[k]:
                if s.isfld(fx, fx.leaf(l), 8):
                    a = fx.ki.get(("and", fx.leaf(l), fx.kconst(1)))
                    if a is not None and isconst(fx.kval(st, a)): d["spec"] = 1 if fx.kval(st, a)[0] else 2
        if not s.delete and not d.get("big"):
            v = fx.kval(st, s.fnr)
            if v[0] is not None and v[0] > 127: d["big"] = 1
        for l in fx.kleaf[k]:
            L = fx.leaf(l); v = fx.kval(st, L)
            if s.isfld(fx, L, 16) and v == const(0): d["nobl"] = 1
            ld = s.f.defs.get(l)
            if ld is not None and ld.op == "load" and ld.fld == "gcell.cdr":
                if v == const(0):
                    for n in ("p1", "p2"):
                        if d.get(n) == "visited": d[n] = "done"
                        elif d.get(n) == "pending": d[n] = "skipped"
                elif nonzero(v):
                    for n in ("p1", "p2"):
                        if d.get(n) == "visited" and (n == "p2") == bool(d.get("store")): d[n] = "pending"
        m = s.ismatch(fx, k, truth)
        if m is not None: d["match"] = m; d["live"] = tuple(set(d.get("live", ())) | {m})
        if s.delete and isinstance(truth, bool) and s.loop_end(fx, st, k, truth): d["all"] = 1
        return A(**{a: b for a, b in d.items() if b not in (0, None)})
    def loop_end(s, fx, st, k, truth):
        """the branch leaves the loop over the fields: the position has reached the end of the record"""
        t = fx.kt[k]
        while t[0] == "not": truth = not truth; t = fx.kt[t[1]]
        if t[0] != "icmp" or t[1] not in ("slt", "ult", "eq"): return False
        if t[1] == "eq":
            return truth and (s.isend(fx, t[2]) or s.isend(fx, t[3]))
        return (not truth and s.isend(fx, t[3]))
    def isend(s, fx, k):
        t = fx.kt[k]
        if t[0] == "fcall" and t[1] == "wg_get_record_len" and t[3] == s.rec: return True
        if t[0] == "gep" and t[1] == s.rec and t[2] == 0 and len(t[3]) == 1 and t[3][0][1] == 1:
            q = fx.kt[t[3][0][0]]
            return q[0] == "and" and fx.cval(q[2]) == -4 and s.isfld0(fx, q[1])
        if t[0] == "add" and fx.cval(t[2]) == -3:
            q = fx.kt[t[1]]
            if q[0] in ("ashr", "lshr") and fx.cval(q[2]) == 3:
                q = fx.kt[q[1]]
                return q[0] == "and" and fx.cval(q[2]) == -4 and s.isfld0(fx, q[1])
        return False
    def isfld0(s, fx, k):
        ld = s.ldef(fx, k)
        return ld is not None and ld.args[0] == 1 or (ld is not None and ("ptr", 1, 0) in [(r[0], r[1], r[2]) for r in addr_roots(s.f, ld.args[0])])
    def registered(s, fx, k, truth, x):
        t = fx.kt[k]
        while t[0] == "not": truth = not truth; t = fx.kt[t[1]]
        if t[0] != "icmp" or t[1] != "slt": return 0
        def has(kk, fld):
            return any(l in s.f.defs and s.f.defs[l].op == "load" and s.f.defs[l].fld.endswith(fld) for l in fx.kleaf[kk])
        if truth and s.unmask(fx, t[2]) == x and has(t[3], "extdbs.offset[]") and has(t[3], "extdbs.size[]"): return 1
        if truth and s.unmask(fx, t[3]) == x and has(t[2], "extdbs.offset[]") and not has(t[2], "extdbs.size[]"): return 2
        return 0
    def local_rec(s, fx, k, truth):
        """wg_delete_record: the scenario of an external record"""
        if s.kind != "recext": 
            return True
        t = fx.kt[k]
        while t[0] == "not": truth = not truth; t = fx.kt[t[1]]
        if t[0] != "icmp" or t[1] != "slt": return True
        ld = s.ldef(fx, t[3])
        if ld is not None and ld.fld.endswith("_db_memsegment_header.size") and s.isoff(fx, t[2], s.rec): return not truth
        return True
    def ret(s, fx, st, i):
        if st.a == DEAD: return
        d = D(st.a); v = fx.val(st, i.args[0])
        okish = not disjoint(v, const(0))
        s.c("return", i)
        if s.kind == "recext":
            if d.get("dirty") or okish: s.rep(fx, st, i, "C29", "external-record", "an external record is deleted")
            return
        if d.get("rel") and not d.get("store") and not s.delete: s.rep(fx, st, i, "C20", "dangling", "returns with the old value released while the field still refers to it")
        if not okish: 
            return
        if s.delete:
            if not d.get("recfree"): s.rep(fx, st, i, "C20", "record-release", "reports success without having released the record")
            return
        if not d.get("store"):
            e = fx.ki.get(("icmp", "eq", s.data, d["cur"])) if d.get("cur") is not None else None
            e2 = fx.ki.get(("icmp", "eq", d["cur"], s.data)) if d.get("cur") is not None else None
            same = any(q is not None and fx.kval(st, q) == const(1) for q in (e, e2)) or (d.get("cur") is not None and isconst(fx.kval(st, s.data)) and fx.kval(st, s.data) == fx.kval(st, d["cur"]))
            if not same: s.rep(fx, st, i, "C18", "not-stored", "reports success without having stored the value")
            elif d.get("dirty"): s.rep(fx, st, i, "C18", "not-stored", "changes shared data although the value stays the same")
            if d.get("cell") is not None and not d.get("cellfree"): s.rep(fx, st, i, "C19", "link", "the list cell taken for a back reference is neither linked nor released")
            return
        if not (d.get("addidx") or s.excused(fx, st)): s.rep(fx, st, i, "C18", "add-after", "the record is not inserted into the indexes after the field was changed")
        if not (d.get("p2") == "done" or d.get("nobl")): s.rep(fx, st, i, "C18", "parents-after", "the rows of the records that refer to this record are not restored in the indexes")
        if s.side == "new":
            if s.kind == "rec" and s.loc == "loc":
                s.c("linked", i)
                if not d.get("link"): s.rep(fx, st, i, "C19", "link", "a reference to a record is stored without a back reference")
                else:
                    if d.get("car") != 1: s.rep(fx, st, i, "C19", "link", "the back reference does not name this record")
                    cv = fx.kval(st, d["cdr"]) if d.get("cdr") is not None else TOP
                    if d["link"] == 1:
                        if cv != const(0): s.rep(fx, st, i, "C19", "link", "the last cell of the back reference list does not end the list")
                    elif d.get("cdr") is None or d["link"][1] != d["cdr"]:
                        s.rep(fx, st, i, "C19", "link", "the new back reference is written over a link whose content is not kept")
            elif d.get("link"):
                s.rep(fx, st, i, "C29" if s.loc.startswith("ext") else "C19", "link", "a back reference is made for a value that is no local record")
            if s.kind == "longstr" and s.loc == "loc":
                s.c("counted", i)
                if not d.get("inc"): s.rep(fx, st, i, "C20", "refcount", "a long value is stored without increasing its reference count")
            elif d.get("inc"): s.rep(fx, st, i, "C20", "refcount", "a reference count is increased for a value that has none")
        if s.side == "old" and not s.new: s.old_done(fx, st, i)
        if not d.get("link") and d.get("cell") is not None and not d.get("cellfree"): s.rep(fx, st, i, "C19", "link", "the list cell taken for a back reference is neither linked nor released")

def discover(m):
    """the (static) helpers by what they do"""
    out = {}
    for f in m.funcs.values():
        cs = [c.callee() for c in f.calls()]
        if f.file == "Db/dbdata.c" and "wg_remove_from_strhash" in cs: out["release"] = f.name
        if f.name in cs and "wg_index_del_field" in cs: out["restore" if "wg_index_add_field" in cs else "remove"] = f.name
    for n in ("release", "remove", "restore"):
        if n not in out: raise Broken("the %s helper of the record operations was not found" % n)
    return out

SCEN = [(k, l) for k in PTRK for l in ("loc", "ext", "extneg")] + [("null", "loc"), ("imm3", "loc"), ("imm7", "loc")]
_memo = {}
def field_ops(m):
    n = discover(m)
    jobs = []
    for fn in ("wg_set_field", "wg_set_new_field", "wg_delete_record"):
        m.fn(fn)
        for k, l in SCEN:
            if fn != "wg_delete_record": jobs.append((fn, "new", k, l))
            if fn != "wg_set_new_field": jobs.append((fn, "old", k, l))
    jobs.append(("wg_delete_record", "none", "recext", "ext"))
    def one(j):
        r = FieldRule(m.fn(j[0]), n, j[1], j[2], j[3], ()); r.depth = {}
        fx = Flow(m.fn(j[0]), r); fx.run()
        return j, {k: sorted(v) for k, v in r.cnt.items()}, {k: list(v) for k, v in r.depth.items()}, [(d["prop"], d["rule"], d["msg"], d["where"], d["path"]) for d in fx.reports], fx.paths_states
    return n, pmap(one, jobs)

# ------------------------------------------------------------------ release of values
class RelRule(Base):
    """the release helper (and wg_free_encoded): exactly the storage of the value is released"""
    FREES = {"wg_free_shortstr": "shortstr", "wg_free_doubleword": "fulldouble", "wg_free_word": "fullint"}
    AREAS = {"shortstr_area_header": "shortstr", "doubleword_area_header": "fulldouble", "word_area_header": "fullint"}
    def __init__(s, fn, names, kind, loc):
        s.f = fn; s.n = names; s.kind = kind; s.loc = loc; s.cnt = {}
        s.outer = fn.name != names["release"]; s.delete = False; s.data = None
    c = FieldRule.c; ldef = FieldRule.ldef; loadof = FieldRule.loadof
    def start(s, fx):
        s.x = fx.leaf(1)
        for k, v in kind_facts(fx, s.x, s.kind, s.loc): fx.init_vals[k] = meet(fx.init_vals.get(k, TOP), v)
        return [()]
    def edge(s, fx, st, t, k, truth):
        if st.a == DEAD: return DEAD
        if isinstance(truth, bool) and not s.local_edge(fx, st, k, truth, s.x, s.loc): return DEAD
        if s.outer and not D(st.a).get("bad") and s.badhandle(fx, st): return A(**dict(D(st.a), bad=1))
    def step(s, fx, st, i):
        if st.a == DEAD: return []
        d = D(st.a); op = i.op
        if op == "load":
            oa = s.offaddr(fx, fx.key(st, i.args[0]))
            if oa and s.unmask(fx, oa[0]) == s.x and fx.key(st, i.args[0]) not in st.mem:
                if oa[1] == 16 and not d.get("cntst"): d["cntv"] = i.id; d["live"] = tuple(set(d.get("live", ())) | {i.id}); return [A(**d)]
                if oa[1] == 40: d["extra"] = i.id; d["live"] = tuple(set(d.get("live", ())) | {i.id}); return [A(**d)]
            return None
        if op in ("store", "cmpxchg", "atomicrmw"):
            k = fx.key(st, addr_of(i)); b = fx.kt[fx.abase(k)]
            if b[0] in ("alloca", "k") or (b[0] == "ssa" and b[1] in s.f.defs and s.f.defs[b[1]].op == "call" and s.f.defs[b[1]].callee() in ("malloc", "calloc")): return None
            oa = s.offaddr(fx, k); vk = fx.key(st, i.args[0])
            if s.loc.startswith("ext"): s.rep(fx, st, i, "C29", "external-store", "changes data of another database")
            if not oa or s.unmask(fx, oa[0]) != s.x: s.rep(fx, st, i, "C20", "release", "changes other data than the value that is released"); return None
            if s.kind != "longstr": s.rep(fx, st, i, "C20", "release", "changes the storage of a value (%s) that has no reference count" % s.kind); return None
            if d.get("freed"): s.rep(fx, st, i, "C20", "use-after-release", "changes the value after its storage was released")
            if oa[1] == 16:
                s.c("reference count change", i)
                t = fx.kt[vk]; want = 1 if s.outer else -1
                if not (t[0] == "add" and fx.cval(t[2]) == want and s.loadof(fx, st, t[1], k)): s.rep(fx, st, i, "C20", "refcount", "the reference count is changed other than by one")
                if d.get("cntst"): s.rep(fx, st, i, "C20", "refcount", "the reference count is changed twice")
                if not s.outer:
                    v = fx.kval(st, vk)
                    if v[0] is None or v[0] < 1: s.rep(fx, st, i, "C20", "refcount", "keeps a value whose reference count has reached zero")
                if d.get("call"): s.rep(fx, st, i, "C20", "refcount-order", "the value is released before its reference count is increased")
                d["cntst"] = 1
                return [A(**d)]
            if oa[1] == 40 and (fx.cval(vk) == 0): return None
            s.rep(fx, st, i, "C20", "release", "changes a word of the value that is released")
            return None
        if op != "call": return None
        c = i.callee(); args = [fx.key(st, a) for a in i.args]
        if c == s.n["release"]:
            s.c("nested release", i)
            if s.outer:
                if args[1] != s.x: s.rep(fx, st, i, "C20", "release", "releases something else than the value")
                if d.get("call"): s.rep(fx, st, i, "C20", "release", "releases the value twice")
                if s.kind == "longstr" and s.loc == "loc" and not d.get("cntst"): s.rep(fx, st, i, "C20", "refcount-order", "the reference count of the value is decreased without having been increased")
                d["call"] = 1
            else:
                e = d.get("extra")
                if s.kind != "longstr" or s.loc != "loc" or e is None or args[1] != fx.leaf(e): s.rep(fx, st, i, "C20", "release", "releases another value (not the extra string of a long value)")
                elif d.get("xfree"): s.rep(fx, st, i, "C20", "release", "releases the extra string twice")
                elif not s.dying(fx, st): s.rep(fx, st, i, "C20", "refcount", "releases the extra string of a value that is still referred to")
                d["xfree"] = 1
            return [A(**d)]
        kind = s.FREES.get(c); off = args[1] if kind else None
        if c == "wg_free_fixlen_object":
            for a, kd in s.AREAS.items():
                if s.isarea(fx, args[1], a): kind = kd; off = args[2]
            if kind is None: s.rep(fx, st, i, "C20", "release", "releases storage of an unexpected kind"); return None
        if kind:
            s.c("storage release", i)
            if s.loc.startswith("ext"): s.rep(fx, st, i, "C29", "external-release", "releases storage of another database")
            elif not s.kind.startswith(kind) or s.unmask(fx, off) != s.x: s.rep(fx, st, i, "C20", "release", "releases storage of another kind (%s) than that of the value (%s), or of something else" % (kind, s.kind))
            elif d.get("freed"): s.rep(fx, st, i, "C20", "release", "releases the storage twice")
            d["freed"] = 1
            return [A(**d)]
        if c == "wg_remove_from_strhash":
            s.c("string table removal", i)
            if s.loc.startswith("ext"): s.rep(fx, st, i, "C29", "external-release", "removes a value of another database from the string table")
            elif s.kind != "longstr" or s.unmask(fx, args[1]) != s.x: s.rep(fx, st, i, "C20", "release", "removes something else from the string table")
            elif not s.dying(fx, st): s.rep(fx, st, i, "C20", "refcount", "removes a value from the string table that is still referred to")
            if d.get("hash"): s.rep(fx, st, i, "C20", "release", "removes the value from the string table twice")
            d["hash"] = 1
            return [Fork(A(**d), const(0)), Fork(A(**dict(d, failed=1)), NZ)]
        if c == "wg_free_object":
            s.c("storage release", i)
            if s.loc.startswith("ext"): s.rep(fx, st, i, "C29", "external-release", "releases storage of another database")
            elif s.kind != "longstr" or not s.isarea(fx, args[1], "longstr_area_header") or s.unmask(fx, args[2]) != s.x: s.rep(fx, st, i, "C20", "release", "releases storage of another kind than that of the value (%s), or of something else" % s.kind)
            else:
                if not s.dying(fx, st): s.rep(fx, st, i, "C20", "refcount", "releases a value that is still referred to")
                if not d.get("hash") or d.get("failed"): s.rep(fx, st, i, "C20", "release", "releases a value that is still in the string table")
                if d.get("freed"): s.rep(fx, st, i, "C20", "release", "releases the storage twice")
            d["freed"] = 1
            return [A(**d)]
    def dying(s, fx, st):
        e = s.get(st, "cntv", None)
        if e is None: return False
        v = fx.kval(st, fx.leaf(e))
        return v[1] is not None and v[1] <= 1
    def ret(s, fx, st, i):
        if st.a == DEAD: return
        d = D(st.a); v = fx.val(st, i.args[0])
        s.c("return", i)
        if disjoint(v, const(0)): return
        if s.outer:
            # an invalid database pointer is answered with 0 too
            if s.kind in FREED and s.loc == "loc" and not d.get("call") and not d.get("bad"): s.rep(fx, st, i, "C20", "release", "reports success without having released the value (%s)" % s.kind)
            return
        if s.loc != "loc": return
        if s.kind in ("shortstr", "fulldouble", "fullint0", "fullint1"):
            if not d.get("freed"): s.rep(fx, st, i, "C20", "release", "the storage of a value (%s) is not released" % s.kind)
        if s.kind == "longstr" and not d.get("cntst"):
            if not d.get("freed"): s.rep(fx, st, i, "C20", "refcount", "neither decreases the reference count nor releases the value")
            else:
                e = d.get("extra")
                if e is None or (not d.get("xfree") and fx.kval(st, fx.leaf(e)) != const(0)): s.rep(fx, st, i, "C20", "release", "the extra string of a released value is not released with it")
    def badhandle(s, fx, st):
        for k, v in st.vals.items():
            t = fx.kt[k]
            if t[0] == "ssa" and t[1] in s.f.defs and s.f.defs[t[1]].op == "load":
                ld = s.f.defs[t[1]]
                if ld.fld == "db_handle.db" and v == const(0): return True
                a = fx.key(st, ld.args[0])
                if s.segleaf(fx, a) and excl(v): return True
        return fx.kval(st, fx.leaf(0)) == const(0)
def excl(v): return 1232319011 in v[2] or (v[1] is not None and v[1] < 1232319011) or (v[0] is not None and v[0] > 1232319011)

class ExtraRule(Base):
    """creation of a long value: its own count starts at zero and its extra string is counted"""
    def __init__(s, fn, kind):
        s.f = fn; s.kind = kind; s.cnt = {}; s.data = None; s.delete = False
        s.src = set()
        for i in fn.instrs():
            if i.op == "store":
                for kd, x, off, fld in addr_roots(fn, i.args[1]):
                    if kd == "off" and off == 40 and isinstance(i.args[0], int) and i.args[0] in fn.defs and fn.defs[i.args[0]].op == "call": s.src.add(i.args[0])
    c = FieldRule.c; ldef = FieldRule.ldef; loadof = FieldRule.loadof
    def start(s, fx): return [()]
    def edge(s, fx, st, t, k, truth):
        if st.a == DEAD: return DEAD
        x = s.get(st, "tmp", None)
        if x is not None and isinstance(truth, bool) and not s.local_edge(fx, st, k, truth, fx.leaf(x), "loc"): return DEAD
    def step(s, fx, st, i):
        if st.a == DEAD: return []
        d = D(st.a)
        if i.op == "call":
            if i.callee() == "wg_alloc_gints" and s.isarea(fx, fx.key(st, i.args[1]), "longstr_area_header"):
                d["obj"] = i.id; d["live"] = tuple(set(d.get("live", ())) | {i.id})
                return [Fork(A(**d), NZ), Fork((), const(0))]
            if i.id in s.src:
                d["tmp"] = i.id; d["live"] = tuple(set(d.get("live", ())) | {i.id})
                return [Fork(A(**d), kind_facts(fx, fx.leaf(i.id), s.kind, "loc") + ([(fx.leaf(i.id), mk(None, None, frozenset([255])))] if s.kind.startswith("imm") else []))]
            if i.callee() == "wg_free_object" and d.get("obj") is not None and s.unmask(fx, fx.key(st, i.args[2])) == fx.leaf(d["obj"]): d["gone"] = 1; return [A(**d)]
            return None
        if i.op == "store" and d.get("obj") is not None:
            k = fx.key(st, i.args[1]); vk = fx.key(st, i.args[0]); oa = s.offaddr(fx, k)
            if not oa: return None
            x = s.unmask(fx, oa[0])
            if x == fx.leaf(d["obj"]):
                if oa[1] == 16: d["count"] = 1 if fx.cval(vk) == 0 else 2
                if oa[1] == 40: d["xst"] = 1 if d.get("tmp") is not None and vk == fx.leaf(d["tmp"]) else 2 if fx.cval(vk) == 0 else 3
                return [A(**d)]
            if d.get("tmp") is not None and x == fx.leaf(d["tmp"]):
                s.c("extra string counted", i); t = fx.kt[vk]
                if not (oa[1] == 16 and t[0] == "add" and fx.cval(t[2]) == 1 and s.loadof(fx, st, t[1], k)): s.rep(fx, st, i, "C20", "refcount", "the reference count of the extra string is changed other than by one")
                if s.kind != "longstr": s.rep(fx, st, i, "C20", "refcount", "changes a reference count of an extra string that has none")
                if d.get("inc"): s.rep(fx, st, i, "C20", "refcount", "the reference count of the extra string is increased twice")
                d["inc"] = 1
                return [A(**d)]
    def ret(s, fx, st, i):
        if st.a == DEAD: return
        d = D(st.a); v = fx.val(st, i.args[0])
        s.c("return", i)
        if d.get("obj") is None or d.get("gone") or disjoint(v, NZ): return
        k = fx.key(st, i.args[0])
        if d["obj"] not in fx.kleaf[k]: return
        s.c("created", i)
        if d.get("count") != 1: s.rep(fx, st, i, "C20", "refcount", "the reference count of a new long value does not start at zero")
        if not d.get("xst") or d["xst"] == 3: s.rep(fx, st, i, "C20", "refcount", "the extra string link of a new long value is not set properly")
        if d.get("xst") == 1 and s.kind == "longstr" and not d.get("inc"): s.rep(fx, st, i, "C20", "refcount", "the extra string of a new long value is not counted")

def release_ops(m):
    n = discover(m); jobs = []
    for k, l in SCEN: jobs += [("rel", n["release"], k, l), ("rel", "wg_free_encoded", k, l)]
    ex = []
    for f in m.funcs.values():
        if f.file == "Db/dbdata.c" and ExtraRule(f, "longstr").src: ex.append(f.name)
    for f in ex: jobs += [("ext", f, k, "loc") for k in ("longstr", "shortstr", "null", "imm7")]
    if not ex: raise Broken("the creation of long values was not found")
    def one(j):
        r = RelRule(m.fn(j[1]), n, j[2], j[3]) if j[0] == "rel" else ExtraRule(m.fn(j[1]), j[2])
        fx = Flow(m.fn(j[1]), r); fx.run()
        return (j[1], "value", j[2], j[3]), {k: sorted(v) for k, v in r.cnt.items()}, {}, [(d["prop"], d["rule"], d["msg"], d["where"], d["path"]) for d in fx.reports], fx.paths_states
    return pmap(one, jobs)

# ------------------------------------------------------------------ index maintenance
class HelperRule(Base):
    """rows of the referring records: every field that holds the reference, and every referring record up to the given depth"""
    def __init__(s, fn, restore):
        s.f = fn; s.cnt = {}; s.restore = restore; s.data = None; s.delete = False
    c = FieldRule.c; ldef = FieldRule.ldef
    def start(s, fx):
        s.rec = fx.leaf(1); s.val = fx.leaf(2); s.depth = fx.leaf(3)
        return [()]
    def redefine(s, fx, st, ids, keep, ins):
        if st.a == DEAD: return
        d = D(st.a); it = d.get("it")
        if it is not None and (set(fx.kleaf[it]) & ids):
            s.close(fx, st, ins); d = D(st.a)
            for n in ("it", "del", "tz", "add"): d.pop(n, None)
            st.a = A(**d)
    def close(s, fx, st, i):
        d = D(st.a)
        if d.get("it") is None: return
        if d.get("tz"): return
        if not d.get("del"): s.rep(fx, st, i, "C18", "parents", "a field that refers to the changed record is not removed from the indexes")
        if s.restore and not d.get("add"): s.rep(fx, st, i, "C18", "parents", "a field that refers to the changed record is not inserted into the indexes")
    def fieldkey(s, fx, st, k):
        """column key of a loaded record field"""
        ld = s.ldef(fx, k)
        if ld is None: return None
        t = fx.kt[fx.key(st, ld.args[0])]
        if t[0] == "gep" and t[1] == s.rec and t[2] == 24 and len(t[3]) == 1 and t[3][0][1] == 8: return t[3][0][0]
        if t[0] == "gep" and t[1] == s.rec and t[2] >= 24 and not t[3]: return fx.kconst((t[2] - 24) // 8)
        return None
    def tabcol(s, fx, st, o):
        """column key of an index list head"""
        d = s.f.defs.get(o) if isinstance(o, int) else None
        if d is not None and d.op == "getelementptr" and len(d.d.get("vo", ())) == 1 and d.d["vo"][0][1] == 8 and d.d["off"] == 0: return fx.key(st, d.d["vo"][0][0])
        return None
    def edge(s, fx, st, t, k, truth):
        d = D(st.a)
        kk, tr = k, truth
        while fx.kt[kk][0] == "not": kk = fx.kt[kk][1]; tr = not tr
        q = fx.kt[kk]
        if q[0] == "icmp" and q[1] == "eq" and tr is True and s.val in q[2:]:
            col = s.fieldkey(fx, st, q[2] if q[3] == s.val else q[3])
            if col is not None:
                s.c("matching field", t)
                if d.get("it") is not None and d["it"] != col:
                    s.close(fx, st, t)
                    for n in ("del", "tz", "add"): d.pop(n, None)
                d["it"] = col; d["live"] = tuple(set(d.get("live", ())) | set(fx.kleaf[col]))
        if q[0] == "icmp" and q[1] == "slt" and tr is False and s.bound(fx, st, q[3]) and fx.cval(q[2]) in (None, 0): d["all"] = 1
        for l in fx.kleaf[k]:
            L = fx.leaf(l); v = fx.kval(st, L)
            if FieldRule.isfld(s, fx, L, 16) and v == const(0): d["nobl"] = 1
            if FieldRule.isfld(s, fx, L, 8):
                a = fx.ki.get(("and", L, fx.kconst(1)))
                if a is not None and isconst(fx.kval(st, a)) and fx.kval(st, a)[0]: d["spec"] = 1
            ld = s.f.defs.get(l)
            if ld is not None and ld.op == "load" and ld.fld == "gcell.cdr":
                if v == const(0): d["p"] = "done" if d.get("p") == "visited" else d.get("p")
                elif nonzero(v) and d.get("p") == "visited": d["p"] = "pending"
        v = fx.kval(st, s.depth)
        if v[1] is not None and v[1] <= 0: d["deep"] = 1
        return A(**{a: b for a, b in d.items() if b not in (0, None)})
    def bound(s, fx, st, k):
        """k is the number of fields, cut off at the size of the index table"""
        t = fx.kt[k]
        if t[0] == "fcall" and t[1] == "wg_get_record_len": return True
        if t[0] == "c": return t[1] >= 128
        if t[0] == "ssa" and t[1] in s.f.defs and s.f.defs[t[1]].op in ("phi", "select"):
            d = s.f.defs[t[1]]
            return all(s.lenop(a) for a in (d.args if d.op == "phi" else d.args[1:]))
        if t[0] == "select": return s.bound(fx, st, t[2]) and s.bound(fx, st, t[3])
        return t[0] == "add" and fx.cval(t[2]) == -3
    def lenop(s, o):
        if isinstance(o, list): return o[0] == "c" and o[1] >= 128
        d = s.f.defs.get(o)
        if d is None: return False
        if d.op == "call": return d.callee() == "wg_get_record_len"
        if d.op in ("sub", "add"): return isinstance(d.args[1], list) and d.args[1][1] in (3, -3)
        if d.op in ("phi", "select"): return all(s.lenop(a) for a in (d.args if d.op == "phi" else d.args[1:]))
        return False
    def step(s, fx, st, i):
        d = D(st.a)
        if i.op == "load" and i.fld.endswith(INDEXTAB):
            if d.get("it") is not None and s.tabcol(fx, st, i.args[0]) == d["it"]:
                return [Fork(s.put(st, tz=1), const(0)), Fork(st.a, NZ)]
            return None
        if i.op == "store" and derives(s.f, addr_of(i), lambda x: False) is None: return None
        if i.op != "call": return None
        c = i.callee(); args = [fx.key(st, a) for a in i.args]
        if c in ("wg_index_del_field", "wg_index_add_field"):
            s.c("row " + c[9:12], i)
            if args[1] != s.rec or d.get("it") is None or args[2] != d["it"]: s.rep(fx, st, i, "C18", "parents", "updates the indexes of a field that does not hold the reference"); return None
            if c == "wg_index_add_field":
                if not s.restore: s.rep(fx, st, i, "C18", "parents", "inserts rows where they have to be removed")
                if not d.get("del"): s.rep(fx, st, i, "C18", "parents", "inserts a row that may be in the index already (the record holds the reference in several fields or is reached twice)")
                d["add"] = 1
            else:
                if d.get("add"): s.rep(fx, st, i, "C18", "parents", "removes the row that was just inserted")
                d["del"] = 1
            return [A(**d)]
        if c == s.f.name:
            s.c("recursion", i)
            oa = s.offaddr(fx, args[1]); ld = s.ldef(fx, oa[0]) if oa and oa[1] == 0 else None
            if not (ld is not None and ld.fld == "gcell.car"): s.rep(fx, st, i, "C18", "parents", "the referring record is not taken from the back reference list")
            if not s.isoff(fx, args[2], s.rec): s.rep(fx, st, i, "C18", "parents", "looks for another value than this record in the referring record")
            t = fx.kt[args[3]]
            if not (t[0] == "add" and t[1] == s.depth and fx.cval(t[2]) == -1): s.rep(fx, st, i, "C18", "parents", "the recursion depth does not decrease by one")
            d["p"] = "visited"
            return [A(**d)]
    def ret(s, fx, st, i):
        v = fx.val(st, i.args[0]); s.c("return", i)
        if disjoint(v, const(0)): return
        d = D(st.a)
        s.close(fx, st, i)
        if not (d.get("spec") or d.get("all")): s.rep(fx, st, i, "C18", "parents", "does not look at all fields of the referring record")
        if not (d.get("deep") or d.get("nobl") or d.get("p") == "done"): s.rep(fx, st, i, "C18", "parents", "does not continue with all records that refer to the referring record")

TTREE = (50, 51); HASH = (60, 61); JSON = (51, 61)
ROWOPS = {"ttree_add_row": ("add", TTREE), "hash_add_row": ("add", HASH), "ttree_remove_row": ("del", TTREE), "hash_remove_row": ("del", HASH)}
class RowRule(Base):
    """mode: 'field' (rows for one column), 'rec' (all columns of a record) or 'pop' (all records, when an index is created)"""
    def __init__(s, fn, mode, op, types=(50, 51, 60, 61, 99)):
        s.types = types; s.f = fn; s.mode = mode; s.op = op; s.cnt = {}; s.data = None; s.delete = False
        s.tabs = {}
        for i in fn.instrs():
            if i.op == "load": s.tabs[i.id] = s.table(i)
    c = FieldRule.c; ldef = FieldRule.ldef
    def table(s, i):
        """('t1'|'t2'|'next', index operand) of a load from an index list"""
        if i.fld == "gcell.cdr": return ("next", None)
        out = None
        for kd, x, off, fld in addr_roots(s.f, i.args[0]):
            if fld == "gcell.cdr": continue
            n = "t1" if fld.endswith(INDEXTAB) else "t2" if fld.endswith(TMPLTAB) else None
            if n is None: return None
            d = s.f.defs.get(x)
            out = (n, d.d["vo"][0][0] if d is not None and d.op == "getelementptr" and d.d.get("vo") else None)
        return out
    def start(s, fx):
        s.rec = fx.leaf(1) if s.mode != "pop" else None
        s.col = fx.leaf(2) if s.mode == "field" else None
        return [()]
    IT = ("it", "len", "tm", "ty", "plain", "done", "op")
    def clear(s, d):
        for n in s.IT: d.pop(n, None)
        if s.mode == "pop" and "gty" in d: d["ty"] = d["gty"]
        return d
    def close(s, fx, st, i):
        d = D(st.a)
        if not d.get("it") or d.get("done"): return
        if d.get("it") == "null" or d.get("len") == 2 or d.get("tm") == 2 or d.get("ty") == 99 or (d.get("plain") == 2 and d.get("ty") in JSON): return
        s.rep(fx, st, i, "C18", "row-missed", "a record that belongs to an index is not %s it" % ("inserted into" if s.op == "add" else "removed from"))
    def reckey(s, fx, d):
        return s.rec if s.mode != "pop" else (fx.leaf(d["it"]) if isinstance(d.get("it"), int) else None)
    def step(s, fx, st, i):
        d = D(st.a); op = i.op
        if op == "load":
            tb = s.tabs.get(i.id)
            if tb is not None and s.mode != "pop":
                if fx.key(st, i.args[0]) in st.mem: return None
                s.close(fx, st, i); s.clear(d)
                if tb[0] != "next":
                    s.c("index list", i)
                    if s.mode == "field" and (tb[1] is None or fx.key(st, tb[1]) != s.col): s.rep(fx, st, i, "C18", "row-list", "looks through the index list of another column")
                    d["tb"] = tb[0]
                    if s.mode == "rec": d["ci"] = tb[1]
                if d.get("tb"): return [Fork(A(**dict(d, **{"w" + d["tb"]: 1})), const(0)), Fork(A(**d), NZ)]
                return [A(**d)]
            if i.fld == "gcell.car" and s.mode != "pop":
                if fx.key(st, i.args[0]) in st.mem: return None
                if not d.get("it"):
                    s.c("list element", i)
                    return [Fork(A(**dict(d, it="null")), const(0)), Fork(A(**dict(d, it="el")), NZ)]
                return None
            if i.fld == "wg_index_header.type":
                s.c("type test", i)
                if d.get("ty"): return [Fork(st.a, const(d["ty"]) if d["ty"] != 99 else (None, None, frozenset([50, 51, 60, 61])))]
                out = []
                for t in s.types:
                    q = dict(d, ty=t)
                    if s.mode == "pop": q["gty"] = t
                    out.append(Fork(A(**q), const(t) if t != 99 else (None, None, frozenset([50, 51, 60, 61]))))
                return out
            if i.fld == "wg_index_header.template_offset" and not d.get("tm"):
                if fx.key(st, i.args[0]) in st.mem: return None
                if s.mode == "pop" and not isinstance(d.get("it"), int): return None
                return [Fork(A(**dict(d, tm=1)), const(0)), Fork(A(**d), NZ)]
            rk = s.reckey(fx, d)
            if rk is not None:
                k = fx.key(st, i.args[0]); t = fx.kt[k]
                if t[0] == "gep" and t[1] == rk and t[2] == 8 and not t[3]:
                    d["meta"] = i.id; d["live"] = tuple(set(d.get("live", ())) | {i.id})
                    return [A(**d)]
            return None
        if op != "call": return None
        c = i.callee()
        args = [fx.key(st, a) for a in i.args]
        if c == "wg_match_template":
            rk = s.reckey(fx, d)
            oa = s.offaddr(fx, args[1]); ld = s.ldef(fx, oa[0]) if oa and oa[1] == 0 else None
            if args[2] != rk or not (ld is not None and ld.fld == "wg_index_header.template_offset"):
                s.rep(fx, st, i, "C18", "row-template", "the template is not compared with the record"); return None
            return [Fork(A(**dict(d, tm=1)), NZ), Fork(A(**dict(d, tm=2)), const(0))]
        if s.mode == "pop" and c in ("wg_get_first_record", "wg_get_next_record"):
            s.c("record walk", i)
            if c == "wg_get_next_record":
                s.close(fx, st, i)
                if not isinstance(d.get("it"), int) or args[1] != fx.leaf(d["it"]): s.rep(fx, st, i, "C18", "row-walk", "does not continue from the current record")
            s.clear(d); d.pop("end", None)
            lv = tuple(set(d.get("live", ())) | {i.id})
            return [Fork(A(**dict(d, it=i.id, live=lv)), NZ), Fork(A(**dict(d, end=1)), const(0))]
        if c in ROWOPS:
            o, types = ROWOPS[c]; s.c("row operation", i)
            rk = s.reckey(fx, d)
            if o != s.op: s.rep(fx, st, i, "C18", "row-op", "uses %s where rows are %s" % (c, "inserted" if s.op == "add" else "removed"))
            if d.get("ty") and d["ty"] not in types: s.rep(fx, st, i, "C18", "row-op", "uses %s for an index of type %s" % (c, d["ty"]))
            if not d.get("ty") and s.mode != "pop": s.rep(fx, st, i, "C18", "row-op", "does not know the type of the index")
            if (d.get("ty") in JSON or not d.get("ty") and set(s.types) & set(JSON)) and d.get("plain") != 1:
                s.rep(fx, st, i, "C18", "row-json", "a record that is no plain data record is %s" % ("inserted into an index for JSON data, from which it is never removed" if s.op == "add" else "removed from an index for JSON data that never holds it"))
            if args[2] != rk: s.rep(fx, st, i, "C18", "row-op", "the operation is done for another record")
            if s.mode != "pop":
                ld = s.ldef(fx, args[1])
                if not (ld is not None and ld.fld == "gcell.car"): s.rep(fx, st, i, "C18", "row-op", "the operation is done on another index than that of the list element")
            if d.get("len") != 1: s.rep(fx, st, i, "C18", "row-length", "does not know that the record has all columns of the index" if s.mode != "rec" else "does not know that this is the last column of the index")
            if d.get("tm") != 1: s.rep(fx, st, i, "C18", "row-template", "does not know that the record matches the template of the index")
            if d.get("done"): s.rep(fx, st, i, "C18", "row-op", "the row is handled twice")
            d["done"] = 1
            return [A(**d)]
    def lastcol(s, fx, st, k):
        """k is the last column of the index"""
        ld = s.ldef(fx, k)
        if ld is None or ld.fld != "wg_index_header.rec_field_index[]":
            return False
        gd = s.f.defs.get(ld.args[0]) if isinstance(ld.args[0], int) else None
        t = fx.kt[fx.key(st, ld.args[0])]
        if gd is not None and gd.op == "getelementptr":
            vo = gd.d.get("vo")
            if not vo: return s.mode == "pop" and gd.d["off"] == 0 and not set(s.types) & set(HASH)    # T-trees have one column
            x = vo[0][0]; xd = s.f.defs.get(x)
            while xd is not None and xd.op in ("sext", "zext", "trunc"): x = xd.args[0]; xd = s.f.defs.get(x)
            if xd is not None and xd.op in ("sub", "add") and isinstance(xd.args[1], list) and abs(xd.args[1][1]) == 1:
                if xd.op == "sub" and xd.args[1][1] == 1 or xd.op == "add" and xd.args[1][1] == -1:
                    f = s.f.defs.get(xd.args[0])
                    while f is not None and f.op in ("sext", "zext", "trunc"): f = s.f.defs.get(f.args[0])
                    return f is not None and f.op == "load" and f.fld == "wg_index_header.fields"
        return False
    def islen(s, fx, st, k):
        t = fx.kt[k]
        return t[0] == "fcall" and t[1] == "wg_get_record_len" and t[3] == s.reckey(fx, D(st.a))
    def bound(s, fx, st, k):
        if s.islen(fx, st, k): return True
        t = fx.kt[k]
        if t[0] == "c": return t[1] >= 128
        if t[0] == "ssa" and t[1] in s.f.defs and s.f.defs[t[1]].op in ("phi", "select"):
            d = s.f.defs[t[1]]
            return all(HelperRule.lenop(s, a) for a in (d.args if d.op == "phi" else d.args[1:]))
        return t[0] == "select" and s.bound(fx, st, t[2]) and s.bound(fx, st, t[3])
    lenop = HelperRule.lenop
    def index(s, fx, st, k):
        """k may be the number of the column a loop is at"""
        q = fx.kt[k]
        return q[0] != "fcall" and fx.cval(k) in (None, 0) and not (q[0] == "ssa" and q[1] in s.f.defs and s.f.defs[q[1]].op == "call")
    def edge(s, fx, st, t, k, truth):
        d = D(st.a)
        kk, tr = k, truth
        while fx.kt[kk][0] == "not": kk = fx.kt[kk][1]; tr = not tr
        q = fx.kt[kk]
        if q[0] == "icmp" and isinstance(tr, bool):
            if q[1] == "slt" and s.lastcol(fx, st, q[2]) and s.islen(fx, st, q[3]) and s.mode != "rec": d["len"] = 1 if tr else 2
            elif s.mode == "rec" and q[1] == "eq" and (s.lastcol(fx, st, q[2]) or s.lastcol(fx, st, q[3])):
                o = q[3] if s.lastcol(fx, st, q[2]) else q[2]
                if d.get("ci") is not None and fx.key(st, d["ci"]) == o: d["len"] = 1 if tr else 2
            elif s.mode == "rec" and q[1] == "slt" and (s.bound(fx, st, q[3]) and s.index(fx, st, q[2]) or fx.kt[q[2]][0] == "c" and fx.kt[q[2]][1] >= 127 and s.index(fx, st, q[3]) and not s.bound(fx, st, q[3])):
                first = not (fx.kt[q[2]][0] == "c" and fx.kt[q[2]][1] >= 127)
                if d.get("cs") == t.bb and not d.get("wt1"): s.rep(fx, st, t, "C18", "row-list", "skips the index list of a column")
                if d.get("cs") in (None, t.bb): d["wt1"] = 0; d["cs"] = t.bb
                if tr is not first: d["all"] = 1
            if s.mode == "field" and q[1] == "slt" and s.islen(fx, st, q[3]) and q[2] == s.col and tr is False: d["exc"] = 1
        if s.mode == "field":
            v = fx.kval(st, s.col)
            if v[0] is not None and v[0] > 127: d["exc"] = 1
        for l in fx.kleaf[k]:
            if s.rec is not None and FieldRule.isfld(s, fx, fx.leaf(l), 8):
                a = fx.ki.get(("and", fx.leaf(l), fx.kconst(1)))
                if a is not None and isconst(fx.kval(st, a)) and fx.kval(st, a)[0]: d["exc"] = 1
            if l == d.get("meta") or (s.rec is not None and FieldRule.isfld(s, fx, fx.leaf(l), 8)):
                v = fx.kval(st, fx.leaf(l)); e = d.get("it")
                if e and v == const(0): d["plain"] = 1
                elif e and excluded0(v) and fx.kt[k][0] in ("icmp", "not") : d["plain"] = 2
        return A(**{a: b for a, b in d.items() if b not in (0, None)})
    def ret(s, fx, st, i):
        v = fx.val(st, i.args[0]); s.c("return", i); d = D(st.a)
        okv = const(0) if s.mode == "pop" else (-1, 0, frozenset())
        if disjoint(v, okv): return
        s.close(fx, st, i)
        if s.mode == "pop":
            if not d.get("end"): s.rep(fx, st, i, "C18", "row-walk", "reports success without having gone through all records")
            return
        if d.get("exc"): return
        if s.mode == "field":
            for n, what in (("wt1", "the indexes on the column"), ("wt2", "the indexes whose template uses the column")):
                if not d.get(n): s.rep(fx, st, i, "C18", "row-list", "returns without having gone through %s" % what)
        elif not d.get("all"): s.rep(fx, st, i, "C18", "row-list", "returns without having gone through all columns")
def excluded0(v): return nonzero(v)

class CreateRule(Base):
    """a record created raw is inserted into the indexes unless it is marked as no data record"""
    def __init__(s, fn): s.f = fn; s.cnt = {}
    c = FieldRule.c
    def start(s, fx): return [()]
    def bit0(s, fx, k):
        t = fx.kt[k]
        if t[0] == "c": return bool(t[1] & 1)
        if t[0] == "or": return s.bit0(fx, t[1]) or s.bit0(fx, t[2])
        if t[0] == "select": return s.bit0(fx, t[2]) and s.bit0(fx, t[3])
        if t[0] == "ssa" and t[1] in s.f.defs: return s.sbit0(t[1], set())
        return False
    def sbit0(s, o, seen):
        if isinstance(o, list): return o[0] == "c" and bool(o[1] & 1)
        if o in seen: return True
        seen.add(o); d = s.f.defs.get(o)
        if d is None: return False
        if d.op == "or": return s.sbit0(d.args[0], seen) or s.sbit0(d.args[1], seen)
        if d.op == "phi": return all(s.sbit0(a, seen) for a in d.args)
        return False
    def step(s, fx, st, i):
        d = D(st.a)
        if i.op == "store" and d.get("r") is not None:
            t = fx.kt[fx.key(st, i.args[1])]
            if t[0] == "gep" and t[1] == fx.leaf(d["r"]) and t[2] == 8 and not t[3]:
                d["spec"] = 1 if s.bit0(fx, fx.key(st, i.args[0])) else 2
                return [A(**d)]
            return None
        if i.op != "call": return None
        c = i.callee()
        if c == "wg_create_raw_record":
            s.c("raw record", i)
            return [Fork(A(r=i.id, live=(i.id,)), NZ), Fork(st.a, const(0))]
        if d.get("r") is not None and len(i.args) > 1 and fx.key(st, i.args[1]) == fx.leaf(d["r"]):
            if c == "wg_index_add_rec": d["idx"] = 1; s.c("index insertion", i); return [A(**d)]
            if c in ("wg_delete_record",): return [()]
            if c in ("wg_set_field", "wg_set_new_field") and not d.get("idx") and d.get("spec") != 1:
                s.rep(fx, st, i, "C18", "create", "sets a field of a new record before it is in the indexes or marked as no data record")
    def ret(s, fx, st, i):
        d = D(st.a)
        s.c("return", i)
        if d.get("r") is None or d.get("idx") or d.get("spec") == 1: return
        v = fx.val(st, i.args[0]) if i.args else TOP
        if not disjoint(v, NZ if s.f.ret == "ptr" else (0, None, frozenset())): s.rep(fx, st, i, "C18", "create", "returns a new record that is neither in the indexes nor marked as no data record")

class KindRule:
    """the types of index for which an index structure is built (all calls of the builders)"""
    def __init__(s, fn):
        s.f = fn; s.types = {}; s.cnt = {}
        s.st = [i for i in fn.instrs() if i.op == "store" and i.fld == "wg_index_header.type"]
        s.ld = [i for i in fn.instrs() if i.op == "load" and i.fld == "wg_index_header.type"]
    c = FieldRule.c
    def start(s, fx): return [0]
    def step(s, fx, st, i):
        if i.op == "call" and i.callee() in ("create_ttree_index", "create_hash_index"):
            s.c("index structure", i); x = fx.key(st, i.args[1]); v = TOP
            for q in s.st:
                k = fx.key(st, q.args[1]); t = fx.kt[k]
                if len(s.st) == 1 or (t[0] == "gep" and t[3] == ((x, 1),)):
                    v = meet(v, fx.kval(st, fx.key(st, q.args[0])))
                    for l in s.ld:
                        if fx.key(st, l.args[0]) == k or s.samebase(q.args[1], l.args[0]): v = meet(v, fx.kval(st, fx.leaf(l.id)))
            s.types.setdefault(i.callee(), set()).update(t for t in (50, 51, 60, 61) if not disjoint(v, const(t)))
    def samebase(s, a, b):
        a, b = s.f.defs.get(a), s.f.defs.get(b)
        return a is not None and b is not None and a.op == b.op == "getelementptr" and a.args == b.args
    def ret(s, fx, st, i): pass

XK = ("ttree_add_row", "ttree_remove_row", "hash_add_row", "hash_remove_row", "wg_match_template", "create_ttree_index", "create_hash_index")
def index_ops(m):
    n = discover(m)
    jobs = [("row", "wg_index_add_field", "field", "add"), ("row", "wg_index_del_field", "field", "del"), ("row", "wg_index_add_rec", "rec", "add"), ("row", "wg_index_del_rec", "rec", "del"),
            ("row", "create_ttree_index", "pop", "add"), ("row", "create_hash_index", "pop", "add"),
            ("helper", n["remove"], False, ""), ("helper", n["restore"], True, "")]
    for f in m.funcs.values():
        if f.name != "wg_create_raw_record" and any(c.callee() == "wg_create_raw_record" for c in f.calls()): jobs.append(("create", f.name, "", ""))
    def kinds(f):
        r = KindRule(f); fx = Flow(f, r); fx.run()
        return {k: sorted(v) for k, v in r.cnt.items()}, r.types, fx.paths_states
    kf = [f for f in m.funcs.values() if any(True for c in f.calls("create_ttree_index", "create_hash_index"))]
    types = {}; kc = []
    for f, (cnt, t, ps) in zip(kf, pmap(kinds, kf)):
        kc.append(((f.name, "kind", "", ""), cnt, {}, [], ps))
        for c, x in t.items(): types.setdefault(c, set()).update(x)
    def one(j):
        f = m.fn(j[1])
        r = {"row": lambda: RowRule(f, j[2], j[3], tuple(sorted(types.get(j[1], ()))) if j[2] == "pop" else (50, 51, 60, 61, 99)), "helper": lambda: HelperRule(f, j[2]), "create": lambda: CreateRule(f)}[j[0]]()
        fx = Flow(f, r); fx.run()
        return (j[1], j[0], j[2], j[3]), {k: sorted(v) for k, v in r.cnt.items()}, {}, [(d["prop"], d["rule"], d["msg"], d["where"], d["path"]) for d in fx.reports], fx.paths_states
    return kc + pmap(one, jobs)

# ------------------------------------------------------------------ entry functions
RULES = {
 "C18": ["wg_set_field, wg_set_new_field and wg_delete_record, for every kind of old and new value, local and external: before the field word changes the rows of the record (and, when it has back references, of the referring records up to the fixed depth) are removed while the old value is in place; afterwards the rows are inserted again; deletion removes the rows of the whole record before its storage is released",
         "wg_index_add_field/del_field/add_rec/del_rec: every element of the index list(s) of the column is visited; a record that belongs to the index (long enough, matching template, plain for JSON indexes) reaches exactly the row operation of the kind of that index, others reach none",
         "creation of an index inserts every existing record that belongs to it, for every type of index a builder is called for",
         "the helpers that update referring records visit every field that holds the reference and every referring record, the recursion depth decreases by one and both helpers are called with the same depth",
         "a record created raw is put into the indexes or marked as no data record before it is returned or gets contents",
         "the word of a record field is written by no other function"],
 "C19": ["storing a reference adds exactly one back reference cell, naming the referring record, to the target of the new value; replacing or deleting a reference removes exactly one cell naming this record from the target of the old value; no other record's list changes",
         "a record with back references is not deleted"],
 "C20": ["storing a long value increases its reference count by one before the old value is released; replacing it or deleting the record releases the old value exactly once, after the field no longer refers to it",
         "release: count decreased by one, or (count at most one) removed from the string table, its extra string released and its storage freed; other kinds of value: exactly their storage is freed; nothing else is changed",
         "creation of a long value: count starts at zero, the extra string is counted once"],
 "C29": ["for a value of another database (offset beyond or before the local segment) no release, no reference count or back reference change, no write into its storage is made by field updates, record deletion or value release",
         "an offset of no registered database is refused"],
}
def fieldwriters(m):
    """functions that write a word at (record argument) + 24 + 8*column"""
    out = {}
    for f in m.funcs.values():
        for i in f.instrs():
            a = addr_of(i) if i.op in ("store", "cmpxchg", "atomicrmw") else i.args[0] if i.op == "call" and i.callee() == "wg_compare_and_swap" else None
            if a is None: continue
            for kd, x, off, fld in addr_roots(f, a):
                d = f.defs.get(x) if isinstance(x, int) else None
                if fld or d is None or d.op != "getelementptr" or not d.d.get("vo") or d.d["vo"][0][1] != 8: continue
                if any(k2 == "ptr" and isinstance(b, int) and b < f.nargs and o + d.d["off"] + off == 24 for k2, b, o, _f in addr_roots(f, d.args[0])):
                    out.setdefault(f.name, []).append((i.op, i))
    return out

def collect(res, prop, which):
    m = ir.load(("db", "json"), "main"); res.module(m); results = []; depth = {}
    for r in RULES[prop]: res.rule(r)
    n = discover(m)
    if "field" in which:
        n, rs = field_ops(m); results += rs
        for j, cnt, dep, reps, ps in rs:
            for k, v in dep.items(): depth.setdefault(k, set()).update(v)
    if "release" in which: results += release_ops(m)
    if "index" in which: results += index_ops(ir.load(("db", "json"), "main", extra_keep=XK))
    tot = {}; paths = 0
    for j, cnt, dep, reps, ps in results:
        res.funcs.add(j[0]); paths += ps
        for k, v in cnt.items():
            res.obligation(len(v), "%s: %s %s" % ("/".join(str(x) for x in j), k, v[0] if v else ""), k)
            tot[k] = tot.get(k, 0) + len(v)
        for pr, rule, msg, where, path in reps:
            if pr == prop: res.violation(rule, "%s:%s" % (j[0], msg), where, "%s (%s)" % (msg, ", ".join(str(x) for x in j[1:] if x not in ("", None))), path[-14:])
    res.notes.append("program states visited: %d" % paths)
    return m, n, depth, tot

def c18(res, tier):
    m, n, depth, tot = collect(res, "C18", ("field", "index"))
    for k, least in (("row operation", 4), ("index list", 4), ("raw record", 2), ("matching field", 1), ("recursion", 1)): res.need(tot.get(k, 0), least, k)
    vals = set()
    for v in depth.values(): vals |= set(v)
    if len(vals) > 1: res.violation("parents", "depth", "Db/dbdata.c", "the rows of referring records are removed and inserted again with different depths: %s" % sorted(vals))
    res.obligation(1, "recursion depth %s" % sorted(vals), "same depth")
    for f, ws in sorted(fieldwriters(m).items()):
        for op, i in ws:
            res.obligation(1, "%s %s" % (f, i.line()), "field write")
            if f in ("wg_set_field", "wg_set_new_field"): continue
            if op in ("cmpxchg", "call"): continue     # the atomic updates: property C21
            res.violation("field-write", f, i.line(), "%s writes a record field without index maintenance" % f)
def c19(res, tier):
    m, n, depth, tot = collect(res, "C19", ("field",))
def c20(res, tier):
    m, n, depth, tot = collect(res, "C20", ("field", "release"))
    for k, least in (("storage release", 1), ("reference count change", 1), ("extra string counted", 1), ("string table removal", 1)): res.need(tot.get(k, 0), least, k)
def c29(res, tier):
    m, n, depth, tot = collect(res, "C29", ("field", "release"))
