"""C25: read-only operations do not write to the shared segment (provenance of every address that is written)"""
import re
import ir

WRITERS = {"memcpy": 0, "memmove": 0, "memset": 0, "strcpy": 0, "strncpy": 0, "strcat": 0, "strncat": 0, "sprintf": 0, "snprintf": 0, "vsnprintf": 0, "vsprintf": 0,
  "fread": 0, "read": 1, "fgets": 0, "gets": 0, "strftime": 0, "localtime_r": 1, "gmtime_r": 1,
  "__memcpy_chk": 0, "__strncpy_chk": 0, "__snprintf_chk": 0, "__sprintf_chk": 0, "__strcpy_chk": 0, "__memset_chk": 0, "__strcat_chk": 0}
RETARG = {"memcpy": 0, "memmove": 0, "memset": 0, "strcpy": 0, "strncpy": 0, "strcat": 0, "strncat": 0, "strchr": 0, "strrchr": 0, "strstr": 0, "strpbrk": 0, "memchr": 0, "fgets": 0}
SEG = ("seg",)
RECPARAM = ("rec", "record", "lastrecord", "parent", "document", "matchrec", "tmpl")
CASTS = ("bitcast", "inttoptr", "ptrtoint", "sext", "zext", "trunc", "freeze", "addrspacecast")

def rname(i):
    c = i.callee() or ""
    if c.startswith("llvm.mem"): return c.split(".")[1]
    return c

def relevant(m):
    """integer parameters whose constant values select what a function does"""
    rel = {}
    for f in m.funcs.values():
        r = set()
        for i in f.instrs():
            if i.op == "icmp" and isinstance(i.args[1], list):
                x = i.args[0]
                if isinstance(x, int) and x < f.nargs and f.args[x][1] != "ptr": r.add(x)
            if i.op == "switch" and isinstance(i.args[0], int) and i.args[0] < f.nargs: r.add(i.args[0])
        rel[f.name] = r
    ch = True
    while ch:
        ch = False
        for f in m.funcs.values():
            for c in f.calls():
                for k in rel.get(c.callee(), ()):
                    if k < len(c.args) and isinstance(c.args[k], int) and c.args[k] < f.nargs and c.args[k] not in rel[f.name]: rel[f.name].add(c.args[k]); ch = True
    return rel

class Prov:
    def __init__(s, m, exempt):
        s.m = m; s.ex = exempt; s.F = {}; s.R = {}; s.W = {}; s.P = {}; s.memo = {}; s.rel = relevant(m); s.live = {}
        for f in m.funcs.values(): s.R[f.name] = frozenset(); s.W[(f.name, ())] = {}
        for n in range(14):
            s.memo = {}
            if not s.round(): break
        s.rounds = n + 1
    def ctx(s, f, ctx, i, g):
        """constant arguments of a call that select what the callee does"""
        r = []
        for k in sorted(s.rel[g.name]):
            if k >= len(i.args): continue
            a = i.args[k]
            if isinstance(a, list) and a[0] == "c": r.append((k, a[1]))
            elif isinstance(a, int) and a in dict(ctx): r.append((k, dict(ctx)[a]))
        return tuple(r)
    def blocks(s, f, ctx):
        """instructions that can be reached with these arguments"""
        if (f.name, ctx) in s.live: return s.live[(f.name, ctx)]
        c = dict(ctx); out = []; seen = set(); st = [0]
        while st:
            b = st.pop()
            if b in seen: continue
            seen.add(b); out += f.blocks[b]; t = f.blocks[b][-1]; su = list(f.succ[b])
            if t.op == "br" and len(t.d.get("s", ())) == 2 and isinstance(t.args[0], int):
                d = f.defs.get(t.args[0])
                if d is not None and d.op == "icmp" and isinstance(d.args[0], int) and d.args[0] in c and isinstance(d.args[1], list) and d.args[1][0] == "c":
                    x, y = c[d.args[0]], d.args[1][1]; p = d.d["pred"]
                    v = {"eq": x == y, "ne": x != y, "slt": x < y, "sgt": x > y, "sle": x <= y, "sge": x >= y}.get(p)
                    if v is not None: su = [t.d["s"][0 if v else 1]]
            st += su
        s.live[(f.name, ctx)] = out
        return out
    def lin(s, f, o, sg, out, depth=0):
        """o as a sum of atoms: the segment start is one atom, so that offset arithmetic on private memory cancels it"""
        if not isinstance(o, int) or isinstance(o, bool):
            if isinstance(o, list) and o and o[0] == "g": out[("g", o[1])] = out.get(("g", o[1]), 0) + sg
            return
        d = f.defs.get(o)
        if d is not None and depth < 40:
            if d.op in CASTS: return s.lin(f, d.args[0], sg, out, depth + 1)
            if d.op == "getelementptr":
                s.lin(f, d.args[0], sg, out, depth + 1)
                for v, sc in d.d.get("vo", []):
                    if sc == 1: s.lin(f, v, sg, out, depth + 1)
                return
            if d.op == "add":
                for a in d.args: s.lin(f, a, sg, out, depth + 1)
                return
            if d.op == "sub": s.lin(f, d.args[0], sg, out, depth + 1); s.lin(f, d.args[1], -sg, out, depth + 1); return
            if d.op == "load" and d.fld == "db_handle.db": out[SEG] = out.get(SEG, 0) + sg; return
        out[o] = out.get(o, 0) + sg
    def roots(s, f, o, busy=frozenset()):
        k = (f.name, o if isinstance(o, int) else str(o))
        if k in s.memo: return s.memo[k]
        if k in busy: return frozenset()
        out = {}; s.lin(f, o, 1, out); r = set(); b = busy | {k}
        for a, c in out.items():
            if c <= 0: continue
            if a == SEG: r.add(SEG)
            elif isinstance(a, tuple): r.add(a)
            else: r |= s.atom(f, a, b)
        r = frozenset(r)
        if not busy: s.memo[k] = r
        return r
    def atom(s, f, a, busy):
        if a not in f.defs: return {("p", a)} if a < f.nargs else set()
        d = f.defs[a]
        if d.op == "alloca": return {("local",)}
        if d.op in ("phi", "select"):
            r = set()
            for x in (d.args if d.op == "phi" else d.args[1:]): r |= s.roots(f, x, busy)
            return r
        if d.op in ("and", "or"):
            r = set()
            for x in d.args: r |= s.roots(f, x, busy)
            return r
        if d.op == "load":
            r = set(s.F.get(d.fld, ())) if d.fld else set()
            al = f.defs.get(d.args[0]) if isinstance(d.args[0], int) else None
            if al is not None and al.op == "alloca":
                for i in f.instrs():
                    if i.op == "store" and i.args[1] == al.id: r |= s.roots(f, i.args[0], busy)
            return r
        if d.op == "call":
            n = rname(d)
            if n in RETARG: return set(s.roots(f, d.args[RETARG[n]], busy))
            if n in s.m.funcs: return s.apply(f, d, s.R[n], busy)
        return set()
    def apply(s, f, i, toks, busy=frozenset()):
        r = set()
        for t in toks:
            if t[0] == "p":
                if t[1] < len(i.args): r |= s.roots(f, i.args[t[1]], busy)
            else: r.add(t)
        return r
    def concrete(s, f, toks):
        """parameters replaced by what the calls in the library pass"""
        r = set()
        for t in toks:
            if t[0] == "p": r |= s.P.get((f.name, t[1]), set())
            else: r.add(t)
        return r
    def round(s):
        ch = False; s.writes = 0; s.sites = 0
        for key in list(s.W):
            f = s.m.funcs[key[0]]; ctx = key[1]; W = dict(s.W[key]); n0 = len(W)
            for i in s.blocks(f, ctx):
                if i.op in ("store", "cmpxchg", "atomicrmw"):
                    s.writes += 1
                    ad = i.args[1] if i.op == "store" else i.args[0]
                    for t in s.roots(f, ad):
                        if t == SEG and i.op == "store" and ".logging." in i.fld: t = ("dirty",)
                        if t[0] != "local": W.setdefault(t, (i.where(),))
                    if i.op == "store":
                        fl = i.fld
                        if fl and fl != "db_handle.db":
                            v = s.concrete(f, s.roots(f, i.args[0])) - {("local",)}
                            if v - s.F.get(fl, set()): s.F.setdefault(fl, set()).update(v); ch = True
                elif i.op == "call":
                    n = rname(i)
                    if n in WRITERS and WRITERS[n] < len(i.args):
                        s.writes += 1
                        for t in s.roots(f, i.args[WRITERS[n]]):
                            if t[0] != "local": W.setdefault(t, (i.where(),))
                    g = s.m.funcs.get(n)
                    tg = [g] if g is not None else []
                    # functions handed over as callbacks are called by the callee
                    for a in i.args:
                        if isinstance(a, list) and a and a[0] == "g":
                            if a[1] in s.m.funcs: tg.append(s.m.funcs[a[1]])
                            elif a[1] in s.m.globals: tg += [s.m.funcs[x] for x in s.m.globals[a[1]][3] if x in s.m.funcs]
                    for h in tg:
                        if h.name in s.ex: continue
                        s.sites += 1; hk = (h.name, s.ctx(f, ctx, i, h) if h is g else ())
                        if hk not in s.W: s.W[hk] = {}; ch = True
                        for t, c_ in s.W[hk].items():
                            if t[0] == "p":
                                if h is not g: continue
                                ts = s.roots(f, i.args[t[1]]) if t[1] < len(i.args) else ()
                            else: ts = (t,)
                            for x in ts:
                                if x[0] != "local" and x not in W: W[x] = (i.where(),) + c_[:8]
                    if g is not None:
                        for k in range(min(g.nargs, len(i.args))):
                            v = s.concrete(f, s.roots(f, i.args[k])) - {("local",)}
                            if v - s.P.get((g.name, k), set()): s.P.setdefault((g.name, k), set()).update(v); ch = True
                elif i.op == "ret" and i.args:
                    v = s.roots(f, i.args[0]) - {("local",)}
                    if v - s.R[f.name]: s.R[f.name] = s.R[f.name] | v; ch = True
            if len(W) != n0: s.W[key] = W; ch = True
        return ch
    def wr(s, n): return s.W[(n, ())]

READ = re.compile(r"^wg_(decode_|get_|fetch$|make_(json_)?query|free_query|find_|encode_query_param|print_|snprint|export_|fprint|dump|check_|compare$|column_to|multi_column|database_|str[fp]_|ymd_|hms_|date_to|time_to|"
  r"current_|search_|mem(owner|group|mode)$|parse_and_encode_param$|match_template$|pretty_print|hash_typedstr$|idxhash_find$|ginthash_getkey$|right_strhash_bucket$|journal_filename$)")

def c25(res, tier):
    m = ir.load(("db", "json"), "main"); res.module(m)
    res.rule("no address written in a read-only operation (or anything it calls outside the lock queue) derives from the start of the segment or from a record argument")
    ex = {f.name for f in m.funcs.values() if f.file.endswith("Db/dblock.c") and f.name != "wg_compare_and_swap"}
    p = Prov(m, ex)
    roots = sorted(f.name for f in m.funcs.values() if READ.match(f.name))
    res.need(len(roots), 60, "read-only operations")
    for n in ("wg_get_next_record", "wg_fetch", "wg_make_query", "wg_snprint_value", "wg_export_db_csv", "wg_dump", "wg_encode_query_param_str", "wg_free_query_param", "wg_find_record", "wg_get_first_parent"): m.fn(n)
    for n in ("wg_set_field", "wg_create_record", "wg_encode_str", "wg_create_index"):          # the analysis sees writes where they are
        if SEG not in p.wr(m.fn(n).name): raise ir.Broken("C25: the writes of %s were not found" % n)
    for n in roots:
        f = m.funcs[n]; res.funcs.add(n); bad = False
        rp = {k for k in range(f.nargs) if f.args[k][0] in RECPARAM and f.args[k][1] == "ptr"}
        for t, path in sorted(p.wr(n).items()):
            if t == ("dirty",) and n in ("wg_dump", "wg_dump_internal"): continue      # the dump supersedes the journal: its state may change
            if t in (SEG, ("dirty",)) or (t[0] == "p" and t[1] in rp):
                bad = True
                res.violation("shared-write", "%s:%s" % (n, path[-1].split(" ")[-1].strip("()")), path[-1], "%s writes to the shared segment%s" % (n, "" if t[0] != "p" else " (through %s)" % f.args[t[1]][0] if t[0] == "p" else ""), list(path), new_obligation=True)
        if not bad: res.obligation(1, "%s (%s)" % (n, f.file), "read-only operation")
    res.notes.append("%d stores and writing calls, %d call sites, %d rounds; functions of the lock queue exempt: %d" % (p.writes, p.sites, p.rounds, len(ex)))
