"""C06: write-ahead order of the journal.  C07: entry layout of writer and reader."""
import ir
from lib import *
from common import pmap

LOGS = {"wg_log_create_record": "CRE", "wg_log_delete_record": "DEL", "wg_log_set_field": "SET", "wg_log_set_meta": "META", "wg_log_encode": "ENC"}
# function -> (required entries, failure results)
REQ = {"wg_create_raw_record": (("CRE",), "zero"), "wg_delete_record": (("DEL",), "nz"), "wg_set_field": (("SET",), "nz"), "wg_set_new_field": (("SET",), "nz"),
  "wg_encode_int": (("ENC",), "illegal"), "wg_encode_double": (("ENC",), "illegal"), "wg_encode_unistr": (("ENC",), "illegal"), "wg_encode_uniblob": (("ENC",), "illegal"),
  "wg_create_array": (("META",), "zero"), "wg_create_object": (("META",), "zero"), "wg_create_triple": (("META",), "zero"),
  "wg_create_multi_index": (("META",), "nz")}
RECRES = {"wg_create_raw_record", "wg_create_record", "wg_create_array", "wg_create_object", "wg_create_triple"}
# calls that journal on their own: they may follow (and change shared data) once this operation's own entry is written,
# and what they change they journal themselves
SELF = {"wg_create_raw_record", "wg_create_record", "wg_set_field", "wg_set_new_field", "wg_delete_record", "wg_create_array", "wg_create_object", "wg_create_triple",
  "wg_encode_int", "wg_encode_double", "wg_encode_unistr", "wg_encode_uniblob"}
ENC_MASK = {0: "ENC"}

class Wal:
    """(mode, journal state, pending)   mode: None unknown, 1 active, 0 inactive
       jstate: None nothing written, (entry, "ok"), (entry, "fail");  enc: None / "ok" / "fail" / count"""
    def __init__(s, fn, muts, need, fail, unlogged):
        s.reconly = fn.file == "Db/dbindex.c"      # indexes themselves are not journaled
        s.fn = fn; s.muts = muts; s.need = set(need); s.fail = fail; s.unlogged = unlogged
        s.recargs = {n for n, a in enumerate(fn.args) if a[0] in ("record", "rec") and a[1] == "ptr"}
        s.encl = {}; s.cnt = {"mut": set(), "log": set(), "ret": set(), "mode": set()}
        s.params = {n: a[0] for n, a in enumerate(fn.args)}
    def start(s, fx): return [(None, None, None, None)]
    def extra_live(s, a):
        return a[3] if a[3] else ()
    def mut_ok(s, fx, st, i, what, meta=False):
        mode, log, enc, lv = st.a
        s.cnt["mut"].add(i.id)
        if mode == 0: return
        if log and log[1] == "ok" and (not meta or log[0] == "META" or log[0] == "CRE"):
            return
        if mode is None: fx.report(st, i, "%s without having looked whether journaling is active" % what)
        elif log and log[1] == "fail": fx.report(st, i, "%s although the journal entry could not be written" % what)
        elif meta: fx.report(st, i, "%s before the journal entry for it was written" % what)
        else: fx.report(st, i, "%s before the journal entry was written" % what)
    def isrec(s, fx, k):
        b = fx.abase(k); t = fx.kt[b]
        if t[0] != "ssa": return None
        if t[1] in s.recargs: return t[1]
        d = s.fn.defs.get(t[1])
        if d is not None and d.op == "call" and d.callee() in RECRES: return t[1]
        return None
    def step(s, fx, st, i):
        mode, log, enc, lv = st.a
        op = i.op
        if op == "load" and i.fld.endswith("logging.active"):
            s.cnt["mode"].add(i.id)
            if mode is None: return [Fork((1, log, enc, lv), NZ), Fork((0, log, enc, lv), const(0))]
            return [Fork(st.a, NZ if mode else const(0))]
        if op in ("store", "cmpxchg", "atomicrmw"):
            ak = fx.key(st, addr_of(i))
            r = s.isrec(fx, ak); b = fx.kt[fx.abase(ak)]
            seg = b[0] == "ssa" and b[1] in s.fn.defs and is_seg(s.fn.defs[b[1]])
            if r is not None or not s.reconly and (seg or b[0] == "ssa" and b[1] >= s.fn.nargs and s.fn.defs[b[1]].op != "alloca" and seg_derived(s.fn, addr_of(i))):
                if i.fld.endswith(("logging.active", "logging.dirty")): return None
                t = fx.kt[ak]
                meta = r is not None and t[0] == "gep" and not t[3] and t[2] == 8
                s.mut_ok(fx, st, i, "changes %s" % ("record metadata" if meta else "shared data"), meta)
                if meta and mode != 0 and log and log[0] == "META" and log[1] == "ok" and op == "store":
                    if fx.key(st, i.args[0]) != log[2] or fx.leaf(r) != log[3]:
                        fx.report(st, i, "stores other metadata than the journal entry says")
                if r is not None and not meta and log and log[0] == "SET" and log[1] == "ok" and op == "store":
                    if fx.key(st, i.args[0]) != fx.leaf(3) or not (t[0] == "gep" and t[2] == 24 and len(t[3]) == 1 and 2 in fx.kleaf[t[3][0][0]]):
                        fx.report(st, i, "stores another value or field than the journal entry says")
            return None
        if op != "call": return None
        c = i.callee()
        if c in LOGS:
            e = LOGS[c]; s.cnt["log"].add(i.id)
            ks = [fx.key(st, a) for a in i.args]
            s.args(fx, st, i, e, ks)
            if e == "ENC":
                tv = fx.kval(st, ks[1])
                if isconst(tv) and tv[0] in s.unlogged:
                    return [Fork((mode, ("NONE", "ok"), enc, lv), const(0)), Fork((mode, (e, "fail"), enc, lv), NZ)]
            ok = (e, "ok") + ((ks[2], ks[1]) if e == "META" else ())
            lv2 = frozenset(fx.kleaf[ks[2]] | fx.kleaf[ks[1]]) if e == "META" else lv
            if e == "META" and log and log[0] == "CRE": pass
            return [Fork((mode, ok, enc, lv2), const(0)), Fork((mode, (e, "fail"), enc, lv), NZ)]
        if c == "wg_log_encval":
            s.cnt["log"].add(i.id)
            if mode == 0: fx.report(st, i, "writes a result entry although journaling is inactive")
            if not (log and log[0] in ("CRE", "ENC") and log[1] == "ok"):
                fx.report(st, i, "writes a result entry that does not follow the entry of a creation or an encoding")
            if enc: fx.report(st, i, "writes the result entry twice")
            k = fx.key(st, i.args[1])
            lv2 = frozenset(fx.kleaf[k])
            return [Fork((mode, log, ("ok", k), lv2), const(0)), Fork((mode, log, ("fail", k), lv2), NZ)]
        if c in SELF or c is None: return None
        if c in s.muts and not s.reconly:
            if c == "wg_index_add_rec" and len(i.args) > 1 and s.isrec(fx, fx.key(st, i.args[1])) not in (None,) + tuple(s.recargs): return None   # a record created, and journaled, by a call
            s.mut_ok(fx, st, i, "changes shared data (calls %s)" % c)
        return None
    def args(s, fx, st, i, e, ks):
        """the entry describes the operation that is going on"""
        n = s.fn.name
        names = {v: k for k, v in s.params.items()}
        def isarg(k, nm): return nm in names and k == fx.leaf(names[nm])
        if e == "CRE" and not isarg(ks[1], "length"): fx.report(st, i, "the journal entry does not carry the length of the record")
        if e == "DEL" and not ({names.get("rec"), names.get("record")} & set(fx.kleaf[ks[1]])): fx.report(st, i, "the journal entry does not carry the record that is deleted")
        if e == "SET":
            if not (isarg(ks[1], "record") and isarg(ks[2], "fieldnr") and isarg(ks[3], "data")):
                fx.report(st, i, "the journal entry does not carry the record, field and value of the operation")
        if e == "ENC" and n in ("wg_encode_int", "wg_encode_double"):
            tv = fx.kval(st, ks[1])
            if not (isconst(tv) and tv[0] == (3 if n == "wg_encode_int" else 4)): fx.report(st, i, "the journal entry has the wrong value type")
            m = st.mem.get(ks[2])
            if not (m and m[0] == fx.leaf(1)): fx.report(st, i, "the journal entry does not carry the value that is encoded")
        if e == "ENC" and n in ("wg_encode_unistr", "wg_encode_uniblob"):
            if not isarg(ks[1], "type"): fx.report(st, i, "the journal entry does not carry the type of the value")
            if not isarg(ks[2], "str"): fx.report(st, i, "the journal entry does not carry the string that is encoded")
            d = s.fn.defs.get(i.args[3]) if isinstance(i.args[3], int) else None
            if "len" in names:
                if not isarg(ks[3], "len"): fx.report(st, i, "the journal entry does not carry the length of the value")
            elif not s.strlen_of(fx, st, i.args[3], names["str"]): fx.report(st, i, "the journal entry does not carry the length of the string")
            if not isarg(ks[4], "lang"): fx.report(st, i, "the journal entry does not carry the extra string")
            lv = fx.kval(st, fx.leaf(names["lang"]))
            if isconst(lv) and lv[0] == 0:
                v = fx.kval(st, ks[5])
                if not (isconst(v) and v[0] == 0): fx.report(st, i, "the journal entry has a length for an extra string that is absent")
            elif not s.strlen_of(fx, st, i.args[5], names["lang"], True): fx.report(st, i, "the journal entry does not carry the length of the extra string")
    def strlen_of(s, fx, st, o, arg, orzero=False):
        k = fx.key(st, o)
        for l in fx.kleaf[k]:
            d = s.fn.defs.get(l)
            if d is not None and d.op == "call" and d.callee() == "strlen" and fx.key(st, d.args[0]) == fx.leaf(arg): 
                return k == fx.leaf(l)
        return False
    def ret(s, fx, st, i):
        mode, log, enc, lv = st.a
        s.cnt["ret"].add(i.id)
        if mode != 1: return
        v = fx.val(st, i.args[0]); k = fx.key(st, i.args[0])
        failed = within(v, FAILV[s.fail]); okish = not failed
        if log and log[1] == "fail" and okish: fx.report(st, i, "may report success although the journal entry could not be written")
        if log and log[0] in ("CRE", "ENC") and log[1] == "ok":
            if not enc: fx.report(st, i, "returns without the result entry that must follow the entry already written")
            else:
                if enc[0] == "fail" and okish: fx.report(st, i, "may report success although the result entry could not be written")
                ill = 0 if log[0] == "CRE" else WG_ILLEGAL
                if enc[0] == "ok":
                    if okish:
                        same = enc[1] == k or (log[0] == "CRE" and fx.kleaf[enc[1]] and fx.kleaf[enc[1]] <= fx.kleaf[k])
                        if not same: fx.report(st, i, "the result entry does not carry the value that is returned")
                    elif not (isconst(fx.kval(st, enc[1])) and fx.kval(st, enc[1])[0] == ill):
                        fx.report(st, i, "the operation failed, but its result entry does not say so")
        if okish and not log and not failed:
            pass

def unlogged_types(m):
    """types for which wg_log_encode returns success without writing"""
    f = m.fn("wg_log_encode")
    class R:
        def start(s, fx): return [0]
        def step(s, fx, st, i):
            if i.op == "call" and i.callee() == "write_log_buffer": return [1]
        def ret(s, fx, st, i):
            v = fx.val(st, i.args[0]); tv = fx.kval(st, fx.leaf(1))
            if st.a == 0 and not disjoint(v, const(0)) : s.out.append((tv, st))
    out = set()
    for t in range(0, 32):
        r = R(); r.out = []
        fx = Flow(f, r)
        orig = r.start
        fx.init_vals = {fx.leaf(1): const(t)}
        fx.run()
        if r.out and all(isconst(v) for v, _ in r.out): out.add(t)
    return out

def c06(res, tier):
    m = ir.load(("db", "json"), "main", extra_keep=("write_log_buffer",)); res.module(m)
    muts = seg_writers(m)
    ul = unlogged_types(m)
    # wg_log_encode decides by the value whether an integer needs an entry, so INT stays "logged" here
    ul -= {3}
    res.rule("with journaling active, no store to a record or the segment and no call of a function that changes the segment happens before the operation's journal entry was written successfully; a failed journal write is followed by no change and a failure result")
    res.rule("the entry of a creation or encoding is followed by exactly one result entry on every path, carrying the returned value, or the failure mark if the operation fails")
    res.rule("the arguments of a journal entry are the operation's own record, field, value, type and lengths; record metadata is stored as journaled")
    subj = {}
    for f in m.funcs.values():
        if f.file in ("Db/dblog.c", "Db/dballoc.c", "Db/dbhash.c") and f.name not in REQ: continue
        if not f.file.startswith("Db/"): continue
        r = Wal(f, muts, (), "nz", ul)
        logs = any(i.op == "call" and (i.callee() in LOGS or i.callee() == "wg_log_encval") for i in f.instrs())
        # a direct change of a record
        direct = False
        for i in f.instrs():
            if i.op in ("store", "cmpxchg", "atomicrmw") or (i.op == "call" and i.callee() == "wg_compare_and_swap"):
                a = addr_of(i) if i.op != "call" else i.args[0]
                x = a
                while isinstance(x, int) and x in f.defs and f.defs[x].op in ("getelementptr", "bitcast"): x = f.defs[x].args[0]
                if isinstance(x, int) and (x in r.recargs or (x in f.defs and f.defs[x].op == "call" and f.defs[x].callee() in RECRES)): direct = True
        if logs or direct or f.name in REQ: subj[f.name] = (logs, direct)
    for n in REQ: m.fn(n)
    FAIL = {"ptr": "zero", "i64": "nz"}
    def one(n):
        f = m.funcs[n]
        need, fail = REQ.get(n, ((), "illegal" if n.startswith("wg_encode_") else FAIL.get(f.ret, "nz")))
        r = Wal(f, muts, need, fail, ul); fx = Flow(f, r); fx.run()
        got = {LOGS[c.callee()] for c in f.calls() if c.callee() in LOGS}
        return n, [(d["where"], d["msg"], d["path"]) for d in fx.reports], {k: len(v) for k, v in r.cnt.items()}, sorted(got), fx.merged
    nm = nl = 0
    for n, reps, cnt, got, merged in pmap(one, sorted(subj)):
        res.funcs.add(n); nm += cnt["mut"]; nl += cnt["log"]
        res.obligation(max(1, cnt["mut"] + cnt["log"] + cnt["ret"]), "%s: %s, entries %s" % (n, cnt, got), kind="journal order (changes, entries, returns)")
        for where, msg, path in reps: res.violation("write-ahead", n, where, "%s %s" % (n, msg), path)
        if n in REQ:
            for e in REQ[n][0]:
                if e not in got: res.violation("write-ahead", n, m.funcs[n].file + ":%d" % m.funcs[n].line, "%s writes no %s entry" % (n, e))
    res.need(nm, 20, "changes of shared data"); res.need(nl, 15, "journal calls")

# ---------------------------------------------------------------- C07
def lin(fx, k, d=0):
    """linear form of a key: {leaf key: coefficient}, constant under None"""
    t = fx.kt[k]; op = t[0]
    if op == "c": return {None: t[1]}
    if op in ("trunc", "sext", "zext"): return lin(fx, t[1], d+1)
    def comb(a, b, f):
        r = dict(a)
        for x, c in b.items(): r[x] = r.get(x, 0) + f*c
        return {x: c for x, c in r.items() if c or x is None}
    if op == "add": return comb(lin(fx, t[1], d+1), lin(fx, t[2], d+1), 1)
    if op == "sub": return comb(lin(fx, t[1], d+1), lin(fx, t[2], d+1), -1)
    if op == "mul" and fx.cval(t[2]) is not None:
        c = fx.cval(t[2]); return {x: v*c for x, v in lin(fx, t[1], d+1).items() if v*c or x is None}
    if op == "gep":
        r = comb(lin(fx, t[1], d+1), {None: t[2]}, 1)
        for x, sc in t[3]: r = comb(r, lin(fx, x, d+1), sc)
        return r
    return {k: 1}
def lsub(a, b):
    r = dict(a)
    for x, c in b.items(): r[x] = r.get(x, 0) - c
    return frozenset((x, c) for x, c in r.items() if c)

def argname(fx, k):
    ls = [l for l in fx.kleaf[k] if l < fx.fn.nargs]
    return fx.fn.args[ls[0]][0] if len(ls) == 1 else None

class Writer:
    """records what is put into the buffer that is written to the journal"""
    def __init__(s, fn): s.fn = fn; s.out = []; s.loops = {}
    def start(s, fx): return [()]
    def extra_live(s, a):
        r = set()
        for e in a: r |= set(e[-1])
        return r
    def step(s, fx, st, i):
        if i.op == "store":
            if (i.bb, i.args[1] if isinstance(i.args[1], int) else None) in s.loops: return None   # the byte of a copy loop
            ak = fx.key(st, i.args[1]); b = fx.kt[fx.abase(ak)]
            if b[0] == "alloca" or (b[0] == "ssa" and b[1] in s.fn.defs and s.fn.defs[b[1]].op == "call"):
                w = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "double": 8, "ptr": 8}.get(i.d.get("vt"), 0)
                vk = fx.key(st, i.args[0])
                return [st.a + (("F", ak, w, vk, frozenset(fx.kleaf[ak] | fx.kleaf[vk])),)] if not any(e[0] == "F" and e[1] == ak for e in st.a) else None
        if i.op == "call":
            c = i.callee()
            if c == "enc_varint":
                ak = fx.key(st, i.args[0]); vk = fx.key(st, i.args[1])
                return [st.a + (("V", ak, i.id, vk, frozenset(fx.kleaf[ak] | fx.kleaf[vk] | {i.id})),)]
            if c and (c.startswith("llvm.memcpy") or c in ("memcpy", "memmove")):
                ak = fx.key(st, i.args[0]); sk = fx.key(st, i.args[1]); nk = fx.key(st, i.args[2])
                return [st.a + (("M", ak, nk, sk, frozenset(fx.kleaf[ak] | fx.kleaf[sk] | fx.kleaf[nk])),)]
            if c == "write_log_buffer":
                s.written(fx, st, i)
                return [()]
        return None
    def edge(s, fx, st, i, k, truth):
        # copy loop: while(p < end) *p++ = *q++   (header with a phi that steps by one)
        h = i.bb
        if h not in fx.headers: return None
        t = fx.kt[k]
        c = s.fn.defs.get(i.args[0])
        if c is None or c.op != "icmp": return None
        ph = [x for x in c.args if isinstance(x, int) and x in s.fn.defs and s.fn.defs[x].op == "phi" and s.fn.defs[x].bb == h]
        if len(ph) != 1: return None
        p = ph[0]; end = [x for x in c.args if x != p][0]
        body = [b for b in range(len(s.fn.blocks)) if h in s.fn.reach()[b] and b in s.fn.reach()[h]]
        stores = [x for b in body for x in s.fn.blocks[b] if x.op == "store" and x.d.get("vt") == "i8"]
        if len(stores) != 1 or any(x.op == "call" for b in body for x in s.fn.blocks[b]): return None
        step = [a for a, pb in zip(s.fn.defs[p].args, s.fn.defs[p].d["p"]) if (pb, h) in s.fn.backedges()]
        sd = s.fn.defs.get(step[0]) if len(step) == 1 and isinstance(step[0], int) else None
        if sd is None or sd.op != "getelementptr" or sd.args[0] != p or sd.d.get("off") != 1 or sd.d.get("vo"): return None
        taken = st.alias.get(p)
        if truth == (i.d["s"][0] in body):         # staying in the loop
            if taken is not None:                  # first iteration: start is known
                ek = fx.key(st, end); src = None
                ld = s.fn.defs.get(stores[0].args[0])
                if ld is not None and ld.op == "load":
                    q = st.alias.get(ld.args[0]); src = q
                # the source must step by one as well
                qd = s.fn.defs.get(ld.args[0]) if ld is not None and ld.op == "load" else None
                ok = False
                if qd is not None and qd.op == "phi":
                    for a, pb in zip(qd.args, qd.d["p"]):
                        if (pb, h) in s.fn.backedges():
                            x = s.fn.defs.get(a) if isinstance(a, int) else None
                            ok = x is not None and x.op == "getelementptr" and x.args[0] == qd.id and x.d.get("off") == 1 and not x.d.get("vo")
                if src is None or not ok: return None
                s.loops[(stores[0].bb, stores[0].args[1])] = h
                if any(e[0] == "L" and e[4] == h for e in st.a): return None
                return st.a + (("L", taken, ek, src, h, frozenset(fx.kleaf[taken] | fx.kleaf[ek] | fx.kleaf[src])),)
        else:
            ek = fx.key(st, end)
            if not any(e[0] == "L" and e[4] == h for e in st.a) and taken is not None:
                st.alias[p] = ek     # nothing to copy: start == end (lengths are not negative)
                return st.a + (("L0", taken, ek, None, h, frozenset(fx.kleaf[taken] | fx.kleaf[ek])),)
            st.alias[p] = ek
        return None
    def written(s, fx, st, i):
        base = lin(fx, fx.key(st, i.args[1])); total = lsub(lin(fx, fx.key(st, i.args[2])), {})
        items = []
        for e in st.a:
            pos = lsub(lin(fx, e[1]), base)
            if e[0] == "F":
                v = fx.kval(st, e[3]); items.append((pos, ("F", e[2], v[0] if isconst(v) else s.tag(fx, e[3]))))
            elif e[0] == "V":
                v = fx.kval(st, e[3]); l = lin(fx, e[3])
                items.append((pos, ("V", e[2], (v[0] if isconst(v) else s.name(fx, l)))))
            elif e[0] == "M": items.append((pos, ("M", s.name(fx, lin(fx, e[2])), argname(fx, e[3]))))
            elif e[0] in ("L", "L0"):
                n = s.name(fx, dict(lsub(lin(fx, e[2]), lin(fx, e[1]))))
                items.append((pos, ("L", n, argname(fx, e[3]) if e[0] == "L" else None, lsub(lin(fx, e[2]), lin(fx, e[1])))))
        # order by position
        seq = []; cur = frozenset(); used = [False]*len(items)
        while True:
            nxt = None
            for n, (p, it) in enumerate(items):
                if not used[n] and p == cur: nxt = n; break
            if nxt is None: break
            used[nxt] = True; it = items[nxt][1]; seq.append(it)
            inc = {"F": {None: it[1]}, "V": {fx.leaf(it[1]) if it[0] == "V" else None: 1}, "M": {None: it[1]} if isinstance(it[1], int) else {}}.get(it[0])
            if it[0] == "L": inc = dict(it[3])
            d = dict(cur)
            for x, c in inc.items(): d[x] = d.get(x, 0) + c
            cur = frozenset((x, c) for x, c in d.items() if c)
        complete = cur == total
        stray = [it for n, (p, it) in enumerate(items) if not used[n] and not (it[0] == "L" and not it[3])]
        enull = None
        if "extdata" in [a[0] for a in s.fn.args]:
            n = [a[0] for a in s.fn.args].index("extdata"); v = fx.kval(st, fx.leaf(n))
            enull = "null" if isconst(v) and v[0] == 0 else "set" if nonzero(v) else None
        out = []
        for it in seq:
            if it[0] == "V": out.append(("V", it[2]))
            elif it[0] == "L": out.append(("bytes", it[1], it[2]))
            elif it[0] == "M": out.append(("bytes", it[1], it[2]))
            else: out.append(("fixed", it[1], it[2]))
        s.out.append((tuple(out), complete, len(stray), enull, i))
    def tag(s, fx, k):
        t = fx.kt[k]
        if t[0] == "ssa" and t[1] in s.fn.defs and s.fn.defs[t[1]].op == "load":
            d = s.fn.defs[t[1]].args[0]
            if isinstance(d, int) and d < s.fn.nargs: return "*" + s.fn.args[d][0]
        return argname(fx, k)
    def name(s, fx, l):
        """a linear form in parameter names: 'length', 'extlength+1', or the constant"""
        l = {x: c for x, c in dict(l).items() if c}
        c0 = l.pop(None, 0)
        if not l: return c0
        nm = set()
        for x, c in l.items():
            t = fx.kt[x]
            if t[0] == "ssa" and t[1] < s.fn.nargs and c == 1: nm.add(s.fn.args[t[1]][0])
            elif t[0] == "ssa" and t[1] in s.fn.defs and is_seg(s.fn.defs[t[1]]): pass      # pointer -> offset
            else: nm.add("?")
        r = "*".join(sorted(nm))
        return r + ("%+d" % c0 if c0 else "")

FGETC = ("fgetc", "getc", "_IO_getc")
class Reader:
    """reads per journal entry, and where the values read go"""
    def __init__(s, fn, cmd, head):
        s.fn = fn; s.cmd = cmd; s.head = head; s.out = set(); s.where = {}
        s.getkeys = [i for i in fn.calls("wg_ginthash_getkey")]
    # state: None before the entry, else (items, varmap, uses)
    def start(s, fx): return [None]
    def alloca(s, fx, k):
        t = fx.kt[fx.abase(k)]
        return t[1] if t[0] == "alloca" else None
    def src(s, o, vm, depth=0):
        """indexes of the values read that o derives from; 'call:NAME' for calls"""
        out = set(); seen = set(); st = [o]
        while st:
            x = st.pop()
            if not isinstance(x, int) or x in seen: continue
            seen.add(x); d = s.fn.defs.get(x)
            if d is None: continue
            if d.op == "load":
                hit = [(n, adj) for (al, n, adj) in vm if al == ("L", d.id)]
                if hit: out.add(hit[-1]); continue
                a = d.args[0]
                while isinstance(a, int) and a in s.fn.defs and s.fn.defs[a].op in ("getelementptr", "bitcast"): a = s.fn.defs[a].args[0]
                if isinstance(a, int) and a in s.fn.defs and s.fn.defs[a].op == "alloca":
                    hit = [(n, adj) for (al, n, adj) in vm if al == a]
                    if hit: out.add(hit[-1]); continue
                    for g in s.getkeys:
                        if len(g.args) > 3 and g.args[3] == a and depth < 4: out |= s.src(g.args[2], vm, depth+1) | {"xlat"}
                continue
            if d.op == "call": out.add("call:%s" % d.callee()); continue
            st += d.args
        return out
    def lname(s, fx, st, o, vm, minus=None):
        """name of the value read that o is, with the constant added to it"""
        l = lin(fx, o if minus is not None else fx.key(st, o))
        if minus is not None: l = dict(lsub(l, {minus: 1}))
        c0 = l.pop(None, 0); l = {x: c for x, c in l.items() if c}
        if not l: return str(c0)
        if any(c != 1 or fx.kt[x][0] != "ssa" for x, c in l.items()): return "?"
        r = set()
        for x in l: r |= s.src(fx.kt[x][1], vm)
        if len(l) == 1 and c0 and len(r) == 1 and isinstance(list(r)[0], tuple):
            a, b = list(r)[0]; r = {(a, b + c0)}; c0 = 0
        return self_name(r) + ("%+d" % c0 if c0 else "")
    def step(s, fx, st, i):
        if i.op == "call" and i.callee() in FGETC and i.id == s.head.id:
            if st.a is not None: s.finish(fx, st); return ()
            return [Fork(((), (), ()), const(s.cmd))]
        if st.a is None: return None
        items, vm, uses = st.a
        if i.op == "call":
            c = i.callee()
            if c == "fget_varint":
                a = s.alloca(fx, fx.key(st, i.args[2]))
                n = sum(1 for x in items if x[0] == "V")
                vm2 = tuple(x for x in vm if x[0] != a) + ((a, n, 0),)
                return [Fork((items + (("V",),), vm2, uses), const(0)), Fork(((), (), (("failed",),)), NZ)]
            if c == "fread":
                sz = fx.val(st, i.args[1]); n = fx.val(st, i.args[2])
                if isconst(sz) and isconst(n): it = ("bytes", sz[0]*n[0])
                elif isconst(sz) and sz[0] == 1: it = ("bytes", self_name(s.src(i.args[2], vm)))
                elif isconst(n) and n[0] == 1: it = ("bytes", self_name(s.src(i.args[1], vm)))
                else: it = ("bytes", "?")
                a = s.alloca(fx, fx.key(st, i.args[0])); nb = sum(1 for x in items if x[0] == "bytes")
                if a is not None: vm = tuple(x for x in vm if x[0] != a) + ((a, "b%d" % nb, 0),)
                else:
                    b = fx.kt[fx.abase(fx.key(st, i.args[0]))]
                    if b[0] == "ssa": uses = uses + (("buf", b[1], "b%d" % nb),)
                ok = const(n[0]) if isconst(n) else None
                return [(items + (it,), vm, uses)]
            if c in FGETC: return [(items + (("bytes", 1),), vm, uses)]
            if c in ("wg_create_record", "wg_create_raw_record"):
                return [Fork((items, vm, uses + ((c, s.lname(fx, st, i.args[1], vm)),)), NZ), Fork(((), (), (("failed",),)), const(0))]
            if c == "wg_delete_record": return [(items, vm, uses + ((c, self_name(s.src(i.args[1], vm))),))]
            if c in ("wg_set_field", "wg_set_new_field"):
                return [(items, vm, uses + (("set", self_name(s.src(i.args[1], vm)), s.lname(fx, st, i.args[2], vm), self_name(s.src(i.args[3], vm))),))]
            if c in ("wg_encode_int", "wg_encode_double"):
                return [(items, vm, uses + ((c, self_name(s.src(i.args[1], vm))),))]
            if c in ("wg_encode_unistr", "wg_encode_uniblob"):
                def buf(o):
                    k = fx.key(st, o); v = fx.kval(st, k)
                    if isconst(v) and v[0] == 0: return "null"
                    b = fx.kt[fx.abase(k)]
                    return "".join(u[2] for u in uses if u[0] == "buf" and b[0] == "ssa" and u[1] == b[1]) or "?"
                tv = fx.val(st, i.args[3])
                u = (c, buf(i.args[1]), buf(i.args[2]), tv[0] if isconst(tv) else "?")
                if c == "wg_encode_uniblob": u += (s.lname(fx, st, i.args[4], vm),)
                return [(items, vm, uses + (u,))]
            if c == "wg_ginthash_addkey":
                return [(items, vm, uses + (("tran", self_name(s.src(i.args[2], vm)), self_name(s.src(i.args[3], vm))),))]
            return None
        if i.op == "load":
            # what a variable held when it was loaded
            a = s.alloca(fx, fx.key(st, i.args[0]))
            new = tuple(x for x in vm if x[0] != ("L", i.id)) + tuple((("L", i.id), n, adj) for (al, n, adj) in vm if al == a and a is not None)
            return [(items, new, uses)] if new != vm else None
        if i.op == "store":
            ak = fx.key(st, i.args[1]); a = s.alloca(fx, ak)
            if a is not None:
                for (al, n, adj) in vm:
                    if al != a: continue
                    l = {x: c for x, c in lin(fx, fx.key(st, i.args[0])).items() if c}
                    c0 = l.pop(None, 0)
                    own = len(l) == 1 and list(l.values()) == [1] and fx.kt[list(l)[0]][0] == "ssa" and s.src(fx.kt[list(l)[0]][1], vm) == {(n, adj)}
                    return [(items, tuple(x for x in vm if x[0] != a) + (((a, n, adj + c0),) if own else ()), uses)]
                return None
            src = s.src(i.args[1], vm)
            if seg_derived(s.fn, i.args[1]) and src and not i.fld.endswith(("logging.active", "logging.dirty")):
                t = fx.kt[ak]
                off = t[2] if t[0] == "gep" else 0
                return [(items, vm, uses + (("store", off, self_name(src), self_name(s.src(i.args[0], vm))),))]
            b = fx.kt[fx.abase(ak)]
            if b[0] == "ssa" and b[1] in s.fn.defs and s.fn.defs[b[1]].op == "call" and fx.cval(fx.key(st, i.args[0])) == 0:
                t = fx.kt[ak]
                x = s.lname(fx, st, ak, vm, minus=fx.abase(ak))
                u = ("term", b[1], x)
                if u not in uses: return [(items, vm, uses + (u,))]
        return None
    def edge(s, fx, st, i, k, truth):
        if st.a is None or i.op != "br": return None
        t = fx.kt[k]
        if t[0] == "not": k = t[1]; t = fx.kt[k]; truth = not truth
        if t[0] != "icmp" or t[1] != "eq": return None
        for x, y in ((t[2], t[3]), (t[3], t[2])):
            l = fx.kt[x]
            if l[0] != "ssa" or l[1] not in s.fn.defs or s.fn.defs[l[1]].op != "call": continue
            c = s.fn.defs[l[1]].callee()
            if (c == "fread" and not truth) or (c == "malloc" and truth and fx.cval(y) == 0): return ((), (), (("failed",),))
        return None
    def finish(s, fx, st):
        items, vm, uses = st.a
        if ("failed",) in uses: return
        u = tuple(x for x in uses if x[0] not in ("buf", "term"))
        bufs = {x[1]: x[2] for x in uses if x[0] == "buf"}
        terms = tuple(sorted((bufs.get(x[1], "?"), x[2]) for x in uses if x[0] == "term"))
        s.out.add((items, u, terms))
    def ret(s, fx, st, i): pass
def self_name(src):
    out = []
    for x in sorted(src, key=str):
        if isinstance(x, tuple): out.append(("v%d" % (x[0]+1) if isinstance(x[0], int) else x[0]) + ("%+d" % x[1] if x[1] else ""))
        else: out.append(x)
    return "|".join(out) if out else "?"

STR_TYPES = {5, 6, 7, 8, 13}
def c07(res, tier):
    m = ir.load(("db", "json"), "main", extra_keep=("write_log_buffer", "enc_varint", "fget_varint")); res.module(m)
    for n in ("enc_varint", "fget_varint", "write_log_buffer"): m.fn(n)
    res.rule("each journal writing call writes one contiguous buffer: the entry byte, then its items without gap or overlap, with the length passed to the write being exactly their sum")
    res.rule("for each entry kind and value type, replay reads the same items in the same order and widths, and uses each for the operation argument it was written from")
    res.rule("the variable-length integer encoder and decoder agree bit by bit in every length class (bit provenance)")
    names = {}
    W = {}
    def bad(rule, inst, where, msg): res.violation(rule, inst, where, msg)
    def writer(name, tconst=None):
        f = m.fn(name); r = Writer(f); fx = Flow(f, r)
        if tconst is not None: fx.init_vals = {fx.leaf(1): const(tconst)}
        r.ret = lambda fx, st, i: None
        fx.run(); res.funcs.add(name)
        return r.out
    expect = {"wg_log_create_record": ("length",), "wg_log_delete_record": ("enc",), "wg_log_set_field": ("rec", "col", "data"), "wg_log_set_meta": ("rec", "meta"), "wg_log_encval": ("enc",)}
    cmds = {}
    for name, items in expect.items():
        outs = writer(name)
        if not outs: raise Broken("%s writes nothing" % name)
        for seq, complete, stray, en, i in outs:
            res.obligation(1, "%s writes %s" % (name, seq), kind="entries written")
            if not complete or stray: bad("entry-contiguous", name, i.where(), "the length written does not match the items put into the buffer: %s" % (seq,))
            body = list(seq)
            if name != "wg_log_encval":
                if not body or body[0][0] != "fixed" or body[0][1] != 1 or not isinstance(body[0][2], int):
                    bad("entry-contiguous", name, i.where(), "the entry does not start with a constant entry byte"); continue
                cmds[name] = body[0][2] & 0xff; body = body[1:]
            want = [("V", x) for x in items]
            if body != want: bad("entry-items", name, i.where(), "writes the items %s, expected %s" % (body, want))
    types = {}
    for t in range(1, 32):
        outs = writer("wg_log_encode", t)
        for seq, complete, stray, en, i in outs:
            res.obligation(1, "wg_log_encode type %d (extdata %s): %s" % (t, en, seq), kind="entries written")
            if not complete or stray: bad("entry-contiguous", "wg_log_encode type %d" % t, i.where(), "the length written does not match the items put into the buffer: %s" % (seq,))
            if not seq or seq[0][0] != "fixed" or seq[0][1] != 1 or not isinstance(seq[0][2], int): bad("entry-contiguous", "wg_log_encode type %d" % t, i.where(), "the entry does not start with its entry byte"); continue
            types.setdefault(t, set()).add((seq[0][2] & 0xff, tuple(x for x in seq[1:] if not (x[0] == "bytes" and x[1] == 0)), en))
    res.need(len(types), 7, "value types that are journaled")
    rf = m.fn("wg_replay_log"); res.funcs.add("wg_replay_log")
    heads = [i for i in rf.calls() if i.callee() in FGETC and any(i.bb in rf.reach()[t] for t in rf.succ[i.bb])]
    if len(heads) != 1: raise Broken("the entry loop of the replay was not found (%d candidates)" % len(heads))
    head = heads[0]
    def reader(cmd):
        r = Reader(rf, cmd, head); fx = Flow(rf, r); fx.run()
        return r.out
    jobs = [("wg_log_create_record", cmds.get("wg_log_create_record")), ("wg_log_delete_record", cmds.get("wg_log_delete_record")), ("wg_log_set_field", cmds.get("wg_log_set_field")),
      ("wg_log_set_meta", cmds.get("wg_log_set_meta"))] + [(t, list(types[t])[0][0]) for t in sorted(types)]
    if len({c for _, c in jobs}) != len(jobs): bad("entry-kinds", "entry bytes", rf.file + ":%d" % rf.line, "two kinds of journal entries start with the same byte: %s" % (jobs,))
    outs = dict(zip([j[0] for j in jobs], pmap(reader, [j[1] for j in jobs])))
    where = head.where()
    V = ("V",)
    def seqs(k): return {o[0] for o in outs[k]}
    def check(k, ok, msg):
        res.obligation(1, kind="entries read back")
        if not ok: bad("entry-read", str(k), where, "%s: %s; replay reads and uses: %s" % (k, msg, sorted(outs[k], key=str)[:3]))
    # records
    k = "wg_log_create_record"
    check(k, seqs(k) == {(V, V)}, "expected a length and the result offset")
    check(k, all((not u and "failed" not in str(u)) or (u[0][0].startswith("wg_create") and u[0][1] == "v1") for _, u, _ in outs[k]) and any(u for _, u, _ in outs[k]), "the length is not used for the record")
    check(k, all(x[1] == "v2" and "call:wg_create_r" in x[2] for _, u, _ in outs[k] for x in u if x[0] == "tran") and any(x[0] == "tran" for _, u, _ in outs[k] for x in u), "the result offset is not translated to the new record")
    k = "wg_log_delete_record"
    check(k, seqs(k) == {(V,)}, "expected one offset")
    check(k, all([x for x in u if x[0] == "wg_delete_record"] == [("wg_delete_record", "v1|xlat")] for _, u, _ in outs[k]) and outs[k], "the record (translated) is not deleted")
    k = "wg_log_set_field"
    check(k, seqs(k) == {(V, V, V)}, "expected record, field and value")
    check(k, all([x for x in u if x[0] == "set"] == [("set", "v1|xlat", "v2", "v3|xlat")] for _, u, _ in outs[k]) and outs[k], "record, field or value are used wrongly, or the record or value is not translated")
    k = "wg_log_set_meta"
    check(k, seqs(k) == {(V, V)}, "expected record and metadata")
    check(k, all([x for x in u if x[0] == "store"] == [("store", 8, "v1|xlat", "v2")] for _, u, _ in outs[k]) and outs[k], "the metadata is not stored into the record")
    # encoded values
    for t in sorted(types):
        w = types[t]; nm = "type %d" % t
        shapes = {tuple(("V",) if x[0] == "V" else x for x in b) for _, b, _ in w}
        key = t
        def ck(ok, msg):
            res.obligation(1, kind="entries read back")
            if not ok: bad("entry-read", "value of " + nm, where, "value of %s: %s; written: %s; replay: %s" % (nm, msg, sorted(w, key=str), sorted(outs[key], key=str)[:4]))
        if not outs[t]: ck(False, "replay has no branch that reads it"); continue
        trans = [x for _, u, _ in outs[t] for x in u if x[0] == "tran"]
        if t in STR_TYPES:
            exp = {(("V", "length"), ("V", "extlength+1"), ("bytes", "length", "data"), ("bytes", "extlength", "extdata")), (("V", "length"), ("V", 0), ("bytes", "length", "data"), ("bytes", "extlength", "extdata"))}
            got = set()
            for cb, b, en in w:
                # a copy loop that runs zero times has no source
                bb = tuple((x[0], x[1], {0: "data", 1: "extdata"}[n]) if x[0] == "bytes" and x[2] is None else x for n, x in [(sum(1 for y in b[:q] if y[0] == "bytes"), x) for q, x in enumerate(b)])
                got.add((bb, en))
            okw = all(b in exp and (b[1][1] == 0) == (en == "null") for b, en in got)
            ck(okw and len({b for b, _ in got}) == 2, "the string, its lengths and the extra string are not written as length, extra length (0 for none, else length+1), bytes, extra bytes")
            ck(seqs(t) <= {(V, V, ("bytes", "v1"), V), (V, V, ("bytes", "v1"), ("bytes", "v2-1"), V)} and len(seqs(t)) == 2, "replay does not read length, extra length, bytes, extra bytes (if any), result")
            fnn = "wg_encode_uniblob" if t == 8 else "wg_encode_unistr"
            ok = True
            for it, u, terms in outs[t]:
                e = [x for x in u if x[0].startswith("wg_encode_un")]
                ext = sum(1 for x in it if x[0] == "bytes") == 2
                want = (fnn, "b0", "b1" if ext else "null", t) + (("v1",) if t == 8 else ())
                if e != [want]: ok = False
                tw = (("b0", "v1"),) + ((("b1", "v2-1"),) if ext else ())
                if terms != tw: ok = False
            ck(ok, "the string read is not terminated, or not encoded again with its own type, length and extra string")
        else:
            okw = all(len(b) == 1 and ((b[0][0] == "bytes" and b[0][1] == 8 and b[0][2] == "data") or (b[0][0] == "fixed" and b[0][1] == 8 and b[0][2] == "*data")) for _, b, _ in w)
            ck(okw, "the value is not written in its full width")
            ck(seqs(t) == {(("bytes", 8), V)}, "replay does not read the full value and the result")
            fnn = {3: "wg_encode_int", 4: "wg_encode_double"}.get(t)
            ck(all([x for x in u if x[0].startswith("wg_encode")] == [(fnn, "b0")] for _, u, _ in outs[t]), "the value read is not encoded again")
        last = {len([x for x in it if x == V]) for it, _, _ in outs[t]}
        nv = "v%d" % max(last)
        ck(trans and all(x[1] == nv and ("call:wg_encode" in x[2]) for x in trans), "the logged value is not translated to the new one")
    # types handed to the journal by the library
    for f in m.funcs.values():
        for i in f.calls("wg_log_encode"):
            a = i.args[1]
            if isinstance(a, list) and a[0] == "c":
                res.obligation(1, kind="types passed")
                if a[1] not in types and a[1] not in unlogged_types_of(writer, m, a[1]): bad("entry-kinds", "%s type %d" % (f.name, a[1]), i.where(), "passes a type that the journal does not know")
    varint(res, m)

def unlogged_types_of(writer, m, t):
    f = m.fn("wg_log_encode")
    class R:
        ok = False
        def start(s, fx): return [0]
        def step(s, fx, st, i): return None
        def ret(s, fx, st, i):
            v = fx.val(st, i.args[0])
            if isconst(v) and v[0] == 0: s.ok = True
    r = R(); fx = Flow(f, r); fx.init_vals = {fx.leaf(1): const(t)}; fx.run()
    return {t} if r.ok else set()

def bits(fx, k, env, n=64):
    """bit vector (list of n: 0, 1, (source, bit), None) of a key"""
    t = fx.kt[k]; op = t[0]
    def cb(c): return [(c >> j) & 1 for j in range(n)]
    if k in env: return (env[k] + [0]*n)[:n]
    if op == "c": return cb(t[1])
    if op == "zext":
        w = t[2]; return bits(fx, t[1], env, n)[:w] + [0]*(n-w) if w < n else bits(fx, t[1], env, n)
    if op == "trunc":
        w = t[2]; return bits(fx, t[1], env, n)[:w] + [None]*(n-w)
    if op == "sext":
        w = t[2]; r = bits(fx, t[1], env, n)[:w]
        return r + [r[-1]]*(n-w)
    if op in ("and", "or", "xor"):
        a = bits(fx, t[1], env, n); b = bits(fx, t[2], env, n); r = []
        for x, y in zip(a, b):
            if op == "and": r.append(0 if x == 0 or y == 0 else y if x == 1 else x if y == 1 else x if x == y else None)
            elif op == "or": r.append(1 if x == 1 or y == 1 else y if x == 0 else x if y == 0 else x if x == y else None)
            else: r.append(y if x == 0 else x if y == 0 else None)
        return r
    if op == "add":
        a = bits(fx, t[1], env, n); b = bits(fx, t[2], env, n)
        if all(x == 0 or y == 0 for x, y in zip(a, b)): return [y if x == 0 else x for x, y in zip(a, b)]
        return [None]*n
    if op in ("shl", "lshr", "ashr"):
        c = fx.cval(t[2])
        if c is None: return [None]*n
        a = bits(fx, t[1], env, n); u = fx.kt[t[1]]
        if op == "lshr" and u[0] == "trunc": a = a[:u[2]] + [0]*(n-u[2])
        return ([0]*c + a)[:n] if op == "shl" else a[c:] + [0 if op == "lshr" else a[-1]]*c
    if op == "mul" and fx.cval(t[2]) is not None and fx.cval(t[2]) > 0 and fx.cval(t[2]) & (fx.cval(t[2])-1) == 0:
        return ([0]*(fx.cval(t[2]).bit_length()-1) + bits(fx, t[1], env, n))[:n]
    return [None]*n

def varint(res, m):
    ef = m.fn("enc_varint"); df = m.fn("fget_varint"); res.funcs |= {"enc_varint", "fget_varint"}
    enc = {}
    class ER:
        def start(s, fx): return [()]
        def extra_live(s, a):
            r = set()
            for _, _, lv in a: r |= lv
            return r
        def step(s, fx, st, i):
            if i.op == "store":
                t = fx.kt[fx.key(st, i.args[1])]; p = 0
                if t[0] == "gep" and not t[3] and fx.abase(fx.key(st, i.args[1])) == fx.leaf(0): p = t[2]
                elif fx.key(st, i.args[1]) == fx.leaf(0): p = 0
                else: fx.report(st, i, "writes elsewhere"); return None
                vk = fx.key(st, i.args[0])
                return [tuple(x for x in st.a if x[0] != p) + ((p, vk, frozenset(fx.kleaf[vk])),)]
        def ret(s, fx, st, i):
            n = fx.val(st, i.args[0])
            if not isconst(n): fx.report(st, i, "returns a length that is not constant on the path"); return
            # path condition on val: unsigned lower/upper bounds from the comparisons taken
            lo, hi = 0, (1 << 64) - 1
            vk = fx.leaf(1)
            for k, v in st.vals.items():
                t = fx.kt[k]
                if t[0] == "icmp" and isconst(v):
                    a, b = t[2], t[3]
                    if t[1] == "ult" and a == vk and fx.cval(b) is not None:
                        if v[0]: hi = min(hi, fx.cval(b) - 1)
                        else: lo = max(lo, fx.cval(b))
                    elif t[1] == "ult" and b == vk and fx.cval(a) is not None:
                        if v[0]: lo = max(lo, fx.cval(a) + 1)
                        else: hi = min(hi, fx.cval(a))
            env = {vk: [("v", j) if j < hi.bit_length() else 0 for j in range(64)]}
            bs = {p: bits(fx, k, env)[:8] for p, k, _ in st.a}
            enc.setdefault((n[0], lo, hi), []).append((bs, i))
    r = ER(); fx = Flow(ef, r); fx.mayreload = True; fx.run()
    for d in fx.reports: res.violation("varint", "enc_varint", d["where"], "enc_varint " + d["msg"], d["path"])
    dec = {}
    class DR:
        def start(s, fx): return [((), ())]
        def extra_live(s, a): return a[0]
        def step(s, fx, st, i):
            rd, ou = st.a
            if i.op == "call" and i.callee() in FGETC:
                if i.id in rd: fx.report(st, i, "reads in a loop"); return ()
                return [Fork((rd + (i.id,), ou), (0, 255, frozenset()))]
            if i.op == "store":
                if fx.key(st, i.args[1]) == fx.leaf(2): return [(rd, (fx.key(st, i.args[0]),))]
            return None
        def ret(s, fx, st, i):
            rd, ou = st.a
            v = fx.val(st, i.args[0])
            if not (isconst(v) and v[0] == 0): return
            if not ou: fx.report(st, i, "reports success without storing the value"); return
            env = {}; cond = []
            for n, l in enumerate(rd):
                env[fx.leaf(l)] = [(n, j) for j in range(8)] + [0]*56
            for n, l in enumerate(rd):
                c = None
                for k, vv in st.vals.items():
                    t = fx.kt[k]
                    if t[0] == "and" and t[1] == fx.leaf(l) and fx.cval(t[2]) == 128: c = 0 if isconst(vv) and vv[0] == 0 else 1 if nonzero(vv) else c
                    if t[0] == "icmp" and isconst(vv):
                        for x, y in ((t[2], t[3]), (t[3], t[2])):
                            tt = fx.kt[x]
                            if tt[0] == "and" and tt[1] == fx.leaf(l) and fx.cval(tt[2]) == 128 and t[1] == "eq" and fx.cval(y) == 0: c = 0 if vv[0] else 1
                cond.append(c)
            # the value key may depend on phis that were resolved on this path
            dec.setdefault(len(rd), []).append((bits(fx, ou[0], env), tuple(cond), i))
    r2 = DR(); fx2 = Flow(df, r2); fx2.run()
    for d in fx2.reports: res.violation("varint", "fget_varint", d["where"], "fget_varint " + d["msg"], d["path"])
    if not enc: raise Broken("no encoder path found")
    if not dec: raise Broken("no decoder path found")
    ranges = sorted(enc)
    nxt = 0
    for (n, lo, hi) in sorted(enc, key=lambda x: x[1]):
        if lo != nxt: res.violation("varint", "enc_varint", ef.file + ":%d" % ef.line, "values from %d are not covered by the encoder's length classes" % nxt)
        nxt = hi + 1
        for bs, i in enc[(n, lo, hi)]:
            res.obligation(1, "varint length %d: values %d..%d" % (n, lo, hi), kind="varint length classes")
            if set(range(n)) - set(bs): res.violation("varint", "length %d" % n, i.where(), "returns length %d but does not write all of its bytes" % n); continue
            for (vb, cond, di) in dec.get(n, []):
                # continuation bits written must be those the decoder expects on this path
                last = len(cond) - 1
                for q in range(n):
                    want = 1 if q < last else 0
                    if q < last or cond[q] is not None:
                        if bs[q][7] != (cond[q] if cond[q] is not None else want): res.violation("varint", "length %d" % n, i.where(), "byte %d of a %d-byte number does not carry the continuation mark the reader expects" % (q, n))
                out = []
                for j in range(64):
                    b = vb[j]
                    out.append(bs[b[0]][b[1]] if isinstance(b, tuple) else b)
                want = [("v", j) if j < hi.bit_length() else 0 for j in range(64)]
                if out != want:
                    j = [x for x in range(64) if out[x] != want[x]][0]
                    res.violation("varint", "length %d" % n, di.where(), "bit %d of a number written in %d bytes is not read back (%s)" % (j, n, out[j]))
            if not dec.get(n): res.violation("varint", "length %d" % n, i.where(), "the reader has no path that reads %d bytes" % n)
    if nxt != 1 << 64: res.violation("varint", "enc_varint", ef.file + ":%d" % ef.line, "values from %d are not covered by the encoder" % nxt)
