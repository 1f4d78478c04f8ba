"""C05: every database lock taken is released exactly once on every path; changes are made under a write lock."""
import ir
from flow import Flow, Fork, const, isconst, excluded, mk, TOP
from ir import Broken
from common import pmap
from lib import NZ, within, seg_writers, callers_closure

START = {"wg_start_read": "r", "wg_start_write": "w", "db_rlock": "r", "db_wlock": "w", "db_tfqueue_rlock": "r", "db_tfqueue_wlock": "w", "db_rspin_rlock": "r", "db_rspin_wlock": "w",
         "db_wspin_rlock": "r", "db_wspin_wlock": "w"}
END = {"wg_end_read": "r", "wg_end_write": "w", "db_rulock": "r", "db_wulock": "w", "db_tfqueue_rulock": "r", "db_tfqueue_wulock": "w", "db_rspin_rulock": "r", "db_rspin_wulock": "w",
       "db_wspin_rulock": "r", "db_wspin_wulock": "w"}
EXIT = {"exit", "_exit", "pthread_exit", "quick_exit"}
NAME = {"r": "read", "w": "write"}

def last(fld): return fld.split(".")[-1] if fld else fld

class TxnRule:
    """state: (kind of lock held, values that stand for its id, where it was taken, what is known of structure fields)"""
    def __init__(s, ctx, entry, root): s.ctx = ctx; s.entry = entry; s.root = root; s.exits = set(); s.subs = []
    def start(s, fx): return [s.entry]
    def extra_live(s, a): return set(a[1])
    def isid(s, fx, st, o):
        k = fx.key(st, o)
        while fx.kt[k][0] in ("sext", "zext", "trunc"): k = fx.kt[k][1]
        t = fx.kt[k]
        return t[0] == "ssa" and t[1] in st.a[1]
    def field(s, ff, fld):
        for f, v in ff:
            if f == fld: return v
        return None
    def rep(s, fx, st, i, kind, org, msg):
        if org is None: org = (i.srcfunc(), i.callee() or i.op, i.where())
        fx.report(st, i, "%s|%s|%s|%s" % (kind, org[0], org[1], msg))
    def step(s, fx, st, i):
        kd, ids, org, ff = st.a; ctx = s.ctx
        if i.op == "load" and i.fld:
            v = s.field(ff, last(i.fld))
            if v == "lock": return [Fork((kd, ids | {i.id}, org, ff), NZ)]
            if v is not None: return [Fork(st.a, v)]
            return None
        if i.op == "store" and i.fld:
            fl = last(i.fld)
            if fl not in ctx.fields: return None
            g = frozenset(x for x in ff if x[0] != fl)
            if kd and s.isid(fx, st, i.args[0]): g |= {(fl, "lock")}
            else:
                v = fx.val(st, i.args[0])
                if isconst(v): g |= {(fl, const(v[0]))}
                elif excluded(v, 0): g |= {(fl, NZ)}
                else:
                    k = fx.key(st, i.args[0])
                    return [Fork((kd, ids, org, g | {(fl, NZ)}), NZ, k), Fork((kd, ids, org, g | {(fl, const(0))}), const(0), k)]
            return [(kd, ids, org, g)] if g != ff else None
        if i.op != "call": return None
        c = i.callee()
        if c in START:
            ctx.sites.add((c, i.where()))
            if kd in NAME: s.rep(fx, st, i, "nested", org, "another lock is requested while the %s lock taken at %s is held" % (NAME[kd], org[2]))
            return [Fork((START[c], frozenset([i.id]), (i.srcfunc(), c, i.where()), ff), NZ), Fork((None, frozenset(), None, ff), const(0))]
        if c in END:
            ctx.sites.add((c, i.where()))
            if kd == "x": return [Fork((None, frozenset(), None, frozenset(x for x in ff if x[1] != "lock")), const(1)), Fork(st.a, const(0))]
            if kd is None:
                if org is not None: s.rep(fx, st, i, "unheld", org, "%s is called although the lock taken at %s was released already" % (c, org[2]))
                else:
                    v = fx.val(st, i.args[1])
                    if isconst(v) and v[0] == 0: s.rep(fx, st, i, "unheld", None, "%s is called where no lock is held" % c)
                return None
            if END[c] != kd: s.rep(fx, st, i, "kind", org, "the %s lock taken at %s is released as a %s lock" % (NAME[kd], org[2], NAME[END[c]]))
            elif not s.isid(fx, st, i.args[1]): s.rep(fx, st, i, "id", org, "%s is called with something else than the id of the lock taken at %s" % (c, org[2]))
            # a release that fails may be tried again
            return [Fork((None, frozenset(), org, frozenset(x for x in ff if x[1] != "lock")), const(1)), Fork(("x", ids, org, ff), const(0))]
        if c in EXIT:
            if kd in NAME: s.rep(fx, st, i, "exit", org, "the %s lock taken at %s is still held when the %s ends" % (NAME[kd], org[2], "thread" if c == "pthread_exit" else "process"))
            return None
        if c in ctx.w:
            ctx.changes.add((c, i.where()))
            if kd == "r": s.rep(fx, st, i, "change", org, "%s changes the database while only the read lock taken at %s is held" % (c, org[2]))
        if kd and c and c not in ctx.m.funcs and (c == "Py_BuildValue" or c.startswith(("PyLong_From", "PyInt_From"))) and any(s.isid(fx, st, a) for a in i.args):
            return [(None, frozenset(), None, ff)]           # the id is handed to the Python caller
        if c in ctx.inter and (kd or c in ctx.may_take) or c in ctx.setters:
            h = ctx.m.funcs[c]
            ent = (kd, frozenset(n for n in range(min(h.nargs, len(i.args))) if kd and isinstance(i.args[n], int) and s.isid(fx, st, i.args[n])), org, ff)
            iv = []
            for n in range(min(h.nargs, len(i.args))):
                v = fx.val(st, i.args[n])
                if isconst(v): iv.append((n, const(v[0])))
            r = summ(ctx, c, ent, tuple(iv)); s.subs.append((c, ent, tuple(iv)))
            if r is None: return None
            out = []
            for k2, isret, org2, ff2, rng in sorted(r, key=repr):
                keep = ids if k2 and org2 == org else frozenset()
                out.append(Fork((k2, keep | ({i.id} if isret and k2 else frozenset()), org2, ff2), rng))
            return out
        kill = ctx.storers.get(c) if c else None
        if kill:
            g = frozenset(x for x in ff if x[0] not in kill)
            if g != ff: return [(kd, ids, org, g)]
        return None
    def redefine(s, fx, st, ids, new, where):
        kd, have, org, ff = st.a
        if kd is None: return
        gone = have & set(ids)
        if not gone: return
        leafs = {fx.leaf(x) for x in gone}; add = set()
        for pid, k, v in new:
            if k in leafs: add.add(pid)
        for q, k in st.alias.items():
            if k in leafs and q not in ids: add.add(q)
        st.a = (kd, (have - gone) | frozenset(add), org, ff)
    def ret(s, fx, st, i):
        kd, ids, org, ff = st.a
        isret = bool(kd and i.args and s.isid(fx, st, i.args[0]))
        if not kd and org != s.entry[2]: org = None        # taken and released in here
        if not kd and fx.fn.name in s.ctx.may_take: ff = frozenset()
        v = fx.val(st, i.args[0]) if i.args and fx.fn.ret != "void" else TOP
        if len(s.exits) < 12 or kd: s.exits.add((kd, isret, org, ff, (v[0], v[1], frozenset(x for x in v[2] if x == 0))))
        if s.root and kd in NAME and not isret: s.rep(fx, st, i, "held", org, "the %s lock taken at %s is still held on return" % (NAME[kd], org[2]))

class Ctx:
    def __init__(s, m, w):
        s.m = m; s.w = w; s.storers = storers(m); s.memo = {}; s.sites = set(); s.changes = set(); s.fns = set(); s.reports = {}
        tk = {f.name for f in m.funcs.values() if any(c.callee() in START for c in f.calls()) and f.file != "Db/dblock.c"}
        en = {f.name for f in m.funcs.values() if any(c.callee() in END for c in f.calls()) and f.file != "Db/dblock.c"}
        no = {f.name for f in m.funcs.values() if f.file == "Db/dblock.c"}
        s.takes = bool(tk); s.lib = not w
        s.may_take = callers_closure(m, tk, no) if tk else set()
        s.inter = s.may_take | callers_closure(m, en | {f.name for f in m.funcs.values() if any(c.callee() in EXIT for c in f.calls())}, no)
        # functions that modify records without taking locks themselves are followed too
        s.inter |= callers_closure(m, {f.name for f in m.funcs.values() if any(c.callee() in w for c in f.calls())}, no)
        s.inter &= set(m.funcs)
        s.setters = set()
        # structure fields that decide about a release, or hold a lock id
        s.fields = {last(i.fld) for n in en - tk for i in m.funcs[n].instrs() if i.op == "load" and i.fld}
        for n in tk | en:
            f = m.funcs[n]; ids = {c.id for c in f.calls() if c.callee() in START}
            for i in f.instrs():
                if i.op == "store" and i.fld and isinstance(i.args[0], int) and (i.args[0] in ids or f.defs.get(i.args[0]) is not None and f.defs[i.args[0]].op in ("sext", "trunc", "phi") and set(f.defs[i.args[0]].args) & ids): s.fields.add(last(i.fld))
        if s.fields: s.setters = {f.name for f in m.funcs.values() if f.name not in s.may_take and f.file != "Db/dblock.c" and any(i.op == "store" and last(i.fld) in s.fields for i in f.instrs())}
        called = {c.callee() for f in m.funcs.values() for c in f.calls()}
        s.roots = [n for n in sorted(s.may_take) if n in m.funcs and (n not in called or n == "main" or s.lib and not m.funcs[n].internal)]

def summ(ctx, name, entry, iv=(), root=False):
    k = (name, entry, iv, root)
    if k in ctx.memo: return ctx.memo[k]
    ctx.memo[k] = None                       # recursion: no effect
    f = ctx.m.funcs[name]; ctx.fns.add(name)
    r = TxnRule(ctx, entry, root); fx = Flow(f, r)
    if iv: fx.init_vals = {fx.leaf(n): v for n, v in iv}
    fx.run()
    for d in fx.reports: ctx.reports[(d["msg"], d["where"])] = (d["msg"], d["where"], d["path"])
    ex = r.exits
    if len(ex) > 24: ex = {(a, b, c, d, TOP) for a, b, c, d, e in ex}
    ctx.memo[k] = ex
    return ex

def storers(m):
    """function -> fields stored by it or its callees"""
    out = {f.name: {last(i.fld) for i in f.instrs() if i.op == "store" and i.fld} for f in m.funcs.values()}
    ch = True
    while ch:
        ch = False
        for f in m.funcs.values():
            for c in f.calls():
                x = out.get(c.callee())
                if x and not x <= out[f.name]: out[f.name] |= x; ch = True
    return out

SERVER = ("Server/dserve.c", "Server/dserve_util.c", "Server/dserve_net.c")
GROUPS = [(("db", "json"), "main"), (("Main/wgdb.c",), "main"), (("Main/gendata.c",), "main"), (("Main/stresstest.c",), "main"), (("Main/indextool.c",), "main"), (SERVER, "main"),
          (("Python/wgdbmodule.c",), "main")]

def c05(res, tier):
    res.rule("from every call that takes a database lock, each path reaches exactly one matching release with the id of that lock before the function returns or the process or thread ends (or returns the id to its caller); nothing changes records while only a read lock is held")
    groups = list(GROUPS)
    if tier != "quick": groups += [(("db", "json"), "reasoner"), (("Main/wgdb.c",), "reasoner"), (("db", "json"), "spin1"), (("db", "json"), "spin2")]
    lib = ir.load(("db", "json"), "main")
    w = seg_writers(lib, exempt_files=("Db/dblock.c", "Db/dblog.c", "Db/dbdump.c")) & {f.name for f in lib.funcs.values() if f.name.startswith("wg_")}
    w -= {n for n in w if n.startswith(("wg_encode_query_param", "wg_start_", "wg_end_", "wg_attach", "wg_free_query", "wg_free_query_param"))}
    sites = 0
    def one(g):
        units, cfg = g
        m = ir.load(units, cfg, keep="std" if units[0] == "db" else "all")
        ctx = Ctx(m, w if units[0].startswith(("Main", "Server")) else set())
        if not ctx.roots and units[0] != "Python/wgdbmodule.c" and ctx.takes: raise Broken("no entry points in %s" % (units,))
        for n in ctx.roots: summ(ctx, n, (None, frozenset(), None, frozenset()), (), True)
        return units, m.facts() if hasattr(m, "facts") else None, sorted(ctx.sites), sorted(ctx.changes), sorted(ctx.fns), ctx.roots, sorted(ctx.reports.values(), key=repr)
    for units, _, ss, chs, fns, roots, reps in pmap(one, groups):
        res.module(ir.load(units, "main", keep="std" if units[0] == "db" else "all"))
        for n in fns: res.funcs.add(n)
        sites += len([1 for c, _ in ss if c in START])
        for n in roots: res.obligation(1, "%s: %s ends with no lock held" % (units[0], n), kind="entry points")
        for c, wh in ss: res.obligation(1, "%s at %s" % (c, wh), kind="lock calls")
        for c, wh in chs: res.obligation(1, "%s at %s" % (c, wh), kind="changes made by tools and server")
        for msg, where, path in reps:
            kd, fn, c, txt = msg.split("|", 3)
            res.violation("txn-" + kd, "%s: %s" % (fn, c), where, txt, path)
    res.need(sites, 12, "calls that take a database lock")
