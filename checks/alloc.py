"""C14: results of shared-memory allocations are checked before use."""
import ir
from flow import Flow, const, nonzero, isconst, excluded, mk
from ir import Broken
from common import pmap

# offset-returning allocators of the shared segment: 0 means "no memory"
BASE = {"wg_alloc_fixlen_object": "offset", "wg_alloc_gints": "offset", "alloc_db_segmentchunk": "offset"}
# a record or object pointer: NULL means "no memory"
PTR = {"wg_create_record": "ptr", "wg_create_raw_record": "ptr", "wg_create_array": "ptr", "wg_create_object": "ptr", "wg_create_kvpair": "ptr", "wg_create_triple": "ptr"}
HARMLESS = {"fprintf", "printf", "snprintf", "sprintf"}

class AllocRule:
    def __init__(s, m, fn, allocs):
        s.fn = fn; s.allocs = allocs
        s.ids = {i.id: i for i in fn.instrs() if i.op == "call" and i.callee() in allocs}
        s.uses = {}; s.bad = {}; s.rets = set()
    def start(s, fx): return [0]
    def extra_live(s, a): return ()
    def unchecked(s, fx, st, k):
        return [l for l in fx.kleaf[k] if l in s.ids and not nonzero(fx.kval(st, fx.leaf(l)))]
    def use(s, fx, st, i, k, what):
        for l in fx.kleaf[k]:
            if l not in s.ids: continue
            s.uses.setdefault(l, set()).add(i.id)
            if not nonzero(fx.kval(st, fx.leaf(l))):
                a = s.ids[l]
                fx.report(st, i, "%d|%s|the result of %s (%s) is %s although it may be 0 on this path" % (l, what, a.callee(), a.where(), {"address": "used as an address", "link": "stored into the database", "arg": "passed on"}[what]), alloc=l)
    def step(s, fx, st, i):
        if i.op == "load": s.use(fx, st, i, fx.key(st, i.args[0]), "address")
        elif i.op == "store":
            ak = fx.key(st, i.args[1]); s.use(fx, st, i, ak, "address")
            if fx.kt[fx.abase(ak)][0] != "alloca": s.use(fx, st, i, fx.key(st, i.args[0]), "link")
        elif i.op in ("cmpxchg", "atomicrmw"):
            for a in i.args: s.use(fx, st, i, fx.key(st, a), "address")
        elif i.op == "call" and i.callee() not in HARMLESS:
            for a in i.args:
                if isinstance(a, int): s.use(fx, st, i, fx.key(st, a), "arg")
        return None
    def ret(s, fx, st, i):
        if i.args and s.unchecked(fx, st, fx.key(st, i.args[0])): s.rets.add(i.id)

def c14(res, tier):
    res.rule("the result of every shared-memory allocation call is known to be non-zero on every path on which it is used as an address, stored into shared or other non-local memory, or passed to another function; a function that returns an unchecked result is itself treated as an allocator")
    for cfg in ("main", "reasoner"):
        m = ir.load(("db", "json"), cfg, extra_keep=("alloc_db_segmentchunk",))
        res.module(m)
        for b in BASE:
            if b != "alloc_db_segmentchunk": m.fn(b)
        allocs = dict(BASE); allocs.update(PTR)
        done = False; reports = []
        # fixpoint over wrappers that hand an unchecked result to their callers
        for rnd in range(5):
            fns = [f.name for f in m.funcs.values() if not f.file.startswith("json/") and any(c.callee() in allocs for c in f.calls())]
            def one(name):
                f = m.funcs[name]
                r = AllocRule(m, f, allocs)
                fx = Flow(f, r); fx.run()
                reps = []
                for d in fx.reports:
                    a = r.ids[d["alloc"]]
                    reps.append((a.callee(), a.srcfunc(), a.where(), d["where"], d["msg"].split("|", 2)[1:], d["path"]))
                return (name, [(i.callee(), i.where(), len(r.uses.get(l, ()))) for l, i in r.ids.items()], reps, bool(r.rets) and f.ret == "i64", fx.merged)
            out = pmap(one, fns)
            new = {n for n, _, _, w, _ in out if w and n not in allocs}
            if not new: break
            for n in new: allocs[n] = "offset"
        n = 0
        for name, sites, reps, w, merged in out:
            res.funcs.add(name)
            n += len(sites)
            for c, where, u in sites: res.obligation(1, "%s: %s at %s, %d uses" % (name, c, where, u), kind="allocation sites (%s)" % cfg)
            for c, src, aw, where, (what, msg), path in reps:
                res.violation("alloc-checked", "%s: result of %s" % (src, c), where, msg, path)
        res.need(n, 25, "allocation call sites")
        res.samples.append("allocators incl. derived wrappers: %s" % sorted(allocs))
    res.notes.append("an allocation result that is read back from memory after another function may have changed it is not followed")
