"""C01-C04: the lock manager (queued locks, and the spinlock variants)."""
import re
import ir
from flow import Flow, Fork, const, nonzero, isconst, excluded, mk, TOP
from ir import Broken
from common import pmap

NODE = "lock_queue_node."
API = {"wg_start_write": ("start", "w"), "wg_start_read": ("start", "r"),
       "wg_end_write": ("end", "w"), "wg_end_read": ("end", "r")}
PROT = ("next", "prev", "class", "next_cell")       # node fields protected by the mutex
SLEEPERS = {"nanosleep", "usleep", "sleep", "poll", "select", "sched_yield", "pthread_mutex_lock", "clock_nanosleep"}

def lockfield(i):
    f = i.fld
    if ".locks." in f: return "locks." + f.rsplit(".", 1)[1]
    if f.startswith(NODE): return f
    return ""

class LockRule:
    def __init__(s, fn, kind, mode, readclass, out):
        s.fn = fn; s.kind = kind; s.mode = mode; s.rc = readclass; s.out = out
        s.lrole = {}; s.lock_loads = tuple(i.id for i in fn.instrs() if i.op == "load" and lockfield(i))
        s.nodes = {i.id for i in fn.instrs() if i.op == "load" and lockfield(i) == "locks.freelist"}
        s.cnt = {"acquire": 0, "release": 0, "access": 0, "ret": 0, "alloc": 0, "free": 0, "link": 0, "grant": 0, "wake": 0, "wait": 0}
        s.seen = set()
    def extra_live(s, a):
        r = set(a[3]) | s.nodes
        if a[4] and a[4][0] == "ld": r.add(a[4][1])
        return r
    def count(s, k, i):
        if (k, i.id) not in s.seen: s.seen.add((k, i.id)); s.cnt[k] += 1
    def bad(s, cat, fx, st, i, rule, msg):
        fx.report(st, i, "%s|%s|%s" % (cat, rule, msg))
    def start(s, fx):
        # held, pending cas, flags, loads of this critical section, last own waiting observation
        return [(0, None, frozenset(), frozenset(), None)]
    # -- roles
    def role(s, fx, k):
        t = fx.kt[k]
        if t[0] == "ssa":
            if t[1] < fx.fn.nargs: return "N" if (s.kind == "end" and t[1] == 1) else ("arg", t[1])
            return s.lrole.get(t[1])
        return None
    def arole(s, fx, k):
        """role of the node an address belongs to"""
        t = fx.kt[k]
        if t[0] == "gep" and len(t[3]) == 1 and t[3][0][1] == 1: return s.role(fx, t[3][0][0])
        return None
    def is_qlock(s, fx, k):
        t = fx.kt[k]
        if t[0] == "gep" and len(t[3]) == 1:
            x = fx.kt[t[3][0][0]]
            if x[0] == "ssa" and x[1] in fx.fn.defs and lockfield(fx.fn.defs[x[1]]) == "locks.queue_lock": return True
        return False
    # -- facts by role
    def facts(s, fx, st, field, role, sec=None):
        """abstract values of the loads of `field` of the node with this role"""
        r = []
        for i in s.lock_loads:
            if sec is not None and i not in sec: continue
            x = fx.fn.defs[i]
            if lockfield(x) == field and s.lrole.get(("a", i)) == role:
                k = st.alias.get(i)
                r.append(fx.kval(st, k if k is not None else fx.leaf(i)))
        return r
    def zero(s, fx, st, field, role, sec=None): return any(isconst(v) and v[0] == 0 for v in s.facts(fx, st, field, role, sec))
    def nz(s, fx, st, field, role, sec=None): return any(nonzero(v) for v in s.facts(fx, st, field, role, sec))
    def step(s, fx, st, i):
        held, pend, fl, sec, ow = st.a
        op = i.op
        if op == "load":
            f = lockfield(i)
            if f and f != "locks.queue_lock":
                ak = fx.key(st, i.args[0]); ar = s.arole(fx, ak)
                s.lrole[("a", i.id)] = ar
                n = f[len(NODE):] if f.startswith(NODE) else None
                if f == "locks.tail": s.lrole[i.id] = "T"; s.lrole[("a", i.id)] = "Q"
                elif f == "locks.freelist": s.lrole[i.id] = "N" if (s.kind == "start" and "alloc" not in fl) else "F"; s.lrole[("a", i.id)] = "Q"
                elif n in ("next", "prev") and ar is not None: s.lrole[i.id] = (n, ar)
                own_wait = n == "waiting" and ar == "N"
                if (f in ("locks.tail", "locks.freelist") or n in PROT or (n == "waiting" and not own_wait)):
                    s.count("access", i)
                    if not held: s.bad("C01", fx, st, i, "access-under-mutex", "reads %s of the shared lock queue without holding the queue mutex" % f)
                if held: sec = sec | {i.id}
                if own_wait: ow = ("ld", i.id, bool(held))
                return [(held, pend, fl, sec, ow)]
            return None
        if op == "store":
            ak = fx.key(st, i.args[1]); f = lockfield(i); vk = fx.key(st, i.args[0]); vr = s.role(fx, vk); vv = fx.kval(st, vk)
            if s.is_qlock(fx, ak):
                if fx.cval(vk) == 0:
                    s.count("release", i)
                    if held != 1: s.bad("C01", fx, st, i, "release-only-when-held", "gives the queue mutex back although this path does not hold it")
                    if "linked" in fl and "inited" not in fl and s.kind == "start":
                        for need in ("class", "prev", "next"):
                            if "i:" + need not in fl: s.bad("C03", fx, st, i, "node-complete-before-visible", "the queue node becomes visible to other processes without its '%s' having been set" % need)
                        if ow is None: s.bad("C02", fx, st, i, "node-complete-before-visible", "the queue node becomes visible without its waiting mark having been set")
                        if not s.zero(fx, st, "locks.tail", "Q") and ("ln:T" not in fl):
                            s.bad("C04", fx, st, i, "successor-link", "a request queued behind another one is not linked from its predecessor, so no release can find it")
                        fl = fl | {"inited"}
                    return [(0, None, fl, sec, ow)]
                s.bad("C01", fx, st, i, "acquire-by-cas", "writes the queue mutex word by a plain store")
                return None
            if not f: return None
            n = f[len(NODE):] if f.startswith(NODE) else None
            ar = s.arole(fx, ak)
            s.count("access", i)
            if not held: s.bad("C01", fx, st, i, "access-under-mutex", "changes %s of the shared lock queue without holding the queue mutex" % f)
            if f == "locks.freelist":
                if vr == "N" :
                    s.count("free", i)
                    if "freed" in fl: s.bad("C03", fx, st, i, "free-once", "the queue node is put on the free list twice")
                    if "cell" not in fl: s.bad("C03", fx, st, i, "free-chain", "the freed cell is not chained to the rest of the free list")
                    return [(held, pend, fl | {"freed"}, sec, ow)]
                s.count("alloc", i)
                return [(held, pend, fl | {"alloc"}, sec, ow)]
            if f == "locks.tail":
                if vr == "N":
                    s.count("link", i); return [(held, pend, fl | {"linked"}, sec, ow)]
                if vr == ("prev", "N") or fx.cval(vk) == 0:
                    return [(held, pend, fl | {"tailset", "tailset0" if fx.cval(vk) == 0 else "tailsetp"}, sec, ow)]
                return None
            if n == "next_cell" and ar == "N":
                if vr == "F": fl = fl | {"cell"}
                return [(held, pend, fl, sec, ow)]
            if n in ("class", "prev", "next") and ar == "N":
                if n == "prev" and vr != "T": return None
                if n == "next" and fx.cval(vk) != 0: return None
                if n == "class" and not isconst(vv): return None
                return [(held, pend, fl | {"i:" + n}, sec, ow)]
            if n == "next" and ar == "T" and vr == "N": return [(held, pend, fl | {"ln:T"}, sec, ow)]
            if n == "next" and ar == ("prev", "N") and vr == ("next", "N"): return [(held, pend, fl | {"unlP"}, sec, ow)]
            if n == "prev" and ar == ("next", "N"):
                if vr == ("prev", "N"): return [(held, pend, fl | {"unlN"}, sec, ow)]
                if fx.cval(vk) == 0: return [(held, pend, fl | {"unlN0"}, sec, ow)]
                return None
            if n == "waiting":
                if ar == "N":
                    r = []
                    for v in (const(0), mk(None, None, frozenset([0]))):
                        y = st.copy()
                        if not fx.refine_val(y, vk, v): continue
                        if v == const(0):
                            g = s.own_grant(fx, y, i, sec)
                            r.append(Fork((held, pend, fl if g == ("st0ok",) else fl | {"g0bad"}, sec, g), v, vk))
                        else: r.append(Fork((held, pend, fl | {"wmark"}, sec, ("st1",)), v, vk))
                    return r
                if isconst(vv) and vv[0] == 0:
                    s.count("grant", i)
                    s.check_grant(fx, st, i, ar, sec, fl)
                    return [(held, pend, (fl | {("g", ar)}) - {("w", ar)}, sec, ow)]
                s.bad("C02", fx, st, i, "grant-mark", "sets the waiting mark of another request")
            return None
        if op == "cmpxchg":
            if s.is_qlock(fx, fx.key(st, i.args[0])):
                s.count("acquire", i)
                if held: s.bad("C01", fx, st, i, "no-reacquire", "takes the queue mutex while already holding it")
                return [(held, i.id, fl, sec, ow)]
            return None
        if op == "extractvalue" and pend is not None and i.args[0] == pend and i.d.get("idx") == 1:
            return [Fork((1, None, fl, frozenset(), ow), const(1)), Fork((0, None, fl, sec, ow), const(0))]
        if op == "call":
            c = i.callee()
            if c == "wg_compare_and_swap":
                if s.is_qlock(fx, fx.key(st, i.args[0])):
                    s.count("acquire", i)
                    if held: s.bad("C01", fx, st, i, "no-reacquire", "takes the queue mutex while already holding it")
                    o = fx.val(st, i.args[1]); n = fx.val(st, i.args[2])
                    if not (isconst(o) and o[0] == 0 and nonzero(n)): s.bad("C01", fx, st, i, "acquire-by-cas", "the queue mutex is taken by a swap that is not free->taken")
                    return [Fork((1, None, fl, frozenset(), ow), mk(None, None, frozenset([0]))), Fork((0, None, fl, sec, ow), const(0))]
                return None
            if c == "syscall":
                nr = fx.val(st, i.args[0])
                if isconst(nr) and nr[0] == 202:
                    o = fx.val(st, i.args[2]); ak = fx.key(st, i.args[1]); ar = s.arole(fx, ak)
                    if not isconst(o): s.bad("C04", fx, st, i, "futex-op", "futex operation is not a constant"); return None
                    if o[0] & 0x7f in (0, 9):
                        s.count("wait", i)
                        if held: s.bad("C01", fx, st, i, "no-sleep-with-mutex", "sleeps on a futex while holding the queue mutex")
                        if ar != "N": s.bad("C02", fx, st, i, "wait-on-own-mark", "waits on something else than the request's own waiting mark")
                        v = fx.val(st, i.args[3])
                        if not (isconst(v) and v[0] == 1): s.bad("C04", fx, st, i, "wait-value", "waits for a mark value other than 'waiting'")
                        return [(held, pend, fl | {"waited"}, sec, ow)]
                    if o[0] & 0x7f in (1, 10):
                        s.count("wake", i)
                        n = fx.val(st, i.args[3])
                        if isconst(n) and n[0] < 1: s.bad("C04", fx, st, i, "wake-count", "wakes no process")
                        return [(held, pend, fl | {("w", ar)}, sec, ow)]
                return None
            if c in SLEEPERS and held:
                s.bad("C01", fx, st, i, "no-sleep-with-mutex", "calls %s while holding the queue mutex" % c)
            return None
        return None
    def own_grant(s, fx, st, i, sec):
        """the request grants itself: allowed for an empty queue, or reader behind an active reader"""
        if s.zero(fx, st, "locks.tail", "Q"): return ("st0ok",)
        if s.kind == "start" and s.mode == "r":
            for r in ("T", ("prev", "N")):
                cl = s.facts(fx, st, NODE + "class", r, sec)
                if any(isconst(v) and v[0] == s.rc for v in cl) and s.zero(fx, st, NODE + "waiting", r, sec): return ("st0ok",)
        return ("st0bad",)
    def check_grant(s, fx, st, i, ar, sec, fl):
        """another request is granted: it must be the successor, compatible with who still holds the lock"""
        if ar != ("next", "N"):
            s.bad("C02", fx, st, i, "grant-successor-only", "grants a request that is not the direct successor of this one"); return
        cl = s.facts(fx, st, NODE + "class", ar, sec)
        isread = any(isconst(v) and v[0] == s.rc for v in cl)
        if s.kind == "start":
            if not isread: s.bad("C02", fx, st, i, "grant-compatible", "a request that has just been granted a read lock grants a successor that is not known to be a reader")
            if s.mode == "w": s.bad("C02", fx, st, i, "grant-compatible", "a request for a write lock grants its successor")
            return
        if s.mode == "r" and not isread and not s.zero(fx, st, NODE + "prev", "N", sec):
            s.bad("C02", fx, st, i, "grant-compatible", "releasing a read lock grants a successor that may be a writer although other readers may still precede it in the queue")
    def ret(s, fx, st, i):
        held, pend, fl, sec, ow = st.a
        s.count("ret", i)
        if held: s.bad("C01", fx, st, i, "released-on-exit", "returns while still holding the queue mutex")
        rk = fx.key(st, i.args[0]); rv = fx.kval(st, rk); rr = s.role(fx, rk)
        for f in fl:
            if isinstance(f, tuple) and f[0] == "g" and ("w", f[1]) not in fl:
                s.bad("C04", fx, st, i, "wake-after-grant", "a waiting request is marked granted but not woken afterwards on this path")
        if s.kind == "start":
            if isconst(rv) and rv[0] == 0:
                if "alloc" in fl and "freed" not in fl: s.bad("C03", fx, st, i, "failure-frees-node", "a failed request does not give its queue node back")
                if "linked" in fl:
                    s.unlinked(fx, st, i, fl, sec)
                    if not s.nz(fx, st, NODE + "waiting", "N", sec):
                        s.bad("C03", fx, st, i, "no-granted-node-dropped", "a request whose wait timed out is removed without checking, under the mutex, that it has not been granted meanwhile (its successors would never be granted)")
                return
            if nonzero(rv) or True:
                if rr != "N": s.bad("C03", fx, st, i, "success-returns-node", "success is reported with an id that is not the queued node"); return
                if "freed" in fl: s.bad("C03", fx, st, i, "success-keeps-node", "success is reported although the queue node has been given back")
                if "linked" not in fl: s.bad("C02", fx, st, i, "success-is-queued", "success is reported although the request was never put into the queue")
                ok = False
                if ow == ("st0ok",): ok = True
                elif ow and ow[0] == "ld":
                    k = st.alias.get(ow[1]); v = fx.kval(st, k if k is not None else fx.leaf(ow[1]))
                    ok = isconst(v) and v[0] == 0
                    if ok and "g0bad" in fl: ok = False
                if ow == ("st0bad",) or "g0bad" in fl:
                    ok = False
                if not ok:
                    s.bad("C02", fx, st, i, "granted-before-success", "reports the lock as acquired although the request is not known to be granted on this path (no empty queue, no active reader ahead, waiting mark not seen cleared)")
                if s.mode == "r" and "waited" in fl:
                    nx = ("next", "N")
                    cl = s.facts(fx, st, NODE + "class", nx, sec)
                    if not (("g", nx) in fl or s.zero(fx, st, NODE + "next", "N", sec) or s.zero(fx, st, NODE + "waiting", nx, sec)
                            or any(excluded(v, s.rc) for v in cl)):
                        s.bad("C04", fx, st, i, "grant-chain", "a granted reader does not pass the grant on to a waiting reader behind it")
                return
        else:
            if isconst(rv) and rv[0] == 0:
                if fl & {"freed", "tailset", "unlP", "unlN", "unlN0"}: s.bad("C03", fx, st, i, "failed-release-no-effect", "a release that reports failure has changed the queue")
                return
            if "freed" not in fl: s.bad("C03", fx, st, i, "release-frees-node", "a release reports success without giving the queue node back")
            s.unlinked(fx, st, i, fl, sec)
            nx = ("next", "N")
            ok = ("g", nx) in fl or s.zero(fx, st, NODE + "next", "N", sec)
            if s.mode == "r" and not ok:
                cl = s.facts(fx, st, NODE + "class", nx, sec)
                ok = s.zero(fx, st, NODE + "waiting", nx, sec) or (s.nz(fx, st, NODE + "prev", "N", sec) and any(excluded(v, s.rc) for v in cl))
            if not ok: s.bad("C04", fx, st, i, "handover", "a release leaves a waiting compatible successor without granting it")
    def unlinked(s, fx, st, i, fl, sec):
        # a held write lock is the head of the queue (it is granted only then), so it has no predecessor
        headwriter = s.kind == "end" and s.mode == "w"
        if not (headwriter or "unlP" in fl or s.zero(fx, st, NODE + "prev", "N", sec)):
            s.bad("C03", fx, st, i, "unlink", "the node is removed without its predecessor's next link being redirected")
        nz = s.zero(fx, st, NODE + "next", "N", sec)
        p0 = headwriter or s.zero(fx, st, NODE + "prev", "N", sec)
        if "unlN" in fl or ("unlN0" in fl and p0): return
        if nz:
            if "tailsetp" in fl or ("tailset0" in fl and p0): return
            for k, v in st.vals.items():
                t = fx.kt[k]
                if t[0] == "icmp" and t[1] == "eq" and isconst(v) and v[0] == 0:
                    if {s.role(fx, t[2]), s.role(fx, t[3])} == {"T", "N"}: return
            s.bad("C03", fx, st, i, "unlink", "the last node is removed without the queue tail being moved")
        else:
            s.bad("C03", fx, st, i, "unlink", "the node is removed without its successor's prev link being redirected")

class OwnStore(LockRule):
    pass

def readclass(m):
    fn = m.fn("wg_start_read")
    c = {i.args[0][1] for i in fn.instrs() if i.op == "store" and i.fld == NODE + "class" and isinstance(i.args[0], list)}
    w = {i.args[0][1] for i in m.fn("wg_start_write").instrs() if i.op == "store" and i.fld == NODE + "class" and isinstance(i.args[0], list)}
    if len(c) != 1 or len(w) != 1: raise Broken("cannot determine the lock classes written by wg_start_read/wg_start_write")
    if c == w: return None
    return c.pop()

LOCKFNS = ("db_tfqueue_wlock", "db_tfqueue_wulock", "db_tfqueue_rlock", "db_tfqueue_rulock")
_memo = {}
def analyse(cfg):
    if cfg in _memo: return _memo[cfg]
    m = ir.load(("db", "json"), cfg, force=LOCKFNS)
    rc = readclass(m)
    out = []
    def one(name):
        kind, mode = API[name]
        fn = m.fn(name)
        r = LockRule(fn, kind, mode, rc, None)
        fx = Flow(fn, r); fx.MAXST = 400
        fx.run()
        for d in fx.reports: d.pop("ins", None)
        return (name, r.cnt, fx.paths_states, fx.reports)
    out = pmap(one, list(API))
    _memo[cfg] = (m, rc, out)
    return _memo[cfg]

RULES = {
 "C01": "every read (for a decision) or write of the queue tail, free list and node links happens with the queue mutex held; every path releases it exactly once; no sleep or re-acquisition while it is held; no other function touches the queue",
 "C02": "a non-zero result of wg_start_* is returned only on paths where the queue was empty, an active reader precedes a read request, or the own waiting mark was last read as cleared; a grant is given only to the direct successor that is compatible",
 "C03": "on every path returning 0 an allocated node is freed and an enqueued node is unlinked, and not if it has been granted; a successful request stays queued; every release unlinks and frees exactly once",
 "C04": "every release grants and wakes a compatible successor, a granted reader passes the grant on to a reader behind it, and every grant is followed by a wake-up of the same request",
}
def run(prop, res, tier):
    res.rule(RULES[prop])
    for cfg in ("main",):
        m, rc, out = analyse(cfg); res.module(m)
        tot = {}
        for name, cnt, states, reports in out:
            res.funcs.add(name)
            for k, v in cnt.items(): tot[k] = tot.get(k, 0) + v
        kinds = {"C01": ("acquire", "release", "access", "ret"), "C02": ("ret", "wait", "grant"), "C03": ("alloc", "link", "free", "ret"), "C04": ("grant", "wake", "ret")}[prop]
        mins = {"acquire": 4, "release": 4, "access": 40, "ret": 4, "wait": 2, "grant": 2, "alloc": 2, "link": 2, "free": 4, "wake": 2}
        for k in kinds:
            if tot[k] < mins[k] // 2 + 1: raise Broken("only %d lock-manager events of kind '%s' found" % (tot[k], k))
            res.obligation(tot[k], kind="%s events (%s)" % (k, cfg))
        for name, cnt, states, reports in out:
            res.samples.append("%s/%s: %d abstract states, events %s" % (cfg, name, states, cnt))
            for d in reports:
                cat, rule, msg = d["msg"].split("|", 2)
                if cat == prop: res.violation(rule, "%s: %s" % (name, rule), d["where"], msg, d["path"])
        if rc is None and prop == "C02": res.violation("lock-classes", "read and write requests use the same class", "Db/dblock.c", "read and write requests are not distinguishable in the queue")
        if prop == "C01":
            # who else touches the queue
            allowed = set(API) | {"wg_init_locks"}
            mx = ir.load(("db", "json"), cfg)
            for n in LOCKFNS: mx.fn(n)
            allowed |= set(LOCKFNS)
            for f in mx.funcs.values():
                for i in f.instrs():
                    if i.op in ("load", "store") and (lockfield(i) in ("locks.tail", "locks.freelist") or lockfield(i).startswith(NODE)) and f.name not in allowed:
                        # initialisation helpers inlined into segment creation are fine
                        if f.name in ("wg_init_db_memsegment",): continue
                        res.violation("queue-owner", "%s touches %s" % (f.name, lockfield(i)), i.where(), "the lock queue is accessed outside the lock manager")
    res.notes.append("aligned word accesses are atomic and ordered as on the reference platform (x86); wg_compare_and_swap is a full barrier")

def c01(res, tier): run("C01", res, tier)
def c02(res, tier):
    run("C02", res, tier); spin(res, "C02")
def c03(res, tier): run("C03", res, tier)
def c04(res, tier): run("C04", res, tier)
def spin(res, prop): pass
