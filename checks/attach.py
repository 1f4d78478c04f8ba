"""C12: attaching.  Which segments a handle is returned for, and when a new segment is marked as valid."""
import ir
from flow import Flow, Fork, const, isconst, nonzero, mk, TOP
from ir import Broken
from common import pmap
from lib import within, NZ, OKV, FAILV, is_seg
from journal import bits
from files import strip, unnot, loaded
from fails import FailRule, rng, show

H = "_db_memsegment_header."
HDB = "db_handle.db"
CREAT, EXCL = 9, 10            # bits of IPC_CREAT (01000) and IPC_EXCL (02000)
OKP = mk(None, None, frozenset([0, -1]))
SHM_FAIL = const(-1)

def offset(fx, st, o):
    """(base key, constant offset) of an address"""
    k = fx.key(st, o); c = 0
    while True:
        t = fx.kt[k]
        if t[0] == "gep" and not t[3]: c += t[2]; k = t[1]; continue
        d = fx.fn.defs.get(t[1]) if t[0] == "ssa" else None
        if d is None or d.op != "getelementptr" or "off" not in d.d or d.d["vo"]: return k, c
        c += d.d["off"]; k = fx.key(st, d.args[0])

# ---------------------------------------------------------------- constants written by the initialisation
def header_constants(m):
    """offset -> list of constants stored there by wg_init_db_memsegment (mark, version, features), with the store instructions"""
    f = m.fn("wg_init_db_memsegment"); out = {}
    for i in f.instrs():
        if i.op == "store" and i.fld in (H + "mark", H + "version", H + "features") and isinstance(i.args[0], list) and i.args[0][0] == "c":
            out.setdefault(i.fld[len(H):], []).append((i.args[0][1], i))
    for n in ("mark", "version", "features"):
        if n not in out: raise Broken("wg_init_db_memsegment does not store a constant into the header field " + n)
    return out

def field_offset(f, ins):
    """constant offset of a header field relative to the segment pointer"""
    o = ins.args[1]; c = 0
    while True:
        d = f.defs.get(o)
        if d is None or d.op != "getelementptr": return c
        if "off" not in d.d or d.d["vo"]: return None
        c += d.d["off"]; o = d.args[0]

class AttachRule:
    """state: (segments attached: ((leaf, kind, get id, flags),...), shmget calls: ((id, kind, size key, key key),...), handle the segment was stored in, failed)"""
    def __init__(s, mark, marko, local=False):
        s.mark = mark; s.marko = marko; s.oblig = set(); s.rets = 0; s.local = local
    def start(s, fx): return [((), (), None, frozenset())]
    def extra_live(s, a):
        r = {x[0] for x in a[0]} | {x[0] for x in a[1]}
        return r
    def seg(s, fx, st, k):
        k = strip(fx, k)
        for n, x in enumerate(st.a[0]):
            if fx.leaf(x[0]) == k: return n
        return None
    def put(s, a, n, **kw):
        x = dict(zip(("leaf", "kind", "get", "flags"), a[0][n])); x.update(kw)
        return (a[0][:n] + ((x["leaf"], x["kind"], x["get"], x["flags"]),) + a[0][n+1:], a[1], a[2], a[3])
    def step(s, fx, st, i):
        segs, gets, hd, gf = st.a
        if i.op == "store" and i.fld == HDB:
            n = s.seg(fx, st, fx.key(st, i.args[0]))
            b, c = offset(fx, st, i.args[1])
            if n is None: return [(segs, gets, None, gf)]
            return [(segs, gets, (b, segs[n][0]), gf)]
        if i.op != "call": return None
        c = i.callee()
        if c == "shmget":
            bv = bits(fx, fx.key(st, i.args[2]), {})
            kind = "existing" if bv[CREAT] == 0 else "new" if bv[CREAT] == 1 and bv[EXCL] == 1 else "open"
            s.oblig.add(("shmget flags", i.where()))
            if kind == "open": fx.report(st, i, "flags|shmget may create the segment or open one that exists already: the caller cannot tell whether it has to be initialised (IPC_CREAT without IPC_EXCL)"); return []
            g = tuple(x for x in gets if x[0] != i.id) + ((i.id, kind, strip(fx, fx.key(st, i.args[1])), strip(fx, fx.key(st, i.args[0]))),)
            return [Fork((segs, g, hd, gf), (0, None, frozenset())), Fork((segs, gets, hd, gf), const(-1))]
        if c == "shmat":
            k = strip(fx, fx.key(st, i.args[0])); g = [x for x in gets if fx.leaf(x[0]) == k]
            if not g: return None
            return [Fork((tuple(x for x in segs if x[0] != i.id) + ((i.id, g[0][1], g[0][0], frozenset()),), gets, hd, gf), OKP), Fork((segs, gets, hd, gf), SHM_FAIL)]
        if c == "malloc" and s.local:
            g = (i.id, "new", strip(fx, fx.key(st, i.args[0])), None)
            return [Fork((tuple(x for x in segs if x[0] != i.id) + ((i.id, "new", i.id, frozenset()),), tuple(x for x in gets if x[0] != i.id) + (g,), hd, gf), NZ), Fork((segs, gets, hd, gf), const(0))]
        if c in ("shmdt", "free"):
            n = s.seg(fx, st, fx.key(st, i.args[0]))
            if n is not None: return [s.put(st.a, n, kind="gone")]
            return None
        if c in ("wg_init_db_memsegment", "wg_start_logging"):
            b, _ = offset(fx, st, i.args[0])
            n = None
            if hd is not None and hd[0] == b: n = s.seg(fx, st, fx.leaf(hd[1]))
            if n is None: return None
            if c == "wg_start_logging":
                return [Fork(s.put(st.a, n, flags=segs[n][3] | {"log"}), const(0)), Fork(s.put(st.a, n, flags=segs[n][3] | {"failed " + c}), (-1000, 1000, frozenset([0])))]
            s.oblig.add(("initialisation", i.where()))
            if segs[n][1] != "new": fx.report(st, i, "reinit|a segment that exists already is initialised again"); return []
            g = [x for x in gets if x[0] == segs[n][2]][0]
            if strip(fx, fx.key(st, i.args[2])) != g[2]: fx.report(st, i, "size|the segment is initialised with a size other than the one it was created with"); return []
            if not s.local and strip(fx, fx.key(st, i.args[1])) != g[3]: fx.report(st, i, "key|the segment is initialised with a key other than the one it was created with"); return []
            if s.local:
                v = fx.val(st, i.args[1])
                if not (isconst(v) and v[0] == 0): fx.report(st, i, "key|a local database is given a key"); return []
            return [Fork(s.put(st.a, n, flags=segs[n][3] | {"init"}), const(0)), Fork(s.put(st.a, n, flags=segs[n][3] | {"failed " + c}), (-1000, 1000, frozenset([0])))]
        return None
    def edge(s, fx, st, t, k, truth):
        # a named function so that refined facts become part of the state
        x, truth = unnot(fx, k, truth)
        a = st.a
        if x[0] != "icmp":
            d = loaded(fx, fx.ki.get(x, -1)) if x in fx.ki else None
            return None
        l, r = strip(fx, x[2]), strip(fx, x[3])
        for p, q, left in ((l, r, True), (r, l, False)):
            d = loaded(fx, p)
            if d is not None:
                b, off = offset(fx, st, d.args[0]); n = s.seg(fx, st, b)
                if n is not None:
                    fl = None
                    if off == s.marko and d.ty == "i32" and x[1] == "eq" and truth is True and fx.cval(q) == s.mark: fl = "mark"
                    if d.fld == H + "size" and x[1] in ("slt", "ult") and s.is_min(fx, q):
                        if left and truth is False: fl = "size"            # not size < minsize
                        if not left and truth is True: fl = "size"         # minsize < size
                    if d.fld == H + "logging.active" and fx.cval(q) == 0 and x[1] == "eq" and truth is False: fl = "log"
                    if fl: return s.put(a, n, flags=a[0][n][3] | {fl})
            if s.is_min(fx, p):
                v = fx.kval(st, p)
                if x[1] == "eq" and fx.cval(q) == 0 and truth is True or v[1] is not None and v[1] <= 0: return s.all(a, "size")
            if fx.kt[p] == ("ssa", 4) and fx.cval(q) == 0 and x[1] == "eq" and truth is True: return s.all(a, "log")
        return None
    def all(s, a, fl):
        return (a[0], a[1], a[2], a[3] | {fl})
    def is_min(s, fx, k):
        """the requested minimum: parameter 1, possibly replaced by 0 when it is negative"""
        w = [k]; seen = set(); hit = False
        while w:
            k = strip(fx, w.pop())
            if k in seen: continue
            seen.add(k); t = fx.kt[k]
            if t[0] == "ssa":
                if t[1] == 1: hit = True; continue
                d = fx.fn.defs.get(t[1])
                if d is None or d.op not in ("phi", "select"): return False
                for o in (d.args if d.op == "phi" else d.args[1:]):
                    if isinstance(o, int): w.append(fx.leaf(o))
                    elif not (isinstance(o, list) and o[0] == "c" and o[1] == 0): return False
            elif t[0] == "select": w += [t[2], t[3]]
            elif t[0] == "c":
                if t[1] != 0: return False
            elif t[0] == "fcall" or t[0] != "k": return False
            else: return False
        return hit
    def ret(s, fx, st, i):
        s.rets += 1
        v = fx.val(st, i.args[0])
        if isconst(v) and v[0] == 0: return
        k = strip(fx, fx.key(st, i.args[0]))
        segs, gets, hd, gf = st.a
        if hd is None or hd[0] != k: fx.report(st, i, "handle|a handle is returned that no segment was stored in"); return
        n = s.seg(fx, st, fx.leaf(hd[1]))
        if n is None or segs[n][1] == "gone": fx.report(st, i, "handle|the handle returned refers to a segment that was detached or freed"); return
        kind, fl = segs[n][1], segs[n][3] | gf
        w = fx.fn.defs[segs[n][0]].where()
        bad = [x for x in fl if x.startswith("failed")]
        if bad: fx.report(st, i, "failed|a handle is returned although %s reported failure" % bad[0][7:]); return
        if kind == "existing":
            if "mark" not in fl: fx.report(st, i, "mark|a handle for an existing segment (%s) is returned without having found the mark of an initialised database in its header" % w)
            elif "size" not in fl: fx.report(st, i, "size|a handle for an existing segment (%s) is returned without having found it large enough for the request" % w)
            elif "log" not in fl: fx.report(st, i, "log|a handle for an existing segment (%s) is returned for a logged attach without having found the journal active" % w)
        else:
            if "init" not in fl: fx.report(st, i, "init|a handle for a new segment (%s) is returned without its initialisation having succeeded" % w)
            elif "log" not in fl and not s.local:
                v = fx.kval(st, fx.leaf(4))
                if not (isconst(v) and v[0] == 0): fx.report(st, i, "log|a handle for a new segment (%s) is returned for a logged attach without journaling having been started" % w)

class UserRule:
    """functions that hand the result of wg_attach_memsegment to the user: (attach call, header compared)"""
    def __init__(s): s.sites = set(); s.rets = 0
    def start(s, fx): return [(None, False)]
    def extra_live(s, a): return {a[0]} if a[0] is not None else set()
    def step(s, fx, st, i):
        at, ok = st.a
        if i.op == "load" and i.fld == HDB and at is not None and offset(fx, st, i.args[0])[0] == fx.leaf(at): return [Fork(st.a, NZ)]
        if i.op == "store" and i.fld == HDB: return [(at, False)]
        if i.op != "call": return None
        c = i.callee()
        if c == "wg_attach_memsegment":
            s.sites.add(i.where())
            s.args(fx, st, i)
            return [Fork((i.id, False), NZ), Fork((None, False), const(0))]
        if c == "wg_check_header_compat" and at is not None:
            d = loaded(fx, fx.key(st, i.args[0]))
            if d is None or d.fld != HDB or offset(fx, st, d.args[0])[0] != fx.leaf(at): return None
            return [Fork((at, True), const(0)), Fork((at, False), (-4, -1, frozenset()))]
        if c in ("wg_detach_database", "shmdt") and at is not None:
            if offset(fx, st, i.args[0])[0] == fx.leaf(at): return [(None, False)]
        return None
    def args(s, fx, st, i):
        f = fx.fn
        sizes = [k for k, (n, ty) in enumerate(f.args) if ty == "i64"]
        names = [k for k, (n, ty) in enumerate(f.args) if ty == "ptr"]
        if names and fx.key(st, i.args[0]) != fx.leaf(names[0]): fx.report(st, i, "args|the name of the database is not passed on")
        if sizes and strip(fx, fx.key(st, i.args[1])) != fx.leaf(sizes[0]): fx.report(st, i, "args|the size the caller asks for is not passed on as the least size of an existing segment")
        lg = fx.val(st, i.args[4])
        if "logged" in f.name and not nonzero(lg): fx.report(st, i, "args|a logged database is attached without asking for its journal")
        if "existing" in f.name:
            v = fx.val(st, i.args[3])
            if not (isconst(v) and v[0] == 0): fx.report(st, i, "args|attaching to an existing database may create a new one")
    def ret(s, fx, st, i):
        s.rets += 1
        at, ok = st.a
        v = fx.val(st, i.args[0])
        if isconst(v) and v[0] == 0: return
        if at is None or fx.key(st, i.args[0]) != fx.leaf(at): fx.report(st, i, "handle|a value other than the attached handle is returned"); return
        if not ok: fx.report(st, i, "compat|a handle is returned without the version and feature bits of the segment having been found compatible")

class CompatRule:
    """wg_check_header_compat: result 0 needs mark, version and features equal to what the initialisation writes"""
    def __init__(s, want): s.want = want; s.n = 0      # offset -> (constant, name)
    def start(s, fx): return [frozenset()]
    def step(s, fx, st, i): return None
    def edge(s, fx, st, t, k, truth):
        h = s.hold(fx, st, k, truth)
        return st.a | h if h else None
    def arms(s, fx, st, k, a):
        """what was established for each way the result can be 0"""
        t = fx.kt[k]
        if t[0] == "select":
            r = []
            for x, truth in ((t[2], True), (t[3], False)):
                b = s.hold(fx, st, t[1], truth)
                r += s.arms(fx, st, x, a | b)
            return r
        if t[0] in ("zext", "sext", "trunc"): return s.arms(fx, st, t[1], a)
        if within(fx.kval(st, k), NZ): return []
        return [(k, a)]
    def hold(s, fx, st, k, truth):
        x, truth = unnot(fx, k, truth)
        if x[0] == "and" and truth is True: return s.hold(fx, st, x[1], True) | s.hold(fx, st, x[2], True)
        if x[0] != "icmp" or x[1] != "eq" or truth is not True: return frozenset()
        for p, q in ((x[2], x[3]), (x[3], x[2])):
            d = loaded(fx, p)
            if d is None or d.ty != "i32" or fx.kt[p][0] != "ssa": continue
            b, off = offset(fx, st, d.args[0])
            if b == fx.leaf(0) and off in s.want and fx.cval(q) == s.want[off][0]: return frozenset((off,))
        return frozenset()
    def ret(s, fx, st, i):
        v = fx.val(st, i.args[0])
        if within(v, NZ): return
        s.n += 1
        miss = []
        for k, a in s.arms(fx, st, fx.key(st, i.args[0]), st.a): miss += [s.want[o][1] for o in sorted(s.want) if o not in a and s.want[o][1] not in miss]
        if miss: fx.report(st, i, "compat|the header can be found compatible (result %s) without its %s having been compared with %s of this build" % (show(v), ", ".join(miss), "that" if len(miss) == 1 else "those"))

# ---------------------------------------------------------------- initialisation
KEEPINIT = ("alloc_db_segmentchunk init_db_subarea init_area_buckets init_subarea_freespace make_subarea_freelist init_strhash_area init_hash_subarea "
            "init_syn_vars init_extdb init_db_index_area_header init_db_recptr_bitmap init_anonconst_table init_logging").split()
INITKIND = {"alloc_db_segmentchunk": "zero"}
# parts of the header other than storage areas that have an initialisation routine of their own
PARTS = ("init_strhash_area", "init_syn_vars", "init_extdb", "init_db_index_area_header")
VARLEN = ("init_area_buckets", "init_subarea_freespace"); FIX = ("make_subarea_freelist",)

def areas_used(m):
    """header offsets of the areas objects are allocated from: {offset: (kind, example)}"""
    out = {}
    for f in m.funcs.values():
        for i in f.calls("wg_alloc_fixlen_object", "wg_alloc_gints"):
            d = f.defs.get(i.args[1]) if isinstance(i.args[1], int) else None
            if d is None or d.op != "getelementptr" or d.d.get("vo") or "off" not in d.d: continue
            b = f.defs.get(d.args[0])
            if b is None or not is_seg(b): continue
            out.setdefault(d.d["off"], ("fix" if i.callee() == "wg_alloc_fixlen_object" else "var", i.where()))
    return out

class InitRule:
    """state: (first failing call, calls that succeeded: {(name, area offset)}, mark value stored last)"""
    def __init__(s, mark, need, steps): s.mark = mark; s.need = need; s.steps = steps; s.n = 0; s.done = 0
    def start(s, fx): return [(None, frozenset(), None)]
    def extra_live(s, a): return set()
    def step(s, fx, st, i):
        fail, done, mk_ = st.a
        if i.op == "store":
            if i.fld == H + "mark":
                v = fx.val(st, i.args[0])
                nv = v[0] if isconst(v) else "unknown"
                if nv == s.mark or nv == "unknown":
                    s.done += 1
                    if fail is not None: fx.report(st, i, "failed|the segment is marked as a valid database although %s failed" % fail); return []
                    miss = sorted(s.need - done, key=str)
                    if miss: fx.report(st, i, "early|the segment is marked as a valid database before %s" % ", ".join(x[0] + (" for the area at header offset %d" % x[1] if x[1] is not None else "") + " succeeded" for x in miss[:3])); return []
                return [(fail, done, nv)]
            if mk_ == s.mark and s.inseg(fx, st, i): fx.report(st, i, "late|the header is written after the segment was marked as a valid database"); return []
            return None
        if i.op != "call": return None
        c = i.callee()
        if c not in s.steps: return None
        if mk_ == s.mark: fx.report(st, i, "late|%s runs after the segment was marked as a valid database" % c); return []
        s.n += 1
        off = None
        if len(i.args) > 1 and c in ("init_db_subarea",) + VARLEN + FIX:
            b, off = offset(fx, st, i.args[1]); d = loaded(fx, b)
            if d is None or not is_seg(d) or off in s.table(fx.fn):      # the address comes from a table: the areas whose addresses were put there
                ok = (fail, done | {(c, o) for o in s.table(fx.fn)}, mk_)
                if i.ty == "void" or s.steps[c] == "never": return [ok]
                r = rng(s.steps[c])
                return [Fork(ok, r[1]), Fork((fail or c, done, mk_), r[0])]
        ok = (fail, done | {(c, off)}, mk_)
        if i.ty == "void" or s.steps[c] == "never": return [ok]
        r = rng(s.steps[c])
        return [Fork(ok, r[1]), Fork((fail or c, done, mk_), r[0])]
    def table(s, f):
        out = set()
        for i in f.instrs():
            if i.op != "store" or not isinstance(i.args[0], int): continue
            d = f.defs.get(i.args[0]); c = 0
            while d is not None and d.op == "getelementptr" and "off" in d.d and not d.d["vo"] and isinstance(d.args[0], int): c += d.d["off"]; d = f.defs.get(d.args[0])
            if d is not None and is_seg(d) and c: out.add(c)
        return out
    def inseg(s, fx, st, i):
        b, _ = offset(fx, st, i.args[1]); d = loaded(fx, b)
        return d is not None and is_seg(d)
    def ret(s, fx, st, i):
        fail, done, mk_ = st.a
        v = fx.val(st, i.args[0])
        if within(v, NZ):
            if mk_ == s.mark: fx.report(st, i, "marked|the segment stays marked as a valid database although failure is reported")
            return
        if fail is not None: fx.report(st, i, "failed|the failure of %s is not reported: the result can be %s" % (fail, show(v))); return
        if mk_ != s.mark: fx.report(st, i, "unmarked|success is reported but the segment is not marked as a valid database")

def run(f, r, **kw):
    fx = Flow(f, r, **kw); fx.run()
    return [(d["msg"], d["where"], d["path"]) for d in fx.reports]

def c12(res, tier):
    res.rule("attach: a handle is returned only for an existing segment whose mark, size (and journal state, if requested) were checked, or for a new segment (created exclusively) whose initialisation succeeded; "
             "user-facing attach calls additionally compare version and features; the segment is marked valid last, after every part of the header was initialised successfully")
    m = ir.load(("db", "json"), "main"); res.module(m)
    mi = ir.load(("db",), "main", keep="std", extra_keep=KEEPINIT)
    hc = header_constants(mi); fi = mi.fn("wg_init_db_memsegment")
    marks = [c for c, i in hc["mark"]]
    # the mark of a valid database is what a segment must carry to be accepted: the value stored last (the one no other store of the mark follows)
    last = [c for c, i in hc["mark"] if not any(j is not i and (j.bb in fi.reach().get(i.bb, ()) if False else False) for _, j in hc["mark"])]
    order = {b: n for n, b in enumerate(fi.rpo())}
    seq = sorted(hc["mark"], key=lambda x: (order.get(x[1].bb, 0), x[1].ix))
    mark = seq[-1][0]
    if len(set(marks)) < 2: res.violation("init", "mark", seq[-1][1].where(), "the mark of a segment under initialisation is the same as that of a valid database")
    offs = {n: field_offset(fi, hc[n][-1][1]) for n in hc}
    marko = offs["mark"]
    # ---- A: wg_attach_memsegment
    r = AttachRule(mark, marko); f = m.fn("wg_attach_memsegment"); res.funcs.add(f.name)
    rep = run(f, r)
    for k, w in sorted(r.oblig): res.obligation(1, "%s: %s" % (w, k), kind="segment acquisitions")
    res.obligation(r.rets, f.name + ": returns", kind="paths to a return of an attach function")
    rl = AttachRule(mark, marko, local=True); fl = m.fn("wg_attach_local_database"); res.funcs.add(fl.name)
    repl = run(fl, rl)
    res.obligation(rl.rets, fl.name + ": returns", kind="paths to a return of an attach function")
    for k, w in sorted(rl.oblig): res.obligation(1, "%s: %s" % (w, k), kind="segment acquisitions")
    for fn, rp in ((f, rep), (fl, repl)):
        for msg, w, path in rp:
            rule, msg = msg.split("|", 1); res.violation(rule, fn.name, w, msg + " (in %s)" % fn.name, path)
    # ---- B: user-facing functions
    users = [g for g in m.funcs.values() if g.name != "wg_attach_memsegment" and any(True for _ in g.calls("wg_attach_memsegment"))]
    for g in sorted(users, key=lambda g: g.name):
        ru = UserRule(); rp = run(g, ru); res.funcs.add(g.name)
        res.obligation(ru.rets, g.name, kind="paths to a return of an attach function")
        if "existing" not in g.name and not g.ret == "ptr": pass
        for msg, w, path in rp:
            rule, msg = msg.split("|", 1); res.violation(rule, g.name, w, msg + " (in %s)" % g.name, path)
    res.need(len(users), 4, "functions that attach on behalf of the user")
    # ---- C: comparison of the header
    want = {offs[n]: (mark if n == "mark" else hc[n][-1][0], n) for n in ("mark", "version", "features")}
    rc = CompatRule(want); g = m.fn("wg_check_header_compat"); res.funcs.add(g.name)
    for msg, w, path in run(g, rc):
        rule, msg = msg.split("|", 1); res.violation(rule, g.name, w, msg, path)
    res.obligation(3, "wg_check_header_compat: mark, version, features", kind="header fields compared")
    res.need(rc.n, 1, "paths on which a header is compatible")
    # ---- D: initialisation
    need = {(p, None) for p in PARTS}
    used = areas_used(m)
    for off, (kind, ex) in used.items():
        need.add(("init_db_subarea", off))
        for c in (FIX if kind == "fix" else VARLEN): need.add((c, off))
    steps = {c: INITKIND.get(c, "nz") for c in KEEPINIT}
    for c in KEEPINIT:      # a helper whose every result is 0 cannot fail
        if c in mi.funcs and INITKIND.get(c) is None:
            rets = [i for i in mi.fn(c).instrs() if i.op == "ret"]
            if all(i.args and isinstance(i.args[0], list) and i.args[0][0] == "c" and i.args[0][1] == 0 for i in rets): steps[c] = "never"
    for c in KEEPINIT:
        if c not in mi.funcs: steps.pop(c); need = {x for x in need if x[0] != c}
    rd = InitRule(mark, need, steps); res.funcs.add(fi.name)
    for msg, w, path in run(fi, rd):
        rule, msg = msg.split("|", 1); res.violation(rule, "wg_init_db_memsegment", w, msg, path)
    for n in sorted(need, key=str): res.obligation(1, "initialised before the mark is set: %s%s" % (n[0], " (area at %d)" % n[1] if n[1] is not None else ""), kind="parts of the header initialised")
    res.need(len(used), 7, "areas objects are allocated from"); res.need(rd.done, 1, "stores of the mark of a valid database")
    # helpers of the initialisation report the failure of their own steps
    hs = {c: k for c, k in steps.items() if k != "never"}; hs["wg_init_locks"] = "nz"
    names = [c for c in KEEPINIT if c in mi.funcs and c != "init_logging" and mi.fn(c).ret != "void"] + ["wg_init_locks"]
    n = 0
    for c in names:
        fr = FailRule({k: rng(v) for k, v in hs.items()}, FAILV[INITKIND.get(c, "nz")])
        for msg, w, path in run(mi.fn(c), fr):
            cc, src, cw, msg = msg.split("|", 3); res.violation("failed", "%s: %s" % (c, cc), w, msg + " (in %s)" % c, path)
        n += len(fr.sites); res.funcs.add(c)
        for cc, w in sorted(fr.sites): res.obligation(1, "%s: %s" % (c, cc), kind="steps of the initialisation")
    res.need(n, 4, "fallible steps of the initialisation")
