"""Journal and dump files: C08 (journal I/O), C09 (replay and journaling state), C10 (dump), C11 (import)."""
import ir
from flow import Flow, Fork, const, isconst, mk, meet, empty, TOP, excluded
from ir import Broken
from common import pmap
from lib import FAILV, OKV, within, NZ, is_seg, seg_derived, seg_writers, addr_of
from fails import show, rng

SEG = "_db_memsegment_header."
ACTIVE, DIRTY, SERIAL = SEG + "logging.active", SEG + "logging.dirty", SEG + "logging.serial"
LFD, LSERIAL = "db_handle_logdata.fd", "db_handle_logdata.serial"
MAGIC = "wg"

def deps(f, o):
    """everything the value is computed from, through loads of memory too (address operands)"""
    seen = set(); w = [o]
    while w:
        x = w.pop()
        if not isinstance(x, int) or x in seen: continue
        seen.add(x); d = f.defs.get(x)
        if d is not None: w += d.args
    return seen

def strip(fx, k):
    while fx.kt[k][0] in ("sext", "zext", "trunc"): k = fx.kt[k][1]
    return k

def unnot(fx, k, truth):
    t = fx.kt[k]
    while t[0] == "not": truth = not truth; t = fx.kt[t[1]]
    return t, truth

def loaded(fx, k):
    """the load instruction a key stands for"""
    t = fx.kt[strip(fx, k)]
    if t[0] != "ssa": return None
    d = fx.fn.defs.get(t[1])
    return d if d is not None and d.op == "load" else None

NEG1 = (const(-1), (0, None, frozenset()))
IO = {"open": NEG1, "lseek": NEG1, "dup": NEG1, "fdopen": rng("zero"), "fopen": rng("zero"), "malloc": rng("zero"), "calloc": rng("zero"), "realloc": rng("zero"),
      "ftruncate": rng("nz"), "rename": rng("nz"), "fseek": rng("nz"), "fflush": rng("nz"), "fcntl": NEG1, "flock": rng("nz"), "fsync": rng("nz")}
SHORT = {"read": 2, "write": 2, "fread": 2, "fwrite": 2}     # result is compared with this argument
LIBS = {"wg_ginthash_init": "zero", "wg_ginthash_addkey": "nz", "wg_start_logging": "nz", "write_log_buffer": "nz", "check_journal": "nz", "backup_journal": "nz",
        "fget_varint": "nz", "recover_journal": "nz"}

class IORule:
    """state: (status, boundary, descriptor in the handle known to be negative) - status None, ("fail", call) or ("pend", call): a failed call, or one whose
    result still has to be compared with the requested size; boundary: the read that starts an entry"""
    def __init__(s, steps, fail, fdstore=()):
        s.steps = steps; s.fail = fail; s.sites = set(); s.rets = 0; s.fdstore = fdstore
    def start(s, fx): return [(None, None, False)]
    def extra_live(s, a): return {a[0][1]} if a[0] else set()
    def step(s, fx, st, i):
        sta, bd, ng = st.a
        if i.op == "store" and i.fld == DIRTY and sta is not None:
            v = fx.val(st, i.args[0])
            if isconst(v) and v[0] == 0: fx.report(st, i, "lost|%d|the journal is marked clean although %s failed" % (sta[1], fx.fn.defs[sta[1]].callee()))
        if i.fld == LFD:
            if i.op == "load": return [Fork(st.a, (None, -1, frozenset()))] if ng else None
            if i.op == "store":
                v = fx.val(st, i.args[0]); return [(sta, bd, v[1] is not None and v[1] < 0)]
        if i.op != "call": return None
        c = i.callee()
        if ng and c in s.fdstore:
            r = s.call(fx, st, i, c, sta, bd, False)
            return [(sta, bd, False)] if r is None else r
        return s.call(fx, st, i, c, sta, bd, ng)
    def call(s, fx, st, i, c, sta, bd, ng):
        if c == "feof" and sta and sta[0] == "fail" and sta[1] == bd: return [Fork((None, bd, ng), NZ), Fork((sta, bd, ng), const(0))]
        if c in ("fgetc", "getc", "_IO_getc"):
            if sta is not None: return None
            s.sites.add((c, i.where()))
            if bd is None: bd = i.id
            return [Fork((None, bd, ng), (0, 255, frozenset())), Fork((("fail", i.id), bd, ng), const(-1))]
        if c in SHORT:
            if sta is not None: return None
            s.sites.add((c, i.where()))
            n = fx.val(st, i.args[SHORT[c]])
            if isconst(n): return [Fork((None, bd, ng), n), Fork((("fail", i.id), bd, ng), (-1 if c in ("read", "write") else 0, n[0]-1, frozenset()))]
            return [(("pend", i.id), bd, ng)]
        r = s.steps.get(c)
        if r is None or sta is not None: return None
        s.sites.add((c, i.where()))
        return [Fork((None, bd, ng), r[1]), Fork((("fail", i.id), bd, ng), r[0])]
    def edge(s, fx, st, t, k, truth):
        sta, bd, ng = st.a
        x, truth = unnot(fx, k, truth)
        if x[0] != "icmp": return None
        d = loaded(fx, x[2])
        if d is not None and d.fld == LFD and not ng:
            v = fx.kval(st, x[2])
            if v[1] is not None and v[1] < 0: return (sta, bd, True)
        if sta is None: return None
        a, b = strip(fx, x[2]), strip(fx, x[3])
        if sta[0] == "pend":
            i = fx.fn.defs[sta[1]]; me = fx.leaf(i.id); n = strip(fx, fx.key(st, i.args[SHORT[i.callee()]]))
            if me not in (a, b): return None
            o = b if a == me else a
            if o != n:     # the size may have been read again from the same variable
                d = loaded(fx, o); q = fx.fn.defs.get(d.args[0]) if d is not None and isinstance(d.args[0], int) else None
                if q is None or q.op != "alloca" or q.id not in deps(fx.fn, i.args[SHORT[i.callee()]]): return None
            if x[1] == "eq": return (None if truth is True else ("fail", i.id), bd, ng)
            lt = a == me                       # result < n  /  n < result
            if lt: return (("fail", i.id) if truth is True else None, bd, ng)
            return None
        if sta[0] == "fail" and fx.fn.defs[sta[1]].callee() == "recover_encode" and x[1] == "eq" and truth is True:
            # the encoding had failed as well when it was journaled
            for p, q in ((a, b), (b, a)):
                if fx.cval(q) == 0xff and loaded(fx, p) is not None: return (None, bd, ng)
        return None
    def ret(s, fx, st, i):
        s.rets += 1
        sta, bd, ng = st.a
        if sta is None: return
        v = fx.val(st, i.args[0]) if i.args else TOP
        if within(v, s.fail): return
        d = fx.fn.defs[sta[1]]
        fx.report(st, i, "lost|%d|%s (%s) may have failed%s, but the result can be %s" % (sta[1], d.callee(), d.where(), "" if sta[0] == "fail" else " (its result is not compared with the requested size)", show(v)))

class HandleRule:
    """the journal descriptor in the database handle.  state: (field, verified fd, last fd read from, serial stored, dirty set, moved)"""
    # field: ? unknown, current, new (verified, serial not noted), none, closed
    def __init__(s): s.n = set()
    def start(s, fx): return [("?", None, None, False, False, None)]
    def extra_live(s, a): return {x for x in (a[1], a[2]) if isinstance(x, int)}
    def fdk(s, fx, st, o):
        k = strip(fx, fx.key(st, o)); t = fx.kt[k]
        if t[0] == "ssa":
            d = fx.fn.defs.get(t[1])
            if d is not None and d.op == "load" and d.fld == LFD: return "handle"
            return t[1]
        return None
    def step(s, fx, st, i):
        f, ver, last, ser, dirty, mv = st.a
        if i.op == "load" and i.fld == LFD:
            if f == "none": return [Fork(st.a, (None, -1, frozenset()))]
            return None
        if i.op == "store":
            if i.fld == LFD:
                s.n.add(("store of the descriptor", i.where()))
                v = fx.val(st, i.args[0])
                if v[1] is not None and v[1] < 0: return [("none", ver, last, ser, dirty, mv)]
                k = s.fdk(fx, st, i.args[0])
                if k is None or k == "handle" or k != ver:
                    fx.report(st, i, "unverified|a descriptor is kept in the handle whose file has not been checked for the journal header")
                return [("current" if ser else "new", ver, last, ser, dirty, mv)]
            if i.fld == LSERIAL:
                d = loaded(fx, fx.key(st, i.args[0]))
                if d is None or d.fld != SERIAL:
                    if not (isconst(fx.val(st, i.args[0]))): fx.report(st, i, "serial|the serial number noted with the descriptor is not that of the journal")
                    return None
                return [("current" if f == "new" else f, ver, last, True, dirty, mv)]
            if i.fld == DIRTY:
                v = fx.val(st, i.args[0])
                return [(f, ver, last, ser, not excluded(v, 0) is False and excluded(v, 0), mv)]
            if i.fld == SERIAL:
                k = fx.key(st, i.args[0]); t = fx.kt[k]
                if mv == "moved" and t[0] == "add" and any(isconst(fx.kval(st, y)) and fx.kval(st, y)[0] != 0 for y in t[1:]): return [(f, ver, last, False, dirty, "counted")]
            return None
        if i.op != "call": return None
        c = i.callee()
        if c == "close":
            k = s.fdk(fx, st, i.args[0])
            s.n.add(("close", i.where()))
            if k == "handle" and f not in ("none",) or k is not None and k == ver and f in ("new", "current"):
                # still in the field?
                return [("closed", ver, last, ser, dirty, mv)]
            return None
        if c in ("read", "write", "ftruncate"):
            k = s.fdk(fx, st, i.args[0])
            if c == "read": return [(f, ver, k, ser, dirty, mv)]
            if c == "write":
                s.n.add(("write", i.where()))
                if k == "handle" or f in ("new", "current") and k == ver:
                    if f == "closed": fx.report(st, i, "closed|an entry is written through a closed descriptor")
                    elif f != "current": fx.report(st, i, "stale|an entry is written through a descriptor that has not been compared with the current journal")
                    if not dirty: fx.report(st, i, "clean|an entry is written before the journal was marked as holding entries")
            return None
        if c in ("strncmp", "memcmp", "strcmp") and any(isinstance(a, list) and a[0] == "s" and str(a[1]).startswith(MAGIC) for a in i.args):
            return [Fork((f, last, last, ser, dirty, mv), const(0)), Fork(st.a, NZ)]
        if c == "rename":
            s.n.add(("rename", i.where()))
            return [Fork((f, ver, last, ser, dirty, "moved"), const(0)), Fork(st.a, NZ)]
        return None
    def edge(s, fx, st, t, k, truth):
        f, ver, last, ser, dirty, mv = st.a
        x, truth = unnot(fx, k, truth)
        if x[0] != "icmp": return None
        a, b = loaded(fx, x[2]), loaded(fx, x[3])
        if x[1] == "eq" and truth is True and a is not None and b is not None and {a.fld, b.fld} == {LSERIAL, SERIAL} and f == "?":
            return ("current", ver, last, ser, dirty, mv)
        if a is not None and a.fld == LFD and f == "?":
            v = fx.kval(st, x[2])
            if v[1] is not None and v[1] < 0: return ("none", ver, last, ser, dirty, mv)
        return None
    def ret(s, fx, st, i):
        f, ver, last, ser, dirty, mv = st.a
        if f == "closed": fx.report(st, i, "kept|a closed descriptor stays in the handle")
        if f == "new": fx.report(st, i, "serial|the descriptor is kept without noting which journal it belongs to")
        if mv == "moved": fx.report(st, i, "moved|the journal was renamed but its serial number was not increased, so other handles keep writing to the old file")

class StartRule:
    """wg_start_logging / wg_stop_logging.  state: (clean known, ready, active stored)"""
    def __init__(s, start): s.st = start; s.n = set()
    def start(s, fx): return [(False, None, None)]
    def step(s, fx, st, i):
        cl, ready, act = st.a
        if i.op == "store" and i.fld == ACTIVE:
            v = fx.val(st, i.args[0]); s.n.add(("active flag", i.where()))
            if excluded(v, 0):
                if not s.st: fx.report(st, i, "flag|journaling is switched on here")
                elif not ready: fx.report(st, i, "ready|journaling is switched on before the journal file has its header")
                return [(cl, ready, 1)]
            return [(cl, ready, 0)]
        if i.op != "call": return None
        c = i.callee()
        if c in ("ftruncate", "rename"):
            s.n.add((c, i.where()))
            if not cl: fx.report(st, i, "destroy|%s: a journal that still holds entries would be destroyed or moved away" % c)
        if c in ("strncmp", "memcmp", "strcmp") and any(isinstance(a, list) and a[0] == "s" and str(a[1]).startswith(MAGIC) for a in i.args):
            return [Fork((cl, True, act), const(0)), Fork(st.a, NZ)]
        if c == "write" and any(isinstance(a, list) and a[0] == "s" and str(a[1]).startswith(MAGIC) for a in i.args):
            n = fx.val(st, i.args[2])
            if isconst(n): return [Fork((cl, True, act), n), Fork(st.a, mk(None, n[0]-1))]
        return None
    def edge(s, fx, st, t, k, truth):
        cl, ready, act = st.a
        x, truth = unnot(fx, k, truth)
        if x[0] == "icmp" and x[1] == "eq" and truth is True and fx.cval(x[3]) == 0:
            d = loaded(fx, x[2])
            if d is not None and d.fld == DIRTY: return (True, ready, act)
        return None
    def ret(s, fx, st, i):
        cl, ready, act = st.a
        v = fx.val(st, i.args[0])
        want = 1 if s.st else 0
        if not excluded(v, 0) and act != want: fx.report(st, i, "flag|the result can be 0 (%s) although journaling was not switched %s" % (show(v), "on" if want else "off"))
        if not within(v, const(0)) and act is not None: fx.report(st, i, "flag|the result can be %s although journaling was switched %s" % (show(v), "on" if act else "off"))

def run(m, name, rule, **kw):
    fx = Flow(m.fn(name), rule, **kw); fx.run()
    return fx

JF = ("write_log_buffer", "fget_varint", "recover_encode", "recover_journal", "check_journal", "open_journal", "backup_journal")

def c08(res, tier):
    res.rule("every path of the journal code on which a system or library call failed (or transferred less than requested) ends in the function's failure result; a journal is never truncated or renamed while it may hold entries; the handle keeps only a verified, current, open descriptor, and entries are written only through it and after the journal was marked dirty")
    m = ir.load(("db", "json"), "main", extra_keep=JF); res.module(m)
    steps = dict(IO)
    for k, v in LIBS.items(): steps[k] = rng(v)
    steps["open_journal"] = NEG1; steps["recover_encode"] = rng("illegal")
    fail = {"open_journal": const(-1), "recover_encode": const(0xff)}
    from lib import callers_closure
    fds = callers_closure(m, {f.name for f in m.funcs.values() if any(i.op == "store" and i.fld == LFD for i in f.instrs())})
    fs = [f.name for f in m.funcs.values() if f.file == "Db/dblog.c" and f.ret != "void" and any(c.callee() in steps or c.callee() in SHORT or c.callee() in ("fgetc", "getc") for c in f.calls())]
    def one(n):
        r = IORule(steps, fail.get(n, rng("nz")[0] if m.fn(n).ret != "ptr" else const(0)), fds)
        fx = run(m, n, r)
        return n, sorted(r.sites), r.rets, [(d["msg"], d["where"], d["path"]) for d in fx.reports]
    tot = 0
    for n, sites, rets, reps in pmap(one, sorted(fs)):
        res.funcs.add(n); tot += len(sites)
        for c, w in sites: res.obligation(1, "%s: %s at %s" % (n, c, w), kind="calls that can fail")
        for msg, where, path in reps:
            _, cid, txt = msg.split("|", 2); d = m.fn(n).defs[int(cid)]
            res.violation("io-failure", "%s: %s" % (d.srcfunc(), d.callee()), where, txt, path)
    res.need(tot, 20, "fallible calls in the journal code")
    m2 = ir.load(("db", "json"), "main"); n = 0      # static functions inlined
    res.module(m2)
    users = [f.name for f in m2.funcs.values() if any(i.op in ("store", "load") and i.fld == LFD or i.op == "call" and i.callee() == "rename" for i in f.instrs())]
    def two(nm):
        r = HandleRule(); fx = run(m2, nm, r)
        return nm, sorted(r.n), [(d["msg"], d["where"], d["path"]) for d in fx.reports]
    for nm, sites, reps in pmap(two, sorted(users)):
        if nm == "wg_init_handle_logdata": continue
        res.funcs.add(nm); n += len(sites)
        for c, w in sites: res.obligation(1, "%s: %s at %s" % (nm, c, w), kind="uses of the journal descriptor")
        for msg, where, path in reps: res.violation("descriptor-" + msg.split("|")[0], nm, where, msg.split("|", 1)[1], path)
    res.need(n, 5, "uses of the journal descriptor")
    for nm, start in (("wg_start_logging", True), ("wg_stop_logging", False)):
        r = StartRule(start); fx = run(m2, nm, r); res.funcs.add(nm)
        if not r.n: raise Broken("%s does not change the journaling flag" % nm)
        for c, w in sorted(r.n): res.obligation(1, "%s: %s at %s" % (nm, c, w), kind="journal set-up steps")
        for d in fx.reports: res.violation("journal-" + d["msg"].split("|")[0], nm, d["where"], d["msg"].split("|", 1)[1], d["path"])

class ReplayRule:
    """wg_replay_log and wg_import_dump.
    state: (verified, flag, mutated, load of the original flag, was off, other facts)"""
    def __init__(s, m, writers, imp): s.m = m; s.w = writers; s.imp = imp; s.n = set()
    def start(s, fx): return [(False, "orig", False, None, False, frozenset())]
    def extra_live(s, a): return {a[3]} if a[3] is not None else set()
    def mutate(s, fx, st, i, what):
        ver, fl, mut, al, off, fs = st.a
        s.n.add((what, i.where()))
        if not ver: fx.report(st, i, "validate|%s before the file was recognised as %s" % (what, "a valid dump" if s.imp else "a journal"))
        if not s.imp and fl != "off": fx.report(st, i, "active|%s while journaling may be active: the replayed change is journaled again" % what)
        if s.imp and what.startswith("reading into"):
            fl = "image"
            if "nofit" in fs or not any(isinstance(x, tuple) and x[0] == "fits" and x[1] == s.size(fx, st, i) for x in fs):
                fx.report(st, i, "fit|the image is read into memory without having been compared with the size of the segment")
            if "ext" not in fs: fx.report(st, i, "external|an image that refers to other databases is not rejected")
        return (ver, fl, True, al, off, fs - {"clean"})
    def size(s, fx, st, i):
        n = [k for k in (fx.key(st, a) for a in i.args[1:3]) if fx.cval(k) is None]
        return strip(fx, n[0]) if n else None
    def step(s, fx, st, i):
        ver, fl, mut, al, off, fs = st.a
        if i.op == "load" and i.fld == ACTIVE and fl == "orig" and al is None: return [(ver, fl, mut, i.id, off, fs)]
        if i.op == "store" and seg_derived(fx.fn, i.args[1]):
            v = fx.val(st, i.args[0])
            if i.fld == ACTIVE:
                s.n.add(("journaling flag", i.where()))
                if isconst(v) and v[0] == 0: return [(ver, "off", mut, al, off, fs)]
                if al is not None and strip(fx, fx.key(st, i.args[0])) == fx.leaf(al): return [(ver, "orig" if fl in ("off", "orig") else fl, mut, al, off, fs)]
                fx.report(st, i, "flag|the journaling flag is set to something else than off or its original value"); return None
            if i.fld == DIRTY:
                s.n.add(("journal marked clean", i.where()))
                return [(ver, fl, mut, al, off, fs | {"clean"} if within(v, const(0)) else fs - {"clean"})]
            if i.fld in (SERIAL, SEG + "size", SEG + "key"):
                d = loaded(fx, fx.key(st, i.args[0]))
                if d is not None and d.fld == i.fld and ("old", d.id) in fs: return [(ver, fl, mut, al, off, fs | {i.fld})]
                return None
            if i.fld == SEG + "checksum": return None
            return [s.mutate(fx, st, i, "changing " + (i.fld or "the database"))]
        if i.op == "load" and i.fld in (SERIAL, SEG + "size", SEG + "key") and not mut and seg_derived(fx.fn, i.args[0]):
            return [(ver, fl, mut, al, off, fs | {("old", i.id)})]
        if i.op != "call": return None
        c = i.callee()
        if c in ("strncmp", "memcmp", "strcmp") and any(isinstance(a, list) and a[0] == "s" and str(a[1]).startswith(MAGIC) for a in i.args):
            return [Fork((True, fl, mut, al, off, fs), const(0)), Fork(st.a, NZ)]
        if c == "wg_check_dump" and s.imp:
            s.n.add((c, i.where()))
            same = fx.key(st, i.args[1]) == fx.leaf(1)
            return [Fork((ver or same, fl, mut, al, off, fs), const(0)), Fork(st.a, NZ)]
        if c == "wg_start_logging":
            s.n.add((c, i.where()))
            if not off and not mut and "entered" not in fs: fx.report(st, i, "early|journaling is started before the change")
            if "clean" not in fs: fx.report(st, i, "clean|journaling is restarted without the journal being marked clean: the entries that are already part of the database stay in it")
            return [Fork((ver, "on", mut, al, off, fs), const(0)), Fork((ver, "failed", mut, al, off, fs), NZ)]
        if c == "wg_stop_logging": return [(ver, "off", mut, al, off, fs)]
        if c == "wg_init_locks":
            return [Fork((ver, fl, mut, al, off, fs | {"locks"}), const(0)), Fork((ver, fl, mut, al, off, fs | {"nolocks"}), NZ)]
        if c in ("fread", "read", "memcpy", "memmove") and isinstance(i.args[1 if c == "read" else 0], int) and seg_derived(fx.fn, i.args[1 if c == "read" else 0]):
            a = s.mutate(fx, st, i, "reading into the database")
            n = fx.val(st, i.args[2])
            if isconst(n): return [Fork(a, n), Fork(a[:5] + (a[5] | {"badread"},), mk(None, n[0]-1))]
            return [a]
        if c in ("fgetc", "getc", "_IO_getc", "fread", "fget_varint") and ver and not s.imp:
            if fl != "off": fx.report(st, i, "active|entries are read while journaling may be active")
            return [(ver, fl, mut, al, off, fs | {"entered"})] if "entered" not in fs else None
        if c in s.w and c not in ("wg_check_dump",): return [s.mutate(fx, st, i, "calling " + c)]
        return None
    def edge(s, fx, st, t, k, truth):
        ver, fl, mut, al, off, fs = st.a
        x, truth = unnot(fx, k, truth)
        if x[0] != "icmp": return None
        if x[1] == "eq" and fx.cval(x[3]) == 0 and truth is True:
            if al is not None and strip(fx, x[2]) == fx.leaf(al): return (ver, fl, mut, al, True, fs)
            d = loaded(fx, x[2])
            if d is not None and d.fld == SEG + "extdbs.count" and not seg_derived(fx.fn, d.args[0]): return (ver, fl, mut, al, off, fs | {"ext"})
        if x[1] in ("slt", "ult"):
            for z, o, tr in ((x[2], x[3], False), (x[3], x[2], True)):
                d = loaded(fx, z)
                if d is not None and d.fld == SEG + "size" and seg_derived(fx.fn, d.args[0]) and truth is tr:
                    return (ver, fl, mut, al, off, fs | {("fits", strip(fx, o))})
        return None
    def ret(s, fx, st, i):
        ver, fl, mut, al, off, fs = st.a
        v = fx.val(st, i.args[0])
        if not mut and "entered" not in fs:
            if not excluded(v, 0): fx.report(st, i, "nothing|success can be reported (%s) although nothing was done" % show(v))
            if fl not in ("orig",) and not off: fx.report(st, i, "left|nothing was changed but journaling is left %s" % fl)
            return
        if mut and not excluded(v, -1): fx.report(st, i, "nonfatal|the result can be -1 (database unmodified: %s) after the database was changed" % show(v))
        if not excluded(v, 0):
            if "clean" not in fs: fx.report(st, i, "clean|success can be reported (%s) without the journal having been marked clean" % show(v))
            if not (fl == "on" or fl == "off" and off): fx.report(st, i, "restart|success can be reported (%s) although journaling was active before and has not been restarted" % show(v))
            if s.imp:
                if "badread" in fs: fx.report(st, i, "partial|success can be reported although the image was not read completely")
                for fld in (SEG + "size", SEG + "key"):
                    if fld not in fs: fx.report(st, i, "identity|the segment's own %s is not kept" % fld.split(".")[1])
                if SERIAL not in fs: fx.report(st, i, "serial|the journal serial number is replaced by that of the image")
                if "locks" not in fs: fx.report(st, i, "locks|the locks stored in the image are not reset")

C09_KINDS = {"active", "validate", "restart", "left", "flag", "nothing", "early", "serial", "nonfatal", "clean"}
def replay(res, names, kinds):
    m = ir.load(("db", "json"), "main"); res.module(m)
    w = seg_writers(m, exempt_files=("Db/dblock.c",)) - {"wg_start_logging", "wg_stop_logging", "wg_init_locks", "wg_check_dump"}
    # calls whose only effect on the segment is the journal state
    w -= {n for n in w if n.startswith(("show_", "wg_ginthash", "wg_journal"))}
    for n, imp in names:
        r = ReplayRule(m, w, imp); fx = run(m, n, r); res.funcs.add(n)
        if not any(c.startswith(("calling", "reading", "changing")) for c, _ in r.n): raise Broken("%s changes nothing" % n)
        for c, wh in sorted(r.n): res.obligation(1, "%s: %s at %s" % (n, c, wh), kind="changes and journal state changes")
        res.obligation(1, "%s: result codes" % n, kind="return codes")
        for d in fx.reports:
            kd, txt = d["msg"].split("|", 1)
            if kd in kinds: res.violation("replay-" + kd if not imp else "import-" + kd, n, d["where"], txt, d["path"])
    return m

def c09(res, tier):
    res.rule("the journal header is recognised and journaling switched off before the first change; -1 means nothing was changed and journaling is as before; 0 means journaling was off before or has been restarted; a failing replay step or restart is reported")
    m = replay(res, (("wg_replay_log", False), ("wg_import_dump", True)), C09_KINDS)
    m = ir.load(("db", "json"), "main", extra_keep=JF)
    steps = {k: rng(v) for k, v in {"recover_journal": "nz", "wg_start_logging": "nz", "wg_create_record": "zero", "wg_create_raw_record": "zero", "wg_set_field": "nz", "wg_delete_record": "ltm1",
             "recover_encode": "illegal", "wg_ginthash_addkey": "nz", "fget_varint": "nz"}.items()}
    t = 0
    for n in [n for n in ("wg_replay_log", "recover_journal", "wg_import_dump") if n in m.funcs]:
        r = IORule(steps, NZ); fx = run(m, n, r); res.funcs.add(n); t += len(r.sites)
        for c, w in sorted(r.sites): res.obligation(1, "%s: %s at %s" % (n, c, w), kind="replay steps")
        for d in fx.reports:
            _, cid, txt = d["msg"].split("|", 2); x = m.fn(n).defs[int(cid)]
            res.violation("step-failure", "%s: %s" % (x.srcfunc(), x.callee()), d["where"], txt, d["path"])
    res.need(t, 5, "replay steps")

class DumpRule:
    """state: (stream, lock, facts)"""
    LOCK = {"db_tfqueue_rlock": "r", "db_tfqueue_wlock": "w", "db_rlock": "r", "db_wlock": "w", "wg_start_read": "r", "wg_start_write": "w", "db_rspin_rlock": "r"}
    UNLOCK = {"db_tfqueue_rulock": "r", "db_tfqueue_wulock": "w", "wg_end_read": "r", "wg_end_write": "w"}
    def __init__(s): s.n = set()
    def start(s, fx): return [("no", None, frozenset())]
    def img(s, fx, o):
        d = fx.fn.defs.get(o) if isinstance(o, int) else None
        return d is not None and (is_seg(d) or d.op in ("bitcast",) and s.img(fx, d.args[0]))
    def step(s, fx, st, i):
        f, lk, fs = st.a
        if i.op == "load" and seg_derived(fx.fn, i.args[0]) and i.fld == SEG + "free": s.locked(fx, st, i, "the size of the image is read")
        if i.op == "load" and seg_derived(fx.fn, i.args[0]) and not i.fld: s.locked(fx, st, i, "the checksum is computed")
        if i.op == "store" and seg_derived(fx.fn, i.args[1]):
            v = fx.val(st, i.args[0])
            if i.fld == DIRTY and isconst(v) and v[0] == 0:
                s.n.add(("journal marked clean", i.where()))
                if not s.done(f, fs): fx.report(st, i, "clean|the journal is marked clean before the dump is known to be complete")
                s.locked(fx, st, i, "the journal is marked clean", "w")
                return None
            if i.fld in (DIRTY, ACTIVE): return None
            fx.report(st, i, "modify|the database image is modified (%s)" % i.fld); return None
        if i.op != "call": return None
        c = i.callee()
        if c == "update_crc32":
            s.n.add((c, i.where())); s.locked(fx, st, i, "the checksum is computed")
            d = loaded(fx, fx.key(st, i.args[1]))
            if not s.img(fx, i.args[0]) or d is None or d.fld != SEG + "free": fx.report(st, i, "sum|the checksum is not that of the whole used image")
            return None
        if c == "fopen":
            s.n.add((c, i.where())); return [Fork(("open", lk, fs), NZ), Fork(st.a, const(0))]
        if c in s.LOCK:
            s.n.add((c, i.where())); return [Fork((f, s.LOCK[c], fs), NZ), Fork((f, "no", fs), const(0))]
        if c in s.UNLOCK:
            s.n.add((c, i.where()))
            if lk != s.UNLOCK[c]: fx.report(st, i, "lock|%s is called although no such lock is held" % c)
            return [Fork((f, "released", fs), NZ), Fork((f, "released", fs | {"unlockfail"}), const(0))]
        if c == "fwrite":
            s.n.add((c, i.where()))
            n = fx.val(st, i.args[2]); nm = "other"
            if s.img(fx, i.args[0]):
                s.locked(fx, st, i, "the image is written")
                ks = [loaded(fx, fx.key(st, a)) for a in i.args[1:3]]
                if not any(d is not None and d.fld == SEG + "free" for d in ks): fx.report(st, i, "size|the size written is not the used size of the image")
                nm = "image"
            elif "sum" not in fs:
                x = i.args[0]; d = fx.fn.defs.get(x) if isinstance(x, int) else None
                if d is not None and d.op == "alloca":
                    for q in fx.fn.instrs():
                        if q.op == "store" and q.args[1] == x and any(fx.fn.defs.get(y) is not None and is_seg(fx.fn.defs[y]) for y in deps(fx.fn, q.args[0])): nm = "sum"
                if nm == "sum" and "image" not in fs: nm = "other"
            ok = fs | {nm}
            if nm == "sum" and "seek" not in fs: ok = fs | {"misplaced"}
            if isconst(n): return [Fork((f, lk, ok), n), Fork((f, lk, fs | {"bad"}), (0, n[0]-1, frozenset()))]
            return [Fork((f, lk, fs | {"bad"}), TOP)]
        if c == "fseek":
            s.n.add((c, i.where()))
            x = i.args[1]; g = [fx.fn.defs[y] for y in deps(fx.fn, x) if y in fx.fn.defs] if isinstance(x, int) else []
            good = any(d.fld == SEG + "checksum" for d in g) and fx.val(st, i.args[2]) == const(0)
            return [Fork((f, lk, fs | {"seek"} if good else fs), const(0)), Fork((f, lk, fs | {"bad"}), NZ)]
        if c == "fclose":
            s.n.add((c, i.where()))
            return [Fork(("closed", lk, fs), const(0)), Fork(("closed", lk, fs | {"bad"}), NZ)]
        if c == "wg_start_logging":
            s.locked(fx, st, i, "journaling is restarted", "w")
            return [Fork(st.a, const(0)), Fork((f, lk, fs | {"bad"}), NZ)]
        if c == "wg_stop_logging": s.locked(fx, st, i, "journaling is stopped", "w")
        return None
    def done(s, f, fs): return f == "closed" and {"image", "sum"} <= fs and "bad" not in fs
    def locked(s, fx, st, i, what, kind=None):
        f, lk, fs = st.a
        if "nolocking" in fs: return
        if lk not in ("r", "w") or kind and lk != kind: fx.report(st, i, "lock|%s without holding the %slock" % (what, {"w": "write ", None: ""}[kind]))
    def edge(s, fx, st, t, k, truth):
        f, lk, fs = st.a
        x, truth = unnot(fx, k, truth)
        if x[0] == "icmp" and x[1] == "eq" and fx.cval(x[3]) == 0 and truth is True and len(fx.fn.args) > 2 and strip(fx, x[2]) == fx.leaf(2):
            return (f, lk, fs | {"nolocking"})
        return None
    def ret(s, fx, st, i):
        f, lk, fs = st.a
        v = fx.val(st, i.args[0])
        if f == "open": fx.report(st, i, "file|the file stays open")
        if lk in ("r", "w"): fx.report(st, i, "lock|the lock is not released")
        if not excluded(v, 0):
            if not s.done(f, fs): fx.report(st, i, "incomplete|success can be reported (%s) although %s" % (show(v), "a write failed" if "bad" in fs else "the file is not complete (%s done)" % (sorted(fs) or "nothing")))
            if "unlockfail" in fs: fx.report(st, i, "unlock|success can be reported although the lock was not released")
            if lk is None and "nolocking" not in fs: fx.report(st, i, "lock|the image is dumped without a lock")

def c10(res, tier):
    res.rule("0 is returned only after the lock was obtained, the used part of the segment and then its checksum were written in full, and the stream was closed without error; the image is read only while the lock is held; the journal is marked clean only after a complete dump")
    n = 0
    for cfg in ("main", "reasoner") if tier != "quick" else ("main",):
        m = ir.load(("db", "json"), cfg, extra_keep=("update_crc32",)); res.module(m)
        r = DumpRule(); fx = run(m, "wg_dump_internal", r); res.funcs.add("wg_dump_internal")
        for c, w in sorted(r.n): res.obligation(1, "%s at %s" % (c, w), kind="dump steps (%s)" % cfg)
        n += len(r.n)
        for d in fx.reports: res.violation("dump-" + d["msg"].split("|")[0], "wg_dump_internal", d["where"], d["msg"].split("|", 1)[1], d["path"])
        # the public call asks for locking
        f = m.fn("wg_dump"); cs = list(f.calls("wg_dump_internal"))
        res.funcs.add("wg_dump"); res.obligation(1, "wg_dump asks for locking", kind="dump steps (%s)" % cfg)
        if not cs:
            r = DumpRule(); fx = run(m, "wg_dump", r)
            for d in fx.reports: res.violation("dump-" + d["msg"].split("|")[0], "wg_dump", d["where"], d["msg"].split("|", 1)[1], d["path"])
        for c in cs:
            if not (isinstance(c.args[2], list) and c.args[2][0] == "c" and c.args[2][1] != 0): res.violation("dump-lock", "wg_dump", c.where(), "wg_dump does not ask for locking")
        for x in f.instrs():
            if x.op == "ret" and cs and x.args[0] not in [c.id for c in cs]: res.violation("dump-result", "wg_dump", x.where(), "wg_dump does not return the result of the dump")
    res.need(n, 8, "dump steps")

class CheckRule:
    """wg_check_dump: what must have been established when 0 is returned"""
    NEED = {"open": "the file was opened", "header": "the header was read", "compat": "the header is compatible", "size": "the size of the file was compared with the size recorded", "crc": "the checksum was compared"}
    def __init__(s): s.n = set()
    def start(s, fx): return [frozenset()]
    def step(s, fx, st, i):
        if i.op != "call": return None
        c = i.callee(); a = st.a
        if c == "fopen": s.n.add((c, i.where())); return [Fork(a | {"open"}, NZ), Fork(a, const(0))]
        if c == "wg_check_header_compat": s.n.add((c, i.where())); return [Fork(a | {"compat"} if "header" in a else a, const(0)), Fork(a, NZ)]
        if c == "fread" and "header" not in a:
            s.n.add((c, i.where())); n = fx.val(st, i.args[2])
            if isconst(n): return [Fork(a | {"header"}, n), Fork(a, (0, n[0]-1, frozenset()))]
        return None
    def edge(s, fx, st, t, k, truth):
        x, truth = unnot(fx, k, truth)
        if x[0] != "icmp" or x[1] != "eq" or truth is not True: return None
        c = fx.fn.defs.get(t.args[0]) if isinstance(t.args[0], int) else None
        while c is not None and c.op in ("xor", "zext", "trunc") and isinstance(c.args[0], int): c = fx.fn.defs.get(c.args[0])
        if c is None or c.op != "icmp": return None
        ds = [deps(fx.fn, o) for o in c.args]
        D = fx.fn.defs; a = st.a
        def has(x, p): return any(y in D and p(D[y]) for y in x)
        for u, w in ((0, 1), (1, 0)):
            if has(ds[u], lambda d: d.op == "load" and d.fld == SEG + "checksum") and not has(ds[u], lambda d: d.op == "phi") \
               and has(ds[w], lambda d: d.op == "load" and d.fld != SEG + "checksum" and has(deps(fx.fn, d.args[0]), lambda e: e.op == "call" and e.callee() in ("malloc", "fread"))) and has(ds[w], lambda d: d.op == "phi"):
                s.n.add(("checksum comparison", c.where())); a = a | {"crc"}
            if has(ds[w], lambda d: d.op == "call" and d.callee() == "fread") and has(ds[w], lambda d: d.op == "phi") and not has(ds[w], lambda d: d.op == "xor") and not has(ds[u], lambda d: d.op == "phi") and isinstance(c.args[u], int):
                s.n.add(("size comparison", c.where())); a = a | {"size"}
        return a
    def ret(s, fx, st, i):
        v = fx.val(st, i.args[0])
        if excluded(v, 0): return
        for k in ("open", "header", "compat", "size", "crc"):
            if k not in st.a: fx.report(st, i, "%s|0 can be returned (%s) without: %s" % (k, show(v), s.NEED[k]))

def c11(res, tier):
    res.rule("wg_check_dump returns 0 only if header, compatibility, size and checksum were all found right; wg_import_dump changes the segment only after wg_check_dump succeeded on the same file, the image was found to fit and to be free of external references; after the first change it returns 0 or a fatal code, and 0 only after a complete read with size, key and serial kept and the locks reset")
    m = replay(res, (("wg_import_dump", True),), {"validate", "fit", "external", "nonfatal", "partial", "identity", "locks", "nothing"})
    r = CheckRule(); fx = run(m, "wg_check_dump", r); res.funcs.add("wg_check_dump")
    for c, w in sorted(r.n): res.obligation(1, "%s at %s" % (c, w), kind="validation steps")
    res.need(len(r.n), 3, "validation steps")
    for d in fx.reports: res.violation("check-" + d["msg"].split("|")[0], "wg_check_dump", d["where"], d["msg"].split("|", 1)[1], d["path"])
    r = IORule({k: v for k, v in IO.items()}, NZ); fx = run(m, "wg_import_dump", r)
    for c, w in sorted(r.sites): res.obligation(1, "%s at %s" % (c, w), kind="fallible calls of the import")
    for d in fx.reports:
        _, cid, txt = d["msg"].split("|", 2); x = m.fn("wg_import_dump").defs[int(cid)]
        if x.srcfunc().startswith("show_"): continue
        res.violation("io-failure", "wg_import_dump: %s" % x.callee(), d["where"], txt, d["path"])
