"""C27: a JSON file is imported only after all of it has been accepted by the syntax check; import failures are told apart."""
import ir
from flow import Flow, Fork, const, isconst, meet, empty, TOP
from ir import Broken
from fails import FailRule, STEPS, rng
from lib import FAILV, OKV, within, NZ

NEG = FAILV["neg"]; OKALLOC = ("malloc", "calloc", "realloc", "fopen")
POS = (1, None, frozenset())

def excluded(v, c):
    lo, hi, ne = v if not isconst(v) else (v[0], v[0], frozenset())
    return lo is not None and c < lo or hi is not None and c > hi or c in ne

class Parse:
    """State: (phase, chunk, flags): phase 'in' while there can be more input, 'zero' after a read of nothing, 'end' when all
    was read, 'eof' complete; chunk: the call whose data was not parsed yet; flags: fail (why), done (completed),
    started (the parser ran), imp (the importer was called) and how the importer ended."""
    def __init__(s, importing, importers, check):
        s.importing = importing; s.importers = importers; s.check = check; s.sites = {}; s.rets = 0
    def start(s, fx): return [("in", None, None, False, False, None, False)]
    def extra_live(s, a):
        return {a[1]} if a[1] is not None else set()
    def redefine(s, fx, st, ids, keep, ins): pass
    def site(s, k, i): s.sites[k, i.id] = i.where()
    def edge(s, fx, st, t, k, truth):
        """a structure was seen: the nesting counter given to the checker is known not to be at its first value"""
        if not isinstance(truth, bool) or st.a[6]: return None
        x = fx.kt[k]
        while x[0] == "not": x = fx.kt[x[1]]
        if x[0] != "icmp": return None
        for p in x[2:4]:
            y = fx.kt[p]; d = fx.fn.defs.get(y[1]) if y[0] == "ssa" else None
            if d is not None and d.op == "load" and isinstance(d.args[0], int) and fx.kt[fx.abase(fx.key(st, d.args[0]))][0] == "alloca" and excluded(fx.kval(st, p), -1):
                return st.a[:6] + (True,)
        return None
    def step(s, fx, st, i):
        if i.op != "call": return None
        ph, ch, fail, done, started, imp, top = st.a; c = i.callee()
        def new(**k):
            d = dict(zip("ph ch fail done started imp top".split(), st.a)); d.update(k)
            return tuple(d[x] for x in "ph ch fail done started imp top".split())
        if c in ("fread", "strnlen", "strlen", "read"):
            s.site("reads", i)
            if ch is not None and not fail: fx.report(st, i, "unparsed|more input is taken before the last piece was parsed")
            full = c == "strlen"
            return [Fork(new(ph="zero" if c in ("fread", "read") else "end", ch=None), const(0)), Fork(new(ph="end" if full else "in", ch=i.id), (1, 1 << 30, frozenset()))]
        if c == "feof":
            if ph == "zero": return [Fork(new(ph="end"), (1, 1, frozenset())), Fork(new(fail=fail or ("the reading error", i.where())), const(0))]
            return [Fork(new(ph="end"), (1, 1, frozenset())), Fork(st.a, const(0))]
        if c == "ferror":
            if ph == "zero": return [Fork(new(ph="end"), const(0)), Fork(new(fail=fail or ("the reading error", i.where())), (1, 1, frozenset()))]
            return [Fork(new(fail=fail or ("the reading error", i.where())), (1, 1, frozenset())), Fork(st.a, const(0))]
        if c in OKALLOC or c == "yajl_alloc":
            s.site("setup", i)
            return [Fork(st.a, POS), Fork(new(fail=fail or ("the failure of " + c, i.where())), const(0))]
        if c in ("yajl_parse", "yajl_complete_parse", "yajl_config"):
            s.site(c, i)
            if not excluded(fx.val(st, i.args[0]), 0): fx.report(st, i, "handle|%s is given a parser that may not have been allocated" % c)
        if c == "yajl_parse":
            if ch is None:
                if not fail: fx.report(st, i, "twice|%s parses input that was not just taken" % c)
            elif not s.same(fx, st, i.args[2], ch): fx.report(st, i, "partial|%s is not given the whole piece of input that was taken" % c)
            why = fail or ("the syntax error found by yajl_parse", i.where())
            if i.id not in s.used(fx): fx.report(st, i, "ignored|the result of yajl_parse is not used")
            return [Fork(new(ch=None, started=True), const(0)), Fork(new(ch=None, started=True, fail=why), NZ)]
        if c == "yajl_complete_parse":
            if not fail:
                if ch is not None: fx.report(st, i, "unparsed|the parse is completed although the last piece of input was not parsed")
                if ph != "end": fx.report(st, i, "early|the parse is completed although the end of the input was not reached")
            return [Fork(new(done=True, started=True), const(0)), Fork(new(fail=fail or ("the error found by yajl_complete_parse", i.where()), started=True), NZ)]
        if c in s.importers:
            s.site("imports", i)
            if fail: fx.report(st, i, "failed|the import is started after %s (%s)" % fail)
            elif not done: fx.report(st, i, "unchecked|the import is started before the complete input was checked")
            elif not top: fx.report(st, i, "toplevel|the import is started without a top-level structure having been seen")
            return [Fork(new(imp="ok"), const(0)), Fork(new(imp="bad"), (-1000, -1, frozenset()))]
        return None
    def used(s, fx):
        if not hasattr(s, "_used"): s._used = {a for i in fx.fn.instrs() for a in i.args if isinstance(a, int)}
        return s._used
    def same(s, fx, st, o, ch):
        for _ in range(6):
            if o == ch: return True
            d = fx.fn.defs.get(o) if isinstance(o, int) else None
            if d is None: break
            if d.op in ("trunc", "sext", "zext"): o = d.args[0]
            else: break
        def strip(k):
            while fx.kt[k][0] in ("trunc", "sext", "zext", "cast"): k = fx.kt[k][1]
            return k
        return fx.kleaf[fx.key(st, o)] == {ch} or strip(fx.key(st, o)) == strip(fx.key(st, ch))
    def ret(s, fx, st, i):
        s.rets += 1
        ph, ch, fail, done, started, imp, top = st.a; v = fx.val(st, i.args[0])
        if imp:
            if imp == "bad" and not within(v, NEG): fx.report(st, i, "lost|the failure of the import is not reported")
            if imp == "ok" and v != const(0): fx.report(st, i, "wrong|a successful import is reported as a failure")
            return
        if fail:
            if not within(v, NEG): fx.report(st, i, "lost|%s (%s) is not reported" % fail); return
            if s.importing and started and v != const(-2): fx.report(st, i, "distinct|%s (%s), which can leave records behind, is not reported with the code for that" % fail)
            if not s.importing and v != const(-1): fx.report(st, i, "distinct|%s (%s), which changes nothing, is reported with the code for a changed database" % fail)
            return
        if not within(v, NEG):
            if s.importers and not s.importing: fx.report(st, i, "dropped|success is reported although nothing was imported")
            elif not done: fx.report(st, i, "unchecked|success is reported before the complete input was parsed")
            elif s.check and not top: fx.report(st, i, "toplevel|success is reported without a top-level structure having been seen")

def tables(m, f):
    """callback tables given to the parser"""
    out = []
    for i in f.calls("yajl_alloc"):
        a = i.args[0]
        if not (isinstance(a, list) and a[0] == "g" and a[1] in m.globals): raise Broken("%s: the callbacks given to the parser are not a known table" % f.name)
        out.append((a[1], [x for x in m.globals[a[1]][3] if x in m.funcs]))
    return out

WRITES = ("wg_create_array", "wg_create_object", "wg_create_kvpair", "wg_set_field", "wg_encode_str", "wg_encode_int", "wg_encode_double", "wg_create_record")

def wr(f): return any(True for _ in f.calls(*WRITES))

class Depth:
    """largest nesting a callback accepts (returns non-zero for)"""
    def __init__(s, field): s.field = field; s.top = -10; s.rets = 0
    def start(s, fx): return [None]
    def step(s, fx, st, i): return None
    def ret(s, fx, st, i):
        v = fx.val(st, i.args[0])
        if isconst(v) and v[0] == 0: return
        st = st.copy()
        if not fx.refine_val(st, fx.key(st, i.args[0]), NZ): return
        s.rets += 1
        u = None
        for q, (k, f) in st.mem.items():
            if (f or "") == s.field or s.field is None and fx.abase(q) == q and fx.kt[q] == ("ssa", 0) or s.field is None and fx.kt[q] == ("ssa", 0):
                x = fx.kval(st, k); hi = x[0] if isconst(x) else x[1]
                if hi is not None: u = hi if u is None else max(u, hi)
        s.top = None if u is None or s.top is None else max(s.top, u)

def c27(res, tier):
    res.rule("import: on every path to the document importer each piece of input read was parsed whole, the parse was completed at the end of the input, a top-level structure was seen, and nothing failed")
    res.rule("result: a failure before the import gives -1, one during the import -2; success only after the whole input was parsed and, for a file, imported")
    res.rule("callbacks: a callback of the importer on whose path a step fails returns 0, which stops the import")
    res.rule("depth: every nesting the checker accepts fits the importer's stack, and the importer's own bound keeps it inside the array")
    m = ir.load(("db",), "main", extra_keep=("wg_parse_json_document", "wg_parse_json_fragment", "wg_parse_json_param")); res.module(m)
    P = sorted(f.name for f in m.funcs.values() if f.file.endswith("Db/dbjson.c") and any(True for _ in f.calls("yajl_alloc")))
    imp = {}; tabs = {}
    for n in P:
        t = tables(m, m.fn(n)); cbs = {c for _, l in t for c in l}
        for x, l in t: tabs[x] = l
        imp[n] = any(wr(m.fn(c)) for c in cbs)
    importers = {n for n in imp if imp[n]}
    res.need(len(importers), 3, "importing functions"); res.need(len(P) - len(importers), 2, "checking functions")
    for n in P:
        f = m.fn(n); ims = {c.callee() for c in f.calls() if c.callee() in importers}
        r = Parse(imp[n], ims, not imp[n]); fx = Flow(f, r, pure=("strnlen", "feof", "ferror", "fread")); fx.run(); res.funcs.add(n)
        for (k, _), w in r.sites.items(): res.obligation(1, "%s: %s at %s" % (n, k, w), kind=k)
        if not r.rets or not any(k == "yajl_parse" for k, _ in r.sites) or not any(k == "yajl_complete_parse" for k, _ in r.sites): raise Broken("%s: no parse was found" % n)
        res.obligation(r.rets, "%s: ways of returning" % n, kind="results")
        for d in fx.reports:
            k, msg = d["msg"].split("|", 1)
            res.violation(k, "%s: %s" % (n, msg), d["where"], msg + " (in %s)" % n, d["path"])
    # every caller that checks before importing uses a parser function only
    ic = sorted({c for t, l in tabs.items() for c in l if any(wr(m.fn(x)) for x in l)})
    cc = sorted({c for l in tabs.values() for c in l} - set(ic))
    steps = {k: v for k, v in STEPS.items()}
    for k in ("malloc", "calloc", "wg_create_kvpair"): steps[k] = "zero"
    for c in ic:
        r = FailRule({k: rng(v) if isinstance(v, str) else v for k, v in steps.items()}, const(0))
        fx = Flow(m.fn(c), r); fx.run(); res.funcs.add(c)
        for x, w in sorted(r.sites): res.obligation(1, "%s: %s at %s" % (c, x, w), kind="import steps")
        for d in fx.reports: res.violation("continued", "%s: %s" % (c, d["msg"].split("|")[0]), d["where"], d["msg"].split("|", 3)[3] + " (in %s): the import goes on" % c, d["path"])
    # nesting
    ent = base = off = None
    for c in ic:
        for i in m.fn(c).instrs():
            if i.op == "getelementptr" and (i.fld or "").startswith("parser_context."):
                if i.fld == "parser_context.stack_ptr": off = i.d["off"]
                elif i.d.get("vo") and i.d["vo"][0][1] >= 8: ent, base = i.d["vo"][0][1], min(base if base is not None else 1 << 30, i.d["off"])
    tops = {}
    for c in ic:
        d = Depth("parser_context.stack_ptr"); Flow(m.fn(c), d).run()
        if d.top not in (None, -10): tops[c] = (d.top, [i for i in m.fn(c).instrs() if i.op == "store" and i.fld == "parser_context.stack_ptr"])
    opens = [c for c in tops if tops[c][1]]
    if not opens or ent is None or off is None: raise Broken("the importer's stack was not recognised")
    size = (off - base) // ent
    for c in sorted(tops):
        res.obligation(1, "%s: the stack pointer is at most %d, the stack has %d entries" % (c, tops[c][0], size), kind="nesting")
        if tops[c][0] >= size: res.violation("stack", "%s: the importer's stack can be overrun" % c, m.fn(c).file, "%s accepts a nesting of %d but the stack has %d entries" % (c, tops[c][0] + 1, size))
    lim = min(tops[c][0] for c in opens) + 1; seen = 0
    for c in cc:
        if not any(i.op == "add" for i in m.fn(c).instrs()): continue
        d = Depth(None); Flow(m.fn(c), d).run(); res.funcs.add(c)
        rejects = any(isinstance(a, list) and a[0] == "c" and a[1] == 0 for i in m.fn(c).instrs() if i.op in ("ret", "phi", "select") for a in i.args) or any(i.op == "zext" for i in m.fn(c).instrs())
        pops = any(i.op == "add" and any(isinstance(a, list) and a[0] == "c" and a[1] == -1 for a in i.args) for i in m.fn(c).instrs()) or any(i.op == "sub" for i in m.fn(c).instrs())
        if pops and not rejects: continue
        seen += 1
        res.obligation(1, "%s: accepts a nesting of at most %s, the importer %d" % (c, d.top, lim), kind="nesting")
        if d.top is None or d.top > lim: res.violation("nesting", "%s: accepts more than the importer" % c, m.fn(c).file, "the syntax check accepts %s but the importer only a nesting of %d" % ("any nesting" if d.top in (None, -10) else "a nesting of %d" % d.top, lim))
    if not seen: res.violation("nesting", "no nesting check", "Db/dbjson.c", "no callback of the syntax check limits the nesting; the importer accepts only %d" % lim)
