"""C26: no standard output, no process termination in the library."""
import ir
from flow import Flow, const, nonzero, isconst, excluded
from ir import Broken

OUT = {"printf", "puts", "putchar", "vprintf", "putchar_unlocked", "__printf_chk", "__vprintf_chk"}
TERM = {"exit", "_exit", "_Exit", "abort", "__assert_fail", "__assert", "quick_exit", "kill", "raise", "longjmp"}
# functions whose documented job is to write to standard output
PRINT = {"wg_print_record", "wg_print_db", "wg_print_code_version", "wg_print_header_version", "wg_mpool_print", "wg_mpool_print_aux"}
# functions that write to standard output only when the named argument is null
WHEN_NULL = {"wg_export_db_csv": 1, "wg_parse_json_file": 1, "wg_print_json_document": 1}
# diagnostics that only a failing call may print
DIAG = {"wg_print_code_version", "wg_print_header_version"}

def refs(a):
    """names of globals in an operand"""
    if isinstance(a, list):
        if a and a[0] in ("g", "f") and len(a) > 1 and isinstance(a[1], str): yield a[1]
        for x in a:
            if isinstance(x, list): yield from refs(x)

class NullRule:
    """every event happens only where argument `arg` is null"""
    def __init__(s, arg, ev): s.arg = arg; s.ev = ev; s.ok = set()
    def start(s, fx): return [0]
    def extra_live(s, a): return ()
    def step(s, fx, st, i):
        if s.ev(i):
            v = fx.kval(st, fx.leaf(s.arg))
            if isconst(v) and v[0] == 0: s.ok.add(i.id)
            else: fx.report(st, i, "writes to standard output although the caller named another destination")
        return None
    def ret(s, fx, st, i): pass

class DiagRule:
    """after a diagnostic was printed the function reports failure"""
    def __init__(s, ret): s.rt = ret
    def start(s, fx): return [0]
    def extra_live(s, a): return ()
    def step(s, fx, st, i):
        if i.op == "call" and i.callee() in DIAG: return [i.id]
        return None
    def ret(s, fx, st, i):
        if not st.a or not i.args: 
            if st.a: fx.report(st, fx.fn.defs[st.a], "version diagnostics are printed to standard output by a call that does not fail")
            return
        v = fx.kval(st, fx.key(st, i.args[0]))
        bad = not (isconst(v) and v[0] == 0) if s.rt == "ptr" else not excluded(v, 0)
        if bad: fx.report(st, fx.fn.defs[st.a], "version diagnostics are printed to standard output by a call that does not fail")

def c26(res, tier):
    res.rule("no function of Db/*.c or of the Python module calls printf/puts/putchar, refers to the stream stdout or ends the process, except: the wg_print_* and wg_mpool_print functions; wg_export_db_csv, wg_print_json_document and wg_parse_json_file on paths where the file (or callback) argument is null; version diagnostics on paths that return failure")
    groups = [(("db", "json"), "main"), (("db", "json"), "reasoner"), (("Python/wgdbmodule.c", "db", "json"), "main")]
    for units, cfg in groups:
        m = ir.load(units, cfg, keep="ext")
        res.module(m)
        n = 0
        for f in m.funcs.values():
            if f.file.startswith("json/"): continue
            if units[0].startswith("Python") and not f.file.startswith("Python"): continue
            res.funcs.add(f.name); n += 1
            def isout(i):
                if i.op == "call" and i.callee() in OUT: return True
                return any("stdout" == r for a in i.args for r in refs(a))
            sites = [i for i in f.instrs() if isout(i)]
            terms = [i for i in f.calls() if i.callee() in TERM]
            ncall = sum(1 for _ in f.calls())
            res.obligation(ncall, kind="call sites (%s)" % cfg)
            for i in terms:
                if i.srcfunc() and rel_json(i): continue
                res.violation("no-exit", "%s: %s" % (i.srcfunc(), i.callee()), i.where(), "the library ends the host process by calling %s" % i.callee())
            if f.name in WHEN_NULL and sites:
                r = NullRule(WHEN_NULL[f.name], isout); fx = Flow(f, r); fx.run()
                for d in fx.reports: res.violation("no-stdout", f.name, d["where"], d["msg"], d["path"])
                res.obligation(len(sites), "%s writes to stdout only when argument %d is null (%d sites)" % (f.name, WHEN_NULL[f.name], len(sites)))
            elif f.name not in PRINT:
                for i in sites:
                    res.violation("no-stdout", "%s: %s" % (i.srcfunc(), i.callee() or "stdout"), i.where(), "a function that is not a printing function writes to standard output")
            if f.name not in PRINT:
                for i in f.calls():
                    c = i.callee()
                    if c in PRINT and c not in DIAG:
                        res.violation("no-stdout", "%s: %s" % (i.srcfunc(), c), i.where(), "a function that is not a printing function prints to standard output through %s" % c)
                if any(i.callee() in DIAG for i in f.calls()):
                    r = DiagRule(f.ret); fx = Flow(f, r); fx.run()
                    for d in fx.reports: res.violation("no-stdout", f.name + ": diagnostics", d["where"], d["msg"], d["path"])
                    res.obligation(1, "%s prints version diagnostics only when it fails" % f.name)
            for i in f.instrs():
                # a printing function handed on as a callback
                for a in i.args:
                    for r in refs(a):
                        if (r in OUT or r in TERM) and not (i.op == "call" and i.callee() == r):
                            res.violation("no-stdout", "%s: &%s" % (i.srcfunc(), r), i.where(), "%s is passed on as a callback" % r)
        res.need(n, 100 if "Python" not in units[0] else 20, "library functions")
    res.notes.append("json/yajl (third-party parser) is not covered: its internal assertions can end the process on broken internal invariants")

def rel_json(i):
    l = i.loc
    return bool(l) and ir.rel(l[1]).startswith("json/")
