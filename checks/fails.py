"""Failure propagation: on every path on which a step reported failure the caller reports failure too."""
import re
import ir
from flow import Flow, Fork, const, isconst, mk, meet, empty, TOP
from ir import Broken
from common import pmap
from lib import FAILV, OKV, within, NZ

FORGET = 0
class FailRule:
    """steps: callee -> (range of failing results, range of other results); fail: range of failing results of the
    function itself.  State: None, or the call that failed first.  ok: None, or what must have happened on success."""
    def __init__(s, steps, fail, forgive=None):
        s.steps = steps; s.fail = fail; s.sites = set(); s.rets = 0; s.forgive = forgive
    def start(s, fx): return [None]
    def step(s, fx, st, i):
        if i.op != "call": return None
        c = i.callee()
        r = s.steps.get(c)
        if r is None or st.a is not None: return None
        if callable(r): r = r(fx, st, i)
        if r is None: return None
        s.sites.add((c, i.where()))
        ok = r[1] if isinstance(r[1], list) else [r[1]]
        return [Fork(None, k) for k in ok] + [Fork((i.id,), r[0])]
    def ret(s, fx, st, i):
        s.rets += 1
        if st.a is None: return
        v = fx.val(st, i.args[0]) if i.args else TOP
        if within(v, s.fail): return
        d = fx.fn.defs[st.a[0]]
        fx.report(st, i, "%s|%s|%s|the failure of %s (%s) is not reported: the result can be %s" % (d.callee(), d.srcfunc(), d.where(), d.callee(), d.where(), show(v)))

def show(v):
    if isconst(v): return str(v[0])
    return "any value" if v == TOP else "between %s and %s%s" % (v[0], v[1], ", not " + str(sorted(v[2])) if v[2] else "")

def rng(kind):
    # failure codes are small numbers (results are kept in int variables)
    if kind == "nz": return ((-1000, 1000, frozenset([0])), OKV[kind])
    if kind in ("neg", "ltm1"): return (meet(FAILV[kind], (-1000, None, frozenset())), OKV[kind])
    return (FAILV[kind], OKV[kind])

def hashop(k):
    """the hash index helpers: when removing a row, a value that cannot be hashed or is not there is no failure"""
    def f(fx, st, i):
        op = fx.val(st, i.args[k])
        if isconst(op) and op[0] == 2: return ((-1000, -3, frozenset()), (-2, None, frozenset()))
        return rng("neg")
    return f
REMOVED = ((-1000, -3, frozenset()), (-2, None, frozenset()))
RETRY = ((-1000, -1, frozenset([-15])), [const(0), const(-15)])

# what the internal steps of the write operations report
STEPS = {}
for names, kind in (
    ("wg_alloc_gints wg_alloc_fixlen_object wg_create_raw_record wg_create_record wg_create_array wg_create_object wg_create_triple find_create_longstr", "zero"),
    ("wg_encode_int wg_encode_double wg_encode_str wg_encode_xmlliteral wg_encode_uri wg_encode_blob wg_encode_anonconst wg_encode_uniblob "
     "wg_encode_unistr encode_unistr_nolog wg_encode_char wg_encode_date wg_encode_time wg_encode_fixpoint wg_encode_var wg_encode_null wg_encode_external_data", "illegal"),
    ("wg_log_create_record wg_log_delete_record wg_log_encval wg_log_encode wg_log_set_field wg_log_set_meta write_log_buffer "
     "wg_set_field free_field_encoffset "
     "remove_backlink_index_entries restore_backlink_index_entries wg_remove_from_strhash "
     "wg_delete_record delete_record_recursive wg_create_hash wg_create_multi_index wg_create_index wg_init_locks wg_init_db_memsegment remove_index_template create_ttree_index create_hash_index ttree_add_row", "nz"),
    ("wg_index_add_field wg_index_add_rec wg_index_del_field wg_index_del_rec", "ltm1"),
    ("wg_set_new_field wg_free_object hash_add_row wg_idxhash_store", "neg"), ("wg_decode_for_hashing", "lt1")):
    for n in names.split(): STEPS[n] = kind
STEPS.update({"hash_recurse": hashop(7), "hash_extend_prefix": hashop(8), "wg_idxhash_remove": REMOVED, "hash_remove_row": REMOVED,
              "ttree_remove_row": REMOVED, "wg_update_atomic_field": RETRY})
FAILV.setdefault("lt1", (None, 0, frozenset())); OKV.setdefault("lt1", (1, None, frozenset()))

def failing(k):
    return FAILV[k] if isinstance(k, str) else FAILV["neg"] if callable(k) else k[0]

def analyse(m, names, steps, fails, **kw):
    def one(n):
        r = FailRule({k: rng(v) if isinstance(v, str) else v for k, v in steps.items() if k != "" }, failing(fails[n]))
        fx = Flow(m.fn(n), r, **kw); fx.run()
        return n, sorted(r.sites), r.rets, [(d["msg"], d["where"], d["path"]) for d in fx.reports]
    return pmap(one, names)

def c17(res, tier):
    res.rule("on every path of a write operation on which an internal step (journal, allocation, index update, reference update, string release, nested write call) returned its failure value, the operation returns its own failure value")
    m = ir.load(("db", "json"), "main"); res.module(m)
    for n in STEPS:
        if n.startswith("wg_") and n in m.funcs: pass
    names = {}
    for f in m.funcs.values():
        if f.file.startswith("json/") or f.file == "Db/dblog.c" and f.name not in STEPS: continue
        if not any(c.callee() in STEPS for c in f.calls()): continue
        k = STEPS.get(f.name)
        if k is None and f.ret == "ptr": k = "zero"
        if k is None and f.ret == "i64" and f.name.startswith(("wg_parse_and_encode", "wg_encode")): k = "illegal"
        if k is None and f.ret in ("i64", "i32") and re.search("_cb$", f.name): k = "zero"
        if k is None and f.ret in ("i64", "i32"): k = "nz"
        if k is None: continue
        names[f.name] = k
    n = 0
    for name, sites, rets, reps in analyse(m, sorted(names), STEPS, names):
        res.funcs.add(name); n += len(sites)
        for c, w in sites: res.obligation(1, "%s: %s at %s" % (name, c, w), kind="fallible steps")
        for msg, where, path in reps:
            c, src, cw, msg = msg.split("|", 3)
            res.violation("failure-lost", "%s: %s" % (src, c), where, "%s (in %s)" % (msg, name), path)
    res.need(n, 60, "fallible steps")
