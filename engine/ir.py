"""Building /repo's sources to LLVM bitcode, normalising them with irdump and
loading the result.  Everything is made from the working tree on every run, in a
scratch directory that is removed again."""
import json, os, subprocess, sys, tempfile, shutil, hashlib, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("WDB_REPO", "/repo"))
CLANG = "/usr/lib/llvm-18/bin/clang"

class Broken(Exception):
    """The analysis cannot give an answer (vanished anchor, build failure...)."""

def irdump_path():
    src = os.path.join(VERIF, "engine", "irdump.cpp")
    bdir = os.path.join(VERIF, "build")
    os.makedirs(bdir, exist_ok=True)
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(bdir, "irdump-" + h)
    if os.path.exists(exe):
        return exe
    with open(os.path.join(bdir, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        flags = subprocess.check_output(["/usr/lib/llvm-18/bin/llvm-config", "--cxxflags"], text=True).split()
        subprocess.check_call(["/usr/lib/llvm-18/bin/clang++", "-O1", "-w", src, "-o", exe + ".tmp"] + flags +
                              ["-std=c++17", "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
        os.rename(exe + ".tmp", exe)
    return exe

DB = ["dballoc", "dbcompare", "dbdata", "dbdump", "dbhash", "dbindex", "dbjson", "dblock",
      "dblog", "dbmem", "dbmpool", "dbquery", "dbschema", "dbutil"]

def py_include():
    for v in ("3.12", "3.11", "3.13", "3.10"):
        d = "/usr/include/python" + v
        if os.path.exists(d + "/Python.h"):
            return d
    raise Broken("Python.h not found")

def unit_sources(units):
    """units: names of groups or of files relative to REPO"""
    out = []
    for u in units:
        if u == "db":
            # every C file of Db, so that a new file is analysed too
            out += sorted("Db/" + f for f in os.listdir(os.path.join(REPO, "Db")) if f.endswith(".c"))
        elif u == "json":
            out.append("json/yajl_all.c")
        else:
            out.append(u)
    return out

class Instr:
    __slots__ = ("id", "op", "ty", "args", "d", "bb", "ix", "fn", "loc")
    def __init__(s, d, fn, bb, ix):
        s.d = d; s.id = d["i"]; s.op = d["o"]; s.ty = d["t"]; s.args = d.get("a", [])
        s.fn = fn; s.bb = bb; s.ix = ix; s.loc = d.get("l")
    @property
    def fld(s): return s.d.get("fld", "")
    def callee(s):
        f = s.d.get("f")
        if isinstance(f, list) and f[0] == "f": return f[1]
        return None
    def where(s, outer=True):
        """file:line of the instruction (innermost source position, plus the call chain)"""
        l = s.loc
        if not l: return "%s:?" % s.fn.file
        r = "%s:%d (%s)" % (rel(l[1]), l[2], l[0])
        if outer and len(l) > 3:
            r += "".join(" < %s:%d (%s)" % (rel(l[i+1]), l[i+2], l[i]) for i in range(3, len(l), 3))
        return r
    def line(s):
        l = s.loc
        return "%s:%d" % (rel(l[1]), l[2]) if l else "?"
    def srcfunc(s):
        return s.loc[0] if s.loc else s.fn.srcname
    def outerline(s):
        l = s.loc
        return "%s:%d" % (rel(l[-2]), l[-1]) if l else "?"
    def __repr__(s):
        return "<%s %%%d %s %s>" % (s.op, s.id, s.callee() or "", s.line())

def rel(p):
    p = os.path.normpath(p)
    return p[len(REPO)+1:] if p.startswith(REPO + "/") else p

class Func:
    def __init__(s, d):
        s.name = d["name"]; s.srcname = d["srcname"]; s.file = rel(d["file"]); s.line = d["line"]
        s.internal = d["internal"]; s.addrtaken = d["addrtaken"]; s.ret = d["ret"]
        s.args = d["args"]; s.nargs = len(d["args"])
        s.blocks = [[Instr(x, s, b, k) for k, x in enumerate(blk)] for b, blk in enumerate(d["blocks"])]
        s.defs = {}
        for blk in s.blocks:
            for i in blk: s.defs[i.id] = i
        s.succ = []
        for blk in s.blocks:
            t = blk[-1]
            if t.op == "br": ss = list(t.d["s"])
            elif t.op == "switch": ss = [t.d["def"]] + [c[1] for c in t.d["cases"]]
            else: ss = []
            s.succ.append(ss)
        s.pred = [[] for _ in s.blocks]
        for b, ss in enumerate(s.succ):
            for t in set(ss): s.pred[t].append(b)
        s._dom = None; s._reach = None
    def instrs(s):
        for blk in s.blocks:
            for i in blk: yield i
    def calls(s, *names):
        for i in s.instrs():
            if i.op == "call" and (not names or i.callee() in names): yield i
    def uses(s):
        if not hasattr(s, "_uses"):
            u = {}
            for i in s.instrs():
                for a in i.args:
                    for x in ssa_ids(a): u.setdefault(x, []).append(i)
                f = i.d.get("f")
                if isinstance(f, int): u.setdefault(f, []).append(i)
            s._uses = u
        return s._uses
    def rpo(s):
        if not hasattr(s, "_rpo"):
            seen = {0}; order = []; st = [(0, iter(s.succ[0]))]
            while st:
                b, it = st[-1]
                for t in it:
                    if t not in seen:
                        seen.add(t); st.append((t, iter(s.succ[t]))); break
                else:
                    order.append(b); st.pop()
            s._rpo = order[::-1]
        return s._rpo
    def dom(s):
        """immediate dominators"""
        if s._dom is None:
            rpo = s.rpo(); num = {b: i for i, b in enumerate(rpo)}
            idom = {0: 0}; ch = True
            while ch:
                ch = False
                for b in rpo[1:]:
                    ps = [p for p in s.pred[b] if p in idom]
                    n = ps[0]
                    for p in ps[1:]:
                        x = n; y = p
                        while x != y:
                            while num[x] > num[y]: x = idom[x]
                            while num[y] > num[x]: y = idom[y]
                        n = x
                    if idom.get(b) != n: idom[b] = n; ch = True
            s._dom = idom
        return s._dom
    def dominates(s, a, b):
        d = s.dom()
        if b not in d: return True
        while True:
            if a == b: return True
            if b == 0: return False
            b = d[b]
    def backedges(s):
        if not hasattr(s, "_back"):
            s._back = {(b, t) for b in s.rpo() for t in s.succ[b] if s.dominates(t, b)}
        return s._back
    def reach(s):
        """reach[b]: blocks reachable from b (including b)"""
        if s._reach is None:
            n = len(s.blocks); r = [None]*n
            for b in range(n):
                seen = {b}; st = [b]
                while st:
                    x = st.pop()
                    for t in s.succ[x]:
                        if t not in seen: seen.add(t); st.append(t)
                r[b] = seen
            s._reach = r
        return s._reach

def ssa_ids(a):
    if isinstance(a, int) and not isinstance(a, bool): return (a,)
    return ()

class Module:
    def __init__(s, d, units, cfg):
        s.funcs = {}
        for f in d["functions"]: s.funcs[f["name"]] = Func(f)
        s.globals = {g[0]: g for g in d["globals"]}
        s.structs = d["structs"]; s.units = units; s.cfg = cfg
    def fn(s, name):
        if name not in s.funcs: raise Broken("anchor function %s not found in the current tree" % name)
        return s.funcs[name]

def compile_units(srcs, cfg, tmp, defs=()):
    inc = ["-I" + os.path.join(VERIF, "configs", cfg, "Db"), "-I" + os.path.join(REPO, "Db"),
           "-I" + os.path.join(VERIF, "configs", cfg)]
    outs = []
    if any(x.startswith("Server/") for x in srcs):      # installed name of the header directory
        os.makedirs(os.path.join(tmp, "inc")); os.symlink(os.path.join(REPO, "Db"), os.path.join(tmp, "inc", "whitedb"))
        inc.append("-I" + os.path.join(tmp, "inc"))
    def one(src):
        o = os.path.join(tmp, src.replace("/", "_") + ".bc")
        extra = []
        if src.startswith("Python/"): extra = ["-I" + py_include()]
        r = subprocess.run([CLANG, "-std=gnu17", "-fcommon", "-g", "-O1", "-Xclang", "-disable-llvm-passes", "-Xclang", "-disable-lifetime-markers", "-emit-llvm", "-c", "-w",
                            "-fno-discard-value-names"] + list(defs) + inc + extra +
                           [os.path.join(REPO, src), "-o", o], capture_output=True, text=True, cwd="/")
        if r.returncode: raise Broken("cannot compile %s:\n%s" % (src, r.stderr[:2000]))
        return o
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, srcs))

_cache = {}
def load(units=("db", "json"), cfg="main", keep="std", extra_keep=(), force=(), defs=()):
    """keep: 'std'  = functions named in tables/boundary.txt stay calls, everything else
                      (static helpers, helpers added later) is inlined into its callers
             'ext'  = every function with external linkage stays a call
             'all'  = nothing is inlined except `force`
             'none' = only extra_keep stays"""
    k = (tuple(units), cfg, keep, tuple(extra_keep), tuple(force), tuple(defs))
    if k in _cache: return _cache[k]
    exe = irdump_path()
    tmp = tempfile.mkdtemp(prefix="wdbsa.")
    try:
        srcs = unit_sources(units)
        bcs = compile_units(srcs, cfg, tmp, defs)
        kf = os.path.join(tmp, "keep")
        lines = []
        if keep == "ext": lines.append("*")
        elif keep == "all": lines.append("**")
        elif keep == "std":
            lines += [l.split()[0] for l in open(os.path.join(VERIF, "tables", "boundary.txt")) if l.strip() and not l.startswith("#")]
        lines += list(extra_keep) + ["-" + f for f in force]
        open(kf, "w").write("\n".join(lines) + "\n")
        out = os.path.join(tmp, "out.json")
        r = subprocess.run([exe, out, kf] + bcs, capture_output=True, text=True)
        if r.returncode: raise Broken("irdump failed: " + r.stderr[:2000])
        d = json.load(open(out))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    m = Module(d, srcs, cfg)
    _cache[k] = m
    return m
