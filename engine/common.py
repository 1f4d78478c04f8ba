"""Result collection, known findings, evidence and exit codes of a check."""
import json, os, sys, time, traceback
from ir import VERIF, REPO, Broken

class Result:
    def __init__(s, prop):
        s.prop = prop; s.viol = []; s.obl = 0; s.ok = 0; s.funcs = set(); s.samples = []
        s.rules = []; s.counts = {}; s.notes = []; s.units = set(); s.configs = set()
    def module(s, m):
        s.units |= set(m.units); s.configs.add(m.cfg)
    def rule(s, text):
        if text not in s.rules: s.rules.append(text)
    def obligation(s, n=1, sample=None, kind=None):
        s.obl += n; s.ok += n
        if kind: s.counts[kind] = s.counts.get(kind, 0) + n
        if sample and len(s.samples) < 40: s.samples.append(sample)
    def violation(s, rule, instance, where, msg, path=None, new_obligation=False):
        """instance: stable identity (function + construct), used by the known findings"""
        for v in s.viol:
            if v["rule"] == rule and v["instance"] == instance and v["where"] == where: return
        if new_obligation: s.obl += 1
        else: s.ok = max(0, s.ok - 1)
        s.viol.append(dict(rule=rule, instance=instance, where=where, msg=msg, path=path or []))
    def need(s, n, minimum, what):
        if n < minimum and not s.viol:
            raise Broken("%s: only %d instances of '%s' found, at least %d expected: the rule no longer matches the code" % (s.prop, n, what, minimum))

def known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)) if k.get("property") == prop and k.get("status") == "known"]

def finish(res, tier, t0, level="other"):
    kn = known(res.prop); rep = []; listed = []
    for v in res.viol:
        hit = None
        for k in kn:
            if k["rule"] == v["rule"] and k["instance"] == v["instance"]: hit = k
        if hit: listed.append((v, hit))
        else: rep.append(v)
    evd = os.environ.get("WDB_EVDIR") or os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    ev = dict(property=res.prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=level,
      coverage=dict(explanation="Static analysis of the current source (clang -> LLVM IR, helpers inlined, path-sensitive dataflow). "
          "An obligation is one rule instance (a call site, path end, store or case) the rule had to establish; discharged are those established.",
          obligations=res.obl, discharged=res.ok, functions_analysed=len(res.funcs), functions=sorted(res.funcs)[:400],
          rules=res.rules, instances=res.counts, units=sorted(res.units), configurations=sorted(res.configs), samples=res.samples,
          known_findings=[dict(rule=v["rule"], instance=v["instance"], where=v["where"]) for v, _ in listed],
          violations=rep),
      assumptions=res.notes, wall_s=round(time.time() - t0, 2), violations=len(rep))
    with open(os.path.join(evd, res.prop + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
    rp = os.path.join(evd, res.prop + ".report.txt")
    with open(rp, "w") as f:
        for v in rep:
            f.write("%s: rule %s violated\n  instance: %s\n  %s\n" % (v["where"], v["rule"], v["instance"], v["msg"]))
            if v["path"]: f.write("  path: %s\n" % " -> ".join(x if isinstance(x, str) else "%s=%s" % tuple(x) for x in v["path"]))
            f.write("\n")
    print("%s: %d obligations, %d discharged, %d functions, %.1fs" % (res.prop, res.obl, res.ok, len(res.funcs), time.time() - t0))
    seen = set()
    for v, k in listed:
        key = (k["rule"], k["instance"])
        if key in seen: continue
        seen.add(key)
        print("KNOWN-FINDING: property=%s %s [%s; %s]" % (res.prop, k.get("what", v["msg"]), v["instance"], v["where"]))
    if rep:
        for v in rep[:20]: print("  %s: [%s] %s -- %s" % (v["where"], v["rule"], v["instance"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (res.prop, rp))
        return 1
    return 0

def pmap(f, items, procs=8):
    """f over items in forked processes (results are pickled); falls back to serial"""
    import multiprocessing as mp, pickle
    if len(items) <= 1: return [f(x) for x in items]
    ctx = mp.get_context("fork")
    global _PF
    _PF = f
    with ctx.Pool(min(procs, len(items))) as p:
        return p.map(_pcall, items, chunksize=1)
def _pcall(x): return _PF(x)
