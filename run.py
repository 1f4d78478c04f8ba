#!/usr/bin/env python3
"""run.py PROPERTY: decide one property on /repo's current working tree."""
import sys, os, time, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine")); sys.path.insert(0, os.path.join(HERE, "checks"))
sys.setrecursionlimit(10000)
sys.dont_write_bytecode = True
def main():
    import common, ir
    prop = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2: tier = sys.argv[2]
    t0 = time.time()
    res = common.Result(prop)
    try:
        mod, fn = TABLE[prop]
        getattr(importlib.import_module(mod), fn)(res, tier)
        if res.obl == 0: raise ir.Broken("no rule instance was found")
    except ir.Broken as e:
        print("ANALYSIS-BROKEN %s: %s" % (prop, e)); return 3
    except Exception:
        traceback.print_exc(); print("ANALYSIS-BROKEN %s" % prop); return 3
    return common.finish(res, tier, t0)
TABLE = {
 "C05": ("txn", "c05"),
 "C08": ("files", "c08"), "C09": ("files", "c09"), "C10": ("files", "c10"), "C11": ("files", "c11"),
 "C18": ("data", "c18"), "C19": ("data", "c19"), "C20": ("data", "c20"), "C29": ("data", "c29"),
 "C24": ("query", "c24"),
 "C25": ("effects", "c25"),
 "C21": ("atomic", "c21"),
 "C17": ("fails", "c17"),
 "C13": ("owner", "c13"),
 "C06": ("journal", "c06"), "C07": ("journal", "c07"),
 "C15": ("apiargs", "c15"),
 "C26": ("stdio", "c26"),
    "C22": ("intwidth", "c22"),
    "C27": ("jsonimp", "c27"),
 "C14": ("alloc", "c14"),
 "C12": ("attach", "c12"), "C16": ("codec", "c16"), "C33": ("codec", "c33"),
 "C30": ("pyref", "c30"), "C31": ("pyref", "c31"),
 "C01": ("locks", "c01"), "C02": ("locks", "c02"), "C03": ("locks", "c03"), "C04": ("locks", "c04"),
}
if __name__ == "__main__": sys.exit(main())
