"""Run the verifier on one harness: runh.py module.bc harness [opt=val...] (debug tool)"""
import sys, time, json
sys.path.insert(0, __file__.rsplit("/", 1)[0])
sys.setrecursionlimit(20000)
import llir, execu
def main():
    bc, h = sys.argv[1:3]
    opts = {}
    for o in sys.argv[3:]:
        k, v = o.split("=")
        opts[k] = float(v) if k == "time" else int(v)
    t = time.time()
    mod = llir.Module(bc)
    e = execu.Engine(mod, opts)
    e.run("vch_" + h)
    print(f"{h}: paths={e.paths} steps={e.steps} t={time.time()-t:.1f}s solver={e.solver.stats if hasattr(e.solver,'stats') else ''}")
    for l, o in e.oblig.items():
        print("  ", l, {k: v for k, v in o.items() if v})
    for l in e.undecided[:20]:
        print("  UNDECIDED", l)
    for l, n in e.loop_limits.items():
        print("  LOOPLIMIT", l, n)
    for v in e.violations[:6]:
        print("  VIOLATION", v["label"], v["kind"])
        for w in v["where"][:5]:
            print("       at", w[0][:120], w[1], w[2])
        print("       in", [(n, k, x) for n, k, x in (v["inputs"] or [])])
    for k, n in sorted(e.forks.items(), key=lambda p: -p[1])[:12]:
        print("  fork", n, k)
    print("  covers", e.covers_seen)
main()
