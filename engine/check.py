#!/usr/bin/env python3-vt
"""check.py <property>: verify all contracts of a property against /repo's current source.

exit 0: every obligation discharged (or, for parts outside the verifier's reach, nothing found by the bounded stand-in)
exit 1: VIOLATION line
exit 2: no answer
"""
import glob
import json
import multiprocessing as mp
import os
import queue
import re
import subprocess
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import build

VERIF = build.VERIF


def parse_contract(path):
    src = open(path).read()
    hs = re.findall(r"^VC_HARNESS\((\w+)\)", src, re.M)
    opts = {h: {} for h in hs}
    for m in re.finditer(r"^// vc-opts (\S+):(.*)$", src, re.M):
        for h in (hs if m.group(1) == "*" else [m.group(1)]):
            for kv in m.group(2).split():
                k, v = kv.split("=")
                opts[h][k] = float(v) if "." in v else int(v)
    global BOUNDS
    BOUNDS = dict(re.findall(r"^// vc-bound (\w+): (.*)$", src, re.M))
    assert set(BOUNDS) <= set(hs), BOUNDS
    return hs, opts


def verify_one(bc, h, opts, out):
    try:
        import llir
        import execu
        import gc
        gc.disable()
        t = time.time()
        mod = llir.Module(bc)
        e = execu.Engine(mod, opts)
        e.run("vch_" + h)
        st = e.solver.stats
        fns = sorted({mod.funcs[n].demangled for n in e.fns if "TagParser::" in mod.funcs[n].demangled.split("(")[0]})
        repl = sorted({mod.funcs[n].demangled for n in e.replaced_used})
        out.put(dict(harness=h, paths=e.paths, steps=e.steps, time=time.time() - t, oblig=e.oblig, undecided=e.undecided[:40], n_undecided=len(e.undecided),
                     loop_limits=[[list(k), n] for k, n in e.loop_limits.items()], violations=e.violations, covers=sorted(e.covers_seen),
                     solver=dict(queries=st.queries, time=st.time, backend=st.backend, cached=st.cached, sat=st.sat, unsat=st.unsat, unknown=st.unknown),
                     fns=fns, replaced=repl, models=sorted(mod.funcs[n].demangled for n in e.models_used), opaque=sorted(e.bi.opaque_used),
                     inv=list(getattr(e, "inv_report", [])), bounded=e.bounded))
    except BaseException as x:
        out.put(dict(harness=h, error=f"{x!r}\n{traceback.format_exc()[-1500:]}"))


def run_all(bc, hs, opts, deadline):
    res = {}
    todo = list(hs)
    live = {}
    ctx = mp.get_context("fork")
    while todo or live:
        while todo and len(live) < build.NPROC:
            h = todo.pop(0)
            q = ctx.Queue()
            o = dict(time=max(20.0, deadline - time.time() - 30))
            o.update(opts[h])
            if deadline - time.time() < o["time"]:
                o["time"] = max(10.0, deadline - time.time())
            p = ctx.Process(target=verify_one, args=(bc, h, o, q))
            p.start()
            live[h] = (p, q, time.time() + o["time"] + 120)
        for h, (p, q, end) in list(live.items()):
            try:
                res[h] = q.get(timeout=0.05)
                p.join(5)
                if p.is_alive():
                    p.kill()
                del live[h]
            except queue.Empty:
                if not p.is_alive() or time.time() > end:
                    try:
                        res[h] = q.get(timeout=0.5)
                    except queue.Empty:
                        res[h] = dict(harness=h, error="verifier process died or ran out of time")
                    p.kill()
                    del live[h]
    return res


def sel_inputs(v):
    return v.get("inputs") or []


def write_replay(path, prop, h, v, extra=""):
    with open(path, "w") as f:
        f.write(f"harness {h}\n")
        for n, k, x in sel_inputs(v):
            if k == "u":
                f.write(f"u {n} {x}\n")
            else:
                f.write(f"b {n} " + " ".join(f"{i}:{b}" for i, b in x.items()) + "\n")
        f.write(f"# property {prop}\n# obligation: {v.get('label')} ({v.get('kind')})\n")
        for w in v.get("where") or []:
            f.write(f"#   at {w[0]} {w[1]}:{w[2]}\n")
        f.write(extra)


SAN = re.compile(r"ERROR: AddressSanitizer|runtime error:|Assertion .* failed|__glibcxx_assert")
OOM = re.compile(r"allocation-size-too-big|out of memory|out-of-memory|exceeds maximum supported size|failed to allocate")


def replay(exe, path):
    """True (fails natively), False (passes), None (inconclusive)"""
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=0",
               UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1")
    try:
        r = subprocess.run([exe, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=60)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    out = r.stdout.decode("latin1")
    if OOM.search(out):
        return None, out
    if r.returncode == 0:
        return False, out
    if r.returncode in (77, 78):
        return None, out
    return True, out


def search(exe, h, seed, secs):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1")
    try:
        r = subprocess.run([exe, "search", h, str(seed), str(secs)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=secs + 60)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    out = r.stdout.decode("latin1")
    m = re.search(r"FOUND seed (\d+)", out)
    if r.returncode == 1 and m and not OOM.search(out):
        return int(m.group(1)), out
    return None, out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = sys.argv[2:]
    t0 = time.time()
    budget = 700.0 if tier == "quick" else 3000.0
    contract = f"{VERIF}/contracts/{prop}.cpp"
    hs, opts = parse_contract(contract)
    if only:
        hs = [h for h in hs if h in only]
    known = [k for k in json.load(open(VERIF + "/known_findings.json"))["findings"] if k["property"] == prop]
    kn_h = {k["harness"]: k for k in known}
    try:
        bc = build.ir_module(contract, ["vch_" + h for h in hs])
    except build.BuildError as e:
        print(f"NO ANSWER: cannot build the verified program\n{e}")
        return 2
    tb = time.time() - t0
    res = run_all(bc, hs, opts, t0 + budget)
    os.unlink(bc)
    os.makedirs(f"{VERIF}/replay", exist_ok=True)
    for f in glob.glob(f"{VERIF}/replay/{prop}.*"):
        os.unlink(f)

    ev = dict(property=prop, tier=tier, seed=seed, level="proof", wall_s=0.0, violations=0)
    obl = disch = und = triv = 0
    per = {}
    need_native = []
    inconcl = []
    allfns, repl, models, opaque, backends, assumptions = set(), set(), set(), set(), {}, set()
    stime = 0.0
    nq = 0
    missing_cover = []
    bounded = []
    src = open(contract).read()
    for h in hs:
        r = res[h]
        if "error" in r:
            inconcl.append((h, [("verifier error", r["error"], [])]))
            per[h] = dict(error=r["error"][-300:])
            print(f"[{prop}] {h}: verifier error: {r['error'][:2000]}")
            continue
        d = dict(paths=r["paths"], time_s=round(r["time"], 1), obligations={})
        if h in BOUNDS:
            bounded.append(dict(harness=h, bound=BOUNDS[h], paths=r["paths"], obligations=sum(o["vcs"] for o in r["oblig"].values()),
                                discharged=sum(o["discharged"] for o in r["oblig"].values())))
            d["bounded"] = BOUNDS[h]
        for l, o in r["oblig"].items():
            if h in BOUNDS:
                d["obligations"][l] = o["vcs"] if o["vcs"] == o["discharged"] else {k: v for k, v in o.items() if v}
                continue
            obl += o["vcs"]
            disch += o["discharged"]
            und += o["undecided"]
            d["obligations"][l] = o["vcs"] if o["vcs"] == o["discharged"] else {k: v for k, v in o.items() if v}
        allfns.update(r["fns"])
        repl.update(r["replaced"])
        models.update(r["models"])
        opaque.update(r["opaque"])
        stime += r["solver"]["time"]
        nq += r["solver"]["queries"]
        for k, n in r["solver"]["backend"].items():
            backends[k] = backends.get(k, 0) + n
        u = list(r["undecided"]) + [("loop not unrolled completely", f"{k[1]} {k[3]}", []) for k, n in r["loop_limits"]]
        if u:
            d["undecided"] = [f"{x[0]}: {x[1]}" for x in u][:10]
            inconcl.append((h, u))
        if r["inv"]:
            d["loop_invariants"] = r["inv"]
        per[h] = d
        if r["violations"]:
            need_native.append(h)
        # vacuity: every vc::cover label of the harness must be reached (textual order: harness body)
        m = re.search(r"VC_HARNESS\(" + h + r"\)\n\{(.*?)^\}", src, re.S | re.M)
        want = set(re.findall(r'vc::cover\("([^"]+)"\)', m.group(1))) if m else set()
        miss = want - set(r["covers"])
        d["reached"] = r["covers"]
        if miss and not u and not r["violations"]:
            missing_cover.append((h, sorted(miss)))
    rc = 0
    lines = []
    exe = None

    def native():
        nonlocal exe
        if exe is None:
            exe = build.native_exe(contract)
        return exe

    nviol = 0
    try:
        for h in need_native:
            r = res[h]
            vs = r["violations"]
            k = kn_h.get(h)
            done = False
            tried = 0
            for v in vs:
                p = f"{VERIF}/replay/{prop}.{h}.{tried}.txt"
                write_replay(p, prop, h, v)
                ok, out = replay(native(), p)
                tried += 1
                print(f"[{prop}] {h}: obligation failed: {v['label']} -> native replay {'FAILS' if ok else 'passes' if ok is False else 'inconclusive'}")
                if ok:
                    with open(p, "a") as f:
                        f.write("# native output:\n" + "".join("#   " + x + "\n" for x in out.split("\n")[:40]))
                    if k and v["label"] == k["label"]:
                        lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
                        done = True
                        continue
                    lines.append(f"VIOLATION property={prop} replay={p}")
                    nviol += 1
                    rc = 1
                    done = True
                    break
                if tried >= 12:
                    break
            if done:
                continue
            s, out = search(native(), h, seed, 25)
            if s is not None:
                p = f"{VERIF}/replay/{prop}.{h}.seed.txt"
                open(p, "w").write(f"harness {h}\nseed {s}\n" + "".join("# " + x + "\n" for x in out.split("\n")[:60]))
                lines.append(f"VIOLATION property={prop} replay={p}")
                nviol += 1
                rc = 1
                continue
            v = vs[0]
            p = f"{VERIF}/replay/{prop}.{h}.txt"
            write_replay(p, prop, h, v, "# the verifier reported this obligation as not provable; no failing input found natively\n")
            lines.append(f"VIOLATION property={prop} replay={p} no-failing-input-found")
            nviol += 1
            rc = 1
        for h, k in kn_h.items():
            if h in res and h not in need_native and "error" not in res[h]:
                print(f"[{prop}] known finding no longer reproduces: {k['what']}")
        for h, u in inconcl:
            if h in need_native:
                continue
            if any(x[0] == "verifier error" for x in u):
                pass
            secs = (12 if tier == "quick" else 60)
            s, out = search(native(), h, seed, secs)
            m = re.search(r"SEARCHED runs (\d+) within-precondition (\d+)", out)
            bounded.append(dict(harness=h, reason=[f"{x[0]}: {x[1]}"[:300] for x in u][:6],
                                stand_in=f"random native execution of the harness for {secs} s: {m.group(0) if m else out[-200:]}"))
            print(f"[{prop}] {h}: not fully proved ({len(u)} reasons, e.g. {u[0][0]}: {str(u[0][1])[:200]} {u[0][2][:2]}); bounded stand-in used")
            if s is not None:
                p = f"{VERIF}/replay/{prop}.{h}.seed.txt"
                open(p, "w").write(f"harness {h}\nseed {s}\n" + "".join("# " + x + "\n" for x in out.split("\n")[:60]))
                lines.append(f"VIOLATION property={prop} replay={p}")
                nviol += 1
                rc = 1
    except build.BuildError as e:
        print(f"NO ANSWER: cannot build the replay program\n{e}")
        for h in need_native:
            v = res[h]["violations"][0]
            p = f"{VERIF}/replay/{prop}.{h}.txt"
            write_replay(p, prop, h, v)
            lines.append(f"VIOLATION property={prop} replay={p} no-failing-input-found")
            rc = 1
        if not need_native:
            rc = 2
    finally:
        if exe:
            os.unlink(exe)
    for h, m in missing_cover:
        print(f"[{prop}] {h}: expected situation not reached: {m}")
    cov = dict(obligations=obl, discharged=disch,
               checker_cmd=f"python3-vt engine/check.py {prop}",
               trusted_base=["clang 18 front end and LLVM passes (sroa, simplifycfg, instsimplify, early-cse)", "/verif/engine (VC generator: llir.py, execu.py, mem.py, term.py, lia.py)",
                             "z3 (bit-vector, linear integer, floating point)", "assumed contracts of external functions in engine/rt/models.cpp and builtins_vc.py"],
               functions_under_contract=sorted(allfns), n_functions=len(allfns), harnesses=per, solver_time_s=round(stime, 1), solver_queries=nq, backends=backends,
               undischarged=obl - disch, bounded_parts=bounded, not_reached=[[h, m] for h, m in missing_cover])
    ev["coverage"] = cov
    ass = ["Heap allocation of representable sizes succeeds; allocation requests of 2^46 bytes or more throw std::bad_alloc.",
           "Arithmetic is exact machine arithmetic (bit-vectors, IEEE floating point); over-long shifts yield an unspecified value; signed overflow wraps.",
           "Files have fewer than 2^62 bytes."]
    ass += [f"assumed contract (model): {m}" for m in sorted(models)]
    ass += [f"text-producing function treated as returning an unspecified text that is not inspected: {m}" for m in sorted(opaque)]
    ass += [f"call replaced by its contract: {m}" for m in sorted(repl)]
    ev["assumptions"] = ass
    ev["violations"] = nviol
    ev["wall_s"] = round(time.time() - t0, 1)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    if not only:
        json.dump(ev, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1, default=str)
    print(f"[{prop}] {len(hs)} contracts, {len(allfns)} library functions, {disch}/{obl} obligations discharged, build {tb:.0f}s, total {ev['wall_s']}s")
    for l in lines:
        print(l)
    return rc


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
