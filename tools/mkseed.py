#!/usr/bin/env python3
"""mkseed.py [--no-check] ID...: materialise planted bugs defined in seeds.py under /verif/seeded and confirm them (scratch use of /repo's working tree, undone afterwards)."""
import json, os, subprocess, sys, shutil
sys.path.insert(0, os.path.dirname(__file__))
import seeds
R = "/repo"
DEMO_SH = """#!/bin/bash
# exit 0: the property holds for the demonstrated case
set -u
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
g++ -std=gnu++17 -O1 -w -DCHRONO_UTILITIES_TIMESPAN_INTEGER_SCALE_OVERLOADS -DCPP_UTILITIES_USE_NATIVE_FILE_BUFFER -DTAG_PARSER_STATIC -I"$PWD/_build/shim" -I"$PWD" -I"$PWD/_build" -I"$PWD/.." -isystem /usr/include/martchus-c++utilities \\
    "$D/demo.cpp" "$PWD/_build/libtagparser.a" -lmartchus-c++utilities -lz -lcrypto -o "$T/demo" || exit 2
cd "$T" && timeout 120 ./demo
"""
DEMO_PRE = """#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <fstream>
#define CHECK(c) do { if (!(c)) { std::printf("FAILED line %d: %s\\n", __LINE__, #c); return 1; } } while (0)
"""
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    args = sys.argv[1:]
    check = "--no-check" not in args
    args = [a for a in args if not a.startswith("--")]
    todo = [b for b in seeds.BUGS if not args or b["id"] in args or b["property"] in args]
    assert not sh(f"git -C {R} status --short").stdout.strip(), "dirty /repo"
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for b in todo:
        d = f"/verif/seeded/{b['id']}"
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.sh", "w").write(DEMO_SH); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.cpp", "w").write(DEMO_PRE + b["demo"])
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        res = []
        try:
            for f, old, new in b["edits"]:
                p = f"{R}/{f}"; s = open(p).read()
                if s.count(old) != 1:
                    raise ValueError(f"{b['id']}: edit of {f} matches {s.count(old)} times")
                open(p, "w").write(s.replace(old, new))
            open(d + "/patch.diff", "w").write(sh(f"git -C {R} diff").stdout)
            r = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            t = json.load(open("/tmp/seedtest.json"))
            missing = base - set(t["passed"])
            res.append("tests ok" if not missing else f"TESTS FAIL {missing} {r.stdout[-800:]}")
            r = sh(f"bash {d}/demo.sh", cwd=R)
            res.append("demo fails ok" if r.returncode not in (0, 2) else f"DEMO rc {r.returncode} WITH PATCH {r.stdout[-1500:]}")
            if check:
                r = sh(f"VERIF_TIER=quick VERIF_SEED=1 python3-vt engine/check.py {b['property']}", cwd="/verif")
                v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
                res.append(f"check rc {r.returncode} {v[:1]}" + ("" if v else "  *** MISSED *** " + r.stdout[-400:]))
        except ValueError as x:
            print(x)
            continue
        finally:
            sh(f"git -C {R} checkout -- .")
        sh("bash /opt/vp/build.sh")
        r = sh(f"bash {d}/demo.sh", cwd=R)
        res.append("demo clean ok" if r.returncode == 0 else f"DEMO FAILS ON CLEAN rc {r.returncode} {r.stdout[-1500:]}")
        print(b["id"], b["property"], " | ".join(res), flush=True)
main()
