#!/usr/bin/env python3-vt
"""setup_cmd: checks that the needed tools are there and compiles the engine (nothing else has to be built in advance)"""
import compileall, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
import z3  # noqa
for t in ("/usr/lib/llvm-18/bin/opt", "/usr/lib/llvm-18/bin/llvm-link"):
    assert os.path.exists(t), t
subprocess.run(["clang++", "--version"], check=True, stdout=subprocess.DEVNULL)
compileall.compile_dir(here, quiet=1)
for d in ("build", "evidence", "replay"):
    os.makedirs(os.path.join(os.path.dirname(here), d), exist_ok=True)
print("setup ok")
