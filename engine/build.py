"""Builds LLVM bitcode of /repo's working tree (per run) and links it with a contract file."""
import hashlib
import os
import subprocess
import sys
import concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VC_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin/"
CXX = LLVM + "clang++"
BUILD = os.environ.get("VC_BUILD", os.path.join(VERIF, "build"))
NPROC = os.cpu_count() or 8

COMMON = ["-std=gnu++17", f"-I{VERIF}/include", f"-I{REPO}", "-isystem", "/usr/include/martchus-c++utilities",
          "-DCHRONO_UTILITIES_TIMESPAN_INTEGER_SCALE_OVERLOADS", "-DCPP_UTILITIES_USE_NATIVE_FILE_BUFFER", "-DTAG_PARSER_STATIC",
          "-D_GLIBCXX_ASSERTIONS", "-fno-access-control", f"-I{VERIF}/engine/rt", f"-I{BUILD}/gen", "-Wno-everything"]
IRFLAGS = ["-DNDEBUG", "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-emit-llvm"]
NATFLAGS = ["-DVC_NATIVE", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr,function,alignment",
            "-fno-omit-frame-pointer"]


class BuildError(Exception):
    pass


def sources():
    out = []
    for d, dn, fn in os.walk(REPO):
        dn[:] = [x for x in dn if not x.startswith((".", "_build")) and x not in ("tests", "doc", "testfiles", "cmake", "scripts")]
        for f in fn:
            if f.endswith(".cpp"):
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(out)


def header_hash():
    h = hashlib.sha256()
    for root in (REPO, VERIF + "/include", VERIF + "/engine/rt"):
        for d, dn, fn in os.walk(root):
            dn[:] = sorted(x for x in dn if not x.startswith((".", "_build")) and x not in ("tests", "doc", "testfiles", "cmake", "scripts", "_build"))
            for f in sorted(fn):
                if f.endswith((".h", ".inl", ".hpp")):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, root).encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-6000:])
    return r.stdout


def key(hh, path, flags):
    h = hashlib.sha256()
    h.update(hh.encode())
    h.update(" ".join(flags).encode())
    h.update(open(path, "rb").read())
    return h.hexdigest()[:32]


def put(tmp, dst):
    os.replace(tmp, dst)


PASSES = "function(sroa,simplifycfg,instsimplify,early-cse,simplifycfg)"
PASSOPT = ["-phi-node-folding-threshold=40", "-two-entry-phi-node-folding-threshold=40"]


def bc(path, hh, extra=()):
    flags = COMMON + IRFLAGS + list(extra)
    os.makedirs(BUILD + "/bc", exist_ok=True)
    out = f"{BUILD}/bc/{key(hh, path, flags + [PASSES] + PASSOPT)}.bc"
    if not os.path.exists(out):
        t = f"{out}.{os.getpid()}.tmp"
        run([CXX, *flags, "-c", path, "-o", t + "0"])
        run([LLVM + "opt", f"-passes={PASSES}", *PASSOPT, t + "0", "-o", t])
        os.unlink(t + "0")
        put(t, out)
    return out


def obj(path, hh, extra=()):
    flags = COMMON + NATFLAGS + list(extra)
    os.makedirs(BUILD + "/obj", exist_ok=True)
    out = f"{BUILD}/obj/{key(hh, path, flags)}.o"
    if not os.path.exists(out):
        t = f"{out}.{os.getpid()}.tmp"
        run([CXX, *flags, "-c", path, "-o", t])
        put(t, out)
    return out


def par(fn, jobs):
    with cf.ThreadPoolExecutor(NPROC) as ex:
        return list(ex.map(fn, jobs))


def gen():
    """constant data of the installed c++utilities which is not in its headers"""
    import ctypes
    p = f"{BUILD}/gen/crc32table.inc"
    if os.path.exists(p):
        return
    os.makedirs(f"{BUILD}/gen", exist_ok=True)
    lib = ctypes.CDLL("/usr/lib/x86_64-linux-gnu/libmartchus-c++utilities.so")
    t = (ctypes.c_uint32 * 256).in_dll(lib, "_ZN12CppUtilities12BinaryReader10crc32TableE")
    with open(f"{p}.{os.getpid()}", "w") as f:
        f.write(",".join(hex(x) for x in t))
    put(f.name, p)


def ir_module(contract, entries):
    """linked bitcode: repo + models + contract, reduced to what the entries reach"""
    gen()
    hh = header_hash()
    files = [os.path.join(REPO, s) for s in sources()] + [VERIF + "/engine/rt/models.cpp", contract]
    bcs = par(lambda p: bc(p, hh, ("-O0", "-Xclang", "-disable-O0-optnone") if False else ()), files)
    import re
    entries = list(entries) + re.findall(r"\b(vcm_\w+)\(", open(VERIF + "/engine/rt/models.cpp").read())
    out = f"{BUILD}/{os.path.basename(contract)[:-4]}.{os.getpid()}.bc"
    run([LLVM + "llvm-link", *bcs, "-o", out + ".l"])
    run([LLVM + "opt", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(entries), out + ".l", "-o", out])
    os.unlink(out + ".l")
    return out


def native_exe(contract):
    hh = header_hash()
    files = [os.path.join(REPO, s) for s in sources()] + [VERIF + "/engine/rt/native.cpp", contract]
    objs = par(lambda p: obj(p, hh), files)
    out = f"{BUILD}/{os.path.basename(contract)[:-4]}.{os.getpid()}.exe"
    run([CXX, "-fsanitize=address,undefined", "-fuse-ld=lld" if os.path.exists("/usr/bin/ld.lld-18") else "-fuse-ld=bfd", *objs, "-o", out,
         "-lmartchus-c++utilities", "-lz", "-lstdc++fs"])
    return out
