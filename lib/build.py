"""Builds a harness twice from the current /repo tree: an image for the symbolic executor and a native replay program."""
import os, subprocess, sys, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
STDLIB = "/usr/lib/gcc/x86_64-linux-gnu/14/libstdc++.a"
# out-of-line library code that is executed symbolically as is (everything else undefined becomes a stub)
MEMBERS = ["tree.o", "list.o", "hash_c++0x.o", "string-inst.o"]
INC = ["-include", f"{VERIF}/shim/pyre_shim.h", f"-I{VERIF}/shim", f"-I{VERIF}/shim/stubs", f"-I{REPO}/lib",
       "-isystem", "/opt/pyre/include"]
SYM = ["-std=c++23", "-O1", "-fno-pic", "-fno-pie", "-fno-strict-aliasing", "-fno-lifetime-dse", "-fno-tree-vectorize",
       "-fno-tree-slp-vectorize", "-fno-jump-tables", "-fno-stack-protector", "-fcf-protection=none",
       "-mstringop-strategy=libcall", "-fno-delete-null-pointer-checks", "-fno-math-errno", "-fno-trapping-math",
       "-g1", "-w", "-DMITO_CORE"]
NAT = ["-std=c++23", "-O0", "-g0", "-w", "-DMITO_CORE", "-fsanitize=address", "-fno-omit-frame-pointer"]
CXX = "/usr/bin/g++-14"


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError(" ".join(cmd[:4]) + " ...\n" + r.stdout[:6000])
    return r.stdout


def build_sym(src, out, extra=()):
    """src.cc -> out (static image for the engine)"""
    d = os.path.dirname(out)
    obj, rel, sy, st = out + ".o", out + ".r.o", out + ".s", out + ".stubs.o"
    run([CXX, *SYM, *extra, *INC, "-c", src, "-o", obj])
    mem = []
    mdir = os.path.join(d, "stl")
    if not os.path.isdir(mdir):
        tmp = mdir + f".{os.getpid()}.{os.path.basename(out)}"
        os.makedirs(tmp)
        have = run(["ar", "t", STDLIB]).split()
        sel = [m for m in MEMBERS if m in have]
        run(["ar", "x", STDLIB, *sel], cwd=tmp)
        try:
            os.rename(tmp, mdir)
        except OSError:
            pass
    mem = sorted(os.path.join(mdir, m) for m in os.listdir(mdir))
    # pull only the members that are needed
    need = []
    def undefined(f):
        return {l.split()[-1] for l in run(["nm", "-u", f]).splitlines() if l.split() and l.split()[0] == "U"}
    und = undefined(obj)
    changed = True
    while changed:
        changed = False
        for m in mem:
            if m in need:
                continue
            defs = {l.split()[-1] for l in run(["nm", "--defined-only", m]).splitlines() if len(l.split()) == 3}
            if defs & und:
                need.append(m)
                und |= undefined(m)
                changed = True
    run(["ld", "-r", "-o", rel, obj, *need])
    und = sorted(undefined(rel))
    with open(sy, "w") as f:
        f.write(".text\n.p2align 4\n.globl __sx_stubs_begin\n__sx_stubs_begin:\n")
        for u in und:
            f.write(f".p2align 4\n.globl {u}\n{u}:\n hlt\n")
        f.write(".p2align 4\n.globl __sx_stubs_end\n__sx_stubs_end: hlt\n.section .note.GNU-stack,\"\",@progbits\n")
    run(["as", "-o", st, sy])
    run(["ld", "-static", "-no-pie", "-e", "0", "-Ttext-segment=0x400000", "-o", out, rel, st])
    for f in (rel, sy, st, obj):
        os.remove(f)


def build_native(src, out, rt, extra=()):
    run([CXX, *NAT, *extra, *INC, src, rt, "-rdynamic", "-ldl", "-o", out])


def build_rt(out):
    run([CXX, "-std=c++20", "-O1", "-fsanitize=address", "-w", "-c", f"{VERIF}/rt/native.cpp", "-o", out])
