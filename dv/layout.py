"""Compiles the instantiation units against /repo and reads the field offsets the specifications need."""
import os, re, subprocess
from . import ir

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DV_REPO", "/repo")
CLANG = ["clang++", "-std=c++11", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-exceptions", "-fno-rtti" if False else "-frtti",
         "-gline-tables-only", "-w", "-DDV_EXTRACT"]
PASSES = "sroa,mem2reg,simplifycfg"


class ExtractError(Exception): pass


def extract(unit, tmp, defs=()):
    src = os.path.join(HERE, "inst", unit + ".cpp")
    tagn = unit + "".join("_" + re.sub(r"\W", "_", d) for d in defs)
    a = os.path.join(tmp, tagn + ".ll"); b = os.path.join(tmp, tagn + ".opt.ll")
    if not os.path.exists(b):
        cmd = CLANG + ["-I" + REPO, "-I" + os.path.join(HERE, "inst")] + ["-D" + d for d in defs] + ["-S", "-emit-llvm", src, "-o", a]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode: raise ExtractError("%s does not compile: %s" % (unit, p.stderr[:1500]))
        p = subprocess.run(["opt", "-S", "-passes=" + PASSES, a, "-o", b + ".tmp"], capture_output=True, text=True)
        if p.returncode: raise ExtractError("opt: " + p.stderr[:500])
        os.rename(b + ".tmp", b)
    return ir.Module(open(b).read())


def offsets(header, exprs, tmp, key, defs=()):
    """values of constant expressions over the real class definitions (private members made visible for this only)"""
    key = re.sub(r"\W", "_", key); src = os.path.join(tmp, "layout_%s.cpp" % key); out = os.path.join(tmp, "layout_%s.ll" % key)
    with open(src, "w") as f:
        f.write("#include <cassert>\n#include <cstdlib>\n#include <cstddef>\n#include <new>\n#define private public\n#define protected public\n#include \"%s\"\n" % header)
        f.write("using namespace dstruct;\n")
        for i, e in enumerate(exprs): f.write("extern \"C\" const unsigned long long dv_%d = %s;\n" % (i, e))
    p = subprocess.run(["clang++", "-std=c++11", "-O1", "-fno-exceptions", "-w"] + ["-D" + d for d in defs] + ["-I" + REPO, "-I" + os.path.join(HERE, "inst"), "-S", "-emit-llvm", src, "-o", out], capture_output=True, text=True)
    if p.returncode: raise ExtractError("layout: " + p.stderr[:800])
    t = open(out).read(); r = []
    for i in range(len(exprs)):
        m = re.search(r"@dv_%d = .*constant i64 (-?\d+)" % i, t)
        if not m: raise ExtractError("layout constant %s" % exprs[i])
        r.append(int(m.group(1)))
    return r
