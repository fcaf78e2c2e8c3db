"""Compiles C++ text to the .ll / .loops pair the drivers read (tests/llvm/compile-add-blocks.sh),
with the repository's pass built from its current source."""
import os
import re
import subprocess

import mlenv

HDR = os.path.join(os.path.dirname(os.path.abspath(__file__)), "cheader")


def sh(cmd, **kw):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120, **kw)
    except subprocess.TimeoutExpired:
        raise RuntimeError(" ".join(cmd) + "\nno end within 120 s")
    if r.returncode:
        raise RuntimeError(" ".join(cmd) + "\n" + r.stderr[-2000:])
    return r.stdout


def tool(n):
    for c in (n + "-14", "/usr/lib/llvm-14/bin/" + n):
        if subprocess.run(["which", c], stdout=subprocess.DEVNULL).returncode == 0:
            return c
    raise RuntimeError("no LLVM 14 " + n)


def build_pass(d):
    so = os.path.join(d, "pass.so")
    flags = sh([tool("llvm-config"), "--cxxflags"]).split()
    sh(["g++", "-shared", "-fPIC", "-fno-rtti", *flags, "-O1", "-o", so,
        os.path.join(mlenv.REPO, "llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp")])
    return so


def emit(d, name, src):
    cc, ll = os.path.join(d, name + ".cc"), os.path.join(d, name + ".raw.ll")
    with open(cc, "w") as f:
        f.write('#include "ml.h"\nusing namespace std;\n' + src)
    sh([tool("clang++"), "-O0", "-w", "-I", HDR, "-c", "-emit-llvm", "-fno-discard-value-names", "-S", cc, "-o", ll])
    return ll


def run_pass(so, raw, out, add=True):
    cmd = [tool("opt"), "-enable-new-pm=0"]
    if add:
        cmd += ["-load", so, "-addEmptyBlock"]
    sh(cmd + ["-lowerinvoke", "--unreachableblockelim", "-instnamer", "-S", raw, "-o", out])


def loops(ll, out):
    with open(out, "w") as f:
        f.write(sh([tool("opt"), "-enable-new-pm=0", "-analyze", "-loops", ll]))


def downgrade(text):
    """LLVM 14 text in the dialect llvmlite's LLVM 11 reads (attributes only)."""
    text = re.sub(r'sret\((%"[^"]*"|[^()]*)\)', "sret", text)
    text = re.sub(r"\bmustprogress\b ?", "", text)
    text = re.sub(r"\bnoundef\b ?", "", text)
    text = re.sub(r"elementtype\([^)]*\) ?", "", text)
    return re.sub(r"\ballocsize\([^)]*\) ?", "", text)


def split_functions(text):
    """One module text per function: declarations of everything else."""
    return text


def pair(d, so, name, src, add=True):
    """-> (ll path, loops path)"""
    raw = emit(d, name, src)
    ll, lo = os.path.join(d, name + ".ll"), os.path.join(d, name + ".loops")
    run_pass(so, raw, ll, add)
    loops(ll, lo)
    t = downgrade(open(ll).read())
    with open(ll, "w") as f:
        f.write(t)
    return ll, lo
