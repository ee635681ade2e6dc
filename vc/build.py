"""Compiles /repo's working tree together with the harness drivers to one LLVM module (fresh on every run)."""
import concurrent.futures
import glob
import os
import subprocess
import tempfile

from llvm import Module, Layouts, Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = "clang++-18"
LLBIN = "/usr/lib/llvm-18/bin/"
FLAGS = ["-std=c++17", "-O0", "-g", "-fPIC", "-DNDEBUG", "-DREISER_RT_HAS_PTHREADS", "-DReiserRT_Core_EXPORTS",
         "-I" + REPO + "/src", "-I" + HERE + "/harness", "-Wno-everything", "-fno-discard-value-names"]


class BuildError(Exception):
    pass


def run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), (r.stderr or r.stdout)[-6000:]))


def repo_sources():
    return sorted(glob.glob(REPO + "/src/*.cpp"))


def build(harness, outdir):
    """-> path of the linked module"""
    srcs = repo_sources() + [os.path.join(HERE, "harness", h) for h in harness]
    bcs = []

    def one(i_s):
        i, s = i_s
        o = os.path.join(outdir, "%d.bc" % i)
        run([CLANG] + FLAGS + ["-emit-llvm", "-c", s, "-o", o])
        return o
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(one, enumerate(srcs)))
    allbc = os.path.join(outdir, "all.bc")
    run([LLBIN + "llvm-link", "-o", allbc] + bcs)
    ll = os.path.join(outdir, "all.ll")
    run([LLBIN + "llvm-dis", allbc, "-o", ll])
    return allbc, ll


def load(harness, outdir):
    bc, ll = build(harness, outdir)
    mod = Module(bc)
    with open(ll) as f:
        lay = Layouts(f.read())
    return mod, lay
