"""The native core as data: clang's typed syntax tree of every instantiated function under include/tnco.

`load(ndebug)` runs sa/native/extract.cpp (built with clang's own libraries) over the current include/tnco/main.cpp and returns a Core.
Results are cached by content under /verif/.cache, which only saves time.
"""
import collections
import concurrent.futures
import functools
import glob
import json
import os
import pathlib
import subprocess
import sys
import tempfile

from sa.common import REPO, ROOT, AnalysisBroken, digest

CACHE = ROOT / ".cache"
LLVM = "/usr/lib/llvm-18"
SRC = ROOT / "sa" / "native" / "extract.cpp"


def _cache_dir():
    try:
        CACHE.mkdir(exist_ok=True)
        return CACHE
    except OSError:
        return pathlib.Path(tempfile.mkdtemp())


@functools.lru_cache(None)
def extractor():
    d = _cache_dir()
    exe = d / f"extract-{digest([SRC])}"
    if not exe.exists():
        tmp = exe.with_suffix(f".{os.getpid()}")
        libs = sorted(glob.glob(f"{LLVM}/lib/libclang-cpp.so*"))[:1] + sorted(glob.glob(f"{LLVM}/lib/libLLVM.so*") or glob.glob(f"{LLVM}/lib/libLLVM-18*.so*"))[:1]
        r = subprocess.run(["clang++-18", "-std=c++17", "-O0", "-fno-rtti", f"-I{LLVM}/include", "-D_GNU_SOURCE", str(SRC), "-o", str(tmp), *libs],
                           capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken("the extractor does not build: " + r.stderr[-2000:])
        os.replace(tmp, exe)
    return exe


def flags(ndebug):
    inc = [str(REPO / "include")]
    inc += glob.glob("/opt/venv/lib/python3*/site-packages/pybind11/include")[:1] or glob.glob("/opt/**/pybind11/include", recursive=True)[:1]
    inc += [p for p in sorted(glob.glob("/usr/include/python3*")) + sorted(glob.glob("/opt/**/include/python3*", recursive=True))
            if os.path.exists(p + "/Python.h")][:1]
    res = subprocess.run(["clang++-18", "-print-resource-dir"], capture_output=True, text=True).stdout.strip()
    return ["-std=c++17", "-fsyntax-only", "-w", "-resource-dir", res, *[f"-I{i}" for i in inc], *(["-DNDEBUG"] if ndebug else [])]


def extract(ndebug):
    files = [p for p in (REPO / "include").rglob("*") if p.is_file()]
    key = digest([*files, SRC])
    d = _cache_dir()
    out = d / f"core-{key}-{'release' if ndebug else 'debug'}.json"
    if not out.exists():
        r = subprocess.run([str(extractor()), str(REPO / "include" / "tnco"), str(REPO / "include" / "tnco" / "main.cpp"), "--", *flags(ndebug)],
                           capture_output=True, text=True, cwd=str(REPO))
        if r.returncode or '{"k":"end"}' not in r.stdout[-40:]:
            raise AnalysisBroken("the native core does not compile: " + r.stderr[-2000:])
        tmp = out.with_suffix(f".{os.getpid()}")
        tmp.write_text(r.stdout)
        os.replace(tmp, out)
    return out


def prepare():
    """Build the extractor and both configurations (in parallel)."""
    extractor()
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        list(ex.map(extract, [True, False]))


class Core:

    def __init__(self, path):
        self.types, self.fdecl, self.fun, self.rec, self.globals = {}, {}, {}, {}, {}
        self.fp = {}
        for line in open(path):
            o = json.loads(line)
            k = o["k"]
            if k == "type":
                self.types[o["id"]] = o["s"]
                if "fp" in o:
                    self.fp[o["id"]] = o["fp"]
            elif k == "fdecl":
                self.fdecl[o["id"]] = o
            elif k == "fun":
                self.fun[o["id"]] = o
            elif k == "rec":
                self.rec[o["n"]] = o
            elif k == "global":
                self.globals[o["d"]] = o
        self.by_name = collections.defaultdict(list)
        for f in self.fun.values():
            self.by_name[f["n"]].append(f)

    def type(self, i):
        return self.types.get(i, "")

    def functions(self, name=None, rec=None, file=None, lam=None):
        for f in (self.by_name.get(name, []) if name is not None else self.fun.values()):
            if rec is not None and rec not in f.get("rec", ""):
                continue
            if file is not None and not f["file"].endswith(file):
                continue
            if lam is not None and bool(f.get("lam")) != lam:
                continue
            yield f

    def where(self, f, line=None):
        p = f["file"]
        i = p.find("include/tnco")
        return f"{p[i:] if i >= 0 else p}:{line or f['line']}"

    def bases(self, rec):
        out, todo = [], [rec]
        while todo:
            r = todo.pop(0)
            if r in out:
                continue
            out.append(r)
            if r in self.rec:
                todo += self.rec[r]["bases"]
        return out

    def method(self, rec, name):
        """Function of this name found first in the class or its bases."""
        for r in self.bases(rec):
            for f in self.by_name.get(name, []):
                if f.get("rec") == r:
                    return f
        return None


@functools.lru_cache(None)
def load(ndebug=True):
    return Core(extract(ndebug))


def walk(n):
    """All dict nodes of a body."""
    if isinstance(n, dict):
        yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            if isinstance(v, (dict, list)):
                yield from walk(v)


if __name__ == "__main__":
    prepare()
    c = load(sys.argv[1:] != ["debug"])
    print(len(c.fun), "functions,", len(c.rec), "records")
