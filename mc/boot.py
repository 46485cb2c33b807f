"""Makes the code of /repo's current working tree importable.

Python sources are imported straight from the working tree.  The Cython extensions are compiled from the working
tree's .pyx files unless the in-place .so files provably belong to them (same stamp as /opt/vp/ext.py writes).
"""
import glob
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.path.realpath(os.environ.get("MC_REPO", "/repo"))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXT = ("_fill", "_flow", "_label")
PKG = "malstroem.algorithms.speedups."
SPEED = os.path.join("malstroem", "algorithms", "speedups")


class BuildError(Exception):
    pass


def _read(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except OSError:
        return b"-"


def _digest(rel_paths):
    h = hashlib.sha256()
    for p in rel_paths:
        h.update(p.encode() + b"\0" + hashlib.sha256(_read(os.path.join(REPO, p))).digest())
    return h.hexdigest()


def _shared():
    pxd = sorted(os.path.relpath(p, REPO) for p in glob.glob(os.path.join(REPO, "malstroem/**/*.px[di]"), recursive=True))
    return ["setup.py", "setup.cfg"] + pxd


def _inplace():
    """In-place .so files which are certain to match their sources."""
    try:
        stamp = json.loads(_read(os.path.join(REPO, "build", "vp-stamp.json")))
    except ValueError:
        return {}
    out = {}
    for name in EXT:
        found = sorted(glob.glob(os.path.join(REPO, SPEED, name + ".*.so")))
        if len(found) != 1:
            continue
        rel = os.path.relpath(found[0], REPO)
        if stamp.get(rel) == _digest(_shared() + [os.path.join(SPEED, name + ".pyx"), rel]):
            out[name] = found[0]
    return out


def _cache_root():
    root = os.environ.get("MC_CACHE") or os.path.join(VERIF, ".cache")
    os.makedirs(root, exist_ok=True)
    return root


def _compiled():
    """Compile whichever extension is missing into the cache. Returns {name: path}."""
    out = _inplace()
    missing = {}
    root = _cache_root()
    for name in EXT:
        if name in out:
            continue
        pyx = os.path.join(SPEED, name + ".pyx")
        if not os.path.exists(os.path.join(REPO, pyx)):
            continue
        key = _digest(_shared() + [pyx]) + "-" + sys.implementation.cache_tag
        target = os.path.join(root, key[:40], name + ".so")
        if os.path.exists(target):
            out[name] = target
        else:
            missing[name] = target
    if missing:
        tmp = tempfile.mkdtemp(prefix="mc-build-")
        try:
            for item in ("setup.py", "setup.cfg", "README.md", "malstroem"):
                src = os.path.join(REPO, item)
                if os.path.isdir(src):
                    shutil.copytree(src, os.path.join(tmp, item),
                                    ignore=shutil.ignore_patterns("*.so", "*.c", "*.html", "__pycache__"))
                elif os.path.exists(src):
                    shutil.copy(src, os.path.join(tmp, item))
            for name in EXT:
                if name not in missing:  # do not spend time on these
                    p = os.path.join(tmp, SPEED, name + ".pyx")
                    if os.path.exists(p):
                        with open(p, "w") as f:
                            f.write("pass\n")
            env = dict(os.environ, PYTHONPATH="")
            r = subprocess.run([sys.executable, "setup.py", "-q", "build_ext", "--inplace", "-j", "3"], cwd=tmp, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            for name, target in missing.items():
                built = glob.glob(os.path.join(tmp, SPEED, name + ".*.so"))
                if r.returncode or len(built) != 1:
                    raise BuildError("building %s failed:\n%s" % (name, r.stdout[-3000:]))
                os.makedirs(os.path.dirname(target), exist_ok=True)
                part = target + ".%d" % os.getpid()
                shutil.copy(built[0], part)
                os.rename(part, target)
                out[name] = target
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


def shim():
    """Path of the library which makes write operations fail, compiled on demand"""
    src = os.path.join(VERIF, "mc", "native", "shim.c")
    target = os.path.join(_cache_root(), "shim-%s.so" % hashlib.sha256(_read(src)).hexdigest()[:20])
    if not os.path.exists(target):
        part = target + ".%d" % os.getpid()
        subprocess.run([os.environ.get("CC", "gcc"), "-shared", "-fPIC", "-O1", "-o", part, src, "-ldl"], check=True)
        os.rename(part, target)
    return target


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, paths):
        self.paths = paths

    def find_spec(self, fullname, path=None, target=None):
        if fullname.startswith(PKG) and fullname[len(PKG):] in self.paths:
            p = self.paths[fullname[len(PKG):]]
            return importlib.util.spec_from_file_location(
                fullname, p, loader=importlib.machinery.ExtensionFileLoader(fullname, p))
        return None


def boot():
    """Import malstroem from REPO with natively compiled extensions of exactly that tree."""
    paths = _compiled()
    sys.path.insert(0, REPO)
    sys.meta_path.insert(0, _Finder(paths))
    import malstroem
    assert os.path.realpath(malstroem.__file__).startswith(REPO + os.sep), malstroem.__file__
    import logging
    logging.disable(logging.CRITICAL)
    from malstroem.algorithms import speedups
    return speedups
