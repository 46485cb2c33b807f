"""C29: names, places, option order and environment do not matter.

The whole process chain is executed with each way of naming each file, directory and layer, from each working directory and kind of path, with each order of the options of each
command and each verbosity, and in processes with each environment; the results must be those of the plainly named chain.
"""
import itertools
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from .. import boot
from ..core import require, Problem
from .. import util
from ..util import Jobs, SH, NS, write_tif, read_tif, read_layer, TRANSFORMS
from . import c19
from .c19 import Chain, States, differ

BOUNDS = ("all names (of 40: blanks, quotes, other alphabets, marks with a meaning to shells, SQL, formats or file names, extensions, lengths) x all files at once and each file, all layers at once and each layer of the whole chain in one "
          "GeoPackage and in separate shapefiles, GeoJSON and CSV files; all kinds of paths (relative, absolute, symbolic links, other directories) x working directories; all orders of up to four options of each command, rotations and "
          "exchanges of more; all verbosities; environments (hash seed, locale, temporary, home directory, umask, optimization, standard streams, GDAL caches and threads) alone and in pairs")
ASSUMPTIONS = ["names which GDAL itself can write and read", "the file system takes all bytes in names"]

FILES = {"-dem", "-out", "-filled", "-depths", "-flowdir", "-bluespots", "-watersheds", "-accum", "-pourpoints", "-nodes", "-pr", "-inputvolumes", "-finalvols", "-hyps", "-finallevels", "-out_depths",
         "-out_bluespots", "-raster"}
LAYERS = {"-layername", "-pourpoints_layer", "-out_hyps_layer", "-out_nodes_layer", "-out_streams_layer", "-nodes_layer", "-out_layer", "-inputvolumes_layer", "-finalvols_layer", "-hyps_layer", "-finallevels_layer"}
STEM = (".shp", ".csv", ".geojson")

MARKS = [" ", "a b", "\u00e6\u00f8\u00e5", "\u6f22\u5b57", "e\u0301", "it's", 'say "x"', "a.b.c", ".h", "-d", "--", "_", "%s%d", "%20", "{0}", "{x}", "$HOME", "~", "[1]", "*", "a,b", "a;b", "a&b", "a=b", "#1", "@x", "(x)", "+", "!",
         "`x`", "b\\n", "a:b", "a|b", "1", "0x1", "NaN", "UPPER", "x" * 90, "tif", "vsi", "tmp", "select", "None", "false"]
EXTENSIONS = [".TIF", ".tiff", ".dat", "", ".gpkg.tif", ".shp.tif"]


def cli(*args):
    """A command with its messages"""
    import logging
    logging.disable(logging.NOTSET)
    try:
        return util.cli(*args)
    finally:
        logging.disable(logging.CRITICAL)


def name_schemes():
    S = {}
    for m in MARKS:
        S["before:" + m] = lambda stem, ext, m=m: m + stem + ext
        S["after:" + m] = lambda stem, ext, m=m: stem + m + ext
    for e in EXTENSIONS:
        S["extension:" + e] = lambda stem, ext, e=e: stem + (e if ext == ".tif" else ext)
    S["extension:upper"] = lambda stem, ext: stem + ext.upper() if ext in (".tif", ".gpkg") else stem + ext
    S["upper"] = lambda stem, ext: stem.upper() + ext
    return S


def layer_schemes():
    S = {}
    for m in MARKS + ["a/b", "..", "\\", "order by", "table", "group", "geom", "fid", "rowid", "layer_styles", "where 1=1", "); drop table x; --"]:
        S["before:" + m] = lambda l, m=m: m + l
        S["after:" + m] = lambda l, m=m: l + m
    S["upper"] = lambda l: l.upper()
    S["title"] = lambda l: l.title()
    S["quoted"] = lambda l: '"%s"' % l
    S["apostrophes"] = lambda l: "'%s'" % l
    return S


class Named(object):
    """The chain with other names. files: function of stem and extension; layers: function of the layer name; path: function of the file name -> what is passed to the command (relative to cwd)"""

    def __init__(self, chain, files=None, layers=None, path=None, cwd="."):
        self.chain, self.cwd = chain, cwd
        self.files = files or (lambda s, e: s + e)
        self.layers = layers or (lambda l: l)
        self.path = path or (lambda f, work: f)

    def file(self, f, work):
        return self.path(self.files(*os.path.splitext(f)), work)

    def layer(self, path, layer):
        stem, ext = os.path.splitext(os.path.basename(path))
        if ext in STEM and layer:
            return stem
        return self.layers(layer)

    def args(self, x, work):
        a = [str(v) for v in self.chain.steps[x][1]]
        out = a[:1]
        files = {}
        i = 1
        while i < len(a):
            flag = a[i]
            out.append(flag)
            if i + 1 < len(a) and flag in FILES:
                f = self.file(a[i + 1], work)
                files[a[i + 1]] = f
                out.append(f)
                i += 1
            elif i + 1 < len(a) and flag in LAYERS:
                # the datasource precedes its layer
                src = [f for f in files.values()][-1]
                out.append(self.layer(src, a[i + 1]))
                i += 1
            elif i + 1 < len(a) and flag in ("-format", "-filter", "-mm", "-zresolution"):
                out.append(a[i + 1])
                i += 1
            else:
                require(flag.startswith("-"), "unknown argument %s", flag)
            i += 1
        return out

    def describe(self, work, artifact):
        here = os.path.join(work, self.cwd)
        if artifact.endswith(".tif"):
            f = artifact
        else:
            f = self.chain.layers[artifact][0]
        p = os.path.join(here, self.file(f, work))
        if artifact.endswith(".tif"):
            return describe_raster(p)
        return describe_layer(p, self.layer(p, self.chain.layers[artifact][1]))


def describe_raster(p):
    import hashlib
    a, t, crs, nd = read_tif(p)
    return ("raster", a.shape, a.dtype.name, hashlib.sha256(np.ascontiguousarray(a).tobytes()).hexdigest(), tuple(t), bool(crs), nd)


def describe_layer(p, layer):
    import json
    fs = read_layer(p, layer)
    for f in fs:
        f.pop("id", None)
    return ("layer", sorted(json.dumps(f, sort_keys=True) for f in fs))


class Space(object):
    def __init__(self, rec, opts, dem=0):
        self.chain = Chain(opts)
        name, z, nodata = list(c19.dems())[dem]
        self.inputs = c19.inputs(z, nodata, TRANSFORMS[1], c19.WKT)
        self.root = rec.fresh()
        self.states = States(self.chain, os.path.join(self.root, "base"), self.inputs)
        os.mkdir(self.states.root)
        self.full = frozenset(self.chain.order)
        self.states.state(self.full)
        self.want = self.states.desc[self.full]
        self.n = 0

    def fresh(self):
        self.n += 1
        d = os.path.join(self.root, "n%d" % self.n)
        os.mkdir(d)
        return d

    def place_inputs(self, work, named):
        d = self.fresh()
        self.inputs(d)
        for f in os.listdir(d):
            p = os.path.join(work, named.cwd, named.file(f, work))
            shutil.move(os.path.join(d, f), p)
        os.rmdir(d)

    def whole(self, named, dirs=(), links=(), order=None):
        """The whole chain with other names"""
        work = self.fresh()
        for d in dirs:
            os.makedirs(os.path.join(work, d), exist_ok=True)
        for a, b in links:
            os.symlink(b, os.path.join(work, a))
        cwd = os.getcwd()
        try:
            self.place_inputs(work, named)
            before = everything(work)
            os.chdir(os.path.join(work, named.cwd))
            n = 0
            for x in order or self.chain.order:
                args = named.args(x, work)
                code, exc = cli(*args)
                require(code == 0, "%r failed with exit code %r: %r", args, code, exc)
                n += 1
            os.chdir(cwd)
            for a, v in self.want.items():
                if order and not any(a in self.chain.steps[x][2] for x in order):
                    continue
                try:
                    got = named.describe(work, a)
                except (Problem, RuntimeError) as e:
                    raise Problem("%s is missing: %s; there are %s" % (a, e, sorted(everything(work))))
                require(got == v, "%s: %s", a, differ(got, v))
            after = everything(work)
            for f in before:
                require(before[f] == after.get(f), "%s was changed", f)
            expected = self.expected(work, named)
            for f in after:
                require(f in before or f in expected, "unexpected file %r", f)
        finally:
            os.chdir(cwd)
            shutil.rmtree(work)
        return n

    def expected(self, work, named):
        out = set()
        for f in os.listdir(self.states.state(self.full)):
            stem, ext = os.path.splitext(f)
            if ext in (".dbf", ".shx", ".prj", ".cpg"):
                p = os.path.splitext(named.file(stem + ".shp", work))[0] + ext
            elif ext in (".gpkg-journal", ".gpkg-wal", ".gpkg-shm"):
                continue
            else:
                p = named.file(f, work)
            out.add(os.path.realpath(os.path.join(work, named.cwd, p)))
        return out


def everything(d):
    """{real path: contents} of all files"""
    out = {}
    for p, ds, fs in os.walk(d):
        for f in fs:
            q = os.path.join(p, f)
            if f.endswith((".gpkg-journal", "-wal", "-shm")):
                continue
            with open(q, "rb") as h:
                out[os.path.realpath(q)] = hash(h.read())
    return out


# ---------------------------------------------------------------------------------------------------------------------

def gdal_takes(space, name, layer=None):
    """GDAL itself writes and reads such a name"""
    d = space.fresh()
    from osgeo import ogr
    try:
        if layer is not None:
            p = os.path.join(d, "x.gpkg")
            ds = ogr.GetDriverByName("GPKG").CreateDataSource(p)
            l = ds.CreateLayer(layer, None, ogr.wkbPoint)
            l = None
            ds = None
            read_layer(p, layer)
        else:
            p = os.path.join(d, name)
            ext = os.path.splitext(name)[1].lower()
            if ext in (".shp", ".gpkg", ".csv", ".geojson"):
                drv = {".shp": "ESRI Shapefile", ".gpkg": "GPKG", ".csv": "CSV", ".geojson": "GeoJSON"}[ext]
                ds = ogr.GetDriverByName(drv).CreateDataSource(p)
                l = ds.CreateLayer(os.path.splitext(name)[0], None, ogr.wkbPoint)
                l.CreateField(ogr.FieldDefn("a", ogr.OFTInteger))
                f = ogr.Feature(l.GetLayerDefn())
                f.SetGeometry(ogr.CreateGeometryFromWkt("POINT (1 2)"))
                f["a"] = 1
                l.CreateFeature(f)
                f = l = None
                ds = None
                if len(read_layer(p, os.path.splitext(name)[0])) != 1:
                    return False
            else:
                write_tif(p, np.ones((2, 2), np.uint8))
                read_tif(p)
        return True
    except (RuntimeError, Problem, AttributeError):
        return False
    finally:
        shutil.rmtree(d)


def files_of(chain):
    out = {"dem.tif"}
    for x in chain.order:
        for a in chain.steps[x][2]:
            out.add(a if a.endswith(".tif") else chain.layers[a][0])
    return sorted(out)


def names(rec, opts, each, sh, n):
    s = Space(rec, opts)
    files = files_of(s.chain)
    for k, (sn, f) in enumerate(name_schemes().items()):
        if k % n != sh:
            continue
        good = {x: gdal_takes(s, f(*os.path.splitext(x))) for x in files}
        # with equal names for all: no stem can be mistaken for another
        for j, one in enumerate([None] + files):
            if one is not None and (not good[one] or (j + k) % each):
                continue

            def scheme(stem, ext, one=one):
                x = stem + ext
                return f(stem, ext) if good.get(x, True) and one in (None, x) else x
            rec.check(dict(name=sn, file=one or "all"), s.whole, Named(s.chain, scheme))


def layers(rec, opts, each, sh, n):
    s = Space(rec, opts)
    ls = sorted({l for p, l in s.chain.layers.values() if not p.endswith(STEM)})
    for k, (sn, f) in enumerate(layer_schemes().items()):
        if k % n != sh:
            continue
        good = {x: gdal_takes(s, None, f(x)) for x in ls}
        for j, one in enumerate([None] + ls):
            if one is not None and (not good[one] or (j + k) % each):
                continue
            rec.check(dict(layer=sn, of=one or "all"), s.whole, Named(s.chain, None, lambda l, one=one: f(l) if good.get(l) and one in (None, l) else l))


DIRS = ["sub", "sub sub/deep", "\u00e6\u00f8", "a.b", "%d", "it's", "x.tif", "y.gpkg", "-o", "[1]", "#", "~", "end ", " start", "dot.", ".hidden", "two  blanks", "tab\t"]


def places(rec, opts, sh, n):
    s = Space(rec, opts)
    P = {"absolute": dict(path=lambda f, w: os.path.join(w, f)),
         "dot": dict(path=lambda f, w: "./" + f),
         "slashes": dict(path=lambda f, w: w + "//" + f),
         "real": dict(path=lambda f, w: os.path.join(os.path.realpath(w), ".", f)),
         "parent": dict(cwd="sub", path=lambda f, w: "../" + f, dirs=["sub"]),
         "there and back": dict(path=lambda f, w: "sub/../" + f, dirs=["sub"]),
         "link": dict(path=lambda f, w: "ln/" + f, dirs=["sub"], links=[("ln", "sub")]),
         "link elsewhere": dict(cwd="other", path=lambda f, w: "../ln/" + f, dirs=["sub", "other"], links=[("ln", "sub")]),
         "cwd is a link": dict(cwd="ln", dirs=["sub"], links=[("ln", "sub")]),
         "deep": dict(path=lambda f, w: "/".join(["d"] * 30 + [f]), dirs=["/".join(["d"] * 30)]),
         "each in its own": dict(path=lambda f, w: os.path.splitext(f)[0] + "_dir/" + f, dirs=[os.path.splitext(f)[0] + "_dir" for f in files_of(s.chain) + ["rain20.tif", "rain7.tif"]]),
         "same names": dict(path=lambda f, w: os.path.splitext(f)[0] + "_dir/x" + os.path.splitext(f)[1], dirs=[os.path.splitext(f)[0] + "_dir" for f in files_of(s.chain) + ["rain20.tif", "rain7.tif"]]),
         "inputs elsewhere": dict(path=lambda f, w: ("in/" if f.startswith(("dem", "rain")) else "out/") + f, dirs=["in", "out"]),
         "rasters elsewhere": dict(path=lambda f, w: ("r/" if f.endswith(".tif") else "v/") + f, dirs=["r", "v"])}
    for d in DIRS:
        P["in " + d] = dict(path=lambda f, w, d=d: d + "/" + f, dirs=[d])
        P["from " + d] = dict(cwd=d, dirs=[d])
        P["absolute in " + d] = dict(path=lambda f, w, d=d: os.path.join(w, d, f), dirs=[d])
    for k, (pn, p) in enumerate(P.items()):
        if k % n == sh:
            p = dict(p)
            rec.check(dict(place=pn), s.whole, Named(s.chain, None, None, p.pop("path", None), p.pop("cwd", ".")), p.get("dirs", ()), p.get("links", ()))


# ---------------------------------------------------------------------------------------------------------------------

def split(args):
    """Options of a command with their values"""
    out, i = [], 1
    while i < len(args):
        j = i + 1
        while j < len(args) and not (args[j].startswith("-") and not args[j][1:2].isdigit()):
            j += 1
        out.append(args[i:j])
        i = j
    return out


def orders_of(xs, full):
    if len(xs) <= full:
        for p in itertools.permutations(xs):
            yield list(p)
        return
    seen = set()
    out = [xs[i:] + xs[:i] for i in range(len(xs))]
    out += [x[::-1] for x in out]
    for i in range(len(xs)):
        for j in range(i):
            y = list(xs)
            y[i], y[j] = y[j], y[i]
            out.append(y)
    for o in out:
        k = repr(o)
        if k not in seen:
            seen.add(k)
            yield o


def options(rec, opts, full, sh, n):
    """Options in other orders; verbosities; formats in other letters"""
    s = Space(rec, opts)
    k = 0

    def step(x, args, without=()):
        d = s.fresh()
        w = os.path.join(d, "w")
        need = frozenset().union(*[s.chain.closure(y) for y in s.chain.steps[x][0]]) if s.chain.steps[x][0] else frozenset()
        shutil.copytree(s.states.state(need), w)
        cwd = os.getcwd()
        os.chdir(w)
        try:
            code, exc = cli(*args)
            require(code == 0, "%r failed with exit code %r: %r", args, code, exc)
            for a in s.chain.steps[x][2]:
                if a in without:
                    continue
                got = s.chain.describe(w, a)
                require(got == s.want[a], "%s: %s", a, differ(got, s.want[a]))
            there = {os.path.relpath(f, os.path.realpath(w)) for f in everything(d)}
            want = {f for f in os.listdir(s.states.state(need | {x})) if not f.endswith((".gpkg-journal", "-wal", "-shm"))} - set(without)
            require(there == want, "files %s, expected %s", sorted(there - want), sorted(want - there))
        finally:
            os.chdir(cwd)
            shutil.rmtree(d)
        return 1
    for x in s.chain.order:
        if s.chain.steps[x][1][0] == "finalbluespots":
            # one output only
            a = [str(v) for v in s.chain.steps[x][1]]
            for o in ("-out_depths", "-out_bluespots"):
                i = a.index(o)
                rec.check(dict(command=a[:i] + a[i + 2:]), step, x, a[:i] + a[i + 2:], [a[i + 1]])
        a = [str(v) for v in s.chain.steps[x][1]]
        variants = [a[:1] + [v for o in p for v in o] for p in orders_of(split(a), full)]
        for level in ("DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL", "debug"):
            variants.append(["-v", level] + a)
            if own_verbosity(a[0]):
                variants += [a + ["-v", level], a[:1] + ["--verbosity", level] + a[1:]]
        if "-format" in a:
            i = a.index("-format") + 1
            for f in {a[i].upper(), a[i].lower(), a[i].title()}:
                variants.append(a[:i] + [f] + a[i + 1:])
        if x.startswith("init") and "-mm" in a:
            v = a[a.index("-mm") + 1]
            for m in (v + ".0", v + ".", "0" + v, "%de0" % int(v), " " + v, "+" + v):
                variants.append([m if y == v else y for y in a])
        if x == "hyps":
            for m in ("0.1", ".1", "0.10", "1e-1", "10e-2"):
                variants.append([m if y == opts["zres"] or y == str(opts["zres"]) else y for y in a])
        for v in variants:
            k += 1
            if k % n == sh:
                rec.check(dict(command=v), step, x, v)


def own_verbosity(name):
    """Some commands have no option for their verbosity"""
    from malstroem.scripts.cli import cli as group
    return any("--verbosity" in p.opts for p in group.commands[name].params)


def complete_options(rec, full, sh, n):
    s = Space(rec, dict(zres=0.1, scenarios=["mm:20"], accum=True, vector=True, filter="maxdepth > 0.5 and (area > 4 or volume > 0.5)"))
    want = {}

    def run(args, path="out", cwd=".", dirs=(), links=()):
        d = s.fresh()
        s.inputs(d)
        for x in tuple(dirs) + ("out",):
            os.makedirs(os.path.join(d, x), exist_ok=True)
        for a, b in links:
            os.symlink(b, os.path.join(d, a))
        here = os.getcwd()
        os.chdir(os.path.join(d, cwd))
        try:
            code, exc = cli(*[a.replace("WORK", d) for a in args])
            require(code == 0, "%r failed with exit code %r: %r", args, code, exc)
            os.chdir(here)
            o = os.path.join(d, path)
            require(sorted(os.listdir(o)) == OUT, "%r are written", sorted(os.listdir(o)))
            got = {f: describe_raster(os.path.join(o, f)) for f in OUT if f.endswith(".tif")}
            for l in c19.LAYERS:
                got[l] = describe_layer(os.path.join(o, "malstroem.gpkg"), l)
            if not want:
                want.update(got)
            for f, v in want.items():
                require(got[f] == v, "%s: %s", f, differ(got[f], v))
        finally:
            os.chdir(here)
            shutil.rmtree(d)
        return 1
    base = ["complete", "-dem", "dem.tif", "-outdir", "out", "-mm", "20", "-zresolution", "0.1", "-accum", "-vector", "-filter", "maxdepth > 0.5 and (area > 4 or volume > 0.5)"]
    run(base)
    V = []
    for p in orders_of(split(base), full):
        V.append((base[:1] + [v for o in p for v in o],))
    for level in ("DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"):
        V += [(base + ["-v", level],), (["-v", level] + base,)]

    def other(dem, out):
        return base[:2] + [dem, "-outdir", out] + base[5:]
    V += [(other("WORK/dem.tif", "WORK/out"),), (other("./dem.tif", "./out/"),), (other("dem.tif", "out//"),), (other("../dem.tif", "../out"), "out", "sub", ["sub"]), (other("../dem.tif", "."), "sub", "sub", ["sub"]),
          (other("../dem.tif", "../ln"), "sub", "cwd", ["sub", "cwd"], [("ln", "sub")]), (other("ln.tif", "out"), "out", ".", [], [("ln.tif", "dem.tif")])]
    for x in DIRS:
        V += [(other("dem.tif", x), x, ".", [x]), (other("WORK/dem.tif", "WORK/" + x), x, ".", [x]), (other("WORK/dem.tif", "."), x, x, [x])]
    for k, v in enumerate(V):
        if k % n == sh:
            rec.check(dict(command=v), run, *v)


OUT = sorted(["accum.tif", "bluespots.tif", "bs_depths.tif", "filled.tif", "finalbluespots.tif", "finaldepths.tif", "flowdir.tif", "malstroem.gpkg", "watersheds.tif"])


# ---------------------------------------------------------------------------------------------------------------------

CHILD = """
import sys, os
sys.path.insert(0, %(verif)r)
os.umask(%(umask)r)
from mc import boot
boot.boot()
import logging
logging.disable(logging.NOTSET)
from malstroem.scripts.cli import cli
sys.argv = ["malstroem"] + %(args)r
cli()
"""

ENVIRONMENTS = {
    "hash 0": dict(PYTHONHASHSEED="0"), "hash 1": dict(PYTHONHASHSEED="1"), "hash 2": dict(PYTHONHASHSEED="2"), "hash 3": dict(PYTHONHASHSEED="3"),
    "locale C": dict(LC_ALL="C", LANG="C"), "ascii": dict(LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0"), "locale utf8": dict(LC_ALL="C.UTF-8"), "no locale": dict(LC_ALL=None, LANG=None, LC_CTYPE=None),
    "missing locale": dict(LC_ALL="da_DK.UTF-8", LANG="da_DK.UTF-8"), "utf8 mode": dict(PYTHONUTF8="1"), "ascii output": dict(PYTHONIOENCODING="ascii:strict"), "latin output": dict(PYTHONIOENCODING="latin-1"),
    "tmp blank": dict(TMPDIR="TMP/a b"), "tmp other alphabet": dict(TMPDIR="TMP/\u00e6"), "tmp relative": dict(TMPDIR="."), "tmp missing": dict(TMPDIR="/nonexistent/tmp"), "tmp link": dict(TMPDIR="TMP/ln"), "tmp quote": dict(TMPDIR="TMP/it's%d"),
    "no home": dict(HOME=None), "home missing": dict(HOME="/nonexistent"), "no user": dict(USER=None, LOGNAME=None), "minimal": dict(CLEAR="1"),
    "optimize": dict(PYTHONOPTIMIZE="1"), "optimize 2": dict(PYTHONOPTIMIZE="2"), "debug allocator": dict(PYTHONMALLOC="debug"), "unbuffered": dict(PYTHONUNBUFFERED="1"), "dev mode": dict(PYTHONDEVMODE="1"),
    "no bytecode": dict(PYTHONDONTWRITEBYTECODE="1"), "time zone": dict(TZ="Pacific/Apia"), "columns": dict(COLUMNS="20", TERM="dumb"), "no terminal": dict(TERM=None),
    "umask 077": dict(UMASK="077"), "umask 000": dict(UMASK="000"), "no stdin": dict(STDIN="closed"), "stdin file": dict(STDIN="file"), "output file": dict(STDOUT="file"), "output null": dict(STDOUT="null"),
    "threads": dict(GDAL_NUM_THREADS="ALL_CPUS"), "small cache": dict(GDAL_CACHEMAX="1"), "no dir scan": dict(GDAL_DISABLE_READDIR_ON_OPEN="EMPTY_DIR"), "omp": dict(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1"),
    "small allocations": dict(MALLOC_PERTURB_="85"), "arena": dict(MALLOC_PERTURB_="255", MALLOC_ARENA_MAX="1"),
}


def command(args, cwd, env, tmp):
    e = dict(os.environ)
    if env.get("CLEAR"):
        e = {k: v for k, v in e.items() if k in ("PATH", "LD_LIBRARY_PATH", "PYTHONPATH", "PYTHONHOME", "MC_REPO", "MC_CACHE", "PROJ_LIB", "PROJ_DATA", "GDAL_DATA", "VIRTUAL_ENV")}
    umask, stdin, stdout = 0o022, subprocess.DEVNULL, subprocess.PIPE
    close = False
    for k, v in env.items():
        if k == "UMASK":
            umask = int(v, 8)
        elif k == "STDIN":
            close = v == "closed"
            if v == "file":
                stdin = open(os.path.join(tmp, "in"), "rb")
        elif k == "STDOUT":
            stdout = subprocess.DEVNULL if v == "null" else open(os.path.join(tmp, "o"), "wb")
        elif k == "CLEAR":
            pass
        elif v is None:
            e.pop(k, None)
        else:
            e[k] = v.replace("TMP", tmp) if k == "TMPDIR" else v
    r = subprocess.run([sys.executable, "-c", CHILD % dict(verif=boot.VERIF, umask=umask, args=[str(a) for a in args])], cwd=cwd, env=e, stdin=stdin, stdout=stdout, stderr=subprocess.STDOUT, timeout=200,
                       preexec_fn=(lambda: os.close(0)) if close else None)
    return r.returncode, (r.stdout or b"")[-600:].decode("utf8", "replace")


def tmpdirs(d):
    for x in ("a b", "\u00e6", "real", "it's%d"):
        os.mkdir(os.path.join(d, x))
    os.symlink("real", os.path.join(d, "ln"))
    open(os.path.join(d, "in"), "w").close()


def left(tmp):
    return sorted(os.path.relpath(os.path.join(p, f), tmp) for p, ds, fs in os.walk(tmp) for f in fs + ds if os.path.join(p, f) not in [os.path.join(tmp, x) for x in ("a b", "\u00e6", "real", "it's%d", "ln", "in", "o")])


def environments(rec, opts, pairs, sh, n):
    """Each step, and complete, in processes with each environment"""
    s = Space(rec, opts)
    E = [(k,) for k in ENVIRONMENTS]
    if pairs:
        E = list(itertools.combinations(ENVIRONMENTS, 2))
    want = {}

    def prepare(name, files):
        d = s.fresh()
        tmp = os.path.join(d, "tmp")
        os.mkdir(tmp)
        tmpdirs(tmp)
        w = os.path.join(d, "w")
        if files is None:
            os.mkdir(w)
            s.inputs(w)
        else:
            shutil.copytree(files, w)
        env = {}
        for k in name:
            env.update(ENVIRONMENTS[k])
        return d, tmp, w, env

    def step(name, x):
        need = frozenset().union(*[s.chain.closure(y) for y in s.chain.steps[x][0]]) if s.chain.steps[x][0] else frozenset()
        d, tmp, w, env = prepare(name, s.states.state(need))
        try:
            code, said = command(s.chain.steps[x][1], w, env, tmp)
            require(code == 0, "%s failed with exit code %r: %s", x, code, said)
            for a in s.chain.steps[x][2]:
                got = s.chain.describe(w, a)
                require(got == s.want[a], "%s: %s", a, differ(got, s.want[a]))
            require(not left(tmp), "temporary files are left: %s", left(tmp))
        finally:
            shutil.rmtree(d)
        return 1

    def whole(name):
        d, tmp, w, env = prepare(name, None)
        try:
            os.mkdir(os.path.join(w, "out"))
            code, said = command(["complete", "-dem", "dem.tif", "-outdir", "out", "-mm", "20", "-zresolution", "0.1", "-accum", "-vector", "-filter", "maxdepth > 0.1"], w, env, tmp)
            require(code == 0, "complete failed with exit code %r: %s", code, said)
            o = os.path.join(w, "out")
            require(sorted(os.listdir(o)) == OUT, "%r are written", sorted(os.listdir(o)))
            require(sorted(os.listdir(w)) == sorted(["dem.tif", "rain20.tif", "rain7.tif", "out"]), "there are %s", sorted(os.listdir(w)))
            got = {f: describe_raster(os.path.join(o, f)) for f in OUT if f.endswith(".tif")}
            for l in c19.LAYERS:
                got[l] = describe_layer(os.path.join(o, "malstroem.gpkg"), l)
            if not want:
                want.update(got)
            for f, v in want.items():
                require(got[f] == v, "%s: %s", f, differ(got[f], v))
            require(not left(tmp), "temporary files are left: %s", left(tmp))
        finally:
            shutil.rmtree(d)
        return 1
    whole(())
    k = 0
    for e in E:
        k += 1
        if k % n == sh:
            rec.check(dict(environment=e, command="complete"), whole, e)
        if not pairs:
            for j, x in enumerate(s.chain.order):
                if (k + j) % n == sh and (opts.get("all") or (k + j) % 3 == 0):
                    rec.check(dict(environment=e, command=x), step, e, x)


def jobs(tier):
    J = Jobs()
    T = tier == "thorough"
    one = dict(zres=0.1, scenarios=["mm:20"], accum=True, filter=None, vector=True)
    files = dict(zres=0.1, scenarios=["mm:20"], accum=False, filter="maxdepth > 0.5", vector=True, one=False)
    rain = dict(zres=0.1, scenarios=["pr:20"], accum=False, filter=None, vector=True)
    J.add("names-one", names, one, 1 if T else 4, SH, NS, n=12)
    J.add("names-files", names, files, 1 if T else 4, SH, NS, n=12)
    J.add("layers", layers, rain, 1 if T else 3, SH, NS, n=12)
    J.add("layers-one", layers, one, 1 if T else 5, SH, NS, n=12)
    J.add("places-one", places, rain, SH, NS, n=4)
    J.add("places-files", places, files, SH, NS, n=4)
    J.add("options-one", options, one, 5 if T else 4, SH, NS, n=4)
    J.add("options-rain", options, rain, 5 if T else 3, SH, NS, n=4)
    J.add("options-files", options, files, 5 if T else 3, SH, NS, n=4)
    J.add("complete", complete_options, 7 if T else 4, SH, NS, n=4)
    J.add("environments", environments, dict(one, all=T), False, SH, NS, n=16)
    if T:
        J.add("environment-pairs", environments, one, True, SH, NS, n=32)
    return J
