"""C30: formats, creation options, attribute and layer names which are given to a command are honoured.

Each command which writes vector data is executed with each format, as file, directory or in an existing datasource, and each subset of creation options up to a size in each order. An option has its effect
exactly if it is given, and the contents are always those of the plain run.
"""
import itertools
import os
import shutil
import sqlite3

import numpy as np

from ..core import require, Problem
from ..util import Jobs, SH, NS, cli, read_layer, read_tif, write_tif, layer_names, TRANSFORMS
from . import c19
from .c19 import Chain, States, differ, keyed, near

BOUNDS = ("all commands which write vector data x 9 formats (GeoPackage, shapefile, GeoJSON, GeoJSONSeq, CSV, FlatGeobuf, SQLite, MapInfo, GML) as file, directory, new and existing datasource x all subsets of up to two (three) of their "
          "creation options in each order, given twice, with other values, to the datasource instead of the layer and after other options; the chain with all options left out that have defaults; rain and final volumes under all pairs of attribute names")
ASSUMPTIONS = ["GDAL's drivers follow their documentation", "values are compared with 8 digits, names with the 10 characters a shapefile can hold"]


def sql(path, q, *a):
    c = sqlite3.connect("file:%s?mode=ro" % path, uri=True)
    try:
        return c.execute(q, a).fetchall()
    finally:
        c.close()


def content(path):
    with open(path, "rb") as f:
        return f.read()


def beside(path, layer, ext):
    """File of a layer in a datasource which is a file or a directory"""
    if os.path.isdir(path):
        return os.path.join(path, layer + ext)
    return os.path.splitext(path)[0] + ext


def separator(header):
    return True if b";" in header else False if b"," in header else None


def decimals(b):
    import json
    n = 0
    for f in json.loads(b)["features"]:
        g = f.get("geometry")
        for x in (c19.flat(g)[1:] if g else []):
            n = max(n, len(repr(x).partition(".")[2].rstrip("0")))
    return n


def fast_filter(path):
    from osgeo import ogr
    ds = ogr.Open(path)
    l = ds.GetLayerByIndex(0)
    r = bool(l.TestCapability("FastSpatialFilter"))
    l = None
    ds = None
    return r


# (flag, option, has effect(path, layer, geometric) or None if it does not apply)
GPKG = [("-lco", "SPATIAL_INDEX=NO", lambda p, l, g: not sql(p, "select 1 from sqlite_master where name = ?", "rtree_%s_geom" % l) and not sql(p, "select 1 from sqlite_master where name = ?", "rtree_%s_shape" % l) if g else None),
        ("-lco", "GEOMETRY_NAME=shape", lambda p, l, g: sql(p, "select column_name from gpkg_geometry_columns where table_name = ?", l) == [("shape",)] if g else None),
        ("-lco", "FID=rowno", lambda p, l, g: [r[1] for r in sql(p, 'pragma table_info("%s")' % l) if r[5]] == ["rowno"]),
        ("-lco", "DESCRIPTION=a b, c", lambda p, l, g: sql(p, "select description from gpkg_contents where table_name = ?", l) == [("a b, c",)]),
        ("-dsco", "VERSION=1.3", lambda p, l, g: sql(p, "pragma user_version") == [(10300,)]),
        ("-dsco", "ADD_GPKG_OGR_CONTENTS=NO", lambda p, l, g: not sql(p, "select 1 from sqlite_master where name = 'gpkg_ogr_contents'"))]
CSV = [("-lco", "SEPARATOR=SEMICOLON", lambda p, l, g: separator(content(beside(p, l, ".csv")).split(b"\n")[0])),
       ("-lco", "CREATE_CSVT=YES", lambda p, l, g: os.path.exists(beside(p, l, ".csvt"))),
       ("-lco", "LINEFORMAT=CRLF", lambda p, l, g: b"\r\n" in content(beside(p, l, ".csv"))),
       ("-lco", "WRITE_BOM=YES", lambda p, l, g: content(beside(p, l, ".csv")).startswith(b"\xef\xbb\xbf")),
       ("-lco", "GEOMETRY=AS_WKT", lambda p, l, g: (content(beside(p, l, ".csv")).lstrip(b"\xef\xbb\xbf").lstrip(b'"').startswith(b"WKT")) if g else None)]
SHP = [("-lco", "SPATIAL_INDEX=YES", lambda p, l, g: os.path.exists(beside(p, l, ".qix")) if g else None),
       ("-lco", "ENCODING=ISO-8859-1", lambda p, l, g: content(beside(p, l, ".cpg")).strip() == b"ISO-8859-1" if os.path.exists(beside(p, l, ".cpg")) else False),
       ("-lco", "DBF_DATE_LAST_UPDATE=1999-01-02", lambda p, l, g: content(beside(p, l, ".dbf"))[1:4] == bytes([99, 1, 2]))]
GEOJSON = [("-lco", "COORDINATE_PRECISION=0", lambda p, l, g: decimals(content(p)) == 0 if g else None),
           ("-lco", "DESCRIPTION=a b", lambda p, l, g: b'"description": "a b"' in content(p)),
           ("-lco", "WRITE_BBOX=YES", lambda p, l, g: b'"bbox"' in content(p) if g else None)]
SEQ = [("-lco", "RS=YES", lambda p, l, g: content(p)[:1] == b"\x1e"),
       ("-lco", "COORDINATE_PRECISION=1", lambda p, l, g: None)]
FGB = [("-lco", "SPATIAL_INDEX=NO", lambda p, l, g: not fast_filter(p) if g else None)]
SQLITE = [("-dsco", "METADATA=NO", lambda p, l, g: not sql(p, "select 1 from sqlite_master where name = 'geometry_columns'")),
          ("-lco", "FID=rowno", lambda p, l, g: [r[1] for r in sql(p, 'pragma table_info("%s")' % l) if r[5]] == ["rowno"]),
          ("-lco", "GEOMETRY_NAME=shape", lambda p, l, g: "shape" in [r[1].lower() for r in sql(p, 'pragma table_info("%s")' % l)] if g else None)]
GML = [("-dsco", "FORMAT=GML2", lambda p, l, g: b"gml/3.2" not in content(p)),
       ("-dsco", "PREFIX=zz", lambda p, l, g: b"<zz:FeatureCollection" in content(p))]
MIF = [("-dsco", "FORMAT=MIF", lambda p, l, g: os.path.exists(beside(p, l, ".mif")))]

# format, path, layers named as the file, takes several layers, keeps geometry, layers without geometry, options
FORMATS = {
    "gpkg": ("gpkg", "o.gpkg", False, True, True, True, GPKG),
    "gpkg-existing": ("gpkg", "results.gpkg", False, True, True, True, GPKG[:4]),
    "shp": ("ESRI Shapefile", "o.shp", True, False, True, False, SHP),
    "shp-dir": ("ESRI Shapefile", "odir", False, True, True, True, SHP),
    "geojson": ("GeoJSON", "o.geojson", False, False, True, True, GEOJSON),
    "seq": ("GeoJSONSeq", "o.geojsonl", True, False, False, True, SEQ),
    "csv": ("CSV", "o.csv", True, False, False, True, CSV),
    "csv-dir": ("CSV", "odir", False, True, False, True, CSV),
    "fgb": ("FlatGeobuf", "o.fgb", True, False, True, False, FGB),
    "sqlite": ("SQLite", "o.sqlite", False, True, True, True, SQLITE),
    "tab": ("MapInfo File", "o.tab", True, False, True, False, []),
    "tab-dir": ("MapInfo File", "odir", False, True, True, False, MIF),
    "gml": ("GML", "o.gml", False, False, True, True, GML),
}
LAYER_FLAGS = ("-layername", "-out_layer", "-out_hyps_layer", "-out_nodes_layer", "-out_streams_layer")
DROP = {"x", "y", "wkt", "geometry", "shape", "gml_id", "fid", "ogc_fid", "rowno", "id"}


def plain(fs, geometry, approximate=None):
    """Features for comparison across formats"""
    out = []
    for p, g in keyed(fs):
        p = {k: v for k, v in p.items() if k not in DROP}
        out.append((p, [] if not geometry else g))
    return out


def compare(got, want, geometry, what, tol, nulls):
    a, b = plain(got, geometry), plain(want, geometry)
    require(len(a) == len(b), "%s: %d features, should be %d", what, len(a), len(b))
    for (pa, ga), (pb, gb) in zip(a, b):
        require(set(pa) == set(pb), "%s: attributes %s, should be %s", what, sorted(pa), sorted(pb))
        for k in pa:
            if not nulls:       # there is no null in these formats
                pa[k], pb[k] = pa[k] or 0.0, pb[k] or 0.0
            require(near(pa[k], pb[k]) or same_number(pa[k], pb[k]), "%s: %s is %r, should be %r", what, k, pa[k], pb[k])
        require(len(ga) == len(gb) and all(x == y or (not isinstance(x, str) and not isinstance(y, str) and abs(x - y) <= tol) for x, y in zip(ga, gb)), "%s: geometry %r, should be %r", what, ga[:12], gb[:12])


def same_number(a, b):
    """A number as text"""
    try:
        return abs(float(a) - float(b)) <= 1e-7 * max(1.0, abs(float(a)))
    except (TypeError, ValueError):
        return False


class Space(object):
    def __init__(self, rec, opts, dem):
        self.chain = Chain(opts)
        name, z, nodata = list(c19.dems())[dem]
        root = os.path.join(rec.fresh(), "base")
        os.mkdir(root)
        self.root = root
        self.states = States(self.chain, root, c19.inputs(z, nodata, TRANSFORMS[1], c19.WKT))
        self.full = frozenset(self.chain.order)
        self.states.state(self.full)
        self.n = 0
        self.want = {}
        for x in self.chain.order:
            for a in self.chain.steps[x][2]:
                if not a.endswith(".tif"):
                    p, l = self.chain.layers[a]
                    self.want[a] = read_layer(os.path.join(self.states.state(self.full), p), l)

    def before(self, x):
        self.n += 1
        d = os.path.join(self.root, "w%d" % self.n)
        need = frozenset().union(*[self.chain.closure(y) for y in self.chain.steps[x][0]]) if self.chain.steps[x][0] else frozenset()
        shutil.copytree(self.states.state(need), d)
        return d

    def run(self, x, fmt, options, where):
        """options: sequence of (flag, option); where: before or after the others"""
        driver, path, stem, several, geometry, tables, known = FORMATS[fmt]
        w = self.before(x)
        cwd = os.getcwd()
        os.chdir(w)
        try:
            had = {l: c19.Chain.describe(self.chain, w, a) for a, (p, l) in self.chain.layers.items() if os.path.exists(p) and l in layer_names(p)} if fmt.endswith("existing") else {}
            args = [str(a) for a in self.chain.steps[x][1]]
            names = []
            for i in range(1, len(args)):
                if args[i - 1] == "-out":
                    args[i] = path
                elif args[i - 1] == "-format":
                    args[i] = driver
                elif args[i - 1] in LAYER_FLAGS:
                    if stem:
                        args[i] = "o"
                    names.append(args[i])
            o = [v for p in options for v in p]
            args = args[:1] + o + args[1:] if where else args + o
            code, exc = cli(*args)
            require(code == 0, "%r failed with exit code %r: %r", args, code, exc)
            for a, l in zip(self.chain.steps[x][2], names):
                geometric = bool(self.want[a]) and self.want[a][0].get("geometry") is not None
                rough = any("PRECISION" in v for f, v in options)
                p = path
                if fmt == "csv-dir":
                    p = os.path.join(path, l + ".csv")      # directories of which other files are part are not opened
                compare(read_layer(p, None if fmt == 'csv-dir' else l), self.want[a], geometry and geometric and ('-dsco', 'METADATA=NO') not in options, a, 0.51 if rough else 1e-3, not fmt.startswith('tab'))
                for flag, opt, effect in known:
                    e = effect(path, l, geometric)
                    if e is not None:
                        require(e == ((flag, opt) in options), "%s has %s effect in %s", opt, "no" if not e else "an", a)
            for l, v in had.items():
                for a, (p, y) in self.chain.layers.items():
                    if y == l:
                        got = self.chain.describe(w, a)
                        require(got == v, "%s was changed: %s", a, differ(got, v))
        finally:
            os.chdir(cwd)
            shutil.rmtree(w)
        return 1


def geometric(x):
    return x not in ("hyps", "levels")


def subsets(options, size):
    o = [p[:2] for p in options]
    for k in range(size + 1):
        for c in itertools.permutations(o, k):
            yield list(c)
    for p in o:
        yield [p, p]
        if p[1] != "GEOMETRY=AS_WKT":       # is one of both
            yield [("-dsco" if p[0] == "-lco" else "-lco", p[1])]      # an option of layers is none of datasources


def formats(rec, opts, dem, size, sh, n):
    s = Space(rec, opts, dem)
    k = 0
    for x in s.chain.order:
        if "-format" not in s.chain.steps[x][1]:
            continue
        for fmt, (driver, path, stem, several, geometry, tables, known) in FORMATS.items():
            if x == "network" and (not several or fmt == "tab-dir"):     # MapInfo has no lines of one vertex
                continue
            if not geometric(x) and not tables:
                continue
            for o in subsets(known, size):
                if x == "network" and fmt == "csv-dir" and ("-lco", "CREATE_CSVT=YES") in o:
                    continue        # the driver does not open such a directory for the second layer
                k += 1
                if k % n == sh:
                    rec.check(dict(step=x, format=fmt, options=o), s.run, x, fmt, o, k % 2)


# ---------------------------------------------------------------------------------------------------------------------

REPEATED = {"gpkg": [("FID", "rowno", "number"), ("GEOMETRY_NAME", "shape", "place"), ("DESCRIPTION", "b", "a")], "sqlite": [("FID", "rowno", "number")], "csv": [("SEPARATOR", "SEMICOLON", "TAB")],
            "geojson": [("DESCRIPTION", "b", "a")]}


def seen(path, fmt):
    """What shows which of several values of an option was used"""
    from osgeo import ogr
    if fmt == "geojson":
        return [b'"description": "%s"' % x in content(path) for x in (b"a", b"b")]
    ds = ogr.Open(path)
    l = ds.GetLayerByName("o")
    out = (l.GetFIDColumn(), l.GetGeometryColumn(), l.GetMetadataItem("DESCRIPTION"))
    l = None
    ds = None
    if fmt == "csv":
        h = content(path).split(b"\n")[0]
        out += (b";" in h, b"\t" in h)
    return out


def repeated(rec, opts, dem, sh, n):
    """Options given more than once reach GDAL as they are: the effect is that of GDAL given the same"""
    from osgeo import ogr
    s = Space(rec, opts, dem)

    def run(x, fmt, options):
        driver, path = FORMATS[fmt][:2]
        w = s.before(x)
        cwd = os.getcwd()
        os.chdir(w)
        try:
            os.mkdir("direct")
            ds = ogr.GetDriverByName(driver).CreateDataSource("direct/" + path)
            l = ds.CreateLayer("o", None, ogr.wkbPoint if geometric(x) else ogr.wkbNone, options)
            for a in "ab":
                l.CreateField(ogr.FieldDefn(a, ogr.OFTString))
            f = ogr.Feature(l.GetLayerDefn())
            if l.GetLayerDefn().GetGeomFieldCount():
                f.SetGeometry(ogr.CreateGeometryFromWkt("POINT (1 2)"))
            l.CreateFeature(f)
            f = l = None
            ds = None
            want = seen("direct/" + path, fmt)
            args = [str(a) for a in s.chain.steps[x][1]]
            for i in range(1, len(args)):
                if args[i - 1] == "-out":
                    args[i] = path
                elif args[i - 1] == "-format":
                    args[i] = driver
                elif args[i - 1] in LAYER_FLAGS:
                    args[i] = "o"
            code, exc = cli(*(args + [v for o in options for v in ("-lco", o)]))
            require(code == 0, "%r failed with exit code %r: %r", args, code, exc)
            got = seen(path, fmt)
            require(got == want, "%s: %r has the effect %r, for GDAL it has %r", x, options, got, want)
        finally:
            os.chdir(cwd)
            shutil.rmtree(w)
        return 1
    k = 0
    for x in s.chain.order:
        if "-format" not in s.chain.steps[x][1] or x == "network":
            continue
        for fmt, os_ in REPEATED.items():
            for name, a, b in os_:
                if (name == "GEOMETRY_NAME" and not geometric(x)) or (name == "SEPARATOR" and "polys" in x):
                    continue
                for vs in itertools.product((a, b), repeat=2):
                    for other in (None, "SPATIAL_INDEX=NO"):
                        k += 1
                        if k % n == sh:
                            o = ["%s=%s" % (name, v) for v in vs]
                            rec.check(dict(step=x, format=fmt, repeated=o, other=other), run, x, fmt, o if other is None or fmt != "gpkg" else [o[0], other, o[1]])


def chain_with(rec, dem, sh, n):
    """The chain as documented, where results.gpkg exists after the first vector output: formats and layer names which are defaults are left out"""
    opts = dict(zres=0.1, scenarios=["mm:20"], filter=None, vector=True)
    s = Space(rec, opts, dem)
    defaults = {"pourpts": ["-layername"], "hyps": ["-pourpoints_layer", "-out_hyps_layer"], "network": ["-pourpoints_layer", "-out_nodes_layer", "-out_streams_layer"], "init": ["-nodes_layer", "-out_layer"],
                "final": ["-inputvolumes_layer", "-out_layer"], "levels": ["-hyps_layer", "-out_layer"], "fbs": ["-finallevels_layer"], "fpolys": []}
    known = {"-layername": "pourpoints", "-pourpoints_layer": "pourpoints", "-out_hyps_layer": "hyps", "-out_nodes_layer": "nodes", "-out_streams_layer": "streams", "-nodes_layer": "nodes",
             "-inputvolumes_layer": "initvolumes", "-hyps_layer": "hyps", "-finallevels_layer": "finallevels"}
    outs = {"init": "initvolumes", "final": "finalvolumes", "levels": "finallevels"}

    def run(leave_formats, leave_layers):
        w = s.before("filled")
        cwd = os.getcwd()
        os.chdir(w)
        try:
            first = True
            for x in s.chain.order:
                a = [str(v) for v in s.chain.steps[x][1]]
                if "-format" in a:
                    if not first and x in leave_formats:
                        i = a.index("-format")
                        del a[i:i + 2]
                    first = False
                if x in leave_layers:
                    for f in defaults.get(x, []):
                        if f in a:
                            i = a.index(f)
                            if a[i + 1] == (outs[x] if f == "-out_layer" else known[f]):
                                del a[i:i + 2]
                code, exc = cli(*a)
                require(code == 0, "%r failed with exit code %r: %r", a, code, exc)
            for a, v in s.states.desc[s.full].items():
                got = s.chain.describe(w, a)
                require(got == v, "%s: %s", a, differ(got, v))
        finally:
            os.chdir(cwd)
            shutil.rmtree(w)
        return len(s.chain.order)
    steps = [x for x in s.chain.order if "-format" in s.chain.steps[x][1]]
    sets = [(), steps] + [(x,) for x in steps]
    layers = [(), list(defaults)] + [(x,) for x in defaults]
    k = 0
    for a in sets:
        for b in layers:
            k += 1
            if k % n == sh:
                rec.check(dict(formats_left_out=a, layers_left_out=b), run, a, b)


NAMES = ["inputv", "v", "rain", "Rain 20 mm", "\u00e6", "select", "nodeid2", "INPUTV2", "a.b", "x" * 40, "pr|mm", "it's", "1st", "spillv2", "volume[m3]"]


def attributes(rec, dem, sh, n):
    """-out_attribute of initvolumes and -a of finalvolumes: several events in one layer chain"""
    opts = dict(zres=0.1, scenarios=["mm:20"], filter=None)
    s = Space(rec, opts, dem)
    want = {}

    def amount(mm, raster):
        if not raster:
            return "-mm", mm
        a, t, crs, nd = read_tif("ws.tif")
        write_tif("rain%s.tif" % mm, np.full(a.shape, mm, np.float64), t, crs)
        return "-pr", "rain%s.tif" % mm, "-bluespots", "ws.tif"

    def event(mm, w, one, two, raster, fmt="gpkg", path="r.gpkg"):
        """With rain rasters or amounts, volumes of rain mm under the name one, and of another amount under the name two in a copy of the layer"""
        code, exc = cli("initvolumes", "-nodes", "results.gpkg", *amount(mm, raster & 1), "-out", path, "-out_layer", "a", "-out_attribute", one, "-format", fmt)
        require(code == 0, "exit code %r: %r", code, exc)
        if two is not None:
            code, exc = cli("initvolumes", "-nodes", path, "-nodes_layer", "a", *amount(3 * mm, raster & 2), "-out", path, "-out_layer", "b", "-out_attribute", two, "-format", fmt)
            require(code == 0, "exit code %r: %r", code, exc)
        out = []
        for k, name in enumerate([one] if two is None else [one, two]):
            code, exc = cli("finalvolumes", "-inputvolumes", path, "-inputvolumes_layer", "a" if two is None else "b", "--attribute" if k else "-a", name, "-out", path, "-out_layer", "f%d" % k, "-format", fmt)
            require(code == 0, "exit code %r: %r", code, exc)
            fs = read_layer(path, "f%d" % k)
            out.append(sorted((f["properties"]["nodeid"], f["properties"][name], f["properties"]["v"], f["properties"]["spillv"], f["properties"]["pctv"]) for f in fs))
        return out

    def go(mm, one, two, raster=0):
        w = s.before("init")
        cwd = os.getcwd()
        os.chdir(w)
        try:
            return event(mm, w, one, two, raster)
        finally:
            os.chdir(cwd)
            shutil.rmtree(w)

    def run(mm, one, two, raster):
        for m in (mm, 3 * mm):
            if m not in want:
                want[m] = go(m, "inputv", None)[0]
        got = go(mm, one, two, raster)
        for k, m in enumerate((mm, 3 * mm)):
            for a, b in zip(got[k], want[m]):
                a, b = list(a), list(b)
                if k and two is not None and one == two:
                    pass
                require(all(near(x, y) for x, y in zip(a, b)), "%r of %s mm: %r instead of %r", (one, two)[k], m, a, b)
        return 4
    k = 0
    for one in NAMES:
        for two in NAMES:
            if one == two or "v" in (one, two):     # v is an output
                continue
            k += 1
            if k % n == sh:
                rec.check(dict(attributes=(one, two), rain=k // n % 4), run, (7, 30, 200)[k % 3], one, two, k // n % 4)


def jobs(tier):
    J = Jobs()
    T = tier == "thorough"
    rain = dict(zres=0.1, scenarios=["mm:20"], accum=False, filter=None, vector=True)
    for dem in ((0, 2, 5) if T else (0,)):
        J.add("repeated-%d" % dem, repeated, dict(rain), dem, SH, NS, n=4)
        J.add("formats-%d" % dem, formats, dict(rain), dem, 3 if T else 2, SH, NS, n=16)
    for dem in ((0, 1, 2, 5) if T else (0, 2)):
        J.add("chain-%d" % dem, chain_with, dem, SH, NS, n=4)
        J.add("attributes-%d" % dem, attributes, dem, SH, NS, n=4)
    return J
