"""C16: vector layers round-trip and never disturb other layers."""
import itertools
import json
import os
import numpy as np
from ..core import require, Problem
from ..util import Jobs, SH, NS, Scratch, layer_names, write_tif

BOUNDS = ("all layers of up to 2 (3) features over an alphabet of integer, number and text values (absent and null included) in five formats; all sequences of up to 3 (4) layers out of "
          "eight kinds written into one datasource, every layer re-read after every write, with and without readers kept open; all pairs of 15 layer names (alike, reserved, long, foreign letters), with the last layer written a second time; 0 to 20000 features; coordinate systems; paths; all orders of up to three additional fields; all pairs (triples) of 21 attribute names")
ASSUMPTIONS = ["what a layer holds after it was written twice is not judged, only that other layers are untouched; every write uses a new writer", "values of one type per attribute; which name a format makes of an attribute name it cannot hold is not judged"]

EXT = {"gpkg": "o.gpkg", "GeoJSON": "o.geojson", "ESRI shapefile": "o.shp", "CSV": "o.csv", "SQLite": "o.sqlite"}
TOL = {"gpkg": 1e-14, "SQLite": 1e-14, "GeoJSON": 1e-13, "ESRI shapefile": 1e-13, "CSV": 1e-13}
ABSENT = object()
INTS = [ABSENT, None, 0, -1, 2147483647, 2147483648, 900719925474099]
FLOATS = [ABSENT, None, 0.0, -0.1, 1234567.125, 3.0, 1e-5]
TEXTS = [ABSENT, None, "x", "1|2|3", "l'\"q\" , ;", u"s\u00f8 \u00e6\u00e5", "12"]


def wkt(epsg):
    from osgeo import osr
    s = osr.SpatialReference()
    s.ImportFromEPSG(epsg)
    return s.ExportToWkt()


def same_crs(a, b):
    from osgeo import osr
    if not a or not b:
        return not a and not b
    x, y = osr.SpatialReference(), osr.SpatialReference()
    x.ImportFromWkt(a)
    y.ImportFromWkt(b)
    return bool(x.IsSame(y))


def geomtype(name):
    from osgeo import ogr
    return dict(Point=ogr.wkbPoint, LineString=ogr.wkbLineString, Polygon=ogr.wkbPolygon)[name] if name else ogr.wkbNone


def write(fmt, path, layer, feats, geom, crs, form=0):
    from malstroem.io import VectorWriter
    w = VectorWriter(fmt, path, layer, None, geomtype(geom), crs)
    keep = json.dumps(feats)
    arg = [feats, dict(type="FeatureCollection", features=feats), (f for f in feats), dict(enumerate(feats)).values(), tuple(feats)][form]
    w.write_geojson_features(arg)
    require(json.dumps(feats) == keep, "the features given to the writer were changed")


def same_geometry(a, b, tol, what):
    if b is None:
        require(a is None, "%s: geometry %r, expected none", what, a)
        return
    require(a is not None and a["type"] == b["type"], "%s: geometry %r, expected %r", what, a, b)
    x, y = np.array(list(flat(a["coordinates"]))), np.array(list(flat(b["coordinates"])))
    require(x.shape == y.shape, "%s: geometry %r, expected %r", what, a, b)
    require((np.abs(x - y) <= tol * np.maximum(1, np.abs(y)) * 100).all(), "%s: geometry %r, expected %r", what, a, b)


def flat(c):
    if isinstance(c, (list, tuple)):
        for x in c:
            for y in flat(x):
                yield y
    else:
        yield float(c)


def same_value(fmt, a, b, what):
    if fmt in ("ESRI shapefile", "CSV") and b in (None, ""):
        require(a in (None, ""), "%s: got %r, expected nothing", what, a)
        return
    if b is None:
        require(a is None, "%s: got %r, expected null", what, a)
    elif isinstance(b, str):
        require(a == b or (fmt == "CSV" and str(a) == b), "%s: got %r, expected %r", what, a, b)
    else:
        require(a is not None and a != "", "%s: got %r, expected %r", what, a, b)
        try:
            v = float(a) if fmt == "CSV" or isinstance(b, float) else a
        except ValueError:
            raise Problem("%s: got %r, expected %r" % (what, a, b))
        require(abs(v - b) <= (TOL[fmt] * abs(b) + (1e-14 if fmt == "ESRI shapefile" else 0) if isinstance(b, float) else 0), "%s: got %r, expected %r", what, a, b)


def compare(fmt, got, feats, geom, what):
    require(len(got) == len(feats), "%s: %d features, expected %d", what, len(got), len(feats))
    names = set()
    for f in feats:
        names |= set(f["properties"])
    for n, (g, f) in enumerate(zip(got, feats)):
        w = "%s, feature %d" % (what, n)
        if fmt != "CSV" and geom:
            same_geometry(g.get("geometry"), f["geometry"], TOL[fmt], w)
        p = g["properties"]
        for k in names:
            require(k in p or not feats, "%s: attribute %s is missing", w, k)
            same_value(fmt, p.get(k), f["properties"].get(k), "%s, attribute %s" % (w, k))
        extra = [k for k in p if k not in names and k.lower() not in ("fid", "ogc_fid", "id", "x", "y")]
        require(not extra, "%s: unknown attributes %r", w, extra)


def read(path, layer):
    """By the reader under test, three times"""
    from malstroem.io import VectorReader
    r = VectorReader(path, layer)
    a = r.read_geojson_features()
    keep = json.dumps(a)
    for k, f in enumerate(a):      # what is done to the features of one read is nothing to the next
        f.get("properties").clear()
        f["geometry"] = k
    a.append(None)
    b = r.read_geojson_features()
    a = json.loads(keep)
    r.reset_reader()
    c = r.read_geojson_features()
    require(a == b == c, "repeated reads of layer %s differ: %d, %d, %d features", layer, len(a), len(b), len(c))
    return a, r.crs


def raw(path, layer):
    """Everything of a layer, with OGR directly"""
    from osgeo import ogr
    ds = ogr.Open(path)
    require(ds is not None, "datasource cannot be opened")
    ly = ds.GetLayerByName(layer) if layer else ds.GetLayerByIndex(0)
    require(ly is not None, "layer %s is missing", layer)
    d = ly.GetLayerDefn()
    out = [ly.GetName(), ly.GetGeomType(), ly.GetSpatialRef().ExportToWkt() if ly.GetSpatialRef() else None,
           [(d.GetFieldDefn(i).GetName(), d.GetFieldDefn(i).GetType(), d.GetFieldDefn(i).GetWidth()) for i in range(d.GetFieldCount())]]
    for f in ly:
        g = f.GetGeometryRef()
        out.append((f.GetFID(), None if g is None else bytes(g.ExportToWkb()), [f.GetField(i) for i in range(d.GetFieldCount())]))
    ly = ds = None
    return out


def layername(fmt, layer):
    return None if fmt in ("GeoJSON", "CSV", "ESRI shapefile") else layer


def single(fmt, feats, geom, crs, form=0, sub=""):
    with Scratch() as s:
        if sub:
            os.mkdir(s(sub))
        p = s(os.path.join(sub, EXT[fmt]))
        layer = "o"
        write(fmt, p, layer, feats, geom, crs, form)
        if fmt == "ESRI shapefile" and not geom:
            p = p[:-3] + "dbf"
        got, c = read(p, layername(fmt, layer))
        compare(fmt, got, feats, geom, fmt)
        if geom and (fmt in ("gpkg", "SQLite") or (fmt == "ESRI shapefile" and crs)):
            require(same_crs(c, crs) or (fmt == "gpkg" and not crs and c and "ndefined" in c), "coordinate system is %r, expected %r", c, crs)
    return 4, repr(got)[:300]


def features(cols, geom):
    n = len(next(iter(cols.values())))
    out = []
    for i in range(n):
        x, y = 720000.1 + 1.6 * i, 6190000.123456 - 0.4 * i
        g = dict(Point=[x, y], LineString=[[x, y], [x + 1.5, y - 0.25], [x + 7, y]], Polygon=[[[x, y], [x + 10, y], [x + 10, y - 10], [x, y - 10], [x, y]],
                                                                                         [[x + 1, y - 1], [x + 1, y - 2], [x + 2, y - 2], [x + 2, y - 1], [x + 1, y - 1]]])
        out.append(dict(type="Feature", geometry=dict(type=geom, coordinates=g[geom]) if geom else None,
                        properties=dict((k, v[i]) for k, v in cols.items() if v[i] is not ABSENT)))
    return out


def values(rec, fmt, n, sh, m, step=1):
    """All columns of n features per kind of value; a second column keeps every feature non-empty"""
    k = 0
    for name, alph in (("ints", INTS), ("floats", FLOATS), ("texts", TEXTS)):
        for col in itertools.product(alph, repeat=n):
            if all(c is ABSENT for c in col):
                continue
            if name == "floats" and all(c is ABSENT or c is None or c == int(c) for c in col) and fmt == "CSV":
                continue
            k += 1
            if k % m != sh or (k // m) % step:
                continue
            geom = ("Point", "LineString", "Polygon")[k // m % 3]
            fs = features({"bspot_id": list(range(n)), "attr": list(col)}, geom)
            rec.check(lambda: dict(format=fmt, features=fs), single, fmt, fs, geom, wkt(25832), k // m % 5)


def sparse(rec, fmt):
    """Every subset of three attributes in each of two features, first feature possibly without attributes"""
    pool = dict(a=1, b=2.5, c="t")
    subsets = [dict((k, pool[k]) for k in q) for r in range(4) for q in itertools.combinations("abc", r)]
    for p, q in itertools.product(subsets, repeat=2):
        if not p and not q:
            continue
        fs = features({"z": [0, 1]}, "Point")
        fs[0]["properties"], fs[1]["properties"] = dict(p), dict(q)
        rec.check(dict(format=fmt, features=fs), single, fmt, fs, "Point", wkt(25832))


def sizes(rec, fmt, T):
    for n in (0, 1, 2, 99, 1000, 5000, 20000) + ((100000,) if T else ()):
        for geom in ("Point", "LineString", "Polygon", None):
            if n > 1000 and geom == "Polygon" or n > 5000 and geom != "Point":
                continue
            fs = features({"bspot_id": list(range(n)), "vol": [0.37 * i + 0.25 for i in range(n)], "kind": [None if i % 3 else "pourpoint" for i in range(n)]}, geom) if n else []
            for form in ((0, 1, 2, 3, 4) if n < 100 else (1,)):
                rec.check(dict(format=fmt, features=n, geometry=geom), single, fmt, fs, geom, wkt(25832), form)


def systems(rec, fmt):
    for crs in (None, "", 25832, 4326, 3857, 27700):
        for geom in ("Point", "Polygon", None):
            for sub in ("", u"r\u00f8d gr\u00f8d", "a.b c"):
                fs = features({"bspot_id": [0, 1], "vol": [0.1, None]}, geom)
                if crs == 4326:
                    for f in fs:
                        if geom == "Point":
                            f["geometry"]["coordinates"] = [10.123456, 56.25]
                        elif geom == "Polygon":
                            f["geometry"]["coordinates"] = [[[10.0, 56.25], [10.5, 56.25], [10.5, 56.0], [10.0, 56.0], [10.0, 56.25]]]
                    if fmt == "GeoJSON" and geom == "Polygon":
                        continue
                rec.check(dict(format=fmt, crs=crs, geometry=geom, directory=sub), single, fmt, fs, geom, wkt(crs) if crs else crs, 0, sub)


# ---------------------------------------------------------------------------------------------- several layers
def kinds():
    longtext = "|".join(str(i * 37 % 11) for i in range(400))
    return [
        ("nodes", "Point", 25832, features({"nodeid": [0, 1, 2], "dstrnodeid": [None, 0, 1], "nodetype": ["pourpoint", "pourpoint", "junction"], "v": [0.0, 1.25, None]}, "Point")),
        ("streams", "LineString", 25832, features({"nodeid": [2, 1], "bspot_id": [None, 1]}, "LineString")),
        ("bluespots", "Polygon", 25832, features({"bspot_id": [1, 2, 3, 4]}, "Polygon")),
        ("empty", "Point", 25832, []),
        ("levels", None, 25832, features({"bspot_id": [0, 1], "approx_z": [0.1, -3.7]}, None)),
        ("hyps", None, 25832, features({"bspot_id": [0, 1], "hist": ["", longtext], "zmin": [-999.0, 1.5]}, None)),
        ("nocrs", "Point", None, features({"a": list(range(50)), "b": [ABSENT] * 49 + [3.5]}, "Point")),
        ("other", "Polygon", 3857, features({"x": ["t", None]}, "Polygon")),
    ]


def sequence(fmt, ixs, keep_open):
    K = kinds()
    from malstroem.io import VectorReader
    n = 0
    with Scratch() as s:
        p = s("dir") if fmt == "ESRI shapefile" else s(EXT[fmt])
        if fmt == "ESRI shapefile":
            os.mkdir(p)
        done, snap, readers = [], {}, []
        for i in ixs:
            name, geom, epsg, fs = K[i]
            write(fmt, p, name, fs, geom, wkt(epsg) if epsg else None, i % 5)
            n += 1
            for j in done:
                nm, gm, ep, f = K[j]
                now = raw(p, nm)
                require(now == snap[nm], "layer %s was changed by writing layer %s", nm, name)
                n += 1
            snap[name] = raw(p, name)
            done.append(i)
            if keep_open and fs:
                r = VectorReader(p, name)
                compare(fmt, r.read_geojson_features(), fs, geom, name)
                readers.append(r)
        from osgeo import ogr
        ds = ogr.Open(p)
        byindex = [ds.GetLayerByIndex(k).GetName() for k in range(ds.GetLayerCount())]
        ds = None
        for k, nm in enumerate(byindex):
            for w in [x for x in range(len(K)) if K[x][0] == nm]:
                r = VectorReader(p, k)
                compare(fmt, r.read_geojson_features(), K[w][3], K[w][1], "layer number %d (%s)" % (k, nm))
                n += 1
        r = None
        names = {K[i][0] for i in ixs if fmt != "SQLite" or K[i][1]}  # its driver lists tables with geometry only
        from osgeo import ogr
        ds = ogr.Open(p)
        have = {ds.GetLayerByIndex(k).GetName() for k in range(ds.GetLayerCount())}
        ds = None
        if fmt == "SQLite":
            have &= {k[0] for k in K if k[1]}
        require(have == names, "layers are %r, expected %r", sorted(have), sorted(names))
        for i in ixs:
            name, geom, epsg, fs = K[i]
            got, c = read(p, name)
            compare(fmt, got, fs, geom, name)
            if geom and fmt != "ESRI shapefile":
                require(same_crs(c, wkt(epsg) if epsg else None) or (not epsg and c and "ndefined" in c), "layer %s: coordinate system is %r", name, c)
            n += 1
        readers = None
    return n, tuple(len(snap[K[i][0]]) for i in ixs)


def sequences(rec, fmt, length, sh, n, step=1):
    ok = [i for i, k in enumerate(kinds()) if fmt != "ESRI shapefile" or (k[1] and k[3])]
    k = 0
    for ixs in itertools.permutations(ok, length):
        for keep in (0, 1):
            k += 1
            if k % n != sh or (k // n) % step:
                continue
            rec.check(dict(format=fmt, layers=[kinds()[i][0] for i in ixs], readers_open=keep), sequence, fmt, ixs, keep)


NAMES = ["nodes", "nodes2", "node", "my nodes", "2nodes", "nodes.old", "nodes-a", "nodes_a", "order", "group", u"b\u00e6kke", "a" * 60, "NODES_1", "n", "o"]


def names(fmt, ixs, again):
    """Layers whose names are alike, the last one written once more (allowed to fail, not to touch the others)"""
    done, snap = [], {}
    with Scratch() as s:
        p = s("dir") if fmt == "ESRI shapefile" else s(EXT[fmt])
        if fmt == "ESRI shapefile":
            os.mkdir(p)
        for j, i in enumerate(ixs):
            name = NAMES[i]
            fs = features({"bspot_id": list(range(j + 2)), "v%d" % j: [0.5 * k for k in range(j + 2)]}, "Point")
            write(fmt, p, name, fs, "Point", wkt(25832), j)
            for nm in snap:
                require(raw(p, nm) == snap[nm], "layer %s was changed by writing layer %s", nm, name)
            snap[name] = raw(p, name)
            done.append((name, fs))
        have = layer_names(p)
        require(have == sorted(n for n, f in done), "layers are %r, expected %r", have, sorted(n for n, f in done))
        for name, fs in done:
            compare(fmt, read(p, name)[0], fs, "Point", name)
        last = NAMES[ixs[-1]]
        if again:
            fs = features({"bspot_id": [9], "w": ["t"]}, "Point")
            try:
                if again == 1:
                    write(fmt, p, last, fs, "Point", wkt(25832))
                else:
                    from malstroem.vector import vectorize_labels_file_io
                    write_tif(s("l.tif"), np.array([[1, 0], [2, 2]], np.int32), (0.0, 1.0, 0.0, 0.0, 0.0, -1.0), "", 0)
                    vectorize_labels_file_io(s("l.tif"), p, last, fmt, quiet=True)
            except (MemoryError, KeyboardInterrupt):
                raise
            except Exception:
                pass
            have = layer_names(p)
            for nm in snap:
                if nm != last:
                    require(nm in have, "layer %s was removed by writing layer %s again", nm, last)
                    require(raw(p, nm) == snap[nm], "layer %s was changed by writing layer %s again", nm, last)
    return len(ixs) + (again > 0)


def alike(rec, fmt, length, sh, n, step=1):
    k = 0
    pool = [i for i, m in enumerate(NAMES) if not (fmt == "ESRI shapefile" and "." in m or fmt == "SQLite" and ("-" in m or m != m.lower()))]    # SQLite tables are named in lower case
    for ixs in itertools.permutations(pool if length < 3 else pool[:5], length):
        for again in (0, 1, 2):
            k += 1
            if k % n != sh or (k // n) % step:
                continue
            rec.check(dict(format=fmt, layers=[NAMES[i] for i in ixs], again=again), names, fmt, ixs, again)


ATTRIBUTES = ["a", "A", "b c", u"\u00e6", "abcdefghij", "abcdefghijk", "abcdefghijl", "ABCDEFGHIJ", "Abcdefghijkm", "x" * 40, "a.b", "1a", "select", "it's", 'say "b"', "a,b", "a|b", "hist_lower_bound", "hist_lower_count", "_", "a_1"]


def attributes(rec, fmt, size, sh, n):
    """Each feature has the values of its attributes, in the order of the attributes, whatever they are called and whatever the format makes of their names"""
    def run(names):
        with Scratch() as s:
            p = s(EXT[fmt])
            values = [[1, 2.5, "x", 7][:len(names)], [3, 4.25, "y", 8][:len(names)]]
            fs = [dict(type="Feature", geometry=dict(type="Point", coordinates=[1.0, 2.0]), properties=dict(list(zip(names, v))[:: 1 - 2 * k])) for k, v in enumerate(values)]
            write(fmt, p, "o", fs, "Point", None)
            got = raw(p, layername(fmt, "o"))
            f = [x[0] for x in got[3]]
            require(len(f) == len(names), "there are fields %r for attributes %r", f, names)
            same = [x for x in f if x in names]
            require(fmt in ("ESRI shapefile", "SQLite") or f == list(names), "there are fields %r for attributes %r", f, names)
            require(fmt != "ESRI shapefile" or all(x == y for x, y in zip(f, names) if len(y.encode("utf8")) <= 10 and len({z.lower()[:10] for z in names}) == len(names)), "there are fields %r for attributes %r", f, names)
            for k, v in enumerate(values):
                r = got[4 + k][2]
                for x, y, z in zip(r, v, names):
                    same_value(fmt, x, y, "feature %d, attribute %r" % (k, z))
        return 1, tuple(same)
    k = 0
    for c in itertools.permutations(ATTRIBUTES, size):
        k += 1
        if k % n != sh:
            continue
        if fmt in ("gpkg", "SQLite", "CSV") and len({x.lower() for x in c}) < size:
            continue        # those do not tell such names apart
        if fmt == "CSV" and set(c) & {"b c", "a|b", "a,b", 'say "b"'}:
            continue        # taken for separators by the driver when it reads them
        rec.check(dict(format=fmt, attributes=c), run, c)


def additional(rec, fmt):
    """Additional fields asked for are created, hold nothing, and leave the attributes of the features where they belong"""
    from osgeo import ogr
    from malstroem.io import VectorWriter
    kinds = [("p", ogr.OFTInteger), ("q", ogr.OFTReal), ("r", ogr.OFTString)]

    def run(extra, cols, kind):
        fs = features(dict((c, [5, None, 7] if c != "t" else ["x", None, "12"]) for c in cols), "Point")
        with Scratch() as s:
            p = s(EXT[fmt])
            defs = [ogr.FieldDefn(*kinds[i]) for i in extra]
            w = VectorWriter(fmt, p, "o", (defs, tuple(defs), (d for d in defs))[kind], ogr.wkbPoint, wkt(25832))
            w.write_geojson_features(fs)
            del w
            r = raw(p, layername(fmt, "o"))
            have = [x[0] for x in r[3]]
            want = [kinds[i][0] for i in extra if fmt != "GeoJSON"] + list(cols)     # a GeoJSON file has no place for fields nothing is in
            require(sorted(x for x in have if x in want) == sorted(want), "there are fields %r, expected %r", have, want)
            for i in extra:
                if fmt not in ("CSV", "GeoJSON"):
                    require(r[3][have.index(kinds[i][0])][1] == kinds[i][1] or fmt == "ESRI shapefile", "field %s has type %d", kinds[i][0], r[3][have.index(kinds[i][0])][1])
            require(len(r) == 4 + len(fs), "%d features, expected %d", len(r) - 4, len(fs))
            for f, g in zip(fs, r[4:]):
                for c, v in zip(have, g[2]):
                    if c in want:
                        same_value(fmt, v, f["properties"].get(c), "attribute %s of a layer with additional fields" % c)
        return 1, repr((have, r[4:]))
    for k in range(4):
        for extra in itertools.permutations(range(3), k):
            for m in (1, 2, 3):
                for cols in itertools.permutations(("a", "b", "t"), m):
                    for kind in range(3):
                        rec.check(dict(format=fmt, additional=extra, attributes=cols, given_as=kind), run, extra, cols, kind)


def jobs(tier):
    J = Jobs()
    T = tier == "thorough"
    for fmt in EXT:
        J.add("sizes-" + fmt, sizes, fmt, T)
    for fmt in EXT:
        J.add("values1-" + fmt, values, fmt, 1, SH, NS)
        J.add("values2-" + fmt, values, fmt, 2, SH, NS, n=2)
        if T:
            J.add("values3-" + fmt, values, fmt, 3, SH, NS, 1, n=16)
        J.add("sparse-" + fmt, sparse, fmt)
        J.add("additional-" + fmt, additional, fmt)
        J.add("systems-" + fmt, systems, fmt)
        J.add("attributes1-" + fmt, attributes, fmt, 1, SH, NS)
        J.add("attributes2-" + fmt, attributes, fmt, 2, SH, NS, n=2)
        if T:
            J.add("attributes3-" + fmt, attributes, fmt, 3, SH, NS, n=8)
    for fmt in ("gpkg", "SQLite", "ESRI shapefile"):
        J.add("pairs-" + fmt, sequences, fmt, 2, SH, NS)
        J.add("triples-" + fmt, sequences, fmt, 3, SH, NS, n=4)
        J.add("names-" + fmt, alike, fmt, 2, SH, NS, 1 if T else 2, n=4)
        J.add("names3-" + fmt, alike, fmt, 3, SH, NS, n=2)
        if T:
            J.add("quads-" + fmt, sequences, fmt, 4, SH, NS, n=16)
    return J
