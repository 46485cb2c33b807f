"""C25: what the features of an intermediate layer say decides the results, not their order, FIDs, or further or left over attributes."""
import itertools
import json
import os
import random
import shutil

import numpy as np

from .. import ref, spaces
from ..core import require, Problem
from ..util import Jobs, SH, NS, use, MemRaster, MemVector, pipeline, close, write_tif, read_tif, read_layer, run_ok, TRANSFORMS
from . import c09, c10, c19

BOUNDS = ("each layer read by a tool (pour points, nodes, initial volumes, final volumes, hypsometry, levels) of DEM families: all orders of up to 4 (5) features, all rotations and "
          "reversals of more, with new FIDs, with further attributes, with left over attributes of the names the tool writes; all orders for the pour points of funnels, for the nodes of all small forests, "
          "and for the label rasters of hypsometry; through the subcommands for GeoPackage, shapefile, GeoJSON, CSV")
ASSUMPTIONS = ["IDs 0..n each have a pour point", "junction nodes may get other IDs: they are identified by their cell", "elevations and rain are such that sums are exact in any order"]


# ---- orders and disguises

def orders(n, full):
    """Other orders than 0..n-1"""
    if n <= full:
        return list(itertools.permutations(range(n)))[1:]
    out = [list(range(k, n)) + list(range(k)) for k in range(1, n)] if n <= 12 else [list(range(k, n)) + list(range(k)) for k in (1, 2, n // 2, n - 1)]
    out += [list(range(n))[::-1], list(range(n))[1::2] + list(range(n))[::2], sorted(range(n), key=lambda i: (i * 7919 + 3) % n)]
    for k in range(min(n - 1, 12)):     # neighbours swapped
        o = list(range(n))
        o[k], o[k + 1] = o[k + 1], o[k]
        out.append(o)
    out.append([0] + list(range(n - 1, 0, -1)))
    return out


WRITTEN = {     # attributes of tools, which may be left over in their inputs
    "pourpoints": ["hist_counts", "hist_num_bins", "hist_lower_bound", "hist_upper_bound", "hist_resolution", "zmin", "zmax", "cell_area", "nodeid", "dstrnodeid", "nodetype", "inputv", "v"],
    "nodes": ["inputv", "spillv", "v", "pctv"],
    "initvolumes": ["spillv", "v", "pctv"],
    "hyps": ["nodeid", "nodetype", "v", "approx_z"],
    "finalvolumes": ["approx_z", "approx_dmax", "zmin", "zmax", "cell_area"],
    "finallevels": ["depth", "value"],
}
PLAIN, FIDS, MORE, LEFT = range(4)


def disguise(fs, order, how, kind):
    out = []
    for k, i in enumerate(order):
        f = json.loads(json.dumps(fs[i]))
        if how == FIDS:
            f["id"] = (7 * k + 3) % 1009
        elif how == MORE:
            f.pop("id", None)
            f["properties"] = dict([("aaa", "x%d" % k), ("note", None)] + list(f["properties"].items()) + [("area", 1.5 * k), ("zzz", k)])
        elif how == LEFT:
            for a in WRITTEN[kind]:
                if a not in f["properties"]:
                    f["properties"][a] = {"nodetype": "junction", "hist_counts": "5|6"}.get(a, 17 + k)
        out.append(f)
    return out


def extras(kind, how):
    return {"aaa", "note", "area", "zzz"} if how == MORE else set(WRITTEN[kind]) if how == LEFT else set()


# ---- comparison

def canonical(fs, drop=()):
    """{key: attributes} where junctions are named by their cell"""
    name = {}
    for f in fs:
        p = f["properties"]
        if "nodeid" in p and "nodetype" in p and "nodeid" not in drop:
            k = ("j", p["cell_row"], p["cell_col"]) if p["nodetype"] == "junction" else ("p", p["nodeid"])
            require(p["nodeid"] not in name, "node %r twice", p["nodeid"])
            name[p["nodeid"]] = k
    out = {}
    for f in fs:
        p = {k: v for k, v in f["properties"].items() if k not in drop}
        if "nodeid" in p:
            p["nodeid"] = name.get(p["nodeid"], p["nodeid"])
            p["dstrnodeid"] = name.get(p["dstrnodeid"], p["dstrnodeid"])
            key = p["nodeid"]
        else:
            key = ("b", p["bspot_id"])
        require(key not in out, "%r twice", key)
        g = f.get("geometry")
        out[key] = (p, json.dumps(g, sort_keys=True) if g else None)
    return out


def lines(fs, nodes):
    """Stream lines by the node they start at"""
    name = {}
    for f in nodes:
        p = f["properties"]
        name[p["nodeid"]] = ("j", p["cell_row"], p["cell_col"]) if p["nodetype"] == "junction" else ("p", p["nodeid"])
    out = {}
    for f in fs:
        p = f["properties"]
        require(p["nodeid"] in name and (p["dstrnodeid"] is None or p["dstrnodeid"] in name), "stream of an unknown node: %r", p)
        k = name[p["nodeid"]]
        require(k not in out, "two streams from %r", k)
        out[k] = ({"to": name.get(p["dstrnodeid"])}, json.dumps(f["geometry"]))
    return out


def equal(got, want, what):
    require(set(got) == set(want), "%s: %s instead of %s", what, sorted(set(got) - set(want), key=repr)[:5], sorted(set(want) - set(got), key=repr)[:5])
    for k, (p, g) in want.items():
        q, h = got[k]
        require(set(p) <= set(q), "%s: attributes %s of %r are missing", what, sorted(set(p) - set(q)), k)
        for a, v in p.items():
            w = q[a]
            ok = close(w, v) if isinstance(v, (int, float)) and isinstance(w, (int, float)) else w == v
            require(ok, "%s: %s of %r is %r, in the original order %r", what, a, k, w, v)
        require(g == h, "%s: geometry of %r is %r, in the original order %r", what, k, h, g)


# ---- the tools

def dem_inputs(dem, tr):
    from malstroem.bluespots import BluespotTool
    p = pipeline(dem)
    lab, ws, pp = MemRaster(), MemRaster(), MemVector()
    BluespotTool(MemRaster(p["depths"], tr), MemRaster(p["flowdir"], tr), None, lab, pp, ws, input_dem=MemRaster(dem, tr)).process()
    return dict(dem=dem, flowdir=p["flowdir"], lab=lab.out, ws=ws.out, tr=tr), pp.out


def streams(R, pp, geometric=True):
    from malstroem.streams import StreamTool
    n, l = MemVector(), MemVector() if geometric else None
    StreamTool(MemVector(pp), MemRaster(R["lab"], R["tr"]), MemRaster(R["flowdir"], R["tr"]), n, l).process()
    return n.out, l.out if geometric else []


def rain_mm(nodes):
    from malstroem.rain import SimpleVolumeTool
    o = MemVector()
    SimpleVolumeTool(MemVector(nodes), o, "inputv", 1000).process()
    return o.out


def rain_raster(R, nodes):
    from malstroem.rain import RasterVolumeTool, Unit
    o = MemVector()
    pr = np.float32(np.arange(R["ws"].size).reshape(R["ws"].shape) % 5)
    RasterVolumeTool(MemVector(nodes), MemRaster(R["ws"], R["tr"]), MemRaster(pr, R["tr"]), Unit.m3, o, "inputv").process()
    return o.out


def final(vols):
    from malstroem.network import FinalStateCalculator
    o = MemVector()
    FinalStateCalculator(MemVector(vols), "inputv", o).process()
    return o.out


def hypsometry(R, pp):
    from malstroem.hyps import bluespot_hypsometry_io
    o = MemVector()
    bluespot_hypsometry_io(MemRaster(R["lab"], R["tr"]), MemRaster(R["dem"], R["tr"]), MemVector(pp), 0.25, o)
    return o.out


def levels(fv, hy):
    from malstroem.approx import approx_water_level_io
    o = MemVector()
    approx_water_level_io(MemVector(fv), MemVector(hy), o)
    return o.out


def extents(R, lv):
    from malstroem.approx import approx_bluespots_io
    d, b = MemRaster(), MemRaster()
    approx_bluespots_io(MemRaster(R["lab"], R["tr"]), MemVector(lv), MemRaster(R["dem"], R["tr"]), d, b)
    return d.out, b.out


STAGES = ("streams", "network", "hyps", "mm", "raster", "final", "levels", "levels-hyps", "extents")


class Case(object):
    """All results in the original order, calculated on demand"""

    def __init__(self, dem, tr):
        self.R, self.pp = dem_inputs(dem, tr)
        self.nodes, self.lines = streams(self.R, self.pp)
        self.simple = streams(self.R, self.pp, False)[0]
        self.mm = rain_mm(self.nodes)
        self.fv = final(self.mm)
        self.hy = hypsometry(self.R, self.pp)
        self.lv = levels(self.fv, self.hy)
        self.ext = extents(self.R, self.lv)
        self.c = dict(nodes=canonical(self.nodes), lines=lines(self.lines, self.nodes), simple=canonical(self.simple), mm=canonical(self.mm), raster=canonical(rain_raster(self.R, self.nodes)),
                      fv=canonical(self.fv), hy=canonical(self.hy), lv=canonical(self.lv))

    def input(self, stage):
        return {"streams": (self.pp, "pourpoints"), "network": (self.pp, "pourpoints"), "hyps": (self.pp, "pourpoints"), "mm": (self.nodes, "nodes"), "raster": (self.nodes, "nodes"),
                "final": (self.mm, "initvolumes"), "levels": (self.fv, "finalvolumes"), "levels-hyps": (self.hy, "hyps"), "extents": (self.lv, "finallevels")}[stage]

    def run(self, stage, order, how):
        fs, kind = self.input(stage)
        x = disguise(fs, order, how, kind)
        drop = set()
        if stage in ("hyps", "final", "mm", "raster", "levels"):     # these copy all attributes
            drop = extras(kind, how)
            want = {"hyps": "hy", "final": "fv", "mm": "mm", "raster": "raster", "levels": "lv"}[stage]
            got = {"hyps": lambda: hypsometry(self.R, x), "final": lambda: final(x), "mm": lambda: rain_mm(x), "raster": lambda: rain_raster(self.R, x), "levels": lambda: levels(x, self.hy)}[stage]()
            keep = set()
            for p, _ in self.c[want].values():
                keep |= set(p)
            equal(canonical(got, drop - keep), self.c[want], stage)
        elif stage == "streams":
            n, l = streams(self.R, x)
            equal(canonical(n), self.c["nodes"], "nodes")
            equal(lines(l, n), self.c["lines"], "streams")
        elif stage == "network":
            equal(canonical(streams(self.R, x, False)[0]), self.c["simple"], "nodes without streams")
        elif stage == "levels-hyps":
            equal(canonical(levels(self.fv, x)), self.c["lv"], "levels")
        else:
            d, b = extents(self.R, x)
            require(np.array_equal(d, self.ext[0]), "depths depend on the order of the levels")
            require(np.array_equal(b, self.ext[1]), "final bluespots depend on the order of the levels")
        return 1, (stage, len(fs), self.R["lab"].tobytes())


def dems(rec, G, full, tr):
    """Every stage with every order and disguise"""
    case = Case(G, tr)
    for stage in STAGES:
        fs, _ = case.input(stage)
        n = len(fs)
        for k, o in enumerate([tuple(range(n))] + list(orders(n, full))):
            hows = (FIDS, MORE, LEFT) if k == 0 else (PLAIN, 1 + k % 3)
            for how in hows:
                rec.check(lambda: dict(dem=G, transform=tr, stage=stage, order=o, disguise=("none", "FIDs", "further attributes", "left over attributes")[how]), case.run, stage, o, how)


def family(rec, shape, lev, wall, outl, sh, n, step, full):
    use(True)
    for k, g in enumerate(spaces.basins(shape, lev, wall, outl, np.float32, sh, n)):
        if k % step:
            continue
        try:
            dems(rec, g, full, TRANSFORMS[k % 6])
        except Problem as e:
            raise Problem("%s for %r" % (e, g.tolist()))


def textures(rec, R, C, k, lv):
    use(True)
    dems(rec, spaces.texture(R, C, k, lv).astype(np.float32), 4, TRANSFORMS[k % 6])


# ---- networks with junctions

def funnel(rec, R, C, sh, n, catch, pprows, full, step=1):
    """As in C09, with every order of the pour points"""
    inner = spaces.interior((R, C))
    alph = [[ref.edge_code(r, c, R, C)] if (r, c) not in inner else [4] + [5] * (c > 1) + [3] * (c < C - 2) for r in range(R) for c in range(C)]
    lab = np.zeros((R, C), np.int32)
    pps = [(0, 0)]
    for c in list(catch) + [c for c in inner if c[0] in pprows]:
        if lab[c] == 0:
            lab[c] = len(pps)
            pps.append(c)
    tr = TRANSFORMS[1]
    pp = [dict(type="Feature", id=i, geometry=dict(type="Point", coordinates=list(c09.cell_centre(tr, *c))),
               properties=dict(bspot_id=i, cell_row=c[0], cell_col=c[1], bspot_area=1.5 * i, bspot_vol=2.0 * i, wshed_area=3.0 + i)) for i, c in enumerate(pps)]
    O = orders(len(pp), full)
    for j, fd in enumerate(spaces.grids((R, C), alph, np.uint8, sh, n)):
        if j % step:
            continue
        X = dict(flowdir=fd, lab=lab, tr=tr)
        want = streams(X, pp)
        cn, cl = canonical(want[0]), lines(want[1], want[0])

        def one(o, how):
            got = streams(X, disguise(pp, o, how, "pourpoints"))
            equal(canonical(got[0]), cn, "nodes")
            equal(lines(got[1], got[0]), cl, "streams")
            # IDs of junctions do not collide with those of bluespots
            for f in got[0]:
                if f["properties"]["nodetype"] == "junction":
                    require(f["properties"]["nodeid"] >= len(pp), "junction has ID %r of a bluespot", f["properties"]["nodeid"])
            return 1, tuple(x["properties"]["dstrnodeid"] for x in want[0])
        for k, o in enumerate(O):
            rec.check(lambda: dict(flowdir=fd, pourpoints=pps, order=o), one, o, (0, 1, 2, 3)[k % 4])


def networks(rec, n, caps, ins, sh, nsh):
    """Final states of all forests, nodes in all orders"""
    k = 0
    for parents in c10.forests(n):
        for cs in itertools.product(caps, repeat=n):
            for vs in itertools.product(ins, repeat=n):
                k += 1
                if k % nsh != sh:
                    continue
                for ids in ([3, 0, 2, 1, 4][:n],):
                    fs = [dict(type="Feature", id=i, geometry=dict(type="Point", coordinates=[i, i]), properties=q)
                          for i, q in enumerate(c10.nodes_of(parents, cs, ids, {"inputv": vs}))]
                    for f in fs:
                        f["properties"].update(cell_row=0, cell_col=f["properties"]["nodeid"])
                    want = canonical(final(fs))

                    def one(o, how):
                        got = canonical(final(disguise(fs, o, how, "initvolumes")), extras("initvolumes", how) - {"v", "spillv", "pctv"})
                        equal(got, want, "finalvolumes")
                        return 1
                    for j, o in enumerate(itertools.permutations(range(n))):
                        rec.check(lambda: dict(parents=parents, capacities=cs, inputs=vs, ids=ids, order=o), one, o, (k + j) % 4)


def hists(rec, shape, nl, sh, n, step):
    """Hypsometry and levels: pour points, final volumes and histograms in all orders"""
    dem = (np.arange(shape[0] * shape[1]) * 5 % 7).reshape(shape).astype(np.float32) * 0.5
    for j, L in enumerate(spaces.grids(shape, list(range(nl)), np.int32, sh, n)):
        if j % step or L.max() != nl - 1 or len(np.unique(L)) != nl:
            continue
        R = dict(lab=L, dem=dem, tr=TRANSFORMS[0])
        pp = [dict(type="Feature", id=i, geometry=None, properties=dict(bspot_id=i, bspot_dmax=1.5 if i else 0.0, bspot_vol=3.0 if i else 0.0)) for i in range(nl)]
        fv = [dict(type="Feature", id=i, geometry=None, properties=dict(nodeid=i, dstrnodeid=None, bspot_id=i, nodetype="pourpoint", cell_row=0, cell_col=i, v=0.5 * i)) for i in range(nl)]
        hy = hypsometry(R, pp)
        chy, lv = canonical(hy), levels(fv, hy)
        clv, ext = canonical(lv), extents(R, lv)

        def one(o, o2, how):
            h = hypsometry(R, disguise(pp, o, how if how != LEFT else PLAIN, "pourpoints"))
            equal(canonical(h, extras("pourpoints", how) if how == MORE else ()), chy, "hypsometry")
            v = levels(disguise(fv, o2, how, "finalvolumes"), h)
            equal(canonical(v, (extras("finalvolumes", how) - {"approx_z", "approx_dmax"}) if how else ()), clv, "levels")
            e = extents(R, v)
            require(np.array_equal(e[0], ext[0]) and np.array_equal(e[1], ext[1]), "final depths or bluespots depend on the order")
            return 2
        P = list(itertools.permutations(range(nl)))
        for k, (o, o2) in enumerate(itertools.product(P, P)):
            rec.check(lambda: dict(ids=L, order=o, order2=o2), one, o, o2, k % 4)


# ---- the subcommands

def rewrite(path, layer, order_of, how, kind):
    """Replaces the layer by one with the same features in another order, written with OGR directly"""
    from osgeo import ogr, gdal
    gdal.UseExceptions()
    path = os.path.abspath(path)
    ds = ogr.Open(path, 1)
    lyr = ds.GetLayerByName(layer) if layer else ds.GetLayerByIndex(0)
    drv = ds.GetDriver().GetName()
    defn = lyr.GetLayerDefn()
    fields = [defn.GetFieldDefn(i) for i in range(defn.GetFieldCount())]
    spec = [(f.GetName(), f.GetType(), f.GetWidth(), f.GetPrecision()) for f in fields]
    feats = []
    lyr.ResetReading()
    for f in lyr:
        g = f.GetGeometryRef()
        feats.append((g.Clone() if g else None, [f.GetField(i) if f.IsFieldSetAndNotNull(i) else None for i in range(len(spec))]))
    gt, srs = lyr.GetGeomType(), lyr.GetSpatialRef()
    srs = srs.Clone() if srs else None
    name = lyr.GetName()
    lyr = None
    if drv == "GPKG":
        ds.DeleteLayer([i for i in range(ds.GetLayerCount()) if ds.GetLayerByIndex(i).GetName() == name][0])
    else:
        ds = None
        ogr.GetDriverByName(drv).DeleteDataSource(path)
        ds = ogr.GetDriverByName(drv).CreateDataSource(path)
    new = [("a_" + kind[:6], ogr.OFTString, 0, 0), ("z_" + kind[:6], ogr.OFTInteger, 0, 0)] if how == MORE else []
    left = [(a, ogr.OFTReal, 0, 0) for a in WRITTEN[kind] if a not in ("nodetype", "hist_counts", "nodeid", "dstrnodeid")] if how == LEFT else []
    cut = 10 if drv == "ESRI Shapefile" else 99
    left = [(x[0][:cut],) + x[1:] for x in left if x[0][:cut] not in [s[0] for s in spec]]
    lco = ["GEOMETRY=AS_WKT"] if drv == "CSV" and gt != ogr.wkbNone else []
    lyr = ds.CreateLayer(name, srs, gt, lco)
    for n, t, w, pr in new[:1] + spec + left + new[1:]:
        fd = ogr.FieldDefn(n, t)
        if drv == "ESRI Shapefile":
            fd.SetWidth(w)
            fd.SetPrecision(pr)
        lyr.CreateField(fd)
    for k, i in enumerate(order_of(len(feats))):
        g, vals = feats[i]
        f = ogr.Feature(lyr.GetLayerDefn())
        if g:
            f.SetGeometry(g)
        for (n, t, w, pr), v in zip(spec, vals):
            ix = f.GetFieldIndex(n)
            if v is None:
                f.SetFieldNull(ix)
            else:
                f.SetField(ix, v)
        for n, t, w, pr in new:
            f.SetField(n, k)
        for n, t, w, pr in left:
            f.SetField(n, 17.5 + k)
        if how == FIDS and drv == "GPKG":
            f.SetFID(100 - 3 * k if len(feats) < 30 else 5 * k + 11)
        lyr.CreateFeature(f)
    lyr = None
    ds = None


ORDERS = (("reversed", lambda n: list(range(n))[::-1]), ("rotated", lambda n: list(range(1, n)) + [0]), ("interleaved", lambda n: list(range(n))[1::2] + list(range(n))[::2]),
          ("last first", lambda n: [n - 1] + list(range(n - 1)) if n else []))
KINDS = {"pourpoints": "pourpoints", "nodes": "nodes", "initvolumes": "initvolumes", "finalstate": "finalvolumes", "hypsometry": "hyps", "finallevels": "finallevels"}


def tables(chain, d):
    out = {}
    names = {}
    for a in chain.outputs(chain.order):
        if a.endswith(".tif"):
            out[a] = read_tif(os.path.join(d, a))[0]
            continue
        p, l = chain.layers[a]
        fs = read_layer(os.path.join(d, p), l)
        for f in fs:
            f.pop("id", None)
        if a in ("bluespots", "watersheds", "finalbluespots"):
            continue        # polygons of the rasters
        names[a] = fs
    return out, names


def commands(rec, ix, one, sh, n):
    name, dem, nodata = list(c19.dems())[ix]
    opts = dict(zres=0.5, accum=False, scenarios=["mm:1000"], one=one)
    chain = c19.Chain(opts)
    root = rec.fresh()
    base = os.path.join(root, "base")

    def run(d, change=None):
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        c19.inputs(dem, nodata, TRANSFORMS[1], c19.WKT)(d)
        cwd = os.getcwd()
        os.chdir(d)
        try:
            for x in chain.order:
                run_ok(*chain.steps[x][1])
                if change:
                    for a in chain.steps[x][2]:
                        if a in KINDS:
                            change(a)
        finally:
            os.chdir(cwd)
        return tables(chain, d)
    R0, L0 = run(base)

    def attempt(which, order, how):
        def change(a):
            if which in (a, "all"):
                p, l = chain.layers[a]
                rewrite(p, l, order, how, KINDS[a])
        R, L = run(os.path.join(root, "work"), change)
        for r in R0:
            require(np.array_equal(R[r], R0[r]), "%s depends on the order of the features", r)
        for a in L0:
            w = L0[a]
            attrs = set(w[0]["properties"]) if w else set()
            got = L[a]
            for f in got:
                f["properties"] = {k: v for k, v in f["properties"].items() if k in attrs}
            if a == "streams":
                equal(lines(got, L["nodes"]), lines(w, L0["nodes"]), a)
            else:
                equal(canon(got, L["nodes"]), canon(w, L0["nodes"]), a)
        return len(chain.order)
    k = -1
    for which in list(KINDS) + ["all"]:
        for oname, order in ORDERS:
            for how in (PLAIN, FIDS, MORE, LEFT):
                k += 1
                if k % n == sh:
                    rec.check(dict(dem=name, one_datasource=one, layer=which, order=oname, disguise=how), attempt, which, order, how)


def canon(fs, nodes):
    """Features by ID; numbers which CSV stores as text are numbers again"""
    out = []
    for f in fs:
        p = dict(f["properties"])
        for k, v in p.items():
            if isinstance(v, str) and k != "hist_counts":
                try:
                    p[k] = float(v)
                except ValueError:
                    if v == "":
                        p[k] = None
        out.append(dict(f, properties=p))
    return canonical(out)


def jobs(tier):
    J = Jobs()
    T = tier == "thorough"
    J.add("basin3x8", family, (3, 8), [0, 1, 2], 3, spaces.single_outlets((3, 8), [1]), SH, NS, 1 if T else 7, 5 if T else 4, n=8)
    J.add("basin4x6", family, (4, 6), [0, 2], 3, spaces.single_outlets((4, 6), [1]), SH, NS, 1 if T else 7, 5 if T else 4, n=8)
    J.add("basin5x5", family, (5, 5), [0, 2], 3, spaces.single_outlets((5, 5), [1]), SH, NS, 3 if T else 29, 5 if T else 4, n=8)
    for R, C, k, lv in ((12, 9, 1, 3), (25, 31, 2, 6), (40, 50, 3, 50), (9, 30, 4, 9)):
        J.add("texture%dx%d" % (R, C), textures, R, C, k, lv)
    J.add("funnel4x5", funnel, 4, 5, SH, NS, [], (1,), 4, n=4)
    J.add("funnel5x5", funnel, 5, 5, SH, NS, [], (1,), 4, 1 if T else 9, n=8)
    J.add("funnel5x5-catch", funnel, 5, 5, SH, NS, [(3, 2)], (1,), 5, 1 if T else 53, n=8)
    J.add("funnel5x6", funnel, 5, 6, SH, NS, [], (1,), 5, 7 if T else 401, n=8)
    J.add("networks3", networks, 3, [0, 2], [0, 1, 3], SH, NS, n=2)
    J.add("networks4", networks, 4, [0, 2], [1, 3] if T else [3], SH, NS, n=8)
    J.add("hists", hists, (2, 4), 3, SH, NS, 1 if T else 11, n=8)
    J.add("hists4", hists, (2, 4), 4, SH, NS, 7 if T else 1201, n=8)
    for one in (True, False):
        J.add("commands-%s" % ("one" if one else "files"), commands, 0, one, SH, NS, n=8)
        if T:
            J.add("commands1-%s" % ("one" if one else "files"), commands, 1, one, SH, NS, n=8)
    return J
