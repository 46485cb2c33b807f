"""C11: initial volumes are rain times watershed area, or the sum of the rain raster per ID."""
import itertools
import numpy as np
from .. import ref, spaces
from ..core import require, same, Problem
from ..util import (Jobs, SH, NS, use, MemRaster, MemVector, require_close, TRANSFORMS, cell_area, cell_centre, pipeline, Scratch, write_tif, read_layer, run_ok)

BOUNDS = ("all ID rasters of 2x3 and 3x3 over up to three IDs (also with gaps) x rain patterns x number types x units x cell sizes x node orders; "
          "uniform rain by all amounts listed; initvolumes command with files; rasters up to 400x300, 66000 IDs")
ASSUMPTIONS = ["every node with a bluespot ID is named after that ID", "rain values are finite, nodata in the rain raster is not substituted"]
ATTRS = ["inputv", "v20", "rain"]


def nodes(n, junctions, order=0, decoy=False):
    out = []
    for i in list(range(n + 1)) + [n + 1 + k for k in range(junctions)]:
        j = i > n
        p = dict(nodeid=i, dstrnodeid=None if i == 0 else 0, nodetype="junction" if j else "pourpoint", cell_row=i, cell_col=2 * i,
                 bspot_id=None if j else i, bspot_area=0.0 if j else 4.0 * i, bspot_vol=0.0 if j else 1.5 * i, wshed_area=0.0 if j else 7.5 + 2 * i)
        if decoy:
            p["inputv"] = -1.0
            p["v20"] = 3.5 + i
        out.append(dict(type="Feature", id=i, geometry=dict(type="Point", coordinates=[i + 0.5, -i - 0.5]), properties=p))
    if order:
        out = out[::-1] if order == 1 else out[1::2] + out[::2]
    return out


def check(got, src, attr, want):
    require(len(got) == len(src), "%d nodes written, expected %d", len(got), len(src))
    idx = {f["properties"]["nodeid"]: f for f in got}
    require(len(idx) == len(got), "node ids are not unique")
    for f in src:
        i = f["properties"]["nodeid"]
        require(i in idx, "node %r is missing", i)
        g = idx[i]
        require(attr in g["properties"], "node %r has no attribute %s", i, attr)
        require_close(g["properties"][attr], want[i], "%s of node %r" % (attr, i))
        for k, v in f["properties"].items():
            if k != attr:
                require(g["properties"].get(k) == v, "%s of node %r changed from %r to %r", k, i, v, g["properties"].get(k))
        require([round(x, 9) for x in g["geometry"]["coordinates"][:2]] == f["geometry"]["coordinates"], "geometry of node %r changed", i)


def simple(src, mm, attr):
    from malstroem.rain import SimpleVolumeTool
    out = MemVector()
    SimpleVolumeTool(MemVector(src), out, attr, mm).process()
    check(out.out, src, attr, {f["properties"]["nodeid"]: f["properties"]["wshed_area"] * mm / 1000 for f in src})
    return 1


MM = [0.0, 1.0, 0.1, 20.0, 35.7, 1000.0, 1e-3, 12345.0]


def uniform(rec):
    for n, j, order, decoy in itertools.product((0, 1, 3), (0, 2), (0, 1, 2), (False, True)):
        for mm, attr in itertools.product(MM, ATTRS):
            rec.check(dict(nodes=n, junctions=j, order=order, decoy=decoy, mm=mm, attribute=attr), simple, nodes(n, j, order, decoy), mm, attr)


UNITS = {"mm": lambda a: a / 1000, "l": lambda a: 1 / 1000.0, "m3": lambda a: 1.0}


def raster(lab, rain, unit, tr, attr, junctions, order, decoy=False):
    from malstroem.rain import RasterVolumeTool, Unit
    out = MemVector()
    n = int(lab.max())
    src = nodes(n, junctions, order, decoy)
    l0, r0 = lab.copy(), rain.copy()
    RasterVolumeTool(MemVector(src), MemRaster(lab, tr), MemRaster(rain, tr), getattr(Unit, unit), out, attr).process()
    f = UNITS[unit](cell_area(tr))
    sums = {}
    for k, v in zip(l0.ravel().tolist(), r0.ravel().tolist()):
        sums[k] = sums.get(k, 0.0) + v
    check(out.out, src, attr, {q["properties"]["nodeid"]: sums.get(q["properties"]["nodeid"], 0.0) * f for q in src})
    return 1


def patterns(shape, dt):
    n = shape[0] * shape[1]
    a = np.arange(n).reshape(shape)
    out = [np.full(shape, 20), a, (2 ** a) % 251, np.where(a % 2, 0, 7), np.where(a == n - 1, 100, 0)]
    if np.dtype(dt).kind == "f":
        out.append(a * 0.375 + 0.125)
    if np.dtype(dt).kind != "u":
        out.append(a * 3 - 7)
    out.append(a + 1)
    return [x.astype(dt) for x in out]


def rasters(rec, shape, ids, native, sh, n, step=1):
    use(native)
    k = 0
    for lab in spaces.grids(shape, ids, np.int32, sh, n):
        for dt in (np.float32, np.float64, np.int16, np.uint8, np.int32):
            for q, rain in enumerate(patterns(shape, dt)):
                k += 1
                if k % step:
                    continue
                unit = ("mm", "l", "m3")[k % 3]
                tr = TRANSFORMS[k % 6]
                ldt = (np.int32, np.uint8, np.int32, np.int16, np.uint16, np.int32, np.uint32)[k % 7]
                attr, j, o = ATTRS[k % 2], k % 3, (k // 3) % 3
                L = lab.astype(ldt)
                d = (k // 2) % 3 == 0
                rec.check(lambda: dict(ids=L, rain=rain, unit=unit, transform=tr, attribute=attr, junctions=j, order=o, decoy=d, native=native), raster, L, rain, unit, tr, attr, j, o, d)


def big(rec, native):
    use(native)
    for R, C, m in ((300, 230, 66000), (400, 300, 5000), (3, 1000, 70), (60, 50, 3000)):
        if not native and R * C > 10000:
            continue
        lab = (np.arange(R * C) * 7919 % (m + 1)).reshape(R, C).astype(np.int32)
        for dt in (np.float32, np.float64, np.int32):
            rain = (spaces.texture(R, C, 3, 97) + 0.0).astype(dt)
            for unit in UNITS:
                rec.check(dict(shape=(R, C), ids=m, unit=unit, rain=str(np.dtype(dt)), native=native), raster, lab, rain, unit, TRANSFORMS[1], "inputv", 3, 0)


def command(lab, rain, unit, mm, tr, fmt, decoy):
    n = int(lab.max())
    src = nodes(n, 2, 0, decoy)
    attr = "v20" if decoy else "vol"
    with Scratch() as s:
        nodefile = s("nodes.geojson")
        import json
        with open(nodefile, "w") as f:
            json.dump(dict(type="FeatureCollection", features=src), f)
        write_tif(s("ids.tif"), lab, tr, nodata=0)
        write_tif(s("rain.tif"), rain, tr)
        out = s("out.gpkg" if fmt == "gpkg" else "out.geojson")
        args = ["initvolumes", "-nodes", nodefile, "-nodes_layer", "nodes", "-out", out, "-out_layer", "vols", "-format", fmt, "-out_attribute", attr]
        if mm is not None:
            args += ["-mm", mm]
            want = {f["properties"]["nodeid"]: f["properties"]["wshed_area"] * mm / 1000 for f in src}
        else:
            args += ["-pr", s("rain.tif"), "-bluespots", s("ids.tif")]
            if unit:
                args += ["-pr_unit", unit]
            k = UNITS[unit or "mm"](cell_area(tr))
            want = {f["properties"]["nodeid"]: float(rain[lab == f["properties"]["nodeid"]].sum(dtype=np.float64)) * k for f in src}
        run_ok(*args)
        check(read_layer(out, "vols"), src, attr, want)
    return 1


def commands(rec, sh, n):
    k = 0
    for lab in spaces.grids((2, 3), [0, 1, 2], np.int32):
        k += 1
        if k % 23 or (k // 23) % n != sh:
            continue
        for tr in TRANSFORMS[:3]:
            for mm, unit in ((12.5, None), (None, None), (None, "mm"), (None, "l"), (None, "m3")):
                for dt in (np.float32, np.int16):
                    pt = patterns((2, 3), dt)
                    rain = pt[k % len(pt)]
                    d = dt is np.int16
                    fmt = ("gpkg", "geojson")[k % 2]
                    rec.check(lambda: dict(command="initvolumes", ids=lab, rain=rain, mm=mm, unit=unit, transform=tr, format=fmt, decoy=d), command, lab, rain, unit, mm, tr, fmt, d)


def documented():
    """docs/cli.rst: 'initvolumes -pr precip_raster.tif -bluespots bluespots.tif' sets the 'summed volume of water on each watershed'"""
    from malstroem.rain import RasterVolumeTool, SimpleVolumeTool, Unit
    dem = np.array([[9, 9, 9, 9, 9, 9], [9, 8, 8, 8, 8, 9], [9, 8, 5, 5, 8, 9], [9, 8, 7, 7, 8, 9], [9, 9, 7, 9, 9, 9]], np.float32)
    p = pipeline(dem)
    lab = (p["depths"] > 0).astype(np.int32)
    ws = np.array(ref.watersheds(p["flowdir"].tolist(), lab.tolist(), 0))
    src = nodes(1, 0)
    for f in src:
        f["properties"]["wshed_area"] = float((ws == f["properties"]["nodeid"]).sum())
    a, b, c = MemVector(), MemVector(), MemVector()
    rain = MemRaster(np.full(dem.shape, 20.0))
    SimpleVolumeTool(MemVector(src), a, "inputv", 20).process()
    RasterVolumeTool(MemVector(src), MemRaster(ws.astype(np.int32)), rain, Unit.mm, c, "inputv").process()
    for x, y in zip(a.out, c.out):
        require_close(y["properties"]["inputv"], x["properties"]["inputv"], "uniform rain raster with watershed IDs")
    RasterVolumeTool(MemVector(src), MemRaster(lab), rain, Unit.mm, b, "inputv").process()
    va, vb = ([f["properties"]["inputv"] for f in x.out] for x in (a, b))
    if any(abs(x - y) > 1e-9 for x, y in zip(va, vb)):
        raise Problem("20 mm uniform rain raster with the bluespots raster as in the documentation gives %r, -mm 20 gives %r" % (vb, va), key="bluespots-id-raster")
    return 3


def doc(rec):
    rec.check(dict(example="documented -pr -bluespots call"), documented)


def jobs(tier):
    J = Jobs()
    T = tier == "thorough"
    J.add("documented", doc)
    J.add("uniform", uniform)
    for nat in (True, False):
        J.add("2x3-%s" % nat, rasters, (2, 3), [0, 1, 2], nat, SH, NS, n=4)
        J.add("2x2gaps-%s" % nat, rasters, (2, 2), [0, 1, 3, 7], nat, SH, NS, n=2)
        J.add("big-%s" % nat, big, nat)
    J.add("3x3", rasters, (3, 3), [0, 1, 2], True, SH, NS, 7, n=8)
    J.add("commands", commands, SH, NS, n=8)
    if T:
        J.add("3x3-all", rasters, (3, 3), [0, 1, 2], True, SH, NS, 1, n=32)
        J.add("2x4-python", rasters, (2, 4), [0, 1, 4], False, SH, NS, 1, n=32)
    return J
