"""C32: more rain, or fewer bluespots to hold it, never means less water anywhere."""
import os

import numpy as np

from .. import spaces
from ..core import require, Problem
from ..util import Jobs, SH, NS, MemRaster, MemVector, use, run_ok, write_tif, read_tif, read_layer, Scratch
from .c31 import terrain

BOUNDS = ("all 4x4 and 3x5 basins with single outlets, all 3x3..3x4 DEMs over three levels, textures up to 60x70; a ladder of rain amounts: zero, tiny, just below, at and above the amount which "
          "fills each bluespot from its own watershed or with all that flows in, enough for all; rain rasters x every cell raised alone; every chain of filters from loose to strict; the commands on files")
ASSUMPTIONS = ["cells are square, elevations finite", "amounts are compared with a relative tolerance of 1e-9 (rounding)"]

TR = (500.0, 2.0, 0.0, 900.0, 0.0, -2.0)
AREA = 4.0
LIMITS = (0.0, 1.0, 2.0, 3.5, 6.0, 1e9)


class Terrain(object):
    """everything that does not depend on rain"""

    def __init__(self, dem, zres, flt=None, tr=TR):
        from malstroem import dem as demtool, bluespots, streams, hyps
        self.tr = tr
        self.dem = np.asarray(dem)
        filled, flowdir, depths = MemRaster(), MemRaster(), MemRaster()
        demtool.DemTool(self.r(dem), filled, flowdir, depths).process()
        bs, pp, ws = MemRaster(), MemVector(), MemRaster()
        bluespots.BluespotTool(self.r(depths.out), self.r(flowdir.out), flt, bs, pp, ws, None, self.r(dem)).process()
        nodes, hy = MemVector(), MemVector()
        streams.StreamTool(MemVector(pp.out), self.r(bs.out), self.r(flowdir.out), nodes, MemVector()).process()
        hyps.bluespot_hypsometry_io(self.r(bs.out), self.r(dem), MemVector(pp.out), zres, hy)
        self.bs, self.ws, self.depths, self.nodes, self.hy, self.pp = bs.out, ws.out, depths.out, nodes.out, hy.out, pp.out

    def r(self, a):
        return MemRaster(np.array(a), self.tr)

    def rain(self, mm=None, raster=None, unit="mm"):
        """-> dict of results"""
        from malstroem import rain, network, approx
        vols, fin, lv, fd, fb = MemVector(), MemVector(), MemVector(), MemRaster(), MemRaster()
        if raster is None:
            rain.SimpleVolumeTool(MemVector(self.nodes), vols, "inputv", mm).process()
        else:
            rain.RasterVolumeTool(MemVector(self.nodes), self.r(self.ws), self.r(raster), rain.Unit[unit], vols, "inputv").process()
        network.FinalStateCalculator(MemVector(vols.out), "inputv", fin).process()
        approx.approx_water_level_io(MemVector(fin.out), MemVector(self.hy), lv)
        approx.approx_bluespots_io(self.r(self.bs), MemVector(lv.out), self.r(self.dem), fd, fb)
        return result(fin.out, lv.out, fd.out, fb.out)


def result(fin, lv, fd, fb):
    fin = {x["properties"]["nodeid"]: x["properties"] for x in fin}
    x = dict(fin=fin, lv={x["properties"]["bspot_id"]: x["properties"] for x in lv}, fd=fd, fb=fb,
                out=sum(p["spillv"] for p in fin.values() if p["dstrnodeid"] is None), rain=sum(p["inputv"] for p in fin.values()))
    tol = 1e-9 * (x["rain"] + 1e-9)
    held = 0.0
    for i, p in fin.items():
        held += p["v"]
        cap = p["bspot_vol"] or 0.0
        require(-tol <= p["v"] <= cap + tol, "node %d holds %r, its capacity is %r", i, p["v"], cap)
        require(p["spillv"] >= -tol, "node %d spills %r", i, p["spillv"])
        require(p["spillv"] <= tol or p["v"] >= cap - tol - 1e-9 * cap, "node %d spills %r although it holds %r of %r", i, p["spillv"], p["v"], cap)
    require(abs(held + x["out"] - x["rain"]) <= tol, "%r m3 of rain, %r are held and %r leave the terrain", x["rain"], held, x["out"])
    return x


def le(a, b, what, tol=1e-9):
    require(a <= b + tol * max(abs(a), abs(b), 1e-12), "%s falls from %r to %r", what, a, b)


def more(a, b, bs, why):
    """b: the results with more rain"""
    require(set(a["fin"]) == set(b["fin"]), "%s: other nodes", why)
    for i, p in a["fin"].items():
        q = b["fin"][i]
        for k in ("inputv", "v", "spillv"):
            le(p[k], q[k], "%s: %s of node %d" % (why, k, i))
        require((p["pctv"] is None) == (q["pctv"] is None), "%s: pctv of node %d is %r and %r", why, i, p["pctv"], q["pctv"])
        if p["pctv"] is not None:
            le(p["pctv"], q["pctv"], "%s: pctv of node %d" % (why, i))
    le(a["out"], b["out"], "%s: water leaving the terrain" % why)
    require(set(a["lv"]) == set(b["lv"]), "%s: levels of other bluespots", why)
    z = max([abs(p["approx_z"]) for i, p in a["lv"].items() if i] + [1.0])
    for i, p in a["lv"].items():
        if i:
            require(p["approx_z"] <= b["lv"][i]["approx_z"] + 1e-9 * z, "%s: level of bluespot %d falls from %r to %r", why, i, p["approx_z"], b["lv"][i]["approx_z"])
            require(p["approx_dmax"] <= b["lv"][i]["approx_dmax"] + 1e-9 * z, "%s: greatest depth of bluespot %d falls", why, i)
    bad = a["fd"].astype(np.float64) > b["fd"].astype(np.float64) + 1e-6 * z
    if bad.any():
        k = tuple(int(x) for x in np.argwhere(bad)[0])
        raise Problem("%s: final depth at %r falls from %r to %r" % (why, k, a["fd"][k].item(), b["fd"][k].item()))
    bad = (a["fb"] != 0) & (a["fb"] != b["fb"]) & (a["fd"] > 1e-6 * z)
    if bad.any():
        k = tuple(int(x) for x in np.argwhere(bad)[0])
        raise Problem("%s: cell %r of bluespot %d gets dry" % (why, k, a["fb"][k].item()))


def dry(x, t, why):
    for i, p in x["fin"].items():
        require(p["inputv"] == 0 and p["v"] == 0 and p["spillv"] == 0, "%s: node %d has %r, %r, %r", why, i, p["inputv"], p["v"], p["spillv"])
    require(not (x["fd"] > 1e-6 * max(1.0, float(np.abs(t.dem).max()))).any(), "%s: final depth %r", why, float(x["fd"].max()))


def full(x, t, why):
    scale = max(1.0, float(np.abs(t.dem).max()))
    for i, p in x["fin"].items():
        require(abs(p["v"] - p["bspot_vol"]) <= 1e-9 * max(1.0, p["bspot_vol"]), "%s: bluespot %d holds %r of %r", why, i, p["v"], p["bspot_vol"])
    want = np.where(t.bs != 0, t.depths, 0)
    bad = np.abs(x["fd"].astype(np.float64) - want) > 1e-6 * scale
    require(not bad.any(), "%s: final depths differ from the depths of the full bluespots in %d cells", why, int(bad.sum()))
    require((x["fb"] == t.bs).all(), "%s: final bluespots are not the full bluespots", why)


def capacity(t):
    """total capacity [m3] and rain [mm] at which something changes"""
    P = [x["properties"] for x in t.pp]
    mms = set()
    for p in P:
        if p["bspot_id"]:
            mms.add(p["bspot_fumm"])
    total_v, total_a = sum(p["bspot_vol"] for p in P), sum(p["wshed_area"] for p in P)
    mms.add(1000.0 * total_v / total_a)
    return total_v, total_a, sorted(mms)


def ladder(mms):
    out = {0.0, 1e-9, 1e-3, 20.0}
    for m in mms[:12] + mms[-2:]:
        out |= {m * 0.5, m * (1 - 1e-12), m, m * 0.99985, m * 0.99995, m * 1.5, m * 1.0001}
    return sorted(x for x in out)


def rains(dem, zres, native):
    use(native)
    try:
        t = Terrain(dem, zres)
        V, A, mms = capacity(t)
        steps = ladder(mms)
        least = min(p["properties"]["wshed_area"] for p in t.pp if p["properties"]["wshed_area"] > 0)
        steps.append(max(steps[-1], 1001.0 * (V + 1e-3) / least))
        last = None
        for mm in steps:
            x = t.rain(mm)
            le(abs(x["rain"] - mm * 1e-3 * A), 1e-9 * (mm * A + 1e-9), "rain of %r mm: missing water" % mm)
            if last is not None:
                more(last, x, t.bs, "rain of %r mm" % mm)
            if mm == 0:
                dry(x, t, "no rain")
            last = x
        full(last, t, "rain of %r mm" % mm)
        # the same amount as a raster, in all units
        mm = steps[len(steps) // 2]
        a = t.rain(mm)
        for unit, f in (("mm", 1.0), ("l", AREA), ("m3", AREA * 1e-3)):
            b = t.rain(raster=np.full(t.dem.shape, mm * f, np.float64), unit=unit)
            for i, p in a["fin"].items():
                for k in ("inputv", "v", "spillv"):
                    require(abs(p[k] - b["fin"][i][k]) <= 1e-9 * max(1e-3, abs(p[k])), "%r mm of rain as raster in %s: %s of node %d is %r, expected %r", mm, unit, k, i, b["fin"][i][k], p[k])
    finally:
        use(True)
    return len(steps) + 4, (len(t.pp), len(t.nodes))


def cells(dem, zres, native, mm):
    """a rain raster, and the same one with more rain in one cell"""
    use(native)
    try:
        t = Terrain(dem, zres)
        R, C = t.dem.shape
        base = ((np.arange(R * C) * 7 % 5) * mm / 4.0).reshape(R, C)
        a = t.rain(raster=base)
        n = 1
        for r in range(R):
            for c in range(C):
                b = base.copy()
                b[r, c] += 1000.0
                x = t.rain(raster=b)
                more(a, x, t.bs, "1 m more rain in cell (%d, %d)" % (r, c))
                le(abs(x["rain"] - a["rain"] - AREA), 1e-9, "1 m more rain in cell (%d, %d): water added" % (r, c))
                i = int(t.ws[r, c])
                got = [k for k in x["fin"] if x["fin"][k]["inputv"] != a["fin"][k]["inputv"]]
                require(got == [k for k in x["fin"] if x["fin"][k]["nodetype"] == "pourpoint" and x["fin"][k]["bspot_id"] == i], "rain in cell (%d, %d) of watershed %d reaches nodes %r", r, c, i, got)
                n += 1
    finally:
        use(True)
    return n, int(t.bs.max())


def filters(dem, zres, native, key, mm):
    """bluespots are taken away one by one"""
    use(native)
    try:
        last = None
        n = 0
        for lim in LIMITS:
            f = (lambda s: s["max"] >= lim) if key == "maxdepth" else (lambda s: s[key] >= lim * (AREA if key != "maxdepth" else 1))
            t = Terrain(dem, zres, f)
            x = t.rain(mm)
            n += 1
            if last is not None:
                t0, a = last
                kept = t.bs != 0
                require((t0.bs[kept] != 0).all(), "filter %s >= %g keeps cells which a looser one drops", key, lim)
                m = {}
                for p, q in set(zip(t.bs[kept].tolist(), t0.bs[kept].tolist())):
                    require(m.setdefault(p, q) == q, "filter %s >= %g: bluespot %d is two with a looser filter", key, lim, p)
                m[0] = 0
                A = {p["bspot_id"]: p for p in a["fin"].values() if p["nodetype"] == "pourpoint"}
                B = {p["bspot_id"]: p for p in x["fin"].values() if p["nodetype"] == "pourpoint"}
                for i, j in m.items():
                    for k in ("wshed_area", "inputv", "v", "spillv"):
                        le(A[j][k], B[i][k], "filter %s >= %g: %s of bluespot %d" % (key, lim, k, i))
                    if i:
                        le(abs(A[j]["bspot_vol"] - B[i]["bspot_vol"]), 0.0, "filter %s >= %g: capacity of bluespot %d" % (key, lim, i))
                    grown = (t0.ws == j) & (t.ws != i)
                    require(not grown.any(), "filter %s >= %g: bluespot %d loses part of its watershed", key, lim, i)
                le(a["out"], x["out"], "filter %s >= %g: water leaving the terrain" % (key, lim))
                le(sum(p["v"] for p in x["fin"].values()), sum(p["v"] for p in a["fin"].values()), "filter %s >= %g: water held (strict, loose)" % (key, lim))
                bad = (t.bs != 0) & (a["fd"].astype(np.float64) > x["fd"].astype(np.float64) + 1e-6 * max(1.0, float(np.abs(t.dem).max())))
                require(not bad.any(), "filter %s >= %g: final depth falls in %d cells", key, lim, int(bad.sum()))
            last = t, x
        require(int(last[0].bs.max()) == 0 and len(last[1]["fin"]) == 1, "bluespots are left although the filter drops all")
        le(abs(last[1]["out"] - mm * 1e-3 * AREA * t.dem.size), 1e-9 * (1 + mm * t.dem.size), "without bluespots all water leaves the terrain")
    finally:
        use(True)
    return n, None


def one(rec, z, j, modes):
    native = j % 3 != 2
    zres = (0.25, 0.1, 1.0)[j % 3]
    z = z.astype((np.float32, np.float64)[j % 2])
    m = modes[j % len(modes)]
    if m == "rain":
        rec.check(lambda: dict(dem=z, zresolution=zres, native=native, what="rain"), rains, z, zres, native)
    elif m == "cells":
        mm = (50.0, 1000.0, 0.0)[j // len(modes) % 3]
        rec.check(lambda: dict(dem=z, zresolution=zres, native=native, what="cells", mm=mm), cells, z, zres, native, mm)
    else:
        key, mm = ("area", "maxdepth", "volume")[j % 3], (100.0, 1500.0, 700.0)[j // 7 % 3]
        rec.check(lambda: dict(dem=z, zresolution=zres, native=native, what="filter", key=key, mm=mm), filters, z, zres, native, key, mm)


def basins(rec, shape, levels, wall, outlets, modes, sh, n, step=1):
    k = -1
    for z in spaces.basins(shape, levels, wall, outlets, np.float32):
        k += 1
        if (k // step) % n != sh or k % step:
            continue
        one(rec, z, k // step, modes)


def grids(rec, shape, levels, modes, sh, n, step=1):
    k = -1
    for z in spaces.grids(shape, levels, np.float32):
        k += 1
        if (k // step) % n != sh or k % step:
            continue
        one(rec, z, k // step, modes)


def large(rec, R, C, seed):
    z = terrain(R, C, seed).astype(np.float32)
    rec.check(dict(shape=(R, C), seed=seed, what="rain"), rains, z, 0.1, True)
    flat = np.floor(z)
    rec.check(dict(shape=(R, C), seed=seed, flat=True, what="rain"), rains, flat, 0.25, True)
    for key in ("area", "maxdepth", "volume"):
        rec.check(dict(shape=(R, C), seed=seed, what="filter", key=key), filters, z, 0.1, True, key, 500.0)
    y = z[:12, :14]
    rec.check(dict(shape=y.shape, seed=seed, what="cells"), cells, y, 0.1, True, 300.0)


# ------------------------------------------------------------------------------------------------ commands
def read(out):
    gp = os.path.join(out, "malstroem.gpkg")
    return result(read_layer(gp, "finalstate"), read_layer(gp, "finallevels"), read_tif(os.path.join(out, "finaldepths.tif"))[0], read_tif(os.path.join(out, "finalbluespots.tif"))[0])


class Files(object):
    def __init__(self, out, dem):
        self.dem = dem
        self.bs, self.depths = read_tif(os.path.join(out, "bluespots.tif"))[0], read_tif(os.path.join(out, "bs_depths.tif"))[0]


def command(z, flt):
    with Scratch() as s:
        write_tif(s("dem.tif"), z, TR)
        last = None
        # spelled as users spell them
        for i, mm in enumerate(("0", "0.001", "1", "9.5", "20", "100", "1e3", "12345.678", "1e9")):
            o = s("o%d" % i)
            os.mkdir(o)
            run_ok("complete", "-dem", s("dem.tif"), "-outdir", o, "-mm", mm, "-zresolution", "0.1", *(["-filter", flt] if flt else []))
            t, x = Files(o, z), read(o)
            if last:
                more(last, x, t.bs, "complete -mm %s" % mm)
            else:
                dry(x, t, "complete -mm 0")
            last = x
        full(last, t, "complete -mm 1e9")
    return i + 1


def commands(rec, sh, n):
    k = 0
    for seed in (1, 2, 3, 4):
        for flt in (None, "area > 8 and maxdepth > 0.05"):
            k += 1
            if k % n == sh:
                z = terrain(9, 11, seed).astype(np.float32)
                rec.check(dict(command="complete", seed=seed, filter=flt), command, z, flt)


def jobs(tier):
    J = Jobs()
    T = tier == "thorough"
    ALL = ("rain", "filter", "cells")
    J.add("texture", large, 60, 70, 5)
    J.add("texture", large, 40, 33, 1)
    J.add("texture", large, 31, 45, 2)
    J.add("commands", commands, SH, NS, n=4)
    J.add("4x4", basins, (4, 4), [1, 2, 5], 5, spaces.single_outlets((4, 4), [2]), ALL, SH, NS, n=8)
    J.add("3x5", basins, (3, 5), [1, 2, 4, 5], 5, spaces.single_outlets((3, 5), [2]), ALL, SH, NS, n=8)
    J.add("3x3", grids, (3, 3), [0, 1, 2.5], ALL, SH, NS, 1 if T else 10, n=8)
    J.add("5x5", basins, (5, 5), [1, 4.25], 5, spaces.single_outlets((5, 5), [2, 3]), ALL, SH, NS, 1 if T else 23, n=8)
    if T:
        J.add("3x4", grids, (3, 4), [0, 1, 2.5], ("filter", "rain"), SH, NS, 17, n=16)
        J.add("4x4-all", grids, (4, 4), [0, 2], ("filter", "rain"), SH, NS, n=16)
        J.add("4x5", basins, (4, 5), [1, 2, 5], 5, spaces.single_outlets((4, 5), [2, 4]), ALL, SH, NS, n=16)
    return J
