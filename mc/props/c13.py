"""C13: the approximate water level follows the volume within the histogram resolution."""
import itertools
import numpy as np
from .. import ref, spaces
from ..core import require, Problem
from ..util import Jobs, SH, NS, use, MemRaster, MemVector, require_close, TRANSFORMS, cell_area, Scratch, write_tif, run_ok, pipeline

BOUNDS = ("all multisets of up to 5 cell elevations from six multiples of the bin width x five full levels x bin widths x offsets, each at twelve fractions of the volume and at "
          "the volume of every cell bottom; all small DEMs through fill, bluespots, network, rain and final state; up to 1150000 cells and 70000 bluespots; all histograms of 2..4 bins with counts around the limits of integer types; files and command")
ASSUMPTIONS = ["hypsometry, volumes and depths come from the library's own steps for the same DEM", "a bluespot has positive depth in every cell"]
FRACTIONS = [0.0, 1e-6, 0.01, 0.1, 0.25, 0.5, 0.75, 0.9, 0.99, 0.9998, 0.99995, 1.0]


def final(features, levels, hyps, tol=1e-9):
    """Conditions on the levels layer which need no terrain. -> {bspot_id: level}"""
    want = [f for f in features if f["properties"]["nodetype"] == "pourpoint"]
    require(len(levels) == len(want), "%d levels, expected %d", len(levels), len(want))
    out = {}
    src = {f["properties"]["bspot_id"]: f["properties"] for f in want}
    hz = {h["properties"]["bspot_id"]: h["properties"] for h in hyps}
    for f in levels:
        p = f["properties"]
        require(p.get("nodetype") == "pourpoint", "level reported for a node of type %r", p.get("nodetype"))
        i = p["bspot_id"]
        require(i in src and i not in out, "level reported twice or for unknown bluespot %r", i)
        for k, v in src[i].items():
            w = p.get(k)
            require(w == v or (isinstance(v, float) and w is not None and abs(w - v) <= tol * max(1, abs(v))), "bluespot %r: attribute %s changed from %r to %r", i, k, v, w)
        require(p.get("approx_z") is not None and p.get("approx_dmax") is not None, "bluespot %r: no level", i)
        z, d = float(p["approx_z"]), float(p["approx_dmax"])
        zmin = hz[i]["zmin"]
        if i == 0:
            require(d == 0, "the background has a water depth of %r", d)
        if zmin is not None:
            zmin = float(zmin)
            require(abs(d - (z - zmin)) <= 1e-9 * max(1, abs(z)), "bluespot %r: approx_dmax is %r, level minus lowest elevation is %r", i, d, z - zmin)
        out[i] = z
    return out


def accurate(i, z, zs, full, res, area, v, vmax, eps=1e-9):
    """zs: cell elevations"""
    zmin = min(zs)
    dmax = full - zmin
    rnd = eps * max(1.0, abs(full), abs(zmin)) + eps * dmax
    if v <= 0:
        require(abs(z - zmin) <= rnd, "bluespot %r is empty, its level is %r, expected %r", i, z, zmin)
        return
    if v >= vmax:
        require(abs(z - full) <= rnd, "bluespot %r is full, its level is %r, expected %r", i, z, full)
        return
    exact = zmin + ref.level_for_volume([full - q for q in zs], area, v)
    tol = 2 * res * (1 + 1e-9) + 1e-4 * dmax + rnd
    require(abs(z - exact) <= tol, "bluespot %r: level %r for volume %r, exact level is %r, allowed difference %r", i, z, v, exact, tol)
    require(zmin - rnd <= z <= full + rnd, "bluespot %r: level %r outside %r..%r", i, z, zmin, full)


def node(i, v, kind="pourpoint", **kw):
    p = dict(nodeid=i, nodetype=kind, dstrnodeid=None, bspot_id=i if kind == "pourpoint" else None, v=v, spillv=0.0, pctv=None, rainv=0.5)
    p.update(kw)
    return dict(type="Feature", geometry=dict(type="Point", coordinates=[0.5 + i, 1.5]), properties=p)


def curve(zs, full, res, area, tr, fracs=FRACTIONS):
    """One bluespot, one copy per volume"""
    from malstroem.hyps import bluespot_hypsometry_io
    from malstroem.approx import approx_water_level_io
    zs = list(zs)
    depths = [full - z for z in zs]
    vmax = sum(depths) * area
    bottoms = sorted(set(zs))[1:]
    vols = [f * vmax for f in fracs]
    if fracs is FRACTIONS:
        vols += [area * sum(max(b - z, 0.0) for z in zs) for b in bottoms[::1 + len(bottoms) // 10]]
    vols = sorted(set(min(v, vmax) for v in vols))
    n = len(vols)
    lab = np.zeros((n + 1, len(zs)), np.int32)
    dem = np.zeros((n + 1, len(zs)))
    for i in range(n):
        lab[i + 1] = i + 1
        dem[i + 1] = zs
    pps = [dict(type="Feature", geometry=dict(type="Point", coordinates=[0, 0]),
                properties=dict(bspot_id=i, bspot_dmax=max(depths) if i else 0.0, bspot_vol=vmax if i else 0.0, bspot_area=area * len(zs))) for i in range(n + 1)]
    hw = MemVector()
    bluespot_hypsometry_io(MemRaster(lab, tr), MemRaster(dem, tr), MemVector(pps), res, hw)
    fs = [node(0, 0.0)] + [node(i + 1, v) for i, v in enumerate(vols)]
    fs.insert(2, node(900, None, "junction"))
    if len(zs) % 2:
        fs.reverse()
    out = MemVector()
    approx_water_level_io(MemVector(fs), MemVector(hw.out[::-1] if len(zs) % 3 == 0 else hw.out), out)
    lv = final(fs, out.out, hw.out)
    prev = None
    for i, v in enumerate(vols):
        z = lv[i + 1]
        accurate(i + 1, z, zs, full, res, area, v, vmax)
        require(prev is None or z >= prev - 1e-9 * max(1, abs(z)), "level falls from %r to %r when the volume rises to %r", prev, z, v)
        prev = z
    return n, tuple(round(lv[i + 1] - zs[0], 4) for i in range(n))


STEPS = [0, 0.3, 1, 1.5, 3, 4.999]
ABOVE = [0.01, 0.5, 1, 3.2, 40]


SMALL = [(0.0, 0.05, 0.0, 0.0, 0.0, -0.05), (10.0, 0.125, 0.0, 3.0, 0.0, -0.1), (0.0, 30.0, 0.0, 0.0, 0.0, -30.0)]


def curves(rec, res, z0, sh, n, m, trs=TRANSFORMS[:6]):
    k = 0
    for cnt in range(1, m + 1):
        for rest in itertools.combinations_with_replacement(STEPS, cnt - 1):
            for a in ABOVE:
                k += 1
                if k % n != sh:
                    continue
                zs = [z0] + [z0 + s * res for s in rest]
                full = max(zs) + a * res
                tr = trs[k % len(trs)]
                rec.check(lambda: dict(elevations=zs, full=full, resolution=res, transform=tr), curve, zs, full, res, cell_area(tr), tr)


COUNTS = [0, 1, 100, 255, 256, 32767, 32768, 65536, 999999, 1234567, 2 ** 24 + 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 + 5]


def counted(counts, res, above, area, fracs):
    """Levels from histograms of any numbers of cells"""
    from malstroem.approx import approx_water_level_io
    z0 = -1.5
    zs = [z0 + res * (b + 0.5) for b in range(len(counts))]
    use_ = [(z, w) for z, w in zip(zs, counts) if w]
    full = z0 + res * (len(counts) + above)
    vmax = sum(w * (full - z) for z, w in use_) * area
    hy = dict(bspot_id=1, bspot_dmax=full - use_[0][0], bspot_vol=vmax, cell_area=area, hist_counts="|".join(str(c) for c in counts), hist_num_bins=len(counts), hist_lower_bound=z0,
              hist_upper_bound=z0 + res * len(counts), hist_resolution=res, zmin=use_[0][0], zmax=use_[-1][0])
    prev = None
    for v in [f * vmax for f in fracs]:
        out = MemVector()
        approx_water_level_io(MemVector([node(1, v)]), MemVector([dict(type="Feature", geometry=None, properties=hy)]), out)
        z = float(out.out[0]["properties"]["approx_z"])
        exact = ref.level_for_volume_weighted([q for q, _ in use_], [w for _, w in use_], full, area, v) if 0 < v < vmax else (full if v > 0 else use_[0][0])
        tol = 2 * res * (1 + 1e-9) + 1e-4 * (full - use_[0][0]) + 1e-9
        require(abs(z - exact) <= tol, "level %r for volume %r of %r, exact level is %r, allowed difference %r", z, v, vmax, exact, tol)
        require(prev is None or z >= prev - 1e-9, "level falls from %r to %r when the volume rises to %r", prev, z, v)
        prev = z
    return len(fracs), (tuple(counts), round(prev, 6))


def histograms(rec, bins, sh, n, step):
    k = 0
    for counts in itertools.product(COUNTS, repeat=bins):
        if not counts[0] or not counts[-1]:
            continue        # the lowest and the highest cell are in the first and the last bin
        k += 1
        if k % n != sh or (k // n) % step:
            continue
        j = k // n
        res, above, area = (0.1, 1.0, 0.25)[j % 3], (0.01, 0.5, 3.0, 50.0)[j % 4], (1.0, 2.56, 625.0)[j % 3]
        rec.check(lambda: dict(counts=counts, resolution=res, above=above, area=area), counted, counts, res, above, area, FRACTIONS)


def numbers(rec, m):
    """Every bluespot has the level of its own volume, however many there are"""
    from malstroem.approx import approx_water_level_io

    def run(order):
        hy, nodes = [], []
        for i in range(m + 1):
            z0 = -1.5 + i % 83
            hy.append(dict(type="Feature", geometry=None, properties=dict(bspot_id=i, bspot_dmax=2.0 if i else 0.0, bspot_vol=8.0 if i else 0.0, cell_area=4.0, hist_counts="1" if i else "", hist_num_bins=1 if i else 0,
                           hist_lower_bound=z0, hist_upper_bound=z0 + 0.1 if i else z0, hist_resolution=0.1 if i else -1, zmin=z0, zmax=z0)))
            nodes.append(node(i, i % 5 * 2.0 if i else 0.0))
        out = MemVector()
        k = 1 - 2 * order
        approx_water_level_io(MemVector(nodes[::k]), MemVector(hy), out)
        got = final(nodes, out.out, hy)
        for i in range(1, m + 1):
            want = -1.5 + i % 83 + i % 5 * 0.5
            require(abs(got[i] - want) <= 0.21, "bluespot %d: level %r, expected %r", i, got[i], want)
        return m, None
    for order in (0, 1):
        rec.check(dict(bluespots=m, reversed=order), run, order)


def shapes(rec):
    """Many cells"""
    zs = [-3.7 + 0.05 * max(0, i - 1100000) / 50000.0 for i in range(1150000)]
    rec.check(dict(shape="large tub", cells=len(zs)), curve, zs, -3.0, 0.1, 2.56, TRANSFORMS[1], [0.05, 0.4])
    zs = [-3.7 + 9.1 * round(i / 69999.0, 1) for i in range(70000)]
    rec.check(dict(shape="terraces", cells=len(zs)), curve, zs, 6.0, 0.1, 2.56, TRANSFORMS[1], [0.05, 0.4, 0.9])
    for cells in (50, 300, 2000):
        for f, name in ((lambda t: t, "cone"), (lambda t: t * t, "bowl"), (lambda t: round(t * 4) / 4.0, "terraces"), (lambda t: 0.0 if t < 0.9 else t, "tub"), (lambda t: t ** 0.2, "funnel")):
            for res in (0.05, 0.1, 0.73, 5.0, 100.0):
                zs = [-3.7 + 9.1 * f(i / float(cells - 1)) for i in range(cells)]
                for full in (max(zs) + 1e-6, max(zs) + 2.5):
                    rec.check(lambda: dict(shape=name, cells=cells, resolution=res, full=full), curve, zs, full, res, 2.56, TRANSFORMS[1])


def chain(dem, res, mm, tr, native):
    """Complete chain of library calls on a DEM"""
    from malstroem import bluespots, streams, rain, network, hyps, approx
    use(native)
    p = pipeline(dem)
    W = lambda a: MemRaster(a, tr)
    lab, pp = MemRaster(None, tr), MemVector()
    ws = MemRaster(None, tr)
    bluespots.BluespotTool(input_depths=W(p["depths"]), input_flowdir=W(p["flowdir"]), input_bluespot_filter_function=None, input_accum=None, input_dem=W(dem),
                           output_labeled_raster=lab, output_labeled_vector=None, output_pourpoints=pp, output_watersheds_raster=ws, output_watersheds_vector=None).process()
    nodes, st, iv, fv = MemVector(), MemVector(), MemVector(), MemVector()
    L = lab.out
    streams.StreamTool(MemVector(pp.out), W(L), W(p["flowdir"]), nodes, st).process()
    rain.SimpleVolumeTool(MemVector(nodes.out), iv, "inputv", mm).process()
    network.FinalStateCalculator(MemVector(iv.out), "inputv", fv).process()
    hw, lv = MemVector(), MemVector()
    hyps.bluespot_hypsometry_io(W(L), W(dem), MemVector(pp.out), res, hw)
    approx.approx_water_level_io(MemVector(fv.out), MemVector(hw.out), lv)
    levels = final(fv.out, lv.out, hw.out)
    require(sorted(levels) == list(range(int(L.max()) + 1)), "levels for bluespots %r, expected 0..%d", sorted(levels), L.max())
    A = cell_area(tr)
    d64 = dem.astype(np.float64)
    for f in fv.out:
        q = f["properties"]
        if q["nodetype"] != "pourpoint" or q["bspot_id"] == 0:
            continue
        i = q["bspot_id"]
        m = L == i
        zs = d64[m].tolist()
        full = float(p["filled"][m].max())
        dep = sum(full - z for z in zs) * A
        v = float(q["v"])
        accurate(i, levels[i], zs, full, res, A, v if v < dep * (1 - 1e-6) else dep, dep, 1e-6)
    return 6, tuple(sorted((i, round(z, 6)) for i, z in levels.items()))


def dems(rec, shape, levels, wall, sh, n, native, step=1):
    k = 0
    outs = spaces.single_outlets(shape, [levels[0] - 1])
    for dem in spaces.basins(shape, levels, wall, outs[:2] + outs[-1:], np.float32):
        k += 1
        if k % n != sh or (k // n) % step:
            continue
        j = k // n
        res = (1.0, 0.1, 0.3, 2.5)[j % 4]
        mm = (0.0, 10.0, 200.0, 1000.0, 5000.0)[j % 5]
        tr = TRANSFORMS[j % 6]
        rec.check(lambda: dict(dem=dem, resolution=res, mm=mm, transform=tr, native=native), chain, dem, res, mm, tr, native)


def textures(rec, native):
    for R, C, k, lv in ((20, 30, 3, 5), (31, 17, 7, 9), (40, 40, 11, 40)):
        for res in (0.05, 1.0, 7.0):
            for mm in (1.0, 300.0, 3000.0):
                dem = (spaces.texture(R, C, k, lv) * 0.37 - 5).astype(np.float32)
                rec.check(lambda: dict(texture=(R, C, k, lv), resolution=res, mm=mm, native=native), chain, dem, res, mm, TRANSFORMS[1], native)


def command(zs, full, res, fracs):
    """hyps and finallevels commands on files"""
    import json
    from malstroem.io import VectorReader
    n = len(fracs)
    lab = np.zeros((n + 1, max(2, len(zs))), np.int32)
    dem = np.zeros(lab.shape)
    for i in range(n):
        lab[i + 1, :len(zs)] = i + 1
        dem[i + 1, :len(zs)] = zs
    depths = [full - z for z in zs]
    vmax = sum(depths)
    pps = [dict(type="Feature", geometry=dict(type="Point", coordinates=[0, 0]),
                properties=dict(bspot_id=i, bspot_dmax=max(depths) if i else 0.0, bspot_vol=vmax if i else 0.0, bspot_area=1.0 * len(zs))) for i in range(n + 1)]
    fs = [node(0, 0.0)] + [node(i + 1, f * vmax) for i, f in enumerate(fracs)] + [node(900, None, "junction")]
    with Scratch() as s:
        for name, x in (("pp", pps), ("fv", fs)):
            with open(s(name + ".geojson"), "w") as f:
                json.dump(dict(type="FeatureCollection", features=x), f)
        write_tif(s("l.tif"), lab, nodata=0)
        write_tif(s("d.tif"), dem)
        run_ok("hyps", "-bluespots", s("l.tif"), "-dem", s("d.tif"), "-pourpoints", s("pp.geojson"), "-pourpoints_layer", "pp", "-zresolution", res,
               "-out", s("o.gpkg"), "-format", "gpkg", "-out_hyps_layer", "h")
        run_ok("finallevels", "-finalvols", s("fv.geojson"), "-finalvols_layer", "fv", "-hyps", s("o.gpkg"), "-hyps_layer", "h", "-out", s("o.gpkg"), "-out_layer", "lv", "-format", "gpkg")
        got = VectorReader(s("o.gpkg"), "lv").read_geojson_features()
        hy = VectorReader(s("o.gpkg"), "h").read_geojson_features()
    lv = final(fs, got, hy)
    for i, f in enumerate(fracs):
        accurate(i + 1, lv[i + 1], zs, full, res, 1.0, f * vmax, vmax)
    return 2


def commands(rec, sh, n):
    k = 0
    for rest in itertools.combinations_with_replacement(STEPS, 2):
        for a, res in itertools.product(ABOVE, (0.1, 1.0)):
            k += 1
            if k % n != sh or (k // n) % 3:
                continue
            zs = [-1.2] + [-1.2 + s * res for s in rest]
            full = max(zs) + a * res
            rec.check(lambda: dict(command="finallevels", elevations=zs, full=full, resolution=res), command, zs, full, res, FRACTIONS)


def jobs(tier):
    J = Jobs()
    T = tier == "thorough"
    for res in (1.0, 0.1, 0.25, 3.0):
        for z0 in (-2.5, 0.0, 100.7):
            J.add("curves-%g-%g" % (res, z0), curves, res, z0, SH, NS, 7 if T else 5, n=8 if T else 1)
    for res in (0.004, 0.0375, 150.0):
        J.add("curves-small-%g" % res, curves, res, -0.3, SH, NS, 7 if T else 5, SMALL, n=8 if T else 1)
    J.add("shapes", shapes)
    J.add("numbers", numbers, 70000)
    J.add("histograms2", histograms, 2, SH, NS, 1)
    J.add("histograms3", histograms, 3, SH, NS, 1, n=2)
    J.add("histograms4", histograms, 4, SH, NS, 1 if T else 11, n=2)
    for nat in (True, False):
        J.add("dem4x4-%s" % nat, dems, (4, 4), [0, 0.45, 1, 2.3], 3, SH, NS, nat, 1 if nat else 3, n=2)
        J.add("dem4x5-%s" % nat, dems, (4, 5), [-0.4, 0.45, 2], 3, SH, NS, nat, (1 if T else 2) if nat else 12, n=4)
        J.add("textures-%s" % nat, textures, nat)
    J.add("commands", commands, SH, NS, n=2)
    if T:
        J.add("dem5x5", dems, (5, 5), [-0.4, 0.45, 2], 3, SH, NS, True, 3, n=32)
    return J
