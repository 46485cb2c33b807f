"""Shared helpers of the checks."""
import copy
import json
import os

import numpy as np

from .core import require, Problem

SH, NS = object(), object()
SQRT2 = 2 ** 0.5


class Jobs(list):
    """add(name, fn, *args, n=shards): SH and NS in args are replaced by shard index and number"""

    def add(self, name, fn, *args, **kw):
        n = kw.pop("n", 1)
        limit = kw.pop("limit", None)
        for i in range(n):
            a = tuple(i if x is SH else n if x is NS else x for x in args)
            self.append(("%s#%d" % (name, i), fn, a, limit))


def use(native):
    from malstroem.algorithms import speedups
    require(speedups.available, "native speedups are not available")
    (speedups.enable if native else speedups.disable)()
    require(bool(speedups.enabled) == bool(native), "speedups.enabled is %r after requesting %r", speedups.enabled, native)


class MemRaster(object):
    """Stands in for RasterReader and RasterWriter"""

    def __init__(self, data=None, transform=(0.0, 1.0, 0.0, 0.0, 0.0, -1.0), crs="", filepath=None):
        self.data = data
        self.transform = tuple(transform)
        self.crs = crs
        self.nodata = None
        self.nodatasubst = None
        self.filepath = filepath
        self.resolution = (abs(transform[5]), abs(transform[1]))
        self.written = []
        self._orig = None if data is None else data.copy()

    @property
    def shape(self):
        return self.data.shape

    def read(self):
        return self._orig.copy()

    def write(self, data):
        self.written.append(np.array(data))

    @property
    def out(self):
        require(len(self.written) == 1, "raster written %d times", len(self.written))
        return self.written[0]


class MemVector(object):
    """Stands in for VectorReader and VectorWriter. Features pass through JSON like in a real datasource."""

    def __init__(self, features=None, layername="layer", crs=""):
        self._f = None if features is None else json.dumps(features)
        self.crs = crs
        self.layername = layername
        self.datasource = "memory"
        self.written = []

    def read_geojson_features(self):
        fs = json.loads(self._f)
        for k, f in enumerate(fs):
            f["id"] = k + 1       # as in a datasource: the number of the feature, which says nothing about the node or bluespot
        return fs

    def reset_reader(self):
        pass

    def write_geojson_features(self, fs):
        if isinstance(fs, dict) and fs.get("type") != "Feature":
            fs = fs["features"]
        self.written.append(json.loads(json.dumps(list(fs))))

    @property
    def out(self):
        require(len(self.written) == 1, "layer written %d times", len(self.written))
        return self.written[0]


def pipeline(dem, accum=False):
    """dem -> dict of rasters, by the library functions in their documented order"""
    from malstroem.algorithms import fill, flow
    filled = fill.fill_terrain(dem)
    depths = filled - dem
    short, diag = fill.minimum_safe_short_and_diag(dem)
    nf = fill.fill_terrain_no_flats(dem, short=short, diag=diag)
    fd = flow.terrain_flowdirection(nf, edges_flow_outward=True)
    out = dict(dem=dem, filled=filled, depths=depths, noflats=nf, flowdir=fd, short=short, diag=diag)
    if accum:
        out["accum"] = flow.accumulated_flow(fd)
    return out


def close(a, b, tol=1e-9):
    if a is None or b is None:
        return a is None and b is None
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def require_close(a, b, what, tol=1e-9):
    if not close(a, b, tol):
        raise Problem("%s: got %r, expected %r" % (what, a, b))


TRANSFORMS = [
    (0.0, 1.0, 0.0, 0.0, 0.0, -1.0),
    (720000.0, 1.6, 0.0, 6190000.0, 0.0, -1.6),
    (-10.5, 0.4, 0.0, 20.25, 0.0, -0.4),
    (100.0, 25.0, 0.0, -3000.0, 0.0, 25.0),      # rows going north
    (500000.125, -2.0, 0.0, 7.0, 0.0, -2.0),     # columns going west
    (300.0, 2.0, 0.0, 40.0, 0.0, -1.984),        # cells which are square within one per cent
    (100.0, 2.0, 0.5, 300.0, 0.0, -2.0),         # sheared
    (100.0, 2.0, 0.0, 300.0, -0.25, -2.0),
]


def cell_centre(t, r, c):
    return (t[0] + (c + 0.5) * t[1] + (r + 0.5) * t[2], t[3] + (c + 0.5) * t[4] + (r + 0.5) * t[5])


def cell_area(t):
    return abs(t[1]) * abs(t[5])


def cli(*args):
    """Run a malstroem command in this process. Returns (exit code, exception)."""
    from click.testing import CliRunner
    from malstroem.scripts.cli import cli as group
    from osgeo import gdal
    r = CliRunner().invoke(group, [str(a) for a in args])
    import logging
    logging.disable(logging.CRITICAL)
    gdal.UseExceptions()
    return r.exit_code, r.exception


def run_ok(*args):
    code, exc = cli(*args)
    if code != 0:
        raise Problem("command %s failed with exit code %r: %r" % (" ".join(os.path.basename(str(a)) for a in args), code, exc))


def write_tif(path, data, transform=(0.0, 1.0, 0.0, 0.0, 0.0, -1.0), crs="", nodata=None, dtype=None, options=()):
    """Written with GDAL directly, not with the code under test"""
    from osgeo import gdal
    gdal.UseExceptions()
    data = np.asarray(data)
    T = {"float64": gdal.GDT_Float64, "float32": gdal.GDT_Float32, "int32": gdal.GDT_Int32, "uint32": gdal.GDT_UInt32,
         "int16": gdal.GDT_Int16, "uint16": gdal.GDT_UInt16, "uint8": gdal.GDT_Byte}
    ds = gdal.GetDriverByName("GTiff").Create(path, data.shape[1], data.shape[0], 1, T[str(dtype or data.dtype)], list(options))
    ds.SetGeoTransform(transform)
    if crs:
        ds.SetProjection(crs)
    b = ds.GetRasterBand(1)
    if nodata is not None:
        b.SetNoDataValue(nodata)
    b.WriteArray(data)
    b.FlushCache()
    ds.FlushCache()
    b = None
    ds = None
    return path


def read_tif(path):
    """-> array, geotransform, projection wkt, nodata; read with GDAL directly"""
    from osgeo import gdal
    gdal.UseExceptions()
    ds = gdal.Open(path)
    b = ds.GetRasterBand(1)
    out = b.ReadAsArray(), ds.GetGeoTransform(), ds.GetProjection(), b.GetNoDataValue()
    b = None
    ds = None
    return out


def read_layer(path, layer=None):
    """-> list of geojson like dicts of a layer, read with OGR directly"""
    from osgeo import ogr, gdal
    gdal.UseExceptions()
    ds = ogr.Open(path)
    require(ds is not None, "cannot open %s", path)
    lyr = ds.GetLayerByName(layer) if layer else ds.GetLayerByIndex(0)
    require(lyr is not None, "no layer %r in %s", layer, os.path.basename(path))
    lyr.ResetReading()
    out = [json.loads(f.ExportToJson()) for f in lyr]
    lyr = None
    ds = None
    return out


def layer_names(path):
    from osgeo import ogr
    ds = ogr.Open(path)
    return sorted(ds.GetLayerByIndex(i).GetName() for i in range(ds.GetLayerCount()))


class Scratch(object):
    """Directory in memory, removed at the end"""

    def __init__(self):
        import tempfile
        self.d = tempfile.mkdtemp(prefix="mc-", dir=scratch_root())

    def __call__(self, name):
        return os.path.join(self.d, name)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        import shutil
        shutil.rmtree(self.d, ignore_errors=True)


def scratch_root():
    from . import core
    return core.SCRATCH
