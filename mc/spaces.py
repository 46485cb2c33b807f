"""Bounded state spaces, enumerated completely and deterministically."""
import itertools

import numpy as np

CHUNK = 4096


def grids(shape, alphabets, dtype, shard=0, nshards=1):
    """All arrays of given shape; alphabets is one level list for every cell or a dict {cell: levels} (row-major list)."""
    R, C = shape
    if not isinstance(alphabets[0], (list, tuple, np.ndarray)):
        alphabets = [alphabets] * (R * C)
    alph = [np.asarray(a, dtype=dtype) for a in alphabets]
    dims = [len(a) for a in alph]
    total = 1
    for d in dims:
        total *= d
    for lo in range(shard, total, CHUNK * nshards):
        ix = np.arange(lo, min(total, lo + CHUNK * nshards), nshards, dtype=np.int64)
        out = np.empty((len(ix), R * C), dtype=dtype)
        for k in range(R * C - 1, -1, -1):
            out[:, k] = alph[k][ix % dims[k]]
            ix = ix // dims[k]
        for row in out:
            yield row.reshape(R, C).copy()


def interior(shape):
    return [(r, c) for r in range(1, shape[0] - 1) for c in range(1, shape[1] - 1)]


def edges(shape):
    s = set(interior(shape))
    return [(r, c) for r in range(shape[0]) for c in range(shape[1]) if (r, c) not in s]


def basins(shape, levels, wall, outlets, dtype, shard=0, nshards=1):
    """Interior takes all combinations of levels; the edge is a wall with the given outlets
    (list of dicts {edge cell: level})."""
    inner = interior(shape)
    n = 0
    for o in outlets:
        alph = []
        for r in range(shape[0]):
            for c in range(shape[1]):
                if (r, c) in inner:
                    alph.append(list(levels))
                else:
                    alph.append([o.get((r, c), wall)])
        # shard inside each outlet configuration
        for g in grids(shape, alph, dtype, (shard + n) % nshards, nshards):
            yield g
        n += 1


def single_outlets(shape, lev):
    return [{}] + [{e: v} for e in edges(shape) for v in lev]


def pair_outlets(shape, lev):
    es = edges(shape)
    return [{a: v, b: w} for a, b in itertools.combinations(es, 2) for v in lev for w in lev]


def symmetries(a):
    out = []
    for k in range(4):
        b = np.rot90(a, k)
        out += [b, b[:, ::-1]]
    return out


def spiral(n, wall=9.0, slope=0.0, base=1.0):
    """n x n walls with a one cell wide spiral corridor from the edge to the middle, deepest cell innermost"""
    a = np.full((n, n), wall)
    r, c, d = 0, 1, 1
    path = [(0, 1), (1, 1)]
    dirs = [(0, 1), (1, 0), (0, -1), (-1, 0)]
    r, c, k = 1, 1, 0
    used = set(path)

    def free(r, c):
        if not (1 <= r < n - 1 and 1 <= c < n - 1) or (r, c) in used:
            return False
        # keep one cell of wall between windings
        for x in (-1, 0, 1):
            for y in (-1, 0, 1):
                q = (r + x, c + y)
                if q in used and q not in path[-2:]:
                    return False
        return True
    turns = 0
    while turns < 2:
        dr, dc = dirs[k % 4]
        if free(r + dr, c + dc):
            r, c = r + dr, c + dc
            path.append((r, c))
            used.add((r, c))
            turns = 0
        else:
            k += 1
            turns += 1
    for i, (x, y) in enumerate(path):
        a[x, y] = base - slope * i
    return a, path


def serpentine(n, w=5, wall=9.0, base=1.0, slope=0.0):
    """n x w: corridor swinging left and right while descending the raster; outlet at the top"""
    a = np.full((n, w), wall)
    path = [(0, 1), (1, 1)]
    r, left = 1, True
    while r + 2 < n - 1:
        cols = range(2, w - 1) if left else range(w - 3, 0, -1)
        path += [(r, c) for c in cols]
        last = path[-1][1]
        path += [(r + 1, last), (r + 2, last)]
        r += 2
        left = not left
    for i, (x, y) in enumerate(path):
        a[x, y] = base - slope * i
    return a, path


def texture(R, C, k, levels):
    """Deterministic pseudo terrain (integer hash), many nested pits"""
    r, c = np.mgrid[0:R, 0:C].astype(np.int64)
    h = (r * 73856093) ^ (c * 19349663) ^ (k * 83492791)
    h = (h ^ (h >> 13)) * 1274126177 % (1 << 31)
    h = (h ^ (h >> 15)) % levels
    return h.astype(np.float64)


def layouts(a):
    """The same array in different memory layouts: (name, array)"""
    big = np.zeros((a.shape[0] * 2 + 1, a.shape[1] * 3 + 1), a.dtype)
    big[1::2, 1::3][:a.shape[0], :a.shape[1]] = a
    ro = a.copy()
    ro.setflags(write=False)
    return [("C", a.copy()), ("F", np.asfortranarray(a)), ("strided", big[1::2, 1::3][:a.shape[0], :a.shape[1]]),
            ("flipped", a[::-1, ::-1].copy()[::-1, ::-1]), ("readonly", ro)]


# ------------------------------------------------------------------------------------------------ flow directions
def dir_alphabet(shape, edge="all"):
    """Per cell list of direction codes. Of the directions leaving the raster all are taken ('all'), one
    representative ('one'), or edge cells only flow straight outward ('out')."""
    R, C = shape
    out = []
    for r in range(R):
        for c in range(C):
            inside, off = [], []
            for d, (a, b) in enumerate(DELTA):
                (inside if 0 <= r + a < R and 0 <= c + b < C else off).append(d)
            if off and edge == "out":
                dr = -1 if r == 0 else (1 if r == R - 1 else 0)
                dc = -1 if c == 0 else (1 if c == C - 1 else 0)
                out.append([DELTA.index((dr, dc))])
            elif off and edge == "one":
                out.append(inside + off[:1] + [8])
            else:
                out.append(inside + off + [8])
    return out


DELTA = [(-1, 0), (-1, 1), (0, 1), (1, 1), (1, 0), (1, -1), (0, -1), (-1, -1)]


def next_index(fd):
    """batch of direction rasters (n, R, C) -> index of the next cell (n, R*C+1); R*C where flow leaves or stops"""
    n, R, C = fd.shape
    dr = np.array([d[0] for d in DELTA] + [10 ** 6])[fd]
    dc = np.array([d[1] for d in DELTA] + [10 ** 6])[fd]
    rr = np.arange(R)[None, :, None] + dr
    cc = np.arange(C)[None, None, :] + dc
    ok = (rr >= 0) & (rr < R) & (cc >= 0) & (cc < C)
    nx = np.where(ok, rr * C + cc, R * C).reshape(n, R * C)
    return np.concatenate([nx, np.full((n, 1), R * C, dtype=nx.dtype)], axis=1)


def forests(shape, alphabets, shard=0, nshards=1):
    """All acyclic flow direction rasters, in batches: (fd (n,R,C) uint8, next cell (n,R*C+1))"""
    R, C = shape
    N = R * C
    buf = []

    def flush():
        fd = np.array(buf, dtype=np.uint8)
        nx = next_index(fd)
        p = nx
        for _ in range(max(1, N.bit_length())):   # 2**k steps
            p = np.take_along_axis(p, p, axis=1)
        ok = (p == N).all(axis=1)
        return fd[ok], nx[ok]
    for g in grids(shape, alphabets, np.uint8, shard, nshards):
        buf.append(g)
        if len(buf) == 2048:
            yield flush()
            buf = []
    if buf:
        yield flush()


def snake(R, C, head_last=True):
    """Flow directions of one path through all cells (boustrophedon) leaving the raster at the top left cell,
    or, mirrored, at the bottom right cell"""
    fd = np.empty((R, C), np.uint8)
    fd[0::2] = 6      # even rows flow left
    fd[1::2] = 2      # odd rows flow right
    fd[2::2, 0] = 0   # end of even row: up
    fd[1::2, C - 1] = 0
    if not head_last:
        return np.ascontiguousarray((fd[::-1, ::-1] + 4) % 8)
    return fd


def snake_positions(R, C):
    """Position of each cell on snake(R, C), counted from the outlet (0)"""
    p = np.arange(R * C).reshape(R, C)
    p[1::2] = p[1::2, ::-1]
    return p


def zigzag(R, C, wall=5.0):
    """A channel which goes up and down all the time and through the whole raster, with an outlet at its beginning:
    a sweep over the raster in any direction gets one cell further at most"""
    a = np.full((R, C), wall)
    r, forward = 1, True
    while r + 1 < R - 1:
        for c in range(1, C - 1):
            q = c if forward else C - 1 - c
            a[r + (c + 1) % 2, q] = -(c % 3)
        if r + 4 < R - 1:
            end = C - 2 if forward else 1
            first = 1 if not forward else C - 2
            last = r + (C - 2 + 1) % 2
            for k in range(last, r + 3):
                a[k, end] = -1
            a[r + 3, first] = -1
        r += 3
        forward = not forward
    a[1, 0] = 0
    return a
