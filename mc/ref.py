"""Reference models. Written for obviousness, independent of how malstroem computes the same things."""
import heapq
from fractions import Fraction
import math

import numpy as np

# direction code -> (row delta, col delta): up=0 then clockwise
DELTA = [(-1, 0), (-1, 1), (0, 1), (1, 1), (1, 0), (1, -1), (0, -1), (-1, -1)]
NODIR = 8


def is_edge(r, c, R, C):
    return r == 0 or c == 0 or r == R - 1 or c == C - 1


def fill(dem, short=None, diag=None, dtype=None):
    """Lowest surface >= dem with a non-ascending (or descending by short/diag per step) path to the edge from any cell.

    Priority flood (Dijkstra) from the raster edge; edge cells keep their elevation.
    """
    R, C = dem.shape
    z = dem.tolist()
    inf = float("inf")
    out = [[inf] * C for _ in range(R)]
    heap = []
    for r in range(R):
        for c in range(C):
            if r == 0 or c == 0 or r == R - 1 or c == C - 1:
                out[r][c] = z[r][c]
                heap.append((z[r][c], r, c))
    heapq.heapify(heap)
    steps = [(a, b, 0.0 if short is None else float(diag if a and b else short)) for a, b in DELTA]
    pop, push = heapq.heappop, heapq.heappush
    while heap:
        v, r, c = pop(heap)
        if v > out[r][c]:
            continue
        for a, b, d in steps:
            i, j = r + a, c + b
            if 0 <= i < R and 0 <= j < C:
                n = v + d if d else v
                if z[i][j] > n:
                    n = z[i][j]
                if n < out[i][j]:
                    out[i][j] = n
                    push(heap, (n, i, j))
    return np.array(out, dtype=dtype or dem.dtype)


def steepest(z, r, c):
    """Set of admissible directions of interior cell (r, c): those with the largest positive slope (exact arithmetic,
    slopes closer than 1e-9 relative count as equal); empty if no neighbour is lower."""
    best, sl = None, []
    z0 = Fraction(float(z[r][c]))
    for d, (a, b) in enumerate(DELTA):
        dz = z0 - Fraction(float(z[r + a][c + b]))
        if dz > 0:
            sl.append((dz * dz / 2 if a and b else dz * dz, d))  # squared slopes
    if not sl:
        return set()
    top = max(sl)[0]
    return {d for s, d in sl if s >= top * Fraction(999999998, 1000000000)}


def outward(r, c, R, C):
    """Direction codes by which edge cell (r, c) leaves the raster"""
    out = set()
    for d, (a, b) in enumerate(DELTA):
        if not (0 <= r + a < R and 0 <= c + b < C):
            out.add(d)
    return out


def edge_code(r, c, R, C):
    """Documented coding of edge cells: straight off the raster, corners diagonally"""
    dr = -1 if r == 0 else (1 if r == R - 1 else 0)
    dc = -1 if c == 0 else (1 if c == C - 1 else 0)
    return DELTA.index((dr, dc))


def downstream(fd, r, c):
    """Next cell, or None if flow leaves the raster or stops here"""
    d = int(fd[r][c])
    if d == NODIR:
        return None
    a, b = DELTA[d]
    i, j = r + a, c + b
    return (i, j) if 0 <= i < len(fd) and 0 <= j < len(fd[0]) else None


def is_acyclic(fd):
    R, C = len(fd), len(fd[0])
    state = {}
    for r in range(R):
        for c in range(C):
            path, cur = [], (r, c)
            while cur is not None and cur not in state:
                state[cur] = 1
                path.append(cur)
                cur = downstream(fd, *cur)
            if cur is not None and state[cur] == 1:
                return False
            for p in path:
                state[p] = 2
    return True


def accum(fd):
    """Upstream cell count including the cell itself, by walking downstream from every cell in topological order"""
    R, C = len(fd), len(fd[0])
    nxt = {}
    indeg = {}
    for r in range(R):
        for c in range(C):
            n = downstream(fd, r, c)
            nxt[r, c] = n
            if n is not None:
                indeg[n] = indeg.get(n, 0) + 1
    a = {k: 1 for k in nxt}
    ready = [k for k in nxt if not indeg.get(k)]
    done = 0
    while ready:
        k = ready.pop()
        done += 1
        n = nxt[k]
        if n is not None:
            a[n] += a[k]
            indeg[n] -= 1
            if not indeg[n]:
                ready.append(n)
    assert done == R * C, "cyclic"
    return np.array([[a[r, c] for c in range(C)] for r in range(R)], dtype=np.float64)


def trace(fd, cell):
    out, cur = [], cell
    while cur is not None:
        out.append(cur)
        cur = downstream(fd, *cur)
        assert len(out) <= len(fd) * len(fd[0]), "cyclic"
    return out


def watersheds(fd, lab, unassigned):
    """Every unassigned cell gets the first label met downstream (memoised)"""
    R, C = len(fd), len(fd[0])
    res = {}
    for r in range(R):
        for c in range(C):
            path, cur = [], (r, c)
            while True:
                if cur is None:
                    v = unassigned
                    break
                if cur in res:
                    v = res[cur]
                    break
                if lab[cur[0]][cur[1]] != unassigned:
                    v = lab[cur[0]][cur[1]]
                    res[cur] = v
                    break
                path.append(cur)
                cur = downstream(fd, *cur)
            for p in path:
                res[p] = v
    return [[res[r, c] for c in range(C)] for r in range(R)]


def components(mask):
    """8-connected components as a list of frozensets of cells"""
    R, C = len(mask), len(mask[0])
    seen, out = set(), []
    for r in range(R):
        for c in range(C):
            if mask[r][c] and (r, c) not in seen:
                comp, todo = set(), [(r, c)]
                seen.add((r, c))
                while todo:
                    x, y = todo.pop()
                    comp.add((x, y))
                    for a, b in DELTA:
                        i, j = x + a, y + b
                        if 0 <= i < R and 0 <= j < C and mask[i][j] and (i, j) not in seen:
                            seen.add((i, j))
                            todo.append((i, j))
                out.append(frozenset(comp))
    return out


def cells_of(lab):
    """label -> set of cells (label 0 left out)"""
    out = {}
    for r, row in enumerate(lab):
        for c, v in enumerate(row):
            if v != 0:
                out.setdefault(int(v), set()).add((r, c))
    return out


def level_for_volume(depths, area, volume):
    """Water level above the deepest point at which cells of given depths-below-full hold the volume.
    depths: full depth per cell. Returns depth of water at the deepest point."""
    full = max(depths)
    bottoms = sorted(full - d for d in depths)  # height of cell bottom above deepest point
    v, n = 0.0, 0
    for i, b in enumerate(bottoms):
        nxt = bottoms[i + 1] if i + 1 < len(bottoms) else full
        step = (nxt - b) * (i + 1) * area
        if v + step >= volume:
            return b + (volume - v) / ((i + 1) * area)
        v += step
    return full


def level_for_volume_weighted(bottoms, weights, full, area, volume):
    """As above for weights[i] cells each with their bottom at bottoms[i] (ascending). Returns the level."""
    v, n = 0.0, 0
    for i, b in enumerate(bottoms):
        n += weights[i]
        nxt = bottoms[i + 1] if i + 1 < len(bottoms) else full
        step = (nxt - b) * n * area
        if v + step >= volume:
            return b + (volume - v) / (n * area)
        v += step
    return full


# ------------------------------------------------------------------------------------------------ batches of forests
def batch_accum(nx):
    """nx: (n, N+1) index of next cell, N = nowhere. Number of cells whose path passes through each cell."""
    n, N1 = nx.shape
    N = N1 - 1
    out = np.zeros((n, N1), dtype=np.int64)
    rows = np.arange(n)
    for start in range(N):
        pos = np.full(n, start)
        for _ in range(N):
            out[rows, pos] += 1
            pos = nx[rows, pos]
    return out[:, :N]


def batch_terminal(nx):
    """Last cell of each cell's path"""
    n, N1 = nx.shape
    rows = np.arange(n)[:, None]
    pos = np.broadcast_to(np.arange(N1 - 1), (n, N1 - 1)).copy()
    for _ in range(N1 - 1):
        nxt = nx[rows, pos]
        pos = np.where(nxt == N1 - 1, pos, nxt)
    return pos


def batch_watersheds(nx, lab, unassigned):
    """lab: flat labels (N). First label on the path of each cell, for each forest"""
    n, N1 = nx.shape
    N = N1 - 1
    ext = np.append(lab, unassigned)
    rows = np.arange(n)[:, None]
    pos = np.broadcast_to(np.arange(N), (n, N)).copy()
    for _ in range(N):
        free = (pos < N) & (ext[pos] == unassigned)
        pos = np.where(free, nx[rows, pos], pos)
    return ext[pos]
