"""Mesh model: construction of conforming meshes, topology, canonical comparison."""
import random
import numpy as np

# type -> (dim, nnodes, corners)
TYPES = {
    "line2": (1, 2), "line3": (1, 3), "tria3": (2, 3), "tria6": (2, 6), "quad4": (2, 4), "quad8": (2, 8),
    "tetra4": (3, 4), "tetra10": (3, 10), "pyra5": (3, 5), "pyra13": (3, 13), "prism6": (3, 6), "prism15": (3, 15),
    "hexa8": (3, 8), "hexa20": (3, 20),
}
NCORNER = {"line": 2, "tria": 3, "quad": 4, "tetr": 4, "pyra": 5, "pris": 6, "hexa": 8}
ESNAME = {"LINE2": "line2", "LINE3": "line3", "TRIANGLE3": "tria3", "TRIANGLE6": "tria6", "SQUARE4": "quad4", "SQUARE8": "quad8",
          "TETRA4": "tetra4", "TETRA10": "tetra10", "PYRAMID5": "pyra5", "PYRAMID13": "pyra13", "PRISMA6": "prism6",
          "PRISMA15": "prism15", "HEXA8": "hexa8", "HEXA20": "hexa20"}
ENSIGHT = {"line2": "bar2", "line3": "bar3", "tria3": "tria3", "tria6": "tria6", "quad4": "quad4", "quad8": "quad8", "tetra4": "tetra4",
           "tetra10": "tetra10", "pyra5": "pyramid5", "pyra13": "pyramid13", "prism6": "penta6", "prism15": "penta15", "hexa8": "hexa8", "hexa20": "hexa20"}
ENSIGHT_INV = {v: k for k, v in ENSIGHT.items()}
ENSIGHT_INV["point"] = "point"

# edges whose mid points follow the corners, in order
EDGES = {
    "line2": [(0, 1)],
    "tria3": [(0, 1), (1, 2), (2, 0)],
    "quad4": [(0, 1), (1, 2), (2, 3), (3, 0)],
    "tetra4": [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)],
    "pyra5": [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 4), (2, 4), (3, 4)],
    "prism6": [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3), (0, 3), (1, 4), (2, 5)],
    "hexa8": [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)],
}
QUAD = {"line2": "line3", "tria3": "tria6", "quad4": "quad8", "tetra4": "tetra10", "pyra5": "pyra13", "prism6": "prism15", "hexa8": "hexa20"}
LIN = {v: k for k, v in QUAD.items()}
# outward faces (corner indices)
FACES = {
    "tetra4": [(0, 2, 1), (0, 1, 3), (1, 2, 3), (2, 0, 3)],
    "pyra5": [(0, 3, 2, 1), (0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4)],
    "prism6": [(0, 2, 1), (3, 4, 5), (0, 1, 4, 3), (1, 2, 5, 4), (2, 0, 3, 5)],
    "hexa8": [(0, 3, 2, 1), (4, 5, 6, 7), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7)],
    "tria3": [(0, 1), (1, 2), (2, 0)],
    "quad4": [(0, 1), (1, 2), (2, 3), (3, 0)],
}
FTYPE = {2: "line2", 3: "tria3", 4: "quad4"}


def q5(a):
    """Round to what '%12.5e' keeps."""
    a = np.asarray(a, float)
    out = np.array([float("%.5e" % v) for v in a.ravel()]).reshape(a.shape)
    return out + 0.0


class Mesh:
    """coords (n,3); blocks: list of (etype, conn (k,nn) int array); element ids = position in the concatenation of blocks.
    eregions/nregions: name -> index arrays; bregions: name -> list of (etype, conn)."""

    def __init__(self, dim, coords, blocks):
        self.dim, self.coords, self.blocks = dim, coords, blocks
        self.eregions, self.nregions, self.bregions = {}, {}, {}
        self.material = None

    @property
    def ne(self):
        return sum(len(c) for _, c in self.blocks)

    def elements(self):
        """list of (type, conn) per element index."""
        out = []
        for t, c in self.blocks:
            out += [(t, row) for row in c]
        return out

    def region_blocks(self, ids):
        """blocks restricted to element ids (sorted by id inside a block)."""
        ids = np.sort(np.asarray(ids, int))
        out, off = [], 0
        for t, c in self.blocks:
            sel = ids[(ids >= off) & (ids < off + len(c))] - off
            if len(sel):
                out.append((t, c[sel]))
            off += len(c)
        return out

    def boundary_faces(self, ids=None):
        """faces with exactly one adjacent element: list of (etype, conn) blocks (outward oriented)."""
        blocks = self.blocks if ids is None else self.region_blocks(ids)
        return surface(blocks)


def faces_of(t, conn):
    lin = LIN.get(t, t)
    quad = t in LIN
    nc = NCORNER[lin[:4]]
    edges = EDGES[lin]
    emap = {}
    for i, (a, b) in enumerate(edges):
        emap[(a, b)] = emap[(b, a)] = nc + i
    out = []
    for f in FACES[lin]:
        idx = list(f)
        if quad:
            if len(f) == 2:
                idx.append(emap[f])
            else:
                idx += [emap[(f[i], f[(i + 1) % len(f)])] for i in range(len(f))]
        ft = FTYPE[len(f)]
        out.append((QUAD[ft] if quad else ft, conn[:, idx]))
    return out


def surface(blocks):
    by = {}
    for t, c in blocks:
        for ft, fc in faces_of(t, c):
            by.setdefault(ft, []).append(fc)
    out = []
    for ft, lst in sorted(by.items()):
        a = np.vstack(lst)
        key = np.sort(a[:, :NCORNER[ft[:4]]], axis=1)
        _, inv, cnt = np.unique(key, axis=0, return_inverse=True, return_counts=True)
        sel = cnt[np.asarray(inv).ravel()] == 1
        if sel.any():
            out.append((ft, a[sel]))
    return out


def components(mesh):
    """number of face-connected bodies."""
    owner = {}
    parent = list(range(mesh.ne))

    def find(i):
        while parent[i] != i:
            parent[i] = parent[parent[i]]
            i = parent[i]
        return i

    off = 0
    for t, c in mesh.blocks:
        for ft, fc in faces_of(t, c):
            key = np.sort(fc[:, :NCORNER[ft[:4]]], axis=1)
            for e, k in enumerate(map(tuple, key)):
                if k in owner:
                    a, b = find(owner[k]), find(off + e)
                    if a != b:
                        parent[a] = b
                else:
                    owner[k] = off + e
        off += len(c)
    return len({find(i) for i in range(mesh.ne)})


def make(p):
    """p: dict(dim, n, kinds, quadratic, jitter, perm, scale, shift, gaps) -> Mesh.

    kinds: list of column kinds (cycled by a seeded draw); gaps: list of x cell indices before which the mesh is torn apart
    (nodes duplicated and moved away), giving several bodies."""
    rnd = random.Random(p.get("perm", 0) * 7919 + 13)
    dim = p["dim"]
    n = list(p["n"])
    gaps = sorted(set(g for g in p.get("gaps", []) if 0 < g < n[0]))
    # x layers: a gap doubles the node plane
    xs, xcell = [], []
    cur = 0.0
    for i in range(n[0]):
        if i == 0 or i in gaps:
            if i in gaps:
                cur += 0.5
            xs.append(cur)
        xcell.append(len(xs) - 1)
        cur += 1.0 + (0.25 * ((i * 7) % 3) if p.get("jitter") else 0)
        xs.append(cur)
    ys = [float(i) for i in range(n[1] + 1)]
    nz = n[2] if dim == 3 else 0
    zs = [float(i) for i in range(nz + 1)]
    NX, NY, NZ = len(xs), len(ys), len(zs)
    X, Y, Z = np.meshgrid(xs, ys, zs, indexing="ij")
    coords = np.stack([X.ravel(), Y.ravel(), Z.ravel()], axis=1)
    if p.get("jitter"):
        r = np.random.RandomState(p["jitter"] % (2 ** 31))
        d = r.uniform(-0.12, 0.12, coords.shape)
        if dim == 2:
            d[:, 2] = 0
        coords = coords + d

    def nid(i, j, k=0):
        return (i * NY + j) * NZ + k

    kinds = p["kinds"]
    extra = []
    elems = {}

    def add(t, *nodes):
        elems.setdefault(t, []).append(nodes)

    ci = np.array(xcell)
    for i in range(n[0]):
        for j in range(n[1]):
            col = kinds[rnd.randrange(len(kinds))]
            a = ci[i]
            if dim == 2:
                q = (nid(a, j), nid(a + 1, j), nid(a + 1, j + 1), nid(a, j + 1))
                if col == "quad":
                    add("quad4", *q)
                else:
                    if rnd.random() < 0.5:
                        add("tria3", q[0], q[1], q[2])
                        add("tria3", q[0], q[2], q[3])
                    else:
                        add("tria3", q[0], q[1], q[3])
                        add("tria3", q[1], q[2], q[3])
                continue
            diag = rnd.random() < 0.5
            for k in range(nz):
                h = (nid(a, j, k), nid(a + 1, j, k), nid(a + 1, j + 1, k), nid(a, j + 1, k),
                     nid(a, j, k + 1), nid(a + 1, j, k + 1), nid(a + 1, j + 1, k + 1), nid(a, j + 1, k + 1))
                c = col
                if c == "hexpyr":
                    c = "pyra" if rnd.random() < 0.5 else "hexa"
                if c == "hexa":
                    add("hexa8", *h)
                elif c == "prism":
                    if diag:
                        add("prism6", h[0], h[1], h[2], h[4], h[5], h[6])
                        add("prism6", h[0], h[2], h[3], h[4], h[6], h[7])
                    else:
                        add("prism6", h[0], h[1], h[3], h[4], h[5], h[7])
                        add("prism6", h[1], h[2], h[3], h[5], h[6], h[7])
                elif c == "pyra":
                    cid = len(coords) + len(extra)
                    extra.append(np.mean(coords[list(h)], axis=0))
                    for f in FACES["hexa8"]:
                        g = [h[x] for x in f]
                        add("pyra5", g[0], g[3], g[2], g[1], cid)
                elif c == "tetra":
                    for t in ((0, 1, 2, 6), (0, 2, 3, 6), (0, 3, 7, 6), (0, 7, 4, 6), (0, 4, 5, 6), (0, 5, 1, 6)):
                        add("tetra4", *(h[x] for x in t))
                else:
                    raise ValueError(c)
    if extra:
        coords = np.vstack([coords, np.array(extra)])
    blocks = [(t, np.array(v, dtype=np.int64)) for t, v in elems.items()]
    if p.get("quadratic"):
        blocks, coords = add_midpoints(blocks, coords)
    scale = np.array(p.get("scale", [1, 1, 1]), float)
    shift = np.array(p.get("shift", [0, 0, 0]), float)
    coords = coords * scale + (shift if dim == 3 else shift * np.array([1, 1, 0]))
    coords = q5(coords)
    # permute nodes and elements
    if p.get("perm"):
        r = np.random.RandomState(p["perm"] % (2 ** 31))
        pn = r.permutation(len(coords))            # old -> new
        nc = np.empty_like(coords)
        nc[pn] = coords
        coords = nc
        nb = []
        for t, c in blocks:
            c = pn[c]
            nb.append((t, c[r.permutation(len(c))]))
        blocks = [nb[i] for i in r.permutation(len(nb))]
    return Mesh(dim, coords, blocks)


def add_midpoints(blocks, coords):
    allp = []
    for t, c in blocks:
        for a, b in EDGES[t]:
            allp.append(np.sort(c[:, [a, b]], axis=1))
    u, inv = np.unique(np.vstack(allp), axis=0, return_inverse=True)
    inv = np.asarray(inv).ravel()
    base = len(coords)
    mid = (coords[u[:, 0]] + coords[u[:, 1]]) / 2
    out, off = [], 0
    for t, c in blocks:
        cols = [c]
        for _ in EDGES[t]:
            cols.append((base + inv[off:off + len(c)])[:, None])
            off += len(c)
        out.append((QUAD[t], np.hstack(cols)))
    return out, np.vstack([coords, mid])


# ---------------------------------------------------------------- canonical form

def ckey(coords, decimals=None):
    """float32 coordinate key rows (void view) usable with np.unique/searchsorted."""
    a = np.ascontiguousarray(np.asarray(coords, dtype=np.float32) + np.float32(0.0))
    return a.view([("x", "<i4"), ("y", "<i4"), ("z", "<i4")]).reshape(-1)


class Locator:
    """maps float32 coordinates to indices of the reference nodes."""

    def __init__(self, coords):
        self.keys = {}
        for i, k in enumerate(map(tuple, ckey(coords).tolist())):
            self.keys.setdefault(k, i)
        self.distinct = len(self.keys)

    def find(self, coords):
        return np.array([self.keys.get(tuple(k), -1) for k in ckey(coords).tolist()], dtype=np.int64)


def canon(blocks, ordered=True, rep=None):
    """multiset of (type, nodes) as a sorted list per type."""
    out = {}
    for t, c in blocks:
        c = np.asarray(c)
        if rep is not None:
            c = rep[c]
        out.setdefault(t, []).append(c if ordered else np.sort(c, axis=1))
    res = {}
    for t, lst in out.items():
        a = np.vstack(lst)
        if len(a):
            res[t] = a[np.lexsort(a.T[::-1])]
    return res


def same(a, b):
    if set(a) != set(b):
        return "element types differ: %s vs %s" % ({k: len(v) for k, v in a.items()}, {k: len(v) for k, v in b.items()})
    for t in a:
        if a[t].shape != b[t].shape:
            return "%s: %d vs %d elements" % (t, len(a[t]), len(b[t]))
        d = (a[t] != b[t]).any(axis=1)
        if d.any():
            i = int(np.argmax(d))
            return "%s: element %s expected, %s found" % (t, a[t][i].tolist(), b[t][i].tolist())
    return None


def rotcanon(blocks):
    """faces up to cyclic rotation: smallest corner first, orientation kept."""
    out = []
    for t, c in blocks:
        nc = NCORNER[t[:4]]
        c = np.asarray(c)
        if nc < 3 or not len(c):
            out.append((t, c))
            continue
        s = np.argmin(c[:, :nc], axis=1)
        idx = (s[:, None] + np.arange(nc)[None, :]) % nc
        a = np.take_along_axis(c[:, :nc], idx, axis=1)
        if c.shape[1] > nc:
            a = np.hstack([a, np.take_along_axis(c[:, nc:], idx, axis=1)])
        out.append((t, a))
    return canon(out)
