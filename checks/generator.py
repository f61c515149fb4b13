"""Meshes of the internal generator (grids, sets and towers of grids) against the described geometry."""
import os
import numpy as np
from hypothesis import strategies as st
from scipy.spatial import cKDTree
from vlib import mesh as M, outputs as O, impcheck as I
from vlib.core import Violation, Inconclusive

PARAMS = {"quick": {"seconds": 60, "shrink": 60}, "thorough": {"seconds": 600, "shrink": 60}}
RULE = ("A case is a generated description of one grid (blocks, clusters, domains, elements, start, lengths, projection, switched-off blocks), a set or a tower of grids in 2D or 3D with node, edge, face and element regions, "
        "generated by mesio with one MPI process per cluster. Oracle: the description: the nodes are the projected lattice points, the elements tile every cell once, conformingly and with positive orientation, "
        "midside nodes lie in the middle, every region holds exactly the entities of its interval or colour, and the uniform decomposition consists of the described boxes. Non-trivial: >= 4 cells and either several clusters, several grids or a region.")

TYPES3 = {"HEXA8": ("hexa8", 1), "HEXA20": ("hexa20", 1), "TETRA4": ("tetra4", 6), "TETRA10": ("tetra10", 6), "PRISMA6": ("prism6", 2), "PRISMA15": ("prism15", 2), "PYRAMID5": ("pyra5", 6), "PYRAMID13": ("pyra13", 6)}
TYPES2 = {"SQUARE4": ("quad4", 1), "SQUARE8": ("quad8", 1), "TRIANGLE3": ("tria3", 2), "TRIANGLE6": ("tria6", 2)}
TYPES = dict(TYPES3, **TYPES2)
# name -> (ecf expressions, function of (x, y, z))
PROJ = {
    "": (None, lambda x, y, z: (x, y, z)),
    "shear": (("X + 0.25 * Y", "Y", "Z - 0.125 * X"), lambda x, y, z: (x + 0.25 * y, y, z - 0.125 * x)),
    "scale": (("2 * X + 1", "Y * (1 + 0.01 * X * X)", "Z"), lambda x, y, z: (2 * x + 1, y * (1 + 0.01 * x * x), z)),
    "curve": (("X", "Y + 0.05 * X * X", "Z * (1.5 + 0.02 * Y * Y)"), lambda x, y, z: (x, y + 0.05 * x * x, z * (1.5 + 0.02 * y * y))),
    "swap": (("Y", "-X", "Z"), lambda x, y, z: (y, -x, z)),
}


@st.composite
def grid(draw, dim, ranks, ncells=5):
    g = {"type": draw(st.sampled_from(sorted(TYPES3 if dim == 3 else TYPES2))), "start": [draw(st.sampled_from([0, 0, 1, -2, 0.25, -0.7])) for _ in range(dim)],
         "length": [draw(st.sampled_from([1, 1, 2, 0.5, 3, 0.3, 1.7])) for _ in range(dim)], "domains": [draw(st.sampled_from([1, 1, 2, 2, 3])) for _ in range(dim)],
         "elements": [draw(st.integers(1, 3)) for _ in range(dim)], "blocks": [1] * dim, "clusters": [1] * dim}
    while ranks > 1:
        k = draw(st.sampled_from([2, 2, 3]))
        if ranks % k:
            k = ranks
        g[draw(st.sampled_from(["blocks", "clusters"]))][draw(st.integers(0, dim - 1))] *= k
        ranks //= k
    return g


@st.composite
def strategy_(draw, tier):
    dim = draw(st.sampled_from([3, 3, 2]))
    shape = draw(st.sampled_from(["GRID", "GRID", "GRID", "GRID_SET", "GRID_TOWER"]))
    if shape == "GRID":
        grids = [draw(grid(dim, draw(st.sampled_from([1, 2, 2, 3, 4, 4, 6]))))]
        n = int(np.prod(grids[0]["blocks"]) * np.prod(grids[0]["clusters"]))
        off = draw(st.lists(st.integers(0, n - 1), unique=True, max_size=n - 1)) if n > 1 and draw(st.integers(0, 3)) == 0 else []
    else:
        grids = [draw(grid(dim, draw(st.sampled_from([1, 1, 2])))) for _ in range(draw(st.integers(1, 3)))]
        off = []
    regs = []
    for i in range(draw(st.integers(0, 4))):
        kind = draw(st.sampled_from(["NODES", "NODES", "FACES" if dim == 3 else "EDGES", "ELEMENTS", "CHESSBOARD_WHITE", "CHESSBOARD_BLACK"]))
        iv = [[draw(st.integers(0, 40)), draw(st.integers(0, 40)), draw(st.booleans()), draw(st.booleans())] for _ in range(dim)]
        regs.append({"kind": kind, "grid": draw(st.integers(0, 2)), "iv": iv, "axis": draw(st.integers(0, dim - 1)), "side": draw(st.integers(0, 1)), "all": draw(st.booleans()), "flat": draw(st.sampled_from([True, True, False]))})
    return {"dim": dim, "shape": shape, "grids": grids, "off": sorted(off), "proj": draw(st.sampled_from(["", "", "shear", "scale", "curve", "swap"])), "regs": regs, "chess": draw(st.sampled_from([1, 2, 3, 4])),
            "direction": draw(st.integers(0, dim - 1)), "composition": draw(st.sampled_from(["GLUED", "FREE"])), "uniform": draw(st.sampled_from([[1, 1], [1, 1], [1, 0], [0, 0]])), "threads": draw(st.sampled_from([1, 2, 3])),
            "decomposer": draw(st.sampled_from(["METIS", "PARMETIS"]))}


def strategy(tier):
    return strategy_(tier)


def num(x):
    return ("%.7f" % x).rstrip("0").rstrip(".")


class G:
    """One grid: the lattice has 4 intervals per cell."""

    def __init__(self, g, dim, shift):
        three = lambda v, d: np.array(list(v) + [d] * (3 - dim))
        self.dim, self.type = dim, g["type"]
        self.blocks, self.clusters, self.domains, self.elements = (three(g[k], 1) for k in ("blocks", "clusters", "domains", "elements"))
        self.start, self.length = three(g["start"], 0).astype(float), three(g["length"], 0).astype(float)
        self.ranks = int(np.prod(self.blocks * self.clusters))
        self.nclusters = self.blocks * self.clusters
        self.percluster = self.domains * self.elements
        self.cells = self.nclusters * self.percluster
        self.h = self.length / (self.clusters * self.percluster)
        self.origin = self.start + shift
        self.full = self.length * self.blocks

    def ecf(self, regions, proj, chess, off):
        s = []
        ax = "XYZ"
        for key, v in (("BLOCKS", self.blocks), ("CLUSTERS", self.clusters), ("DOMAINS", self.domains), ("ELEMENTS", self.elements)):
            s += ["%s_%s %d;" % (key, ax[i], v[i]) for i in range(3)]
        for key, v in (("START", self.start), ("LENGTH", self.length)):
            s += ["%s_%s %s;" % (key, ax[i], num(v[i])) for i in range(3)]
        s.append("ELEMENT_TYPE %s;" % self.type)
        s.append("CHESSBOARD_SIZE %d;" % chess)
        if PROJ[proj][0]:
            s += ["PROJECTION_%s %s;" % (ax[i], e) for i, e in enumerate(PROJ[proj][0])]
        for kind in ("NODES", "EDGES", "FACES", "ELEMENTS"):
            l = ["%s %s;" % (n, t) for k, n, t in regions if k == kind]
            if l:
                s.append("%s { %s }" % (kind, " ".join(l)))
        if off:
            s.append("BLOCKS { %s }" % " ".join("%d FALSE;" % i for i in off))
        return "\n".join(s)


def interval(iv):
    return " ".join("%s%s , %s%s" % ("(" if o1 else "<", num(a), num(b), ")" if o2 else ">") for a, b, o1, o2 in iv)


TETS = {"hexa": [(0, 1, 2, 6), (0, 2, 3, 6), (0, 3, 7, 6), (0, 7, 4, 6), (0, 4, 5, 6), (0, 5, 1, 6)], "tetr": [(0, 1, 2, 3)], "pris": [(0, 1, 2, 5), (0, 1, 5, 4), (0, 4, 5, 3)], "pyra": [(0, 1, 2, 4), (0, 2, 3, 4)]}
TRIS = {"quad": [(0, 1, 2), (0, 2, 3)], "tria": [(0, 1, 2)]}


def measures(t, c, L):
    """signed measures of the simplices of every element, in lattice units."""
    if t[:4] in TETS:
        return [np.linalg.det((L[c[:, list(s[1:])]] - L[c[:, [s[0]]]]).astype(float)) / 6 for s in TETS[t[:4]]]
    out = []
    for s in TRIS[t[:4]]:
        a, b = L[c[:, s[1]]] - L[c[:, s[0]]], L[c[:, s[2]]] - L[c[:, s[0]]]
        out.append((a[:, 0] * b[:, 1] - a[:, 1] * b[:, 0]) / 2)
    return out


def check_grid(g, part, proj, off, name):
    """Returns (mesh, lattice coordinates of its nodes, cell of every element)."""
    dim = g.dim
    ax = [np.arange(4 * n + 1) if i < dim else np.zeros(1, int) for i, n in enumerate(g.cells)]
    lat = np.stack([a.ravel() for a in np.meshgrid(*ax, indexing="ij")], axis=1)
    pos = g.origin + lat * g.h / 4
    pos = np.stack(np.broadcast_arrays(*PROJ[proj][1](*pos.T)), axis=1)
    x = part["coords"].astype(float)
    scale = max(1, np.abs(pos).max())
    d, idx = cKDTree(pos).query(x)
    tol = 4e-7 * 4 + 3e-7 * scale
    if not len(x) or d.max() > tol:
        raise Violation("%s: node %s is not a point of the described grid (distance %g)" % (name, x[np.argmax(d)].tolist() if len(x) else None, d.max() if len(x) else 0))
    L = lat[idx]
    if len(np.unique(idx)) != len(idx):
        raise Violation("%s: a node is stored twice" % name)
    et, sub = TYPES[g.type]
    if [t for t, _ in part["blocks"]] != [et]:
        raise Violation("%s: elements of type %s instead of %s" % (name, [t for t, _ in part["blocks"]], et))
    c = part["blocks"][0][1]
    on = np.ones(tuple(g.nclusters[::-1]), bool)
    on.ravel()[off] = False
    ne = sub * int(np.prod(g.percluster)) * int(on.sum())
    if len(c) != ne:
        raise Violation("%s: %d elements, the description has %d" % (name, len(c), ne))
    nc = M.NCORNER[et[:4]]
    lo, hi = L[c[:, :nc]].min(axis=1), L[c[:, :nc]].max(axis=1)
    cell = lo // 4
    if (hi[:, :dim] > 4 * cell[:, :dim] + 4).any() or (cell[:, :dim] >= g.cells[:dim]).any():
        raise Violation("%s: an element spans more than one cell" % name)
    cl = cell // g.percluster
    if not on[cl[:, 2], cl[:, 1], cl[:, 0]].all():
        raise Violation("%s: an element lies in a block that is switched off" % name)
    vol = np.zeros(tuple(g.cells))
    for v in measures(et, c, L):
        if v.min() <= 0:
            raise Violation("%s: element %s is degenerate or inverted" % (name, L[c[np.argmin(v)]].tolist()))
        np.add.at(vol, tuple(cell.T), v)
    full = 64 if dim == 3 else 16
    rep = np.repeat(np.repeat(np.repeat(on.transpose(2, 1, 0), g.percluster[0], 0), g.percluster[1], 1), g.percluster[2], 2)
    if np.abs(vol - full * rep).max() > 1e-9:
        raise Violation("%s: elements of a cell have volume %g instead of %d" % (name, vol.ravel()[np.argmax(np.abs(vol - full * rep).ravel())], full))
    if et in M.LIN:
        for i, (a, b) in enumerate(M.EDGES[M.LIN[et]]):
            if (2 * L[c[:, nc + i]] != L[c[:, a]] + L[c[:, b]]).any():
                raise Violation("%s: a midside node is not in the middle of its edge" % name)
    m = M.Mesh(dim, part["coords"].astype(float), part["blocks"])
    if len(np.unique(c)) != len(x):
        raise Violation("%s: stored nodes are not those of its elements" % name)
    # conformity: a face of only one element lies on the boundary of the switched-on blocks
    pad = np.zeros(np.array(rep.shape) + 2, bool)
    pad[1:-1, 1:-1, 1:-1] = rep
    for ft, f in m.boundary_faces():
        q = L[f[:, :M.NCORNER[ft[:4]]]]
        okay = np.zeros(len(f), bool)
        for k in range(dim):
            plane = (q[:, :, k] == q[:, :1, k]).all(axis=1) & (q[:, 0, k] % 4 == 0)
            low = (q.min(axis=1) // 4) + 1
            a, b = low.copy(), low.copy()
            a[:, k] = q[:, 0, k] // 4
            b[:, k] = q[:, 0, k] // 4 + 1
            okay |= plane & (pad[tuple(a.T)] != pad[tuple(b.T)])
        if not okay.all():
            raise Violation("%s: face %s of only one element lies inside of the grid (elements do not fit)" % (name, q[np.argmin(okay)].tolist()))
    return m, L, cell


def build(case):
    dim = case["dim"]
    gs, shift = [], np.zeros(3)
    for k, p in enumerate(case["grids"]):
        p = dict(p)
        g = G(p, dim, np.zeros(3))
        if case["shape"] != "GRID":
            # grids in sets must not touch
            if case["shape"] == "GRID_SET" or case["composition"] == "FREE":
                p["start"] = [p["start"][0] + 10 * k] + list(p["start"][1:])
            elif case["composition"] == "GLUED":
                p["start"] = case["grids"][0]["start"]
            g = G(p, dim, shift.copy())
        gs.append(g)
        if case["shape"] == "GRID_TOWER" and case["composition"] == "GLUED":
            shift[case["direction"]] += g.full[case["direction"]]
    return gs


def regions(case, gs):
    """list of (kind, name, text, grid, data)."""
    dim, out = case["dim"], []
    for k, g in enumerate(gs):
        iv = [(g.origin[i], g.origin[i] + g.full[i], False, False) if i < dim else (0, 0, False, False) for i in range(3)]
        out.append(("ELEMENTS", "ALL%d" % k, interval(iv), k, None))
    for j, r in enumerate(case["regs"]):
        k = r["grid"] % len(gs)
        g = gs[k]
        name = "R%d" % j
        if r["kind"].startswith("CHESS"):
            if case["shape"] != "GRID" or any(n % case["chess"] for n in g.cells[:dim]):
                continue
            out.append(("ELEMENTS", name, r["kind"], k, r["kind"]))
            continue
        if len(gs) > 1 and case["shape"] == "GRID_TOWER" and r["kind"] != "ELEMENTS" and case["composition"] == "GLUED":
            continue
        iv = []
        for i in range(3):
            if i >= dim:
                iv.append((0.0, 0.0, False, False))
                continue
            a, b, o1, o2 = r["iv"][i]
            n = g.cells[i]
            if r["all"]:
                iv.append((g.origin[i], g.origin[i] + g.full[i], False, False))
                continue
            a, b = a % (n + 1), b % (n + 1)
            a, b = min(a, b), max(a, b)
            if a == b:
                a, b = (a, a + 1) if a < n else (a - 1, a)
            if r["kind"] == "NODES":
                # between lattice planes or on cell boundaries
                lo, hi = 4 * a + (r["iv"][i][0] // (n + 1)) % 3, 4 * b - (r["iv"][i][1] // (n + 1)) % 2
                f = lambda v: g.origin[i] + g.h[i] * v / 4
                exact = lambda v: abs(round(f(v), 7) - f(v)) < 1e-10
                iv.append((f(lo + (0 if lo % 4 == 0 and exact(lo) else 0.4)), f(hi + (0 if hi % 4 == 0 and exact(hi) else 0.4)), o1, o2))
            else:
                # a margin that absorbs the rounding of bounds
                iv.append((g.origin[i] + (a - 1e-3) * g.h[i], g.origin[i] + (b + 1e-3) * g.h[i], False, False))
        if r["kind"] in ("FACES", "EDGES") or (r["kind"] == "NODES" and (dim == 3 or r["flat"])):
            i = r["axis"]
            v = g.origin[i] + r["side"] * g.full[i]
            iv[i] = (v, v, False, False)
        iv = [(round(a, 7), round(b, 7), o1, o2) for a, b, o1, o2 in iv]
        out.append((r["kind"], name, interval(iv), k, iv))
    return out


def inside(x, iv, tol=4e-7):
    """1 inside, 0 outside, -1 undecided (within rounding of an open bound)."""
    res = np.ones(len(x), int)
    for i, (a, b, o1, o2) in enumerate(iv):
        v = x[:, i]
        out = (v < a - tol) | (v > b + tol) | (o1 & (np.abs(v - a) <= tol)) | (o2 & (np.abs(v - b) <= tol))
        res[out] = 0
    return res


def check(case, ctx):
    dim = case["dim"]
    gs = build(case)
    off = case["off"] if case["shape"] == "GRID" else []
    total = sum(int(np.prod(g.cells)) for g in gs)
    if total > 1500:
        raise Inconclusive("too many cells")
    np_ = sum(g.ranks for g in gs) - len(off)
    uniform = case["uniform"]
    reg = regions(case, gs)
    text = ["SHAPE %s; UNIFORM_CLUSTERS %d; UNIFORM_DOMAINS %d;" % (case["shape"], uniform[0], uniform[1])]
    if case["shape"] == "GRID":
        text.append("GRID {\n%s\n}" % gs[0].ecf([r[:3] for r in reg], case["proj"], case["chess"], off))
    else:
        body = "\n".join("%d {\n%s\n}" % (k, g.ecf([r[:3] for r in reg if r[3] == k], case["proj"], case["chess"], [])) for k, g in enumerate(gs))
        head = "" if case["shape"] == "GRID_SET" else "DIRECTION %s; COMPOSITION %s;\n" % ("XYZ"[case["direction"]], case["composition"])
        text.append("%s { %sGRIDS {\n%s\n} }" % (case["shape"], head, body))
    ecf = "INPUT_TYPE GENERATOR;\nGENERATOR { %s }\nINPUT { CONVERT_DATABASE 1; DECOMPOSITION { PARALLEL_DECOMPOSER %s; } }\nOUTPUT { FORMAT ENSIGHT; PATH results; STORE_DECOMPOSITION 1; }\n" % ("\n".join(text), case["decomposer"])
    r = I.run_mesio(ctx, ecf, {"np": np_, "threads": case["threads"]}, ne=total if not uniform[0] else None)
    ens = O.EnSight(ctx.dir, "x")
    stat = O.stats(r.out)
    parts = {p["name"]: p for p in ens.parts}
    meshes = []
    for k, g in enumerate(gs):
        p = parts.get("ALL%d" % k)
        if p is None:
            raise Violation("region ALL%d with all elements of the grid is missing" % k)
        meshes.append(check_grid(g, p, case["proj"], off, "grid %d" % k))
    ne, nn = sum(m.ne for m, _, _ in meshes), sum(len(m.coords) for m, _, _ in meshes)
    if stat is None or stat["nodes"] != nn or stat["ne"] != ne:
        raise Violation("the printed number of nodes and elements %s differs from %d and %d" % (None if stat is None else (stat["nodes"], stat["ne"]), nn, ne))
    if case["shape"] == "GRID":
        m = meshes[0][0]
        if stat.get("bodies") != M.components(m):
            raise Violation("%s bodies, expected %d" % (stat.get("bodies"), M.components(m)))
        if "SURFACE" in parts:
            loc = M.Locator(m.coords)
            idx, bl = ens.region(parts["SURFACE"], loc)
            msg = M.same(M.rotcanon(m.boundary_faces()), M.rotcanon(bl)) if dim == 3 else M.same(M.canon(m.boundary_faces(), False), M.canon(bl, False))
            if msg:
                raise Violation("SURFACE: " + msg)
    checked = 0
    for kind, name, txt, k, data in reg[len(gs):]:
        p = parts.get(name)
        if isinstance(data, str):
            div = np.maximum(gs[k].cells // case["chess"], 1)
            color = (meshes[k][2] // div).sum(axis=1) % 2
            want = color == (1 if data.endswith("BLACK") else 0)
            exp = [(meshes[k][0], [(t, c[want]) for t, c in meshes[k][0].blocks])]
        elif kind == "ELEMENTS":
            exp = []
            for (m, L, cell), g in zip(meshes, gs):
                x = g.origin + (cell + np.where(np.arange(3) < dim, 0.5, 0)) * g.h
                sel = inside(x, data) == 1
                exp.append((m, [(t, c[sel]) for t, c in m.blocks]))
        elif kind == "NODES":
            exp = []
            for (m, L, cell), g in zip(meshes, gs):
                x = g.origin + L * g.h / 4
                exp.append(x[inside(x, data) == 1])
            want = sum(len(e) for e in exp)
        else:
            exp = []
            for (m, L, cell), g in zip(meshes, gs):
                bl = []
                for t, f in m.boundary_faces():
                    nc = M.NCORNER[t[:4]]
                    x = g.origin + L[f[:, :nc]] * g.h / 4
                    sel = (inside(x.reshape(-1, 3), data).reshape(-1, nc) == 1).all(axis=1)
                    if sel.any():
                        bl.append((t, f[sel]))
                exp.append((m, bl))
        checked += 1
        if kind == "NODES":
            got = 0 if p is None else len(p["coords"])
            if got != want:
                raise Violation("node region %s %s has %d nodes, %d nodes lie in it" % (name, txt, got, want))
            if want:
                pts = np.stack(np.broadcast_arrays(*PROJ[case["proj"]][1](*np.vstack(exp).T)), axis=1)
                d, idx = cKDTree(pts).query(p["coords"].astype(float))
                if d.max() > 2e-6 + 3e-7 * np.abs(pts).max() or len(np.unique(idx)) != want:
                    raise Violation("node region %s %s holds different nodes than those of its interval" % (name, txt))
            continue
        want = sum(len(c) for _, bl in exp for _, c in bl)
        got = 0 if p is None else sum(len(c) for _, c in p["blocks"])
        if want != got:
            raise Violation("region %s %s has %d elements, %d are in it" % (name, txt, got, want))
        if want:
            rest = got
            for m, bl in exp:
                loc = M.Locator(m.coords)
                idx = loc.find(p["coords"])
                mine = [(t, idx[c[(idx[c] >= 0).all(axis=1)]]) for t, c in p["blocks"]]
                mine = [(t, c) for t, c in mine if len(c)]
                bl = [(t, c) for t, c in bl if len(c)]
                if kind == "ELEMENTS":
                    msg = M.same(M.canon(bl), M.canon(mine))
                else:
                    msg = M.same(M.rotcanon(bl), M.rotcanon(mine)) if dim == 3 else M.same(M.canon(bl, False), M.canon(mine, False))
                if msg:
                    raise Violation("region %s %s: %s" % (name, txt, msg))
    # decomposition
    val = {}
    for v in ("DOMAIN", "MPI"):
        arr = dict(zip([p["name"] for p in ens.parts], ens.var(v)))
        val[v] = [arr["ALL%d" % k][TYPES[g.type][0]][:, 0].astype(int) for k, g in enumerate(gs)]
    allmpi, alldom = np.concatenate(val["MPI"]), np.concatenate(val["DOMAIN"])
    if not np.array_equal(np.unique(allmpi), np.arange(np_)):
        raise Violation("elements are on processes %s of %d" % (np.unique(allmpi).tolist(), np_))
    nd = len(np.unique(alldom))
    if not np.array_equal(np.unique(alldom), np.arange(nd)) or len(np.unique(np.stack([alldom, allmpi]), axis=1).T) != nd:
        raise Violation("domains are not numbered from zero or are shared by processes")
    if uniform[0]:
        first = 0
        boxes = {}
        for k, g in enumerate(gs):
            cl = meshes[k][2] // g.percluster
            index = (cl * np.array([1, g.nclusters[0], g.nclusters[0] * g.nclusters[1]])).sum(axis=1)
            lut = np.full(g.ranks, -1)
            lut[[i for i in range(g.ranks) if i not in off]] = first + np.arange(g.ranks - len(off))
            if not np.array_equal(lut[index], val["MPI"][k]):
                raise Violation("an element of a cluster is on another process than its own")
            first += g.ranks - len(off)
            if uniform[1]:
                dom = meshes[k][2] // g.elements
                for key, d in zip(map(tuple, dom.tolist()), val["DOMAIN"][k].tolist()):
                    if boxes.setdefault((k,) + key, d) != d:
                        raise Violation("the box of domain %s is divided into several domains" % (key,))
        if uniform[1] and len(set(boxes.values())) != len(boxes):
            raise Violation("several boxes of domains share one domain")
    return {"nontrivial": total >= 4 and (np_ > 1 or len(gs) > 1 or checked > 0), "dim": dim, "shape": case["shape"], "np": np_, "type": gs[0].type, "off": bool(off), "regions": checked, "proj": case["proj"]}
