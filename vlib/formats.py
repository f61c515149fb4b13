"""Writers of the mesh formats the program reads. `parts`: list of (name, kind, blocks-or-node-ids, coords, local...)."""
import os
import numpy as np
from . import mesh as M

VTKT = {"line2": 3, "line3": 21, "tria3": 5, "tria6": 22, "quad4": 9, "quad8": 23, "tetra4": 10, "tetra10": 24, "pyra5": 14, "pyra13": 27,
        "prism6": 13, "prism15": 26, "hexa8": 12, "hexa20": 25}


def local(coords, blocks=None, nodes=None, shuffle=0):
    """restrict to the used nodes: (coords, blocks) or (coords, node positions)"""
    used = np.unique(np.concatenate([c.ravel() for _, c in blocks])) if blocks is not None else np.unique(nodes)
    if shuffle:
        used = used[np.random.RandomState(shuffle % (2 ** 31)).permutation(len(used))]
    inv = np.full(len(coords), -1, dtype=np.int64)
    inv[used] = np.arange(len(used))
    if blocks is not None:
        return coords[used], [(t, inv[c]) for t, c in blocks]
    return coords[used], inv[np.asarray(nodes)]


def num(v):
    return repr(float(v))


def vtk(path, coords, blocks=None, points=None, style=0, title="mesh"):
    """style bits: 1 several points per line, 2 values of cells in one line each, 4 lower case keywords, 8 trailing POINT_DATA/CELL_DATA,
    16 wide columns (so that a file of a small mesh is split among ranks; the program guarantees 1024 bytes of overlap, every record stays below it)"""
    low = (lambda s: s.lower()) if style & 4 else (lambda s: s)
    def num(v):
        return globals()["num"](v).rjust(240) if style & 16 else globals()["num"](v)
    out = ["# vtk DataFile Version 2.0", title, "ASCII", "DATASET UNSTRUCTURED_GRID"]
    out.append("%s %d %s" % (low("POINTS"), len(coords), "float"))
    if style & 1:
        vals = [" ".join(num(v) for v in row) for row in coords]
        out += [" ".join(vals[i:i + 3]) for i in range(0, len(vals), 3)]
    else:
        out += [" ".join(num(v) for v in row) for row in coords]
    if blocks is not None:
        ne = sum(len(c) for _, c in blocks)
        size = sum(len(c) * (c.shape[1] + 1) for _, c in blocks)
        out.append("%s %d %d" % (low("CELLS"), ne, size))
        for t, c in blocks:
            w = 800 // c.shape[1] if style & 16 else 1
            out += ["%*d %s" % (w, c.shape[1], " ".join("%*d" % (w, i) for i in r)) for r in c.tolist()]
        out.append("%s %d" % (low("CELL_TYPES"), ne))
        for t, c in blocks:
            out += [str(VTKT[t])] * len(c)
    else:
        ne = len(points)
        out.append("%s %d %d" % (low("CELLS"), ne, 2 * ne))
        out += ["1 %d" % i for i in points]
        out.append("%s %d" % (low("CELL_TYPES"), ne))
        out += ["1"] * ne
    if style & 8:
        out.append("%s %d" % (low("POINT_DATA"), len(coords)))
        out += ["SCALARS pd float 1", "LOOKUP_TABLE default"] + ["%d" % (i % 7) for i in range(len(coords))]
    with open(path, "w") as f:
        f.write("\n".join(out) + "\n")


def ensight_case(path, geo):
    with open(path, "w") as f:
        f.write("\n# case\nFORMAT\ntype: ensight gold\n\nGEOMETRY\nmodel: %s\n" % geo)


def ensight_binary(path, parts, nid="off", eid="off"):
    """parts: list of (name, coords, blocks or None, points or None)"""
    def s(x):
        return x.encode()[:79].ljust(80, b"\0")
    with open(path, "wb") as f:
        f.write(s("C Binary") + s("EnSight Gold geometry format") + s("----") + s("node id " + nid) + s("element id " + eid))
        for i, (name, coords, blocks, points) in enumerate(parts):
            f.write(s("part") + np.int32(i + 1).tobytes() + s(name) + s("coordinates") + np.int32(len(coords)).tobytes())
            if nid in ("given", "ignore"):
                f.write(np.arange(1, len(coords) + 1, dtype="<i4").tobytes())
            for d in range(3):
                f.write(np.asarray(coords[:, d], dtype="<f4").tobytes())
            if blocks is not None:
                for t, c in blocks:
                    f.write(s(M.ENSIGHT[t]) + np.int32(len(c)).tobytes())
                    if eid in ("given", "ignore"):
                        f.write(np.arange(1, len(c) + 1, dtype="<i4").tobytes())
                    f.write(np.asarray(c + 1, dtype="<i4").tobytes())
            else:
                f.write(s("point") + np.int32(len(points)).tobytes())
                if eid in ("given", "ignore"):
                    f.write(np.arange(1, len(points) + 1, dtype="<i4").tobytes())
                f.write(np.asarray(np.asarray(points) + 1, dtype="<i4").tobytes())


def ensight_ascii(path, parts, nid="off", eid="off"):
    o = ["EnSight Gold geometry format", "----", "node id " + nid, "element id " + eid]
    for i, (name, coords, blocks, points) in enumerate(parts):
        o += ["part", "%10d" % (i + 1), name, "coordinates", "%10d" % len(coords)]
        if nid in ("given", "ignore"):
            o += ["%10d" % (k + 1) for k in range(len(coords))]
        for d in range(3):
            o += ["%12.5e" % v for v in coords[:, d]]
        if blocks is not None:
            for t, c in blocks:
                o += [M.ENSIGHT[t], "%10d" % len(c)]
                if eid in ("given", "ignore"):
                    o += ["%10d" % (k + 1) for k in range(len(c))]
                o += ["".join("%10d" % (v + 1) for v in r) for r in c.tolist()]
        else:
            o += ["point", "%10d" % len(points)]
            if eid in ("given", "ignore"):
                o += ["%10d" % (k + 1) for k in range(len(points))]
            o += ["%10d" % (v + 1) for v in points]
    with open(path, "w") as f:
        f.write("\n".join(o) + "\n")
