"""Readers of what the programs produce (EnSight, VTK, statistics tables, monitors)."""
import os, re, struct
import numpy as np
from . import mesh as M
from .core import Violation


def result_dir(cwd, path="results"):
    return os.path.join(cwd, path, "last")


def read_ensight_geo(path):
    """list of parts: dict(name, coords (n,3) float32, blocks [(type, conn)], points or None)."""
    with open(path, "rb") as f:
        d = f.read()
    pos = 0

    def s80():
        nonlocal pos
        if pos + 80 > len(d):
            raise Violation("EnSight geometry file is truncated")
        v = d[pos:pos + 80]
        pos += 80
        return v.split(b"\0")[0].decode("latin-1").strip()

    def i32():
        nonlocal pos
        if pos + 4 > len(d):
            raise Violation("EnSight geometry file is truncated")
        v = struct.unpack_from("<i", d, pos)[0]
        pos += 4
        return v

    def arr(dt, n):
        nonlocal pos
        if n < 0 or pos + 4 * n > len(d):
            raise Violation("EnSight geometry file is truncated (%d values at %d of %d)" % (n, pos, len(d)))
        v = np.frombuffer(d, dtype=dt, count=n, offset=pos)
        pos += 4 * n
        return v

    if s80() != "C Binary":
        raise Violation("EnSight geometry is not C Binary")
    s80(), s80()
    nid, eid = s80(), s80()
    parts, cur = [], None
    while pos < len(d):
        k = s80()
        if k == "part":
            num = i32()
            if num != len(parts) + 1:
                raise Violation("EnSight part number %d, expected %d" % (num, len(parts) + 1))
            cur = {"name": s80(), "blocks": [], "points": None}
            parts.append(cur)
            if s80() != "coordinates":
                raise Violation("EnSight part without coordinates")
            n = i32()
            if nid.endswith("given"):
                arr("<i4", n)
            cur["coords"] = np.stack([arr("<f4", n), arr("<f4", n), arr("<f4", n)], axis=1)
        elif k in M.ENSIGHT_INV:
            if cur is None:
                raise Violation("EnSight elements before a part")
            n = i32()
            t = M.ENSIGHT_INV[k]
            if t == "point":
                cur["points"] = arr("<i4", n) - 1
            else:
                nn = M.TYPES[t][1]
                cur["blocks"].append((t, arr("<i4", n * nn).reshape(n, nn) - 1))
        else:
            raise Violation("EnSight geometry: unexpected record %r at %d" % (k[:20], pos - 80))
    for p in parts:
        n = len(p["coords"])
        for t, c in p["blocks"]:
            if len(c) and (c.min() < 0 or c.max() >= n):
                raise Violation("EnSight part %s: element node out of range" % p["name"])
    return parts


def read_ensight_var(path, parts, kind, ncomp):
    """kind: 'node' -> list per part of (n,ncomp); 'element' -> list per part of {etype: (k,ncomp)}; None for absent parts."""
    with open(path, "rb") as f:
        d = f.read()
    pos = 80
    out = [None] * len(parts)
    cur = None
    while pos < len(d):
        k = d[pos:pos + 80].split(b"\0")[0].decode("latin-1").strip()
        pos += 80
        if k == "part":
            cur = struct.unpack_from("<i", d, pos)[0] - 1
            pos += 4
            if not 0 <= cur < len(parts):
                raise Violation("%s: part %d does not exist" % (os.path.basename(path), cur + 1))
            if kind == "element":
                out[cur] = {}
        elif k == "coordinates":
            n = len(parts[cur]["coords"])
            if pos + 4 * n * ncomp > len(d):
                raise Violation("%s: truncated" % os.path.basename(path))
            out[cur] = np.frombuffer(d, "<f4", n * ncomp, pos).reshape(ncomp, n).T
            pos += 4 * n * ncomp
        elif k in M.ENSIGHT_INV:
            t = M.ENSIGHT_INV[k]
            n = sum(len(c) for tt, c in parts[cur]["blocks"] if tt == t)
            if pos + 4 * n * ncomp > len(d):
                raise Violation("%s: truncated" % os.path.basename(path))
            out[cur][t] = np.frombuffer(d, "<f4", n * ncomp, pos).reshape(ncomp, n).T
            pos += 4 * n * ncomp
        else:
            raise Violation("%s: unexpected record %r" % (os.path.basename(path), k[:20]))
    return out


def read_case(path):
    """variables [(rank, where, name, file)], times, geometry path."""
    txt = open(path).read()
    geo = re.search(r"model:\s*(\S+)", txt).group(1)
    vs = []
    for m in re.finditer(r"^(scalar|vector|tensor symm) per (node|element):\s+(?:1\s+)?(\S+)\s+(\S+)\s*$", txt, re.M):
        vs.append((m.group(1), m.group(2), m.group(3), m.group(4)))
    times = []
    m = re.search(r"time values:\s*(.*)", txt, re.S)
    if m:
        times = [float(x) for x in m.group(1).split()]
    return {"geo": geo, "vars": vs, "times": times}


class EnSight:
    def __init__(self, cwd, name, path="results"):
        self.dir = result_dir(cwd, path)
        cf = os.path.join(self.dir, name + ".case")
        if not os.path.exists(cf):
            raise Violation("no EnSight case file was written")
        self.case = read_case(cf)
        self.parts = read_ensight_geo(os.path.join(self.dir, self.case["geo"]))

    def part(self, name):
        for p in self.parts:
            if p["name"] == name:
                return p
        return None

    def var(self, name, step=None):
        for rank, where, n, f in self.case["vars"]:
            if n.upper() == name.upper():
                if "*" in f:
                    f = re.sub(r"\*+", lambda m: str(step).zfill(len(m.group(0))), f)
                p = os.path.join(self.dir, f)
                if not os.path.exists(p):
                    raise Violation("variable file %s is missing" % f)
                return read_ensight_var(p, self.parts, where, {"scalar": 1, "vector": 3, "tensor symm": 6}[rank])
        raise Violation("variable %s is not in the case file" % name)

    def region(self, p, loc):
        """(element canon, node ids) of a part in reference numbering; -1 marks unknown coordinates."""
        idx = loc.find(p["coords"])
        return idx, [(t, idx[c]) for t, c in p["blocks"]]


def stats(out):
    """Parse the mesh statistics table of stdout."""
    r = {"elements": {}, "regions": {}, "kind": {}}
    m = re.search(r"TOTAL NUMBER OF NODES\s*:\s*(\d[\d,]*)", out)
    if not m:
        return None
    num = lambda s: int(s.replace(",", ""))
    r["nodes"] = num(m.group(1))
    m = re.search(r"TOTAL NUMBER OF ELEMENTS\s*:\s*(\d[\d,]*)", out)
    r["ne"] = num(m.group(1))
    sect = out[m.end():]
    sect = sect[:sect.index("BODY STATISTICS")]
    kind = None
    for line in sect.splitlines():
        mm = re.match(r"\s*(ELEMS|FACES|EDGES|NODES) REGIONS SIZES \[\s*(\d+)\]", line)
        if mm:
            kind = mm.group(1)
            r[kind + "_count"] = int(mm.group(2))
            continue
        mm = re.match(r"\s*(\S+)\s+:(.*)$", line)
        if mm:
            vals = [num(v) for v in re.findall(r"\d[\d,]*", mm.group(2))]
            if kind is None:
                if mm.group(1) in M.ESNAME and vals:
                    r["elements"][M.ESNAME[mm.group(1)]] = vals[0]
            else:
                r["regions"][mm.group(1)] = vals
                r["kind"][mm.group(1)] = kind
    m = re.search(r"ALL_ELEMENTS\s*:\s*([\d,]+)\s+([\d,]+)\s+([\d,]+) BODIES", out)
    if m:
        r["body_elements"], r["body_faces"], r["bodies"] = (num(m.group(i)) for i in (1, 2, 3))
    return r


# ---------------------------------------------------------------- VTK legacy

VTK_CODE = {3: "line2", 21: "line3", 5: "tria3", 22: "tria6", 9: "quad4", 23: "quad8", 10: "tetra4", 24: "tetra10", 14: "pyra5", 27: "pyra13", 13: "prism6", 26: "prism15", 12: "hexa8", 25: "hexa20", 1: "point"}


def read_vtk(path):
    """part: name, coords, blocks (grouped by type), order of cells, point data, cell data; every count is checked"""
    name = os.path.basename(path)
    with open(path, "rb") as f:
        raw = f.read()
    if b"\0" in raw:
        raise Violation("%s contains zero bytes" % name)
    lines = raw.decode("latin-1").split("\n")
    if not lines[0].startswith("# vtk DataFile Version") or len(lines) < 4 or lines[2].strip() != "ASCII" or lines[3].split() != ["DATASET", "UNSTRUCTURED_GRID"]:
        raise Violation("%s has not a VTK header" % name)
    tok = " ".join(lines[4:]).split()
    pos = 0

    def take(n, what, dt=float):
        nonlocal pos
        try:
            v = np.array(tok[pos:pos + n], dtype=dt)
        except ValueError as e:
            raise Violation("%s: %s: %s" % (name, what, e))
        if len(v) != n:
            raise Violation("%s: %s: %d values, expected %d" % (name, what, len(v), n))
        pos += n
        return v

    p = {"blocks": [], "points": None, "node": {}, "element": {}}
    n = nc = None
    where = cnt = None
    while pos < len(tok):
        k = tok[pos]
        pos += 1
        if k == "POINTS":
            n = int(tok[pos])
            pos += 2
            p["coords"] = take(3 * n, "POINTS").reshape(n, 3)
        elif k == "CELLS":
            nc, size = int(tok[pos]), int(tok[pos + 1])
            pos += 2
            a = take(size, "CELLS", np.int64)
            cells, i = [], 0
            for _ in range(nc):
                if i >= size:
                    raise Violation("%s: CELLS: the list is shorter than its cells" % name)
                cells.append(a[i + 1:i + 1 + a[i]])
                i += 1 + a[i]
            if i != size:
                raise Violation("%s: CELLS: size %d, the cells take %d" % (name, size, i))
        elif k == "CELL_TYPES":
            if int(tok[pos]) != nc:
                raise Violation("%s: CELL_TYPES %s, %d cells" % (name, tok[pos], nc))
            pos += 1
            types = take(nc, "CELL_TYPES", np.int64)
        elif k in ("POINT_DATA", "CELL_DATA"):
            where, cnt = ("node", n) if k == "POINT_DATA" else ("element", nc)
            if int(tok[pos]) != cnt:
                raise Violation("%s: %s %s, expected %d" % (name, k, tok[pos], cnt))
            pos += 1
        elif k in ("SCALARS", "VECTORS", "TENSORS") and where:
            var = tok[pos]
            pos += 2
            if k == "SCALARS":
                pos += 1
                if tok[pos:pos + 2] != ["LOOKUP_TABLE", "default"]:
                    raise Violation("%s: SCALARS %s without a lookup table" % (name, var))
                pos += 2
            w = {"SCALARS": 1, "VECTORS": 3, "TENSORS": 9}[k]
            if var in p[where]:
                raise Violation("%s: %s is stored twice" % (name, var))
            p[where][var] = take(w * cnt, var).reshape(cnt, w)
        else:
            raise Violation("%s: unexpected token %r" % (name, k[:40]))
    if n is None or nc is None:
        raise Violation("%s: no points or cells" % name)
    by = {}
    for i, (c, t) in enumerate(zip(cells, types)):
        t = VTK_CODE.get(int(t))
        if t is None or len(c) != (1 if t == "point" else M.TYPES[t][1]):
            raise Violation("%s: cell %d of type %s has %d nodes" % (name, i, t, len(c)))
        by.setdefault(t, []).append(i)
        if len(c) and (c.min() < 0 or c.max() >= n):
            raise Violation("%s: cell %d refers to a point out of range" % (name, i))
    p["order"] = {t: np.array(v) for t, v in by.items()}
    for t, v in by.items():
        c = np.array([cells[i] for i in v])
        if t == "point":
            p["points"] = c.ravel()
        else:
            p["blocks"].append((t, c))
    return p


class VTK:
    """files NAME.REGION.vtk (geometry) or NAME.REGION.TIME.vtk (results) of a run"""

    def __init__(self, cwd, name, path="results", suffix="", sub=""):
        d = os.path.join(result_dir(cwd, path), sub)
        self.parts = []
        self.case = {"vars": []}
        for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
            if f.startswith(name + ".") and f.endswith(suffix + ".vtk"):
                p = read_vtk(os.path.join(d, f))
                p["name"] = f[len(name) + 1:-len(suffix + ".vtk")]
                self.parts.append(p)
        if not self.parts:
            raise Violation("no VTK file was written")

    region = EnSight.region

    def names(self, where):
        return sorted({v for p in self.parts for v in p[where]})

    def var(self, name, step=None):
        out = []
        for p in self.parts:
            if name in p["node"]:
                out.append(p["node"][name])
            elif name in p["element"]:
                out.append({t: p["element"][name][o] for t, o in p["order"].items()})
            else:
                out.append(None)
        return out


def read_stl(path):
    with open(path, "rb") as f:
        d = f.read()
    if len(d) < 84:
        raise Violation("STL file is too short")
    n = struct.unpack_from("<i", d, 80)[0]
    if len(d) != 84 + 50 * n:
        raise Violation("STL file of %d triangles has %d bytes, expected %d" % (n, len(d), 84 + 50 * n))
    a = np.frombuffer(d, dtype=[("n", "<f4", 3), ("v", "<f4", (3, 3)), ("a", "<u2")], count=n, offset=84)
    return a["n"].astype(float), a["v"]


def read_netgen(path):
    """coords, [(region, nodes)], [(boundary region, nodes)]"""
    with open(path, "rb") as f:
        tok = f.read().decode("latin-1").split()
    out, pos = [], 0
    for w in (3, 5, 4):
        try:
            n = int(tok[pos])
            a = np.array(tok[pos + 1:pos + 1 + n * w], dtype=float).reshape(n, w)
        except (ValueError, IndexError):
            raise Violation("Netgen file: section %d is damaged" % (len(out) + 1))
        pos += 1 + n * w
        out.append(a)
    if pos != len(tok):
        raise Violation("Netgen file: %d values left" % (len(tok) - pos))
    return out[0], out[1].astype(int), out[2].astype(int)
