"""Modifications of the mesh requested by the input section of the configuration."""
import os
import numpy as np
from hypothesis import strategies as st
from scipy.spatial import cKDTree
from vlib import mesh as M, formats as F, outputs as O, impcheck as I
from vlib.core import Violation, Inconclusive, HarnessError
from checks import ansys_import
from checks.ensight_import import parts_of

PARAMS = {"quick": {"seconds": 60, "shrink": 60}, "thorough": {"seconds": 600, "shrink": 60}}
RULE = ("A case is a generated 3D mesh (all element types, linear, quadratic or with bodies of both orders) with element, boundary and node regions in one of the formats EnSight, VTK or ANSYS CDB, and a request to modify it: "
        "mid-points omitted, copies translated (also to touch) or rotated, node regions given by spheres or blocks, face sets omitted, nodes merged by a tolerance, with random ranks, threads, loaders and decomposers. "
        "Oracle: the generated mesh modified by an independent model. Non-trivial: >= 4 elements and at least one modification that changes the mesh.")


@st.composite
def strategy_(draw, tier):
    fmt = draw(st.sampled_from(["ENSIGHT", "ENSIGHT", "VTK_LEGACY", "ANSYS_CDB"]))
    case = {"fmt": fmt, "mesh": draw(I.mesh_params(max_small=3, big={"percent": 4, "n3": (7, 10), "n2": (20, 30)})), "reg": draw(I.region_params(edges=fmt != "ANSYS_CDB")), "run": draw(I.run_params()),
            "shuffle": draw(st.integers(0, 3)), "order": draw(st.integers(0, 5)), "mixed": draw(st.booleans()), "omit": draw(st.booleans()), "faces": draw(st.sampled_from([0, 0, 0, 1]))}
    t = draw(st.sampled_from([None, "translate", "translate", "touch", "rotate"]))
    case["trans"] = None
    if t == "translate":
        case["trans"] = [t, draw(st.integers(1, 3)), [draw(st.integers(-3, 3)) for _ in range(3)], draw(st.integers(0, 2))]
    elif t == "touch":
        case["trans"] = [t, draw(st.integers(1, 3)), draw(st.sampled_from([1, -1])), draw(st.integers(0, 2))]
    elif t == "rotate":
        case["trans"] = [t, draw(st.integers(1, 3)), draw(st.sampled_from([1, -1])), draw(st.sampled_from([0, 1, 5, 11.5]))]
    case["spheres"] = draw(st.lists(st.tuples(st.sampled_from(["CIRCLE", "BLOCK"]), st.integers(0, 1000), st.sampled_from([0.3, 0.8, 1.4, 2.6, 10])), max_size=2))
    case["clip"] = draw(st.one_of(st.none(), st.tuples(st.integers(0, 2), st.integers(0, 1), st.sampled_from([0.3, 0.45, 0.6, 0.8]), st.booleans()))) if not t else None
    case["sel"] = draw(st.lists(st.tuples(st.integers(0, 1000), st.sampled_from([0.3, 1.2, 2.6])), max_size=2)) if draw(st.booleans()) else []
    case["tol"] = draw(st.sampled_from([0, 0, 1e-3, 1e-5])) if fmt != "ANSYS_CDB" else 0
    return case


def strategy(tier):
    return strategy_(tier)


class Near:
    def __init__(self, coords, tol):
        self.tree, self.tol = cKDTree(coords), tol

    def find(self, coords):
        if not len(coords):
            return np.zeros(0, dtype=np.int64)
        d, i = self.tree.query(coords)
        return np.where(d <= self.tol, i, -1)


def linearize(m, only=None):
    """remove mid-points (of elements `only`), nodes stay."""
    def f(blocks):
        out = {}
        for t, c in blocks:
            l = M.LIN.get(t, t)
            out.setdefault(l, []).append(c[:, :M.NCORNER[l[:4]]])
        return [(t, np.vstack(c)) for t, c in out.items()]
    els, off = [], 0
    newid = np.empty(m.ne, int)
    blocks = {}
    for t, c in m.blocks:
        l = M.LIN.get(t, t)
        for k, row in enumerate(c.tolist()):
            e = off + k
            if only is None or only[e]:
                blocks.setdefault(l, []).append((e, row[:M.NCORNER[l[:4]]]))
            else:
                blocks.setdefault(t, []).append((e, row))
        off += len(c)
    k, bl = 0, []
    for t, rows in blocks.items():
        for e, _ in rows:
            newid[e] = k
            k += 1
        bl.append((t, np.array([r for _, r in rows])))
    r = M.Mesh(m.dim, m.coords, bl)
    r.eregions = {n: np.sort(newid[ids]) for n, ids in m.eregions.items()}
    r.bregions = {n: (f(b) if only is None else b) for n, b in m.bregions.items()}
    r.nregions = dict(m.nregions)
    return r


def used_nodes(m):
    return np.unique(np.concatenate([c.ravel() for _, c in m.blocks]))


def copies(m, coords):
    """mesh consisting of the copies of m with the given coordinates; nodes at the same place are merged."""
    nn = len(m.coords)
    allc = np.vstack(coords)
    span = max(1.0, np.abs(allc).max())
    tree = cKDTree(allc)
    rep = np.arange(len(allc))
    for a, b in sorted(tree.query_pairs(1e-9 * span)):
        rep[b] = min(rep[b], rep[a])
    K = len(coords)
    r = M.Mesh(m.dim, allc, [(t, np.vstack([rep[c + k * nn] for k in range(K)])) for t, c in m.blocks])
    for n, ids in m.eregions.items():
        out, src, dst = [], 0, 0
        ids = np.asarray(ids)
        for t, c in m.blocks:
            sel = ids[(ids >= src) & (ids < src + len(c))] - src
            out += [dst + k * len(c) + sel for k in range(K)]
            src += len(c)
            dst += K * len(c)
        r.eregions[n] = np.sort(np.concatenate(out))
    for n, bl in m.bregions.items():
        r.bregions[n] = [(t, np.vstack([rep[c + k * nn] for k in range(K)])) for t, c in bl]  # an interface keeps the elements of both sides
    for n, ids in m.nregions.items():
        r.nregions[n] = np.unique(np.concatenate([rep[np.asarray(ids) + k * nn] for k in range(K)]))
    return r


def clipped(m, lo, hi):
    """elements inside of the box; None if a region would be empty."""
    keep = ((m.coords >= lo) & (m.coords <= hi)).all(axis=1)
    off, newid, k, blocks = 0, np.full(m.ne, -1), 0, []
    for t, c in m.blocks:
        s = keep[c].all(axis=1)
        newid[off + np.nonzero(s)[0]] = k + np.arange(s.sum())
        off += len(c)
        k += s.sum()
        if s.any():
            blocks.append((t, c[s]))
    if not blocks:
        return None
    r = M.Mesh(m.dim, m.coords, blocks)
    used = used_nodes(r)
    r.eregions = {n: newid[ids][newid[ids] >= 0] for n, ids in m.eregions.items()}
    isused = np.zeros(len(m.coords), bool)
    isused[used] = True
    r.bregions = {n: [(t, c[isused[c].all(axis=1)]) for t, c in b] for n, b in m.bregions.items()}
    r.bregions = {n: [(t, c) for t, c in b if len(c)] for n, b in r.bregions.items()}
    r.nregions = {n: np.intersect1d(ids, used) for n, ids in m.nregions.items()}
    if any(len(x) == 0 for d in (r.eregions, r.bregions, r.nregions) for x in d.values()):
        return None
    return r


def check(case, ctx):
    p = dict(case["mesh"])
    mixed = case["mixed"] and p["quadratic"] and (case["omit"] or not case["trans"] or case["trans"][0] != "touch") and len([g for g in p["gaps"] if 0 < g < p["n"][0]]) > 0
    trans = case["trans"]
    if trans and trans[0] == "touch":
        p["jitter"] = 0
    if trans and trans[0] == "rotate":  # in front of the axis
        p["shift"] = [abs(p["shift"][0]) + 2 * p["scale"][1] * (p["n"][1] + 1) + p["scale"][0], p["shift"][1], p["shift"][2]]
    m = M.make(p)
    if mixed:
        owner = body_of(m)
        m = linearize(m, owner == owner.min())
    m = I.assign(m, case["reg"])
    fmt, tol = case["fmt"], case["tol"]
    corners = np.unique(np.concatenate([c[:, :M.NCORNER[M.LIN.get(t, t)[:4]]].ravel() for t, c in m.blocks]))
    for n, ids in list(m.nregions.items()):
        if not np.isin(ids, corners).any():
            m.nregions[n] = np.unique(np.append(ids, corners[:1]))
    span = max(1.0, np.abs(m.coords).max())
    size = np.min(p["scale"])
    if tol and (tol > 0.01 * size or tol < 1e-6 * 4 * span):
        tol = 0
    # ------------------------------------------------ input
    if fmt == "ANSYS_CDB":
        acase = {"crlf": False, "lower": False, "nfmt": [3, 9, 6, 21, "21.13"], "zeros": False, "efmt": 9, "cfmt": [8, 10], "gap": 0, "idseed": case["order"], "ranges": True, "types": 0, "mats": 1, "eblocks": 1, "nblocks": 1,
                 "contact": 0, "sel": [], "noise": False, "pilot": 0, "etgap": 0}
        with open(os.path.join(ctx.dir, "m.cdb"), "w") as f:
            text, extra = ansys_import.build(m, acase)
            f.write(text)
        path = "m.cdb"
        src = dict(m.eregions, **extra)
        m.eregions = src
    else:
        parts = parts_of(m, case)
        if tol:
            r = np.random.RandomState(case["shuffle"] + 5)
            parts = [(n, c + r.uniform(-0.3 * tol, 0.3 * tol, c.shape), b, q) for n, c, b, q in parts]
        if fmt == "ENSIGHT":
            F.ensight_case(os.path.join(ctx.dir, "m.case"), "m.geo")
            F.ensight_binary(os.path.join(ctx.dir, "m.geo"), parts)
            path = "m.case"
        else:
            for n, c, b, q in parts:
                F.vtk(os.path.join(ctx.dir, "m.%s.vtk" % n), c, b, q)
            path = "m.*.vtk"
    # ------------------------------------------------ model
    base = m
    if fmt == "ENSIGHT":
        base.coords = base.coords.astype(np.float32).astype(float)
    ecf, changed = [], False
    if case["omit"]:
        ecf.append("OMIT_MIDPOINTS TRUE;")
        changed |= any(t in M.LIN for t, _ in base.blocks)
        base = linearize(base)
        used = used_nodes(base)
        base.nregions = {n: np.intersect1d(ids, used) for n, ids in base.nregions.items()}
    if tol:
        ecf.append("DUPLICATION_TOLERANCE %r;" % tol)
        changed = True
    if trans:
        c = base.coords
        n = trans[1]
        used = used_nodes(base)
        ext = c[used].max(axis=0) - c[used].min(axis=0)
        if trans[0] in ("translate", "touch"):
            v = np.zeros(3)
            if trans[0] == "touch":
                v[trans[3]] = trans[2] * ext[trans[3]]
            else:
                v = np.array([float("%.6f" % (a * 0.37 * s)) for a, s in zip(trans[2], p["scale"])])
                d = trans[3]  # at least one direction leaves the mesh behind
                v[d] = float("%.6f" % ((1.173 * ext[d] + size) * (1 if v[d] >= 0 else -1)))
            ecf.append("TRANSFORMATIONS { T1 { TRANSFORMATION TRANSLATE; X %r; Y %r; Z %r; INSTANCES %d; } }" % (float(v[0]), float(v[1]), float(v[2]), n))
            cs = [c + k * v for k in range(n + 1)]
        else:
            ang = np.degrees(np.arctan2(c[used, 1], c[used, 0]))
            step = float("%.3f" % (ang.max() - ang.min() + 1 + trans[3]))
            n = min(n, int(360 / step) - 1)
            if n < 1:
                raise HarnessError("rotation")
            step *= trans[2]
            ecf.append("TRANSFORMATIONS { T1 { TRANSFORMATION ROTATE; Z %r; INSTANCES %d; } }" % (step, n))
            cs = []
            for k in range(n + 1):
                a = np.radians(k * step)
                cs.append(c @ np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]]).T)
        base = copies(base, cs)
        changed = True
    used = used_nodes(base)
    c = base.coords[used]
    span = max(1.0, np.abs(c).max())
    regs = []
    clip = case.get("clip")
    run = I.eff_run(case["run"], m.ne)
    if clip and run["np"] > 1 and not case.get("strict"):  # known finding: the box is ignored
        clip = None
    if clip:
        lo, hi = c.min(axis=0) - size, c.max(axis=0) + size
        d = clip[0]
        cut = c[:, d].min() + clip[2] * (c[:, d].max() - c[:, d].min())
        (hi if clip[1] else lo)[d] = cut
        if clip[3]:
            hi[(d + 1) % 3] = c[:, (d + 1) % 3].min() + 0.731 * (hi - lo - 2 * size)[(d + 1) % 3]
        lo, hi = [np.array([float("%.6g" % x) for x in a]) for a in (lo, hi)]
        safe = min(np.abs(c - lo).min(), np.abs(c - hi).min())
    for i, (shape, pos, rel) in enumerate(case["spheres"]):
        center = np.array([float("%.4g" % x) for x in c[pos % len(c)] + 0.07 * size])
        if shape == "CIRCLE":
            rad = rel * 1.013 * size
            d = np.linalg.norm(c - center, axis=1)
            inside = d <= rad
            safe = np.abs(d - rad).min()
            regs.append("SHAPE CIRCLE; X %r; Y %r; Z %r; RADIUS %r;" % (*map(float, center), float(rad)))
        else:
            l = rel * 1.013 * size * np.array([1, 2, 0.7])
            lo = center - 0.31 * l
            inside = ((c >= lo) & (c <= lo + l)).all(axis=1)
            safe = min(np.abs(c - lo).min(), np.abs(c - lo - l).min())
            regs.append("SHAPE BLOCK; X %r; Y %r; Z %r; LX %r; LY %r; LZ %r;" % (*map(float, lo), *map(float, l)))
        if not inside.any() or safe < max(1e-5 * span, 4 * tol):  # empty or undecidable
            regs.pop()
            continue
        base.nregions["ball%d" % i] = used[inside]
        regs[-1] = "ball%d { %s }" % (i, regs[-1])
        changed = True
    if clip:
        new = clipped(base, lo, hi)
        if new is None or safe < max(1e-5 * span, 4 * tol):
            clip = None
        else:
            changed |= new.ne < base.ne
            base = new
            ecf.append("CLIPPING_BOX { APPLY TRUE; MIN_X %r; MIN_Y %r; MIN_Z %r; MAX_X %r; MAX_Y %r; MAX_Z %r; }" % (*map(float, lo), *map(float, hi)))
            used = used_nodes(base)
            c = base.coords[used]
    if regs:
        ecf.append("NODE_REGIONS { %s }" % " ".join(regs))
    sel = []
    for i, (pos, rel) in enumerate(case.get("sel", [])):
        center = np.array([float("%.4g" % x) for x in c[pos % len(c)] - 0.06 * size])
        rad = rel * 1.017 * size
        d = np.linalg.norm(c - center, axis=1)
        if (d < rad).any() and np.abs(d - rad).min() > max(1e-5 * span, 4 * tol):
            base.nregions["sel%d" % i] = used[d < rad]
            sel.append("SPHERE { sel%d { CX %r; CY %r; CZ %r; R %r; } }" % (i, *map(float, center), float(rad)))
            changed = True
    if sel:
        ecf.append("SELECTION { %s }" % " ".join(sel))
    if case["faces"]:
        ecf.append("OMIT_FACE_SETS TRUE;")
        changed |= bool(base.bregions)
        base.bregions = {}
    r = I.run_mesio(ctx, I.input_ecf(fmt, path, run, dim=3, extra="\n".join(ecf), out="FORMAT ENSIGHT; PATH results;"), run, ne=m.ne)
    eps = max(4e-7 * span, 1.0 * tol)
    check_distinct(c, eps)
    loc = Near(base.coords[used], eps)
    inv = np.full(len(base.coords), -1)
    inv[used] = np.arange(len(used))
    base.blocks = [(t, inv[k]) for t, k in base.blocks]
    base.bregions = {n: [(t, inv[k]) for t, k in b] for n, b in base.bregions.items()}
    base.nregions = {n: inv[k] for n, k in base.nregions.items()}
    base.coords = base.coords[used]
    I.compare(base, O.EnSight(ctx.dir, "x"), O.stats(r.out), loc=loc)
    return {"nontrivial": bool(m.ne >= 4 and changed), "np": run["np"], "fmt": fmt, "trans": trans[0] if trans else "", "omit": case["omit"], "mixed": bool(mixed), "regions": len(regs) + len(sel), "faces": case["faces"], "tol": bool(tol), "clip": bool(clip)}


def check_distinct(c, eps):
    if len(c) > 1 and cKDTree(c).query(c, k=2)[0][:, 1].min() < 4 * eps:
        raise HarnessError("nodes are too close")


def body_of(m):
    """label of the body (component of elements sharing nodes) per element."""
    parent = np.arange(len(m.coords))

    def find(i):
        while parent[i] != i:
            parent[i] = parent[parent[i]]
            i = parent[i]
        return i
    for t, c in m.blocks:
        for row in c.tolist():
            a = find(row[0])
            for b in row[1:]:
                b = find(b)
                if a != b:
                    parent[b] = a
    return np.array([find(row[0]) for t, c in m.blocks for row in c.tolist()])
