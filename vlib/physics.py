"""Shared machinery of the solver checks: problems on generated meshes, configuration files, results."""
import math, os, re
import numpy as np
from hypothesis import strategies as st
from . import mesh as M, formats as F, outputs as O, impcheck as I, fem
from .core import Violation, Inconclusive

# ---------------------------------------------------------------- expressions (valid for the program and for Python)

COORDS = ["COORDINATE_X", "COORDINATE_Y", "COORDINATE_Z"]
FUN = {"sin": np.sin, "cos": np.cos, "exp": np.exp, "abs": np.abs, "sqrt": np.sqrt, "min": np.minimum, "max": np.maximum, "tanh": np.tanh}


def ev(expr, X=None, TIME=0.0, TEMPERATURE=None, shape=None):
    """evaluate expression string at points X (...,3)"""
    env = dict(FUN)
    if X is not None:
        env.update(COORDINATE_X=X[..., 0], COORDINATE_Y=X[..., 1], COORDINATE_Z=X[..., 2] if X.shape[-1] > 2 else 0.0)
        shape = X.shape[:-1]
    env["TIME"] = TIME
    if TEMPERATURE is not None:
        env["TEMPERATURE"] = TEMPERATURE
    v = eval(expr.replace("^", "**"), {"__builtins__": {}}, env)
    return np.broadcast_to(np.asarray(v, float), shape) + 0.0


@st.composite
def scalar(draw, lo=-100, hi=100, space=True, time=False):
    """any-valued expression"""
    a = draw(st.integers(lo, hi))
    k = draw(st.integers(0, 9))
    vs = COORDS + (["TIME", "TIME"] if time else [])
    if not space:
        vs = ["TIME"] if time else []
    if k < 4 or not vs:
        return str(a)
    v, w = draw(st.sampled_from(vs)), draw(st.sampled_from(vs))
    b = draw(st.integers(1, 30))
    return draw(st.sampled_from([
        "%d + %d * %s" % (a, b, v), "%d * %s - %d" % (b, v, a), "%d + %d * %s * %s" % (a, b, v, w), "%d * sin(%s) + %d" % (b, v, a),
        "%d + %d * cos(2 * %s - %s)" % (a, b, v, w), "max(%d, %d * %s)" % (a, b, v), "%d * abs(%s) + %d * %s" % (a, v, b, w), "%d + %d / (1 + %s * %s)" % (a, b, v, v)]))


@st.composite
def positive(draw, space=True, time=False, lo=1, hi=60):
    a = draw(st.integers(lo, hi))
    k = draw(st.integers(0, 9))
    vs = (COORDS if space else []) + (["TIME", "TIME"] if time else [])
    if k < 5 or not vs:
        return draw(st.sampled_from(["%d" % a, "%d.5" % a, "%de-1" % a]))
    v, w = draw(st.sampled_from(vs)), draw(st.sampled_from(vs))
    b = draw(st.integers(1, 20))
    return draw(st.sampled_from(["%d + %d * abs(%s)" % (a, b, v), "%d + 0.9 * %d * sin(%s + %s)" % (a, a, v, w), "%d + %s * %s" % (a, v, v), "%d * exp(0.1 * sin(%s))" % (a, v),
                                 "max(%d, %s)" % (a, v), "%d + sqrt(abs(%s))" % (a, v)]))


# ---------------------------------------------------------------- meshes and regions for solvers

@st.composite
def solver_mesh(draw, big=6, max_small=3, kinds3=None, gaps=False):
    p = draw(I.mesh_params(max_small=max_small, big={"percent": big, "n3": (5, 7), "n2": (10, 14)}, gaps=gaps, kinds3=kinds3))
    if p["n"] == [1, 1, 1]:
        p["n"] = [2, 1, 1]
    return p


def face_regions(m, seed, names, frac=1):
    """boundary faces of the six sides of the box, by direction of the outward normal: list of blocks per name"""
    surf = m.boundary_faces()
    out = {}
    for i, name in enumerate(names):
        d, s = (i // 2) % 3, 1 if i % 2 else -1
        bl = []
        for t, c in surf:
            x = m.coords[c[:, :M.NCORNER[t[:4]]]]
            n = np.cross(x[:, 1] - x[:, 0], x[:, 2] - x[:, 0])
            k = np.argmax(np.abs(n), axis=1)
            sel = (k == d) & (np.sign(n[np.arange(len(n)), k]) == s)
            # the outer sides only: jitter never turns a side by more than 45 degrees
            if sel.any():
                bl.append((t, c[sel]))
        out[name] = bl
    return out


def nodes_of(blocks):
    return np.unique(np.concatenate([c.ravel() for _, c in blocks]))


@st.composite
def solver_params(draw, feti=True, sym=True, nps=(1, 1, 1, 2, 3)):
    p = {"np": draw(st.sampled_from(nps)), "threads": draw(st.sampled_from([1, 1, 2, 3])), "decomposer": draw(st.sampled_from(["", "", "METIS", "HILBERT_CURVE"])),
         "domains": draw(st.sampled_from([0, 1, 2, 3, 5])), "solver": draw(st.sampled_from(["MKLPDSS", "FETI"] if feti else ["MKLPDSS"])), "feti": {}}
    return p


def write_mesh(m, d, fmt="vtk"):
    """store m in directory d; returns (FORMAT, PATH)"""
    parts = []
    for name, ids in m.eregions.items():
        c, b = F.local(m.coords, m.region_blocks(ids))
        parts.append((name, c, b, None))
    for name, bl in m.bregions.items():
        c, b = F.local(m.coords, bl)
        parts.append((name, c, b, None))
    for name, ids in m.nregions.items():
        c, pts = F.local(m.coords, nodes=ids)
        parts.append((name, c, None, pts))
    for name, c, b, pts in parts:
        F.vtk(os.path.join(d, "m.%s.vtk" % name), c, b, pts)
    return "VTK_LEGACY", "m.*.vtk"


def ecf_input(fmt, path, run):
    s = ["INPUT {", "FORMAT %s;" % fmt, "PATH %s;" % path]
    d = ""
    if run.get("decomposer"):
        d += "PARALLEL_DECOMPOSER %s; " % run["decomposer"]
    if run.get("domains"):
        d += "DOMAINS %d; " % run["domains"]
    if run.get("decomposition"):
        d += run["decomposition"]
    if d:
        s.append("DECOMPOSITION { %s}" % d)
    s.append("}")
    return "\n".join(s) + "\n"


def ecf_solver(run):
    if run["solver"] != "FETI":
        return "SOLVER %s;" % run["solver"]
    o = {"METHOD": "TOTAL_FETI", "PRECONDITIONER": "DIRICHLET", "PRECISION": "1E-9", "ITERATIVE_SOLVER": "PCG", "REGULARIZATION": "ANALYTIC", "MAX_ITERATIONS": "3000", "MAX_STAGNATION": "1000"}
    o.update(run.get("feti", {}))
    return "SOLVER FETI; FETI { %s }" % " ".join("%s %s;" % kv for kv in o.items())


def run_solver(ctx, ecf, run, ne, prog="espreso", name="x", args=()):
    with open(os.path.join(ctx.dir, name + ".ecf"), "w") as f:
        f.write(ecf)
    r = ctx.run(prog, ["-c", name + ".ecf"] + list(args), np=run["np"], threads=run["threads"])
    t = r.out + r.err
    if r.rc != 0 and run["np"] > 1 and ne <= 20 * run["np"]:
        if "process without any elements detected" in t or "PARMETIS_ERROR while" in t:
            raise Inconclusive("rejected: too few elements for the number of ranks")
    if r.rc != 0:
        raise Violation("%s failed with exit code %s on a valid problem:\n%s\n%s" % (prog, r.rc, I.tail(r.out), I.tail(r.err)))
    return r


# ---------------------------------------------------------------- comparison

def compare_nodes(ens, name, ref, loc, step=1, tol=2e-5, scale=None, what=""):
    """ref (n, ncomp) over all mesh nodes; every part that carries the variable must agree."""
    vals = ens.var(name, step)
    sc = scale if scale is not None else max(np.abs(ref).max(), 1e-30)
    seen = 0
    for p, v in zip(ens.parts, vals):
        if v is None:
            continue
        idx = loc.find(p["coords"])
        if (idx < 0).any():
            raise Violation("part %s has a node that is not in the mesh" % p["name"])
        v = v[:, :ref.shape[1]].astype(float)
        d = np.abs(v - ref[idx])
        if not np.isfinite(v).all() or d.max() > tol * sc:
            i = int(np.unravel_index(np.argmax(np.where(np.isfinite(d), d, np.inf)), d.shape)[0])
            raise Violation("%s%s at node %s of part %s is %s, expected %s (scale %g)" % (
                what, name, p["coords"][i].tolist(), p["name"], v[i].tolist(), ref[idx[i]].tolist(), sc))
        seen += len(idx)
    if not seen:
        raise Violation("%s is stored for no part" % name)


def compare_elements(ens, m, name, ref, loc, step=1, tol=2e-5, scale=None, what=""):
    """ref: {etype: (k, ncomp)} parallel to m.blocks"""
    lut = {}
    for (t, c), r in zip(m.blocks, ref):
        for row, v in zip(c.tolist(), r):
            lut[(t, tuple(row))] = v
    sc = scale if scale is not None else max(max(np.abs(r).max() for r in ref), 1e-30)
    vals = ens.var(name, step)
    seen = 0
    for p, v in zip(ens.parts, vals):
        if not v:
            continue
        idx, bl = ens.region(p, loc)
        off = {}
        for t, c in bl:
            a = v[t][off.get(t, 0):off.get(t, 0) + len(c)].astype(float)
            off[t] = off.get(t, 0) + len(c)
            want = np.array([lut[(t, tuple(row))] for row in c.tolist()])
            a = a[:, :want.shape[1]]
            d = np.abs(a - want)
            if not np.isfinite(a).all() or d.max() > tol * sc:
                i = int(np.unravel_index(np.argmax(np.where(np.isfinite(d), d, np.inf)), d.shape)[0])
                raise Violation("%s%s of %s element %s of part %s is %s, expected %s (scale %g)" % (what, name, t, c[i].tolist(), p["name"], a[i].tolist(), want[i].tolist(), sc))
            seen += len(c)
    if seen < m.ne:
        raise Violation("%s is stored for %d of %d elements" % (name, seen, m.ne))
