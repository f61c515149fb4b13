"""The mesh written in every output format, with its decomposition."""
import os, re
import numpy as np
from hypothesis import strategies as st
from scipy.spatial import cKDTree
from vlib import mesh as M, formats as F, outputs as O, impcheck as I
from vlib.core import Violation, Inconclusive

PARAMS = {"quick": {"seconds": 60, "shrink": 60}, "thorough": {"seconds": 600, "shrink": 60}}
RULE = ("A case is a generated mesh with element, face, edge and node regions, read by mesio and stored as VTK, EnSight, STL or Netgen with random ranks, threads, decomposer, domains, writer and stripes, "
        "with or without the decomposition. Oracle: the generated mesh: every region of every format has exactly its nodes and elements, the STL triangles tile exactly the outward surface, and the stored decomposition "
        "assigns every element to one domain, cluster and process, consistently over regions. Non-trivial: >= 4 elements, and more ranks, domains or regions than one.")


@st.composite
def strategy_(draw, tier):
    fmt = draw(st.sampled_from(["VTK_LEGACY", "VTK_LEGACY", "ENSIGHT", "STL_SURFACE", "NETGEN"]))
    big = {"percent": 8, "n3": (9, 12), "n2": (30, 40)}
    mesh = draw(I.mesh_params(big=big, kinds3=[["tetra"], ["tetra"]] if fmt == "NETGEN" else None, quadratic=fmt != "NETGEN", gaps=fmt != "STL_SURFACE" or draw(st.booleans())))
    return {"fmt": fmt, "mesh": mesh, "reg": draw(I.region_params(edges=fmt != "NETGEN")), "run": draw(I.run_params()),
            "writer": draw(st.sampled_from(["", "MPI", "MPI_COLLECTIVE"])), "ostripe": draw(st.sampled_from([0, 0, 64, 1000, 4096])), "ocount": draw(st.sampled_from([0, 0, 1, 2])),
            "decomposition": draw(st.booleans())}


def strategy(tier):
    return strategy_(tier)


def check_stl(m, ctx):
    p = None
    for root, _, files in os.walk(O.result_dir(ctx.dir)):
        for f in files:
            if f.endswith(".stl"):
                p = os.path.join(root, f)
    if p is None:
        raise Violation("no STL file was written")
    n, v = O.read_stl(p)
    loc = M.Locator(m.coords)
    tri = loc.find(v.reshape(-1, 3)).reshape(-1, 3)
    if (tri < 0).any():
        raise Violation("STL: vertex %s is not a node of the mesh" % v.reshape(-1, 3)[np.argmax(tri.ravel() < 0)].tolist())
    faces = []
    for t, c in m.boundary_faces():
        nc = M.NCORNER[t[:4]]
        for row in c.tolist():
            poly = row[:nc] if t not in M.LIN else [x for i in range(nc) for x in (row[i], row[nc + i])]
            faces.append(poly)
    edge = {}
    for i, poly in enumerate(faces):
        for a, b in zip(poly, poly[1:] + poly[:1]):
            edge.setdefault((a, b), []).append(i)
    byface = [[] for _ in faces]
    sets = [set(f) for f in faces]
    owners = {}
    for i, f in enumerate(faces):
        for a in f:
            owners.setdefault(a, set()).add(i)
    for k, t in enumerate(tri.tolist()):
        cand = owners.get(t[0], set()) & owners.get(t[1], set()) & owners.get(t[2], set())
        if not cand:
            raise Violation("STL: triangle of nodes %s does not lie on the surface" % t)
        byface[min(cand)].append(k)
    area = 0
    for i, poly in enumerate(faces):
        bound = {}
        for k in byface[i]:
            t = tri[k].tolist()
            for a, b in zip(t, t[1:] + t[:1]):
                if bound.get((b, a)):
                    bound[(b, a)] -= 1
                else:
                    bound[(a, b)] = bound.get((a, b), 0) + 1
        bound = {e: c for e, c in bound.items() if c}
        if bound != {(a, b): 1 for a, b in zip(poly, poly[1:] + poly[:1])}:
            raise Violation("STL: the triangles of the face %s do not tile it (or are turned inwards)" % poly)
    x = v.astype(float)
    want = np.cross(x[:, 1] - x[:, 0], x[:, 2] - x[:, 0])
    if (np.einsum("ij,ij->i", n, want) < 0).any():
        raise Violation("STL: a facet normal is opposite to its orientation")


def check_netgen(m, ctx, case):
    c, e, b = O.read_netgen(os.path.join(O.result_dir(ctx.dir), "x.mesh"))
    used = np.unique(np.concatenate([k.ravel() for _, k in m.blocks]))
    if len(c) != len(used):
        raise Violation("Netgen: %d nodes, expected %d" % (len(c), len(used)))
    tree = cKDTree(m.coords[used])
    d, idx = tree.query(c)
    if d.max() > 2e-6 * max(1, np.abs(m.coords).max()) or len(np.unique(idx)) != len(used):
        raise Violation("Netgen: nodes differ from the nodes of the mesh (distance %g)" % d.max())
    idx = used[idx]
    for what, a, regs in (("element", e, [m.region_blocks(v) for v in m.eregions.values()]), ("boundary", b, list(m.bregions.values()))):
        if len(a) and (a[:, 1:].min() < 1 or a[:, 1:].max() > len(c)):
            raise Violation("Netgen: node out of range")
        kind = "tetra4" if what == "element" else "tria3"
        got = sorted(str({k: v.tolist() for k, v in (M.canon if what == "element" else M.rotcanon)([(kind, idx[a[a[:, 0] == r][:, 1:] - 1])]).items()}) for r in np.unique(a[:, 0]))
        exp = sorted(str({k: v.tolist() for k, v in (M.canon if what == "element" else M.rotcanon)(r).items()}) for r in regs)
        if what == "boundary" and len(got) == len(exp) + 1:  # the surface region is stored as well
            regs = regs + [m.boundary_faces()]
            exp = sorted(exp + [str({k: v.tolist() for k, v in M.rotcanon(regs[-1]).items()})])
        if got != exp:
            raise Violation("Netgen: %s regions differ (%d stored, %d expected, %d and %d elements)" % (what, len(got), len(exp), len(a), sum(sum(len(k) for _, k in r) for r in regs)))
        if len(a) and sorted(np.unique(a[:, 0])) != list(range(1, len(regs) + 1)):
            raise Violation("Netgen: %s region numbers %s" % (what, np.unique(a[:, 0]).tolist()))


def check_decomposition(m, res, loc, run, out):
    lut = {}
    k = 0
    for t, c in m.blocks:
        for row in c.tolist():
            lut[(t, tuple(row))] = k
            k += 1
    val = {}
    for name in ("DOMAIN", "CLUSTER", "MPI"):
        a = np.full(m.ne, np.nan)
        for p, v in zip(res.parts, res.var(name)):
            if v is None or not isinstance(v, dict):
                continue
            idx, bl = res.region(p, loc)
            for t, c in bl:
                for row, x in zip(c.tolist(), v[t][:, 0]):
                    e = lut.get((t, tuple(row)))
                    if e is None:
                        continue
                    if not np.isnan(a[e]) and a[e] != x:
                        raise Violation("%s of an element differs between regions: %g, %g" % (name, a[e], x))
                    a[e] = x
        if np.isnan(a).any():
            raise Violation("%s is stored for %d of %d elements" % (name, (~np.isnan(a)).sum(), m.ne))
        val[name] = a.astype(int)
    if not np.array_equal(np.unique(val["MPI"]), np.arange(run["np"])):
        raise Violation("elements are on processes %s of %d" % (np.unique(val["MPI"]).tolist(), run["np"]))
    nd = len(np.unique(val["DOMAIN"]))
    if not np.array_equal(np.unique(val["DOMAIN"]), np.arange(nd)):
        raise Violation("domain numbers %s" % np.unique(val["DOMAIN"]).tolist())
    if len(np.unique(np.stack([val["DOMAIN"], val["MPI"]]), axis=1).T) != nd:
        raise Violation("a domain is shared by several processes")
    if len(np.unique(np.stack([val["DOMAIN"], val["CLUSTER"]]), axis=1).T) != nd:
        raise Violation("a domain is in several clusters")
    cl = len(np.unique(val["CLUSTER"]))
    if len(np.unique(np.stack([val["CLUSTER"], val["MPI"]]), axis=1).T) != cl:
        raise Violation("a cluster is shared by several processes")
    per = {"DOMAINS": [], "CLUSTERS": [], "ELEMENTS": []}
    for r in range(run["np"]):
        on = val["MPI"] == r
        per["DOMAINS"].append(len(np.unique(val["DOMAIN"][on])))
        per["CLUSTERS"].append(len(np.unique(val["CLUSTER"][on])))
        per["ELEMENTS"].append(int(on.sum()))
        if run["domains"] and per["CLUSTERS"][-1] == 1 and per["DOMAINS"][-1] != run["domains"] and on.sum() > 4 * run["domains"]:
            raise Violation("process %d with %d elements in one cluster has %d domains, %d are required" % (r, on.sum(), per["DOMAINS"][-1], run["domains"]))
    i = out.find("PER MPI STATISTICS")
    for key, want in per.items():
        s = re.search(r"^ *%s +: +([\d,]+) +([\d,]+)" % key, out[i:], re.M)
        if i >= 0 and s and [int(x.replace(",", "")) for x in s.groups()] != [min(want), max(want)]:
            raise Violation("statistics print min/max %s of %s per process, %s are stored" % (s.groups(), key, want))


def check(case, ctx):
    m = I.assign(M.make(case["mesh"]), case["reg"])
    run = I.eff_run(case["run"], m.ne)
    for parts in ([(n, m.region_blocks(i), None) for n, i in m.eregions.items()], [(n, b, None) for n, b in m.bregions.items()], [(n, None, i) for n, i in m.nregions.items()]):
        for name, bl, ids in parts:
            c, b = F.local(m.coords, bl) if bl is not None else F.local(m.coords, nodes=ids)
            F.vtk(os.path.join(ctx.dir, "m.%s.vtk" % name), c, b if bl is not None else None, b if bl is None else None)
    out = "FORMAT %s; PATH results;" % case["fmt"]
    if case["writer"]:
        out += " WRITER %s;" % case["writer"]
    if case["ostripe"]:
        out += " STRIPE_SIZE %d;" % case["ostripe"]
    if case["ocount"]:
        out += " STRIPE_COUNT %d;" % case["ocount"]
    if case["decomposition"]:
        out += " STORE_DECOMPOSITION 1;"
    r = I.run_mesio(ctx, I.input_ecf("VTK_LEGACY", "m.*.vtk", run, out=out, dim=m.dim), run, ne=m.ne)
    loc = M.Locator(m.coords)
    if case["fmt"] == "STL_SURFACE":
        check_stl(m, ctx)
    elif case["fmt"] == "NETGEN":
        check_netgen(m, ctx, case)
    else:
        res = O.EnSight(ctx.dir, "x") if case["fmt"] == "ENSIGHT" else O.VTK(ctx.dir, "x")
        I.compare(m, res, O.stats(r.out), loc=loc)
        if case["decomposition"]:
            check_decomposition(m, res, loc, run, r.out)
    return {"nontrivial": m.ne >= 4 and (run["np"] > 1 or run["domains"] > 1 or len(m.eregions) + len(m.bregions) + len(m.nregions) > 1), "fmt": case["fmt"], "np": run["np"], "writer": case["writer"],
            "decomposition": case["decomposition"], "quadratic": case["mesh"]["quadratic"]}
