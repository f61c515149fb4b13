"""Netgen neutral and Neper (msh) import."""
import os
import numpy as np
from hypothesis import strategies as st
from vlib import mesh as M, outputs as O, impcheck as I

PARAMS = {"quick": {"seconds": 45, "shrink": 60}, "thorough": {"seconds": 500, "shrink": 60}}
RULE = ("A case is a generated conforming 3D mesh written as a Netgen neutral file (tetrahedra, numbered element and boundary regions) or a Neper msh file (linear and quadratic solids with 1-3 tags, lower dimensional elements, node sets, orientations, groups), with generated numbering and white space, "
        "and converted with random rank, thread, loader, stripe and decomposer settings. Oracle: the generated mesh. Non-trivial: >= 4 elements and >= 2 named regions.")


@st.composite
def strategy_(draw, tier):
    fmt = draw(st.sampled_from(["netgen", "neper"]))
    kinds = [["tetra"]] if fmt == "netgen" else [["tetra"], ["hexa"], ["prism"], ["hexa", "prism"], ["tetra"]]
    return {"fmt": fmt, "mesh": draw(I.mesh_params(big={"percent": 15, "n3": (6, 9), "n2": (30, 40)}, quadratic=fmt == "neper", kinds3=kinds)), "run": draw(I.run_params()),
            "ereg": draw(st.integers(1, 5)), "breg": draw(st.integers(0, 4)), "bfrac": draw(st.sampled_from([1, 2, 5])), "seed": draw(st.integers(0, 50)), "emode": draw(st.sampled_from(["random", "slices"])),
            "pad": draw(st.integers(0, 2)), "names": draw(st.lists(st.sampled_from(["x0", "x1", "y0", "z1", "x0y0", "x0y1z1", "body"]), min_size=1, max_size=4, unique=True)), "nfrac": draw(st.sampled_from([1, 3, 10])),
            "tags": draw(st.sampled_from([2, 3])), "lower": draw(st.booleans()), "groups": draw(st.sampled_from([0, 0, 1, 2])), "nperm": draw(st.integers(0, 2)), "eoff": draw(st.sampled_from([0, 0, 7]))}


def strategy(tier):
    return strategy_(tier)


def num(case, v):
    return [repr(float(v)), "%.12e" % v, "%17.12f" % v][case["pad"]] if case["pad"] < 2 or abs(v) < 1e3 else repr(float(v))


def setup(m, case):
    r = np.random.RandomState(case["seed"] + 1)
    k = min(case["ereg"], m.ne)
    lab = r.randint(0, k, m.ne) if case["emode"] == "random" else np.arange(m.ne) * k // m.ne
    lab[:k] = np.where(case["emode"] == "random", np.arange(k), lab[:k])
    return r, lab + 1


def netgen(m, case, r, lab):
    out = ["%d" % len(m.coords)]
    w = [0, 5, 9][case["pad"]]
    out += [" ".join(num(case, v) for v in x) for x in m.coords]
    out.append("%d" % m.ne)
    out += [" ".join("%*d" % (w, v) for v in [lab[e]] + list(row + 1)) for e, (t, row) in enumerate(m.elements())]
    faces = np.vstack([c for _, c in m.boundary_faces()])
    faces = faces[r.randint(0, case["bfrac"], len(faces)) == 0] if case["breg"] else faces[:0]
    k = min(case["breg"], len(faces))
    blab = r.randint(0, max(k, 1), len(faces))
    blab[:k] = np.arange(k)
    out.append("%d" % len(faces))
    out += [" ".join("%*d" % (w, v) for v in [blab[i] + 1] + list(f + 1)) for i, f in enumerate(faces)]
    for i in range(1, lab.max() + 1):
        m.eregions["ELEMENTS_%d" % i] = np.nonzero(lab == i)[0]
    for i in range(k):
        m.bregions["BOUNDARY_%d" % (i + 1)] = [("tria3", faces[blab == i])]
    return "\n".join(out) + "\n"


GMSH = {"tetra4": (4, range(4)), "hexa8": (5, range(8)), "prism6": (6, range(6)), "tetra10": (11, [0, 1, 2, 3, 4, 5, 6, 7, 9, 8]),
        "hexa20": (17, list(range(8)) + [8, 11, 16, 9, 17, 10, 18, 19, 12, 15, 13, 14]), "prism15": (18, list(range(6)) + [6, 8, 12, 7, 13, 14, 9, 11, 10]),
        "tria3": (2, range(3)), "quad4": (3, range(4)), "tria6": (9, range(6)), "quad8": (16, range(8))}


def neper(m, case, r, lab):
    nn = len(m.coords)
    nid = np.arange(1, nn + 1) if not case["nperm"] else np.random.RandomState(case["nperm"]).permutation(nn) + 1
    inv = np.argsort(nid) if case["nperm"] == 1 else np.arange(nn)
    out = ["$MeshFormat", "2.2 0 8", "$EndMeshFormat", "$MeshVersion", "2.2.1", "$EndMeshVersion", "$Domain", "cube", "$EndDomain"]
    out += ["$Nodes", "%d" % nn] + ["%d " % nid[i] + " ".join(num(case, v) for v in m.coords[i]) for i in inv] + ["$EndNodes"]
    lines = []
    if case["lower"]:
        for i in range(3):
            lines.append("15 %d %d %d%s %d" % (case["tags"], i + 1, i + 1, " 0" if case["tags"] == 3 else "", nid[i]))
        for t, c in m.boundary_faces():
            g, perm = GMSH[t]
            lines += ["%d %d %d %d%s " % (g, case["tags"], i % 5 + 1, i % 5 + 1, " 0" if case["tags"] == 3 else "") + " ".join("%d" % nid[f[k]] for k in perm) for i, f in enumerate(c)]
    for e, (t, row) in enumerate(m.elements()):
        g, perm = GMSH[t]
        lines.append("%d %d %d %d%s " % (g, case["tags"], lab[e], lab[e], " 0" if case["tags"] == 3 else "") + " ".join("%d" % nid[row[k]] for k in perm))
    out += ["$Elements", "%d" % len(lines)] + ["%d %s" % (case["eoff"] + i + 1, l) for i, l in enumerate(lines)] + ["$EndElements"]
    used = np.unique(np.concatenate([c.ravel() for _, c in m.blocks]))
    out += ["$NSets", "%d" % len(case["names"])]
    for name in case["names"]:
        ids = used[r.randint(0, case["nfrac"], len(used)) == 0]
        ids = ids if len(ids) else used[:1]
        m.nregions[name] = ids
        out += [name, "%d" % len(ids)] + ["%d" % v for v in np.sort(nid[ids])]
    out += ["$EndNSets"]
    k = lab.max()
    out += ["$ElsetOrientations", "%d euler-bunge:active" % k] + ["%d %.12f %.12f %.12f" % (i + 1, 10 * i, 5 * i + 0.5, 90 - i) for i in range(k)] + ["$EndElsetOrientations"]
    if case["groups"]:
        out += ["$Groups", "elset", "%d" % k] + ["%d %d" % (i + 1, i % case["groups"] + 1) for i in range(k)] + ["$EndGroups"]
        for g in range(min(case["groups"], k)):
            m.eregions["GROUP_%d" % (g + 1)] = np.nonzero((lab - 1) % case["groups"] == g)[0]
    return "\n".join(out) + "\n"


def check(case, ctx):
    m = M.make(case["mesh"])
    run = I.eff_run(case["run"], m.ne)
    r, lab = setup(m, case)
    text = (netgen if case["fmt"] == "netgen" else neper)(m, case, r, lab)
    with open(os.path.join(ctx.dir, "m.txt"), "w") as f:
        f.write(text)
    p = I.run_mesio(ctx, I.input_ecf({"netgen": "NETGEN", "neper": "NEPER"}[case["fmt"]], "m.txt", run, dim=m.dim), run, ne=m.ne)
    I.compare(m, O.EnSight(ctx.dir, "x"), O.stats(p.out))
    return {"nontrivial": I.nontrivial(m, case["run"]), "fmt": case["fmt"], "np": run["np"], "split": len(text) > 65536 and run["np"] > 1, "quadratic": case["mesh"]["quadratic"]}
