"""Shared machinery of the mesh import checks: generator of meshes with regions, run, comparison."""
import os
import numpy as np
from hypothesis import strategies as st
from . import mesh as M, formats as F, outputs as O
from .core import Violation, Inconclusive

NAMES = ["A", "steel", "Part_1", "x", "BODY-2", "reg.ion", "WALL", "inlet1", "Zone", "n0"]


@st.composite
def mesh_params(draw, max_small=4, big=None, dims=(3,), quadratic=True, kinds3=None, gaps=True):
    dim = draw(st.sampled_from(dims)) if len(dims) > 1 else dims[0]
    isbig = big is not None and draw(st.sampled_from([False] * (100 - big["percent"]) + [True] * big["percent"]))
    if isbig:
        lo, hi = big["n3"] if dim == 3 else big["n2"]
    else:
        lo, hi = 1, (max_small if dim == 3 else 2 * max_small)
    n = [draw(st.integers(lo, hi)) for _ in range(dim)]
    if dim == 3:
        opts = kinds3 or [["hexa"], ["tetra"], ["prism"], ["pyra"], ["hexa", "prism"], ["hexa", "prism", "hexpyr"], ["hexpyr", "prism", "pyra"]]
    else:
        opts = [["quad"], ["tria"], ["quad", "tria"]]
    if isbig and dim == 3:
        opts = [["hexa"], ["hexa", "prism"]] if not kinds3 else kinds3[:2]
    p = {
        "dim": dim, "n": n, "kinds": draw(st.sampled_from(opts)),
        "quadratic": int(quadratic and not isbig and draw(st.booleans())),
        "jitter": draw(st.sampled_from([0, 1, 2, 3])), "perm": draw(st.integers(0, 5)),
        "scale": draw(st.sampled_from([[1, 1, 1], [0.5, 2, 1], [0.01, 0.01, 0.02], [10, 10, 10], [0.3, 0.7, 1.1]])),
        "shift": draw(st.sampled_from([[0, 0, 0], [-1, -2, -3], [5, 0, -0.5], [-0.25, 0.125, 3]])),
        "gaps": draw(st.lists(st.integers(1, max(1, n[0] - 1)), max_size=2)) if gaps and draw(st.booleans()) else [],
    }
    return p


@st.composite
def run_params(draw, nps=(1, 2, 3, 4), threads=True):
    np_ = draw(st.sampled_from(nps))
    return {
        "np": np_, "threads": draw(st.sampled_from([1, 1, 2, 3])) if threads else 1,
        "loader": draw(st.sampled_from(["", "MPI", "MPI_COLLECTIVE", "POSIX"])),
        "stripe": draw(st.sampled_from([0, 1024, 4096, 65536])),
        "limit": draw(st.sampled_from([0, 0, 1, 2])),
        "decomposer": draw(st.sampled_from(["", "NONE", "METIS", "PARMETIS", "HILBERT_CURVE"])),
        "domains": draw(st.sampled_from([0, 1, 2, 3])),
    }


@st.composite
def region_params(draw, faces=True, edges=False):
    """how elements are split into named regions and which boundary and node sets exist."""
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=7, unique_by=lambda s: s.lower()))
    k = draw(st.integers(1, min(3, len(names))))
    rest = names[k:]
    nb = draw(st.integers(0, min(2, len(rest)))) if faces else 0
    ed = draw(st.integers(0, 1)) if edges and rest else 0
    ename, rest = rest[:ed], rest[ed:]
    nb = min(nb, len(rest))
    return {"e": names[:k], "ed": ename, "b": rest[:nb], "n": rest[nb:nb + 2], "seed": draw(st.integers(0, 50)),
            "bfrac": draw(st.sampled_from([1, 2, 5])), "nfrac": draw(st.sampled_from([1, 3, 10])),
            "emode": draw(st.sampled_from(["random", "slices"])),
            "many": draw(st.sampled_from([[0, 0]] * 30 + [[10, 0], [0, 10], [33, 0], [0, 34], [17, 17], [9, 34]]))}


def assign(m, rp):
    """Assign regions to mesh m according to rp (pure function)."""
    r = np.random.RandomState(rp["seed"] + 1)
    many = rp.get("many", [0, 0])
    rp = dict(rp, e=rp["e"] + ["many-e%d" % i for i in range(many[0])], n=rp["n"] + ["many-n%d" % i for i in range(many[1])])
    ne = m.ne
    k = min(len(rp["e"]), ne)
    if rp["emode"] == "random":
        lab = r.randint(0, k, ne)
    else:
        lab = (np.arange(ne) * k) // ne
    for i in range(k):
        if not (lab == i).any():
            lab[i] = i
    for i in range(k):
        ids = np.nonzero(lab == i)[0]
        if len(ids):
            m.eregions[rp["e"][i]] = ids
    surf = m.boundary_faces()
    for name in rp["b"]:
        bl = []
        for t, c in surf:
            s = c[r.randint(0, rp["bfrac"], len(c)) == 0]
            if len(s):
                bl.append((t, s))
        if not bl:
            bl = [(surf[0][0], surf[0][1][:1])]
        m.bregions[name] = bl
    for name in rp.get("ed", []):
        t, c = surf[0]
        lin = M.LIN.get(t, t)
        nc = M.NCORNER[lin[:4]]
        ed = np.vstack([c[:, [a, b] + ([nc + i] if t in M.LIN else [])] for i, (a, b) in enumerate(M.EDGES[lin])])
        _, first = np.unique(np.sort(ed[:, :2], axis=1), axis=0, return_index=True)
        ed = ed[np.sort(first)]
        ed = ed[r.randint(0, 3, len(ed)) == 0] if len(ed) > 6 else ed
        if not len(ed):
            ed = c[:1, [0, 1] + ([nc] if t in M.LIN else [])]
        m.bregions[name] = [("line3" if t in M.LIN else "line2", ed)]
    used = np.unique(np.concatenate([c.ravel() for _, c in m.blocks]))
    for name in rp["n"]:
        ids = used[r.randint(0, rp["nfrac"], len(used)) == 0]
        if not len(ids):
            ids = used[:1]
        m.nregions[name] = ids
    return m


def input_ecf(fmt, path, run, extra="", out="FORMAT ENSIGHT; PATH results;", dim=3):
    s = ["PHYSICS HEAT_TRANSFER_2D;" if dim == 2 else "", "INPUT {", "FORMAT %s;" % fmt, "PATH %s;" % path, "CONVERT_DATABASE 1;"]
    if run["loader"]:
        s.append("LOADER %s;" % run["loader"])
    if run["stripe"]:
        s.append("STRIPE_SIZE %d;" % run["stripe"])
    if run["limit"]:
        s.append("THIRD_PARTY_SCALABILITY_LIMIT %d;" % run["limit"])
    d = ""
    if run["decomposer"]:
        d += "PARALLEL_DECOMPOSER %s; " % run["decomposer"]
    if run["domains"]:
        d += "DOMAINS %d; " % run["domains"]
    if d:
        s.append("DECOMPOSITION { %s}" % d)
    s.append(extra)
    s.append("}")
    s.append("OUTPUT { %s }" % out)
    return "\n".join(s) + "\n"


def eff_run(run, ne):
    """Every rank must be able to hold elements: the number of ranks is bounded by the size of the mesh."""
    return dict(run, np=max(1, min(run["np"], ne // 2)))


def run_mesio(ctx, ecf, run, prog="mesio", name="x", ne=None):
    with open(os.path.join(ctx.dir, name + ".ecf"), "w") as f:
        f.write(ecf)
    r = ctx.run(prog, ["-c", name + ".ecf"], np=run["np"], threads=run["threads"])
    if r.rc != 0 and ne is not None and run["np"] > 1 and ne <= 20 * run["np"]:
        t = r.out + r.err
        if "process without any elements detected" in t:
            raise Inconclusive("rejected: too few elements for the number of ranks")
        if "PARMETIS_ERROR while" in t:
            raise Inconclusive("rejected: ParMETIS refuses so small a mesh")
    if r.rc != 0:
        raise Violation("%s failed with exit code %s on a valid input:\n%s\n%s" % (prog, r.rc, tail(r.out), tail(r.err)))
    return r


def tail(s, n=1200):
    return s[-n:]


def compare(m, ens, stat, surface=True, ordered=True, nameless=True, bodies=True, loc=None):
    """m is the expected mesh, ens the EnSight output, stat the printed statistics."""
    loc = loc or M.Locator(m.coords)
    used = np.unique(np.concatenate([c.ravel() for _, c in m.blocks]))
    if stat is None:
        raise Violation("no mesh statistics were printed")
    if stat["nodes"] != len(used):
        raise Violation("mesh has %d nodes, %d expected" % (stat["nodes"], len(used)))
    exp = {}
    for t, c in m.blocks:
        exp[t] = exp.get(t, 0) + len(c)
    if stat["elements"] != exp or stat["ne"] != m.ne:
        raise Violation("element counts %s (total %d), expected %s" % (stat["elements"], stat["ne"], exp))
    expected = {}
    for name, ids in m.eregions.items():
        expected[name] = ("E", ids)
    cover = np.zeros(m.ne, bool)
    for ids in m.eregions.values():
        cover[ids] = True
    if not cover.all():
        expected["NAMELESS_ELEMENT_SET"] = ("E", np.nonzero(~cover)[0])
    for name, bl in m.bregions.items():
        expected[name] = ("B", bl)
    for name, ids in m.nregions.items():
        expected[name] = ("N", ids)
    seen = {}
    for p in ens.parts:
        if p["name"] in seen:
            raise Violation("region %s is stored twice" % p["name"])
        seen[p["name"]] = p
    names = set(seen) - {"SURFACE"}
    if names != set(expected):
        raise Violation("regions %s, expected %s" % (sorted(names), sorted(expected)))
    for name, (kind, data) in expected.items():
        p = seen[name]
        idx, bl = ens.region(p, loc)
        if (idx < 0).any():
            i = int(np.argmax(idx < 0))
            raise Violation("region %s has a node with coordinates %s that are not in the input" % (name, p["coords"][i].tolist()))
        if len(np.unique(idx)) != len(idx):
            raise Violation("region %s contains a node twice" % name)
        if kind == "N":
            if not np.array_equal(np.sort(idx), np.unique(data)):
                raise Violation("node region %s: %d nodes, expected %d (or a different set)" % (name, len(idx), len(np.unique(data))))
            if p["blocks"] or p["points"] is None or not np.array_equal(np.sort(p["points"]), np.arange(len(idx))):
                raise Violation("node region %s: points are not exactly its nodes" % name)
        else:
            eb = m.region_blocks(data) if kind == "E" else data
            if kind == "E":
                msg = M.same(M.canon(eb, ordered), M.canon(bl, ordered))
            else:
                msg = M.same(M.rotcanon(eb), M.rotcanon(bl)) if ordered else M.same(M.canon(eb, False), M.canon(bl, False))
            if msg:
                raise Violation("region %s: %s" % (name, msg))
            nodes = np.unique(np.concatenate([c.ravel() for _, c in eb]))
            if not np.array_equal(np.sort(idx), nodes):
                raise Violation("region %s: node set differs from the nodes of its elements" % name)
        cnt = stat["regions"].get(name)
        if cnt is None:
            raise Violation("region %s is missing in the statistics" % name)
        want = [len(np.unique(data))] if kind == "N" else [sum(len(c) for _, c in eb), len(nodes)]
        if cnt != want:
            raise Violation("statistics of region %s: %s, expected %s" % (name, cnt, want))
    if surface and "SURFACE" in seen:
        idx, bl = ens.region(seen["SURFACE"], loc)
        msg = M.same(M.rotcanon(m.boundary_faces()), M.rotcanon(bl)) if m.dim == 3 else M.same(M.canon(m.boundary_faces(), False), M.canon(bl, False))
        if msg:
            raise Violation("SURFACE: " + msg)
    if bodies and "bodies" in stat:
        nb = M.components(m)
        if stat["bodies"] != nb:
            raise Violation("%d bodies, expected %d" % (stat["bodies"], nb))


def nontrivial(m, run):
    return m.ne >= 4 and (len(m.eregions) + len(m.bregions) + len(m.nregions) >= 2)
