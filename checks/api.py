"""C API of mesio: the distributed mesh returned on all ranks is the mesh of the database."""
import os
import numpy as np
from hypothesis import strategies as st
from vlib import core, mesh as M, formats as F, impcheck as I
from vlib.core import Violation, Inconclusive
from checks.ensight_import import parts_of
from checks import ansys_import

PARAMS = {"quick": {"seconds": 75, "shrink": 60}, "thorough": {"seconds": 600, "shrink": 60}}
RULE = ("A case is a generated conforming 3D mesh (all element types, linear or quadratic, possibly several bodies) with element, face, edge and node regions written as an EnSight, VTK or ANSYS CDB database and loaded by a C program through libmesioapi on 1-4 ranks of a generated communicator "
        "(world, reversed ranks, a part of the world) with a generated decomposer, number of domains, threads and, optionally, espreso.ecf. Everything returned on all ranks is collected. Oracle: the generated mesh (nodes, elements, regions, bodies, face neighbours, parents, counters) "
        "and the invariants of the distribution (one owner per node, offsets, positions, ranks and domains of nodes, domains in order). Non-trivial: >= 4 elements, >= 2 named regions and >= 2 ranks or >= 2 domains.")

EXE = None
CODE = ["point", "line2", "tria3", "quad4", "tetra4", "pyra5", "prism6", "hexa8", "line3", "tria6", "quad8", "tetra10", "pyra13", "prism15", "hexa20"]
FORMAT = {"ansys": 0, "ensight": 1, "vtk": 2}
DECOMPOSER = {"NONE": 0, "METIS": 1, "PARMETIS": 2, "HILBERT_CURVE": 4}


def prepare(base):
    global EXE
    EXE = os.path.join(base, "mesiodump")
    core.harness("mesiodump.cpp", EXE, base, api=True)


@st.composite
def strategy_(draw, tier):
    fmt = draw(st.sampled_from(["ensight", "ensight", "vtk", "ansys"]))
    case = {"format": fmt, "mesh": draw(I.mesh_params(big={"percent": 6, "n3": (8, 12), "n2": (30, 40)})), "reg": draw(I.region_params(edges=fmt != "ansys")),
            "np": draw(st.sampled_from([1, 2, 2, 3, 3, 4])), "threads": draw(st.sampled_from([1, 1, 2, 3])), "comm": draw(st.sampled_from([0, 0, 0, 1, 2])),
            "decomposer": draw(st.sampled_from(["NONE", "METIS", "PARMETIS", "PARMETIS", "HILBERT_CURVE"])), "domains": draw(st.sampled_from([1, 1, 2, 3, 4, 7])),
            "ecf": draw(st.sampled_from([None, None, None, {"loader": "MPI", "stripe": 1024}, {"loader": "POSIX", "stripe": 4096}, {"loader": "MPI_COLLECTIVE", "stripe": 65536}])), "shuffle": draw(st.integers(0, 3)), "order": 0}
    if fmt == "ensight":
        case.update(binary=draw(st.booleans()), nid=draw(st.sampled_from(["off", "given", "assign", "ignore"])), eid=draw(st.sampled_from(["off", "given"])), order=draw(st.integers(0, 5)))
    elif fmt == "vtk":
        case["style"] = draw(st.sampled_from([0, 1, 8]))
    else:
        case["ansys"] = draw(ansys_import.strategy(tier))
    return case


def strategy(tier):
    return strategy_(tier)


def read(path):
    """the dump of a rank"""
    out, cur = {"counter": [], "eregions": [], "bregions": []}, None
    head = out
    for l in open(path):
        k, _, v = l.rstrip("\n").partition(" ")
        if k in ("EREGION", "BREGION"):
            cur = {"name": v, "counter": []}
            out[k.lower() + "s"].append(cur)
            head = cur
        elif k in ("COUNTER", "RCOUNTER", "BCOUNTER"):
            i, o, t = map(int, v.split())
            head["counter"].append((i, o, t))
        elif k == "COORDS":
            head[k] = np.array(v.split(), float).reshape(-1, 3)
        elif k != "END":
            head[k] = np.array(v.split(), float).astype(np.int64)
    if k != "END":
        raise core.HarnessError("unfinished dump")
    return out


def need(x, msg, *a):
    if not x:
        raise Violation(msg % a)


def split(dist, data):
    need(len(dist) and dist[0] == 0 and (np.diff(dist) >= 0).all() and dist[-1] == len(data), "invalid distribution of an array")
    return [data[a:b] for a, b in zip(dist[:-1], dist[1:])]


def exscan(ranks, what, offset, size, total, expected):
    """offsets follow each other, sizes sum up to the total"""
    o = 0
    for r, (a, n, t) in enumerate(zip(offset, size, total)):
        need(a == o, "%s: offset %d on rank %d, expected %d", what, a, r, o)
        o += n
        need(t == expected, "%s: total size %d on rank %d, expected %d", what, t, r, expected)
    need(o == expected, "%s: sizes sum up to %d, expected %d", what, o, expected)


def uniq(ranks, what, info, gnodes, positions, expected):
    """info: (nhalo, offset, size, total) per rank, gnodes: reference nodes per rank, positions per rank"""
    nodes = np.unique(np.concatenate(gnodes)) if len(gnodes) else []
    need(np.array_equal(nodes, np.unique(expected)), "%s: nodes differ from the database: %d, expected %d", what, len(nodes), len(np.unique(expected)))
    exscan(ranks, what + " nodes", [i[1] for i in info], [i[2] for i in info], [i[3] for i in info], len(nodes))
    pos = {}
    for r, (i, g, p) in enumerate(zip(info, gnodes, positions)):
        need(len(np.unique(g)) == len(g), "%s: a node is listed twice on rank %d", what, r)
        need((p[:i[0]] < i[1]).all(), "%s: a halo node with the position of an own node on rank %d", what, r)
        need(np.array_equal(p[i[0]:], i[1] + np.arange(i[2])), "%s: positions of own nodes on rank %d are not consecutive", what, r)
        for n, x in zip(g.tolist(), p.tolist()):
            need(pos.setdefault(n, x) == x, "%s: a node has positions %d and %d", what, pos[n], x)
    need(sorted(pos.values()) == list(range(len(nodes))), "%s: positions are not a permutation", what)


def counters(ranks, what, cnt, types, expected):
    """cnt: list of (code, offset, total) per rank, types: types of local elements per rank"""
    for i in range(len(CODE)):
        exscan(ranks, "%s: counter of %s" % (what, CODE[i]), [c[i][1] for c in cnt], [int((t == i).sum()) for t in types], [c[i][2] for c in cnt], expected.get(CODE[i], 0))


def verify(m, ranks, case):
    np_ = len(ranks)
    loc = M.Locator(m.coords)
    used = np.unique(np.concatenate([c.ravel() for _, c in m.blocks]))
    # nodes
    G = []
    for r, d in enumerate(ranks):
        g = loc.find(d["COORDS"])
        need((g >= 0).all(), "a node on rank %d has coordinates that are not in the database", r)
        G.append(g)
    uniq(ranks, "mesh", [d["NODES"] for d in ranks], G, [d["POSITION"] for d in ranks], used)
    holders, ids = {}, {}
    for r, (d, g) in enumerate(zip(ranks, G)):
        for n, i in zip(g.tolist(), d["IDS"].tolist()):
            holders.setdefault(n, []).append(r)
            need(ids.setdefault(n, i) == i, "a node has ids %d and %d", ids[n], i)
    need(len(set(ids.values())) == len(ids), "two nodes have the same id")
    if case["format"] == "ansys":
        base = min(ids.values()) - min(int(m.nid[n]) for n in ids)  # ids are returned zero-based
        bad = [n for n, i in ids.items() if m.nid[n] + base != i]
        need(not bad and base in (0, -1), "id of a node is %s, %s in the database", ids[bad[0]] if bad else base, m.nid[bad[0]] if bad else 0)
    for r, (d, g) in enumerate(zip(ranks, G)):
        for i, (n, x) in enumerate(zip(g.tolist(), split(d["RANKDIST"], d["RANKS"]))):
            need(x.tolist() == holders[n], "ranks of a node are %s, it is held by %s", x.tolist(), holders[n])
            need((i < d["NODES"][0]) == (holders[n][0] != r), "halo and own nodes are mixed up on rank %d", r)
    # elements
    exscan(ranks, "elements", [d["ELEMENTS"][0] for d in ranks], [d["ELEMENTS"][1] for d in ranks], [d["ELEMENTS"][2] for d in ranks], m.ne)
    ref = {}
    for i, (t, c) in enumerate(m.elements()):
        ref[(t, tuple(c.tolist()))] = i
    E, glob, nbrs, ndom = [], np.full(m.ne, -1, np.int64), [], {}
    ghost = []
    for r, (d, g) in enumerate(zip(ranks, G)):
        loce = []
        touched = np.zeros(len(g), bool)
        doms = d["DOMAINS"]
        for e, (t, c) in enumerate(zip(d["TYPE"].tolist(), split(d["EDIST"], d["ENODES"]))):
            need(0 <= t < len(CODE) and ((c >= 0) & (c < len(g))).all(), "invalid element on rank %d", r)
            touched[c] = True
            key = (CODE[t], tuple(g[c].tolist()))
            need(key in ref, "element %s %s is not in the database", CODE[t], g[c].tolist())
            loce.append(ref[key])
            for n in g[c].tolist():
                ndom.setdefault(n, set()).add(int(doms[e]))
        loce = np.array(loce, np.int64)
        need(touched.all(), "a node on rank %d belongs to no element", r)
        glob[d["ELEMENTS"][0]:d["ELEMENTS"][0] + len(loce)] = loce
        E.append(loce)
        nbrs += [x.tolist() for x in split(d["NEIDIST"], d["NEIGHBORS"])]
    need(len(np.unique(glob)) == m.ne and (glob >= 0).all(), "an element is stored twice")
    exp = {}
    for t, c in m.blocks:
        exp[t] = exp.get(t, 0) + len(c)
    counters(ranks, "elements", [d["counter"] for d in ranks], [d["TYPE"] for d in ranks], exp)
    # domains
    top = -1
    for r, d in enumerate(ranks):
        x = d["DOMAINS"]
        need(len(x) == len(E[r]) and (np.diff(x) >= 0).all(), "domains of elements on rank %d are not ordered", r)
        u = np.unique(x)
        need(np.array_equal(u, top + 1 + np.arange(len(u))), "domains on rank %d are %s, expected to start with %d", r, u.tolist(), top + 1)
        top = int(u[-1])
    for r, (d, g) in enumerate(zip(ranks, G)):
        for n, x in zip(g.tolist(), split(d["NDOMDIST"], d["NDOMAINS"])):
            need(x.tolist() == sorted(ndom[n]), "domains of a node are %s, expected %s", x.tolist(), sorted(ndom[n]))
    # neighbours
    owner, want = {}, [[] for _ in range(m.ne)]
    off = 0
    for t, c in m.blocks:
        for ft, fc in M.faces_of(t, c):
            for e, k in enumerate(map(tuple, np.sort(fc[:, :M.NCORNER[ft[:4]]], axis=1).tolist())):
                owner.setdefault(k, []).append(off + e)
        off += len(c)
    for es in owner.values():
        for i, e in enumerate(es):
            want[e].append(es[1 - i] if len(es) == 2 else -1)
    parent = list(range(m.ne))
    for k, x in enumerate(nbrs):
        need(all(-1 <= y < m.ne for y in x), "invalid neighbours %s of element %d", x, k)
        got = sorted(int(glob[y]) if y >= 0 else -1 for y in x)
        need(got == sorted(want[glob[k]]), "neighbours of element %d are %s, elements sharing its faces are %s", glob[k], got, sorted(want[glob[k]]))
    # bodies
    comp = components(m.ne, want)
    body = np.full(m.ne, -1)
    for r, d in enumerate(ranks):
        need(d["BODIES"][0] == comp.max() + 1, "%d bodies on rank %d, expected %d", d["BODIES"][0], r, comp.max() + 1)
        body[E[r]] = d["BODY"]
    need(len(set(zip(body.tolist(), comp.tolist()))) == comp.max() + 1 == len(np.unique(body)), "elements of a body are labeled differently")
    need(body.min() == 0 and body.max() == comp.max(), "labels of bodies are not consecutive")
    # regions
    regions = [[x["name"] for x in d["eregions"]] for d in ranks]
    need(all(x == regions[0] for x in regions), "element regions differ among ranks")
    expected = {"ALL_ELEMENTS": np.arange(m.ne)}
    expected.update(m.eregions)
    cover = np.zeros(m.ne, bool)
    for x in m.eregions.values():
        cover[x] = True
    if not cover.all():
        expected["NAMELESS_ELEMENT_SET"] = np.nonzero(~cover)[0]
    need(sorted(regions[0]) == sorted(expected), "element regions %s, expected %s", sorted(regions[0]), sorted(expected))
    els = m.elements()
    for k, name in enumerate(regions[0]):
        reg = [d["eregions"][k] for d in ranks]
        what = "region " + name
        for r, x in enumerate(reg):
            need((np.diff(x["ELEMS"]) > 0).all() and ((x["ELEMS"] >= 0) & (x["ELEMS"] < len(E[r]))).all(), "%s: elements on rank %d are not sorted or out of range", what, r)
        got = np.sort(np.concatenate([E[r][x["ELEMS"]] for r, x in enumerate(reg)]))
        ids = np.sort(np.asarray(expected[name]))
        need(np.array_equal(got, ids), "%s: %d elements, expected %d (or other elements)", what, len(got), len(ids))
        cnt = {}
        for i in ids:
            cnt[els[i][0]] = cnt.get(els[i][0], 0) + 1
        counters(ranks, what, [x["counter"] for x in reg], [d["TYPE"][x["ELEMS"]] for d, x in zip(ranks, reg)], cnt)
        nodes = np.unique(np.concatenate([els[i][1] for i in ids]))
        rnodes(ranks, what, reg, G, nodes)
    bnd = [[x["name"] for x in d["bregions"]] for d in ranks]
    need(all(x == bnd[0] for x in bnd), "boundary regions differ among ranks")
    expected = {"ALL_NODES": used}
    expected.update(m.nregions)
    expected.update(m.bregions)
    need(sorted(set(bnd[0]) - {"SURFACE"}) == sorted(expected) and len(set(bnd[0])) == len(bnd[0]), "boundary regions %s, expected %s", sorted(bnd[0]), sorted(expected))
    expected["SURFACE"] = m.boundary_faces()
    for k, name in enumerate(bnd[0]):
        reg = [d["bregions"][k] for d in ranks]
        what = "region " + name
        x = expected[name]
        if not isinstance(x, list):
            need(all(y["DIM"][0] == 0 for y in reg), "%s: dimension of a node region", what)
            rnodes(ranks, what, reg, G, x)
            continue
        dim = M.TYPES[x[0][0]][0]
        need(all(y["DIM"][0] == dim for y in reg), "%s: dimension %d, expected %d", what, reg[0]["DIM"][0], dim)
        got = {}
        for r, (d, y) in enumerate(zip(ranks, reg)):
            need(len(y["BTYPE"]) == y["DIM"][1] == len(y["PARENT"]), "%s: size on rank %d", what, r)
            en = split(d["EDIST"], d["ENODES"])
            for t, c, p in zip(y["BTYPE"].tolist(), split(y["BDIST"], y["BNODES"]), y["PARENT"].tolist()):
                need(0 <= t < len(CODE) and ((c >= 0) & (c < len(G[r]))).all(), "%s: invalid element on rank %d", what, r)
                got.setdefault(CODE[t], []).append(G[r][c])
                need(0 <= p < len(en) and np.isin(c, en[p]).all(), "%s: parent %d of %s on rank %d does not contain it", what, p, CODE[t], r)
        gb = [(t, np.array(c)) for t, c in got.items()]
        msg = M.same(M.rotcanon(x), M.rotcanon(gb)) if dim == 2 else M.same(M.canon(x, False), M.canon(gb, False))
        need(not msg, "%s: %s", what, msg)
        counters(ranks, what, [y["counter"] for y in reg], [y["BTYPE"] for y in reg], {t: sum(len(c) for s, c in x if s == t) for t, _ in x})
        rnodes(ranks, what, reg, G, np.unique(np.concatenate([c.ravel() for _, c in x])))
    return top + 1


def rnodes(ranks, what, reg, G, expected):
    for r, x in enumerate(reg):
        need((np.diff(x["NODELIST"]) > 0).all() and ((x["NODELIST"] >= 0) & (x["NODELIST"] < len(G[r]))).all(), "%s: nodes on rank %d are not sorted or out of range", what, r)
        need(x["RNODES"][0] + x["RNODES"][2] == len(x["NODELIST"]), "%s: number of nodes on rank %d", what, r)
        miss = np.setdiff1d(G[r][np.isin(G[r], expected)], G[r][x["NODELIST"]])
        need(not len(miss), "%s: a node held by rank %d is missing there", what, r)
    uniq(ranks, what, [x["RNODES"] for x in reg], [G[r][x["NODELIST"]] for r, x in enumerate(reg)], [x["RPOSITION"] for x in reg], expected)


def components(ne, nbrs):
    comp = np.full(ne, -1)
    c = 0
    for s in range(ne):
        if comp[s] < 0:
            stack = [s]
            comp[s] = c
            while stack:
                for y in nbrs[stack.pop()]:
                    if y >= 0 and comp[y] < 0:
                        comp[y] = c
                        stack.append(y)
            c += 1
    return comp


def write(m, case, d):
    if case["format"] == "ansys":
        text, extra = ansys_import.build(m, case["ansys"])
        m.eregions.update(extra)
        with open(os.path.join(d, "m.cdb"), "wb") as f:
            f.write(text.encode())
        return "m.cdb"
    parts = parts_of(m, case)
    if case["format"] == "vtk":
        for name, c, b, pts in parts:
            F.vtk(os.path.join(d, "m.%s.vtk" % name), c, b, pts, style=case["style"])
        return "m.*.vtk"
    F.ensight_case(os.path.join(d, "m.case"), "m.geo")
    (F.ensight_binary if case["binary"] else F.ensight_ascii)(os.path.join(d, "m.geo"), parts, case["nid"], case["eid"])
    return "m.case"


def check(case, ctx):
    m = I.assign(M.make(case["mesh"]), case["reg"])
    path = write(m, case, ctx.dir)
    np_ = max(1, min(case["np"], m.ne // 2))
    domains = max(1, min(case["domains"], m.ne // (4 * np_)))
    comm = case["comm"] if np_ > 1 else 0
    if case["ecf"]:
        with open(os.path.join(ctx.dir, "espreso.ecf"), "w") as f:
            f.write("INPUT { LOADER %s; STRIPE_SIZE %d; }\n" % (case["ecf"]["loader"], case["ecf"]["stripe"]))
    r = ctx.run(EXE, [str(FORMAT[case["format"]]), path, str(DECOMPOSER[case["decomposer"]]), str(domains), str(comm)], np=np_ + (comm == 2), threads=case["threads"])
    if r.rc:
        t = r.out + r.err
        if m.ne <= 20 * np_ and ("process without any elements detected" in t or "PARMETIS_ERROR while" in t):
            raise Inconclusive("rejected: too few elements for the number of ranks")
        raise Violation("the program failed with exit code %s:\n%s\n%s" % (r.rc, r.out[-1200:], r.err[-1200:]))
    n = verify(m, [read(os.path.join(ctx.dir, "api.%d" % i)) for i in range(np_)], case)
    return {"nontrivial": I.nontrivial(m, case) and (np_ > 1 or n > 1), "np": np_, "format": case["format"], "decomposer": case["decomposer"], "domains": min(n, 8), "comm": comm, "quadratic": case["mesh"]["quadratic"]}
