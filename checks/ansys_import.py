"""ANSYS CDB import."""
import os
import numpy as np
from hypothesis import strategies as st
from vlib import mesh as M, outputs as O, impcheck as I

PARAMS = {"quick": {"seconds": 60, "shrink": 60}, "thorough": {"seconds": 600, "shrink": 60}}
RULE = ("A case is a generated conforming 3D mesh with element, boundary and node regions, written as an ANSYS CDB file with generated element types (degenerated 8 and 20 node solids, 4 and 10 node tetrahedra, contact elements to be ignored), "
        "widths of fields, line ends, ids with gaps, blocks, components (lists and ranges) and selections by type and material, and converted with random rank, thread, loader, stripe and decomposer settings. "
        "Oracle: the generated mesh. Non-trivial: >= 4 elements and >= 2 named regions. Files above 32 KB are split over ranks.")


@st.composite
def strategy_(draw, tier):
    return {"mesh": draw(I.mesh_params(big={"percent": 15, "n3": (9, 12), "n2": (30, 40)})), "reg": draw(I.region_params()), "run": draw(I.run_params()),
            "crlf": draw(st.booleans()), "lower": draw(st.booleans()), "nfmt": draw(st.sampled_from([[3, 8, 6, 16, "16.9"], [3, 9, 6, 21, "21.13"], [1, 9, 3, 20, "20.9"], [3, 8, 6, 20, "20.13"]])), "zeros": draw(st.booleans()),
            "efmt": draw(st.sampled_from([8, 9, 10])), "cfmt": draw(st.sampled_from([[8, 10], [8, 10], [10, 8], [3, 9]])), "gap": draw(st.sampled_from([0, 0, 1, 3, 100])), "idseed": draw(st.integers(0, 5)), "ranges": draw(st.booleans()),
            "types": draw(st.integers(0, 5)), "mats": draw(st.integers(1, 3)), "eblocks": draw(st.sampled_from([1, 1, 2, 3])), "nblocks": draw(st.sampled_from([1, 1, 2])), "contact": draw(st.sampled_from([0, 0, 0, 1, 5])),
            "sel": draw(st.lists(st.tuples(st.sampled_from(["TYPE", "MAT"]), st.integers(1, 4), st.integers(0, 2), st.booleans()), max_size=2)), "noise": draw(st.booleans()),
            "pilot": draw(st.sampled_from([0, 0, 1, 2])), "etgap": draw(st.sampled_from([0, 0, 0, 1]))}


def strategy(tier):
    return strategy_(tier)


SOLID20 = {  # order of the nodes of a degenerated 20 node solid in terms of the nodes of the element
    "hexa20": list(range(20)),
    "prism15": [0, 1, 2, 2, 3, 4, 5, 5, 6, 7, 2, 8, 9, 10, 5, 11, 12, 13, 14, 14],
    "tetra10": [0, 1, 2, 2, 3, 3, 3, 3, 4, 5, 2, 6, 3, 3, 3, 3, 7, 8, 9, 9],
    "pyra13": [0, 1, 2, 3, 4, 4, 4, 4, 5, 6, 7, 8, 4, 4, 4, 4, 9, 10, 11, 12],
}
SOLID8 = {"hexa8": list(range(8)), "prism6": [0, 1, 2, 2, 3, 4, 5, 5], "tetra4": [0, 1, 2, 2, 3, 3, 3, 3], "pyra5": [0, 1, 2, 3, 4, 4, 4, 4]}
BOUNDARY = {"quad4": list(range(4)), "tria3": [0, 1, 2, 2], "quad8": list(range(8)), "tria6": [0, 1, 2, 2, 3, 4, 2, 5], "line2": [0, 1], "line3": [0, 1, 2]}


def build(m, case):
    """text of the file and the additional element regions."""
    nl = "\r\n" if case["crlf"] else "\n"
    kw = (lambda s: s.lower()) if case["lower"] else (lambda s: s)
    rnd = np.random.RandomState(case["idseed"] + 1)
    out = []
    noise = lambda *l: out.extend(l) if case["noise"] else None
    nn = len(m.coords)
    nid = 1 + np.arange(nn) + case["gap"] * (np.arange(nn) // 7)
    if case["idseed"]:
        nid = nid[rnd.permutation(nn)]
    coords = m.coords
    pilot = case["pilot"] if case["contact"] else 0
    if pilot:  # nodes of contact elements only
        nid = np.concatenate([nid, nid.max() + np.array([1, 5])])
        coords = np.vstack([coords, coords.mean(axis=0), coords.max(axis=0) + 1])
    m.nid = nid
    noise("/COM,ANSYS RELEASE", "/PREP7", "/NOPR", "/TITLE,mesh", "! comment, n")
    nb = sum(len(c) for b in m.bregions.values() for _, c in b)
    total = m.ne + nb + case["contact"]
    eid = 1 + np.arange(total) + case["gap"] * (np.arange(total) // 5)
    if case["idseed"] % 2:
        eid = eid[rnd.permutation(total)]
    elements = m.elements()
    # element types
    ets, etof = [], []
    cand = {"tetra4": [185, 285, 45, 70], "tetra10": [186, 187, 87, 90], "hexa8": [185, 45, 70], "prism6": [185, 45], "pyra5": [185, 278], "hexa20": [186, 90], "prism15": [186, 279], "pyra13": [186, 90]}
    mat = 1 + rnd.randint(0, case["mats"], m.ne)
    for i, (t, row) in enumerate(elements):
        a = cand[t][(case["types"] + (i * case["types"]) // 7) % len(cand[t])]
        if a not in ets:
            ets.append(a)
        etof.append(ets.index(a) + 1)
    if case["contact"]:
        ets += [170]
    tid = [1 + i + 3 * case["etgap"] * i for i in range(len(ets))]
    for i, a in reversed(list(enumerate(ets))) if case["etgap"] else enumerate(ets):
        out.append(kw("ET,") + "%d,%d" % (tid[i], a))
        noise("KEYOPT,%d,1,2" % tid[i])
    # nodes
    ns, nw, vs, vw, vf = case["nfmt"]
    order = rnd.permutation(len(nid)) if case["idseed"] > 2 else np.arange(len(nid))
    for part in np.array_split(order, case["nblocks"]):
        out.append(kw("NBLOCK") + (",%d,SOLID,%9d,%9d" % (vs, nid.max(), len(part)) if ns == 3 else ",%d" % vs))
        out.append("(%di%d,%de%s)" % (ns, nw, vs, vf))
        for i in part:
            x = list(coords[i])
            if case["zeros"]:
                while x and x[-1] == 0:
                    x.pop()
            out.append("%*d" % (nw, nid[i]) + ("%*d" % (nw, 0)) * (ns - 1) + "".join(("%" + vf + "E") % v for v in x))
        out.append(kw("N,") + "R5.3,LOC,       -1,")
    noise("TYPE,1", "MAT,1")
    # elements
    w = case["efmt"]
    f = lambda v: "%*d" % (w, v)
    lines = []
    for i, (t, row) in enumerate(elements):
        a = ets[etof[i] - 1]
        n = nid[row]
        if a in (285, 187, 87):
            n = list(n)
        elif t in SOLID20:
            n = [n[k] for k in SOLID20[t]]
        else:
            n = [n[k] for k in SOLID8[t]]
        l = "".join(f(v) for v in [mat[i], tid[etof[i] - 1], 1, 1, 0, 0, 0, 0, len(n), 0, eid[i]] + list(n[:8]))
        lines.append((l,) if len(n) <= 8 else (l, "".join(f(v) for v in n[8:])))
    for k in range(case["contact"]):
        n = nid[rnd.randint(0, nn, 4)]
        if pilot:
            n[k % 4] = nid[-1 - k % 2]
        lines.append(("".join(f(v) for v in [50, tid[-1], 1, 1, 0, 0, 0, 0, 4, 0, eid[m.ne + nb + k]] + list(n)),))
    perm = rnd.permutation(len(lines)) if case["idseed"] > 3 else np.arange(len(lines))
    for part in np.array_split(perm, case["eblocks"]):
        if not len(part):
            continue
        out.append(kw("EBLOCK") + ",19,SOLID,%9d,%9d" % (eid.max(), len(part)))
        out.append("(19i%d)" % w)
        for i in part:
            out += list(lines[i])
        out.append("%*d" % (w, -1) if case["types"] % 2 else "-1")
        noise("/WB,elem,end")
    off = m.ne
    comps = []
    for name, ids in m.eregions.items():
        comps.append((name, "ELEM" if case["types"] % 2 else "ELEMENT", eid[np.asarray(ids)]))
    for name, bl in m.bregions.items():
        k = off
        out.append(kw("EBLOCK") + ",%d,,,%d" % (13, sum(len(c) for _, c in bl)))
        out.append("(15i%d)" % w)
        for t, c in bl:
            for row in c:
                n = nid[row]
                out.append("".join(f(v) for v in [eid[off], 1, 1, 50, 0] + [n[j] for j in BOUNDARY[t]]))
                off += 1
        out.append("-1")
        comps.append((name, "ELEM", eid[k:off]))
    for name, ids in m.nregions.items():
        comps.append((name, "NODE", nid[np.asarray(list(ids) + ([len(nid) - 1] if pilot == 2 else []))]))
    cs, cw = case["cfmt"]
    for name, kind, ids in comps:
        ids = np.unique(ids)
        items = []
        i = 0
        while i < len(ids):
            j = i
            while case["ranges"] and j + 1 < len(ids) and ids[j + 1] == ids[j] + 1:
                j += 1
            items.append(int(ids[i]))
            if j > i:
                items.append(-int(ids[j]))
            i = j + 1
        out.append(kw("CMBLOCK") + ",%s,%s,%8d" % (name.ljust(8) if case["noise"] else name, kind, len(items)))
        out.append("(%di%d)" % (cs, cw))
        out += ["".join("%*d" % (cw, v) for v in items[i:i + cs]) for i in range(0, len(items), cs)]
    extra = {}
    arr = {"TYPE": np.array([tid[k - 1] for k in etof]), "MAT": mat}
    for k, (what, a, n, add) in enumerate(case["sel"]):
        if what == "TYPE":  # regions of contact elements are not interpreted
            top = tid[len(ets) - 1 - (case["contact"] > 0)]
            a = min(a, top)
            n = min(n, top - a)
        sel = (arr[what] >= a) & (arr[what] <= a + n)
        out.append(kw("ESEL,") + "S,%s,,%d%s" % (what, a, ",%d" % (a + n) if n else ""))
        if add:
            other = "MAT" if what == "TYPE" else "TYPE"
            out.append(kw("ESEL,") + "A,%s,,1" % other)
            sel |= arr[other] == 1
        out.append(kw("CM,") + "SEL%d,ELEM" % k)
        if case["noise"]:
            out.append(kw("ESEL,") + "ALL")
        if sel.any():
            extra["SEL%d" % k] = np.nonzero(sel)[0]
    noise("/GO", "FINISH")
    return nl.join(out) + nl, extra


def check(case, ctx):
    m = I.assign(M.make(case["mesh"]), case["reg"])
    run = I.eff_run(case["run"], m.ne)
    text, extra = build(m, case)
    m.eregions.update(extra)
    with open(os.path.join(ctx.dir, "m.cdb"), "wb") as f:
        f.write(text.encode())
    r = I.run_mesio(ctx, I.input_ecf("ANSYS_CDB", "m.cdb", run, dim=m.dim), run, ne=m.ne)
    I.compare(m, O.EnSight(ctx.dir, "x"), O.stats(r.out))
    return {"nontrivial": I.nontrivial(m, case["run"]), "np": run["np"], "crlf": case["crlf"], "split": len(text) > 32768 and run["np"] > 1, "quadratic": case["mesh"]["quadratic"], "ranges": case["ranges"], "sel": len(extra) > 0}
