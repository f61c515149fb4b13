"""Two-dimensional heat transfer and elasticity on generated grids against an independent finite element solution."""
import os
import re
import shutil
import numpy as np
from hypothesis import strategies as st
from vlib import mesh as M, outputs as O, physics as P, fem
from vlib.core import Violation, Inconclusive
from checks import generator as GEN, heat_steady as H, struct_steady as S

PARAMS = {"quick": {"seconds": 80, "shrink": 60}, "thorough": {"seconds": 900, "shrink": 90}}
RULE = ("A case is a 2D grid of the internal generator (every plane element type, projected or not, several clusters and domains) with one or two element regions and either heat transfer (all conductivity models, rotated and "
        "cylindrical coordinate systems, thickness, heat source, heat flux and flow, prescribed temperature) or elasticity (plane strain, plane stress with and without thickness, axisymmetric; acceleration, angular velocity, "
        "normal pressure, prescribed displacement), solved directly or by FETI. Oracle: an independent numpy/scipy finite element solution on the stored mesh; temperature, gradient and flux or displacement, reactions, stress and "
        "strain are compared. Non-trivial: >= 4 elements and a non-constant solution.")

BEH = ["PLANE_STRAIN", "PLANE_STRESS", "PLANE_STRESS_WITH_THICKNESS", "AXISYMMETRIC"]
PROJS = ["", "", "shear", "scale", "curve"]


def flat(e):
    return e.replace("COORDINATE_Z", "COORDINATE_X")


@st.composite
def hmat(draw):
    m = {"model": draw(st.sampled_from(H.MODELS)), "cs": {}}
    pos = P.positive(time=True)
    k = {"KXX": flat(draw(pos))}
    if m["model"] == "DIAGONAL":
        k["KYY"] = flat(draw(pos))
    if m["model"] in ("SYMMETRIC", "ANISOTROPIC"):
        k["KXX"], k["KYY"] = (str(draw(st.integers(10, 40))) for _ in range(2))
        k["KXY"] = draw(st.sampled_from(["3", "-4", "5 * sin(COORDINATE_Y)", "2 + TIME"]))
    if m["model"] == "ANISOTROPIC":
        k["KYX"] = str(draw(st.integers(-4, 4)))
    m["k"] = k
    t = draw(st.sampled_from(["", "", "CARTESIAN", "CYLINDRICAL"]))
    if t == "CARTESIAN":
        m["cs"] = {"TYPE": t, "ROTATION": {"Z": draw(st.sampled_from(["30", "-45", "90", "200", "10 * COORDINATE_X", "10 + 30 * TIME"]))}}
    elif t:
        m["cs"] = {"TYPE": t, "CENTER": {d: draw(st.sampled_from(["0", "0.3", "-2", "7"])) for d in draw(st.sampled_from(["XY", "X", "Y"]))}}
    return m


@st.composite
def smat(draw):
    m = {"EX": draw(st.sampled_from(["1e5", "2e5", "1e5 * (2 + sin(COORDINATE_X))", "1e5 * (1 + abs(COORDINATE_Y))", "1e5 * (1 + TIME)"]))}
    m["MIXY"] = draw(st.sampled_from(["0", "0.1", "0.3", "0.3", "0.45", "0.2 + 0.1 * sin(COORDINATE_X)", "0.3 / (1 + TIME)"]))
    m["DENS"] = flat(draw(P.positive(time=True, lo=1, hi=20)))
    return m


def sc(draw, lo=-100, hi=100):
    return flat(draw(P.scalar(lo=lo, hi=hi, time=True)))


@st.composite
def strategy_(draw, tier):
    g = draw(GEN.grid(2, draw(st.sampled_from([1, 1, 1, 2, 2, 4]))))
    nreg = draw(st.sampled_from([1, 1, 2]))
    case = {"grid": g, "proj": draw(st.sampled_from(PROJS)), "nreg": nreg, "cut": draw(st.integers(1, 30)), "axis": draw(st.integers(0, 1)), "kind": draw(st.sampled_from(["heat", "struct"])),
            "solver": draw(st.sampled_from(["MKLPDSS", "FETI"])), "threads": draw(st.sampled_from([1, 1, 2, 3])), "time": draw(st.sampled_from([1, 1, 2, 0.5])), "dirkind": draw(st.sampled_from(["EDGES", "NODES"]))}
    thick = st.sampled_from(["1", "2", "0.5", "0.01", "1 + 0.2 * COORDINATE_X * COORDINATE_X", "2 + sin(COORDINATE_Y)"])
    case["thick"] = draw(st.sampled_from([{}, {"ALL": None}, {"ALL": None}, {"E0": None, "ALL": None}]))
    case["thick"] = {k: draw(thick) for k in case["thick"]}
    reg = st.sampled_from(["ALL", "E0", "E%d" % (nreg - 1)])
    case["bc"] = {}
    if case["kind"] == "heat":
        case["mat"] = [draw(hmat()) for _ in range(draw(st.integers(1, nreg)))]
        case["source"] = {draw(reg): sc(draw) for _ in range(draw(st.integers(0, 2)))}
        case["adv"] = {draw(reg): [sc(draw, -5, 5), sc(draw, -5, 5)]} if draw(st.integers(0, 5)) == 0 else {}
        case["rho"] = [str(draw(st.sampled_from([1, 2, 0.5]))), str(draw(st.sampled_from([1, 3, 0.25])))] if case["adv"] else ["", ""]
        for i in draw(st.lists(st.integers(1, 3), max_size=2, unique=True)):
            case["bc"][str(i)] = {draw(st.sampled_from(["HEAT_FLUX", "HEAT_FLOW"])): sc(draw)}
        case["T"] = [sc(draw), sc(draw) if draw(st.booleans()) else ""]
    else:
        case["behaviour"] = draw(st.sampled_from(BEH))
        case["mat"] = [draw(smat()) for _ in range(draw(st.integers(1, nreg)))]
        case["acc"] = {draw(reg): {c: sc(draw) for c in draw(st.sampled_from(["XY", "X", "Y"]))} for _ in range(draw(st.integers(0, 2)))}
        case["ang"] = {draw(reg): {"Y" if case["behaviour"] == "AXISYMMETRIC" else "Z": sc(draw, -5, 5)} for _ in range(draw(st.sampled_from([0, 0, 1])))}
        for i in draw(st.lists(st.integers(1, 3), max_size=2, unique=True)):
            k = draw(st.sampled_from(["NORMAL_PRESSURE", "NORMAL_PRESSURE", "PRESSURE"]))
            case["bc"][str(i)] = {k: sc(draw) if k == "NORMAL_PRESSURE" else {"PRESSURE": sc(draw), "DIRECTION": {c: sc(draw, -3, 3) for c in "XY"}}}
        case["fix"] = draw(st.sampled_from(["full", "full", "rollers"]))
        case["U"] = [{c: "0.001 * (%s)" % sc(draw) for c in "XY"} for _ in range(2)]
        case["stress"] = draw(st.booleans())
    return case


def strategy(tier):
    return strategy_(tier)


def grid_of(case):
    p = dict(case["grid"])
    if case["kind"] == "struct" and case["behaviour"] == "AXISYMMETRIC":
        p["start"] = [abs(p["start"][0]) + 0.5, p["start"][1]]
    return GEN.G(p, 2, np.zeros(3))


def regions(case, g):
    iv = [(g.origin[i], g.origin[i] + g.full[i], False, False) if i < 2 else (0.0, 0.0, False, False) for i in range(3)]
    out = []
    a, n = case["axis"], g.cells[case["axis"]]
    if case["nreg"] == 1 or n < 2:
        out.append(("ELEMENTS", "E0", iv))
    else:
        k = 1 + case["cut"] % (n - 1)
        x = g.origin[a] + k * g.h[a]
        for j, (lo, hi) in enumerate(((iv[a][0], x), (x, iv[a][1]))):
            v = list(iv)
            v[a] = (lo - 1e-3 * g.h[a], hi + 1e-3 * g.h[a], False, False)
            out.append(("ELEMENTS", "E%d" % j, v))

    def side(i):
        v = list(iv)
        w = g.origin[i // 2] + (i % 2) * g.full[i // 2]
        v[i // 2] = (w, w, False, False)
        return v
    for i in case["bc"]:
        out.append(("EDGES", "F" + i, side(int(i))))
    return out, side


def fixed_regions(case):
    """[(region, side, {component or "": expression})]"""
    if case["kind"] == "heat":
        # the second side shares a corner with no other: opposite sides only
        return [("D%d" % i, i, {"": e}) for i, e in enumerate(case["T"]) if e]
    if case["fix"] == "full":
        return [("D0", 0, case["U"][0])]
    return [("D0", 0, {"X": case["U"][0]["X"]}), ("D1", 2, {"Y": case["U"][1]["Y"]})]


def vec(v):
    return "{ %s }" % " ".join("%s %s;" % kv for kv in v.items())


def elem(d, names, f=lambda v: "%s;" % v):
    return " ".join("%s %s" % ("ALL_ELEMENTS" if k == "ALL" else k, f(v)) for k, v in d.items() if k == "ALL" or k in names)


def ecf(case, g, regs, fixed, run):
    names = [r[1] for r in regs if r[0] == "ELEMENTS"]
    ms = case["mat"]
    lc = []
    if case["kind"] == "heat":
        phys, beh = "HEAT_TRANSFER", "INITIAL_TEMPERATURE { ALL_ELEMENTS 0; }"
        mats = [H.ecf_material(i + 1, x, case["rho"]) for i, x in enumerate(ms)]
        lc.append("TEMPERATURE { %s }" % " ".join("%s %s;" % (n, v[""]) for n, _, v in fixed))
        if elem(case["source"], names):
            lc.append("HEAT_SOURCE { %s }" % elem(case["source"], names))
        if elem(case["adv"], names):
            lc.append("TRANSLATION_MOTIONS { %s }" % elem(case["adv"], names, lambda v: "{ X %s; Y %s; }" % tuple(v)))
        kinds = ("HEAT_FLUX", "HEAT_FLOW")
        sel = "ALL;"
    else:
        phys, beh = "STRUCTURAL_MECHANICS", "ELEMENT_BEHAVIOUR %s;" % case["behaviour"]
        mats = [S.ecf_material(i + 1, x) for i, x in enumerate(ms)]
        lc.append("DISPLACEMENT { %s }" % " ".join("%s %s" % (n, vec(v)) for n, _, v in fixed))
        for kw, d in (("ACCELERATION", case["acc"]), ("ANGULAR_VELOCITY", case["ang"])):
            if elem(d, names):
                lc.append("%s { %s }" % (kw, elem(d, names, vec)))
        kinds = ("NORMAL_PRESSURE", "PRESSURE")
        sel = "USER; RESULTS_SELECTION { DISPLACEMENT TRUE; REACTIONS TRUE; STRESS %s; }" % ("TRUE" if stress(case) else "FALSE")
    th = elem(thickness(case), names)
    if th:
        beh += " THICKNESS { %s }" % th
    for k in kinds:
        o = []
        for n, b in case["bc"].items():
            if k in b:
                o.append("F%s %s" % (n, "{ PRESSURE %s; DIRECTION %s }" % (b[k]["PRESSURE"], vec(b[k]["DIRECTION"])) if k == "PRESSURE" else b[k] + ";"))
        if o:
            lc.append("%s { %s }" % (k, " ".join(o)))
    return """INPUT_TYPE GENERATOR;
GENERATOR { SHAPE GRID; GRID {
%s
} }
PHYSICS %s;
%s {
  LOAD_STEPS 1;
  MATERIALS { %s }
  MATERIAL_SET { %s }
  %s
  LOAD_STEPS_SETTINGS {
    1 {
      DURATION_TIME %s; TYPE STEADY_STATE; MODE LINEAR;
      %s
      %s
    }
  }
}
OUTPUT { PATH results; FORMAT ENSIGHT; RESULTS_STORE_FREQUENCY EVERY_SUBSTEP; STORE_RESULTS %s }
""" % (g.ecf([(k, n, GEN.interval(iv)) for k, n, iv in regs], case["proj"], 1, []), phys, phys, "\n".join(mats), " ".join("%s %d;" % (n, i % len(ms) + 1) for i, n in enumerate(names)), beh, case["time"],
       P.ecf_solver(run), "\n      ".join(lc), sel)


def stress(case):
    return case["stress"] and case["behaviour"] != "AXISYMMETRIC"


def thickness(case):
    if case["kind"] == "struct" and case["behaviour"] != "PLANE_STRESS_WITH_THICKNESS":
        return {}
    d = case["thick"]
    if case["bc"] and len(d) > 1:
        d = {"ALL": d["ALL"]}   # a jump of thickness in nodes of a loaded edge has no unique value
    return d or ({"ALL": "1"} if case["kind"] == "struct" else {})


def stored_mesh(ens, names):
    """(Mesh, label of elements, {region: blocks}, {region: nodes}) of the stored parts"""
    parts = {p["name"]: p for p in ens.parts}
    for n in names:
        if n not in parts:
            raise Violation("region %s is not stored" % n)
    x = np.vstack([parts[n]["coords"] for n in names]).astype(float)
    coords = np.unique(x, axis=0)
    loc = M.Locator(coords)
    blocks, lab = {}, {}
    for i, n in enumerate(names):
        _, bl = ens.region(parts[n], loc)
        for t, c in bl:
            blocks.setdefault(t, []).append(c)
            lab.setdefault(t, []).append(np.full(len(c), i))
    bl = [(t, np.vstack(blocks[t])) for t in blocks]
    m = M.Mesh(2, coords, bl)
    return m, np.concatenate([np.concatenate(lab[t]) for t in blocks]), loc, parts


def edges(m, ens, part, loc):
    """boundary lines of the mesh (outward oriented) that the region holds"""
    _, bl = ens.region(part, loc)
    want = {tuple(sorted(r)) for _, c in bl for r in c[:, :2].tolist()}
    out = []
    for t, c in m.boundary_faces():
        s = np.array([tuple(sorted(r)) in want for r in c[:, :2].tolist()])
        if s.any():
            out.append((t, c[s]))
    if sum(len(c) for _, c in out) != len(want):
        raise Violation("region %s holds lines that are not on the boundary" % part["name"])
    return out


def region_value(d, i):
    return d.get("E%d" % i, d.get("ALL"))


def gp_thickness(case, b, l, coords, t):
    """nodal values interpolated to integration points"""
    th = np.ones(b.xg.shape[:2])
    d = thickness(case)
    for i in np.unique(l) if len(l) else []:
        e = region_value(d, i)
        if e is not None:
            s = l == i
            v = P.ev(e, coords[b.conn[s]], t)
            th[s] = np.einsum("gn,en->eg", b.N, v)
    return th


def heat_system(case, m, lab, lines):
    t, n = case["time"], len(m.coords)
    X2 = m.coords[:, :2]
    Ki, fi, keep, off = [], [], [], 0
    for et, c in m.blocks:
        b = fem.Block("heat", et, c, X2, 2)
        l = lab[off:off + len(c)]
        off += len(c)
        th = gp_thickness(case, b, l, X2, t)
        A = np.zeros(b.xg.shape[:2] + (2, 2))
        src = np.zeros(b.xg.shape[:2])
        u = np.zeros(b.xg.shape)
        for i in np.unique(l):
            s = l == i
            mt = case["mat"][i % len(case["mat"])]
            m3 = dict(mt, k=dict({"KYY": "1", "KZZ": "1", "KXY": "0", "KXZ": "0", "KYZ": "0", "KYX": "0", "KZX": "0", "KZY": "0"}, **mt["k"]))
            A[s] = H.tensor(m3, np.concatenate([b.xg[s], np.zeros(b.xg[s].shape[:2] + (1,))], axis=2), t)[..., :2, :2]
            e = region_value(case["source"], i)
            if e is not None:
                src[s] = P.ev(e, b.xg[s], t)
            e = region_value(case["adv"], i)
            if e is not None:
                u[s] = np.stack([P.ev(x, b.xg[s], t) for x in e], axis=-1) * float(case["rho"][0]) * float(case["rho"][1])
        K = np.einsum("egnd,egdk,egmk,eg,eg->enm", b.dND, A, b.dND, b.dV, th)
        if case["adv"]:
            be = np.einsum("egd,egnd->egn", u, b.dND)
            un, bn = np.linalg.norm(u, axis=2), np.linalg.norm(be, axis=2)
            with np.errstate(divide="ignore", invalid="ignore"):
                he = np.where(bn > 0, 2 * un / bn, 0)
                Pe = np.where(un > 0, 2 * A[..., 0, 0] * (bn / (2 * un)) / un, 0)
                tau = np.where(un > 0, 0.5 * he * np.maximum(0, 1 - Pe) / un, 0)
            K = K + np.einsum("egn,egm,eg,eg->enm", b.N[None] + tau[..., None] * be, be, b.dV, th)
        Ki.append((c, K))
        fi.append((c, np.einsum("gn,eg,eg,eg->en", b.N, src, b.dV, th)))
        keep.append((b, A))
    for name, bc in case["bc"].items():
        bl = [fem.Block("heat", et, c, X2, 2) for et, c in lines["F" + name]]
        ths = [gp_thickness(case, b, np.zeros(len(b.conn), int), X2, t) for b in bl]
        length = sum(b.dV.sum() for b in bl)
        for b, th in zip(bl, ths):
            q = np.zeros(b.xg.shape[:2])
            for kind, e in bc.items():
                q = q + P.ev(e, b.xg, t) * (1.0 / length if kind == "HEAT_FLOW" else th)
            fi.append((b.conn, np.einsum("gn,eg,eg->en", b.N, q, b.dV)))
    return fem.assemble(n, Ki), fem.scatter(n, fi), keep


def struct_system(case, m, lab, lines):
    t, n, beh = case["time"], len(m.coords), case["behaviour"]
    X2 = m.coords[:, :2]
    axi = beh == "AXISYMMETRIC"
    Ki, fi, keep, off = [], [], [], 0

    def v2(v, x):
        return np.stack([P.ev(v.get(c, "0"), x, t) for c in "XY"], axis=-1)
    for et, c in m.blocks:
        b = fem.Block("struct", et, c, X2, 2)
        l = lab[off:off + len(c)]
        off += len(c)
        E, nu, rho = S.gp_material(case["mat"], l, b.xg, t)
        w = b.dV * (2 * np.pi * b.xg[..., 0] if axi else gp_thickness(case, b, l, X2, t))
        e, g, k, _ = b.dND.shape
        C3 = S.cmat(E, nu)
        if axi:
            C = C3[..., [0, 1, 2, 3], :][..., [0, 1, 2, 3]]
        elif beh == "PLANE_STRAIN":
            C = C3[..., [0, 1, 3], :][..., [0, 1, 3]]
        else:
            C = np.zeros(E.shape + (3, 3))
            C[..., 0, 0] = C[..., 1, 1] = E / (1 - nu ** 2)
            C[..., 0, 1] = C[..., 1, 0] = nu * E / (1 - nu ** 2)
            C[..., 2, 2] = E / (2 * (1 + nu))
        B = np.zeros((e, g, 4 if axi else 3, k, 2))
        B[:, :, 0, :, 0] = b.dND[..., 0]
        B[:, :, 1, :, 1] = b.dND[..., 1]
        B[:, :, -1, :, 0], B[:, :, -1, :, 1] = b.dND[..., 1], b.dND[..., 0]
        if axi:
            B[:, :, 2, :, 0] = b.N[None] / b.xg[..., 0][..., None]
        B = B.reshape(e, g, -1, k * 2)
        Ki.append((c, np.einsum("egia,egij,egjb,eg->eab", B, C, B, w, optimize=True)))
        q = np.zeros(b.xg.shape)
        for i in np.unique(l):
            s = l == i
            v = region_value(case["acc"], i)
            if v is not None:
                q[s] += rho[s][..., None] * v2(v, b.xg[s]) * (np.array([0.0, 1.0]) if axi else 1.0)
            v = region_value(case["ang"], i)
            if v is not None:
                o2 = P.ev(list(v.values())[0], b.xg[s], t) ** 2
                q[s] += (rho[s] * o2)[..., None] * b.xg[s] * (np.array([1.0, 0.0]) if axi else 1.0)
        fi.append((c, np.einsum("gn,egd,eg->end", b.N, q, w)))
        keep.append((b, C, nu))
    for name, bc in case["bc"].items():
        for et, c in lines["F" + name]:
            b = fem.Block("struct", et, c, X2, 2)
            w = b.dV * (2 * np.pi * b.xg[..., 0] if axi else gp_thickness(case, b, np.zeros(len(c), int), X2, t))
            for kind, v in bc.items():
                if kind == "NORMAL_PRESSURE":
                    q = -P.ev(v, b.xg, t)[..., None] * b.normal
                else:
                    q = P.ev(v["PRESSURE"], b.xg, t)[..., None] * v2(v["DIRECTION"], b.xg)
                fi.append((c, np.einsum("gn,egd,eg->end", b.N, q, w)))
    return fem.assemble(n, Ki, 2), fem.scatter(n, fi, 2), keep


def check(case, ctx):
    try:
        return solve(case, ctx)[0]
    except Violation as e:
        # FETI stops relatively to the initial residual: a solution known in advance (a constant, a rigid body motion) cannot be improved
        if "FETI SOLVER ERROR" not in str(e) or not re.search("INVALID INPUT DATA|MAXIMUM ITERATIONS REACHED|NONDECREASING CONVERGENCE", str(e)):
            raise
        gr = case["grid"]
        one = dict(gr, domains=[a * b * c for a, b, c in zip(gr["domains"], gr["clusters"], gr["blocks"])], clusters=[1, 1], blocks=[1, 1])
        shutil.rmtree(os.path.join(ctx.dir, "results"), ignore_errors=True)
        if solve(dict(case, grid=one, solver="MKLPDSS"), ctx)[1]:
            raise Inconclusive("trivial solution: nothing to solve for a relative stopping criterion")
        raise e


def solve(case, ctx):
    """(labels, the solution is trivial)"""
    g = grid_of(case)
    regs, side = regions(case, g)
    fixed = fixed_regions(case)
    regs += [(case["dirkind"], n, side(i)) for n, i, _ in fixed]
    ne = int(np.prod(g.cells))
    if ne > 600 or ne < g.ranks * 2:
        raise Inconclusive("size of the mesh")
    run = {"np": g.ranks, "threads": case["threads"], "solver": case["solver"] if g.ranks == 1 else "FETI"}
    heat = case["kind"] == "heat"
    if heat and (case["adv"] or any(x["model"] == "ANISOTROPIC" for x in case["mat"])):
        if g.ranks > 1:
            raise Inconclusive("unsymmetric system")
        run["solver"] = "MKLPDSS"
    P.run_solver(ctx, ecf(case, g, regs, fixed, run), run, ne)
    ens = O.EnSight(ctx.dir, "x")
    names = [r[1] for r in regs if r[0] == "ELEMENTS"]
    m, lab, loc, parts = stored_mesh(ens, names)
    lines = {n: edges(m, ens, parts[n], loc) for k, n, _ in regs if k == "EDGES"}
    t, X2 = case["time"], m.coords[:, :2]
    dofs = 1 if heat else 2
    fx, val = [], []
    for n, i, comp in fixed:
        nodes = np.unique(loc.find(parts[n]["coords"]))
        for c, e in comp.items():
            fx.append(nodes * dofs + (0 if heat else "XY".index(c)))
            val.append(P.ev(e, X2[nodes], t))
    fx, val = np.concatenate(fx), np.concatenate(val)
    if len(np.unique(fx)) != len(fx):
        raise Inconclusive("two values are prescribed in a node")
    K, f, keep = (heat_system if heat else struct_system)(case, m, lab, lines)
    u = fem.solve(K, f, fx, val)
    feti = run["solver"] == "FETI"
    tol = 1e-4 if feti else 3e-5
    if not np.isfinite(u).all() or np.abs(u).max() > (1e7 if heat else 2 if stress(case) else 1e3):
        raise Inconclusive("ill-conditioned problem")
    if heat:
        trivial = np.ptp(u) < 1e-3 * max(1e-12, np.abs(u).max())
        G, Q = H.gradients(keep, u)
        P.compare_nodes(ens, "TEMPERATURE", u[:, None], loc, 1, tol)
        P.compare_elements(ens, m, "GRADIENT", G, loc, 1, tol * 5, scale=max(max(np.abs(x).max() for x in G), np.abs(u).max() / 10))
        P.compare_elements(ens, m, "FLUX", Q, loc, 1, tol * 5, scale=max(max(np.abs(x).max() for x in Q), np.abs(u).max()))
        what = "+".join(sorted({x["model"] for x in case["mat"]}))
    else:
        v = u.reshape(-1, 2)
        L = np.ptp(X2, axis=0).max()
        trivial = max(np.abs(np.einsum("eni,egnj->egij", v[b.conn], b.dND) + np.einsum("enj,egni->egij", v[b.conn], b.dND)).max() for b, C, nu in keep) * L < 1e-5 * np.abs(u).max() + 1e-9
        r = (K @ u).reshape(-1, 2)
        P.compare_nodes(ens, "DISPLACEMENT", v, loc, 1, tol * 2)
        P.compare_nodes(ens, "REACTION_FORCES", r, loc, 1, tol * 10, scale=max(np.abs(r).max(), np.abs(K).max() * np.abs(u).max() * 1e-2, 1e-30))
        if stress(case):
            cs, ce = [], []
            for b, C, nu in keep:
                F = np.einsum("eni,egnj->egij", v[b.conn], b.dND) + np.eye(2)
                E = 0.5 * (np.einsum("egki,egkj->egij", F, F) - np.eye(2))
                ve = np.stack([E[..., 0, 0], E[..., 1, 1], 2 * E[..., 0, 1]], axis=-1)
                cs.append(np.einsum("egij,egj->egi", C, ve).mean(axis=1))
                ce.append((ve * [1, 1, 0.5]).mean(axis=1))
            h = min(np.sqrt(b.dV.sum(axis=1).min()) for b, C, nu in keep)
            for nm, ref, big in (("COMPONENT_STRAIN", ce, 1.0), ("COMPONENT_STRESS", cs, max(np.abs(C).max() for b, C, nu in keep))):
                P.compare_elements(ens, m, nm, [np.insert(x, 2, 0, axis=-1) for x in ref], loc, 1, tol * 10, scale=max(max(np.abs(x).max() for x in ref), 1e-3 * np.abs(u).max() / h * big))
        what = case["behaviour"]
    return {"nontrivial": m.ne >= 4 and not trivial, "kind": case["kind"], "what": what, "solver": run["solver"], "np": run["np"], "type": g.type, "proj": case["proj"], "thick": "+".join(sorted(thickness(case))),
            "loads": "+".join(sorted({k for b in case["bc"].values() for k in b})) or "none"}, trivial
