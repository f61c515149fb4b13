"""Steady state linear heat transfer against an independent finite element solution."""
import os
import numpy as np
from hypothesis import strategies as st
from vlib import mesh as M, outputs as O, physics as P, fem
from vlib.core import Violation, Inconclusive

PARAMS = {"quick": {"seconds": 90, "shrink": 60}, "thorough": {"seconds": 900, "shrink": 90}}
RULE = ("A case is a generated 3D mesh (all element types, linear or quadratic, distorted, several element regions) with materials of every conductivity model and coordinate system "
        "(constant or position dependent), heat source, heat flux, heat flow, translation motion and prescribed temperatures, solved with random ranks, threads, domains and linear solver. "
        "Oracle: an independent numpy/scipy finite element solution; temperature, gradient and flux are compared. Non-trivial: >= 4 elements and at least one load or two different temperatures.")

MODELS = ["ISOTROPIC", "DIAGONAL", "SYMMETRIC", "ANISOTROPIC"]


@st.composite
def material(draw, models=MODELS, time=True, coords=True):
    m = {"model": draw(st.sampled_from(models)), "cs": {}}
    pos = P.positive(time=time)
    k = {"KXX": draw(pos)}
    if m["model"] != "ISOTROPIC":
        k["KYY"], k["KZZ"] = draw(pos), draw(pos)
    # off diagonal terms stay below a half of the smallest diagonal, so that the tensor is positive definite
    if m["model"] in ("SYMMETRIC", "ANISOTROPIC"):
        for d in ("KXX", "KYY", "KZZ"):
            k[d] = str(draw(st.integers(10, 40)))
        for d in ("KXY", "KXZ", "KYZ"):
            k[d] = str(draw(st.integers(-3, 3)))
        if draw(st.booleans()):
            k["KXY"] = "%d * sin(COORDINATE_X)" % draw(st.integers(1, 3))
    if m["model"] == "ANISOTROPIC":
        for d in ("KYX", "KZX", "KZY"):
            k[d] = str(draw(st.integers(-3, 3)))
    m["k"] = k
    t = draw(st.sampled_from(["", "CARTESIAN", "CYLINDRICAL", "SPHERICAL"])) if coords else ""
    if t == "CARTESIAN":
        m["cs"] = {"TYPE": t, "ROTATION": {d: str(draw(st.sampled_from([0, 0, 30, 45, 90, -20, 200, "10 * COORDINATE_X", "20 + 30 * TIME", "40 * sin(COORDINATE_Y + COORDINATE_Z)"]))) for d in draw(st.sampled_from(["X", "Y", "Z", "XY", "XYZ"]))}}
    elif t:
        m["cs"] = {"TYPE": t, "CENTER": {d: str(draw(st.sampled_from([0, 0.3, -2, 7, "8 + COORDINATE_Z"]))) for d in draw(st.sampled_from(["XY", "X", "XYZ"] if t == "SPHERICAL" else ["XY", "X", "Y"]))}}
    return m


@st.composite
def strategy_(draw, tier):
    mesh = draw(P.solver_mesh())
    nreg = draw(st.sampled_from([1, 1, 2, 3]))
    case = {"mesh": mesh, "nreg": nreg, "emode": draw(st.sampled_from(["random", "slices"])), "seed": draw(st.integers(0, 20)),
            "run": draw(P.solver_params()), "mat": [draw(material()) for _ in range(draw(st.integers(1, nreg)))],
            "time": draw(st.sampled_from([1, 1, 2, 0.5]))}
    case["source"] = draw(st.dictionaries(st.sampled_from(["ALL"] + ["E%d" % i for i in range(nreg)]), P.scalar(time=True), max_size=2))
    case["adv"] = draw(st.dictionaries(st.sampled_from(["ALL", "E0"]), st.lists(P.scalar(lo=-5, hi=5), min_size=3, max_size=3), max_size=1)) if draw(st.integers(0, 4)) == 0 else {}
    case["rho"] = [str(draw(st.sampled_from([1, 2, 0.5]))), str(draw(st.sampled_from([1, 3, 0.25])))] if case["adv"] else ["", ""]
    case["bc"] = {}
    for i in draw(st.lists(st.integers(1, 5), max_size=3, unique=True)):
        case["bc"]["F%d" % i] = {draw(st.sampled_from(["HEAT_FLUX", "HEAT_FLOW"])): draw(P.scalar(time=True))}
    case["dir"] = draw(st.sampled_from(["face", "node"]))
    case["T"] = [draw(P.scalar(time=True)), draw(P.scalar(time=True)) if draw(st.booleans()) else ""]
    return case


def strategy(tier):
    return strategy_(tier)


def problem(case):
    """mesh with regions E* (elements), F* (faces), D0/D1 (dirichlet)"""
    m = M.make(case["mesh"])
    r = np.random.RandomState(case["seed"] + 1)
    k = min(case["nreg"], m.ne)
    lab = r.randint(0, k, m.ne) if case["emode"] == "random" else (np.arange(m.ne) * k) // m.ne
    lab[:k] = np.arange(k)
    for i in range(k):
        m.eregions["E%d" % i] = np.nonzero(lab == i)[0]
    sides = P.face_regions(m, case["seed"], ["S%d" % i for i in range(6)])
    for n in case["bc"]:
        bl = sides["S" + n[1:]]
        if bl:
            m.bregions[n] = bl
    fixed = {}
    for i, e in enumerate(case["T"]):
        if not e:
            continue
        bl = sides["S%d" % i]
        nodes = P.nodes_of(bl)
        if i == 1:
            nodes = np.setdiff1d(nodes, fixed["D0"])
            if not len(nodes):
                continue
        if case["dir"] == "face" and i == 0:
            m.bregions["D%d" % i] = bl
        else:
            m.nregions["D%d" % i] = nodes
        fixed["D%d" % i] = nodes
    return m, lab, fixed


def tensor(mat, x, time, T=None):
    """conductivity tensor (e,g,3,3) at points x"""
    k = {n: P.ev(v, x, time, T) for n, v in mat["k"].items()}
    z = np.zeros(x.shape[:-1])
    A = np.zeros(x.shape[:-1] + (3, 3))
    mod = mat["model"]
    if mod == "ISOTROPIC":
        for i in range(3):
            A[..., i, i] = k["KXX"]
        return A
    for i, n in enumerate("XYZ"):
        A[..., i, i] = k["K" + n + n]
    if mod in ("SYMMETRIC", "ANISOTROPIC"):
        A[..., 0, 1], A[..., 0, 2], A[..., 1, 2] = k["KXY"], k["KXZ"], k["KYZ"]
        if mod == "SYMMETRIC":
            A[..., 1, 0], A[..., 2, 0], A[..., 2, 1] = k["KXY"], k["KXZ"], k["KYZ"]
        else:
            A[..., 1, 0], A[..., 2, 0], A[..., 2, 1] = k["KYX"], k["KZX"], k["KZY"]
    cs = mat["cs"]
    if not cs:
        return A
    if cs["TYPE"] == "CARTESIAN":
        a = [np.deg2rad(P.ev(cs["ROTATION"].get(d, "0"), x, time)) for d in "XYZ"]
    else:
        c = [P.ev(cs["CENTER"].get(d, "0"), x, time) for d in "XYZ"]
        dx, dy, dz = (x[..., i] - c[i] for i in range(3))
        if cs["TYPE"] == "CYLINDRICAL":
            a = [z, z, np.arctan2(dy, dx)]
        else:
            a = [z, np.arctan2(np.sqrt(dz * dz + dx * dx), dy), np.arctan2(dy, dx)]
    c, s = [np.cos(v) for v in a], [np.sin(v) for v in a]
    o, e = np.zeros_like(z), np.ones_like(z)

    def mk(rows):
        return np.stack([np.stack(r, axis=-1) for r in rows], axis=-2)
    Rx = mk([[e, o, o], [o, c[0], s[0]], [o, -s[0], c[0]]])
    Ry = mk([[c[1], o, -s[1]], [o, e, o], [s[1], o, c[1]]])
    Rz = mk([[c[2], s[2], o], [-s[2], c[2], o], [o, o, e]])
    R = Rx @ Ry @ Rz
    return np.swapaxes(R, -1, -2) @ A @ R


def of_region(d, lab_name):
    return d.get(lab_name, d.get("ALL"))


def system(case, m, lab, fixed):
    """matrix, right-hand side, [(block, conductivity)], fixed nodes and their values at case["time"]"""
    n = len(m.coords)
    t = case["time"]
    mats = case["mat"]
    Ki, fi, keep = [], [], []
    off = 0
    for et, c in m.blocks:
        b = fem.Block("heat", et, c, m.coords, 3)
        l = lab[off:off + len(c)]
        off += len(c)
        A = np.zeros(b.xg.shape[:2] + (3, 3))
        src = np.zeros(b.xg.shape[:2])
        u = np.zeros(b.xg.shape)
        for i in np.unique(l):
            s = l == i
            A[s] = tensor(mats[i % len(mats)], b.xg[s], t)
            e = of_region(case["source"], "E%d" % i)
            if e is not None:
                src[s] = P.ev(e, b.xg[s], t)
            e = of_region(case["adv"], "E%d" % i)
            if e is not None:
                u[s] = np.stack([P.ev(x, b.xg[s], t) for x in e], axis=-1) * float(case["rho"][0]) * float(case["rho"][1])
        K = np.einsum("egnd,egdk,egmk,eg->enm", b.dND, A, b.dND, b.dV)
        if case["adv"]:
            be = np.einsum("egd,egnd->egn", u, b.dND)
            un = np.linalg.norm(u, axis=2)
            bn = np.linalg.norm(be, axis=2)
            with np.errstate(divide="ignore", invalid="ignore"):
                he = np.where(bn > 0, 2 * un / bn, 0)
                Pe = np.where(un > 0, 2 * A[..., 0, 0] * (bn / (2 * un)) / un, 0)
                tau = np.where(un > 0, 0.5 * he * np.maximum(0, 1 - Pe) / un, 0)
            K = K + np.einsum("egn,egm,eg->enm", b.N[None] + tau[..., None] * be, be, b.dV)
        Ki.append((c, K))
        fi.append((c, np.einsum("gn,eg,eg->en", b.N, src, b.dV)))
        keep.append((b, A))
    for name, bc in case["bc"].items():
        if name not in m.bregions:
            continue
        bl = [fem.Block("heat", et, c, m.coords, 3) for et, c in m.bregions[name]]
        area = sum(b.dV.sum() for b in bl)
        for b in bl:
            q = np.zeros(b.xg.shape[:2])
            for kind, e in bc.items():
                q = q + P.ev(e, b.xg, t) / (area if kind == "HEAT_FLOW" else 1.0)
            fi.append((b.conn, np.einsum("gn,eg,eg->en", b.N, q, b.dV)))
    K, f = fem.assemble(n, Ki), fem.scatter(n, fi)
    fx = np.concatenate(list(fixed.values()))
    val = np.concatenate([P.ev(case["T"][int(k[1])], m.coords[v], t) for k, v in fixed.items()])
    return K, f, keep, fx, val


def gradients(keep, T):
    G, Q = [], []
    for b, A in keep:
        g = np.einsum("egnd,en->egd", b.dND, T[b.conn])
        G.append(g.mean(axis=1))
        Q.append(np.einsum("egdk,egk->egd", A, g).mean(axis=1))
    return G, Q


def reference(case, m, lab, fixed):
    K, f, keep, fx, val = system(case, m, lab, fixed)
    T = fem.solve(K, f, fx, val)
    G, Q = gradients(keep, T)
    return T, G, Q, K, f


def ecf_material(i, mat, rho):
    s = "%d {" % i
    if mat["cs"]:
        s += " COORDINATE_SYSTEM { TYPE %s;" % mat["cs"]["TYPE"]
        for k in ("ROTATION", "CENTER"):
            if k in mat["cs"]:
                s += " %s { %s }" % (k, " ".join("%s %s;" % kv for kv in mat["cs"][k].items()))
        s += " }"
    if rho[0]:
        s += " DENS %s; CP %s;" % tuple(rho)
    s += " THERMAL_CONDUCTIVITY { MODEL %s; %s } }" % (mat["model"], " ".join("%s %s;" % kv for kv in mat["k"].items()))
    return s


def conditions(case, m, fixed):
    s = ["TEMPERATURE { %s }" % " ".join("%s %s;" % (k, case["T"][int(k[1])]) for k in fixed)]
    if case["source"]:
        s.append("HEAT_SOURCE { %s }" % " ".join("%s %s;" % ("ALL_ELEMENTS" if k == "ALL" else k, v) for k, v in case["source"].items() if k == "ALL" or k in m.eregions))
    if case["adv"]:
        s.append("TRANSLATION_MOTIONS { %s }" % " ".join("%s { X %s; Y %s; Z %s; }" % (("ALL_ELEMENTS" if k == "ALL" else k,) + tuple(v)) for k, v in case["adv"].items()))
    for kind in ("HEAT_FLUX", "HEAT_FLOW"):
        d = {n: b[kind] for n, b in case["bc"].items() if kind in b and n in m.bregions}
        if d:
            s.append("%s { %s }" % (kind, " ".join("%s %s;" % kv for kv in d.items())))
    return "\n      ".join(s)


def ecf(case, m, fixed, run, inp):
    ms = case["mat"]
    return """%s
PHYSICS HEAT_TRANSFER;
HEAT_TRANSFER {
  LOAD_STEPS 1;
  MATERIALS { %s }
  MATERIAL_SET { %s }
  INITIAL_TEMPERATURE { ALL_ELEMENTS 0; }
  LOAD_STEPS_SETTINGS {
    1 {
      DURATION_TIME %s; TYPE STEADY_STATE; MODE LINEAR;
      %s
      %s
    }
  }
}
OUTPUT { PATH results; FORMAT ENSIGHT; RESULTS_STORE_FREQUENCY EVERY_SUBSTEP; STORE_RESULTS ALL; }
""" % (inp, "\n".join(ecf_material(i + 1, x, case["rho"]) for i, x in enumerate(ms)),
       " ".join("E%d %d;" % (i, i % len(ms) + 1) for i in range(len(m.eregions))), case["time"], P.ecf_solver(run), conditions(case, m, fixed))


def check(case, ctx):
    m, lab, fixed = problem(case)
    run = dict(case["run"], np=max(1, min(case["run"]["np"], m.ne // 4)))
    unsym = bool(case["adv"]) or any(x["model"] == "ANISOTROPIC" for x in case["mat"])
    if unsym:
        run["solver"] = "MKLPDSS"
    if run["solver"] != "FETI":
        run["np"] = 1
    if run["solver"] == "FETI":
        run["domains"] = max(1, min(run["domains"] or 2, m.ne // run["np"] // 4))
    T, G, Q, K, f = reference(case, m, lab, fixed)
    if not np.isfinite(T).all() or np.abs(T).max() > 1e7:
        raise Inconclusive("ill-conditioned problem")
    if run["solver"] == "FETI" and np.ptp(T) < 1e-3 * max(1e-12, np.abs(T).max()):
        raise Inconclusive("constant solution: nothing to solve for a relative stopping criterion")
    fmt, path = P.write_mesh(m, ctx.dir)
    P.run_solver(ctx, ecf(case, m, fixed, run, P.ecf_input(fmt, path, run)), run, m.ne)
    ens = O.EnSight(ctx.dir, "x")
    loc = M.Locator(m.coords)
    tol = 2e-5 if run["solver"] != "FETI" else 1e-4
    P.compare_nodes(ens, "TEMPERATURE", T[:, None], loc, 1, tol)
    P.compare_elements(ens, m, "GRADIENT", G, loc, 1, tol * 5, scale=max(max(np.abs(g).max() for g in G), np.abs(T).max() / 10))
    P.compare_elements(ens, m, "FLUX", Q, loc, 1, tol * 5, scale=max(max(np.abs(g).max() for g in Q), np.abs(T).max()))
    return {"nontrivial": m.ne >= 4 and (np.ptp(T) > 1e-6), "solver": run["solver"], "np": run["np"], "adv": bool(case["adv"]),
            "cs": "+".join(sorted({x["cs"].get("TYPE", "none") for x in case["mat"]})), "quadratic": case["mesh"]["quadratic"], "models": "+".join(sorted({x["model"] for x in case["mat"]}))}
