"""Steady state linear elasticity against an independent finite element solution."""
import os
import numpy as np
from hypothesis import strategies as st
from vlib import mesh as M, outputs as O, physics as P, fem
from vlib.core import Violation, Inconclusive

PARAMS = {"quick": {"seconds": 90, "shrink": 60}, "thorough": {"seconds": 900, "shrink": 90}}
RULE = ("A case is a generated 3D mesh (all element types, linear or quadratic, distorted, several element regions) with isotropic materials (constant or position dependent), acceleration, angular velocity, "
        "pressure, normal pressure, nodal forces and prescribed displacements of selected components, solved with random ranks, threads, domains and linear solver. "
        "Oracle: an independent numpy/scipy finite element solution; displacement, reaction forces, stress and strain are compared. Non-trivial: >= 4 elements and a non-zero displacement.")


def small(e):
    return "0.001 * (%s)" % e


@st.composite
def material(draw):
    m = {"EX": draw(st.sampled_from(["1e5", "2e5", "3.5e5"]))}
    if draw(st.integers(0, 2)) == 0:
        m["EX"] = "1e5 * (%s)" % draw(P.positive(time=True, lo=1, hi=5))
    m["MIXY"] = draw(st.sampled_from(["0", "0.1", "0.3", "0.3", "0.45", "0.2 + 0.1 * sin(COORDINATE_X)", "0.25 + 0.2 * cos(COORDINATE_Y - COORDINATE_Z)", "0.3 / (1 + TIME)"]))
    m["DENS"] = draw(P.positive(time=True, lo=1, hi=20))
    return m


def vec(draw, lo=-100, hi=100, partial=False, wrap=lambda e: e):
    keys = draw(st.sampled_from(["XYZ", "XYZ", "X", "YZ", "Z", "XZ"])) if partial else "XYZ"
    return {k: wrap(draw(P.scalar(lo=lo, hi=hi, time=True))) for k in keys}


@st.composite
def strategy_(draw, tier):
    mesh = draw(P.solver_mesh(max_small=3))
    nreg = draw(st.sampled_from([1, 1, 2, 3]))
    case = {"mesh": mesh, "nreg": nreg, "emode": draw(st.sampled_from(["random", "slices"])), "seed": draw(st.integers(0, 20)),
            "run": draw(P.solver_params()), "mat": [draw(material()) for _ in range(draw(st.integers(1, nreg)))],
            "time": draw(st.sampled_from([1, 1, 2, 0.5])), "stress": draw(st.booleans())}
    reg = st.sampled_from(["ALL", "E0", "E%d" % (nreg - 1)])
    case["acc"] = {draw(reg): vec(draw, partial=True) for _ in range(draw(st.integers(0, 2)))}
    case["ang"] = {draw(reg): {draw(st.sampled_from("XYZ")): draw(P.scalar(lo=-5, hi=5, time=True, space=draw(st.booleans())))} for _ in range(draw(st.sampled_from([0, 0, 1])))}
    case["bc"] = {}
    for i in draw(st.lists(st.integers(1, 5), max_size=3, unique=True)):
        k = draw(st.sampled_from(["NORMAL_PRESSURE", "PRESSURE", "FORCE", "FORCE"]))
        if k == "NORMAL_PRESSURE":
            v = draw(P.scalar(time=True))
        elif k == "PRESSURE":
            v = {"PRESSURE": draw(P.scalar(time=True)), "DIRECTION": vec(draw, lo=-3, hi=3)}
        else:
            v = vec(draw, partial=True)
            v["_node"] = draw(st.booleans())
        case["bc"]["F%d" % i] = {k: v}
    case["fix"] = draw(st.sampled_from(["full", "full", "rollers", "two"]))
    case["dirface"] = draw(st.booleans())
    case["U"] = [vec(draw, wrap=small) for _ in range(3)]
    case["ucomp"] = draw(st.sampled_from(["X", "Y", "XY", "XYZ"]))
    return case


def strategy(tier):
    return strategy_(tier)


def problem(case):
    """mesh with regions; fixed: {region: (nodes, {component: expression})}"""
    m = M.make(case["mesh"])
    r = np.random.RandomState(case["seed"] + 1)
    k = min(case["nreg"], m.ne)
    lab = r.randint(0, k, m.ne) if case["emode"] == "random" else (np.arange(m.ne) * k) // m.ne
    lab[:k] = np.arange(k)
    for i in range(k):
        m.eregions["E%d" % i] = np.nonzero(lab == i)[0]
    sides = P.face_regions(m, case["seed"], ["S%d" % i for i in range(6)])
    for n, bc in case["bc"].items():
        bl = sides["S" + n[1:]]
        if bl:
            if "FORCE" in bc and bc["FORCE"]["_node"]:
                m.nregions[n] = P.nodes_of(bl)
            else:
                m.bregions[n] = bl
    fixed = {}
    U = case["U"]
    if case["fix"] == "rollers":
        want = [(0, {"X": U[0]["X"]}), (2, {"Y": U[1]["Y"]}), (4, {"Z": U[2]["Z"]})]
    else:
        want = [(0, U[0])]
        if case["fix"] == "two":
            want.append((1, {c: U[1][c] for c in case["ucomp"]}))
    for j, (i, comp) in enumerate(want):
        bl = sides["S%d" % i]
        if not bl:
            raise Inconclusive("a side of the box has no face")
        nodes = P.nodes_of(bl)
        name = "D%d" % j
        if case["fix"] == "two" and j == 1:
            nodes = np.setdiff1d(nodes, fixed["D0"][0])
            if not len(nodes):
                continue
            m.nregions[name] = nodes
        elif case["dirface"]:
            m.bregions[name] = bl
        else:
            m.nregions[name] = nodes
        fixed[name] = (nodes, comp)
    return m, lab, fixed


def of_region(d, name):
    return d.get(name, d.get("ALL"))


def vecev(v, x, t):
    return np.stack([P.ev(v.get(c, "0"), x, t) for c in "XYZ"], axis=-1)


def cmat(E, nu):
    k = E / ((1 + nu) * (1 - 2 * nu))
    C = np.zeros(E.shape + (6, 6))
    for i in range(3):
        for j in range(3):
            C[..., i, j] = k * (1 - nu if i == j else nu)
        C[..., 3 + i, 3 + i] = k * (1 - 2 * nu) / 2
    return C


def bmat(dND):
    """(e,g,6,n*3), node major; rows xx yy zz xy yz xz"""
    e, g, n, _ = dND.shape
    B = np.zeros((e, g, 6, n, 3))
    x, y, z = dND[..., 0], dND[..., 1], dND[..., 2]
    B[:, :, 0, :, 0] = x
    B[:, :, 1, :, 1] = y
    B[:, :, 2, :, 2] = z
    B[:, :, 3, :, 0], B[:, :, 3, :, 1] = y, x
    B[:, :, 4, :, 1], B[:, :, 4, :, 2] = z, y
    B[:, :, 5, :, 0], B[:, :, 5, :, 2] = z, x
    return B.reshape(e, g, 6, n * 3)


def gp_material(mats, l, xg, t):
    E, nu, rho = (np.zeros(xg.shape[:2]) for _ in range(3))
    for i in np.unique(l):
        s = l == i
        mt = mats[i % len(mats)]
        E[s], nu[s], rho[s] = (P.ev(mt[k], xg[s], t) for k in ("EX", "MIXY", "DENS"))
    return E, nu, rho


def boundary_loads(case, m, t):
    fi, nodal = [], np.zeros((len(m.coords), 3))
    for name, bc in case["bc"].items():
        for kind, v in bc.items():
            if kind == "FORCE":
                nodes = m.nregions.get(name)
                if nodes is None:
                    if name not in m.bregions:
                        continue
                    nodes = P.nodes_of(m.bregions[name])
                nodal[nodes] += vecev(v, m.coords[nodes], t)
                continue
            for et, c in m.bregions.get(name, []):
                b = fem.Block("struct", et, c, m.coords, 3)
                if kind == "NORMAL_PRESSURE":
                    q = -P.ev(v, b.xg, t)[..., None] * b.normal
                else:
                    q = P.ev(v["PRESSURE"], b.xg, t)[..., None] * vecev(v["DIRECTION"], b.xg, t)
                fi.append((c, np.einsum("gn,egd,eg->end", b.N, q, b.dV)))
    return fi, nodal


def element_loads(case, b, l, rho, t):
    q = np.zeros(b.xg.shape)
    for i in np.unique(l):
        s = l == i
        v = of_region(case["acc"], "E%d" % i)
        if v is not None:
            q[s] += rho[s][..., None] * vecev(v, b.xg[s], t)
        v = of_region(case["ang"], "E%d" % i)
        if v is not None:
            w2 = vecev(v, b.xg[s], t) ** 2
            q[s] += rho[s][..., None] * b.xg[s] * (w2.sum(axis=-1, keepdims=True) - w2)
    return np.einsum("gn,egd,eg->end", b.N, q, b.dV)


def dirichlet(fixed, m, t):
    fx, val = [], []
    for nodes, comp in fixed.values():
        for c, e in comp.items():
            fx.append(nodes * 3 + "XYZ".index(c))
            val.append(P.ev(e, m.coords[nodes], t))
    return np.concatenate(fx), np.concatenate(val)


def strain(b, u):
    """Green-Lagrange strain (e,g,3,3) from nodal displacement"""
    H = np.einsum("eni,egnj->egij", u[b.conn], b.dND)
    F = H + np.eye(3)
    return 0.5 * (np.einsum("egki,egkj->egij", F, F) - np.eye(3))


def voigt(E, shear=2.0):
    return np.stack([E[..., 0, 0], E[..., 1, 1], E[..., 2, 2], shear * E[..., 0, 1], shear * E[..., 1, 2], shear * E[..., 0, 2]], axis=-1)


def vonmises(S):
    w = np.linalg.eigvalsh(S)[..., ::-1]
    return w, np.sqrt(0.5 * ((w[..., 0] - w[..., 1]) ** 2 + (w[..., 1] - w[..., 2]) ** 2 + (w[..., 2] - w[..., 0]) ** 2))


def system(case, m, lab, fixed):
    n, t = len(m.coords), case["time"]
    Ki, fi, keep = [], [], []
    off = 0
    for et, c in m.blocks:
        b = fem.Block("struct", et, c, m.coords, 3)
        l = lab[off:off + len(c)]
        off += len(c)
        E, nu, rho = gp_material(case["mat"], l, b.xg, t)
        C, B = cmat(E, nu), bmat(b.dND)
        Ki.append((c, np.einsum("egia,egij,egjb,eg->eab", B, C, B, b.dV, optimize=True)))
        fi.append((c, element_loads(case, b, l, rho, t)))
        keep.append((b, C, nu))
    fb, nodal = boundary_loads(case, m, t)
    K = fem.assemble(n, Ki, 3)
    f = fem.scatter(n, fi + fb, 3) + nodal.ravel()
    fx, val = dirichlet(fixed, m, t)
    return K, f, keep, fx, val


def reference(case, m, lab, fixed):
    K, f, keep, fx, val = system(case, m, lab, fixed)
    return fem.solve(K, f, fx, val).reshape(-1, 3), K, f, keep


def ecf_vec(v):
    return "{ %s }" % " ".join("%s %s;" % (k, e) for k, e in v.items() if not k.startswith("_"))


def ecf_material(i, mat):
    return "%d { DENS %s; ELASTICITY_PROPERTIES { MATERIAL_MODEL %s; MIXY %s; EX %s; } }" % (i, mat["DENS"], mat.get("MODEL", "KIRCHHOFF"), mat["MIXY"], mat["EX"])


def conditions(case, m, fixed):
    s = ["DISPLACEMENT { %s }" % " ".join("%s %s" % (k, ecf_vec(v[1])) for k, v in fixed.items())]
    for kw, d in (("ACCELERATION", case["acc"]), ("ANGULAR_VELOCITY", case["ang"])):
        d = {("ALL_ELEMENTS" if k == "ALL" else k): v for k, v in d.items() if k == "ALL" or k in m.eregions}
        if d:
            s.append("%s { %s }" % (kw, " ".join("%s %s" % (k, ecf_vec(v)) for k, v in d.items())))
    for kind in ("NORMAL_PRESSURE", "PRESSURE", "FORCE"):
        o = []
        for n, b in case["bc"].items():
            if kind in b and (n in m.bregions or n in m.nregions):
                v = b[kind]
                if kind == "NORMAL_PRESSURE":
                    o.append("%s %s;" % (n, v))
                elif kind == "PRESSURE":
                    o.append("%s { PRESSURE %s; DIRECTION %s }" % (n, v["PRESSURE"], ecf_vec(v["DIRECTION"])))
                else:
                    o.append("%s %s" % (n, ecf_vec(v)))
        if o:
            s.append("%s { %s }" % (kind, " ".join(o)))
    return "\n      ".join(s)


def ecf(case, m, fixed, run, inp, extra="TYPE STEADY_STATE; MODE LINEAR;", out=""):
    ms = case["mat"]
    return """%s
PHYSICS STRUCTURAL_MECHANICS;
STRUCTURAL_MECHANICS {
  LOAD_STEPS 1;
  MATERIALS { %s }
  MATERIAL_SET { %s }
  LOAD_STEPS_SETTINGS {
    1 {
      DURATION_TIME %s; %s
      %s
      %s
    }
  }
}
OUTPUT { PATH results; FORMAT ENSIGHT; RESULTS_STORE_FREQUENCY EVERY_SUBSTEP; STORE_RESULTS %s }
""" % (inp, "\n".join(ecf_material(i + 1, x) for i, x in enumerate(ms)),
       " ".join("E%d %d;" % (i, i % len(ms) + 1) for i in range(len(m.eregions))), case["time"], extra, P.ecf_solver(run), conditions(case, m, fixed),
       out or ("USER; RESULTS_SELECTION { DISPLACEMENT TRUE; REACTIONS TRUE; STRESS %s; }" % ("TRUE" if case["stress"] else "FALSE")))


def settle(case, m):
    run = dict(case["run"], np=max(1, min(case["run"]["np"], m.ne // 4)))
    if run["solver"] != "FETI":
        run["np"] = 1
    elif any("FORCE" in bc for bc in case["bc"].values()) and not case.get("shared_force"):
        run["np"] = 1  # known finding: each process adds the force of a shared node
        run["domains"] = max(1, min(run["domains"] or 2, m.ne // 4))
    else:
        run["domains"] = max(1, min(run["domains"] or 2, m.ne // run["np"] // 4))
    return run


def check_stress(ens, m, keep, u, loc, tol):
    comp = {"STRESS": [], "STRAIN": []}
    prin = {"STRESS": [], "STRAIN": []}
    vm = {"STRESS": [], "STRAIN": []}
    for b, C, nu in keep:
        E = strain(b, u)
        s = np.einsum("egij,egj->egi", C, voigt(E))
        S = np.zeros(E.shape)
        for (i, j), k in {(0, 0): 0, (1, 1): 1, (2, 2): 2, (0, 1): 3, (1, 2): 4, (0, 2): 5}.items():
            S[..., i, j] = S[..., j, i] = s[..., k]
        for k, T, div in (("STRESS", S, 1.0), ("STRAIN", E, 1 + nu)):
            w, v = vonmises(T)
            comp[k].append(voigt(T, 1.0).mean(axis=1))
            prin[k].append(w.mean(axis=1))
            vm[k].append((v / div).mean(axis=1)[:, None])
    for k in ("STRESS", "STRAIN"):
        sc = max(max(np.abs(x).max() for x in comp[k]), 1e-3 * np.abs(u).max() / min(np.cbrt(b.dV.sum(axis=1).min()) for b, C, nu in keep) * (max(np.abs(C).max() for b, C, nu in keep) if k == "STRESS" else 1))
        P.compare_elements(ens, m, "COMPONENT_" + k, comp[k], loc, 1, tol, scale=sc)
        P.compare_elements(ens, m, "VON_MISES_" + k, vm[k], loc, 1, tol, scale=sc)


def check(case, ctx):
    m, lab, fixed = problem(case)
    run = settle(case, m)
    u, K, f, keep = reference(case, m, lab, fixed)
    if not np.isfinite(u).all() or np.abs(u).max() > (2 if case['stress'] else 1e3):
        raise Inconclusive("ill-conditioned problem")
    L = np.ptp(m.coords, axis=0).max()
    if run["solver"] == "FETI" and max(np.abs(strain(b, u)).max() for b, C, nu in keep) * L < 1e-5 * np.abs(u).max() + 1e-9:
        raise Inconclusive("rigid body motion: nothing to solve for a relative stopping criterion")
    fmt, path = P.write_mesh(m, ctx.dir)
    P.run_solver(ctx, ecf(case, m, fixed, run, P.ecf_input(fmt, path, run)), run, m.ne)
    ens = O.EnSight(ctx.dir, "x")
    loc = M.Locator(m.coords)
    tol = 2e-5 if run["solver"] != "FETI" else 2e-4
    P.compare_nodes(ens, "DISPLACEMENT", u, loc, 1, tol)
    r = (K @ u.ravel()).reshape(-1, 3)
    P.compare_nodes(ens, "REACTION_FORCES", r, loc, 1, tol * 10, scale=max(np.abs(r).max(), np.abs(K).max() * np.abs(u).max() * 1e-2, 1e-30))
    if case["stress"]:
        check_stress(ens, m, keep, u, loc, tol * 10)
    return {"nontrivial": m.ne >= 4 and np.abs(u).max() > 1e-9, "solver": run["solver"], "np": run["np"], "stress": case["stress"], "fix": case["fix"],
            "loads": "+".join(sorted({k for b in case["bc"].values() for k in b})) or "none", "ang": bool(case["ang"]), "acc": bool(case["acc"]), "quadratic": case["mesh"]["quadratic"]}
