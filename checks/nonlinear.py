"""Steady state nonlinear problems: the stored solution is in equilibrium with the loads (finite strains, temperature dependent conductivity)."""
import numpy as np
from hypothesis import strategies as st
from vlib import mesh as M, outputs as O, physics as P, fem
from vlib.core import Violation, Inconclusive
from . import heat_steady as H, struct_steady as S

PARAMS = {"quick": {"seconds": 90, "shrink": 60}, "thorough": {"seconds": 900, "shrink": 90}}
RULE = ("A case is a nonlinear steady state problem on a generated 3D mesh: either heat conduction with temperature dependent conductivity (all models and coordinate systems, heat source, heat flux and flow), or finite strain elasticity "
        "(St. Venant-Kirchhoff or compressible neo-Hookean material, acceleration, pressure, nodal forces, prescribed displacements, loads that grow with time, 1-3 substeps) scaled so that the largest strain is between 1% and 30%, "
        "solved with random ranks, threads, domains and linear solver. Oracle: residual and tangent of the stored solution computed independently; the Newton (fixed point) correction has to vanish in every substep, the prescribed values have to be met, "
        "and stored stress, strain, gradient and flux have to follow from the stored solution. Cases where the independent Newton iteration does not converge are discarded. Non-trivial: >= 4 elements and a solution that differs from the linear one by more than 10 tolerances.")

ITER = 30


@st.composite
def conductivity(draw):
    a, b, c = draw(st.integers(5, 50)), draw(st.integers(1, 9)), draw(st.sampled_from(["0.01", "0.003", "0.02"]))
    x = draw(st.sampled_from(["", "", " + 0.1 * %d * sin(COORDINATE_X)" % a, " + 0.5 * TIME"]))
    return draw(st.sampled_from(["%d * (1 + 0.%d * tanh(%s * TEMPERATURE))" % (a, b, c), "%d + %d * cos(%s * TEMPERATURE)" % (2 * a, b, c), "%d * exp(-0.%d * tanh(%s * TEMPERATURE - 1))" % (a, b, c),
                                 "%d + %d * tanh(%s * TEMPERATURE) * cos(COORDINATE_Y)" % (a + 9, b, c)])) + x


@st.composite
def heat_case(draw):
    mats = []
    nreg = draw(st.sampled_from([1, 1, 2, 3]))
    for i in range(draw(st.integers(1, nreg))):
        m = draw(H.material(models=["ISOTROPIC", "DIAGONAL", "SYMMETRIC"], time=False))
        if i == 0 or draw(st.booleans()):
            ks = [k for k in m["k"] if k in ("KXX", "KYY", "KZZ")]
            for k in draw(st.lists(st.sampled_from(ks), min_size=1, unique=True)):
                m["k"][k] = draw(conductivity())
        mats.append(m)
    case = {"kind": "heat", "mesh": draw(P.solver_mesh(max_small=3)), "nreg": nreg, "emode": draw(st.sampled_from(["random", "slices"])), "seed": draw(st.integers(0, 20)), "run": draw(P.solver_params()), "mat": mats,
            "time": draw(st.sampled_from([1, 1, 2, 0.5])), "init": draw(st.sampled_from(["0", "0", "200", "-50", "30 + 10 * COORDINATE_X"])), "adv": {}, "rho": ["", ""]}
    case["source"] = draw(st.dictionaries(st.sampled_from(["ALL"] + ["E%d" % i for i in range(nreg)]), P.scalar(lo=-500, hi=500, time=True), max_size=2))
    case["bc"] = {"F%d" % i: {draw(st.sampled_from(["HEAT_FLUX", "HEAT_FLOW"])): draw(P.scalar(lo=-900, hi=900, time=True))} for i in draw(st.lists(st.integers(1, 5), max_size=3, unique=True))}
    case["dir"] = draw(st.sampled_from(["face", "node"]))
    case["T"] = [draw(P.scalar(lo=-300, hi=300, time=True)), draw(P.scalar(lo=-300, hi=300, time=True)) if draw(st.booleans()) else ""]
    return case


@st.composite
def struct_case(draw):
    nreg = draw(st.sampled_from([1, 1, 2, 3]))
    mats = []
    for _ in range(draw(st.integers(1, nreg))):
        m = draw(S.material())
        m["MODEL"] = draw(st.sampled_from(["KIRCHHOFF", "NEO_HOOKEAN_CMP"]))
        mats.append(m)
    case = {"kind": "struct", "mesh": draw(P.solver_mesh(max_small=2, big=2)), "nreg": nreg, "emode": draw(st.sampled_from(["random", "slices"])), "seed": draw(st.integers(0, 20)), "run": draw(P.solver_params()), "mat": mats,
            "time": draw(st.sampled_from([1, 1, 2, 0.5])), "stress": draw(st.booleans()), "ang": {}, "target": draw(st.sampled_from([0.01, 0.05, 0.1, 0.2, 0.3])), "substeps": draw(st.sampled_from([1, 1, 2, 3])), "ramp": draw(st.booleans()),
            "bc": {}}
    reg = st.sampled_from(["ALL", "E0", "E%d" % (nreg - 1)])
    case["acc"] = {draw(reg): S.vec(draw, partial=True) for _ in range(draw(st.integers(0, 2)))}
    for i in draw(st.lists(st.integers(1, 5), min_size=1, max_size=3, unique=True)):
        k = draw(st.sampled_from(["PRESSURE", "PRESSURE", "FORCE"]))
        if k == "PRESSURE":
            v = {"PRESSURE": draw(P.scalar(time=True)), "DIRECTION": S.vec(draw, lo=-3, hi=3)}
        else:
            v = S.vec(draw, partial=True)
            v["_node"] = draw(st.booleans())
        case["bc"]["F%d" % i] = {k: v}
    case["fix"] = draw(st.sampled_from(["full", "full", "rollers", "two"]))
    case["dirface"] = draw(st.booleans())
    case["U"] = [S.vec(draw, wrap=S.small) if draw(st.booleans()) else {"X": "0", "Y": "0", "Z": "0"} for _ in range(3)]
    case["ucomp"] = draw(st.sampled_from(["X", "Y", "XY", "XYZ"]))
    return case


def strategy(tier):
    return st.one_of(heat_case(), struct_case())


# ---------------------------------------------------------------- heat

def heat_residual(case, m, lab, fixed, T):
    """fixed point map T -> K(T)^-1 f and the conductivities at T"""
    t, mats = case["time"], case["mat"]
    n = len(m.coords)
    c1 = dict(case, mat=[dict(x, k={k: "1" if k in ("KXX", "KYY", "KZZ") else "0" for k in x["k"]}, cs={}) for x in mats])
    _, f, keep, fx, val = H.system(c1, m, lab, fixed)
    Ki, out, off = [], [], 0
    for b, _ in keep:
        l = lab[off:off + len(b.conn)]
        off += len(b.conn)
        Tg = np.einsum("gn,en->eg", b.N, T[b.conn])
        A = np.zeros(b.xg.shape[:2] + (3, 3))
        for i in np.unique(l):
            s = l == i
            A[s] = H.tensor(mats[i % len(mats)], b.xg[s], t, Tg[s])
        Ki.append((b.conn, np.einsum("egnd,egdk,egmk,eg->enm", b.dND, A, b.dND, b.dV, optimize=True)))
        out.append((b, A))
    return fem.solve(fem.assemble(n, Ki), f, fx, val), out, fx, val


def heat_ecf(case, m, fixed, run, inp):
    s = H.ecf(case, m, fixed, run, inp)
    s = s.replace("INITIAL_TEMPERATURE { ALL_ELEMENTS 0; }", "INITIAL_TEMPERATURE { ALL_ELEMENTS %s; }" % case["init"])
    return s.replace("MODE LINEAR;", "MODE NONLINEAR; NONLINEAR_SOLVER { MAX_ITERATIONS %d; REQUESTED_TEMPERATURE_RESIDUAL %s; }" % (ITER * 2, "1e-6"))


def check_heat(case, ctx):
    m, lab, fixed = H.problem(case)
    run = dict(case["run"], np=max(1, min(case["run"]["np"], m.ne // 4)))
    if run["solver"] != "FETI":
        run["np"] = 1
    else:
        run["domains"] = max(1, min(run["domains"] or 2, m.ne // run["np"] // 4))
    T = P.ev(case["init"], m.coords, case["time"])
    first = None
    for it in range(ITER):
        T1 = heat_residual(case, m, lab, fixed, T)[0]
        d, T = np.linalg.norm(T1 - T), T1
        if first is None:
            first = T1
        if not np.isfinite(T).all() or np.abs(T).max() > 1e6:
            raise Inconclusive("ill-conditioned problem")
        if d <= 1e-9 * max(np.linalg.norm(T), 1e-3):
            break
    else:
        raise Inconclusive("slow fixed point iteration")
    if run["solver"] == "FETI" and np.ptp(T) < 1e-3 * max(1e-12, np.abs(T).max()):
        raise Inconclusive("constant solution: nothing to solve for a relative stopping criterion")
    fmt, path = P.write_mesh(m, ctx.dir)
    P.run_solver(ctx, heat_ecf(case, m, fixed, run, P.ecf_input(fmt, path, run)), run, m.ne)
    ens = O.EnSight(ctx.dir, "x")
    loc = M.Locator(m.coords)
    tol = 5e-5 if run["solver"] != "FETI" else 2e-4
    sc = max(np.abs(T).max(), 1e-30)
    X = stored(ens, "TEMPERATURE", loc, len(m.coords), 1, 1)[:, 0]
    T1, keep, fx, val = heat_residual(case, m, lab, fixed, X)
    if np.abs(X[fx] - val).max() > tol * sc:
        raise Violation("prescribed temperature is not met: %g instead of %g" % (X[fx][np.argmax(np.abs(X[fx] - val))], val[np.argmax(np.abs(X[fx] - val))]))
    e = np.abs(T1 - X)
    if e.max() > tol * sc:
        i = int(np.argmax(e))
        raise Violation("stored temperature is not in equilibrium: %g at %s, the system assembled from it gives %g (converged independently: %g)" % (X[i], m.coords[i].tolist(), T1[i], T[i]))
    G, Q = H.gradients(keep, X)
    noise = 4e-6 * sc / np.cbrt(min(b.dV.sum(axis=1).min() for b, A in keep)) / (tol * 5)  # results are stored in single precision
    P.compare_elements(ens, m, "GRADIENT", G, loc, 1, tol * 5, scale=max(max(np.abs(g).max() for g in G), sc / 10, noise))
    P.compare_elements(ens, m, "FLUX", Q, loc, 1, tol * 5, scale=max(max(np.abs(g).max() for g in Q), sc, noise * max(np.abs(A).max() for b, A in keep)))
    return {"nontrivial": m.ne >= 4 and np.abs(first - T).max() > 10 * tol * sc, "kind": "heat", "solver": run["solver"], "np": run["np"], "quadratic": case["mesh"]["quadratic"],
            "models": "+".join(sorted({x["model"] for x in case["mat"]})), "iterations": it}


def stored(ens, name, loc, n, dim, step):
    """nodal variable over all mesh nodes; parts have to agree"""
    X = np.full((n, dim), np.nan)
    for p, v in zip(ens.parts, ens.var(name, step)):
        if v is None:
            continue
        idx = loc.find(p["coords"])
        if (idx < 0).any():
            raise Violation("part %s has a node that is not in the mesh" % p["name"])
        X[idx] = v[:, :dim].astype(float)
    if not np.isfinite(X).all():
        raise Violation("%s is not stored (or is not finite) at %d nodes in step %d" % (name, int((~np.isfinite(X)).any(axis=1).sum()), step))
    return X


# ---------------------------------------------------------------- elasticity

def scaled(e, f):
    return e if e == "0" else "%g * (%s)" % (f, e)


def scale_case(case, f):
    c = dict(case)
    sv = lambda v: {k: (e if k.startswith("_") else scaled(e, f)) for k, e in v.items()}
    c["acc"] = {k: sv(v) for k, v in case["acc"].items()}
    c["U"] = [sv(v) for v in case["U"]]
    c["bc"] = {}
    for n, bc in case["bc"].items():
        c["bc"][n] = {k: (dict(v, PRESSURE=scaled(v["PRESSURE"], f)) if k == "PRESSURE" else sv(v)) for k, v in bc.items()}
    return c


def ramp_case(case):
    """loads proportional to time"""
    if not case["ramp"] or case["substeps"] == 1:
        return case
    w = lambda e: e if e == "0" else "TIME * (%s)" % e
    c = dict(case)
    sv = lambda v: {k: (e if k.startswith("_") else w(e)) for k, e in v.items()}
    c["acc"] = {k: sv(v) for k, v in case["acc"].items()}
    c["U"] = [sv(v) for v in case["U"]]
    c["bc"] = {n: {k: (dict(v, PRESSURE=w(v["PRESSURE"])) if k == "PRESSURE" else sv(v)) for k, v in bc.items()} for n, bc in case["bc"].items()}
    return c


VI = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]


def law(model, E, nu, C, known=False):
    """second Piola-Kirchhoff stress (...,3,3) and tangent (...,6,6)"""
    lam, mu = E * nu / ((1 + nu) * (1 - 2 * nu)), E / (2 + 2 * nu)
    I = np.eye(3)
    lam_, mu_ = lam[..., None, None], mu[..., None, None]
    D = np.zeros(E.shape + (6, 6))
    if model == "KIRCHHOFF":
        G = 0.5 * (C - I)
        Sg = lam_ * np.trace(G, axis1=-2, axis2=-1)[..., None, None] * I + 2 * mu_ * G
        D[..., :3, :3] = lam_
        for i in range(6):
            D[..., i, i] += 2 * mu if i < 3 else mu
        return Sg, D
    if known:  # the known finding: C13 and C23 are exchanged in the determinant and in the inverse
        Cs = C.copy()
        Cs[..., 0, 2] = Cs[..., 2, 0] = C[..., 1, 2]
        Cs[..., 1, 2] = Cs[..., 2, 1] = C[..., 0, 2]
        J2, Cx = np.linalg.det(Cs), np.linalg.inv(Cs)
        Ci = Cx.copy()
        Ci[..., 0, 2] = Ci[..., 2, 0] = Cx[..., 1, 2]
        Ci[..., 1, 2] = Ci[..., 2, 1] = Cx[..., 0, 2]
    else:
        J2, Ci = np.linalg.det(C), np.linalg.inv(C)
    lj = 0.5 * np.log(np.maximum(J2, 1e-300))
    Sg = mu_ * (I - Ci) + (lam * lj)[..., None, None] * Ci
    g = mu - lam * lj
    for a, (i, j) in enumerate(VI):
        for b, (k, l) in enumerate(VI):
            D[..., a, b] = lam * Ci[..., i, j] * Ci[..., k, l] + g * (Ci[..., i, k] * Ci[..., j, l] + Ci[..., i, l] * Ci[..., j, k])
    return Sg, D


class Elastic:
    def __init__(self, case, m, lab, fixed):
        self.case, self.m, self.lab, self.fixed = case, m, lab, fixed
        self.known = False
        self.n = len(m.coords)
        self.blocks, off = [], 0
        for et, c in m.blocks:
            self.blocks.append((fem.Block("struct", et, c, m.coords, 3), lab[off:off + len(c)]))
            off += len(c)

    def loads(self, t):
        fi = []
        for b, l in self.blocks:
            rho = S.gp_material(self.case["mat"], l, b.xg, t)[2]
            fi.append((b.conn, S.element_loads(self.case, b, l, rho, t)))
        fb, nodal = S.boundary_loads(self.case, self.m, t)
        return fem.scatter(self.n, fi + fb, 3) + nodal.ravel()

    def internal(self, u, t, tangent=True):
        Ki, fi, self.state = [], [], []
        mats = self.case["mat"]
        self.minJ = np.inf
        for b, l in self.blocks:
            E, nu, rho = S.gp_material(mats, l, b.xg, t)
            F = np.einsum("eni,egnj->egij", u[b.conn], b.dND) + np.eye(3)
            self.minJ = min(self.minJ, np.linalg.det(F).min())
            C = np.einsum("egki,egkj->egij", F, F)
            Sg, D = np.zeros(C.shape), np.zeros(E.shape + (6, 6))
            for i in np.unique(l):
                s = l == i
                model = mats[i % len(mats)].get("MODEL", "KIRCHHOFF")
                Sg[s], D[s] = law(model, E[s], nu[s], C[s])
                if self.known and model == "NEO_HOOKEAN_CMP":
                    Sg[s], D[s] = law(model, E[s], nu[s], C[s], True)
            e, g, n, _ = b.dND.shape
            B = np.zeros((e, g, 6, n, 3))
            for a, (i, j) in enumerate(VI):
                x = np.einsum("egc,egn->egnc", F[..., :, i], b.dND[..., j])
                if i != j:
                    x = x + np.einsum("egc,egn->egnc", F[..., :, j], b.dND[..., i])
                B[:, :, a] = x
            B = B.reshape(e, g, 6, n * 3)
            Sv = np.stack([Sg[..., i, j] for i, j in VI], axis=-1)
            fi.append((b.conn, np.einsum("egia,egi,eg->ea", B, Sv, b.dV, optimize=True).reshape(e, n, 3)))
            if tangent:
                K = np.einsum("egia,egij,egjb,eg->eab", B, D, B, b.dV, optimize=True)
                KS = np.einsum("egni,egij,egmj,eg->enm", b.dND, Sg, b.dND, b.dV, optimize=True)
                K = K.reshape(e, n, 3, n, 3)
                for c in range(3):
                    K[:, :, c, :, c] += KS
                Ki.append((b.conn, K.reshape(e, n * 3, n * 3)))
            self.state.append((b, nu, C, Sg, E * (1 + 3 * nu) / (1 - 2 * nu)))
        f = fem.scatter(self.n, fi, 3)
        return (fem.assemble(self.n, Ki, 3) if tangent else None), f

    def correction(self, u, t):
        """Newton correction at u"""
        K, fint = self.internal(u, t)
        fx, val = S.dirichlet(self.fixed, self.m, t)
        d = fem.solve(K, self.loads(t) - fint, fx, val - u.ravel()[fx])
        return d.reshape(-1, 3)


def newton(el, times):
    u, first, its = np.zeros((el.n, 3)), None, 0
    for t in times:
        for it in range(20 if el.known else 13):
            d = el.correction(u, t)
            u = u + d
            if not np.isfinite(u).all() or el.minJ < 0.2:
                raise Inconclusive("the independent Newton iteration does not converge")
            if first is None:
                first = u.copy()
            if np.linalg.norm(d) <= (1e-7 if el.known else 1e-9) * np.linalg.norm(u):
                break
        else:
            raise Inconclusive("the independent Newton iteration does not converge")
        its = max(its, it)
    return u, first, its


def check_struct(case, ctx):
    m, lab, fixed = S.problem(case)
    T = float(case["time"])
    lin = Elastic(dict(case, mat=[dict(x, MODEL="KIRCHHOFF") for x in case["mat"]]), m, lab, fixed)
    u0 = lin.correction(np.zeros((lin.n, 3)), T)
    st_ = max(np.abs(0.5 * (h + np.swapaxes(h, -1, -2))).max() for h in (np.einsum("eni,egnj->egij", u0[b.conn], b.dND) for b, l in lin.blocks))
    if not np.isfinite(u0).all() or st_ < 1e-12:
        raise Inconclusive("no load")
    c = ramp_case(scale_case(case, float("%.3g" % (case["target"] / st_))))
    m, lab, fixed = S.problem(c)
    run = S.settle(c, m)
    el = Elastic(c, m, lab, fixed)
    times = [T * (k + 1) / c["substeps"] for k in range(c["substeps"])]
    u, first, its = newton(el, times)
    nh = not case.get("strict") and any(x["MODEL"] == "NEO_HOOKEAN_CMP" for x in case["mat"])
    if nh:  # the known finding changes also the convergence
        el.known = True
        newton(el, times)
        el.known = False
    fmt, path = P.write_mesh(m, ctx.dir)
    extra = "TYPE STEADY_STATE; MODE NONLINEAR; NONLINEAR_SOLVER { MAX_ITERATIONS %d; REQUESTED_DISPLACEMENT_RESIDUAL 1e-6; %s }" % (ITER, "STEPPING TRUE; SUBSTEPS %d;" % c["substeps"] if c["substeps"] > 1 else "")
    try:
        P.run_solver(ctx, S.ecf(c, m, fixed, run, P.ecf_input(fmt, path, run), extra), run, m.ne)
    except Violation as e:
        if run["solver"] == "FETI" and ("FETI SOLVER" in str(e) or "physical solver failed" in str(e)):
            raise Inconclusive("FETI without convergence: rotations are not in the kernel of a stressed subdomain")
        raise
    ens = O.EnSight(ctx.dir, "x")
    loc = M.Locator(m.coords)
    tol = 5e-5 if run["solver"] != "FETI" else 3e-4
    if len(ens.case["times"]) != len(times) or np.abs(np.array(ens.case["times"]) - times).max() > 1e-5 * T:
        raise Violation("stored times are %s instead of %s" % (list(ens.case["times"]), times))
    for k, t in enumerate(times):
        X = stored(ens, "DISPLACEMENT", loc, el.n, 3, k + 1)
        sc = max(np.abs(u).max() * (t / T if c["ramp"] else 1), 1e-30)
        fx, val = S.dirichlet(fixed, m, t)
        if np.abs(X.ravel()[fx] - val).max() > tol * sc:
            raise Violation("substep %d: prescribed displacement is not met (%g)" % (k + 1, np.abs(X.ravel()[fx] - val).max()))
        d = el.correction(X, t)
        if nh and not (np.isfinite(d).all() and np.abs(d).max() <= tol * sc):
            el.known = True  # listed in known_findings.json
            d = el.correction(X, t)
        if not np.isfinite(d).all() or np.abs(d).max() > tol * sc:
            i = int(np.argmax(np.abs(d).max(axis=1)))
            raise Violation("substep %d: the stored displacement is not in equilibrium with the loads: at %s it is %s, the Newton correction is %s" % (k + 1, m.coords[i].tolist(), X[i].tolist(), d[i].tolist()))
    if c["stress"]:
        try:
            check_stress(ens, m, el, loc, tol * 10, len(times), np.abs(X).max())
        except Violation:
            if not nh or el.known:
                raise
            el.known = True
            el.internal(X, T, False)
            check_stress(ens, m, el, loc, tol * 10, len(times), np.abs(X).max())
    return {"nontrivial": m.ne >= 4 and np.abs(first - u).max() > 10 * tol * np.abs(u).max(), "kind": "struct", "solver": run["solver"], "np": run["np"], "stress": c["stress"], "fix": c["fix"], "substeps": c["substeps"],
            "models": "+".join(sorted({x["MODEL"] for x in c["mat"]})), "target": str(c["target"]), "quadratic": c["mesh"]["quadratic"], "iterations": its}


def check_stress(ens, m, el, loc, tol, step, size):
    """el.state holds the last stored displacement"""
    for k, i in (("STRESS", 3), ("STRAIN", 2)):
        comp, vm = [], []
        for stt in el.state:
            X = stt[i] if i == 3 else 0.5 * (stt[2] - np.eye(3))
            comp.append(S.voigt(X, 1.0).mean(axis=1))
            vm.append((S.vonmises(X)[1] / (1.0 if i == 3 else 1 + stt[1])).mean(axis=1)[:, None])
        noise = 1e-6 * size / np.cbrt(min(stt[0].dV.sum(axis=1).min() for stt in el.state)) / tol  # results are stored in single precision
        if i == 3:
            noise *= max(np.abs(stt[4]).max() for stt in el.state)
        sc = max(max(np.abs(x).max() for x in comp), noise)
        P.compare_elements(ens, m, "COMPONENT_" + k, comp, loc, step, tol, scale=sc)
        P.compare_elements(ens, m, "VON_MISES_" + k, vm, loc, step, tol, scale=sc)


def check(case, ctx):
    return check_heat(case, ctx) if case["kind"] == "heat" else check_struct(case, ctx)
