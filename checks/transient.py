"""Time integration and histories of load steps against an independent implementation of the schemes."""
import os, re
import numpy as np
from hypothesis import strategies as st
from vlib import mesh as M, outputs as O, physics as P, fem
from vlib.core import Violation, Inconclusive
from checks import heat_steady as H, struct_steady as S

PARAMS = {"quick": {"seconds": 80, "shrink": 60}, "thorough": {"seconds": 900, "shrink": 90}}
RULE = ("A case is a heat transfer or linear elasticity problem on a generated mesh with a history of one to three load steps ([steady state,] transient, transient...), each with its own duration, "
        "time step (also one that does not divide the duration), integration scheme and parameters, time dependent materials, loads and prescribed values, initial temperature / velocity, direct or FETI "
        "solver, ranks, threads and domains. Oracle: an independent implementation of the generalized trapezoidal rule / Newmark method over independent finite element matrices; every stored substep "
        "(times, temperature, gradient, flux / displacement, velocity, acceleration) is compared. Non-trivial: two or more stored substeps with a changing solution.")


@st.composite
def solver(draw, kind, type_):
    if draw(st.integers(0, 2)) == 0:
        return {"solver": "MKLPDSS", "feti": {}}
    o = {"PRECONDITIONER": draw(st.sampled_from(["DIRICHLET", "DIRICHLET", "LUMPED", "NONE"])), "DUAL_OPERATOR": draw(st.sampled_from(["IMPLICIT", "IMPLICIT", "IMPLICIT_GENERALSPARSESOLVER_CPU", "EXPLICIT_GENERALSCHUR_CPU"]))}
    o["PRECISION"] = "1E-11"
    o["METHOD"] = "TOTAL_FETI" if type_ == "transient" else draw(st.sampled_from(["TOTAL_FETI", "HYBRID_FETI"]))
    if o["METHOD"] == "HYBRID_FETI" and o["DUAL_OPERATOR"].startswith("EXPLICIT"):
        o["DUAL_OPERATOR"] = "IMPLICIT"
    if type_ == "transient":
        o["PROJECTOR"] = draw(st.sampled_from(["ORTHOGONAL", "CONJUGATE"]))
    o["ITERATIVE_SOLVER"] = draw(st.sampled_from(["PCG", "PCG", "orthogonalPCG"]))
    return {"solver": "FETI", "feti": o}


@st.composite
def strategy_(draw, tier):
    kind = draw(st.sampled_from(["heat", "struct"]))
    mesh = draw(P.solver_mesh(big=3, max_small=3))
    nreg = draw(st.sampled_from([1, 1, 2]))
    case = {"kind": kind, "mesh": mesh, "nreg": nreg, "emode": draw(st.sampled_from(["random", "slices"])), "seed": draw(st.integers(0, 20)), "time": 1,
            "run": {"np": draw(st.sampled_from([1, 1, 1, 2, 3])), "threads": draw(st.sampled_from([1, 1, 2, 3])), "decomposer": draw(st.sampled_from(["", "METIS"])), "domains": draw(st.sampled_from([1, 2, 3, 5]))}}
    n = draw(st.sampled_from([1, 1, 2, 2, 3]))
    types = ["transient"] * n
    if n > 1 and draw(st.booleans()):
        types[0] = "steady"
    sides = draw(st.lists(st.integers(1, 5), max_size=2, unique=True))
    nd = draw(st.sampled_from([1, 1, 2]))
    case["steps"] = []
    # the solver changes the layout of vectors only rarely
    same = draw(st.integers(0, 3)) > 0
    sol = None
    for t in types:
        s = {"type": t, "dt": draw(st.sampled_from([0.1, 0.25, 0.5, 1, 0.01])), "n": draw(st.integers(1, 4)), "frac": draw(st.sampled_from([0, 0, 0, 0.5])), "dur": draw(st.sampled_from([1, 0.5, 2]))}
        s["sol"] = draw(solver(kind, t))
        if same and sol:
            s["sol"]["solver"] = sol["solver"]
            if s["sol"]["solver"] != "FETI":
                s["sol"]["feti"] = {}
        sol = s["sol"]
        if kind == "heat":
            s["method"] = draw(st.sampled_from(["", "CRANK_NICOLSON", "GALERKIN", "BACKWARD_DIFF", "USER"]))
            s["alpha"] = draw(st.sampled_from([0.5, 0.75, 0.9, 1]))
            s["source"] = draw(st.dictionaries(st.sampled_from(["ALL", "E0"]), P.scalar(time=True), max_size=2))
            s["bc"] = {"F%d" % i: {draw(st.sampled_from(["HEAT_FLUX", "HEAT_FLOW"])): draw(P.scalar(time=True))} for i in sides if draw(st.booleans())}
            s["T"] = [draw(P.scalar(time=True)), draw(P.scalar(time=True)) if nd > 1 else ""]
        else:
            s["newmark"] = draw(st.sampled_from([None, [0.5, 0.25], [0.5, 0.25], [0.6, 0.3], [0.5, 0.5]]))
            s["acc"] = {"ALL": S.vec(draw, partial=True)} if draw(st.integers(0, 3)) == 0 else {}
            s["ang"] = {}
            s["bc"] = {}
            for i in sides:
                k = draw(st.sampled_from(["", "NORMAL_PRESSURE", "PRESSURE"]))
                if k == "NORMAL_PRESSURE":
                    s["bc"]["F%d" % i] = {k: draw(P.scalar(time=True))}
                elif k:
                    s["bc"]["F%d" % i] = {k: {"PRESSURE": draw(P.scalar(time=True)), "DIRECTION": S.vec(draw, lo=-3, hi=3)}}
            s["U"] = [S.vec(draw, wrap=S.small) for _ in range(3)]
        case["steps"].append(s)
    if kind == "heat":
        case["mat"] = [draw(H.material(models=["ISOTROPIC", "DIAGONAL", "SYMMETRIC"])) for _ in range(draw(st.integers(1, nreg)))]
        case["dens"] = [draw(P.positive(time=True, lo=1, hi=20)) for _ in case["mat"]]
        case["cp"] = [draw(st.sampled_from(["", "1", None])) for _ in case["mat"]]
        case["cp"] = [draw(P.positive(time=True, lo=1, hi=9)) if c is None else c for c in case["cp"]]
        case["init"] = draw(P.scalar())
        case["respect"] = draw(st.booleans())
        case["dir"] = draw(st.sampled_from(["face", "node"]))
        case["adv"], case["rho"] = {}, ["", ""]
    else:
        case["mat"] = [draw(S.material()) for _ in range(draw(st.integers(1, nreg)))]
        case["init"] = S.vec(draw, lo=-9, hi=9) if draw(st.booleans()) else {}
        case["fix"] = draw(st.sampled_from(["full", "rollers", "two"]))
        case["dirface"] = draw(st.booleans())
        case["ucomp"] = draw(st.sampled_from(["X", "XY", "XYZ"]))
        case["stress"] = False
    return case


def strategy(tier):
    return strategy_(tier)


def at(case, s, t):
    """the steady problem of load step s at time t"""
    return dict(case, time=t, **{k: s[k] for k in ("source", "bc", "T", "acc", "ang", "U") if k in s})


def mass(case, m, lab, t, dofs):
    Mi, off = [], 0
    for et, c in m.blocks:
        b = fem.Block("heat" if case["kind"] == "heat" else "struct", et, c, m.coords, 3)
        l = lab[off:off + len(c)]
        off += len(c)
        rho = np.zeros(b.xg.shape[:2])
        for i in np.unique(l):
            k = i % len(case["mat"])
            d = case["dens"][k] if case["kind"] == "heat" else case["mat"][k]["DENS"]
            rho[l == i] = P.ev(d, b.xg[l == i], t)
            if case["kind"] == "heat" and case["cp"][k]:
                rho[l == i] *= P.ev(case["cp"][k], b.xg[l == i], t)
        Me = np.einsum("gn,gm,eg,eg->enm", b.N, b.N, rho, b.dV, optimize=True)
        Mi.append((c, np.einsum("enm,ij->enimj", Me, np.eye(dofs)).reshape(len(c), c.shape[1] * dofs, -1)))
    return fem.assemble(len(m.coords), Mi, dofs)


def times(s, start):
    out, t = [], start
    final = start + duration(s)
    while t + s["dt"] <= final + 1e-8:
        t += s["dt"]
        out.append(t)
    return out, final


def duration(s):
    return s["dur"] if s["type"] == "steady" else round(s["dt"] * (s["n"] + s["frac"]), 10)


ALPHA = {"": 0.5, "CRANK_NICOLSON": 0.5, "GALERKIN": 2 / 3, "BACKWARD_DIFF": 1.0}


def heat(case, m, lab, probs):
    """[(time, T, G, Q, scale)] of all substeps"""
    out, start, U = [], 0.0, None
    for s, (_, fixed) in zip(case["steps"], probs):
        if s["type"] == "steady":
            K, f, keep, fx, val = H.system(at(case, s, s["dur"]), m, lab, fixed)
            U = fem.solve(K, f, fx, val)
            start = s["dur"]
            out.append((start, U) + H.gradients(keep, U))
            continue
        if U is None:
            U = P.ev(case["init"], m.coords, 0.0)
            if case["respect"]:
                for name, nodes in fixed.items():
                    U[nodes] = P.ev(s["T"][int(name[1])], m.coords[nodes], 0.0)
        V = np.zeros(len(U))
        a = ALPHA.get(s["method"], s["alpha"])
        ts, final = times(s, start)
        for t in ts:
            K, f, keep, fx, val = H.system(at(case, s, t), m, lab, fixed)
            W = mass(case, m, lab, t, 1)
            T = fem.solve(K + W / (a * s["dt"]), f + W @ (U / (a * s["dt"]) + (1 - a) / a * V), fx, val)
            V = -(1 - a) / a * V + (T - U) / (a * s["dt"])
            U = T
            out.append((t, U) + H.gradients(keep, U))
        start = final
    return out


def struct(case, m, lab, probs):
    """[(time, U, V, W, dt)]"""
    n = len(m.coords)
    out, start, U = [], 0.0, np.zeros(3 * n)
    V, W = np.zeros(3 * n), np.zeros(3 * n)
    for k, (s, (_, fixed)) in enumerate(zip(case["steps"], probs)):
        if s["type"] == "steady":
            K, f, keep, fx, val = S.system(at(case, s, s["dur"]), m, lab, fixed)
            U = fem.solve(K, f, fx, val)
            start = s["dur"]
            out.append((start, U, None, None, None))
            continue
        if k == 0 and case["init"]:
            V = S.vecev(case["init"], m.coords, 0.0).ravel()
        g, b = s["newmark"] or (0.25, 0.5)
        ts, final = times(s, start)
        dt = s["dt"]
        for t in ts:
            K, f, keep, fx, val = S.system(at(case, s, t), m, lab, fixed)
            A = mass(case, m, lab, t, 3)
            X = fem.solve(K + A / (b * dt * dt), f + A @ (U / (b * dt * dt) + V / (b * dt) + (1 / (2 * b) - 1) * W), fx, val)
            Z = (X - U) / (b * dt * dt) - V / (b * dt) - (1 / (2 * b) - 1) * W
            V = V + dt * ((1 - g) * W + g * Z)
            U, W = X, Z
            out.append((t, U, V, W, dt))
        start = final
    return out


def ecf(case, m, probs, run, inp):
    heat = case["kind"] == "heat"
    steps = []
    for i, (s, (_, fixed)) in enumerate(zip(case["steps"], probs)):
        o = ["DURATION_TIME %.12g; TYPE %s; MODE LINEAR;" % (duration(s), "STEADY_STATE" if s["type"] == "steady" else "TRANSIENT"), P.ecf_solver(dict(run, **s["sol"]))]
        if s["type"] != "steady":
            if heat:
                o.append("TRANSIENT_SOLVER { %sTIME_STEP %.12g; %s}" % ("METHOD %s; " % s["method"] if s["method"] else "", s["dt"], "ALPHA %s; " % s["alpha"] if s["method"] == "USER" else ""))
            else:
                o.append("TRANSIENT_SOLVER { %sTIME_STEP %.12g; }" % ("ALPHA %s; DELTA %s; " % tuple(s["newmark"]) if s["newmark"] else "", s["dt"]))
        o.append((H if heat else S).conditions(at(case, s, 0), m, fixed))
        steps.append("%d {\n%s\n}" % (i + 1, "\n".join(o)))
    ms = case["mat"]
    if heat:
        mats = []
        for i, x in enumerate(ms):
            t = H.ecf_material(i + 1, x, ["", ""])
            mats.append(t.replace("{", "{ DENS %s;%s" % (case["dens"][i], " CP %s;" % case["cp"][i] if case["cp"][i] else ""), 1))
    else:
        mats = [S.ecf_material(i + 1, x) for i, x in enumerate(ms)]
    init = "INITIAL_TEMPERATURE { ALL_ELEMENTS %s; } INIT_TEMP_RESPECT_BC %s;" % (case["init"], "TRUE" if case["respect"] else "FALSE") if heat else ("INITIAL_VELOCITY { ALL_ELEMENTS %s }" % S.ecf_vec(case["init"]) if case["init"] else "")
    return """%s
PHYSICS %s;
%s {
  LOAD_STEPS %d;
  MATERIALS { %s }
  MATERIAL_SET { %s }
  %s
  LOAD_STEPS_SETTINGS {
%s
  }
}
OUTPUT { PATH results; FORMAT ENSIGHT; RESULTS_STORE_FREQUENCY EVERY_SUBSTEP; %s }
""" % (inp, *["HEAT_TRANSFER" if heat else "STRUCTURAL_MECHANICS"] * 2, len(steps), "\n".join(mats), " ".join("E%d %d;" % (i, i % len(ms) + 1) for i in range(len(m.eregions))), init, "\n".join(steps),
       "STORE_RESULTS ALL;" if heat else "STORE_RESULTS USER; RESULTS_SELECTION { DISPLACEMENT TRUE; VELOCITY TRUE; ACCELERATION TRUE; }")


def solve(case, ctx, make, run, ne):
    """run; where round-off does not let the iterative solver reach the precision, run again with a lower one"""
    try:
        P.run_solver(ctx, make(case), run, ne)
        return False
    except Violation as e:
        with open(os.path.join(ctx.dir, ".out")) as f:
            out = f.read()
        c = re.search(r"CLUSTERS +: +(\d+) +(\d+)", out)
        if c and int(c.group(2)) > 1 and any(s["sol"]["feti"].get("METHOD") == "HYBRID_FETI" for s in case["steps"]):
            raise Inconclusive("HYBRID FETI with more clusters per process is not implemented")
        if "FETI SOLVER ERROR" not in str(e) + out:
            raise
        norm = re.findall(r"^ *- +(\d+) +\S+ +(\S+) +\S+ - *$", out, re.M)
        first = [b for a, b in norm if a == "1"]
        if norm and not (float(norm[-1][1]) > 1e-10 and float(first[-1]) > 1e-10):
            raise Inconclusive("exact initial approximation of the multipliers")
        if case.get("loose"):
            raise
    low = dict(case, loose=True, steps=[dict(s, sol=dict(s["sol"], feti=dict(s["sol"]["feti"], PRECISION="1E-8"))) if s["sol"]["solver"] == "FETI" else s for s in case["steps"]])
    solve(low, ctx, make, run, ne)
    return True


def check(case, ctx):
    heat_ = case["kind"] == "heat"
    mod = H if heat_ else S
    bc = {}
    for s in case["steps"]:
        bc.update(s["bc"])
    probs = []
    for s in case["steps"]:
        m, lab, fixed = mod.problem(dict(at(case, s, 0), bc=bc))
        probs.append((m, fixed))
    run = dict(case["run"], np=max(1, min(case["run"]["np"], m.ne // 4)))
    if any(s["sol"]["solver"] != "FETI" for s in case["steps"]):
        run["np"] = 1
    run["domains"] = max(1, min(run["domains"], m.ne // run["np"] // 4))
    feti = any(s["sol"]["solver"] == "FETI" for s in case["steps"])
    hist = (heat if heat_ else struct)(case, m, lab, probs)
    sols = np.array([h[1] for h in hist])
    if not np.isfinite(sols).all() or np.abs(sols).max() > 1e6:
        raise Inconclusive("ill-conditioned problem")
    if feti and (np.ptp(sols) < 1e-3 * max(1e-12, np.abs(sols).max()) or min(np.ptp(x) for x in sols) < 1e-6 * max(1e-12, np.abs(sols).max())):
        raise Inconclusive("constant solution: nothing to solve for a relative stopping criterion")
    P.write_mesh(m, ctx.dir)
    loose = solve(case, ctx, lambda c: ecf(c, m, probs, run, P.ecf_input("VTK_LEGACY", "m.*.vtk", run)), run, m.ne)
    ens = O.EnSight(ctx.dir, "x")
    loc = M.Locator(m.coords)
    ts = [h[0] for h in hist]
    if len(ens.case["times"]) != len(ts) or np.abs(np.array(ens.case["times"]) - ts).max() > 1e-5 * max(ts):
        raise Violation("results are stored at times %s, expected %s" % (ens.case["times"], ts))
    tol = 2e-5 if not feti else 5e-3 if loose else 6e-4
    sc = np.abs(sols).max()
    for i, h in enumerate(hist):
        w = "substep %d (time %g): " % (i + 1, h[0])
        if heat_:
            P.compare_nodes(ens, "TEMPERATURE", h[1][:, None], loc, i + 1, tol, scale=sc, what=w)
            P.compare_elements(ens, m, "GRADIENT", h[2], loc, i + 1, tol * 5, scale=max(max(np.abs(g).max() for g in h[2]), sc / 10), what=w)
            P.compare_elements(ens, m, "FLUX", h[3], loc, i + 1, tol * 5, scale=max(max(np.abs(g).max() for g in h[3]), sc), what=w)
        else:
            P.compare_nodes(ens, "DISPLACEMENT", h[1].reshape(-1, 3), loc, i + 1, tol, scale=sc, what=w)
            if h[4]:
                P.compare_nodes(ens, "VELOCITY", h[2].reshape(-1, 3), loc, i + 1, tol, scale=max(np.abs(h[2]).max(), sc / h[4]), what=w)
                P.compare_nodes(ens, "ACCELERATION", h[3].reshape(-1, 3), loc, i + 1, tol, scale=max(np.abs(h[3]).max(), sc / h[4] ** 2), what=w)
    return {"nontrivial": len(hist) > 1 and np.abs(np.diff(sols, axis=0)).max() > 1e-6 * sc, "kind": case["kind"], "np": run["np"], "history": "+".join(s["type"][0] for s in case["steps"]),
            "solvers": "+".join(sorted({s["sol"]["solver"] + s["sol"]["feti"].get("PROJECTOR", "") for s in case["steps"]})), "substeps": len(hist)}
