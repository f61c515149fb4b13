"""FETI: every configuration and decomposition gives the solution of the discretized problem."""
import os, re
import numpy as np
from hypothesis import strategies as st
from vlib import mesh as M, outputs as O, physics as P, fem
from vlib.core import Violation, Inconclusive
from checks import heat_steady as H, struct_steady as S

PARAMS = {"quick": {"seconds": 90, "shrink": 60}, "thorough": {"seconds": 900, "shrink": 90}}
RULE = ("A case is a steady heat transfer or linear elasticity problem on a generated mesh (distorted, linear or quadratic elements, possibly several bodies of various sizes) with a random decomposition (ranks, domains, decomposer) and a "
        "random FETI configuration (method, dual operator, projector and its options, preconditioner, iterative solver, regularization, stopping criterion). Oracle: an independent direct finite element solution. "
        "Non-trivial: at least two domains in total and a non-zero solution.")


@st.composite
def feti(draw):
    o = {"METHOD": draw(st.sampled_from(["TOTAL_FETI", "TOTAL_FETI", "HYBRID_FETI", "HYBRID_FETI"]))}
    duals = ["IMPLICIT", "IMPLICIT", "EXPLICIT_GENERALSCHUR_CPU", "IMPLICIT_GENERALSPARSESOLVER_CPU"] + (["EXPLICIT"] if o["METHOD"] == "TOTAL_FETI" else [])
    o["DUAL_OPERATOR"] = draw(st.sampled_from(duals))
    o["PROJECTOR"] = "ORTHOGONAL"  # the conjugate projector is for regular matrices (transient problems)
    o["PROJECTOR_OPT"] = draw(st.sampled_from(["DEFAULT", "WITH_FACTORS", "FULL", "WITH_FACTORS|FULL"]))
    o["PRECONDITIONER"] = draw(st.sampled_from(["NONE", "LUMPED", "DIRICHLET", "DIRICHLET", "DIRICHLET_IMPLICIT", "DIRICHLET_GENERALSCHUR_CPU"]))
    o["ITERATIVE_SOLVER"] = draw(st.sampled_from(["PCG", "PCG", "orthogonalPCG", "SMALBE"]))
    o["REGULARIZATION"] = draw(st.sampled_from(["ANALYTIC", "ANALYTIC", "ALGEBRAIC"] + (["SVD"] if o["METHOD"] == "TOTAL_FETI" else [])))
    o["FIX_POINTS"] = draw(st.sampled_from(["METIS_CENTERS", "RANDOM"]))
    return o


@st.composite
def strategy_(draw, tier):
    kind = draw(st.sampled_from(["heat", "heat", "struct"]))
    hi = 5 if kind == "heat" else 4
    mesh = {"dim": 3, "n": [draw(st.integers(2, hi)) for _ in range(3)], "kinds": draw(st.sampled_from([["hexa"], ["hexa"], ["tetra"], ["prism"], ["hexa", "prism"], ["pyra"], ["hexa", "prism", "hexpyr"]])),
            "quadratic": draw(st.sampled_from([0, 0, 0, 1])), "jitter": draw(st.integers(0, 3)), "perm": draw(st.integers(0, 5)), "scale": draw(st.sampled_from([[1, 1, 1], [1, 1, 1], [0.3, 0.7, 1.1]])), "shift": [0, 0, 0], "gaps": []}
    gen = None
    if draw(st.booleans()):
        gen = {"cl": draw(st.sampled_from([[1, 1, 1], [2, 1, 1], [1, 1, 2], [2, 2, 1], [3, 1, 1], [1, 3, 1]])), "dm": [draw(st.integers(1, 2)) for _ in range(3)], "el": [draw(st.integers(1, 3)) for _ in range(3)]}
        mesh.update(n=[a * b * c for a, b, c in zip(gen["cl"], gen["dm"], gen["el"])], kinds=["hexa"], jitter=0, perm=0)
    case = {"kind": kind, "gen": gen, "mesh": mesh, "nreg": 1 if gen else draw(st.sampled_from([1, 1, 2])), "emode": draw(st.sampled_from(["random", "slices"])), "seed": draw(st.integers(0, 20)), "time": 1}
    case["run"] = {"np": draw(st.sampled_from([1, 1, 2, 3, 4])), "threads": draw(st.sampled_from([1, 1, 2, 3])), "decomposer": draw(st.sampled_from(["", "METIS", "PARMETIS", "HILBERT_CURVE"])),
                   "domains": draw(st.sampled_from([1, 2, 2, 3, 4, 5, 8])), "solver": "FETI", "feti": draw(feti())}
    if kind == "heat":
        case["mat"] = [draw(H.material(models=["ISOTROPIC", "DIAGONAL"], time=False, coords=False)) for _ in range(draw(st.integers(1, case["nreg"])))]
        case["source"] = draw(st.dictionaries(st.sampled_from(["ALL", "E0"]), P.scalar(), max_size=1))
        case["adv"], case["rho"] = {}, ["", ""]
        case["bc"] = {"F%d" % i: {draw(st.sampled_from(["HEAT_FLUX", "HEAT_FLOW"])): draw(P.scalar())} for i in draw(st.lists(st.integers(1, 5), max_size=2, unique=True))}
        case["dir"] = draw(st.sampled_from(["face", "node"]))
        case["T"] = [draw(P.scalar()), draw(P.scalar()) if draw(st.booleans()) else ""]
    else:
        case["mat"] = [draw(S.material()) for _ in range(draw(st.integers(1, case["nreg"])))]
        case["stress"] = False
        case["acc"] = {"ALL": S.vec(draw, partial=True)} if draw(st.booleans()) else {}
        case["ang"] = {}
        case["bc"] = {}
        for i in draw(st.lists(st.integers(1, 5), max_size=2, unique=True)):
            if draw(st.integers(0, 3)):
                case["bc"]["F%d" % i] = {"NORMAL_PRESSURE": draw(P.scalar())}
            else:
                case["bc"]["F%d" % i] = {"FORCE": dict(S.vec(draw, partial=True), _node=draw(st.booleans()))}
        case["fix"] = draw(st.sampled_from(["full", "rollers", "two"]))
        case["dirface"] = draw(st.booleans())
        case["U"] = [S.vec(draw, wrap=S.small) for _ in range(3)]
        case["ucomp"] = draw(st.sampled_from(["X", "XY", "XYZ"]))
    return case


def strategy(tier):
    return strategy_(tier)


def generator(case, m):
    """the same mesh by the internal generator"""
    g = case["gen"]
    hi = m.coords.max(axis=0)
    def box(nodes):
        x = m.coords[nodes]
        return " ".join("<%.10g , %.10g>" % (x[:, d].min(), x[:, d].max()) for d in range(3))
    s = ["INPUT_TYPE GENERATOR;", "GENERATOR { SHAPE GRID; GRID {", "START_X 0; START_Y 0; START_Z 0; LENGTH_X %.17g; LENGTH_Y %.17g; LENGTH_Z %.17g;" % tuple(hi),
         "ELEMENT_TYPE %s;" % ("HEXA20" if case["mesh"]["quadratic"] else "HEXA8")]
    for k, n in (("CLUSTERS", "cl"), ("DOMAINS", "dm"), ("ELEMENTS", "el")):
        s.append(" ".join("%s_%s %d;" % (k, d, v) for d, v in zip("XYZ", g[n])))
    s.append("NODES { %s }" % " ".join("%s %s;" % (n, box(v)) for n, v in m.nregions.items()))
    s.append("FACES { %s }" % " ".join("%s %s;" % (n, box(P.nodes_of(v))) for n, v in m.bregions.items()))
    s.append("ELEMENTS { E0 %s; }" % box(np.arange(len(m.coords))))
    s.append("} }")
    return "\n".join(s) + "\n"


def check(case, ctx):
    mod = H if case["kind"] == "heat" else S
    m, lab, fixed = mod.problem(case)
    run = dict(case["run"], np=max(1, min(case["run"]["np"], m.ne // 8)))
    force = any("FORCE" in bc for bc in case["bc"].values())
    if force:
        run["np"] = 1  # known finding of C11: each process adds the force of a shared node
    run["domains"] = max(1, min(run["domains"], m.ne // run["np"] // 4))
    if case["gen"]:
        if force and np.prod(case["gen"]["cl"]) > 1:
            raise Inconclusive("nodal forces on shared nodes")
        run["np"], run["domains"] = int(np.prod(case["gen"]["cl"])), int(np.prod(case["gen"]["dm"]))
    if case["kind"] == "heat":
        u = H.reference(case, m, lab, fixed)[0][:, None]
        var = "TEMPERATURE"
        trivial = np.ptp(u) < 1e-3 * max(1e-12, np.abs(u).max())
    else:
        u, K, f, keep = S.reference(case, m, lab, fixed)
        var = "DISPLACEMENT"
        trivial = max(np.abs(S.strain(b, u)).max() for b, C, nu in keep) < 1e-5 * np.abs(u).max() + 1e-9
    if not np.isfinite(u).all() or np.abs(u).max() > 1e7:
        raise Inconclusive("ill-conditioned problem")
    if trivial:
        raise Inconclusive("constant solution: nothing to solve for a relative stopping criterion")
    inp = generator(case, m) if case["gen"] else P.ecf_input(*P.write_mesh(m, ctx.dir), run)
    o = run["feti"]
    try:
        P.run_solver(ctx, mod.ecf(case, m, fixed, run, inp), run, m.ne)
        ens = O.EnSight(ctx.dir, "x")
        P.compare_nodes(ens, var, u, M.Locator(m.coords), 1, 2e-4)
    except Violation:
        with open(os.path.join(ctx.dir, ".out")) as f:
            out = f.read()
        c = re.search(r"CLUSTERS +: +(\d+) +(\d+)", out)
        if o["ITERATIVE_SOLVER"] == "SMALBE":  # it does not print norms of residuals
            try:
                P.run_solver(ctx, mod.ecf(case, m, fixed, dict(run, feti=dict(o, ITERATIVE_SOLVER="PCG")), inp), run, m.ne)
            except Violation:
                pass
            with open(os.path.join(ctx.dir, ".out")) as f:
                out = f.read()
        it = re.search(r"^ +- +1 +([0-9.e+-]+) +([0-9.e+-]+) ", out, re.M)
        if it and float(it.group(2)) < 1e-9 * float(it.group(1)):
            raise Inconclusive("the initial approximation is exact: a relative stopping criterion cannot be reached")
        if o["METHOD"] == "HYBRID_FETI" and c and int(c.group(2)) > 1:
            raise Inconclusive("HYBRID FETI with more clusters per process is not implemented")
        raise
    return {"nontrivial": run["np"] * run["domains"] > 1, "np": run["np"], "domains": run["domains"], "kind": case["kind"], "method": o["METHOD"], "dual": o["DUAL_OPERATOR"],
            "projector": o["PROJECTOR"] + "/" + o["PROJECTOR_OPT"], "preconditioner": o["PRECONDITIONER"], "iterative": o["ITERATIVE_SOLVER"], "regularization": o["REGULARIZATION"]}
