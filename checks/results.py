"""What is stored of a simulation does not depend on how it is stored."""
import os, re
import numpy as np
from hypothesis import strategies as st
from vlib import mesh as M, outputs as O, physics as P
from vlib.core import Violation, Inconclusive
from checks import heat_steady as H, struct_steady as S, transient as T

PARAMS = {"quick": {"seconds": 80, "shrink": 60}, "thorough": {"seconds": 900, "shrink": 90}}
RULE = ("A case is a heat transfer or elasticity simulation (steady or a history of load steps) on a generated mesh, stored twice: as synchronous EnSight with every substep, and with a generated format, mode (synchronous or "
        "asynchronous thread), writer, stripes, store frequency and selection of results. Oracle: both runs must hold the same values of every variable on every region in every substep, and exactly the substeps "
        "that the frequency selects. Non-trivial: the second run stores at least one changing variable in another way than the first.")

SELECT = {"heat": ["TEMPERATURE", "GRADIENT", "FLUX"], "struct": ["DISPLACEMENT", "VELOCITY", "ACCELERATION", "STRESS", "REACTIONS"]}
VARS = {"TEMPERATURE": ["TEMPERATURE"], "GRADIENT": ["GRADIENT"], "FLUX": ["FLUX"], "DISPLACEMENT": ["DISPLACEMENT"], "VELOCITY": ["VELOCITY"], "ACCELERATION": ["ACCELERATION"], "REACTIONS": ["REACTION_FORCES"]}


@st.composite
def strategy_(draw, tier):
    case = draw(T.strategy(tier))
    if draw(st.integers(0, 2)) == 0:
        case["steps"] = [dict(case["steps"][0], type="steady")]
        if case["steps"][0]["sol"]["solver"] == "FETI":
            case["steps"][0]["sol"]["feti"].pop("PROJECTOR", None)
    sel = SELECT[case["kind"]]
    case["out"] = {"format": draw(st.sampled_from(["ENSIGHT", "VTK_LEGACY", "VTK_LEGACY"])), "mode": draw(st.sampled_from(["SYNC", "PTHREAD"])), "writer": draw(st.sampled_from(["", "MPI", "MPI_COLLECTIVE"])),
                   "stripe": draw(st.sampled_from([0, 0, 64, 1000, 4096])), "count": draw(st.sampled_from([0, 0, 1, 2])),
                   "freq": draw(st.sampled_from(["EVERY_SUBSTEP", "EVERY_SUBSTEP", "EVERY_NTH_SUBSTEP", "LAST_SUBSTEP", "NEVER"])), "nth": draw(st.integers(1, 3)),
                   "select": draw(st.sampled_from(["ALL", "BASIC", "USER", "USER"])), "user": draw(st.lists(st.sampled_from(sel), unique=True, max_size=3)), "decomposition": draw(st.booleans())}
    case["stress"] = case["kind"] == "struct" and draw(st.booleans())
    return case


def strategy(tier):
    return strategy_(tier)


def ecf_output(o):
    s = "OUTPUT { PATH results; FORMAT %s; MODE %s; RESULTS_STORE_FREQUENCY %s; RESULTS_NTH_STEPPING %d; STORE_RESULTS %s;" % (o["format"], o["mode"], o["freq"], o["nth"], o["select"])
    if o["select"] == "USER":
        s += " RESULTS_SELECTION { %s }" % " ".join("%s %s;" % (k, "TRUE" if k in o["user"] else "FALSE") for k in o["names"])
    for k, n in (("writer", "WRITER"), ("stripe", "STRIPE_SIZE"), ("count", "STRIPE_COUNT")):
        if o[k]:
            s += " %s %s;" % (n, o[k])
    if o.get("decomposition"):
        s += " STORE_DECOMPOSITION 1;"
    return s + o.get("monitors", "") + " }\n"


def setup(case):
    heat = case["kind"] == "heat"
    mod = H if heat else S
    bc = {}
    for s in case["steps"]:
        bc.update(s["bc"])
    probs = []
    for s in case["steps"]:
        m, lab, fixed = mod.problem(dict(T.at(case, s, 0), bc=bc))
        probs.append((m, fixed))
    run = dict(case["run"], np=max(1, min(case["run"]["np"], m.ne // 4)))
    if any(s["sol"]["solver"] != "FETI" for s in case["steps"]):
        run["np"] = 1
    run["domains"] = max(1, min(run["domains"], m.ne // run["np"] // 4))
    return m, lab, probs, run


def make(case, m, probs, run, out):
    txt = T.ecf(case, m, probs, run, P.ecf_input("VTK_LEGACY", "m.*.vtk", run))
    return txt[:txt.rindex("OUTPUT {")] + ecf_output(out)


def simulate(case, ctx, m, probs, run, out, sub):
    """run the simulation in directory sub of ctx.dir"""
    d = os.path.join(ctx.dir, sub)
    os.makedirs(d)
    P.write_mesh(m, d)
    save = ctx.dir
    ctx.dir = d
    try:
        T.solve(case, ctx, lambda c: make(c, m, probs, run, out), run, m.ne)
    except Violation as e:
        if "FETI SOLVER ERROR" in str(e):
            raise Inconclusive("the iterative solver does not reach the precision")
        raise
    finally:
        ctx.dir = save
    return d

def values(res, name, step, loc):
    """{(part, node index) or (part, type, nodes): value}"""
    out = {}
    for p, v in zip(res.parts, res.var(name, step)):
        if v is None:
            continue
        idx, bl = res.region(p, loc)
        if (idx < 0).any():
            raise Violation("part %s has a node that is not in the mesh" % p["name"])
        if isinstance(v, dict):
            for t, c in bl:
                for row, x in zip(c.tolist(), v[t]):
                    out[(p["name"], t, tuple(row))] = x
        else:
            for i, x in zip(idx.tolist(), v):
                out[(p["name"], i)] = x
    return out


def stored(case, counts):
    """indices (from 0) of the substeps that the frequency selects; counts = substeps per load step"""
    o, sel, k = case["out"], [], 0
    for n in counts:
        for i in range(n):
            if o["freq"] == "EVERY_SUBSTEP" or (o["freq"] == "EVERY_NTH_SUBSTEP" and (i + 1) % o["nth"] == 0) or (o["freq"] == "LAST_SUBSTEP" and i + 1 == n):
                sel.append(k)
            k += 1
    return sel


def counts_of(case):
    c, start = [], 0.0
    for s in case["steps"]:
        if s["type"] == "steady":
            c.append(1)
            start = s["dur"]
        else:
            ts, start = T.times(s, start)
            c.append(len(ts))
    return c


SYM = [0, 3, 5, 3, 1, 4, 5, 4, 2]


def check(case, ctx):
    m, lab, probs, run = setup(case)
    o = dict(case["out"], names=SELECT[case["kind"]])
    if not case["stress"]:
        o["names"] = [n for n in o["names"] if n != "STRESS"]
    if case["kind"] == "struct" and not case["stress"] and o["select"] != "BASIC":
        o["select"] = "USER"
    if o["select"] == "USER":
        o["user"] = [u for u in o["user"] if u in o["names"]] or o["names"][:1]
    ref_o = dict(o, format="ENSIGHT", mode="SYNC", freq="EVERY_SUBSTEP", writer="", stripe=0, count=0)
    if ref_o["select"] == "USER":
        ref_o["user"] = o["names"]
    a = simulate(case, ctx, m, probs, run, ref_o, "a")
    b = simulate(case, ctx, m, probs, run, o, "b")
    loc = M.Locator(m.coords)
    ens = O.EnSight(a, "x")
    times = ens.case["times"]
    counts = counts_of(case)
    if len(times) != sum(counts):
        raise Violation("%d substeps are stored, expected %d" % (len(times), sum(counts)))
    sel = stored(case, counts)
    res_dir = O.result_dir(b)
    if o["freq"] == "NEVER":
        left = [f for r, _, fs in os.walk(res_dir) for f in fs if f.endswith((".case", ".geo", ".vtk"))]
        if left:
            raise Violation("results are stored although the store frequency is NEVER: %s" % left[:3])
        return {"nontrivial": False, "format": "none", "freq": "NEVER", "mode": o["mode"], "kind": case["kind"]}
    if o["format"] == "ENSIGHT":
        other = O.EnSight(b, "x")
        if len(other.case["times"]) != len(sel) or np.abs(np.array(other.case["times"]) - np.array([times[i] for i in sel])).sum() > 1e-5 * max(times):
            raise Violation("%s %d stores times %s of %s" % (o["freq"], o["nth"], other.case["times"], times))
        names = {n for _, _, n, _ in other.case["vars"]} - {"BODY", "DOMAIN", "CLUSTER", "MPI"}
    else:
        O.VTK(b, "x", suffix="")
        files = sorted(f for f in os.listdir(os.path.join(res_dir, "PREPOSTDATA")) if f.endswith(".vtk")) if os.path.isdir(os.path.join(res_dir, "PREPOSTDATA")) else []
        tt = sorted({float(re.search(r"\.(\d+\.\d{6})\.vtk$", f).group(1)) for f in files})
        exp = sorted({round(times[i], 6) for i in sel})
        if len(tt) != len(exp) or (tt and np.abs(np.array(tt) - exp).max() > 1e-5 * max(times)):
            raise Violation("%s %d stores times %s of %s" % (o["freq"], o["nth"], tt, times))
        names = None
    if o["select"] == "USER" and names is not None:
        for u in o["names"]:
            for v in VARS.get(u, []):
                if ((u in o["user"] and v not in names) or (u not in o["user"] and v in names and v != "TEMPERATURE")) and len(sel):
                    raise Violation("results selection %s stores variables %s" % (o["user"], sorted(names)))
    steady = all(s["type"] == "steady" for s in case["steps"])
    changing = False
    for k, i in enumerate(sel):
        if o["format"] == "ENSIGHT":
            new, st_ = other, k + 1
        else:
            new, st_ = O.VTK(b, "x", suffix=".%.6f" % times[i], sub="PREPOSTDATA"), None
            if len(new.parts) != len(ens.parts):
                raise Violation("%d regions are stored at time %g, %d in EnSight" % (len(new.parts), times[i], len(ens.parts)))
            names = (set(new.names("node")) | set(new.names("element"))) - {"DOMAIN", "CLUSTER", "MPI"}
        refnames = {n: r for r, w, n, _ in ens.case["vars"]}
        if o["select"] == "ALL" and (names ^ set(refnames)) - {"BODY", "DOMAIN", "CLUSTER", "MPI"}:
            raise Violation("stored variables %s, expected %s" % (sorted(names), sorted(refnames)))
        for n in sorted(names):
            if n not in refnames:
                raise Violation("variable %s is not stored by EnSight (%s)" % (n, sorted(refnames)))
            x, y = values(ens, n, i + 1, loc), values(new, n, st_, loc)
            if refnames[n] == "tensor symm" and o["format"] != "ENSIGHT":
                x = {q: w[SYM] for q, w in x.items()}
            if set(x) != set(y):
                # the reference stores element data for regions of elements only, and so does every format
                d = sorted(set(x) ^ set(y), key=str)[0]
                raise Violation("%s at time %g: stored for %s only by one of the formats" % (n, times[i], d))
            xa, ya = np.array([x[q] for q in x], float), np.array([y[q] for q in x], float)
            if not len(xa):
                continue
            fin = np.isfinite(xa)
            sc = np.abs(xa[fin]).max() if fin.any() else 0.0
            tol = 1e-4 * sc + (2e-6 if o["format"] != "ENSIGHT" else 0) + 1e-12
            d = np.where(np.isnan(xa) & np.isnan(ya), 0, np.abs(xa - ya))
            if not (d <= tol).all():
                q = list(x)[int(np.argmax(np.where(np.isfinite(d), d, np.inf).max(axis=1)))]
                raise Violation("%s at time %g of %s is %s, EnSight stores %s" % (n, times[i], q, y[q].tolist(), x[q].tolist()))
            if sc > 1e-9 and np.ptp(xa[fin]) > 1e-6 * sc:
                changing = True
    return {"nontrivial": changing and (o["format"] != "ENSIGHT" or o["mode"] != "SYNC" or o["freq"] != "EVERY_SUBSTEP" or bool(o["stripe"] or o["count"] or o["writer"])), "format": o["format"], "mode": o["mode"], "freq": o["freq"],
            "np": run["np"], "select": o["select"], "kind": case["kind"], "stress": case["stress"]}
