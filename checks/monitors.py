"""Monitors (.emr) against statistics of the results stored by the same run."""
import os, re
import numpy as np
from hypothesis import strategies as st
from vlib import mesh as M, outputs as O, physics as P
from vlib.core import Violation, Inconclusive
from checks import transient as T, results as R

PARAMS = {"quick": {"seconds": 75, "shrink": 60}, "thorough": {"seconds": 900, "shrink": 90}}
RULE = ("A case is a heat transfer or elasticity simulation (steady or a history of load steps) on a generated mesh with one to six generated monitors (region of elements, faces or nodes, property or a component of it, statistics), "
        "with a generated store frequency, ranks, threads and synchronous or asynchronous results. Oracle: minimum, maximum, average, norm, absolute minimum and maximum computed from the results that the same run stores in every substep; "
        "the rows of the monitor file must be those of the substeps that the frequency selects. Non-trivial: at least one monitored property that is not constant over its region.")

STATS = ["MIN", "MAX", "AVG", "NORM", "ABSMIN", "ABSMAX"]
HEAD = {"MIN": "<MIN>", "MAX": "<MAX>", "AVG": "<AVERAGE>", "NORM": "<NORM>", "ABSMIN": "<ABSMIN>", "ABSMAX": "<ABSMAX>"}
XYZ = ["", "_X", "_Y", "_Z"]
TENSOR = ["_XX", "_YY", "_ZZ", "_XY", "_YZ", "_XZ"]
NODE = {"heat": ["TEMPERATURE"], "struct": ["DISPLACEMENT", "DISPLACEMENT", "VELOCITY", "ACCELERATION"]}
# AVG_* values at nodes may be undefined (pyramids), only element values are monitored
STRESS = ["VON_MISES_STRESS", "VON_MISES_STRAIN"] + ["PRINCIPAL_%s_%s" % (a, b) for a in ("STRESS", "STRAIN") for b in ("1ST", "2ND", "3RD")] + ["COMPONENT_%s%s" % (a, b) for a in ("STRESS", "STRAIN") for b in TENSOR]


@st.composite
def monitor(draw, kind, stress):
    loc = draw(st.sampled_from(["node", "node", "element"] if kind == "heat" or stress else ["node"]))
    if loc == "node":
        p = draw(st.sampled_from(NODE[kind]))
        p += draw(st.sampled_from(XYZ)) if kind == "struct" else ""
    elif kind == "heat":
        p = draw(st.sampled_from(["GRADIENT", "FLUX"])) + draw(st.sampled_from(XYZ))
    else:
        p = draw(st.sampled_from(STRESS))
    return {"loc": loc, "prop": p, "stat": draw(st.sampled_from(STATS)), "region": draw(st.integers(0, 30)), "lower": draw(st.integers(0, 5)) == 0}


@st.composite
def strategy_(draw, tier):
    case = draw(T.strategy(tier))
    case["stress"] = case["kind"] == "struct" and draw(st.booleans())
    if draw(st.integers(0, 2)) == 0:
        case["steps"] = [dict(case["steps"][0], type="steady")]
        if case["steps"][0]["sol"]["solver"] == "FETI":
            case["steps"][0]["sol"]["feti"].pop("PROJECTOR", None)
    n = draw(st.integers(1, 6))
    case["monitors"] = [draw(monitor(case["kind"], case["stress"])) for _ in range(n)]
    case["gap"] = draw(st.sampled_from([0, 0, 0, 2]))
    case["freq"] = draw(st.sampled_from(["EVERY_SUBSTEP", "EVERY_SUBSTEP", "EVERY_NTH_SUBSTEP", "LAST_SUBSTEP", "NEVER"]))
    case["nth"] = draw(st.integers(1, 3))
    case["mode"] = draw(st.sampled_from(["SYNC", "SYNC", "PTHREAD"]))
    return case


def strategy(tier):
    return strategy_(tier)


def regions(case, m):
    """names of regions for node and element properties"""
    e = ["ALL_ELEMENTS"] + list(m.eregions)
    return {"element": e, "node": e + ["ALL_NODES"] + list(m.bregions) + list(m.nregions)}


def read_emr(path):
    """(regions, properties, statistics, rows)"""
    lines = open(path).read().split("\n")
    head = [[x.strip() for x in l.split(";")] for l in lines[:3]]
    if len(head) < 3 or head[1][:3] != ["loadstep", "substep", "time"] or lines[3].strip():
        raise Violation("invalid header of the monitor file: %s" % lines[:4])
    rows = [[x.strip() for x in l.split(";")] for l in lines[4:] if l.strip()]
    return [h[3:] for h in head], rows


def collect(res, prop, step, loc, region, m):
    """values of prop over the region (each node / element once)"""
    names = {n: (r, w) for r, w, n, _ in res.case["vars"]}
    base, comp = prop, None
    if prop not in names:
        for suf, tab in ((prop[-2:], XYZ), (prop[-3:], TENSOR)):
            if suf in tab and prop[:-len(suf)] in names:
                base, comp = prop[:-len(suf)], tab.index(suf) - (1 if tab is XYZ else 0)
    if base not in names:
        raise Violation("property %s is monitored but not stored (%s)" % (prop, sorted(names)))
    vals = R.values(res, base, step, loc)
    out = {}
    for q, v in vals.items():
        if region in ("ALL_ELEMENTS", "ALL_NODES") or q[0] == region:
            out[q[1:]] = v
    if not out:
        raise Violation("%s is not stored for region %s" % (base, region))
    a = np.array([out[q] for q in out], float)
    if comp is not None:
        return a[:, comp]
    return a[:, 0] if a.shape[1] == 1 else np.linalg.norm(a, axis=1)


def statistic(a, s):
    return {"MIN": a.min, "MAX": a.max, "AVG": a.mean, "NORM": lambda: np.sqrt((a * a).sum()), "ABSMIN": np.abs(a).min, "ABSMAX": np.abs(a).max}[s]()


def check(case, ctx):
    m, lab, probs, run = R.setup(case)
    reg = regions(case, m)
    mons = [dict(x, region=reg[x["loc"]][x["region"] % len(reg[x["loc"]])], stat=x["stat"]) for x in case["monitors"]]
    idx = [i + 1 + (case["gap"] if i else 0) for i in range(len(mons))]
    txt = " MONITORS_STORE_FREQUENCY %s; MONITORS_NTH_STEPPING %d; MONITORING {" % (case["freq"], case["nth"])
    for i, x in zip(idx, mons):
        txt += " %d { REGION %s; STATISTICS %s; PROPERTY %s; }" % (i, x["region"].lower() if x["lower"] else x["region"], x["stat"], x["prop"].lower() if x["lower"] else x["prop"])
    names = [n for n in R.SELECT[case["kind"]] if n != "STRESS" or case["stress"]]
    out = {"format": "ENSIGHT", "mode": case["mode"], "freq": "EVERY_SUBSTEP", "nth": 1, "select": "USER", "user": names, "names": names, "writer": "", "stripe": 0, "count": 0, "monitors": txt + " }"}
    d = R.simulate(case, ctx, m, probs, run, out, "a")
    ens = O.EnSight(d, "x")
    counts = R.counts_of(case)
    times = ens.case["times"]
    if len(times) != sum(counts):
        raise Violation("%d substeps are stored, expected %d" % (len(times), sum(counts)))
    path = os.path.join(O.result_dir(d), "x.emr")
    base = {"kind": case["kind"], "freq": case["freq"], "np": run["np"], "mode": case["mode"], "history": "+".join(s["type"][0] for s in case["steps"]), "monitors": len(mons)}
    if case["freq"] == "NEVER":
        if os.path.exists(path):
            raise Violation("monitors are stored although the store frequency is NEVER")
        return dict(base, nontrivial=False)
    if not os.path.exists(path):
        raise Violation("the monitor file is missing")
    head, rows = read_emr(path)
    for x, i in zip(mons, idx):
        got = [h[i - 1] if i - 1 < len(h) else None for h in head]
        if [got[0].upper(), got[1].upper(), got[2]] != [x["region"].upper(), x["prop"], HEAD[x["stat"]]]:
            raise Violation("column %d of the monitor file is %s, configured %s %s %s" % (i, got, x["region"], x["prop"], x["stat"]))
    # (load step, substep, index of stored results)
    exp, k = [], 0
    for l, n in enumerate(counts):
        for i in range(n):
            if case["freq"] == "EVERY_SUBSTEP" or (case["freq"] == "EVERY_NTH_SUBSTEP" and (i + 1) % case["nth"] == 0) or (case["freq"] == "LAST_SUBSTEP" and i + 1 == n):
                exp.append((l + 1, i + 1, k))
            k += 1
    last = [e for e in exp if e[0] == len(counts)]
    key = [(int(r[0]), int(r[1])) for r in rows]
    if key != [e[:2] for e in exp]:
        # known finding: the file is rewritten in each load step
        if key != [e[:2] for e in last] or case.get("strict"):
            raise Violation("monitors are stored for (load step, substep) %s, expected %s" % (key, [e[:2] for e in exp]))
        exp = last
    loc = M.Locator(m.coords)
    nontrivial = False
    for r, (l, i, k) in zip(rows, exp):
        if abs(float(r[2]) - times[k]) > 1e-5 * max(1, max(times)):
            raise Violation("monitors of load step %d, substep %d are stored at time %s, results at %g" % (l, i, r[2], times[k]))
        for x, c in zip(mons, idx):
            a = collect(ens, x["prop"], k + 1, loc, x["region"], m)
            e = statistic(a, x["stat"])
            sc = np.abs(a).max() * (np.sqrt(len(a)) if x["stat"] == "NORM" else 1)
            try:
                v = float(r[2 + c])
            except (ValueError, IndexError):
                raise Violation("%s(%s) of %s is not stored (row %s)" % (x["stat"], x["prop"], x["region"], r))
            tol = 2e-5 * sc + 1e-37
            ok = abs(v - e) <= tol
            if not ok and x["loc"] == "element" and x["stat"] == "AVG" and not case.get("strict"):
                # known finding: the sum over elements is divided by the number of nodes of the region
                nn = len(np.unique(np.concatenate([q.ravel() for _, q in (m.blocks if x["region"] == "ALL_ELEMENTS" else m.region_blocks(m.eregions[x["region"]]))])))
                ok = abs(v - a.sum() / nn) <= tol
            if not ok:
                raise Violation("load step %d, substep %d: %s of %s over %s is monitored as %s, the stored results give %g" % (l, i, x["stat"], x["prop"], x["region"], r[2 + c], e))
            nontrivial |= sc > 0 and np.ptp(a) > 1e-4 * sc
    return dict(base, nontrivial=bool(nontrivial), rows=len(rows))
