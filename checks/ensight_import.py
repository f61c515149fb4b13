"""EnSight Gold import (ASCII and C binary)."""
import os
import numpy as np
from hypothesis import strategies as st
from vlib import mesh as M, formats as F, outputs as O, impcheck as I
from vlib.core import Violation

PARAMS = {"quick": {"seconds": 75, "shrink": 60}, "thorough": {"seconds": 600, "shrink": 60}}
RULE = ("A case is a generated conforming 2D/3D mesh (all element types, linear or quadratic, jittered, permuted, possibly several bodies) with "
        "element, boundary and node regions, written as an EnSight Gold file (ASCII or C binary, ids off/given/assign/ignore, shuffled part nodes) and converted with random "
        "rank, thread, loader, stripe and decomposer settings. Non-trivial: >= 4 elements and >= 2 named regions. Files above 64 KB are split over ranks.")


@st.composite
def strategy_(draw, tier):
    return {"mesh": draw(I.mesh_params(big={"percent": 12, "n3": (11, 15), "n2": (40, 60)})), "reg": draw(I.region_params(edges=True)), "run": draw(I.run_params()),
            "binary": draw(st.booleans()), "nid": draw(st.sampled_from(["off", "given", "assign", "ignore"])),
            "eid": draw(st.sampled_from(["off", "given", "assign", "ignore"])), "shuffle": draw(st.integers(0, 3)), "order": draw(st.integers(0, 5))}


def strategy(tier):
    return strategy_(tier)


def parts_of(m, case):
    parts = []
    for name, ids in m.eregions.items():
        c, b = F.local(m.coords, m.region_blocks(ids), shuffle=case["shuffle"])
        parts.append((name, c, b, None))
    for name, bl in m.bregions.items():
        c, b = F.local(m.coords, bl, shuffle=case["shuffle"])
        parts.append((name, c, b, None))
    for name, ids in m.nregions.items():
        c, pts = F.local(m.coords, nodes=ids, shuffle=case["shuffle"])
        parts.append((name, c, None, pts))
    order = np.random.RandomState(case["order"]).permutation(len(parts)) if case["order"] else range(len(parts))
    return [parts[i] for i in order]


def check(case, ctx):
    m = I.assign(M.make(case["mesh"]), case["reg"])
    parts = parts_of(m, case)
    run = I.eff_run(case["run"], m.ne)
    F.ensight_case(os.path.join(ctx.dir, "m.case"), "m.geo")
    geo = os.path.join(ctx.dir, "m.geo")
    (F.ensight_binary if case["binary"] else F.ensight_ascii)(geo, parts, case["nid"], case["eid"])
    r = I.run_mesio(ctx, I.input_ecf("ENSIGHT", "m.case", run, dim=m.dim), run, ne=m.ne)
    I.compare(m, O.EnSight(ctx.dir, "x"), O.stats(r.out))
    return {"nontrivial": I.nontrivial(m, case["run"]), "np": run["np"], "dim": m.dim, "binary": case["binary"],
            "split": os.path.getsize(geo) > 65536 and run["np"] > 1, "quadratic": case["mesh"]["quadratic"]}
