"""VTK legacy import (one file per region)."""
import os
from hypothesis import strategies as st
from vlib import mesh as M, formats as F, outputs as O, impcheck as I
from checks.ensight_import import parts_of

PARAMS = {"quick": {"seconds": 60, "shrink": 60}, "thorough": {"seconds": 600, "shrink": 60}}
RULE = ("A case is a generated conforming 3D mesh (all element types, linear or quadratic, jittered, permuted, possibly several bodies) whose element, face, edge and node regions are "
        "written to one ASCII VTK legacy file each (values per line and trailing data sections vary) and converted with random rank, thread, loader, stripe and decomposer settings. "
        "Non-trivial: >= 4 elements and >= 2 named regions.")


@st.composite
def strategy_(draw, tier):
    case = {"mesh": draw(I.mesh_params(big={"percent": 8, "n3": (11, 15), "n2": (40, 60)})), "reg": draw(I.region_params(edges=True)), "run": draw(I.run_params()),
            "style": draw(st.sampled_from([0, 1, 8, 9, 16, 17, 24, 25])), "shuffle": draw(st.integers(0, 3)), "order": 0}
    if max(case["mesh"]["n"]) > 8:
        case["style"] &= 15
    if case["style"] & 16:  # more likely to be split: a few hundreds of kB, small stripes
        case["run"]["stripe"] = draw(st.sampled_from([1024, 4096, 16384, 65536, 1 << 17]))
    return case


def strategy(tier):
    return strategy_(tier)


def check(case, ctx):
    m = I.assign(M.make(case["mesh"]), case["reg"])
    run = I.eff_run(case["run"], m.ne)
    size = 0
    for name, c, b, pts in parts_of(m, case):
        f = os.path.join(ctx.dir, "m.%s.vtk" % name)
        F.vtk(f, c, b, pts, style=case["style"])
        size = max(size, os.path.getsize(f))
    r = I.run_mesio(ctx, I.input_ecf("VTK_LEGACY", "m.*.vtk", run, dim=m.dim), run, ne=m.ne)
    I.compare(m, O.EnSight(ctx.dir, "x"), O.stats(r.out))
    return {"nontrivial": I.nontrivial(m, run), "np": run["np"], "dim": m.dim, "style": case["style"],
            "split": size > 65536 and run["np"] > 1, "quadratic": case["mesh"]["quadratic"]}
