#!/usr/bin/env python3
"""run.py <property id> [--tier quick|thorough] [--replay FILE]"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core
MODS = {
    "C01": "checks.generator",
    "C02": "checks.ensight_import",
    "C03": "checks.vtk_import",
    "C04": "checks.ansys_import",
    "C05": "checks.tet_import",
    "C06": "checks.output_mesh",
    "C07": "checks.api",
    "C08": "checks.modify",
    "C09": "checks.ecf",
    "C10": "checks.heat_steady",
    "C11": "checks.struct_steady",
    "C12": "checks.feti_config",
    "C13": "checks.transient",
    "C14": "checks.nonlinear",
    "C16": "checks.monitors",
    "C18": "checks.planar",
    "C19": "checks.results",
}
if __name__ == "__main__":
    pid = sys.argv.pop(1)
    sys.exit(core.main(pid, MODS[pid]))
