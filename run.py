#!/usr/bin/env python3-vt
"""run.py <property id>: decide one property on /repo's current tree"""
import importlib
import os
import sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(ROOT, "engine"), os.path.join(ROOT, "checks")]
sys.dont_write_bytecode = True
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
import vlib
pid = sys.argv[1]
mod, fn = {
    "C01": ("scalar", "c01"), "C02": ("scalar", "c02"), "C03": ("scalar", "c03"), "C04": ("scalar", "c04"),
    "C05": ("scalar", "c05"), "C06": ("scalar", "c06"), "C07": ("scalar", "c07"),
    "C08": ("readers", "c08"), "C09": ("readers", "c09"), "C10": ("readers", "c10"), "C11": ("readers", "c11"), "C26": ("readers", "c26"), "C33": ("readers", "c33"), "C34": ("readers", "c34"),
    **{p: ("spartan", p.lower()) for p in ("C15", "C16", "C17", "C18", "C19", "C20", "C21", "C27", "C28", "C38")},
    **{p: ("circuits", p.lower()) for p in ("C22", "C23", "C24")},
    "C14": ("poseidon", "c14"), **{p: ("secq", p.lower()) for p in ("C12", "C29", "C30")}, "C13": ("hash2curve", "c13"), "C31": ("hash2curve", "c31"), "C25": ("client", "c25"), "C32": ("client", "c32"), "C35": ("keccak", "c35"), "C36": ("client", "c36"), "C37": ("hiding", "c37"),
}[pid]


def go(c):
    getattr(importlib.import_module(mod), fn)(c)


r = vlib.main(pid, go)
sys.stdout.flush()
sys.exit(r)
