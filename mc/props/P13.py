"""Cosmological parameters and simulation constants: every sequence of setter calls against an explicit model of the state."""
import itertools
import math
import numpy as np
from mc import core
from mc.core import FnSuite, call, near, expect, eq, digest, must_raise

LEVEL = "model_checking"
ASSUMPTIONS = ["conv's constants are those of the cosmology at the time of set_sim_constants (documented order of use)",
               "OmegaL only follows set_omega_lambda: the existing test suite pins that set_omega_matter leaves it"]

PC = 3.086e18
MPC = 1e6 * PC
G = 6.6732e-8
NB = {425.: 10976, 114.: 6144, 64.: 3456, 37.: 2048, 500.: 13824, 244.: 8000, 47.: 3456, 200.: 3456}
INIT = {"h": .7, "Om": .27, "lam": .73, "OL": .73, "Ob": .044, "ns": .96, "s8": .8, "he": .2486}
_saved = {}


def reset():
    t = core.t2c()
    for m in (t.const, t.conv):
        if m.__name__ not in _saved:
            _saved[m.__name__] = dict(m.__dict__)
        s = _saved[m.__name__]
        for k in list(m.__dict__):
            if k not in s:
                del m.__dict__[k]
        m.__dict__.update(s)
    return t


class Model:
    def __init__(s):
        s.p = dict(INIT)
        s.sim = (244., 8000, .7, .27)

    def step(s, op, v):
        p = s.p
        if op == "h":
            p["h"] = v
        elif op == "om":
            p["Om"], p["lam"] = v, 1 - v
        elif op == "lam":
            p["lam"] = p["OL"] = v
        elif op == "ob":
            p["Ob"] = v
        elif op == "ns":
            p["ns"] = v
        elif op == "s8":
            p["s8"] = v
        elif op == "he":
            p["he"] = v
        elif op == "sim":
            s.sim = (v, NB[v], p["h"], p["Om"])

    def derived(s):
        p = s.p
        H0 = 100 * p["h"]
        cgs = H0 * 1e5 / MPC
        rc = 3 * cgs ** 2 / (8 * math.pi * G)
        nh = (1 - p["he"]) * p["Ob"] * rc / 1.672661e-24
        l0 = 3e10 / 1.42e9
        return {"h": p["h"], "H0": H0, "Omega0": p["Om"], "lam": p["lam"], "OmegaL": p["OL"], "OmegaB": p["Ob"], "n_s": p["ns"], "sigma_8": p["s8"],
                "abu_he_mass": p["he"], "abu_h_mass": 1 - p["he"], "mean_molecular": 1 / (1 - p["he"]), "q0": .5 * p["Om"] - p["lam"], "H0cgs": cgs,
                "rho_crit_0": rc, "rho_matter": rc * p["Om"], "num_h_0": nh,
                "meandt": 3 * l0 ** 3 / (32 * math.pi) * 2.85e-15 * .068 * nh / (cgs / p["h"]) * 1000,
                "c": 3e5, "nu0": 1420., "Mpc": MPC, "m_p": 1.672661e-24, "Tcmb0": 2.725, "lambda0": l0}

    def conv(s):
        b, n, h, om = s.sim
        # rho_matter at the time of set_sim_constants does depend on h and Om only
        cgs = 100 * h * 1e5 / MPC
        rm = 3 * cgs ** 2 / (8 * math.pi * G) * om
        LB = b / h
        ls = LB / n * MPC
        ts = 2 / (3 * math.sqrt(om) * 100 * h / MPC * 1e5)
        return {"boxsize": b, "LB": LB, "nbox_fine": n, "M_box": rm * (LB * MPC) ** 3, "M_grid": rm * (LB * MPC) ** 3 / n ** 3, "lscale": ls, "tscale": ts}


def do(t, op, v):
    if op == "bad":
        must_raise(t.set_sim_constants, v, kind="bad-boxsize", what=f"box size {v}")
        return
    f = {"h": t.set_hubble_h, "om": t.set_omega_matter, "lam": t.set_omega_lambda, "ob": t.set_omega_baryon, "ns": t.set_ns,
         "s8": t.set_sigma_8, "he": t.set_abundance_helium, "sim": t.set_sim_constants}[op]
    call(f, v)


def compare(t, m, what):
    for k, v in m.derived().items():
        near(getattr(t.const, k), v, "const-" + k, what, rtol=1e-10)
    for z in (0., 7.3):
        E = 100 * m.p["h"] * math.sqrt(m.p["Om"] * (1 + z) ** 3 + m.p["lam"])
        near(t.const.Hz(z), E, "Hz", what, rtol=1e-10)
        near(call(t.cosmo.hubble_parameter, z), E, "hubble_parameter", what, rtol=1e-10)
    w = m.conv()
    for k, v in w.items():
        near(getattr(t.conv, k), v, "conv-" + k, what, rtol=1e-10)
    vc = w["lscale"] / w["tscale"] * 9.1 / 1e5
    near(t.conv.velconvert(8.1), vc, "velconvert", what, rtol=1e-10)
    g = np.array([0., 1., 13.])
    near(call(t.conv.gridpos_to_mpc, g), g * w["LB"] / w["nbox_fine"], "gridpos", what, rtol=1e-10)
    near(call(t.conv.gridvel_to_kms, g, 8.1), g * vc, "gridvel", what, rtol=1e-10)
    near(call(t.conv.gridmass_to_msol, g[1:]), np.log10(g[1:] * w["M_grid"] * 5.02785431e-34), "gridmass", what, rtol=1e-10)


def ops(tier):
    o = [("h", .674), ("om", .315), ("lam", .685), ("ob", .05), ("ns", .97), ("s8", .83), ("he", .24), ("sim", 47.), ("sim", 500.), ("bad", 100.)]
    if tier != "quick":
        o += [("h", .7), ("om", .27), ("lam", 0.), ("sim", 244.)]
    return o


def cases_seq(tier):
    O = ops(tier)
    for d in range(0, 4 if tier == "quick" else 5):
        for s in itertools.product(range(len(O)), repeat=d):
            if d < 2 or len(set(s)) == len(s):
                yield {"ops": [O[i] for i in s]}


def check_seq(case):
    t = reset()
    try:
        m = Model()
        for op, v in case["ops"]:
            do(t, op, v)
            m.step(op, v)
        compare(t, m, f"after {case['ops']}")
        return digest(*m.p.values(), *m.sim)
    finally:
        reset()


def cases_box(tier):
    for b in NB:
        for kind in (float, int):
            yield {"b": b, "t": kind.__name__}
    for b in (0., 1., 36., 63., 100., 113.9, 199., 244.1, 243., 425.5, 501., 1000., -47.):
        for first in NB:
            yield {"bad": b, "first": first}


def check_box(case):
    t = reset()
    try:
        m = Model()
        b = case.get("b", case.get("first"))
        call(t.set_sim_constants, float(b) if case.get("t") == "float" else int(b))
        m.step("sim", b)
        if "bad" in case:
            do(t, "bad", case["bad"])
        compare(t, m, str(case))
        return str(case)
    finally:
        reset()


SUITES = [
    FnSuite("setter-sequences", cases_seq, check_seq, "all sequences of distinct operations up to length 3 (thorough: 4) from 10 (14) setter calls, incl. rejected ones; full state compared"),
    FnSuite("boxes", cases_box, check_box, "8 valid box sizes; 13 invalid ones after each of the valid ones"),
]
