"""Redshift-space distortions move signal along the line of sight and neither create nor destroy it."""
import itertools
import math
import os
import struct
import numpy as np
from mc import core
from mc.core import FnSuite, call, eq, near, expect, digest, must_raise
from mc.props.P13 import reset

LEVEL = "model_checking"
ASSUMPTIONS = ["displacements are smaller than the box", "the two axes perpendicular to the line of sight are equal, as documented",
               "a particle within 1e-9 of a cell boundary may fall on either side"]

COS = [None, (.6711, .3175, .6825)]
BOXES = [None, 37., 500.]


def cfg(c, box):
    t = reset()
    if COS[c]:
        t.set_hubble_h(COS[c][0])
        t.set_omega_matter(COS[c][1])
        t.set_omega_lambda(COS[c][2])
    if BOXES[box]:
        t.set_sim_constants(BOXES[box])
    elif COS[c]:
        t.set_sim_constants(244.)
    return t


def shape_for(nl, nt, ax):
    s = [nt, nt, nt]
    s[ax] = nl
    return tuple(s)


def shift_mpc(t, v, z):
    c = t.const
    zo = (1 + z) / (1 - v / 299792.458) - 1
    H = 100 * c.h * np.sqrt(c.Omega0 * (1 + zo) ** 3 + c.lam)
    return (1 + zo) * v / H


def ref_skewer(dt, dr, L, npart, periodic):
    """exact transport of the particles of one skewer; -> (result, ambiguous)"""
    n = len(dt)
    N = n * npart
    out = np.zeros(n)
    amb = np.zeros(n, bool)
    for k in range(N):
        x = k * L / (N - 1) if N > 1 else 0.
        f = k / (N - 1) * (n - 1) if N > 1 else 0.
        i = min(int(f), n - 2) if n > 1 else 0
        d = dr[i] + (dr[i + 1] - dr[i]) * (f - i) if n > 1 else dr[0]
        x += d
        if periodic:
            if x < 0:
                x += L
            elif x > L:
                x -= L
        q = x / L * n
        if q < -1e-9 or q > n + 1e-9:
            continue
        c = min(max(int(q), 0), n - 1)
        out[c] += dt[k // npart] / npart
        if abs(q - round(q)) < 1e-9:
            r = int(round(q))
            for m in (r - 1, r):
                amb[m % n] = True
    return out, amb


def skew(a, ax):
    return np.moveaxis(a, ax, -1)


# ------------------------------------------------------------- general velocities

def cases_gen(tier):
    for nl, nt, ax, va, npart, per, (c, b), vk in itertools.product((2, 3, 4, 6), (1, 2, 3), (0, 1, 2), (0, 1, 2), (1, 2, 5, 10), (True, False), ((0, 0), (1, 1), (0, 2)), ("mixed", "shear", "small", "big")):
        if nl * npart > 30 or (va != ax and npart not in (2,)):
            continue
        yield {"nl": nl, "nt": nt, "axis": ax, "vel": va, "npart": npart, "periodic": per, "cosmo": c, "box": b, "kind": vk}


def check_gen(case):
    t = cfg(case["cosmo"], case["box"])
    try:
        ax, va, npart, per = case["axis"], case["vel"], case["npart"], case["periodic"]
        sh = shape_for(case["nl"], case["nt"], ax)
        dT = core.field(sh, 1, lo=-5, hi=25)
        z = 8.515
        lo, hi = {"mixed": (-900, 1100), "shear": (-4000, 4000), "small": (-30, 30), "big": (-2500, -1500)}[case["kind"]]
        kms = core.field((3,) + sh, 3, lo=lo, hi=hi) * (.1 if case["box"] == 1 else 1)
        kw = {}
        if ax != 0:
            kw["los_axis"] = ax
        if va != 0:
            kw["velocity_axis"] = va
        if npart != 10:
            kw["num_particles"] = npart
        if not per:
            kw["periodic"] = False
        g = call(t.get_distorted_dt, dT, kms, z, **kw)
        expect(g.shape == sh, "shape", str(case))
        L = t.conv.LB / case["nt"] * case["nl"]
        dr = shift_mpc(t, kms[va], z)
        if np.abs(dr).max() >= L:
            return None
        G, D, R = skew(g, ax), skew(dT, ax), skew(dr, ax)
        for i, j in np.ndindex(case["nt"], case["nt"]):
            w, amb = ref_skewer(D[i, j], R[i, j], L, npart, per)
            near(G[i, j][~amb], w[~amb], "transport", f"{case} skewer {i},{j}", rtol=1e-7, atol=1e-9)
            if per:
                near(G[i, j].sum(), D[i, j].sum(), "conservation", f"{case} skewer {i},{j}", rtol=1e-9, atol=1e-9)
        # linear in the signal
        near(t.get_distorted_dt(3 * dT - 1, kms, z, **kw), 3 * g - t.get_distorted_dt(np.ones(sh), kms, z, **kw), "linearity", str(case), rtol=1e-7, atol=1e-7)
        # scalar, array and one redshift per cell are the same
        near(call(t.get_distorted_dt, dT, kms, np.full(sh[2], z), **kw), g, "redshift-array", str(case), rtol=1e-9, atol=1e-9)
        return digest(g)
    finally:
        reset()


# ------------------------------------------------------------- exact shifts

def cases_shift(tier):
    for nl, nt, ax, s, per, z in itertools.product((2, 3, 5, 8), (1, 2, 3), (0, 1, 2), (0, 1, -1, 2, -3), (True, False), (6., 8.515)):
        if abs(s) >= nl and s:
            continue
        yield {"nl": nl, "nt": nt, "axis": ax, "shift": s, "periodic": per, "z": z}


def vel_for(t, d, z):
    """velocity (km/s) whose displacement is d Mpc"""
    lo, hi = -2e5, 2e5
    for _ in range(200):
        m = (lo + hi) / 2
        if shift_mpc(t, m, z) < d:
            lo = m
        else:
            hi = m
    return (lo + hi) / 2


def check_shift(case):
    """a uniform velocity moves the signal rigidly"""
    t = cfg(0, 0)
    try:
        nl, ax, s, per, z = case["nl"], case["axis"], case["shift"], case["periodic"], case["z"]
        sh = shape_for(nl, case["nt"], ax)
        cell = t.conv.LB / case["nt"]
        dT = core.field(sh, 1, lo=-5, hi=25)
        P = 10
        # displacements of s cells and half a particle: no particle ends on a cell boundary
        for frac in ((0., ) if s == 0 else (0.003, -0.003)):
            v = 0. if s == 0 else vel_for(t, (s + frac / nl) * cell, z)
            kms = np.full((3,) + sh, 7e4)
            kms[ax] = v
            g = call(t.get_distorted_dt, dT, kms, z, los_axis=ax, velocity_axis=ax, num_particles=P, periodic=per)
            G, D = skew(g, ax), skew(dT, ax)
            if s == 0:
                near(g, dT, "no-velocity", str(case), rtol=1e-9)
                continue
            W = np.roll(D, s, axis=-1)
            if not per:
                W = W.copy()
                if s > 0:
                    W[..., :s] = 0
                else:
                    W[..., s:] = 0
            # at most one particle per boundary changes cell
            slack = 2.001 * (np.abs(D).max() / P)
            expect(np.abs(G - W).max() <= slack, "rigid-shift", lambda: f"{case}: {core.short(G)} expected {core.short(W)}")
            if per:
                near(G.sum(axis=-1), D.sum(axis=-1), "conservation", str(case), rtol=1e-9)
        return digest(g)
    finally:
        reset()


# ------------------------------------------------------------- light-cones and files

def cases_lc(tier):
    for nl, nt, va in itertools.product((2, 4, 5), (2, 3), (0, 1, 2)):
        yield {"nl": nl, "nt": nt, "vel": va}


def check_lc(case):
    """light-cones: one redshift per slice"""
    t = cfg(0, 0)
    try:
        sh = shape_for(case["nl"], case["nt"], 2)
        dT = core.field(sh, 1, lo=-5, hi=25).astype("f4")
        zs = np.linspace(7, 9, case["nl"])
        kms = core.field((3,) + sh, 3, lo=-900, hi=1100).astype("f4")
        g = call(t.get_distorted_dt, dT, kms, zs, los_axis=2, velocity_axis=case["vel"], periodic=False)
        dr = shift_mpc(t, kms[case["vel"]].astype(float), zs)
        L = t.conv.LB / case["nt"] * case["nl"]
        for i, j in np.ndindex(case["nt"], case["nt"]):
            w, amb = ref_skewer(dT[i, j].astype(float), dr[i, j], L, 10, False)
            near(g[i, j][~amb], w[~amb], "lightcone", f"{case} {i} {j}", rtol=1e-4, atol=1e-4)
        return digest(g)
    finally:
        reset()


def cases_files(tier):
    for ax, np_, box in itertools.product((0, 1, 2), (4, 10), (0, 1)):
        yield {"axis": ax, "npart": np_, "box": box}


def check_files(case):
    t = cfg(0, case["box"])
    try:
        sh, z = (4, 4, 4), 8.515
        dT = core.field(sh, 1, lo=-5, hi=25).astype("f4")
        rho = core.field(sh, 2, lo=4, hi=20).astype("f4")
        v = core.field((3,) + sh, 3, lo=-1, hi=1).astype("f4")
        v *= 500 / t.conv.velconvert(z)
        with core.scratch_dir() as d:
            a, b, c = (os.path.join(d, n) for n in ("dt.cbin", "8.515v_all.dat", "8.515n_all.dat"))
            t.save_cbin(a, dT)
            t.VelocityFile().write_to_file(b, v)
            t.DensityFile().write_to_file(c, raw_density=rho)
            kw = {} if case["axis"] == 0 else {"los": case["axis"]}
            if case["npart"] != 10:
                kw["num_particles"] = case["npart"]
            g = call(t.pv_mpm.make_pv_box, a, b, c, z, **kw)
        kms = v.astype(float) * t.conv.velconvert(z) / (rho.astype(float) / 8)
        dr = skew(shift_mpc(t, kms[case["axis"]], z), case["axis"])
        G, D = skew(g, case["axis"]), skew(dT, case["axis"]).astype(float)
        for i, j in np.ndindex(4, 4):
            w, amb = ref_skewer(D[i, j], dr[i, j], t.conv.LB, case["npart"], True)
            near(G[i, j][~amb], w[~amb], "files", f"{case} {i} {j}", rtol=1e-4, atol=1e-4)
        return digest(g)
    finally:
        reset()


# ------------------------------------------------------------- everyday sizes

def cases_real(tier):
    for nl, nt, ax, va, np_, per in [(40, 6, 0, 0, 10, True), (64, 4, 1, 1, 10, True), (130, 3, 2, 2, 10, False), (33, 5, 2, 0, 40, True), (12, 12, 1, 2, 7, False), (300, 2, 0, 0, 10, True)]:
        for kind in ("mixed", "shear"):
            yield {"nl": nl, "nt": nt, "axis": ax, "vel": va, "npart": np_, "periodic": per, "cosmo": 0, "box": 0, "kind": kind}


SUITES = [
    FnSuite("transport", cases_gen, check_gen, "4 depths x 3 widths x 3 axes x 3 velocity components x 4 particle numbers x boundary x 3 boxes x 4 velocity fields; conservation, linearity, redshift forms"),
    FnSuite("rigid-shift", cases_shift, check_shift, "4 depths x 3 widths x 3 axes x shifts of -3..2 cells x boundary x 2 redshifts"),
    FnSuite("light-cones", cases_lc, check_lc, "3 depths x 2 widths x 3 velocity components"),
    FnSuite("files", cases_files, check_files, "3 lines of sight x 2 particle numbers x 2 boxes"),
    FnSuite("realistic", cases_real, check_gen, "6 boxes of 12-300 cells along the line of sight x 2 velocity fields"),
]
