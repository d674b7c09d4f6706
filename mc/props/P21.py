"""Halo catalogues and halo grids: exactly the haloes asked for, each with its own values and in its own cell."""
import itertools
import os
import struct
import numpy as np
from mc import core
from mc.core import FnSuite, call, eq, near, expect, digest, must_raise, Fail
from mc.props.P13 import reset

LEVEL = "model_checking"
ASSUMPTIONS = ["selection masses that coincide with a halo mass up to rounding may select either way",
               "a halo within 1e-9 of a cell boundary is not tested",
               "the byte order and layouts of the catalogues are those of the readers' own documentation"]

MSUN = 1.989e33


def consts(box, cos=None):
    t = reset()
    if cos:
        t.set_hubble_h(cos[0])
        t.set_omega_matter(cos[1])
    t.set_sim_constants(box)
    return t


# ------------------------------------------------------------------ text halo lists

def line_vals(k, m):
    """the 22 columns of halo number k with grid mass m"""
    v = [100. * k + c + .25 for c in range(22)]
    v[0:3] = [10. + k, 20. + 2 * k, 30. + 3 * k]
    v[3:6] = [-5. - k, 21. + k, 1e6]
    v[6:9] = [-1.5 - k, .5, 2. * k]
    v[9:12] = [-7. - k, 3. + k, 0.]
    v[12:15] = [.5, .75 + k, 1.]
    v[16], v[17] = m, float(m * 8)
    v[19:22] = [.1 * (3 - k), .2, 1e5]
    return v


def write_list(path, masses, header, ncol):
    with open(path, "w") as f:
        k = 0
        for i, m in enumerate(masses):
            if i in header:
                f.write(f"   {len(masses)}\n")
            f.write("  ".join("%r" % x for x in line_vals(i, m)[:ncol]) + "\n")
    return path


def ref_select(lines, lo, hi, num, start):
    """lines: list of None (header) or (index, mass) -> (selected indices, complete?)"""
    got = []
    for ln, e in enumerate(lines, 1):
        if ln < start:
            continue
        if num >= 0 and len(got) >= num:
            return got, False
        if e is None:
            continue
        if e[1] > lo and (hi is None or e[1] < hi):
            got.append(e[0])
    return got, True


LEV = (10., 200., 3000.)
LOS = (0., 50., 800., 1e5)
HIS = (None, 50., 800., 1e5, 0.)
NUMS = (-1, 0, 1, 2, 9)
STARTS = (0, 1, 2, 3, 99)


def cases_sel(tier):
    nmax = 2 if tier == "quick" else 4
    for cls in ("HaloList", "HaloCubeP3MFull"):
        for n in range(nmax + 1):
            for ms in itertools.product(LEV, repeat=n):
                for ncol in (22, 19):
                    yield {"cls": cls, "m": list(ms), "hdr": [], "ncol": ncol}
                    if cls == "HaloCubeP3MFull" and n:
                        yield {"cls": cls, "m": list(ms), "hdr": [0], "ncol": ncol}
        yield {"cls": cls, "m": [LEV[i] for i in (0, 2, 1, 1, 0, 2)], "hdr": [], "ncol": 22}
        yield {"cls": cls, "m": [LEV[i] for i in (2, 1, 0, 2, 2)], "hdr": [0, 3] if cls != "HaloList" else [], "ncol": 22}


def check_sel(case):
    t = consts(244. if len(case["m"]) % 2 else 114.)
    unit = t.conv.M_grid * t.const.solar_masses_per_gram
    with core.scratch_dir() as d:
        p = write_list(os.path.join(d, "7.859halo.dat"), case["m"], case["hdr"], case["ncol"])
        lines = []
        for i, m in enumerate(case["m"]):
            if i in case["hdr"]:
                lines.append(None)
            lines.append((i, m))
        obj = t.HaloList() if case["cls"] == "HaloList" else t.HaloCubeP3MFull(box_len=t.conv.boxsize)
        obs = []
        for lo, hi, num, st in itertools.product(LOS, HIS, NUMS, STARTS):
            want, full = ref_select(lines, lo, hi, num, st)
            r = call(obj.read_from_file, p, lo * unit, None if hi is None else hi * unit, num, st)
            tag = f"min={lo} max={hi} number={num} start={st}"
            got = [int(h.pos[0] * (t.conv.nbox_fine / t.conv.boxsize if case["cls"] != "HaloList" else 1) - 10 + .5) for h in obj.halos]
            eq(got, want, "selection", tag)
            eq(bool(r), full, "complete-flag", tag)
            eq(obj.z, 7.859, "redshift")
            obs.append(tuple(got))
        return digest(obs)


def cases_val(tier):
    boxes = [244., 37.] if tier == "quick" else [244., 37., 47., 64., 114., 200., 425., 500.]
    for cls in ("HaloList", "HaloCubeP3MFull"):
        for box in boxes:
            for cos in (None, (.67, .31)):
                for z in ("0.000", "7.859", "12.04"):
                    for out in ([None, 1., 256] if cls != "HaloList" else [None]):
                        for how in ("init", "read"):
                            yield {"cls": cls, "box": box, "cos": cos, "z": z, "out": out, "how": how}


def check_val(case):
    t = consts(case["box"], case["cos"])
    c, v = t.const, t.conv
    ms = [10., 3000., 200.]
    with core.scratch_dir() as d:
        os.mkdir(os.path.join(d, "1.234halo"))
        p = write_list(os.path.join(d, "1.234halo", case["z"] + "halo.dat"), ms, [], 22)
        z = float(case["z"])
        if case["cls"] == "HaloList":
            o = call(t.HaloList, p) if case["how"] == "init" else t.HaloList()
        else:
            kw = {} if case["out"] is None else {"output_len": case["out"]}
            o = call(t.HaloCubeP3MFull, p, box_len=case["box"], **kw) if case["how"] == "init" else call(t.HaloCubeP3MFull, box_len=case["box"], **kw)
        if case["how"] == "read":
            call(o.read_from_file, p)
        eq(len(o.halos), 3, "number")
        eq(o.z, z, "redshift")
        NB = {244.: 8000, 37.: 2048, 47.: 3456, 64.: 3456, 114.: 6144, 200.: 3456, 425.: 10976, 500.: 13824}[case["box"]]
        LB = case["box"] / c.h
        mg = c.rho_matter * (LB * c.Mpc) ** 3 / NB ** 3 * c.solar_masses_per_gram     # Msun
        ls = LB / NB                                                                  # Mpc
        vs = ls * c.Mpc / (2 / (3 * np.sqrt(c.Omega0) * c.H0 / c.Mpc * 1e5)) * (1 + z) / 1e5
        for k, h in enumerate(o.halos):
            q = line_vals(k, ms[k])
            near(h.solar_masses, ms[k] * mg, "solar-mass", rtol=1e-9)
            near(h.mp, q[17], "particles", rtol=0)
            if case["cls"] == "HaloList":
                for a, s in (("pos", slice(0, 3)), ("pos_cm", slice(3, 6)), ("vel", slice(6, 9)), ("l", slice(9, 12)), ("vel_disp", slice(12, 15))):
                    eq(list(getattr(o.halos[k], a)), q[s], a)
                eq(h.m, q[16], "grid-mass")
            else:
                L = float(case["out"] or case["box"])

                def wrap(x):
                    x = np.asarray(x) * L / NB
                    return np.where(x < 0, x + L, np.where(x > L, x - L, x))
                near(h.pos, wrap(q[0:3]), "pos", rtol=1e-9)
                near(h.pos_cm, wrap(q[3:6]), "pos_cm", rtol=1e-9)
                near(h.vel, np.array(q[6:9]) * vs, "vel", rtol=1e-9)
                near(h.vel_disp, np.array(q[12:15]) * vs, "vel_disp", rtol=1e-9)
                near(h.l, np.array(q[9:12]) * vs * ls * mg * c.h ** 2, "l", rtol=1e-9)
                near(h.m, ms[k] * mg * c.h, "mass", rtol=1e-9)
        if case["cls"] != "HaloList":
            for a in ("m", "pos", "vel", "vel_disp", "l", "pos_cm"):
                near(call(o.get, a), np.array([getattr(h, a) for h in o.halos]), "get", rtol=0)
        return digest(np.array([h.solar_masses for h in o.halos]))


# ------------------------------------------------------------------ rockstar

def rock_write(path, n, ext, off=0, order=0, a=.125):
    lst = ext == "list"
    names = (["ID", "DescID", "Mvir", "Vmax", "Vrms", "Rvir", "R200c", "Np", "X", "Y", "Z", "VX", "VY", "VZ", "JX", "JY", "JZ", "Spin", "M200c"] if lst else
             ["id", "num_p", "mvir", "mbound_vir", "rvir", "r200c", "vmax", "vrms", "x", "y", "z", "vx", "vy", "vz", "Jx", "Jy", "Jz", "E", "Spin", "m200c"])
    if order:          # other releases write other columns: the header says where they are, vectors stay together
        v = [i for i, q in enumerate(names) if q.lower() == "x"][0]
        p, w, l = names[v:v + 3], names[v + 3:v + 6], names[v + 6:v + 9]
        names = [names[0]] + ([l + ["Extra"] + p + names[1:v] + w, w + p + l + names[1:v], names[1:v] + l + w + p][order - 1]) + names[v + 9:]
    head = ["#" + names[0] + " " + " ".join(names[1:]), "#a = %r" % a]
    cos = "#Om = 0.310000; Ol = 0.690000; h = 0.670000"
    par = "#Particle mass: 2.00000e+03 Msun/h"
    total, icos, ipar = (16, 2, 5) if lst else (20, 3, 6)
    for i in range(2, total):
        head.append(cos if i == icos else par if i == ipar else f"#comment {i} a b c")
    rows = []
    for k in range(off, off + n):
        r = {nm.lower(): 1000. * k + i + .5 for i, nm in enumerate(names)}
        r["mvir"], r["m200c"] = 2e3 * (40 + k), 2e3 * (30 + k)
        r["vx"], r["jx"] = -3. - k, -9. - k
        rows.append(" ".join("%r" % r[nm.lower()] for nm in names))
    with open(path, "w") as f:
        f.write("\n".join(head + rows) + "\n")
    return {nm.lower(): i for i, nm in enumerate(names)}


def cases_rock(tier):
    for ext in ("list", "ascii"):
        for md in ("vir", "200c"):
            for n in range(4 if tier == "quick" else 6):
                for num in (-1, 0, 1, 2, 3, 7):
                    for how in ("init", "read"):
                        yield {"ext": ext, "md": md, "n": n, "num": num, "how": how}
            for order in (1, 2, 3):
                for a in (.125, 1.0, .0625):
                    yield {"ext": ext, "md": md, "n": 2, "num": -1, "how": "init", "order": order, "a": a}


def check_rock(case):
    t = consts(244.)
    with core.scratch_dir() as d:
        p = os.path.join(d, "out_0." + case["ext"])
        ix = rock_write(p, case["n"], case["ext"], order=case.get("order", 0), a=case.get("a", .125))
        if case["how"] == "init":
            o = call(t.HaloRockstar, p, case["md"], case["num"])
        else:
            o = t.HaloRockstar(mass_def=case["md"])
            r = call(o.read_from_file, p, case["num"])
            eq(bool(r), not (0 <= case["num"] < case["n"]), "complete-flag")
        want = case["n"] if case["num"] < 0 else min(case["n"], case["num"])
        eq(len(o.halos), want, "number")
        near(o.z, 1 / case.get("a", .125) - 1, "redshift", rtol=1e-12, atol=1e-12)
        near([o.Om, o.Ol, o.h], [.31, .69, .67], "cosmology", rtol=0)
        near(o.part_mass, 2e3, "particle-mass", rtol=0)
        for k, h in enumerate(o.halos):
            val = lambda nm: 1000. * k + ix[nm] + .5
            eq(list(h.pos), [val("x"), val("y"), val("z")], "pos")
            eq(list(h.pos_cm), list(h.pos), "pos_cm")
            eq(list(h.vel), [-3. - k, val("vy"), val("vz")], "vel")
            eq(list(h.l), [-9. - k, val("jy"), val("jz")], "l")
            eq(h.vel_disp, val("vrms"), "vel_disp")
            eq(h.r, val("r" + case["md"]), "r")
            eq(h.m, 2e3 * ((40 if case["md"] == "vir" else 30) + k), "m")
            eq(h.mp, (40 if case["md"] == "vir" else 30) + k, "mp")
        for a in ("m", "r", "pos", "vel", "vel_disp", "l", "pos_cm"):
            near(call(o.get, a), np.array([getattr(h, a) for h in o.halos]), "get", rtol=0)
        return (len(o.halos), case["md"])


# ------------------------------------------------------------------ histories of reads

OPS = ("A", "B", "missing", "broken")


def cases_hist(tier):
    depth = 3 if tier == "quick" else 4
    for cls in ("HaloList", "HaloCubeP3MFull", "HaloRockstar"):
        for seq in itertools.product(OPS, repeat=depth):
            for fresh in ((0, 1) if tier != "quick" else (0,)):
                yield {"cls": cls, "seq": list(seq), "fresh": fresh}


def check_hist(case):
    """every sequence of good and failing reads; a failing read must not affect later ones"""
    t = consts(244.)
    with core.scratch_dir() as d:
        cls = case["cls"]
        if cls == "HaloRockstar":
            A, B = os.path.join(d, "a.list"), os.path.join(d, "b.list")
            rock_write(A, 2, "list")
            rock_write(B, 3, "list", off=10)
            bad = os.path.join(d, "c.list")
            rock_write(bad, 1, "list")
        else:
            A = write_list(os.path.join(d, "7.000halo.dat"), [10., 200.], [], 22)
            B = write_list(os.path.join(d, "8.000halo.dat"), [3000., 10., 200.], [], 22)
            bad = write_list(os.path.join(d, "9.000halo.dat"), [10.], [], 22)
        with open(bad, "a") as f:
            f.write("1.0 what is this\n")
        new = lambda: {"HaloList": t.HaloList, "HaloRockstar": t.HaloRockstar,
                       "HaloCubeP3MFull": lambda: t.HaloCubeP3MFull(box_len=244.)}[cls]()
        o = new()
        obs = []
        for op in case["seq"]:
            if case["fresh"]:
                o = new()
            if op in "AB":
                r = call(o.read_from_file, A if op == "A" else B)
                expect(r is True, "complete-flag", f"{op}: {r}")
                masses = [h.m for h in o.halos]
                eq(len(masses), 2 if op == "A" else 3, "haloes-of-last-file", f"after {case['seq']}")
                if cls == "HaloList":
                    eq(masses, [10., 200.] if op == "A" else [3000., 10., 200.], "haloes-of-last-file")
                obs.append(len(masses))
            else:
                must_raise(o.read_from_file, os.path.join(d, "5.000nofile.list" if cls == "HaloRockstar" else "5.000halo.dat") if op == "missing" else bad, kind="bad-file")
                obs.append(-1)
        return tuple(obs)


# ------------------------------------------------------------------ CubeP3M binary catalogues

def p3m_write(path, halos, pid):
    with open(path, "wb") as f:
        f.write(np.int32(len(halos)).tobytes() + np.array([178., 200.], "float32").tobytes())
        for h in halos:
            f.write(np.asarray(h, "float32").tobytes())       # 3 pos, 4 m/r, 3 cm, 3 vel, 3 l, 3 v2, 3 var
            if pid:
                f.write(np.arange(50, dtype="int64").tobytes() + np.linspace(0, 1e9, 300).astype("float32").tobytes())
            else:
                f.write(np.full(6, 1e9, "float32").tobytes())


def p3m_halo(node, k):
    b = 1. + node + 10 * k
    return [100. + b, 7990. + b, -3. - b, 500. + b, 250. + b, 3. + b, 2. + b, -1. - b, 8005. + b, 4000. + b,
            -.5 - b, .25 * b, 2., -2. * b, 0., 5. * b, 3., 4., 12. * b, 9., 9., 9.]


def cases_p3m(tier):
    for counts in itertools.chain(*[itertools.product(range(3), repeat=n) for n in ((1, 2) if tier == "quick" else (1, 2, 3))]):
        for pid in (True, False):
            for md in ("vir", "odc"):
                for unit in (True, False):
                    for node in [None] + list(range(len(counts))):
                        yield {"counts": counts, "pid": pid, "md": md, "unit": unit, "node": node, "z": (0., 7.859)[sum(counts) % 2], "slash": bool(unit)}


def check_p3m(case):
    t = consts(244. if case["pid"] else 47., None if case["unit"] else (.67, .31))
    c, v = t.const, t.conv
    z = case["z"]
    with core.scratch_dir() as d:
        exp = []
        for n, k in enumerate(case["counts"]):
            os.mkdir(os.path.join(d, f"node{n}"))
            hs = [p3m_halo(n, i) for i in range(k)]
            p3m_write(os.path.join(d, f"node{n}", "%.3fhalo%d.dat" % (z, n)), hs, case["pid"])
            if case["node"] in (None, n):
                exp += hs
        o = call(t.HaloCubeP3M, d + ("/" if case["slash"] else ""), z, case["node"], case["md"], case["pid"], case["unit"])
        eq(int(o.nhalo), len(exp), "nhalo")
        eq(len(o.halos), len(exp), "number")
        NB, L = v.nbox_fine, v.boxsize
        mg = v.M_box / NB ** 3 * c.solar_masses_per_gram
        ls = L / c.h / NB
        vs = v.velconvert(z)

        def wrap(x):
            return np.where(x < 0, x + L, np.where(x > L, x - L, x))
        for h, e in zip(o.halos, exp):
            e = np.array(e)
            m, r = (e[3], e[5]) if case["md"] == "vir" else (e[4], e[6])
            if case["unit"]:
                T = dict(rtol=2e-5)
                near(h.pos, wrap(e[:3] * ls * c.h), "pos", atol=1e-4, **T)
                near(h.pos_cm, wrap(e[7:10] * ls * c.h), "pos_cm", atol=1e-4, **T)
                near(h.m, m * mg * c.h, "m", **T)
                near(h.r, r * ls * c.h, "r", **T)
                near(h.vel, e[10:13] * vs, "vel", **T)
                near(h.l, e[13:16] * vs * ls * mg * c.h ** 2, "l", **T)
                near(h.vel_disp, np.sqrt((e[16:19] ** 2).sum()) * vs, "vel_disp", **T)
            else:
                T = dict(rtol=1e-6)
                for a, w in (("pos", e[:3]), ("pos_cm", e[7:10]), ("m", m), ("r", r), ("vel", e[10:13]), ("l", e[13:16]), ("vel_disp", np.sqrt((e[16:19] ** 2).sum()))):
                    near(getattr(h, a), w, a, **T)
        for a in ("m", "r", "pos", "vel", "vel_disp", "l", "pos_cm"):
            near(call(o.get, a), np.array([getattr(h, a) for h in o.halos]), "get", rtol=0)
        return digest(np.array([h.m for h in o.halos]))


# ------------------------------------------------------------------ haloes on a grid

def cases_grid(tier):
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
        for box in (1., 7., 100.):
            for api in APIS:
                yield {"n": n, "box": box, "api": api, "mode": "single"}
                yield {"n": n, "box": box, "api": api, "mode": "all"}
    for n, sub in ((2, 2),) if tier == "quick" else ((2, 2), (3, 2), (2, 3)):
        npos = (n * sub) ** 3
        for k in range(0, npos, 8):
            yield {"n": n, "sub": sub, "box": 10., "api": "list", "mode": "pairs", "first": [k, min(k + 8, npos)]}


APIS = ("list", "list-q", "list-qpos", "list-qmass", "list-qbox", "h2g-mpc", "h2g-cm", "h2g-none", "h2g-mass", "h2g-value", "hi", "cii")


def put(t, api, mass, pos, box, n):
    """-> (grid of what the api bins, weight of each halo)"""
    from astropy import units as U
    MPC, MS = 3.085677581491367e+24, 1.988409870698051e+33
    if api == "list":
        return call(t.halo_list_to_grid, mass, pos, box, n)[0], mass
    if api == "list-q":
        return call(t.halo_list_to_grid, (mass * U.Msun).to("kg"), (pos * U.Mpc).to("kpc"), box, n)[0], mass
    if api == "list-qpos":
        return call(t.halo_list_to_grid, mass, (pos * U.Mpc).to("kpc"), box, n)[0], mass
    if api == "list-qmass":
        return call(t.halo_list_to_grid, (mass * U.Msun).to("g"), pos, box, n)[0], mass
    if api == "list-qbox":
        return call(t.halo_list_to_grid, mass, pos, (box * U.Mpc).to("kpc"), n)[0], mass
    if api in ("hi", "cii"):
        f = t.M_HI_on_grid if api == "hi" else t.L_CII_on_grid
        M = 1e10 * mass
        w = []
        for m in M:    # one halo alone defines its weight; the whole list must be their sum
            w.append(float(call(f, 6., np.array([m]), np.array([[.1, .1, .1]]) * box, box, 1).value.sum()))
        forms = {0: (M, pos, box), 1: (M * U.Msun, pos * U.Mpc, box * U.Mpc), 2: ((M * U.Msun).to("kg"), pos, (box * U.Mpc).to("kpc")), 3: (M, (pos * U.Mpc).to("kpc"), box)}
        out = None
        for k, a in forms.items():
            g = call(f, 6., a[0], a[1], a[2], n)
            eq(str(g.unit), {"hi": "solMass", "cii": "solLum"}[api], "unit")
            if out is not None:
                near(g.value, out, "independent-of-units", rtol=1e-6)
            out = g.value
        return out, np.array(w)
    hg = t.Halo2Grid(box_len=box, n_grid=n)
    if api == "h2g-cm":
        call(hg.set_halo_pos, pos * MPC, unit="cm")
    elif api == "h2g-none":
        call(hg.set_halo_pos, pos * n / box)
    else:
        call(hg.set_halo_pos, pos, unit="Mpc")
    u = {"h2g-cm": "kg", "h2g-none": "g"}.get(api, "Msun")
    call(hg.set_halo_mass, mass * {"kg": MS / 1000, "g": MS, "Msun": 1.}[u], unit=u)
    if api == "h2g-mass":
        p, v = call(hg.halo_mass_on_grid)
    elif api == "h2g-value":
        p, v = call(hg.halo_value_on_grid, mass)
    else:
        return call(hg.value_on_grid, hg.pos_grid, hg.mass_Msun)[0], mass
    g = np.zeros((n, n, n))
    for q, x in zip(p, v):
        expect(g[tuple(q)] == 0, "listed-once", f"{q}")
        expect(x > 0, "listed-positive", f"{x}")
        g[tuple(q)] = x
    return g, mass


def check_grid(case):
    t = consts(244.)
    n, box, api = case["n"], case["box"], case["api"]
    sub = case.get("sub", 3)
    ticks = (np.arange(n * sub) + .5) / sub                    # cell units
    ticks = np.concatenate([ticks, [1e-6, n - 1e-6]])
    if case["mode"] == "pairs":
        ticks = ticks[:n * sub]
    P = np.array(list(itertools.product(ticks, repeat=3)))
    cells = np.floor(P).astype(int)
    obs = []

    def one(idx, masses):
        g, w = put(t, api, np.asarray(masses, float), P[idx] * box / n, box, n)
        ref = np.zeros((n, n, n))
        for i, x in zip(idx, w):
            ref[tuple(cells[i])] += x
        expect(g.shape == (n, n, n), "shape", f"{g.shape}")
        near(g, ref, "mass-in-its-cell", rtol=1e-6, atol=0, what=f"positions (cells) {P[idx][:4].tolist()}")
    if case["mode"] == "all":
        one(np.arange(len(P)), 1. + np.arange(len(P)) % 7)
        one(np.arange(len(P))[::-1], 1. + np.arange(len(P)) % 5)
        for a in range(3):                                     # one octant only: the grid is the box, not the extent of the haloes
            sel = np.flatnonzero(cells[:, a] == 0)
            one(sel, 1. + sel % 3)
        return digest(cells)
    if case["mode"] == "single":
        for i in range(0, len(P), 1 if api in ("list", "h2g-mpc") else 13):
            one(np.array([i]), [3.])
            obs.append(i)
        return len(obs)
    for i in range(*case["first"]):
        for j in range(len(P)):
            one(np.array([i, j]), [3., 5.])
    return (case["first"][0], len(P))


def cases_per(tier):
    for n in (1, 2, 3, 5):
        for box in (1., 50.):
            for img in itertools.product((-1, 0, 1), repeat=3):
                yield {"n": n, "box": box, "img": list(img)}


def check_per(case):
    """a periodic image of a halo is the same halo: nothing is lost"""
    t = consts(244.)
    n, box = case["n"], case["box"]
    P = np.array(list(itertools.product((np.arange(n) + .5) / n * box, repeat=3)))
    m = 1. + np.arange(len(P))
    g = call(t.halo_list_to_grid, m, P + np.array(case["img"]) * box, box, n)[0]
    near(g, m.reshape(n, n, n), "periodic-image", rtol=1e-9)
    return tuple(case["img"])


# ------------------------------------------------------------------ particle numbers

def cases_part(tier):
    for cos in ("Planck18", "planck15", "WMAP7", "obj"):
        for L in (1., 100., 714.3):
            for N in (1, 2, 64, 1000):
                for u in range(4):
                    yield {"cos": cos, "L": L, "N": N, "u": u}


def check_part(case):
    t = consts(244.)
    from astropy import units as U, cosmology
    cos = cosmology.FlatLambdaCDM(70., .3) if case["cos"] == "obj" else case["cos"]
    C = cos if case["cos"] == "obj" else {"Planck18": cosmology.Planck18, "planck15": cosmology.Planck15, "WMAP7": cosmology.WMAP7}[case["cos"]]
    L, N, u = case["L"], case["N"], case["u"]
    Lq = (L * U.Mpc).to("kpc") if u & 1 else L
    rho = (C.critical_density0 * C.Om0).to("Msun/Mpc3").value
    m1 = call(t.particle_number_to_particle_mass, Lq, N, cosmo=cos)
    m2 = call(t.particle_number_to_particle_mass, Lq, particle_total=N ** 3, cosmo=cos)
    near(m1.to("Msun").value, rho * L ** 3 / N ** 3, "particle-mass", rtol=1e-9)
    near(m2.to("Msun").value, rho * L ** 3 / N ** 3, "particle-mass-total", rtol=1e-9)
    mq = m1.to("kg") if u & 2 else float(m1.to("Msun").value)
    near(float(call(t.ParticleMass_to_ParticleNumber, Lq, mq, cosmo=cos)), N, "inverse", rtol=1e-9)
    for k in (1, 20, 100):
        near(float(call(t.halo_mass_to_particle_number, Lq, mq * k, k, cosmo=cos)), N, "halo-mass", rtol=1e-9)
    return (case["cos"], L, N)


# ------------------------------------------------------------------ mass to light

def cases_rec(tier):
    for cos in (None, "WMAP9", "Planck15"):
        for z in (5., 7., 9.5) if tier == "quick" else (4., 5., 6., 7., 8., 9.5, 12.):
            for rec in ("Padmanabhan2017", "Silva2015m1", "silva2015M2", "Silva2015m3", "Silva2015m4"):
                for over in range(3):
                    yield {"cos": cos, "z": z, "rec": rec, "over": over}


SILVA = {"1": (.8475, 7.2203), "2": (1., 6.9647), "3": (.8727, 6.7250), "4": (.9231, 6.5234)}


def check_rec(case):
    """every halo shines with the luminosity of the published relation, at every mass"""
    from astropy import cosmology, units as U
    t = consts(244.)
    M = 10. ** np.arange(8.5, 13.1, .25)
    z, over = case["z"], case["over"]
    co = getattr(cosmology, case["cos"] or "Planck18")
    kw = {} if case["cos"] is None else {"cosmo": co}
    one = np.array([[1., 1., 1.]])
    if case["rec"].startswith("P"):
        p = dict(alpha=.9, beta=-.58, v_c0=10 ** 1.56, Y_p=.249)
        mod = ({}, {"alpha": .5, "Y_p": .3}, {"beta": -.3, "v_c0": 55.})[over]
        p.update(mod)
        kw.update({k: (v * U.km / U.s if k == "v_c0" else v) for k, v in mod.items()})
        g = np.array([call(t.M_HI_on_grid, z, np.array([m]), one, 10., 1, recipe=case["rec"], **kw).value.sum() for m in M])
        vc = 96.6 * (178 * co.Om0 / 54.4) ** (1 / 6) * ((1 + z) / 3.3) ** .5 * (M / 1e11) ** (1 / 3)
        w = p["alpha"] * (1 - p["Y_p"]) * co.Ob0 / co.Om0 * M * (M / 1e11) ** p["beta"] * np.exp(-(p["v_c0"] / vc) ** 3)
        near(g / g[10], w / w[10], "HI-mass-relation", f"{case}", rtol=1e-6)
        # the normalisation (up to the convention for h in the pivot mass)
        r = g / w / co.h ** p["beta"]
        r2 = g / w * co.h ** p["beta"]
        expect(np.allclose(r, 1, rtol=1e-5) or np.allclose(r2, 1, rtol=1e-5), "HI-mass-norm", f"{case}: {r[0]} {r2[0]}")
        return ("hi", z, over)
    a, b = SILVA[case["rec"][-1]]
    sfr = lambda m: 2.25e-26 * (1 + (z - 7) * 7.5e-2) * m ** 2.59 * (1 + m / 8e8) ** -.62 * (1 + m / 7e9) ** .4 * (1 + m / 1e11) ** -2.25
    if over == 1:
        a, b = 1.1, 6.
        kw.update(a_LCII=a, b_LCII=b, e_SFR=-2., SFR0=1e-26 * U.Msun / U.yr)
        sfr = lambda m: 1e-26 * (1 + (z - 7) * 7.5e-2) * m ** 2.59 * (1 + m / 8e8) ** -.62 * (1 + m / 7e9) ** .4 * (1 + m / 1e11) ** -2.
    if over == 2:
        sfr = lambda m: m / 1e11 * z
        kw["SFR"] = lambda m, zz: m / (1e11 * U.yr) * zz
    g = np.array([call(t.L_CII_on_grid, z, np.array([m]), one, 10., 1, recipe=case["rec"], **kw).value.sum() for m in M])
    near(g, 10 ** (a * np.log10(sfr(M)) + b), "CII-relation", f"{case}", rtol=1e-6)
    return ("cii", z, over, case["rec"])


# ------------------------------------------------------------------ pkdgrav

FOF = np.dtype([('rPot', '<f4', (3,)), ('minPot', '<f4'), ('rcen', '<f4', (3,)), ('rcom', '<f4', (3,)), ('vcom', '<f4', (3,)), ('angular', '<f4', (3,)),
                ('inertia', '<f4', (6,)), ('sigma', '<f4'), ('rMax', '<f4'), ('fMass', '<f4'), ('fEnvironDensity0', '<f4'), ('fEnvironDensity1', '<f4'), ('rHalf', '<f4')])


def fof_data(n, off):
    a = np.zeros(n, FOF)
    for i in range(n):
        for j, nm in enumerate(FOF.names):
            a[nm][i] = 100 * j + 10 * (i + off)
        a['rPot'][i] = np.array([.1, .2, .3]) + .05 * (i + off)
        a['rcom'][i] = np.array([.01, -.02, .03])
        a['fMass'][i] = 1e-6 * (i + 1 + off)
    return a


def cases_pkd(tier):
    for counts in itertools.chain(*[itertools.product(range(3), repeat=k) for k in (1, 2, 3)]):
        for box in (10., 300.):
            for api in ("obj", "fn", "save.txt", "save.npy"):
                if api == "fn" and len(counts) > 1 and counts[0] == 0:
                    pass
                yield {"kind": "fof", "counts": list(counts), "box": box, "api": api}
    for n in (1, 2, 3, 4):
        for given in (0, 1):
            for box in (10., 300.):
                for api in ("obj", "fn"):
                    yield {"kind": "dens", "n": n, "given": given, "box": box, "api": api}
    for g, dk, st in itertools.product(range(3), repeat=3):
        yield {"kind": "tipsy", "n": [g, dk, st]}
    for z in ("0.5", "12.25", None):
        for n in (4, 9):
            yield {"kind": "pk", "z": z, "n": n}


def check_pkd(case):
    from tools21cm import nbody_pkdgrav as N
    t = consts(244.)
    with core.scratch_dir() as d:
        if case["kind"] == "fof":
            files, parts = [], []
            for i, k in enumerate(case["counts"]):
                a = fof_data(k, 3 * i)
                p = os.path.join(d, f"f{i}.fof")
                a.tofile(p)
                files.append(p)
                parts.append(a)
            A = np.concatenate(parts)
            arg = files[0] if len(files) == 1 else files
            box = case["box"]
            want = np.array([[2.77536627e11 * box ** 3 * float(g['fMass'])] + [float(g['rPot'][j] + g['rcom'][j]) * box for j in range(3)] for g in A])
            if case["api"] == "fn":
                got = call(t.read_pkdgrav_fof_halo_catalogue, arg, box)
            else:
                rd = N.Pkdgrav3data(box, None, verbose=False)
                raw = call(rd.read_fof_data, arg)
                expect(len(raw) == len(A) and raw.tobytes() == A.tobytes(), "records", "records differ from the files")
                got = call(rd.array_fof_data)
                for row, line in zip(got, call(rd.array_fof_data, dtype="str")):
                    near(np.array(str(line).split(), float), row, "text", rtol=1e-9)
                if case["api"].startswith("save"):
                    q = os.path.join(d, case["api"])
                    call(rd.save_fof_data, q)
                    back = np.load(q) if q.endswith("npy") else np.loadtxt(q, ndmin=2)
                    if len(A) == 0:
                        return 0
                    near(back.reshape(len(A), -1), np.asarray(got).reshape(len(A), -1), "saved", rtol=1e-12)
            eq(len(got), len(A), "number")
            if len(A):
                near(got, want, "mass-position", rtol=1e-5)
            return (len(A),)
        if case["kind"] == "dens":
            n = case["n"]
            g = (1 + np.arange(n ** 3) % 7 + .25 * (np.arange(n ** 3) % 3)).astype("float32")
            p = os.path.join(d, "g.den")
            g.tofile(p)
            if case["api"] == "fn":
                got = call(t.read_pkdgrav_density_grid, p, case["box"], n if case["given"] else None)
            else:
                got = call(N.Pkdgrav3data(case["box"], n if case["given"] else None, verbose=False).load_density_field, p)
            m = g.astype(float).mean()
            ref = np.zeros((n, n, n))
            for i, x in enumerate(g):
                ref[i % n, (i // n) % n, i // n ** 2] = x / m - 1
            near(got, ref, "density-contrast", rtol=1e-5, atol=1e-6)
            return digest(np.round(got, 4))
        if case["kind"] == "tipsy":
            g, dk, st = case["n"]
            p = os.path.join(d, "x.tipsy")
            with open(p, "wb") as f:
                f.write(struct.pack(">diiiiii", .125, g + dk + st, 3, g, dk, st, 0))
                for k, (cnt, cols) in enumerate(((g, 12), (dk, 9), (st, 11))):
                    for i in range(cnt):
                        f.write(struct.pack(">%df" % cols, *[1000 * k + 100 * i + c for c in range(cols)]))
            r = call(N.ReaderPkdgrav3(10., verbose=False).read_particles, p)
            eq([float(r["header"]["time"]), int(r["header"]["N"])], [.125, g + dk + st], "header")
            for k, (nm, cnt, cols) in enumerate((("gas", g, 12), ("dark", dk, 9), ("star", st, 11))):
                tab = r[nm]
                eq(len(tab), cnt, "particles", nm)
                eq(list(tab.columns)[:7], ["mass", "x", "y", "z", "vx", "vy", "vz"], "columns")
                if cnt:
                    near(np.asarray(tab).astype(float), np.array([[1000 * k + 100 * i + c for c in range(cols)] for i in range(cnt)], float), "values", rtol=0)
            return tuple(case["n"])
        k = np.logspace(-2, 1, case["n"])
        pp = k ** -1.5 * 100
        p = os.path.join(d, "x.pk")
        with open(p, "w") as f:
            f.write("# pkdgrav power\n")
            if case["z"]:
                f.write(f"# spectrum z={case['z']}\n")
            for a, b in zip(k, pp):
                f.write("%r %r 3\n" % (float(a), float(b)))
        rd = N.Pkdgrav3data(10., None, verbose=False)
        kk, P2 = call(rd.read_pk_data, p)
        near(kk, k, "k", rtol=1e-12)
        near(P2, pp, "P", rtol=1e-12)
        if case["z"]:
            eq(rd.pk_data["z"], float(case["z"]), "z")
        ks = np.sqrt(k[1:] * k[:-1])
        kk, P3 = call(rd.read_pk_data, p, ks)
        near(kk, ks, "k-interpolated", rtol=1e-12)
        near(P3, ks ** -1.5 * 100, "P-interpolated", rtol=1e-6)
        for q in (ks[::-1], np.roll(ks, 1), ks[:1]):
            kk, P3 = call(rd.read_pk_data, p, q)
            near(kk, q, "k-interpolated", rtol=1e-12)
            near(P3, q ** -1.5 * 100, "P-interpolated", rtol=1e-6)
        return case["n"]


# ------------------------------------------------------------------ everyday sizes

def cases_real(tier):
    for n, nh, box in ((64, 3000, 100.), (130, 500, 244.), (300, 200, 50.), (3, 70000, 7.)):
        for api in ("list", "list-q", "h2g-mpc", "h2g-cm", "h2g-none", "h2g-value"):
            yield {"what": "grid", "n": n, "nh": nh, "box": box, "api": api}
    for cls in ("HaloList", "HaloCubeP3MFull"):
        yield {"what": "list", "cls": cls, "nh": 400}


def check_real(case):
    """thousands of haloes, meshes of up to 300 cells to a side"""
    t = consts(244.)
    if case["what"] == "grid":
        n, nh, box = case["n"], case["nh"], case["box"]
        k = np.arange(nh)
        cells = np.stack([k * 7919 % n, k * 104729 % n, (k * k + 3 * k) % n], axis=1)
        off = np.stack([(k * 37 % 97 + 1.5) / 100, (k * 53 % 97 + 1.5) / 100, (k * 11 % 97 + 1.5) / 100], axis=1)
        m = 1. + k % 1000
        g, w = put(t, case["api"], m, (cells + off) * box / n, box, n)
        ref = np.zeros((n, n, n))
        np.add.at(ref, tuple(cells.T), m)
        near(g, ref, "mass-in-its-cell", str(case), rtol=1e-6)
        return digest(ref[ref > 0])
    unit = t.conv.M_grid * t.const.solar_masses_per_gram
    ms = [10. * (1 + i * 37 % 400) for i in range(case["nh"])]
    with core.scratch_dir() as d:
        p = write_list(os.path.join(d, "7.859halo.dat"), ms, [], 22)
        obj = t.HaloList() if case["cls"] == "HaloList" else t.HaloCubeP3MFull(box_len=t.conv.boxsize)
        for lo, hi, num, st in itertools.product((0., 1005., 3e3), (None, 2005., 3505.), (-1, 7, 300), (0, 5, 333)):
            want, full = ref_select(list(enumerate(ms)), lo, hi, num, st)
            r = call(obj.read_from_file, p, lo * unit, None if hi is None else hi * unit, num, st)
            got = [int(h.pos[0] * (t.conv.nbox_fine / t.conv.boxsize if case["cls"] != "HaloList" else 1) - 10 + .5) for h in obj.halos]
            eq(got, want, "selection", f"{case} {lo} {hi} {num} {st}")
            eq(bool(r), full, "complete-flag", f"{case} {lo} {hi} {num} {st}")
    return len(ms)


# ------------------------------------------------------------------ particle files of several nodes

def nb_head(np_, z):
    return (np.int32(np_).tobytes() + np.array([1 / (1 + z), 1., 2.], "float32").tobytes() + np.int32(7).tobytes()
            + np.array([.1, .2, .3], "float32").tobytes() + np.array([1, 2, 3], "int32").tobytes() + np.float32(8.).tobytes())


def cases_nb(tier):
    for counts in itertools.chain(*[itertools.product(range(4), repeat=n) for n in ((1, 2) if tier == "quick" else (1, 2, 3))]):
        for pid in (True, False):
            for z in (0., 7.859):
                for seq in itertools.product([None] + list(range(len(counts))), repeat=2 if tier == "quick" else 3):
                    yield {"counts": list(counts), "pid": pid, "z": z, "seq": list(seq), "bad": 0}
        if sum(counts):
            for bad in ("more-ids", "redshift"):
                yield {"counts": list(counts), "pid": True, "z": 7.859, "seq": [None], "bad": bad}


def check_nb(case):
    """what is read are the particles of the nodes asked for last, every value of the file once"""
    t = consts(244.)
    from tools21cm import nbody_file as M
    z = case["z"]
    with core.scratch_dir() as d:
        vals, ids = {}, {}
        for n, k in enumerate(case["counts"]):
            os.mkdir(os.path.join(d, f"node{n}"))
            v = (100 * n + np.arange(6 * k) + .25).astype("float32")
            p = np.arange(k, dtype="int64") * 10 ** 10 + n
            zz = z + (.5 if case["bad"] == "redshift" and n + 1 == len(case["counts"]) else 0)
            open(os.path.join(d, f"node{n}", "%.3fxv%d.dat" % (z, n)), "wb").write(nb_head(k, zz) + v.tobytes())
            q = np.append(p, 5) if case["bad"] == "more-ids" and k else p
            open(os.path.join(d, f"node{n}", "%.3fPID%d.dat" % (z, n)), "wb").write(nb_head(len(q), zz) + q.tobytes())
            vals[n], ids[n] = v, p
        if case["bad"] == "redshift":
            must_raise(M.NbodyFile, d, z, kind="other-redshift")
            return "rejected"
        o = call(M.NbodyFile, d, z, pid_file=case["pid"])
        eq(int(o.npart), sum(case["counts"]), "npart")
        if case["bad"]:
            must_raise(o.read_from_file, kind="other-number-of-ids")
            return "rejected"
        for node in case["seq"]:
            call(o.read_from_file, node)
            want = [node] if node is not None else list(range(len(case["counts"])))
            eq(int(o.npart), sum(case["counts"][n] for n in want), "npart")
            eq(len(o.nbody), sum(case["counts"][n] for n in want), "particles-of-last-read", f"{case['seq']}")
            got = np.array([np.concatenate([q.pos, q.vel]) for q in o.nbody], float).reshape(-1, 6)
            i = 0
            for n in want:
                k = case["counts"][n]
                eq(sorted(got[i:i + k].ravel().tolist()), sorted(vals[n].astype(float).tolist()), "values-of-node")
                if case["pid"]:
                    eq([int(q.pid) for q in o.nbody[i:i + k]], ids[n].tolist(), "particle-ids")
                i += k
        if case["seq"][0] is not None:
            o2 = call(M.NbodyFile, d, z, case["seq"][0], pid_file=case["pid"])
            eq(len(o2.nbody), case["counts"][case["seq"][0]], "read-when-made")
        return digest(np.array([len(case["counts"])]))


# ------------------------------------------------------------------ reading a binary catalogue again

def cases_re(tier):
    for counts in itertools.product(range(3), repeat=2):
        for seq in itertools.product((None, 0, 1), repeat=2 if tier == "quick" else 3):
            yield {"counts": list(counts), "seq": list(seq)}


def check_re(case):
    t = consts(244.)
    with core.scratch_dir() as d:
        for n, k in enumerate(case["counts"]):
            os.mkdir(os.path.join(d, f"node{n}"))
            p3m_write(os.path.join(d, f"node{n}", "7.859halo%d.dat" % n), [p3m_halo(n, i) for i in range(k)], True)
        o = call(t.HaloCubeP3M, d, 7.859, 0, "vir", True, False)
        for node in case["seq"]:
            call(o.read_from_file, d + "/", 7.859, node, "vir", True, False)
            want = [p3m_halo(n, i)[3] for n in ((0, 1) if node is None else (node,)) for i in range(case["counts"][n])]
            eq(int(o.nhalo), len(want), "nhalo")
            eq([float(h.m) for h in o.halos], want, "haloes-of-last-read", f"{case['seq']}")
        return len(want)


# ------------------------------------------------------------------ smaller tools for catalogues

def cases_small(tier):
    for n in range(1, 4):
        for w in itertools.product((1., 2., 5.), repeat=n + 2):
            for bins in (1, 2, 3):
                yield {"what": "hmf", "m": list(w), "bins": bins, "box": (10., 300.)[n % 2]}
    for n in (3, 5):
        for win in range(1, n + 1):
            for ks in (0, 1):
                yield {"what": "window", "n": n, "win": win, "ks": ks}
    for z in (None, 0, 0., "0.5", 1.5, 12.25):
        for box in (10., 300.):
            yield {"what": "units", "z": z, "box": box}
    for unit in (None, "cm", "Cm", "Mpc", "mpc", "grid"):
        for n in (1, 3):
            for box in (7., 100.):
                yield {"what": "pos", "unit": unit, "n": n, "box": box}
    for unit in ("kg", "KG", "g", "gram", "Gram", "Msun", "msun"):
        yield {"what": "mass", "unit": unit}


def check_small(case):
    from tools21cm import nbody_pkdgrav as N
    from tools21cm.nbody_file import Halo2Grid
    t = consts(244.)
    w = case["what"]
    if w == "hmf":
        m = 1e10 * np.array(case["m"])
        rd = N.Pkdgrav3data(case["box"], None, verbose=False)
        mm, f = call(rd.get_hmf_data, m, bins=case["bins"])
        l = np.log(m)
        lo, hi = (l.min(), l.max()) if l.max() > l.min() else (l.min() - .5, l.max() + .5)
        e = np.linspace(lo, hi, case["bins"] + 1)
        near(mm, np.exp((e[1:] + e[:-1]) / 2), "masses", rtol=1e-9)
        near(np.sum(f) * case["box"] ** 3, len(m), "number-density", rtol=1e-9)
        near(f, [np.sum((l >= a) & ((l < b) if i + 2 < len(e) else (l <= b + 1e-9))) / case["box"] ** 3 for i, (a, b) in enumerate(zip(e, e[1:]))], "numbers", rtol=1e-9)
        return digest(np.asarray(f))
    if w == "window":
        with core.scratch_dir() as d:
            k = np.logspace(-2, 1, case["n"])
            pp = k ** -1.5 * 100 * (1 + .3 * (np.arange(case["n"]) % 2))
            p = os.path.join(d, "x.pk")
            np.savetxt(p, np.array([k, pp, pp]).T, fmt="%.17g")
            rd = N.Pkdgrav3data(10., None, verbose=False)
            kk, P2 = call(rd.read_pk_data, p, window_size=case["win"]) if not case["ks"] or case["n"] < 4 else call(rd.read_pk_data, p, k, case["win"])
            near(kk, k, "k", rtol=1e-9)
            l = np.log10(pp)
            near(np.asarray(P2), [10 ** l[max(0, i - case["win"] + 1):i + 1].mean() for i in range(case["n"])], "smoothed", rtol=1e-9)
            return case["n"]
    if w == "units":
        with core.scratch_dir() as d:
            p = os.path.join(d, "f.fof")
            fof_data(2, 0).tofile(p)
            rd = N.Pkdgrav3data(case["box"], None, verbose=False)
            call(rd.read_fof_data, p, z=case["z"])
            v = 299792.458 / (8677.2079486362706 / case["box"])
            near(rd.dVelFac, v * (1 + float(case["z"]) if case["z"] is not None else 1), "velocity-unit", rtol=1e-12)
            near(rd.dMassFac, 2.77536627e11 * case["box"] ** 3, "mass-unit", rtol=1e-12)
            eq(call(N.Pkdgrav3data(case["box"], None, verbose=False).array_fof_data), None, "nothing-read")
        return repr(case["z"])
    h = Halo2Grid(box_len=case.get("box", 10.), n_grid=case.get("n", 2))
    if w == "pos":
        pos = np.array([[.1, .2, .3], [3., 5., 6.9]])
        u = (case["unit"] or "grid").lower()
        call(h.set_halo_pos, pos * (3.085677581491367e24 if u == "cm" else 1.), case["unit"])
        near(h.pos_grid, pos * (case["n"] / case["box"] if u != "grid" else 1.), "positions", rtol=1e-9)
        return u
    m = np.array([1., 2.5])
    u = case["unit"].lower()
    call(h.set_halo_mass, m, case["unit"])
    near(h.mass_Msun, m * {"kg": 1e3 / 1.988409870698051e33, "g": 1 / 1.988409870698051e33, "gram": 1 / 1.988409870698051e33, "msun": 1.}[u], "masses", rtol=1e-9)
    return u


SUITES = [
    FnSuite("selection", cases_sel, check_sel, "all lists of <=2 (thorough 4) haloes on 3 masses x 4 lower x 5 upper limits x 5 numbers x 5 start lines x 2 classes x 19/22 columns x header lines"),
    FnSuite("values", cases_val, check_val, "2 classes x 2 (thorough 8) boxes x 2 cosmologies x 3 redshifts x 3 output units x 2 ways of reading; every column"),
    FnSuite("rockstar", cases_rock, check_rock, "2 file formats x 2 mass definitions x 0..3 (5) haloes x 6 limits x 2 ways"),
    FnSuite("histories", cases_hist, check_hist, "all sequences of 3 (thorough 4) reads out of {file A, file B, missing file, broken file} x 3 classes"),
    FnSuite("cubep3m", cases_p3m, check_p3m, "all counts 0..2 on 1-2 (thorough 3) nodes x particle records x 2 mass definitions x units x every node"),
    FnSuite("grid", cases_grid, check_grid, "single haloes and full sets on a 3-per-cell lattice plus edges, n=1..3 (5), 12 entry points; all pairs on a 4^3 (6^3) lattice"),
    FnSuite("periodic", cases_per, check_per, "all 27 periodic images x 4 grids x 2 boxes"),
    FnSuite("mass-to-light", cases_rec, check_rec, "5 recipes x 3 cosmologies x 3 (7) redshifts x 19 masses x 3 sets of parameters"),
    FnSuite("particles", cases_part, check_part, "4 cosmologies x 3 boxes x 4 numbers x 4 unit combinations"),
    FnSuite("pkdgrav", cases_pkd, check_pkd, "all counts 0..2 in 1..3 files x boxes x interfaces; grids of side 1..4; all particle type counts 0..2"),
    FnSuite("realistic", cases_real, check_real, "up to 70000 haloes, up to 300^3 cells x 6 entry points; lists of 400 haloes x 81 selections", timeout=200),
    FnSuite("nbody", cases_nb, check_nb, "all particle numbers 0..3 on 1-2 (thorough 3) nodes x particle ids x 2 redshifts x all sequences of 2 (3) reads of any node or all; wrong numbers of ids and redshifts"),
    FnSuite("read-again", cases_re, check_re, "all halo numbers 0..2 on 2 nodes x all sequences of 2 (3) reads of any node or all"),
    FnSuite("small-tools", cases_small, check_small, "mass functions of all lists of 3-5 haloes of 3 masses x 3 numbers of bins; smoothing windows 1..5; velocity, mass and position units"),
]
