"""Simulation files and array files: what is written is what is read, in every supported layout."""
import itertools
import os
import struct
import numpy as np
from mc import core
from mc.core import FnSuite, call, eq, near, expect, digest, must_raise
from mc.props.P13 import reset

LEVEL = "model_checking"
ASSUMPTIONS = ["byte layouts: three int32 mesh sizes (six with record markers), then the values in Fortran order unless asked otherwise",
               "the unit conversion constants themselves are the subject of P13"]

SHAPES = [(2, 3, 4), (3, 3, 3), (1, 4, 2), (4, 1, 1), (1, 1, 1), (2, 2, 5)]


BIG = [(80, 2, 3), (96, 3, 3), (128, 1, 2)]        # densities in cgs are only normal single-precision numbers for realistic meshes


def fbytes(a, dt, order="F"):
    return np.asarray(a).flatten(order=order).astype(dt).tobytes()


def layouts(a):
    """the same values in different memory layouts"""
    yield "C", np.ascontiguousarray(a)
    yield "F", np.asfortranarray(a)
    big = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
    v = big[tuple(slice(None, None, 2) for _ in a.shape)]
    v[...] = a
    yield "strided", v


# --------------------------------------------------------------- ionisation fraction

def cases_xfrac(tier):
    names = ["xfrac3d_7.059.bin", "xfrac3d_10.000.bin", "xfrac.bin"]
    for sh, old, neu, bi, name in itertools.product(SHAPES, (0, 1), (0, 1), (0, 1), names):
        yield {"shape": sh, "old": old, "neutral": neu, "binary": bi, "name": name}


def zof(name):
    return {"xfrac3d_7.059.bin": 7.059, "xfrac3d_10.000.bin": 10.0}.get(name, -1)


def check_xfrac(case):
    t = core.t2c()
    sh, old, neu, bi = tuple(case["shape"]), bool(case["old"]), bool(case["neutral"]), bool(case["binary"])
    dt = np.float32 if old else np.float64
    x = core.field(sh, 1).astype(np.float64)
    kw = dict(old_format=old, neutral=neu, binary_format=bi)
    with core.scratch_dir() as d:
        p = os.path.join(d, case["name"])
        hdr = struct.pack("<3i", *sh) if bi else struct.pack("<6i", 12, *sh, 12, 8 * x.size)
        # reading a file made by a simulation
        with open(p, "wb") as f:
            f.write(hdr + fbytes(x, dt))
        want = 1 - x.astype(dt) if neu else x.astype(dt)
        X = call(t.XfracFile, p, **kw)
        eq(X.xi, want, "xfrac-read", str(case))
        expect(X.xi.dtype == dt, "xfrac-dtype", lambda: f"{X.xi.dtype} {case}")
        eq((X.mesh_x, X.mesh_y, X.mesh_z), sh, "xfrac-mesh", str(case))
        eq(X.z, zof(case["name"]), "xfrac-z", str(case))
        if "3d" in case["name"] and not bi:
            eq(call(t.get_mesh_size, p), sh, "mesh-size", str(case))
            if not old and not neu:
                got, typ = call(t.get_data_and_type, p)
                eq(got, x, "data-of-name", str(case))
                eq(typ, "xfrac", "type-of-name", str(case))
        got, typ = call(t.get_data_and_type, X)
        eq(got, X.xi, "data-of-object", str(case))
        eq(typ, "xfrac", "type-of-object", str(case))
        # round trip
        for nm, y in layouts(x):
            for q in (os.path.join(d, "out_" + nm), p):       # new file; over an existing one
                W = t.XfracFile()
                call(W.write_to_file, q, y, **kw)
                Y = call(t.XfracFile, q, **kw)
                near(Y.xi, x, "xfrac-roundtrip", f"{case} {nm}", rtol=0, atol=2e-7 if old else 1e-15)
                eq((Y.mesh_x, Y.mesh_y, Y.mesh_z), sh, "xfrac-roundtrip-mesh", str(case))
                eq(os.path.getsize(q), len(hdr) + x.size * dt().itemsize, "xfrac-file-size", str(case))
                # the flag decides what is stored
                raw = t.XfracFile(q, old_format=old, neutral=not neu, binary_format=bi).xi
                near(raw, 1 - x, "xfrac-complement", f"{case} {nm}", rtol=0, atol=2e-7 if old else 1e-15)
        # the same object reads another file afterwards
        z = core.field((2, 2, 2), 5)
        q = os.path.join(d, "xfrac3d_8.500.bin")
        t.XfracFile().write_to_file(q, z)
        call(X.read_from_file, q)
        eq(X.xi, z, "xfrac-reread", str(case))
        eq((X.mesh_x, X.mesh_y, X.mesh_z, X.z), (2, 2, 2, 8.5), "xfrac-reread-attrs", str(case))
    return digest(x, str(case))


# --------------------------------------------------------------- density, clumping, velocity

def cases_dens(tier):
    for sh, box, kind, name in itertools.product(SHAPES + BIG, (None, 244., 37., 500., 200.), ("read", "raw", "cgs"), ("7.059n_all.dat", "density.dat")):
        yield {"shape": sh, "box": box, "kind": kind, "name": name}


def check_dens(case):
    t = reset()
    try:
        if case["box"]:
            t.set_sim_constants(case["box"])
        sh = tuple(case["shape"])
        nb = {None: 8000, 244.: 8000, 37.: 2048, 500.: 13824, 200.: 3456}[case["box"]]
        cf = t.const.rho_crit_0 * (sh[0] / nb) ** 3 * t.const.OmegaB
        rho = (core.field(sh, 3, lo=.2, hi=20.) * (nb / sh[0]) ** 3).astype(np.float32).astype(np.float64)
        obs = []
        fine = sh[0] >= 80
        with core.scratch_dir() as d:
            p = os.path.join(d, case["name"])
            for nm, y in layouts(rho):
                if case["kind"] == "read":
                    with open(p, "wb") as f:
                        f.write(struct.pack("<3i", *sh) + fbytes(rho, np.float32))
                else:
                    W = t.DensityFile()
                    call(W.write_to_file, p, **({"raw_density": y} if case["kind"] == "raw" else {"cgs_density": y * cf}))
                    near(W.raw_density, rho, "written-raw", f"{case} {nm}", rtol=1e-6)
                    near(W.cgs_density if fine else rho * cf, rho * cf, "written-cgs", f"{case} {nm}", rtol=1e-6)
                    eq(os.path.getsize(p), 12 + 4 * rho.size, "dens-file-size", str(case))
                D = call(t.DensityFile, p)
                near(D.raw_density, rho, "dens-raw", f"{case} {nm}", rtol=3e-7)
                near(D.cgs_density if fine else rho * cf, rho * cf, "dens-cgs", f"{case} {nm}", rtol=1e-6)
                eq((D.mesh_x, D.mesh_y, D.mesh_z), sh, "dens-mesh", str(case))
                z = 7.059 if "n_all" in case["name"] else -1
                eq(D.z, z, "dens-z", str(case))
                for raw in (False, True):
                    got, typ = call(t.get_data_and_type, D, raw_density=raw)
                    eq(got, D.raw_density if raw else D.cgs_density, "data-of-object", str(case))
                    eq(typ, "density", "type-of-object", str(case))
                    if z > 0:
                        got, typ = call(t.get_data_and_type, p, raw_density=raw)
                        eq(got, D.raw_density if raw else D.cgs_density, "data-of-name", str(case))
                        eq(typ, "density", "type-of-name", str(case))
                if z > 0:
                    eq(call(t.get_mesh_size, p), sh, "mesh-size", str(case))
                obs.append(digest(D.cgs_density))
        return obs[0]
    finally:
        reset()


def cases_vel(tier):
    for sh, box, kind, z in itertools.product(SHAPES, (None, 37., 425.), ("read", "write"), (7.059, 20.134)):
        yield {"shape": sh, "box": box, "kind": kind, "z": z}


def check_vel(case):
    t = reset()
    try:
        if case["box"]:
            t.set_sim_constants(case["box"])
        sh, z = tuple(case["shape"]), case["z"]
        v = core.field((3,) + sh, 4, lo=-30., hi=50.).astype(np.float32).astype(np.float64)
        rho = core.field(sh, 6, lo=.5, hi=9.).astype(np.float32)
        box, nb = {None: (244., 8000), 37.: (37., 2048), 425.: (425., 10976)}[case["box"]]
        h, om = t.const.h, t.const.Omega0
        Mpc = t.const.Mpc
        lsc, tsc = box / h / nb * Mpc, 2. / (3. * np.sqrt(om) * (100 * h) / Mpc * 1e5)
        k = lsc / tsc * (1 + z) / 1e5
        with core.scratch_dir() as d:
            p, pd = os.path.join(d, "%.3fv_all.dat" % z), os.path.join(d, "%.3fn_all.dat" % z)
            t.DensityFile().write_to_file(pd, raw_density=rho)
            for nm, y in layouts(v):
                if case["kind"] == "read":
                    with open(p, "wb") as f:
                        f.write(struct.pack("<3i", *sh) + fbytes(v, np.float32))
                else:
                    W = t.VelocityFile(None)
                    call(W.write_to_file, p, y)
                    eq(os.path.getsize(p), 12 + 4 * v.size, "vel-file-size", str(case))
                V = call(t.VelocityFile, p)
                eq(V.raw_velocity, v, "vel-raw", f"{case} {nm}")
                eq((V.mesh_x, V.mesh_y, V.mesh_z, V.z), sh + (z,), "vel-mesh-z", str(case))
                near(V.kmsrho8, v * k, "vel-kmsrho8", str(case), rtol=1e-9)
                for form, dd in (("file name", pd), ("DensityFile", t.DensityFile(pd)), ("array", rho)):
                    near(call(V.get_kms_from_density, dd), v * k / (rho.astype(np.float64) / 8), "vel-kms", f"{case} {form}", rtol=1e-6)
                near(call(t.read_c2ray_files, p, file_type="vel", density_file=pd), v * k / (rho.astype(np.float64) / 8), "c2ray-vel", str(case), rtol=1e-6)
            near(call(t.read_c2ray_files, pd, file_type="dens"), t.DensityFile(pd).cgs_density, "c2ray-dens", str(case), rtol=1e-7)
            xp = os.path.join(d, "xfrac3d_%.3f.bin" % z)
            x = core.field(sh, 2)
            t.XfracFile().write_to_file(xp, x)
            eq(call(t.read_c2ray_files, xp), x, "c2ray-xfrac", str(case))
            eq(call(t.read_grizzly_files, xp), x, "grizzly", str(case))
            if sh[0] == sh[1] == sh[2]:
                fp = os.path.join(d, "delta_T")
                x.astype(np.float32).tofile(fp)
                a = call(t.read_21cmfast_files, fp)
                eq(a, x.astype(np.float32), "21cmfast", str(case))
                a[0, 0, 0] = 3          # an ordinary array
        return digest(v * k)
    finally:
        reset()


def cases_clump(tier):
    for sh, name in itertools.product(SHAPES, ("7.059c_all.dat", "clumping.dat")):
        yield {"shape": sh, "name": name}


def check_clump(case):
    t = core.t2c()
    sh = tuple(case["shape"])
    c = core.field(sh, 7, lo=1., hi=8.).astype(np.float32)
    cls = t.density_file.ClumpingFile
    T = t.TemperFile
    with core.scratch_dir() as d:
        p = os.path.join(d, case["name"])
        for nm, y in layouts(c):
            call(cls().write_to_file, p, y)
            eq(os.path.getsize(p), 12 + 4 * c.size, "clump-file-size", str(case))
            K = call(cls, p)
            eq(K.raw_clumping, c, "clump-roundtrip", f"{case} {nm}")
            eq((K.mesh_x, K.mesh_y, K.mesh_z, K.z), sh + (7.059 if "c_all" in case["name"] else -1,), "clump-attrs", str(case))
        with open(p, "wb") as f:
            f.write(struct.pack("<3i", *sh) + fbytes(c, np.float32))
        eq(call(cls, p).raw_clumping, c, "clump-read", str(case))
        # temperature files are read only
        for old, tail in ((False, b""), (False, struct.pack("<i", 77)), (True, b"")):
            q = os.path.join(d, "Temper3D_7.059.bin")
            with open(q, "wb") as f:
                f.write(struct.pack("<6i", 12, *sh, 12, 4 * c.size) + fbytes(c, np.float32) + tail)
            K = call(T, q, old_format=old)
            eq(K.temper, c, "temper-read", f"{case} {old}")
            eq((K.mesh_x, K.mesh_y, K.mesh_z, K.z), sh + (7.059,), "temper-attrs", str(case))
            eq(call(t.get_mesh_size, q), sh, "mesh-size", str(case))
            q2 = os.path.join(d, "temperature.dat")
            os.rename(q, q2)
            eq(call(T, q2, old_format=old).z, -1, "temper-no-z", str(case))
            os.rename(q2, q)
            for obj in (K, q):
                got, typ = call(t.get_data_and_type, obj)
                eq(got, c, "temper-data", str(case))
                eq(typ, "temper", "temper-type", str(case))
    return digest(c, case["name"])


def cases_old(tier):
    yield {"n": 203}


def check_old(case):
    """old-style density files: no header, 203^3 cells"""
    t = core.t2c()
    rho = np.arange(203 ** 3, dtype=np.float32).reshape((203,) * 3, order="F")
    with core.scratch_dir() as d:
        p = os.path.join(d, "7.059rho.dat")
        rho.flatten(order="F").tofile(p)
        D = call(t.DensityFile, p, old_format=True)
        eq(D.raw_density, rho, "old-read")
        eq((D.mesh_x, D.mesh_y, D.mesh_z), (203,) * 3, "old-mesh")
        call(t.DensityFile().write_to_file, p, raw_density=rho[::-1], old_format=True)
        eq(call(t.DensityFile, p, old_format=True).raw_density, rho[::-1], "old-roundtrip")
        eq(D.z, 7.059, "old-z")
    return digest(rho[::20, ::20, ::20])


# --------------------------------------------------------------- sources

def srcs(n, mesh, ncol):
    """n sources on a mesh, the last two in one cell"""
    out = []
    for i in range(n):
        pos = (i * 7 % mesh, i * 5 % mesh, i * 3 % mesh) if i < n - 1 or n == 1 else out[-1][:3]
        out.append(tuple(pos) + tuple(1e8 * (i + 1 + .37 * k) for k in range(ncol)))
    return np.array(out, dtype=float)


def cases_src(tier):
    for n, mesh, mass, box, kind in itertools.product((1, 2, 3, 8), (1, 2, 5), ("hm", "lm", "both"), (None, 37.), ("read", "write")):
        yield {"n": n, "mesh": mesh, "mass": mass, "box": box, "kind": kind}


def check_src(case):
    t = reset()
    try:
        if case["box"]:
            t.set_sim_constants(case["box"])
        u = t.conv.M_grid * t.const.solar_masses_per_gram
        n, mesh, mass = case["n"], case["mesh"], case["mass"]
        S = srcs(n, mesh, 2 if mass == "both" else 1)
        cls = t.source_file.SourceFile
        with core.scratch_dir() as d:
            p = os.path.join(d, "7.059-coarsest_wsubgrid_sources.dat")
            if case["kind"] == "read":
                with open(p, "w") as f:
                    f.write("%d 0.0\n" % n)
                    for s in S:
                        m = s[3:] / u
                        m = list(m) if mass == "both" else [m[0], 3.] if mass == "hm" else [3., m[0]]
                        f.write("%d %d %d %.12e %.12e\n\n" % (s[0] + 1, s[1] + 1, s[2] + 1, m[0], m[1]))
            else:
                W = cls(None, mass=mass)
                call(W.write_to_file, p, S)
            R = call(cls, p, mass=mass)
            eq(R.sources_list[:, :3], S[:, :3], "src-positions", str(case))
            near(R.sources_list[:, 3:], S[:, 3:], "src-masses", str(case), rtol=1e-8)
            eq(R.z, 7.059, "src-z", str(case))
            p2 = os.path.join(d, "sources.dat")
            os.link(p, p2)
            eq(call(cls, p2, mass=mass).z, -1, "src-no-z", str(case))
            for rep in range(2):        # repeating it changes nothing
                call(R.grid_sources, mesh)
                g = np.zeros((mesh,) * 3)
                for s in S:
                    g[tuple(s[:3].astype(int))] += s[3]
                near(R.sources_coeval, g, "src-grid", str(case), rtol=1e-7)
            if case["kind"] == "write":     # the other mass range is empty
                if mass != "both":
                    O = call(cls, p, mass="lm" if mass == "hm" else "hm")
                    eq(O.sources_list[:, 3], np.zeros(n), "src-other-range", str(case))
                    B = call(cls, p, mass="both")
                    near(B.sources_list[:, 3:].sum(axis=1), S[:, 3], "src-both", str(case), rtol=1e-8)
            return digest(R.sources_list)
    finally:
        reset()


# --------------------------------------------------------------- generic array files

ASH = [(2, 3, 4), (3, 3, 3), (1, 4, 2), (5,), (2, 3), (2, 3, 2, 2), (1, 1, 1)]


def cases_arr(tier):
    for sh, bits, order, dt in itertools.product(ASH, (32, 64), ("C", "F"), ("f4", "f8", "i4")):
        yield {"shape": sh, "bits": bits, "order": order, "dtype": dt}


def check_arr(case):
    t = core.t2c()
    H = t.helper_functions
    sh, bits, order = tuple(case["shape"]), case["bits"], case["order"]
    fdt = np.float32 if bits == 32 else np.float64
    a = core.field(sh, 8, lo=-100, hi=100).astype(case["dtype"])
    w = a.astype(fdt)
    with core.scratch_dir() as d:
        for nm, y in layouts(a):
            p = os.path.join(d, "a.cbin")
            call(H.save_cbin, p, y, bits=bits, order=order)
            raw = open(p, "rb").read()
            expect(raw == struct.pack("<%di" % len(sh), *sh) + fbytes(a, fdt, order), "cbin-bytes", lambda: f"{case} {nm}")
            eq(call(H.read_cbin, p, bits=bits, order=order, dimensions=len(sh)), w, "cbin-roundtrip", f"{case} {nm}")
            if len(sh) == 3:
                eq(call(H.read_cbin, p, bits=bits, order=order), w, "cbin-roundtrip", f"{case} {nm}")
                got, typ = call(t.get_data_and_type, p, cbin_bits=bits, cbin_order=order)
                eq(got, w, "cbin-data", str(case))
                eq(typ, "cbin", "cbin-type", str(case))
                eq(call(t.get_mesh_size, p), sh, "mesh-size", str(case))
            # the same through save_data
            q = os.path.join(d, "b.cbin")
            expect(call(H.save_data, q, y, bits=bits, order=order) is True, "save-return", str(case))
            expect(open(q, "rb").read() == raw, "save-data-cbin", str(case))
            q = os.path.join(d, "c.dat")
            expect(call(H.save_data, q, y, filetype="cbin", bits=bits, order=order) is True, "save-return", str(case))
            expect(open(q, "rb").read() == raw, "save-data-cbin", str(case))
            # records
            with open(p, "wb") as f:
                f.write(struct.pack("<i", 4 * len(sh)) + raw[:4 * len(sh)] + struct.pack("<2i", 4 * len(sh), len(raw)) + raw[4 * len(sh):] + struct.pack("<i", 9))
            eq(call(H.read_cbin, p, bits=bits, order=order, dimensions=len(sh), records=True), w, "cbin-records", f"{case} {nm}")
            # raw
            for q, kw in ((os.path.join(d, "a.bin"), None), (os.path.join(d, "d.bin"), {}), (os.path.join(d, "e.dat"), {"filetype": "bin"})):
                if kw is None:
                    call(H.save_raw_binary, q, y, bits=bits, order=order)
                else:
                    expect(call(H.save_data, q, y, bits=bits, order=order, **kw) is True, "save-return", str(case))
                expect(open(q, "rb").read() == fbytes(a, fdt, order), "raw-bytes", lambda: f"{case} {nm}")
                if len(set(sh)) == 1 and len(sh) == 3:
                    eq(call(H.read_raw_binary, q, bits=bits, order=order), w, "raw-roundtrip", f"{case} {nm}")
            # fits
            q = os.path.join(d, "a.fits")
            for rep in range(2):            # over an existing file
                call(H.save_fits, y, q)
                eq(call(H.read_fits, q, header=False), a.astype(np.float64), "fits-roundtrip", f"{case} {nm}")
            hd = call(H.read_fits, q)[1]
            eq([hd["NAXIS%d" % (i + 1)] for i in range(len(sh))], sh[::-1], "fits-header", str(case))
            q = os.path.join(d, "b.fits")
            expect(call(H.save_data, q, y) is True, "save-return", str(case))
            eq(call(H.read_fits, q, header=False), a.astype(np.float64), "fits-roundtrip", f"{case} {nm}")
            # numpy and pickle
            q = os.path.join(d, "a.npy")
            call(H.save_data, q, y)
            eq(np.load(q), a, "npy-roundtrip", str(case))
            q = os.path.join(d, "a.pkl")
            call(H.save_data, q, y)
            eq(np.load(q, allow_pickle=True), a, "pkl-roundtrip", str(case))
            q = os.path.join(d, "dbt_7.059")
            np.save(q, y)
            got, typ = call(t.get_data_and_type, q + ".npy")
            eq(got, a, "dbt-data", str(case))
            eq(typ, "dbt", "dbt-type", str(case))
            eq(call(t.get_mesh_size, q + ".npy"), sh, "mesh-size", str(case))
        expect(call(H.save_data, os.path.join(d, "zz"), a) is False, "save-unknown", str(case))
        expect(not os.path.exists(os.path.join(d, "zz")), "save-unknown", "file of unknown type made")
        got, typ = call(t.get_data_and_type, a)
        expect(got is a and typ == "unknown", "array-data", str(case))
        must_raise(t.get_data_and_type, os.path.join(d, "zz.txt"), kind="unknown-type-accepted")
        must_raise(t.get_data_and_type, 3, kind="unknown-type-accepted")
    return digest(w, order)


def cases_cubes(tier):
    for n in list(range(1, 25)) + [47, 64] + ([100, 150] if tier == "thorough" else []):
        yield {"n": n}


def check_cubes(case):
    """files without header hold cubes: the size follows from the length"""
    t = core.t2c()
    n = case["n"]
    a = np.arange(n ** 3, dtype=np.float32).reshape(n, n, n)
    with core.scratch_dir() as d:
        p = os.path.join(d, "delta_T_v3")
        a.tofile(p)
        eq(call(t.read_21cmfast_files, p), a, "21cmfast", str(case))
        eq(call(t.read_raw_binary, p, bits=32), a, "raw-cube", str(case))
        eq(call(t.read_raw_binary, p, bits=32, order="F"), a.T, "raw-cube", str(case))
        a.astype(float).tofile(p)
        eq(call(t.read_raw_binary, p), a, "raw-cube", str(case))
    return n


def cases_objfits(tier):
    for kind in ("xfrac", "density", "temper", "xname", "dname", "tname", "header"):
        yield {"kind": kind}


def check_objfits(case):
    """fits files can be made from file objects and file names"""
    t = core.t2c()
    H = t.helper_functions
    sh, k = (2, 3, 4), case["kind"]
    a = core.field(sh, 2).astype(np.float32)
    with core.scratch_dir() as d:
        xp, dp, tp = (os.path.join(d, n) for n in ("xfrac3d_7.059.bin", "7.059n_all.dat", "Temper3D_7.059.bin"))
        t.XfracFile().write_to_file(xp, a)
        t.DensityFile().write_to_file(dp, raw_density=a)
        with open(tp, "wb") as f:
            f.write(struct.pack("<6i", 12, *sh, 12, 96) + fbytes(a, np.float32))
        D = t.DensityFile(dp)
        src, want = {"xfrac": (t.XfracFile(xp), a), "density": (D, D.cgs_density), "temper": (t.TemperFile(tp), a),
                     "xname": (xp, a), "dname": (dp, D.cgs_density), "tname": (tp, a), "header": (a, a)}[k]
        q = os.path.join(d, "o.fits")
        hd = None
        if k == "header":
            from astropy.io import fits
            hd = fits.Header([("OBJECT", "box"), ("ZRED", 7.059)])
        call(H.save_fits, src, q, header=hd)
        got, h2 = call(H.read_fits, q)
        eq(got, want.astype(np.float64), "fits-object", str(case))
        if hd is not None:
            eq((h2["OBJECT"], h2["ZRED"]), ("box", 7.059), "fits-header", str(case))
    return k


# --------------------------------------------------------------- everyday sizes

RSH = [(40, 33, 28), (300, 5, 7), (3, 260, 30), (64, 64, 64)]


def cases_real(tier):
    for sh in RSH:
        for old, neu, bi in itertools.product((0, 1), repeat=3):
            yield {"what": "xfrac", "shape": sh, "old": old, "neutral": neu, "binary": bi, "name": "xfrac3d_7.059.bin"}
        for box, kind in itertools.product((None, 37.), ("read", "raw", "cgs")):
            yield {"what": "dens", "shape": sh, "box": box, "kind": kind, "name": "7.059n_all.dat"}
        for kind in ("read", "write"):
            yield {"what": "vel", "shape": sh, "box": None, "kind": kind, "z": 7.059}
        yield {"what": "clump", "shape": sh, "name": "7.059c_all.dat"}
        for bits, order in itertools.product((32, 64), "CF"):
            yield {"what": "arr", "shape": sh, "bits": bits, "order": order, "dtype": "f8" if order == "C" else "f4"}
    for sh in ((70000,), (300, 300), (12, 11, 10, 9)):
        yield {"what": "arr", "shape": sh, "bits": 32, "order": "C", "dtype": "f4"}
    for n, mesh, mass in itertools.product((300, 1000), (64, 300), ("hm", "lm", "both")):
        for kind in ("read", "write"):
            yield {"what": "src", "n": n, "mesh": mesh, "mass": mass, "box": None, "kind": kind}


def check_real(case):
    """meshes of up to 64^3 cells and 300 cells to a side, a thousand sources"""
    return {"xfrac": check_xfrac, "dens": check_dens, "vel": check_vel, "clump": check_clump, "arr": check_arr, "src": check_src}[case["what"]](case)


# --------------------------------------------------------------- ionisation rates

def cases_irate(tier):
    for sh, bi, old, name in itertools.product(SHAPES + [(40, 33, 28)], (0, 1), (0, 1), ("IonRates3_7.059.bin", "rates.dat", "IonRates3_mean.bin")):
        yield {"shape": sh, "binary": bi, "old": old, "name": name}


def check_irate(case):
    """photo-ionisation rates: single precision, with or without record markers"""
    core.t2c()
    from tools21cm.irate_file import IonRateFile
    sh, bi = tuple(case["shape"]), case["binary"]
    a = core.field(sh, 4, lo=0, hi=9).astype(np.float32)
    with core.scratch_dir() as d:
        p = os.path.join(d, case["name"])
        with open(p, "wb") as f:
            f.write((struct.pack("<3i", *sh) if bi else struct.pack("<6i", 12, *sh, 12, 4 * a.size)) + fbytes(a, np.float32))
            if not case["old"]:
                f.write(struct.pack("<i", 4 * a.size))
        kw = {"old_format": bool(case["old"]), "binary_format": bool(bi)}
        for how in (0, 1):
            if how:
                R = IonRateFile()
                call(R.read_from_file, p, **kw)
            else:
                R = call(IonRateFile, p, **kw)
            eq(np.asarray(R.irate).reshape(sh, order="F") if case["old"] else R.irate, a, "irate", str(case))
            eq((R.mesh_x, R.mesh_y, R.mesh_z, R.z), sh + (7.059 if "7.059" in case["name"] else -1,), "irate-attrs", str(case))
    return digest(a)


SUITES = [
    FnSuite("ionised-fraction", cases_xfrac, check_xfrac, "6 shapes x precision x neutral x record markers x 3 names x 3 memory layouts, fresh and over an old file, object reuse"),
    FnSuite("density", cases_dens, check_dens, "6 shapes x 5 boxes x read/raw/cgs x 2 names x 3 memory layouts"),
    FnSuite("velocity", cases_vel, check_vel, "6 shapes x 3 boxes x read/write x 2 redshifts x 3 layouts x 3 density forms"),
    FnSuite("clumping-temperature", cases_clump, check_clump, "6 shapes x 2 names x 3 layouts"),
    FnSuite("old-density", cases_old, check_old, "the 203^3 format"),
    FnSuite("sources", cases_src, check_src, "4 numbers x 3 meshes x 3 mass ranges x 2 boxes x read/write"),
    FnSuite("arrays", cases_arr, check_arr, "7 shapes of 1-4 dimensions x bits x order x dtype x 3 layouts x every format"),
    FnSuite("headerless-cubes", cases_cubes, check_cubes, "26 cube sizes (thorough 28)"),
    FnSuite("objects-to-fits", cases_objfits, check_objfits, "6 sources and headers"),
    FnSuite("realistic", cases_real, check_real, "4 meshes up to 64^3 and 300 a side x every file type and option; 1000 sources on meshes up to 300^3", timeout=200),
    FnSuite("ionisation-rates", cases_irate, check_irate, "7 meshes x record markers x old format x 3 names x 2 ways to read"),
]
