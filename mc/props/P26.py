"""P26: Lyman-alpha absorption and UV magnitudes."""
import itertools

import numpy as np
from scipy.integrate import quad

from mc.core import C, FnSuite, call, digest, eq, expect, field, must_raise, near, t2c
from mc.props.P13 import reset

TITLE = "Lyman-alpha opacities, effective optical depths and UV magnitudes are exact"
LEVEL = "model_checking"
ASSUMPTIONS = ["overdensities (not densities) are given", "cubic cells; the box length is that of the first axis",
               "the normalisation with redshift of tau_nu_lyA (a path length is given there) is not claimed"]


def mods():
    t = t2c()
    import sys
    return t, sys.modules["tools21cm.lyman_alpha_transmission"], sys.modules["tools21cm.astro_tools"]


def cosmos():
    from astropy.cosmology import FlatLambdaCDM, Planck18
    return [None, Planck18, FlatLambdaCDM(H0=70., Om0=.3, Ob0=.05), FlatLambdaCDM(H0=60., Om0=.25, Ob0=.04)]


# ---------------------------------------------------------------- line profile

def cases_voigt(tier):
    xs = (-30., -4., -1.5, -.3, 0., .2, 1., 2.7, 5., 12.)
    for x in xs if tier == "quick" else np.linspace(-20, 20, 81).tolist():
        for a in (.05, .1, .5, 1., 3.):
            yield dict(x=x, a=a)


def check_voigt(c):
    t, L, A = mods()
    x, a = c["x"], c["a"]
    f = lambda y: np.exp(-y * y) / ((y - x) ** 2 + a * a) * a / np.pi
    want = sum(quad(f, lo, lo + .5, epsabs=1e-13)[0] for lo in np.arange(-7., 7., .5))
    near(float(call(L.approximation_voigt_faddeeva, x, a)), want, "voigt", f"{c}", rtol=1e-6)
    near(float(call(L.direct_voigt_profile, x, a)), want, "voigt-direct", f"{c}", rtol=1e-5)
    near(float(L.approximation_voigt_faddeeva(-x, a)), want, "voigt-even", f"{c}", rtol=1e-6)
    v = call(L.approximation_voigt_faddeeva, np.array([[x, 0.], [1., -x]]), a)
    expect(v.shape == (2, 2), "voigt-form", "")
    near(v[0, 0], want, "voigt", "array", rtol=1e-6)
    v = call(L.direct_voigt_profile, np.array([x, x]), a)
    near(v, [want, want], "voigt-direct", "array", rtol=1e-5)
    return digest(round(want, 12))


def cases_sigma(tier):
    for T in (10., 100., 1e4, 2e5):
        for form in ("float", "quantity", "keV"):
            for nf in ("float", "Hz", "PHz", "array"):
                yield dict(T=T, form=form, nf=nf)


NUA = 2.46e15
VTH = np.sqrt(2 * 1.380649e-23 * 1e4 / 1.67262192e-27) / 299792458.


def ref_sigma(nu, T):
    from scipy.special import wofz
    d = NUA * VTH * np.sqrt(T / 1e4)
    return 5.9e-14 / np.sqrt(T / 1e4) * wofz((nu - NUA) / d + 1j * 4.7e-4 / np.sqrt(T / 1e4)).real


def check_sigma(c):
    from astropy import units as u
    t, L, A = mods()
    T = c["T"]
    Ta = {"float": T, "quantity": T * u.K, "keV": (T / 1e3) * u.kK}[c["form"]]
    d = NUA * VTH * np.sqrt(T / 1e4)
    out = []
    for k in (-20., -3., -1., 0., .5, 2., 8.):
        nu = NUA + k * d
        na = {"float": nu, "Hz": nu * u.Hz, "PHz": nu / 1e15 * u.PHz, "array": np.array([nu, NUA])}[c["nf"]]
        s = call(L.lyA_scattering_cross_section, na, Ta)
        w = ref_sigma(np.array([nu, NUA]) if c["nf"] == "array" else nu, T)
        near(s.to("cm2").value, w, "cross-section", f"{c} {k} widths", rtol=2e-3)
        out.append(np.round(np.log10(np.ravel(w)), 6))
    # the integral over frequency is pi e^2/(m c) f = 0.011045 cm^2 Hz at every temperature
    x = np.concatenate([-np.logspace(5, -3, 4000), [0.], np.logspace(-3, 5, 4000)])
    s = L.lyA_scattering_cross_section(NUA + x * d, T).to("cm2").value
    I = np.sum((s[1:] + s[:-1]) / 2 * np.diff(x)) * d
    near(I, .026540 * .4162, "cross-section-integral", f"{c}", rtol=5e-3)
    return digest(*out)


# ---------------------------------------------------------------- FGPA

def cases_fgpa(tier):
    for z in (0., 5.5, 6, 7.25):
        for co in range(4):
            for kw in (dict(), dict(f_alpha=.3), dict(k_res=.17), dict(X_H=.74), dict(lam="A"), dict(lam="nm"), dict(lam="float"), dict(lam="float", f_alpha=.5, k_res=2., X_H=.7)):
                yield dict(z=z, co=co, kw=kw)


def nH0(cosmo, X):
    h = cosmo.H0.value / 3.0856775814913673e19
    rc = 3 * h ** 2 / (8 * np.pi * 6.6743e-8)
    return X * cosmo.Ob0 * rc / (1.67262192e-24 + 9.1094e-28)


def ref_fgpa(z, x, dn, cosmo, f_alpha=.416, lam=1216., k_res=1., X_H=.76):
    from astropy.cosmology import Planck18
    cosmo = cosmo or Planck18
    H = float(cosmo.H(z).value) / 3.0856775814913673e19
    return .0265400 * f_alpha * lam * 1e-8 * k_res / H * (1 + z) ** 3 * x * (1 + dn) * nH0(cosmo, X_H) * (1.344e-7 / (.0265400 * .416 * 1216e-8))


def check_fgpa(c):
    from astropy import units as u
    t, L, A = mods()
    co = cosmos()[c["co"]]
    kw = dict(c["kw"])
    lam = kw.pop("lam", None)
    r = dict(kw)
    if lam:
        r["lam"] = 1300. if lam == "float" else 1250.
        kw["lambda_alpha"] = {"A": 1250. * u.Angstrom, "nm": 125. * u.nm, "float": 1300.}[lam]
    for shape in ((1, 1, 1), (2, 3, 4), (5,)):
        x = field(shape, 2, lo=0, hi=1)
        dn = field(shape, 3, lo=-1, hi=4)
        x.flat[0] = 0.
        for dt in (float, np.float32):
            y = call(L.tau_nu_lyA_FGPA, c["z"], x.astype(dt), dn.astype(dt), cosmo=co, **kw)
            near(np.asarray(y), ref_fgpa(c["z"], x, dn, co, **r), "fgpa", f"{c} {shape}", rtol=1e-3)
    return digest(c["z"], c["co"], repr(c["kw"]))


# ---------------------------------------------------------------- lines of sight

SH = [(4, 4, 4), (2, 2, 2), (1, 1, 1), (3, 4, 5), (5, 3, 2), (6, 2, 3), (2, 5, 7)]


def cases_los(tier):
    for s in SH if tier == "quick" else SH + [(8, 3, 4), (3, 9, 2), (2, 2, 12)]:
        for ax in (0, 1, 2):
            n = s[ax]
            for cells in range(1, 2 * n + 1):
                yield dict(s=s, ax=ax, cells=cells, form="cells")
            for f in ("Mpc", "kpc", "box-kpc"):
                for cells in {1, n, max(1, n - 1)}:
                    yield dict(s=s, ax=ax, cells=cells, form=f)
            yield dict(s=s, ax=ax, cells=max(1, n // 2), form="smith")
            yield dict(s=s, ax=ax, cells=n, form="default-box")


def check_los(c):
    from astropy import units as u
    t, L, A = mods()
    s, ax, cells = tuple(c["s"]), c["ax"], c["cells"]
    co = cosmos()[2]
    x = field(s, 5, lo=0, hi=1) ** 6
    dn = field(s, 6, lo=-1, hi=3)
    kw = dict(cosmo=co, los_axis=ax)
    n0 = np.swapaxes(x, ax, 2).shape[0]
    los = cells
    if c["form"] == "smith":
        nu0 = (NUA, NUA * 1.0002)[s[0] % 2]
        if nu0 != NUA:
            kw.update(nu=nu0, X_H=.7)
        kw.update(method="Smith2015", Tk=field(s, 7, lo=5e3, hi=3e4), dr=.02 * u.Mpc)
        near(np.asarray(call(L.tau_nu_lyA, 6., 2 * x, kw["Tk"], 3 * kw["dr"], cosmo=co)), 6 * np.asarray(L.tau_nu_lyA(6., x, kw["Tk"], kw["dr"], cosmo=co)), "tau-linear", f"{c}", rtol=1e-9)
        # proportional to the cross section
        q = [np.asarray(call(L.tau_nu_lyA, 6., x, kw["Tk"], kw["dr"], nu=nu, cosmo=co)) for nu in (NUA, NUA * 1.0003)]
        r = [np.asarray(L.lyA_scattering_cross_section(nu, kw["Tk"].copy()).to("cm2").value) for nu in (NUA, NUA * 1.0003)]
        near(q[1] * r[0], q[0] * r[1], "tau-profile", f"{c}", rtol=1e-6)
        tau = np.asarray(L.tau_nu_lyA(6., x, kw["Tk"], kw["dr"], cosmo=co, **{k: kw[k] for k in ("nu", "X_H") if k in kw}))
        if nu0 == NUA:
            eq(tau, q[0], "tau-default-frequency", f"{c}")
    else:
        opt = (dict(), dict(k_res=.17), dict(f_alpha=.3, X_H=.7), dict(lambda_alpha=1025. * u.Angstrom, k_res=3.))[(cells + ax) % 4]
        kw.update(opt, **({} if cells % 2 else dict(method="fgpa")))
        tau = np.asarray(L.tau_nu_lyA_FGPA(6., x, dn, cosmo=co, **opt))
        if c["form"] in ("Mpc", "kpc", "box-kpc"):
            box = 10. * n0
            los = 10. * cells * u.Mpc
            kw["box_len"] = box * u.Mpc
            if c["form"] == "kpc":
                los = los.to("kpc")
            if c["form"] == "box-kpc":
                kw["box_len"] = (box * u.Mpc).to("kpc")
        elif c["form"] == "default-box":
            los = 200. / .7 * u.Mpc
            cells = n0
            if cells > 2 * s[ax]:
                return None
    y = call(L.tau_nu_lyA_los, 6., x, dn, los_len=los, **kw)
    a = np.swapaxes(tau, ax, 2)
    n = a.shape[2]
    want = np.zeros(a.shape)
    for k in range(n):
        idx = [(k - cells // 2 + j) % n for j in range(cells)]
        want[..., k] = -np.log(np.mean(np.exp(-a[..., idx]), axis=2))
    near(np.asarray(y), want, "effective-tau", f"{c}", rtol=1e-7, atol=1e-10)
    return digest(np.round(want, 6))


# ---------------------------------------------------------------- magnitudes

def cases_mag(tier):
    for co in range(4):
        for z in (.1, 1, 6., 7.5, 12.25):
            yield dict(co=co, z=z)


def check_mag(c):
    from astropy import units as u
    t, L, A = mods()
    co = cosmos()[c["co"]]
    ref = co or cosmos()[1]
    z = c["z"]
    dl = float(ref.comoving_distance(z).to("pc").value) * (1 + z)
    dm = 5 * np.log10(dl / 10)
    val = lambda q: q.to("mag").value
    for M in (-24., -20, -17.5, 0, 3):
        for q in (M, M * u.mag):
            m = call(A.Muv_to_muv, q, z, cosmo=co)
            near(float(val(m)), M + dm - 2.5 * np.log10(1 + z), "apparent", f"{c} {q}", rtol=1e-9)
            near(float(val(call(A.muv_to_Muv, m, z, cosmo=co))), float(M), "magnitude-inverse", f"{c} {q}", atol=1e-9)
            back = call(A.muv_to_Muv, q, z, cosmo=co)
            near(float(val(back)), M - dm + 2.5 * np.log10(1 + z), "absolute", f"{c} {q}", rtol=1e-9)
            near(float(val(call(A.Muv_to_muv, back, z, cosmo=co))), float(M), "magnitude-inverse", f"{c} {q}", atol=1e-9)
            f = call(A.mag_to_flux, q).to("erg/(s cm2 Hz)").value
            near(float(f), 3630.78e-23 * 10 ** (-.4 * M), "flux", f"{q}", rtol=1e-5)
            l = call(A.Muv_to_L1500, q).to("erg/(s Hz)").value
            near(float(l), 10 ** ((51.6 - M) / 2.5), "luminosity", f"{q}", rtol=1e-9)
            # the flux of the apparent magnitude is the luminosity over the distance, one factor 1+z per unit frequency
            fl = A.mag_to_flux(m).to("erg/(s cm2 Hz)").value
            near(float(fl), l * (1 + z) / (4 * np.pi * (dl * 3.0856775814913673e18) ** 2), "flux-luminosity", f"{c} {q}", rtol=5e-3)
    ma = np.array([-22., -18.]) * u.mag
    near(val(call(A.Muv_to_muv, ma, z, cosmo=co)), np.array([-22., -18.]) + dm - 2.5 * np.log10(1 + z), "apparent", "array", rtol=1e-9)
    near(call(A.Muv_to_L1500, ma).to("erg/(s Hz)").value, 10 ** ((51.6 - np.array([-22., -18.])) / 2.5), "luminosity", "array", rtol=1e-9)
    near(call(A.mag_to_flux, ma).to("erg/(s cm2 Hz)").value, 3630.78e-23 * 10 ** (-.4 * np.array([-22., -18.])), "flux", "array", rtol=1e-5)
    for a in (1., .25, 100.):
        v = call(A.FoV_cMpc2, a * u.deg ** 2, z, cosmo=co)
        near(float(v.to("Mpc2").value), a * (np.pi / 180) ** 2 * float(ref.comoving_distance(z).value) ** 2, "fov", f"{c}", rtol=1e-9)
        near(float(call(A.FoV_cMpc2, a * 3600 * u.arcmin ** 2, z, cosmo=co).to("Mpc2").value), float(v.to("Mpc2").value), "fov", f"{c} arcmin", rtol=1e-9)
    return digest(c)


# ---------------------------------------------------------------- thermal noise of the power spectrum

def cases_psn(tier):
    for nu in (115., 150., 180., 200):
        for co in range(3):
            yield dict(nu=nu, co=co)


COS = [None, (.6711, .3175, .6825), (.7, .25, .75)]


def check_psn(c):
    t = reset()
    if COS[c["co"]]:
        h, om, la = COS[c["co"]]
        t.set_hubble_h(h)
        t.set_omega_matter(om)
        t.set_omega_lambda(la)
    from mc.props.P22 import ref_cdist
    nu = c["nu"]
    k = np.array([.05, .1, .3, 1.])
    f = lambda *a, **q: np.asarray(call(t.noise_error_ps, *a, **q))

    def ref(k, hours, Rmax=1500., Aeff=None, Nstat=48, Tsys=None, B=10., epsilon=1., multipole=0):
        lam = 299.792458 / nu
        A = 526. * (nu / 150.) ** -2 if Aeff is None else Aeff
        T = (140. + 60. * (nu / 300.) ** -2.55) * 1e3 if Tsys is None else Tsys
        D = ref_cdist(1420. / nu - 1)
        dD = abs(D - ref_cdist(1420. / (nu + B) - 1))
        return 2 / np.pi * k ** 1.5 * np.sqrt(D * D * dD * lam ** 2 / A) * T ** 2 / (B * 1e6 * hours * 3600.) * np.pi * Rmax ** 2 * A / (Nstat * A) ** 2 / np.sqrt(epsilon) * np.sqrt(2 * multipole + 1)
    for hours in (1., 600., 1000):
        near(f(nu, k, hours), ref(k, hours), "ps-noise", f"{c}", rtol=2e-3)
        near(float(f(nu, .1, hours)), float(ref(.1, hours)), "ps-noise", f"{c} scalar", rtol=2e-3)
        for q in (dict(Rmax=900.), dict(Aeff=300.), dict(Nstat=24), dict(Tsys=3e5), dict(B=4.), dict(epsilon=.5), dict(multipole=2), dict(multipole=4, B=6., Nstat=96)):
            near(f(nu, k, hours, **q), ref(k, hours, **q), "ps-noise", f"{c} {q}", rtol=2e-3)
        near(f(nu, k, hours, Aeff=lambda x: 2. * x, Tsys=lambda x: 1e3 * x), ref(k, hours, Aeff=2. * nu, Tsys=1e3 * nu), "ps-noise", f"{c} functions", rtol=2e-3)
    reset()
    return digest(c)


# ---------------------------------------------------------------- everyday sizes

def cases_real(tier):
    for s, ax, cells in (((40, 33, 28), 2, 20), ((12, 12, 300), 2, 130), ((260, 5, 6), 0, 260), ((7, 64, 9), 1, 41)):
        yield dict(s=s, ax=ax, cells=cells, form="cells")
        if s == (40, 33, 28):
            yield dict(s=s, ax=ax, cells=14, form="smith")


def check_real(c):
    """lines of sight of up to 300 cells"""
    t, L, A = mods()
    s = tuple(c["s"])
    x, dn = field(s, 2), field(s, 3, lo=-1, hi=4)
    near(np.asarray(call(L.tau_nu_lyA_FGPA, 6., x, dn)), ref_fgpa(6., x, dn, None), "fgpa", str(c), rtol=1e-3)
    return check_los(c)


# ---------------------------------------------------------------- optical depth of a cell

def cases_cell(tier):
    for co in range(4):
        for T in (300., 1e4, 2e5):
            for nu in (NUA, NUA * 1.0002, NUA * .999):
                for s in ((2, 2, 2), (3, 1, 2)):
                    yield dict(co=co, T=T, nu=nu, s=s)


def check_cell(c):
    """neutral atoms times cross section times length, in whatever units the three are given"""
    from astropy import units as u
    t, L, A = mods()
    s = tuple(c["s"])
    co = cosmos()[c["co"]]
    x = field(s, 5, lo=0, hi=1)
    T = c["T"] * (1 + field(s, 7, lo=0, hi=1))
    dr = .02 * (1 + np.arange(s[2]))
    f = lambda x=x, T=T * u.K, dr=dr * u.Mpc, nu=c["nu"], cosmo=co, **k: np.asarray(call(L.tau_nu_lyA, 6., x, T, dr, nu=nu, cosmo=cosmo, **k))
    y = f()
    expect(y.shape == s, "tau-form", f"{y.shape}")
    R = dict(rtol=1e-9, atol=0)
    for n, q in (("dr in kpc", f(dr=(dr * u.Mpc).to("kpc"))), ("dr in cm", f(dr=(dr * u.Mpc).to("cm"))), ("dr without unit", f(dr=dr.copy())), ("Tk without unit", f(T=T.copy())),
                 ("Tk in mK", f(T=(T * u.K).to("mK"))), ("nu in Hz", f(nu=c["nu"] * u.Hz)), ("nu in GHz", f(nu=(c["nu"] * u.Hz).to("GHz"))), ("X_H", f(X_H=.38) * 2), ("half of xHI", f(x=x / 2) * 2),
                 ("twice the length", f(dr=2 * dr * u.Mpc) / 2)):
        near(q, y, "tau-unit", f"{c}: {n}", rtol=1e-6 if n == "nu in GHz" else 1e-9)
    sig = np.asarray(L.lyA_scattering_cross_section(c["nu"], T * u.K).to("cm2").value)
    from astropy.cosmology import Planck18
    k = co or Planck18
    nH = .76 * k.Ob0 * k.critical_density0.to("g/cm3").value / 1.67262192e-24
    near(y / (sig * x * (dr * u.Mpc).to("cm").value), np.full(s, nH), "tau-atoms", f"{c}", rtol=2e-3)
    # any one cell follows from its own values alone
    for i in np.ndindex(s):
        near(f(x=x[i] * np.ones((1, 1, 1)), T=T[i] * u.K, dr=dr[i[2]] * u.Mpc).item(), y[i], "tau-cell", f"{c} {i}", **R)
    return digest(np.round(y / y.max(), 9))


SUITES = [
    FnSuite("voigt", cases_voigt, check_voigt, "10 (81) frequencies x 5 damping parameters"),
    FnSuite("cross-section", cases_sigma, check_sigma, "4 temperatures x units x 7 frequencies; integral over the line"),
    FnSuite("fgpa", cases_fgpa, check_fgpa, "4 redshifts x 4 cosmologies x 8 parameter sets x 3 shapes x 2 dtypes"),
    FnSuite("lines-of-sight", cases_los, check_los, "7 (10) shapes x 3 axes x all lengths up to twice the box, in cells and in units"),
    FnSuite("magnitudes", cases_mag, check_mag, "4 cosmologies x 5 redshifts x 5 magnitudes x forms"),
    FnSuite("ps-noise", cases_psn, check_psn, "4 frequencies x 3 cosmologies x 3 times x 10 parameter sets"),
    FnSuite("realistic", cases_real, check_real, "4 boxes with lines of sight of 28-300 cells"),
    FnSuite("cells", cases_cell, check_cell, "4 cosmologies x 3 temperatures x 3 frequencies x 2 shapes; 10 forms of the arguments; every cell alone"),
]
