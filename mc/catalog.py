"""Catalogue of representative calls of the public functions, used by the properties that quantify over *calls* (P27, P28).

An entry gives, for a variant v, the function and fresh arguments. Variants differ in one respect each:
0 the base call; 1 the same shapes and parameters with other data; 2 the same data with other parameters; 3 another shape.
Every call is deterministic given its arguments, the settings (cosmology, simulation box) and numpy's global random state."""
import os
import sys

import numpy as np

from mc.core import field, t2c

E = {}      # name -> entry
NV = 4


class Entry:
    def __init__(self, name, make, rng=False, slow=False, tags=()):
        self.name, self.make, self.rng, self.slow, self.tags = name, make, rng, slow, tags


def add(name, make, **k):
    assert name not in E, name
    E[name] = Entry(name, make, **k)


def M(name):
    """a submodule (some are shadowed by functions of the same name)"""
    t2c()
    import importlib
    return importlib.import_module("tools21cm." + name)


class V:
    """a variant of the arguments"""

    def __init__(self, v):
        self.v = v
        self.salt = 11 + (v == 1) * 50
        self.n = 5 if v == 3 else 4
        self.s = (5, 3, 4) if v == 3 else (4, 5, 3)
        self.q = v == 2

    def p(self, a, b):
        """a parameter"""
        return b if self.q else a

    def f(self, shape=None, lo=0., hi=1., k=0):
        return field(self.s if shape is None else shape, self.salt + k, lo=lo, hi=hi)

    def c(self, lo=0., hi=1., k=0, n=None):
        """a cubic field"""
        n = n or self.n
        return field((n, n, n), self.salt + k, lo=lo, hi=hi)

    def mask(self, shape=None, k=0):
        return self.f(shape, k=k) > .5


T = lambda name: getattr(t2c(), name)

# ---------------------------------------------------------------- power spectra

PS = "power_spectrum"


def ps(name, *fixed, two=False, **kw):
    def make(v):
        a = [v.f(lo=-1)] + ([v.f(lo=-1, k=1)] if two else [])
        k = {q: (w(v) if callable(w) else w) for q, w in kw.items()}
        return getattr(M(PS), name), a + [x(v) for x in fixed], k
    return make


BOX = lambda v: v.p(40., (30., 50., 45.))
add("power_spectrum_nd", ps("power_spectrum_nd", box_dims=BOX))
add("power_spectrum_nd-default-box", ps("power_spectrum_nd"))
add("cross_power_spectrum_nd", ps("cross_power_spectrum_nd", two=True, box_dims=BOX))
add("radial_average", ps("radial_average", box_dims=BOX, kbins=3))
add("power_spectrum_1d", ps("power_spectrum_1d", kbins=3, box_dims=BOX, return_n_modes=True))
add("power_spectrum_1d-window", ps("power_spectrum_1d", kbins=lambda v: v.p(3, 2), box_dims=BOX, window="blackmanharris", binning="linear"))
add("power_spectrum_1d-bins", ps("power_spectrum_1d", kbins=lambda v: np.array([.05, .2, .4, .9]), box_dims=BOX))
add("power_spectrum_2d", lambda v: (M(PS).power_spectrum_2d, [v.f((6, 6, 5 + v.v), lo=-1)], dict(kbins=[2, 2], box_dims=v.p(40., (30., 30., 45.)), nu_axis=v.p(2, 0))), slow=True)
add("cross_power_spectrum_1d", ps("cross_power_spectrum_1d", two=True, kbins=3, box_dims=BOX))
add("power_spectrum_mu", ps("power_spectrum_mu", los_axis=lambda v: v.p(0, 2), mubins=3, kbins=2, box_dims=BOX))
add("cross_power_spectrum_mu", ps("cross_power_spectrum_mu", two=True, los_axis=1, mubins=3, kbins=2, box_dims=BOX, exclude_zero_modes=False))
add("dimensionless_ps", ps("dimensionless_ps", kbins=3, box_dims=BOX))
add("anisotropy_ratio_r_mu", ps("anisotropy_ratio_r_mu", los_axis=lambda v: v.p(0, 1), mubins=4, kbins=2, box_dims=BOX, exclude_zero_modes=False))
add("get_k", lambda v: (M(PS).get_k, [v.f(), BOX(v)], {}))
add("power_spectrum_multipoles", lambda v: (T("power_spectrum_multipoles"), [v.f(lo=-1)], dict(kbins=2, box_dims=BOX(v), los_axis=v.p(0, 2), exclude_zero_modes=False)))
add("fft_nd", lambda v: (M("bispectrum").fft_nd, [v.f(lo=-1)], dict(box_dims=BOX(v))))
add("Bispectrum.k1k2", lambda v: (lambda x, b: T("Bispectrum")(x, box_dims=b, verbose=False).bispectrum_k1k2(.4, .5, dk=.3, n_bins=2, verbose=False), [v.f(lo=-1), v.p(30., 35.)], {}))
add("Bispectrum.k", lambda v: (lambda x, b: T("Bispectrum")(x, box_dims=b, verbose=False).bispectrum_k(dk=.4, n_bins=2, verbose=False), [v.f(lo=-1), v.p(30., 35.)], {}))
add("power_spectrum_response", lambda v: (T("power_spectrum_response"), [v.c(lo=.5, n=6 if v.v == 3 else 4)], dict(Ncuts=2, kbins=2, box_dims=v.p(40., 50.), verbose=False)))
add("integrated_bispectrum", lambda v: (T("integrated_bispectrum"), [v.c(lo=.5, n=6 if v.v == 3 else 4)], dict(Ncuts=2, kbins=2, box_dims=v.p(40., 50.), verbose=False, normalize=v.p(False, True))))
add("integrated_bispectrum_cross", lambda v: (T("integrated_bispectrum_cross"), [v.c(lo=.5, n=6 if v.v == 3 else 4), v.c(lo=.5, k=1, n=6 if v.v == 3 else 4)], dict(Ncuts=2, kbins=2, box_dims=v.p(40., 50.), verbose=False)))
pk = lambda k: np.where(k > 0, 1. / (np.asarray(k, float) + .1) ** 2, 0.)
add("make_gaussian_random_field", lambda v: (T("make_gaussian_random_field"), [v.s, v.p(40., 60.), pk], dict(random_seed=v.p(3, 0) + (v.v == 1))), rng=True)
add("make_gaussian_random_field-noseed", lambda v: (T("make_gaussian_random_field"), [v.s[:2], v.p(40., 60.), pk], {}), rng=True)
add("make_gaussian_random_field_like_field", lambda v: (T("make_gaussian_random_field_like_field"), [v.c(lo=-1), v.p(40., 60.)], dict(kbins=3, random_seed=5)), rng=True)
add("fourier_phase_shuffled", lambda v: (M("gaussian_random_field").fourier_phase_shuffled, [v.f(lo=-1)], {}), rng=True)
add("real_to_fourier_amplitude_phase", lambda v: (T("real_to_fourier_amplitude_phase"), [v.f(lo=-1)], {}))
add("power_spectrum_1d-2d", lambda v: (M(PS).power_spectrum_1d, [v.f((v.n, v.n + 1), lo=-1)], dict(kbins=2, box_dims=v.p(40., 60.))))

# ---------------------------------------------------------------- bubbles and topology

add("fof", lambda v: (T("fof"), [v.f()], dict(xth=v.p(.5, .4))))
add("spa", lambda v: (T("spa"), [v.c()], dict(xth=v.p(.5, .4), boxsize=50., nscales=4, verbose=False)))
add("mfp", lambda v: (T("mfp"), [v.c()], dict(xth=v.p(.2, .1), boxsize=50., iterations=40, verbose=False, bins=4, r_min=13., r_max=30.)), rng=True)
add("mfp-2d", lambda v: (T("mfp"), [v.f((v.n + 1, v.n + 1))], dict(xth=v.p(.2, .1), boxsize=50., iterations=40, verbose=False, bins=4, r_min=13., r_max=30.)), rng=True)
add("mfp_from_point", lambda v: (T("mfp_from_point"), [v.c(), (1, 2, 1)], dict(xth=v.p(.1, .2), boxsize=50., iterations=40, verbose=False, bins=4, r_min=13., r_max=30.)), rng=True)
add("rebin_bsd", lambda v: (T("rebin_bsd"), [np.linspace(1., 9., 12), v.f((12,))], dict(bins=4, r_min=2., r_max=v.p(8., 7.))))
add("dist_from_volumes", lambda v: (T("dist_from_volumes"), [np.arange(1, 9 + v.v) ** 2, ], dict(resolution=v.p(1., 2.5), bins=4)))
add("get_distribution", lambda v: (T("get_distribution"), [(np.arange(1, 9 + v.v) ** 2 % 7 + 2.)], dict(resolution=v.p(1., 2.5), bins=3, sizes=True)))
add("plot_fof_sizes", lambda v: (T("plot_fof_sizes"), [np.array([1, 2, 2, 5, 9, 30 + v.v])], dict(bins=4, boxsize=v.p(50., 60.))))
add("granulometry_bsd", lambda v: (T("granulometry_bsd"), [v.f((7, 7, 8) if v.v == 3 else (8, 7, 7))], dict(xth=v.p(.3, .4), boxsize=50., verbose=False, n_jobs=1)), slow=True)
add("watershed_bsd", lambda v: (T("watershed_bsd"), [v.c(n=7 if v.v == 3 else 6)], dict(xth=v.p(.4, .3), boxsize=50., verbose=False)), slow=True)
add("disk_structure", lambda v: (T("disk_structure"), [v.p(2, 3)], {}))
add("EulerCharacteristic-cython", lambda v: (T("EulerCharacteristic"), [v.f()], dict(thres=v.p(.5, .4), verbose=False)))
add("EulerCharacteristic-numba", lambda v: (T("EulerCharacteristic"), [v.f()], dict(thres=v.p(.5, .4), speed_up="numba", verbose=False)), slow=True)
add("betti0", lambda v: (T("betti0"), [v.f()], dict(thres=v.p(.5, .4))))
add("betti1", lambda v: (T("betti1"), [v.f()], dict(thres=v.p(.5, .4), verbose=False)))
add("betti2", lambda v: (T("betti2"), [v.f()], dict(thres=v.p(.5, .4), neighbors=v.p(6, 26))))
add("FoF_search", lambda v: (M("Friends_of_Friends").FoF_search, [v.f(), v.p(.5, .6)], {}))
add("bubbles_from_fixed_threshold", lambda v: (T("bubbles_from_fixed_threshold"), [v.f()], dict(threshold=v.p(.5, .3), upper_lim=v.p(True, False))))
add("bubbles_from_triangle3D", lambda v: (T("bubbles_from_triangle3D"), [v.f() ** 4], dict(nbins=v.p(16, 8))))
add("bubbles_from_triangle2D", lambda v: (T("bubbles_from_triangle2D"), [v.f() ** 4], dict(nbins=16, loc_axis=v.p(2, 0))))
add("bubbles_from_kmeans", lambda v: (T("bubbles_from_kmeans"), [v.f()], dict(n_clusters=v.p(2, 3))), rng=True)
add("threshold_kmeans_3cluster", lambda v: (T("threshold_kmeans_3cluster"), [v.f()], dict(upper_lim=v.p(True, False))), rng=True)
add("slic_cube", lambda v: (T("slic_cube"), [v.f()], dict(n_segments=v.p(6, 9), verbose=False)), slow=True)
LAB = lambda v: np.arange(int(np.prod(v.s))).reshape(v.s) % 7 % v.p(5, 4)
for _n in ("get_superpixel_means", "get_superpixel_sigmas", "get_superpixel_n_pixels", "get_superpixel_pixels", "superpixel_map"):
    add(_n, lambda v, n=_n: (T(n), [v.f(), LAB(v)], {}))
add("get_superpixel_SNRs", lambda v: (T("get_superpixel_SNRs"), [], dict(data=v.f(lo=-1), labels=LAB(v))))
add("binary_stitch", lambda v: (T("binary_stitch"), [v.f(), LAB(v)], dict(stitch="mean", thres=v.p(.5, .45))))
add("stitch_using_histogram", lambda v: (T("stitch_superpixels"), [v.f(), LAB(v)], dict(bins=5, verbose=False)))
add("under_segmentation_error", lambda v: (T("under_segmentation_error"), [LAB(v), v.mask().astype(int)], dict(b=v.p(.25, .4), verbose=False)))
add("mean_estimate", lambda v: (T("mean_estimate"), [None], dict(means=v.f((6,), lo=-3), sigmas=v.f((6,), lo=.1), n_pix=np.arange(2, 8), SNR_thres=v.p(1, 2))))
add("binary_opening", lambda v: (M("morph").binary_opening, [v.f((7, 7, 7)) > .08, v.f((3, 3, 3)) > v.p(.3, .5)], {}), slow=True)
add("box_count_sliding", lambda v: (T("box_count_sliding"), [v.f(), v.p(2, 3), 2], {}))
add("put_sphere", lambda v: (lambda a, *r: (lambda b: (M("spa_np").put_sphere(b, *r), b)[1])(a.copy()), [np.zeros(v.s), [1, 2, v.v % 3], v.p(1.5, 2.)], {}))

# ---------------------------------------------------------------- smoothing

SM = "smoothing"
add("gauss_kernel", lambda v: (M(SM).gauss_kernel, [v.n], dict(sigma=v.p(1., 1.5))))
add("gauss_kernel_3d", lambda v: (M(SM).gauss_kernel_3d, [v.n], dict(fwhm=v.p(1., 1.5))))
add("tophat_kernel", lambda v: (M(SM).tophat_kernel, [v.n, v.p(2, 3)], {}))
add("tophat_kernel_3d", lambda v: (M(SM).tophat_kernel_3d, [v.n, v.p(2, 3)], dict(shape="sphere")))
add("lanczos_kernel", lambda v: (M(SM).lanczos_kernel, [v.n, v.p(2, 3)], {}))
add("smooth_gauss", lambda v: (M(SM).smooth_gauss, [v.f((v.n, v.n))], dict(sigma=v.p(1., 1.5))))
add("smooth_tophat", lambda v: (M(SM).smooth_tophat, [v.f((v.n, v.n)), v.p(2, 3)], {}))
add("smooth_lanczos", lambda v: (M(SM).smooth_lanczos, [v.f((v.n, v.n)), v.p(2, 3)], {}))
add("smooth_with_kernel", lambda v: (M(SM).smooth_with_kernel, [v.f((v.n, v.n)), v.f((3, 3), k=1)], {}))
add("get_beam_w", lambda v: (M(SM).get_beam_w, [v.p(2., 1.5), 8.5 + v.v], {}))
add("interpolate3d", lambda v: (M(SM).interpolate3d, [v.f(), np.array([0., .7, 1.9]), np.array([.3, 1.2]), np.array([0., 1.5])], dict(order=v.p(1, 0))))
add("interpolate2d", lambda v: (M(SM).interpolate2d, [v.f((4, 5)), np.array([0., .7, 1.9]), np.array([.3, 1.2])], dict(order=v.p(1, 0))))
ZS = lambda v, n: np.linspace(8., 8.2, n) + (v.v == 2) * .5
add("smooth_lightcone", lambda v: (M(SM).smooth_lightcone, [v.f((v.n, v.n, 5)), ZS(v, 5)], dict(box_size_mpc=200., max_baseline=v.p(2., 1.), verbose=False)))
add("smooth_coeval", lambda v: (M(SM).smooth_coeval, [v.f((v.n, v.n, 5)), v.p(8., 9.)], dict(box_size_mpc=200., verbose=False)))
add("smooth_coeval_tophat", lambda v: (M(SM).smooth_coeval_tophat, [v.f(), v.p(2, 3), 2], dict(verbose=False)))
add("smooth_coeval_gauss", lambda v: (M(SM).smooth_coeval_gauss, [v.f(), v.p(1., 2.), 2], {}))
add("smooth_lightcone_tophat", lambda v: (M(SM).smooth_lightcone_tophat, [v.f((3, 3, 6)), ZS(v, 6), np.full(6, .05)], dict(verbose=False)))
add("smooth_lightcone_gauss", lambda v: (M(SM).smooth_lightcone_gauss, [v.f((3, 3, 6)), np.linspace(1., 2., 6)], {}))
add("smooth_lightcone_uv_threshold", lambda v: (M(SM).smooth_lightcone_uv_threshold, [v.f((v.n, v.n, 3)), v.f((v.n, v.n, 3), k=1)], dict(threshold=v.p(.3, .6))))
add("remove_baselines_from_uvmap", lambda v: (M(SM).remove_baselines_from_uvmap, [v.f((v.n, v.n)), v.p(8., 9.)], dict(max_baseline=.6, box_size_mpc=200.)))
add("convolve_uvmap", lambda v: (M(SM).convolve_uvmap, [v.f((v.n, v.n))], dict(z=v.p(8., 9.), uv_map=v.f((v.n, v.n), k=1), max_baseline=.6, box_size_mpc=200.)))
add("smooth_line", lambda v: (M(SM).smooth_line, [v.f((9 + v.v % 3,))], dict(window=v.p(3, 4))))
add("fftconvolve", lambda v: (M("fft_functions").fftconvolve, [v.f(), v.f((3, 3, 3), k=1)], dict(mode=v.p("same", "full"), boundary="constant")))

add("find_idx", lambda v: (T("find_idx"), [np.sort(v.f((7,))), np.array([.3, .5])], {}))
add("get_interpolated_array", lambda v: (T("get_interpolated_array"), [v.f((6,)), v.p(9, 4)], dict(kind="linear")))

# ---------------------------------------------------------------- light-cones and angular coordinates

LC = "lightcone"
FILES = ["box_%d.bin" % i for i in range(3)]


def READ(v, s=None):
    """stands for reading the file of that name"""
    return lambda name: v.f(s or (v.n, v.n, v.n), k=int(name[4]))


add("make_lightcone", lambda v: (M(LC).make_lightcone, [list(FILES)], dict(z_low=8., z_high=8.06, file_redshifts=np.array([7.9, 8.05, 8.2]), los_axis=v.p(0, 2), box_length_mpc=60., reading_function=READ(v))))
add("make_lightcone-step", lambda v: (M(LC).make_lightcone, [list(FILES)], dict(z_low=8., z_high=8.06, file_redshifts=[7.9, 8.05, 8.2], los_axis=1, interpolation="step", box_length_mpc=v.p(60., 80.), reading_function=READ(v))))
add("redshifts_at_equal_comoving_distance", lambda v: (M(LC).redshifts_at_equal_comoving_distance, [8., v.p(8.1, 8.2)], dict(box_grid_n=v.n + v.v, box_length_mpc=60.)))
add("redshifts_at_equal_comoving_distance-default", lambda v: (M(LC).redshifts_at_equal_comoving_distance, [8., v.p(8.1, 8.2)], dict(box_grid_n=20 + v.v)))
add("redshifts_at_equal_frequncy_width", lambda v: (M(LC).redshifts_at_equal_frequncy_width, [8., v.p(8.1, 8.2), .2 + .1 * v.v], {}))
add("get_lightcone_subvolume", lambda v: (M(LC).get_lightcone_subvolume, [v.f((3, 3, 8)), np.linspace(8., 8.3, 8), 8.1 + .01 * v.v], dict(depth_mhz=v.p(1.5, 2.))))
A = "angular_coordinates"
add("physical_lightcone_to_observational", lambda v: (M(A).physical_lightcone_to_observational, [v.f((v.n, v.n, 6)), 8., v.p(.4, .6), .4], dict(input_box_size_mpc=60., verbose=False, order=1)))
add("observational_lightcone_to_physical", lambda v: (M(A).observational_lightcone_to_physical, [v.f((v.n, v.n, 6)), np.linspace(158., 155.5, 6), v.p(5., 6.)], dict(verbose=False, order=1)))
add("physical_slice_to_angular", lambda v: (M(A).physical_slice_to_angular, [v.f((v.n, v.n)), 8., v.p(60., 70.), .3, .1], dict(order=1)))
add("angular_slice_to_physical", lambda v: (M(A).angular_slice_to_physical, [v.f((v.n, v.n)), v.p(8., 8.5), .4, 15., 60.], dict(order=1)))
add("resample_slice", lambda v: (M(A).resample_slice, [v.f((v.n, v.n)), v.p(3, 6)], dict(order=1)))
add("bin_lightcone_in_frequency", lambda v: (M(A).bin_lightcone_in_frequency, [v.f((3, 3, 8)), 8., 60., v.p(.7, .9)], {}))
add("bin_lightcone_in_mpc", lambda v: (M(A).bin_lightcone_in_mpc, [v.f((3, 3, 8)), np.linspace(158., 155.5, 8), v.p(9., 11.)], {}))
add("padding_lightcone", lambda v: (M(A).padding_lightcone, [v.f((4, 4, 3))], dict(padded_n=v.p(1, 2), verbose=False)))

# ---------------------------------------------------------------- cosmology and conversions

ZA = lambda v: np.array([6.1, 7.5, 9.2]) + (v.v == 1) * .3
for _n, _a in (("z_to_cdist", 9.), ("luminosity_distance", 9.), ("z_to_age", 9.), ("nu_to_z", 150.), ("z_to_nu", 9.), ("nu_to_cdist", 150.), ("cdist_to_z", 9500.), ("nu_to_wavel", 150.), ("hubble_parameter", 9.)):
    add(_n, lambda v, n=_n, a=_a: (T(n) if hasattr(t2c(), n) else getattr(M("cosmo"), n), [a + v.v], {}))
for _n in ("z_to_cdist", "nu_to_z", "z_to_nu"):
    add(_n + "-array", lambda v, n=_n: (T(n), [ZA(v) if n != "nu_to_z" else 1420. / (1 + ZA(v))], {}))
add("angular_size", lambda v: (T("angular_size"), [1000., 8. + v.v], {}))
add("angular_size_comoving", lambda v: (T("angular_size_comoving"), [v.p(10., 20.), 8. + v.v % 2], {}))
add("deg_to_cdist", lambda v: (T("deg_to_cdist"), [v.p(1., 2.), 8. + v.v % 2], {}))
add("c_to_p", lambda v: (T("c_to_p"), [v.f((4,), 1., 9.), v.p(8., 9.)], {}))
add("p_to_c", lambda v: (T("p_to_c"), [v.f((4,), 1., 9.), v.p(8., 9.)], {}))
add("Tvir_to_M", lambda v: (M("cosmo").Tvir_to_M, [v.p(1e4, 2e4), 8. + v.v % 2], {}))
add("M_to_Tvir", lambda v: (M("cosmo").M_to_Tvir, [v.p(1e8, 2e8), 8. + v.v % 2], {}))
add("gridpos_to_mpc", lambda v: (T("gridpos_to_mpc"), [v.f((4,), 1., 9.)], {}))
add("gridvel_to_kms", lambda v: (T("gridvel_to_kms"), [v.f((4,), 1., 9.), v.p(8., 9.)], {}))
add("gridmass_to_msol", lambda v: (T("gridmass_to_msol"), [v.f((4,), 1., 9.)], {}))
add("ParticleMass_to_ParticleNumber", lambda v: (M("nbody_tools").ParticleMass_to_ParticleNumber, [v.p(100., 200.), 1e9 * (1 + v.v)], {}))
add("halo_mass_to_particle_number", lambda v: (M("nbody_tools").halo_mass_to_particle_number, [v.p(100., 200.), 1e9, 20 + v.v], {}))

# ---------------------------------------------------------------- temperature, tau, statistics

add("calc_dt", lambda v: (T("calc_dt"), [v.f(), v.f(lo=.1, hi=3., k=1) * 1e-30], dict(z=v.p(8., 9.5))))
add("calc_dt_full", lambda v: (T("calc_dt_full"), [v.f(), v.f(lo=.1, hi=3., k=1) * 1e-30, v.f(lo=5., hi=1e3, k=2)], dict(z=v.p(8., 9.5))))
add("calc_dt_full-uncorrected", lambda v: (T("calc_dt_full"), [v.f(), v.f(lo=.1, hi=3., k=1) * 1e-30, v.f(lo=5., hi=1e3, k=2)], dict(z=v.p(8., 9.5), correct=False)))
add("calc_dt_lightcone", lambda v: (T("calc_dt_lightcone"), [v.f(), v.f(lo=.1, hi=3., k=1) * 1e-30, v.p(8., 9.)], dict(los_axis=v.p(2, 0))))
add("calc_dt_full_lightcone", lambda v: (T("calc_dt_full_lightcone"), [v.f(), v.f(lo=5., hi=1e3, k=2), v.f(lo=.1, hi=3., k=1) * 1e-30, v.p(8., 9.)], dict(los_axis=v.p(2, 0))))
add("calc_dt_halo", lambda v: (T("calc_dt_halo"), [v.f(lo=1e8, hi=1e9), 50., v.p(8., 9.)], {}))
add("mean_dt", lambda v: (T("mean_dt"), [8. + v.v], {}))
add("tau", lambda v: (T("tau"), [np.sort(v.f((4,)))[::-1].copy(), np.array([6.5, 7.5, 8.5, 10.]) + v.p(0, .3)], dict(num_points=12)))
add("tau_map", lambda v: (T("tau_map"), [{6.5 + i + v.p(0, .3): v.f(k=i) for i in range(3)}], dict(num_points=9)))
add("skewness", lambda v: (T("skewness"), [v.f()], {}))
add("kurtosis", lambda v: (T("kurtosis"), [v.f()], {}))
add("mass_weighted_mean_xi", lambda v: (T("mass_weighted_mean_xi"), [v.f(), v.f(lo=.1, hi=3., k=1)], {}))
add("subtract_mean_signal", lambda v: (T("subtract_mean_signal"), [v.f()], dict(los_axis=v.p(2, 1))))
add("signal_overdensity", lambda v: (T("signal_overdensity"), [v.f(lo=1, hi=2), v.p(2, 1)], {}))
add("apply_func_along_los", lambda v: (T("apply_func_along_los"), [v.f(), np.mean, v.p(2, 1)], {}))
add("combined_mean_variance", lambda v: (T("combined_mean_variance"), [v.f((4,)), v.f((4,), k=1)], dict(sample_sizes=np.array([3, 5, 2 + v.v, 9]))))
add("get_distorted_dt", lambda v: (T("get_distorted_dt"), [v.f((5, 3, 3) if v.v == 3 else (4, 5, 5)), v.f((3,) + ((5, 3, 3) if v.v == 3 else (4, 5, 5)), lo=-300, hi=300, k=1), v.p(8., 9.)], dict(los_axis=v.p(0, 2), velocity_axis=1, num_particles=4)))

# ---------------------------------------------------------------- haloes

POS = lambda v: v.f((6, 3), 0., 49.9, k=3)
MASS = lambda v: v.f((6,), 1e9, 1e11, k=4)
add("halo_list_to_grid", lambda v: (M("nbody_file").halo_list_to_grid, [MASS(v), POS(v), 50., v.p(4, 5)], {}))
add("M_HI_on_grid", lambda v: (T("M_HI_on_grid"), [v.p(6., 3.), MASS(v), POS(v), 50., 4], {}))
add("L_CII_on_grid", lambda v: (T("L_CII_on_grid"), [v.p(6., 5.), MASS(v), POS(v), 50., 4], {}), rng=True)

# ---------------------------------------------------------------- telescopes


def ANT(v):
    """a few antennas (m), no two baselines alike"""
    return np.array([[0., 0, 0], [310., 40, 2], [-150., 420, 5], [90., -610, -3], [700., 260, 1]][:5 if v.v != 1 else 4]) * (1.03 if v.v == 1 else 1.)


UV = dict(total_int_time=1., int_time=900., declination=-30., verbose=False)
add("subarray_type_to_antxyz", lambda v: (M("radio_telescope_layout").subarray_type_to_antxyz, [ANT(v)], dict(verbose=False)))
add("from_antenna_config", lambda v: (M("radio_telescope_layout").from_antenna_config, [ANT(v), v.p(8., 9.)], {}))
add("earth_rotation_effect", lambda v: (M("radio_telescope_layout").earth_rotation_effect, [v.f((4, 3), -50., 50.), np.arange(3), 600., 1.], dict(declination=v.p(-30., -10.))))
add("grid_uv_tracks", lambda v: (M("radio_telescope_layout").grid_uv_tracks, [v.f((6, 3), -60., 60.), v.p(8., 9.), 6], dict(boxsize=200.)))
add("antenna_positions_to_baselines", lambda v: (M("radio_telescope_layout").antenna_positions_to_baselines, [ANT(v)], {}))
add("geographic_to_cartesian_coordinate_system", lambda v: (M("radio_telescope_layout").geographic_to_cartesian_coordinate_system, [v.f((3, 2), 10., 50.)], {}))
add("cartesian_to_geographic_coordinate_system", lambda v: (M("radio_telescope_layout").cartesian_to_geographic_coordinate_system, [v.f((3, 3), 1e6, 6e6)], {}))
add("get_uv_daily_observation", lambda v: (M("radio_telescope_layout").get_uv_daily_observation, [6 + (v.v == 3), v.p(8., 9.), ANT(v)], dict(UV, boxsize=200.)))
add("get_uv_map", lambda v: (M("radio_telescope_noise").get_uv_map, [6 + (v.v == 3), v.p(8., 9.)], dict(UV, subarray_type=ANT(v), boxsize=200.)))
add("get_uv_map_with_gains", lambda v: (M("radio_telescope_calibration").get_uv_map_with_gains, [6 + (v.v == 3), v.p(8., 9.)], dict(UV, subarray_type=ANT(v), boxsize=200., gain_model={"real": lambda n: np.arange(1., 1 + n) / 2, "imag": lambda n: np.arange(n) - 1.}, gain_timescale=[900])))
add("get_uv_map_with_gains-default", lambda v: (M("radio_telescope_calibration").get_uv_map_with_gains, [6, 8.], dict(subarray_type=ANT(v), boxsize=200., verbose=False, total_int_time=(400., 400., 5., 75.)[v.v] / 3600, int_time=(20., 20., 5., 15.)[v.v], gain_model={"real": lambda n: np.random.rand(n), "imag": lambda n: np.random.rand(n)})), rng=True)
NZ = "radio_telescope_noise"
UVM = lambda v, k=5: np.floor(v.f((v.n, v.n), 0., 4., k=k))
add("noise_map", lambda v: (M(NZ).noise_map, [v.n, v.p(8., 9.), .5], dict(boxsize=200., uv_map=UVM(v), N_ant=50, verbose=False)), rng=True)
add("noise_cube_coeval", lambda v: (M(NZ).noise_cube_coeval, [v.n, v.p(8., 9.)], dict(depth_mhz=.5, boxsize=200., uv_map=UVM(v), N_ant=50, verbose=False)), rng=True)
add("apply_uv_response_noise", lambda v: (M(NZ).apply_uv_response_noise, [v.f((v.n, v.n)) + 1j * v.f((v.n, v.n), k=1), UVM(v)], dict(uv_weighting=v.p("natural", "uniform"))))
add("apply_uv_response_on_image", lambda v: (M(NZ).apply_uv_response_on_image, [v.f((v.n, v.n)), UVM(v)], {}))
add("apply_uv_response_on_coeval", lambda v: (M(NZ).apply_uv_response_on_coeval, [v.c(), v.p(8., 9.)], dict(uv_map=UVM(v), N_ant=50)))
add("signal_window", lambda v: (M(NZ).signal_window, [8 + v.v, v.p("hann", "blackmanharris")], {}))
RS = "radio_telescope_sensitivity"
add("get_SEFD", lambda v: (M(RS).get_SEFD, [np.array([100., 150., 180.]) + v.v], {}))
add("sigma_noise_radio", lambda v: (M(RS).sigma_noise_radio, [v.p(8., 9.), .5, 1000., 10.], dict(N_ant=100 + v.v, verbose=False)))
add("apply_uv_response", lambda v: (M(RS).apply_uv_response, [v.f((v.n, v.n)) + 0j, UVM(v)], {}))
add("kelvin_jansky_conversion", lambda v: (M(RS).kelvin_jansky_conversion, [v.n, v.p(8., 9.)], dict(boxsize=200.)))
add("kelvin_2_jansky", lambda v: (M(RS).kelvin_2_jansky, [v.f((v.n, v.n)), v.p(8., 9.)], {}))
add("jansky_2_kelvin", lambda v: (M(RS).jansky_2_kelvin, [v.f((v.n, v.n)), v.p(8., 9.)], dict(boxsize=100.)))
add("noise_error_ps", lambda v: (T("noise_error_ps"), [v.p(150., 140.), np.array([.1, .3]), 1000.], dict(Nstat=40 + v.v)))
add("galactic_synch_fg", lambda v: (T("galactic_synch_fg"), [np.array([8., 8.5]), v.n, v.p(100., 200.)], dict(rseed=4 + (v.v == 1))), rng=True)
add("extragalactic_pointsource_fg", lambda v: (T("extragalactic_pointsource_fg"), [np.array([8., 8.5]), v.n, v.p(100., 200.)], dict(rseed=4 + (v.v == 1), S_max=1.)), rng=True)
add("remove_wedge_image", lambda v: (T("remove_wedge_image"), [v.c(lo=-1), 8.], dict(filt=v.c(k=1))))
add("rolling_wedge_removal_lightcone", lambda v: (T("rolling_wedge_removal_lightcone"), [v.f((v.n, v.n, 12), lo=-1), ZS(v, 12)], dict(cell_size=10., chunk_length=6)))
add("primary_beam", lambda v: (M("primary_beam").primary_beam, [v.f((v.n, v.n, 3)), np.linspace(8., 8.4, 3)], dict(boxsize=v.p(200., 300.), beam_func="Gaussian", verbose=False)))
add("circular_beam", lambda v: (M("primary_beam").circular_beam, [v.n, v.p(8., 9.)], dict(boxsize=200., beam_func="step")))

# ---------------------------------------------------------------- Lyman alpha, magnitudes, fits

def MAG():
    from astropy import units
    return units.mag


LY = "lyman_alpha_transmission"
add("approximation_voigt_faddeeva", lambda v: (M(LY).approximation_voigt_faddeeva, [v.f((4,)), v.p(.1, .2)], {}))
add("lyA_scattering_cross_section", lambda v: (M(LY).lyA_scattering_cross_section, [2.46e15 + 1e11 * v.v, v.p(1e4, 2e4)], {}))
add("tau_nu_lyA_FGPA", lambda v: (M(LY).tau_nu_lyA_FGPA, [v.p(6., 7.), v.f(), v.f(lo=-1, hi=3, k=1)], {}))
add("tau_nu_lyA_los", lambda v: (M(LY).tau_nu_lyA_los, [v.p(6., 7.), v.c() * 2e-6, v.c(lo=-1, hi=3, k=1)], dict(los_len=3, los_axis=v.p(2, 0))))
add("Muv_to_muv", lambda v: (T("Muv_to_muv"), [v.f((3,), -22., -15.) * MAG(), v.p(6., 7.)], {}))
add("muv_to_Muv", lambda v: (T("muv_to_Muv"), [v.f((3,), 22., 30.) * MAG(), v.p(6., 7.)], {}))
add("Muv_to_L1500", lambda v: (T("Muv_to_L1500"), [v.f((3,), -22., -15.) * MAG()], {}))
add("mag_to_flux", lambda v: (T("mag_to_flux"), [v.f((3,), 22., 30.) * MAG()], {}))
add("FitFunction", lambda v: (lambda x, y: (lambda o: (o.fit(x, y), o.fitted_params_)[1])(T("FitFunction")(lambda X, th: th[0] * X + th[1], fit_params={"a": v.p(1., 2.), "b": 0.})), [np.arange(5.), v.f((5,))], {}))

# ---------------------------------------------------------------- files


def _dir():
    from mc import core
    return os.path.join(core.SCRATCH, "catalog")


def make_files():
    """simulation outputs of four redshifts and two catalogues, written once with plain numpy"""
    import struct
    d = _dir()
    if os.path.isdir(d):
        return d
    for s in ("x", "d", "v", "misc"):
        os.makedirs(os.path.join(d, s))
    for i, z in enumerate((7., 7.5, 8., 9.25)):
        sh = (5, 5, 5) if i == 3 else (4, 4, 4)
        x = field(sh, 70 + i)
        h = struct.pack("<6i", 12, *sh, 12, 8 * x.size)
        with open(os.path.join(d, "x", "xfrac3d_%.3f.bin" % z), "wb") as f:
            f.write(h + x.flatten(order="F").tobytes())
        with open(os.path.join(d, "d", "%.3fn_all.dat" % z), "wb") as f:
            f.write(struct.pack("<3i", *sh) + (field(sh, 80 + i, lo=.2, hi=5.) * 1e9).astype(np.float32).flatten(order="F").tobytes())
        with open(os.path.join(d, "v", "%.3fv_all.dat" % z), "wb") as f:
            f.write(struct.pack("<3i", *sh) + field((3,) + sh, 90 + i, lo=-1e9, hi=1e9).astype(np.float32).flatten(order="F").tobytes())
        with open(os.path.join(d, "misc", "c%d.cbin" % i), "wb") as f:
            f.write(struct.pack("<3i", *sh) + field(sh, 60 + i).astype(np.float32).tobytes())
        with open(os.path.join(d, "misc", "s%d.raw" % i), "wb") as f:
            f.write(field((4,), 50 + i).tobytes())
    make_more(d)
    return d


ZV = lambda v: (7., 7.5, 8., 9.25)[v.v]
FX = lambda v: os.path.join(_dir(), "x", "xfrac3d_%.3f.bin" % ZV(v))
FD = lambda v: os.path.join(_dir(), "d", "%.3fn_all.dat" % ZV(v))
FV = lambda v: os.path.join(_dir(), "v", "%.3fv_all.dat" % ZV(v))
add("XfracFile", lambda v: (lambda p: vars(T("XfracFile")(p)), [FX(v)], {}), tags=("file",))
add("DensityFile", lambda v: (lambda p: (lambda o: (vars(o), o.cgs_density))(T("DensityFile")(p)), [FD(v)], {}), tags=("file",))
add("VelocityFile", lambda v: (lambda p, q: (lambda o: (vars(o), o.get_kms_from_density(T("DensityFile")(q))))(T("VelocityFile")(p)), [FV(v), FD(v)], {}), tags=("file",))
add("read_cbin", lambda v: (T("read_cbin"), [os.path.join(_dir(), "misc", "c%d.cbin" % v.v)], {}), tags=("file",))
add("get_data_and_type", lambda v: (T("get_data_and_type"), [FX(v)], {}), tags=("file",))
add("read_c2ray_files", lambda v: (T("read_c2ray_files"), [FX(v)], dict(file_type="xfrac")), tags=("file",))
add("get_mesh_size", lambda v: (T("get_mesh_size"), [FX(v)], {}), tags=("file",))
add("determine_redshift_from_filename", lambda v: (T("determine_redshift_from_filename"), [FD(v)], {}), tags=("file",))
add("get_xfrac_redshifts", lambda v: (T("get_xfrac_redshifts"), [os.path.join(_dir(), "x")], dict(z_low=7.2, z_high=(8.5, 9., 9.25, 10.)[v.v], bracket=v.v in (0, 1))), tags=("file",))
add("coeval_xfrac", lambda v: (T("coeval_xfrac"), [os.path.join(_dir(), "x") + "/", (7.1, 7.5, 7.9, 9.25)[v.v]], {}), tags=("file",))
add("coeval_dens", lambda v: (T("coeval_dens"), [os.path.join(_dir(), "d") + "/", (7.1, 7.5, 7.9, 9.25)[v.v]], {}), tags=("file",))
add("coeval_21cm", lambda v: (T("coeval_21cm"), [os.path.join(_dir(), "x") + "/", os.path.join(_dir(), "d") + "/", (7.1, 7.5, 7.9, 9.25)[v.v]], {}), tags=("file",))
add("make_lightcone-files", lambda v: (M(LC).make_lightcone, [[os.path.join(_dir(), "x", "xfrac3d_%.3f.bin" % z) for z in (7., 7.5, 8.)]], dict(z_low=7.05, z_high=v.p(7.25, 7.3) + .01 * (v.v == 1), box_length_mpc=v.p(60., 70.) + 5 * (v.v == 3))), tags=("file",))


def _round(fmt):
    def make(v):
        def f(d):
            import tempfile
            with tempfile.TemporaryDirectory() as t:
                p = os.path.join(t, "a." + fmt)
                T("write_dictionary_data")(d, p)
                return T("read_dictionary_data")(p)
        return f, [{"a%d" % i: (v.f((3,), k=i) if fmt != "json" else float(v.f((3,), k=i)[0])) for i in range(2 + v.v % 2)}], {}
    return make


for _f in ("pkl", "npz", "json", "csv"):
    add("dictionary-" + _f, _round(_f), tags=("file",))


def _save(kind):
    def make(v):
        def f(x):
            import tempfile
            with tempfile.TemporaryDirectory() as t:
                p = os.path.join(t, "a." + kind)
                T("save_data")(p, x)
                return T({"cbin": "read_cbin", "fits": "read_fits"}[kind])(p)
        return f, [v.f()], {}
    return make


for _f in ("cbin", "fits"):
    add("save_data-" + _f, _save(_f), tags=("file",))

# ---------------------------------------------------------------- further calls

CAL = "radio_telescope_calibration"


def _cal_obs(name):
    def make(v):
        return getattr(M(CAL), name), [6 + (v.v == 3), v.p(8., 9.)], dict(subarray_type=ANT(v), total_int_time=1., int_time=1200., boxsize=200., verbose=False, n_jobs=1)
    return make


for _f in ("get_full_uv_map_with_antenna_stamp", "get_full_uv_lagrangian_with_antenna_stamp"):
    add(_f, _cal_obs(_f))


def _stamped(v):
    n = 3 + (v.v == 3)
    a = np.empty((2, n, n), dtype=object)
    for i, ix in enumerate(np.ndindex(*a.shape)):
        a[ix] = [(j, j + 1 + v.v % 2) for j in range((i * (3 + v.q)) % 5)]
    return a


add("full_uv_map_with_antenna_stamp_to_uv_map", lambda v: (M(CAL).full_uv_map_with_antenna_stamp_to_uv_map, [_stamped(v)], dict(verbose=False)))
add("gain_uv_map_to_uv_map", lambda v: (M(CAL).gain_uv_map_to_uv_map, [v.f((4, v.n, 2), 0., 9.)], {}))
add("from_antenna_config_with_antenna_stamp", lambda v: (M(CAL).from_antenna_config_with_antenna_stamp, [ANT(v), v.p(8., 9.)], {}))


def _gain_image(v):
    def f(img, m):
        return M(CAL).apply_uv_with_gains_response_on_image(img, m, verbose=False)
    n = v.n
    m = np.zeros((n, n, 5))
    m[:, :, 0] = np.floor(v.f((n, n), 0., 4., k=5))
    m[:, :, 1] = v.f((n, n), .5, 1.5, k=6) * m[:, :, 0]
    m[:, :, 2] = v.f((n, n), .5, 1.5, k=7) * m[:, :, 0]
    return f, [v.f((n, n)), m], {}


add("apply_uv_with_gains_response_on_image", _gain_image)
LCUV = lambda v: dict(subarray_type=ANT(v), total_int_time=1., int_time=1200., boxsize=200., verbose=False, n_jobs=1)
add("get_uv_map_lightcone", lambda v: (M(NZ).get_uv_map_lightcone, [6 + (v.v == 3), [8., v.p(8.5, 9.)]], LCUV(v)))
add("make_uv_map_lightcone", lambda v: (M(NZ).make_uv_map_lightcone, [6 + (v.v == 3), np.array([8., v.p(8.5, 9.)])], {k: x for k, x in LCUV(v).items() if k != "n_jobs"}))


def _uv_cache(v):
    def f(n, z, **k):
        import tempfile
        with tempfile.TemporaryDirectory() as t:
            p = os.path.join(t, "uv.pkl")
            a = M(NZ).get_uv_map_lightcone(n, z[:1], save_uvmap=p, **k)
            return a, M(NZ).get_uv_map_lightcone(n, z, save_uvmap=p, **k)
    return f, [6 + (v.v == 3), [8., v.p(8.5, 9.)]], LCUV(v)


add("get_uv_map_lightcone-cached", _uv_cache, tags=("file",))
add("noise_lightcone", lambda v: (M(NZ).noise_lightcone, [6 + (v.v == 3), np.array([8., v.p(8.01, 8.02)])], LCUV(v)), rng=True)
add("noise_cube_lightcone", lambda v: (M(NZ).noise_cube_lightcone, [6 + (v.v == 3), v.p(8., 9.)], LCUV(v)), rng=True)
add("apply_uv_response_noise_briggs", lambda v: (M(NZ).apply_uv_response_noise_briggs, [v.f((v.n, v.n)) + 1j * v.f((v.n, v.n), k=1), 1 + UVM(v)], dict(robust=v.p(.5, -.5))))
add("noise_map-suppress", lambda v: (M(NZ).noise_map, [v.n, v.p(8., 9.), .5], dict(boxsize=200., uv_map=1 + UVM(v), N_ant=50, verbose=False, uv_weighting="uniform", T_sys=v.p(300., lambda nu: nu * 2.))), rng=True)
add("noise_coeval_power_spectrum_1d", lambda v: (M(NZ).noise_coeval_power_spectrum_1d, [v.n + 2, v.p(8., 9.), .5], dict(kbins=v.p(3, 4), boxsize=200., uv_map=1 + np.floor(v.f((v.n + 2,) * 2, 0., 4.)), N_ant=50, verbose=False)), rng=True)
add("FoV_cMpc2", lambda v: (T("FoV_cMpc2"), [_q(4. + v.v, "deg2"), v.p(8., 9.)], {}))


def _q(x, u):
    import astropy.units as U
    return x * U.Unit(u)


add("granulometry_CDF", lambda v: (M("bubble_stats").granulometry_CDF, [v.f((6, 6, 5 + (v.v == 3))) > .06], dict(sizes=np.array([1, 2 + v.q]), verbose=False)), rng=True)
add("h_transform", lambda v: (M("bubble_stats").h_transform, [np.floor(v.c(n=5) * 6)], dict(h=v.p(1, 2), verbose=False)), tags=("unusual hangs in skimage",))
SP = "superpixels"
LAB = lambda v: np.floor(v.f(k=2) * (3 + v.q)).astype(int)
add("boundaries", lambda v: (M(SP).boundaries, [v.f((5, 4 + (v.v == 3))), np.floor(v.f((5, 4 + (v.v == 3)), k=2) * 3).astype(int)], dict(mark=not v.q)))
add("see_label", lambda v: (M(SP).see_label, [LAB(v), v.p(1, 2)], {}))
add("xfrac_mass_estimate", lambda v: (M(SP).xfrac_mass_estimate, [v.f(), v.p(8., 9.)], {}))
add("xfrac_volume_estimate", lambda v: (M(SP).xfrac_volume_estimate, [v.mask()], {}))
add("genus", lambda v: (M("topology").genus, [v.c()], dict(xth=v.p(.5, .4))))
add("CubeMap", lambda v: (M("ViteBetti").CubeMap, [v.c(n=3 + (v.v == 3)) > .5], dict(multi_marker=not v.q)))
add("coeval_overdens", lambda v: (T("coeval_overdens"), [os.path.join(_dir(), "d") + "/", (7.1, 7.5, 7.9, 9.25)[v.v]], {}), tags=("file",))
add("coeval_vel", lambda v: (T("coeval_vel"), [os.path.join(_dir(), "d") + "/", os.path.join(_dir(), "v") + "/", (7., 7.5, 8., 9.25)[v.v]], {}), tags=("file",))
add("coeval_xfrac_c2ray", lambda v: (M("read_files").coeval_xfrac_c2ray, [os.path.join(_dir(), "x") + "/", (7.1, 7.5, 7.9, 9.25)[v.v]], {}), tags=("file",))
add("coeval_21cm_c2ray", lambda v: (M("read_files").coeval_21cm_c2ray, [os.path.join(_dir(), "x") + "/", os.path.join(_dir(), "d") + "/", (7., 7.5, 8., 9.25)[v.v]], dict(mean_subtract=v.q)), tags=("file",))
add("get_zs_list", lambda v: (T("get_zs_list"), [os.path.join(_dir(), v.p("x", "d"))], dict(file_type=v.p("/xfrac3d_*.bin", "/*n_all.dat"))), tags=("file",))
add("get_dens_redshifts", lambda v: (T("get_dens_redshifts"), [os.path.join(_dir(), "d")], dict(z_low=7.2, z_high=(8.5, 9., 9.25, 10.)[v.v], bracket=v.v in (0, 1))), tags=("file",))
add("get_source_redshifts", lambda v: (T("get_source_redshifts"), [os.path.join(_dir(), "s")], dict(z_low=7.2, z_high=(8.5, 9., 9.25, 10.)[v.v], bracket=v.v in (0, 1))), tags=("file",))
add("read_raw_binary", lambda v: (T("read_raw_binary"), [os.path.join(_dir(), "misc", "f%d" % v.v)], dict(bits=32, order=v.p("C", "F"))), tags=("file",))
add("read_21cmfast_files", lambda v: (M("read_files").read_21cmfast_files, [os.path.join(_dir(), "misc", "f%d" % v.v)], {}), tags=("file",))
add("read_grizzly_files", lambda v: (M("read_files").read_grizzly_files, [FX(v)], {}), tags=("file",))
add("Mgrid_2_Msolar", lambda v: (T("Mgrid_2_Msolar"), [v.f()], {}))
add("Msolar_2_Mgrid", lambda v: (T("Msolar_2_Mgrid"), [v.f(lo=1e8, hi=1e9)], {}))
add("make_velocity_lightcone", lambda v: (M(LC).make_velocity_lightcone, [[os.path.join(_dir(), "v", "%.3fv_all.dat" % z) for z in (7., 7.5, 8.)], [os.path.join(_dir(), "d", "%.3fn_all.dat" % z) for z in (7., 7.5, 8.)]], dict(z_low=7.05, z_high=v.p(7.25, 7.3) + .01 * (v.v == 1), los_axis=1 if v.v == 3 else 0)), tags=("file",))
add("make_pv_box", lambda v: (M("pv_mpm").make_pv_box, [os.path.join(_dir(), "misc", "t%d.cbin" % v.v), FV(v), FD(v), ZV(v)], dict(los=v.p(0, 1), num_particles=3)), tags=("file",))
add("convolve_uvmap_coeval", lambda v: (M("smoothing").convolve_uvmap_coeval, [v.c(), v.p(8., 9.)], dict(box_size_mpc=100., max_baseline=2., uv_map=UVM(v), nu_axis=v.p(2, 0), verbose=False)))
add("direct_voigt_profile", lambda v: (M("lyman_alpha_transmission").direct_voigt_profile, [np.linspace(-3, 3, 5 + v.v), v.p(.1, .2)], {}))
add("tau_nu_lyA", lambda v: (M("lyman_alpha_transmission").tau_nu_lyA, [v.p(6., 7.), v.f((4 + (v.v == 3),), 1e-5, 1e-4), v.f((4 + (v.v == 3),), 5e3, 2e4, k=1), _q(v.f((4 + (v.v == 3),), .1, 1., k=2), "Mpc")], {}))
add("tau_nu_lyA_los-voigt", lambda v: (M("lyman_alpha_transmission").tau_nu_lyA_los, [v.p(6., 7.), v.c(1e-5, 1e-4, n=4), v.c(1.1, 3., k=1, n=4)], dict(los_len=_q(30., "Mpc"), box_len=_q(60., "Mpc"), los_axis=v.p(2, 1))))


def _fitter(v):
    def f(x, y):
        import contextlib
        import io
        o = M("fitting_methods").FitFunction(lambda X, th: th[0] * X + th[1], fit_params={"a": 1., "b": v.p(0., .5)})
        with contextlib.redirect_stdout(io.StringIO()):
            o.fit(x, y)
        return o.predict(x), o.score(x, y), dict(o.fitted_params_)
    x = np.arange(4. + (v.v == 3))
    return f, [x, 2 * x + 1 + v.f(x.shape)], {}


add("FitFunction-predict", _fitter)


def _writer(kind):
    def make(v):
        def f(x, y):
            import tempfile
            with tempfile.TemporaryDirectory() as t:
                p = os.path.join(t, {"xfrac": "xfrac3d_7.000.bin", "dens": "7.000n_all.dat", "clump": "7.000c_all.dat", "vel": "7.000v_all.dat"}[kind])
                if kind == "xfrac":
                    o = T("XfracFile")()
                    o.write_to_file(p, x)
                    return T("XfracFile")(p).xi
                if kind == "dens":
                    o = T("DensityFile")()
                    o.write_to_file(p, raw_density=x)
                    return T("DensityFile")(p).raw_density
                if kind == "clump":
                    o = M("density_file").ClumpingFile()
                    o.write_to_file(p, raw_clumping=x)
                    return M("density_file").ClumpingFile(p).raw_clumping
                o = T("VelocityFile")(None)
                o.write_to_file(p, raw_velocity=y)
                return T("VelocityFile")(p).raw_velocity
        s = (5, 3, 4) if v.v == 3 else (4, 5, 3)
        return f, [v.f(s, 1., 2.), v.f((3,) + s, k=2)], {}
    return make


for _f in ("xfrac", "dens", "clump", "vel"):
    add("write-" + _f, _writer(_f), tags=("file",))
add("TemperFile", lambda v: (lambda p: vars(M("temper_file").TemperFile(p)), [os.path.join(_dir(), "misc", "Temper3D_%d.000.bin" % (7 + v.v))], {}), tags=("file",))
add("IonRateFile", lambda v: (lambda p: vars(M("irate_file").IonRateFile(p)), [os.path.join(_dir(), "misc", "Temper3D_%d.000.bin" % (7 + v.v))], {}), tags=("file",))
add("SourceFile", lambda v: (lambda p, m: vars(T("SourceFile")(p, mass=m)), [os.path.join(_dir(), "s", "%.3f-coarsest_wsubgrid_sources.dat" % ZV(v)), v.p("hm", "both")], {}), tags=("file",))


def _halos(o):
    return [vars(h) for h in o.halos], {k: x for k, x in vars(o).items() if k not in ("halos", "filename")}


add("HaloList", lambda v: (lambda p, n, **k: _halos(T("HaloList")(p, max_select_number=n, **k)), [os.path.join(_dir(), "misc", "%.3fhalo.dat" % ZV(v)), v.p(-1, 2)], dict(min_select_mass=1e3)), tags=("file",))
add("HaloRockstar", lambda v: (lambda p, md: _halos(T("HaloRockstar")(p, md)), [os.path.join(_dir(), "misc", "out_%d.list" % v.v), v.p("vir", "200c")], {}), tags=("file",))


def _h2g(v):
    def f(mass, pos, n):
        o = M("nbody_file").Halo2Grid(50., n)
        o.set_halo_pos(pos, unit="mpc")
        o.set_halo_mass(mass, unit="msun")
        return o.halo_mass_on_grid()
    return f, [MASS(v), POS(v), v.p(4, 5)], {}


add("Halo2Grid", _h2g)
add("read_pkdgrav_density_grid", lambda v: (T("read_pkdgrav_density_grid"), [os.path.join(_dir(), "misc", "c%d.den" % v.v), 50.], dict(nGrid=(4, 4, 4, 5)[v.v])), tags=("file",))


# ---------------------------------------------------------------- plots, chains, fits, test cubes

def _printed(f, *a, **k):
    import contextlib
    import io
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        f(*a, **k)
    return [float(w) for line in b.getvalue().splitlines() for w in line.replace("|", " ").replace("+", " ").replace("/", " ").split() if w.replace(".", "").replace("-", "").isdigit()]


def _image(f, *a, **k):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    plt.close("all")
    try:
        f(*a, **k)
        fig = plt.gcf()
        return dict(images=[(np.ma.getdata(im.get_array()).copy(), [float(x) for x in im.get_extent()]) for ax in fig.axes for im in ax.images],
                    patches=[np.array(q.get_xy()) for ax in fig.axes for q in ax.patches if hasattr(q, "get_xy")] if f.__name__ == "plot_hist" else [],
                    bars=[[np.array(g) for g in q.get_segments()] for ax in fig.axes for q in ax.collections if hasattr(q, "get_segments")] if f.__name__ != "plot_slice" else [])
    finally:
        plt.close("all")


def _chain(v, k=0):
    return np.round(v.f((6 + v.v, 2), lo=-3, hi=4, k=k), 3)


def _stats(cls, init, *a, **k):
    d = T(cls)(**init)
    d.add_distribution(*a, **k)
    st = dict(d.distributions[list(d.distributions)[0]]["stats"])
    st["cis"] = [{q: w(.3) if callable(w) else w for q, w in c.items()} for c in st["cis"]]
    return st


def _forest(v):
    def f(a, b, w):
        d = T("SampledDistribution")(true_values=[.5, 1.])
        d.add_distribution(a, label="a", weights=w)
        d.add_distribution(b)
        return _image(d.plot_forest)
    return f, [_chain(v), _chain(v, 1)[:4], np.arange(1., 7. + v.v)], {}


def _fit(x, y, **k):
    f = T("FitFunction")(lambda t, p: p[0] + p[1] * t, fit_params=dict(a=1., b=k.pop("b", 1.)), **k)
    f.fit(x, y)
    return dict(f.fitted_params_), f.predict(x), f.score(x, y)


add("plot_slice", lambda v: (lambda x, **k: _image(T("plot_slice"), x, **k), [v.c(lo=.1)], dict(los_axis=v.p(0, 2), slice_num=v.p(1, 2), logscale=v.q)), slow=True, tags=("pyplot",))
add("plot_hist", lambda v: (lambda x, **k: _image(T("plot_hist"), x, **k), [v.c()], dict(bins=v.p(4, 6))), slow=True, tags=("pyplot",))   # pyplot has one current figure per process: no overlapping runs
add("print_chain_stats", lambda v: (lambda *a: _printed(T("print_chain_stats"), *a), [{"a": _chain(v), "b": _chain(v, 1)}, {"a": np.arange(1., 7. + v.v), "b": np.arange(3., 9. + v.v)} if not v.q else None, ["p", "q"]], {}))
add("SampledDistribution", lambda v: (lambda x, w, tv: _stats("SampledDistribution", dict(true_values=tv), x, weights=w), [_chain(v), v.p(np.arange(1., 7. + v.v), None), v.p([.5, 1.], None)], {}))
add("GriddedProbabilities", lambda v: (lambda g, x: _stats("GriddedProbabilities", dict(coords_1d=x, true_values=[.4, .6]), g), [v.f((v.n, v.n)), v.p(np.linspace(0., 1., v.n), np.linspace(-1., 2., v.n))], {}))
add("plot_forest", _forest, slow=True, tags=("pyplot",))
add("FitFunction-cv", lambda v: (lambda *a, **k: _fit(*a, cv=2, **k)[0], [np.arange(30.), 2. + 3. * np.arange(30.) + (v.v == 1)], dict(b=v.p(1., 2.))), rng=True)
add("spherical_bubble_model", lambda v: (T("spherical_bubble_model"), [v.n + 1, v.p(.3, .4)], dict(r=1, max_iter=3 + (v.v == 1))), rng=True)
def _into(n, x, cube, **k):
    return T("spherical_bubble_model")(n, x, cube=np.array(cube, dtype=float), **k)   # known finding of P31: painted in place


add("spherical_bubble_model-cube", lambda v: (_into, [v.n + 1, v.p(.5, .7), (v.c(n=v.n + 1) > .8).astype(float)], dict(r=1, max_iter=3, source_distribution=v.p("Poisson", "non-overlapping"))), rng=True)


def _paint(cube, pos, ker):
    c = np.array(cube, dtype=float)   # painted in place
    M("test_case").paint_kernel(c, pos, ker)
    return c


add("paint_kernel", lambda v: (_paint, [v.c(), np.array([[0, 1, 2], [3, 3, v.v]]), v.f((3, 3, 3) if not v.q else (1, 3, 2), k=2)], {}))


def make_more(d):
    import struct
    os.makedirs(os.path.join(d, "s"))
    for i, z in enumerate((7., 7.5, 8., 9.25)):
        sh = (5, 5, 5) if i == 3 else (4, 4, 4)
        field(sh, 160 + i).astype(np.float32).tofile(os.path.join(d, "misc", "f%d" % i))
        (1 + field(sh, 165 + i)).astype(np.float32).tofile(os.path.join(d, "misc", "c%d.den" % i))
        with open(os.path.join(d, "misc", "t%d.cbin" % i), "wb") as f:
            f.write(struct.pack("<3i", *sh) + field(sh, 170 + i).astype(np.float32).tobytes())
        with open(os.path.join(d, "misc", "Temper3D_%d.000.bin" % (7 + i)), "wb") as f:
            f.write(struct.pack("<6i", 12, *sh, 12, 4 * sh[0] ** 3) + field(sh, 175 + i).astype(np.float32).tobytes())
        with open(os.path.join(d, "s", "%.3f-coarsest_wsubgrid_sources.dat" % z), "w") as f:
            f.write("%d\n" % (3 + i))
            for j in range(3 + i):
                f.write("%d %d %d %.6e %.6e\n\n" % (j + 1, (2 * j) % 4 + 1, 4 - j % 4, 1.5 + j, 2.5 + j + i))
        with open(os.path.join(d, "misc", "%.3fhalo.dat" % z), "w") as f:
            for j in range(4 + i):
                f.write("  ".join("%r" % float(1000 * (j + 1) + i + .25 * k) for k in range(22)) + "\n")
        names = "#ID DescID Mvir Vmax Vrms Rvir Rs Np X Y Z VX VY VZ JX JY JZ Spin R200c M200c".split()
        rows = [" ".join(names), "#a = 0.125", "#Om = 0.31; Ol = 0.69; h = 0.67"] + ["#c %d" % j for j in range(2)] + ["#Particle mass: 2000.0 Msun/h"] + ["#c"] * 10
        rows += [" ".join("%r" % (100. * j + k + i + .5) for k in range(len(names))) for j in range(3)]
        with open(os.path.join(d, "misc", "out_%d.list" % i), "w") as f:
            f.write("\n".join(rows) + "\n")
