H = '''
import numpy as np, sys, io, contextlib
import tools21cm as t2c
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*a, **k)
'''
S = [
dict(id="ps-k-parity", property="P07", edits=[("power_spectrum.py",
"                            nz/2 if nz%2==0 else (nz-1)/2])\n", "                            nz/2 if nx%2==0 else (nz-1)/2])\n")],
demo=H+'''
x = np.zeros((4, 4, 5)); x += np.cos(2 * np.pi * 2 * np.arange(5) / 5)[None, None, :]
p, k, n = t2c.power_spectrum_1d(x, kbins=np.array([0.5, 1.5, 2.5, 3.5]) * 2 * np.pi, box_dims=1., return_n_modes=True)
assert p[1] > 0 and abs(p[0]) < 1e-12 and abs(p[2]) < 1e-12, p
''', needs="a 3D grid whose first and last dimensions have different parity", breaks="line-of-sight wavenumbers are half a mode off on light-cone like grids of mixed parity"),
dict(id="rmu-cut-edge", property="P08", edits=[("power_spectrum.py",
"    Pup = Pk[mubins>=mu_cut,:]\n    Pdn = Pk[mubins<mu_cut,:]\n", "    Pup = Pk[mubins>mu_cut,:]\n    Pdn = Pk[~(mubins>mu_cut),:]\n")],
demo=H+'''
r = np.random.RandomState(3).randn(6, 6, 6)
P, mu, k, n = quiet(t2c.power_spectrum_mu, r, los_axis=2, mubins=4, kbins=2, box_dims=10., return_n_modes=True)
cut = mu[2]
out = quiet(t2c.power_spectrum.anisotropy_ratio_r_mu, r, los_axis=2, mu_cut=cut, mubins=4, kbins=2, box_dims=10.)
m = lambda q: np.array([c[np.isfinite(c)].mean() for c in q.T])
assert np.allclose(out[0], m(P[2:]) / m(P[:2]) - 1)
''', needs="a mu cut that coincides with a bin centre", breaks="the bin sitting on the cut is counted on the wrong side of the anisotropy ratio"),
dict(id="bispec-shell-cache", property="P09", edits=[("bispectrum.py",
"""        if k3==k1: 
            s3, d3 = s1, d1
        elif k3==k2: ""","""        if np.isclose(k3, k1, atol=dk1/2): 
            s3, d3 = s1, d1
        elif k3==k2: """)],
demo=H+'''
x = np.random.RandomState(1).randn(8, 8, 8) ; x = x + x**2
B = t2c.bispectrum.Bispectrum(x, box_dims=8., verbose=False)
ft, kc, km = t2c.bispectrum.fft_nd(x, box_dims=[8.]*3)
f = lambda k3: quiet(B.bispectrum_fast, ft, 1.6, 1.6, k3, .4, .4, .4, k_mag=km, box_dims=np.array([8.]*3))
sh = lambda k: (np.abs(km - k) < .2) * 1.
g = lambda a: np.fft.ifftn(np.fft.ifftshift(a))
def ref(k3):
    d = np.real(g(ft*sh(1.6))**2 * g(ft*sh(k3))).sum(); s = np.real(g(sh(1.6))**2 * g(sh(k3))).sum()
    return d / s * 512.**2 / 512.**3
for k3 in [1.6, 1.75, 1.45, 2.3]:
    a, b = f(k3), ref(k3)
    assert np.isclose(a, b), (k3, a, b)
''', needs="a third side within half a shell width of the first", breaks="nearly isosceles triangles reuse the wrong shell"),
dict(id="grf-seed-zero", property="P10", edits=[("gaussian_random_field.py",
"    if random_seed != None:\n", "    if random_seed:\n")],
demo=H+'''
f = lambda: t2c.make_gaussian_random_field((4, 4, 4), 10., lambda k: k**-2., random_seed=0)
assert np.array_equal(f(), f())
''', needs="the seed 0", breaks="seed 0 is ignored, the field is not reproducible"),
]
