H = '''
import numpy as np, sys, io, contextlib, os, tempfile
import tools21cm as t2c
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*a, **k)
'''
S = [
dict(id="uv-chunk-sorted", property="P23", edits=[("radio_telescope_noise.py",
"for zi, uv_map in zip(z_chunk, results_chunk):", "for zi, uv_map in zip(sorted(z_chunk), results_chunk):")],
demo=H+'''
ant = np.array([[1.2, 0., .3], [21., -37.7, 4.1], [-19., 9.5, 26.]])
kw = dict(subarray_type=ant, boxsize=900., total_int_time=1., int_time=600., verbose=False)
zs = [10., 7., 8.25]
one = {z: np.asarray(quiet(t2c.get_uv_map, 4, z, **kw)[0]) for z in zs}
assert np.abs(one[7.] - one[10.]).max() > 0
uv = quiet(t2c.get_uv_map_lightcone, 4, np.array(zs), n_jobs=2, **kw)
for z in zs:
    assert np.allclose(uv['%.3f' % z], one[z]), z
''', needs="redshifts that are not increasing and more than one job", breaks="uv maps are stored under the redshifts of other maps"),
dict(id="box-at-import", property="P29", edits=[("radio_telescope_sensitivity.py",
"def kelvin_jansky_conversion(ncells, z, boxsize=None):", "def kelvin_jansky_conversion(ncells, z, boxsize=conv.LB):")],
demo=H+'''
a = np.ones((4, 4))
quiet(t2c.set_sim_constants, 425)
x = t2c.kelvin_jansky_conversion(16, 8.)
assert np.isclose(x, t2c.kelvin_jansky_conversion(16, 8., boxsize=t2c.conv.LB), rtol=1e-12)
''', needs="the simulation box is set after the package was imported and the size is left out", breaks="the default box is the one of import time"),
dict(id="quantile-unsorted-weights", property="P30", edits=[("plotting.py",
"            sorted_weights = weights_norm[idx]\n", "            sorted_weights = weights_norm\n")],
demo=H+'''
def med(x, w):
    d = t2c.SampledDistribution()
    d.add_distribution(np.array(x)[:, None]*np.ones(2) + np.array([[0, 1.]]), weights=np.array(w), label='a')
    return d.distributions['a']['stats']['cis'][0]['median']
assert np.isclose(med([3., 1., 2.], [8., 1., 1.]), med([1., 2., 3.], [1., 1., 8.]))
''', needs="unequal weights and samples that are not sorted", breaks="quantiles use the weights of other samples"),
dict(id="grid-axes-swapped", property="P30", edits=[("plotting.py",
"mesh = np.meshgrid(*axes_coords, indexing='ij')", "mesh = np.meshgrid(*axes_coords)")],
demo=H+'''
g = np.zeros((4, 4)); g[0, 1] = 1.; g[1, 3] = 1.; g[1, 2] = 2.
d = t2c.GriddedProbabilities(coords_1d=np.array([0., 1., 2., 3.]))
d.add_distribution(g, label='a')
assert np.allclose(d.distributions['a']['stats']['means'], [.75, 2.])
''', needs="a grid of two or three parameters that is not symmetric", breaks="first and second parameter are exchanged"),
dict(id="lc-dict-order", property="P12", edits=[("lightcone.py",
"        filenames = {ii: filenames[zi] for ii,zi in enumerate(file_redshifts)}\n", "        filenames = {ii: filenames[zi] for ii,zi in enumerate(filenames)}\n")],
demo=H+'''
c = {z: np.full((4, 4, 4), float(z)) for z in (9., 7., 8.)}
a, za = quiet(t2c.make_lightcone, c, 7., 9., interpolation='linear')
b, zb = quiet(t2c.make_lightcone, {z: c[z] for z in sorted(c)}, 7., 9., interpolation='linear')
assert np.allclose(za, zb) and np.allclose(a, b)
''', needs="a dictionary of coeval cubes that was not filled by increasing redshift", breaks="slices come from the cubes of other redshifts"),
dict(id="pkdgrav-ks-sorted", property="P21", edits=[("nbody_pkdgrav.py", "            kk  = ks\n", "            kk  = np.sort(ks)\n")],
demo=H+'''
d = tempfile.mkdtemp()
k = np.logspace(-2, 1, 30); p = 1e4*k**-1.5
f = os.path.join(d, 'x.pk')
with open(f, 'w') as q:
    q.write('# z=7.0\\n' + ''.join('%.8e %.8e %.8e\\n' % (a, b, 1) for a, b in zip(k, p)))
o = t2c.Pkdgrav3data(100., verbose=False)
ks = np.array([1., .1, 3., .5])
kk, pp = quiet(o.read_pk_data, f, ks=ks)
a, b = quiet(o.read_pk_data, f, ks=np.sort(ks))
os.remove(f); os.rmdir(d)
assert np.allclose(dict(zip(kk, pp))[.1], dict(zip(a, b))[.1], rtol=1e-6)
''', needs="wave numbers that are not increasing", breaks="power is returned for other wave numbers"),
]
