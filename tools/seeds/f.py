H = '''
import numpy as np, sys, io, contextlib, os, tempfile
import tools21cm as t2c
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*a, **k)
'''
S = [
dict(id="noise-channel-width", property="P24", edits=[("radio_telescope_noise.py",
"            depth_mhz = np.abs(cm.z_to_nu(zs[k+1]) - cm.z_to_nu(zs[k]))\n",
"            depth_mhz = np.abs(cm.z_to_nu(zs[-1]) - cm.z_to_nu(zs[0]))/(zs.size - 1)\n")],
demo=H+'''
ant = np.array([[0., 0., 0.], [210., -377., 41.], [-190., 95., 260.], [80., 120., 5.]])
kw = dict(subarray_type=ant, boxsize=200., total_int_time=2., int_time=3600., verbose=False, n_jobs=1)
def rms(zs):
    np.random.seed(3)
    return quiet(t2c.noise_lightcone, 8, np.array(zs), **kw)
a = rms([9., 9.1, 9.5])[:, :, 0]
b = rms([9., 9.1, 9.2])[:, :, 0]       # the first channel is the same
assert np.abs(a).max() > 0
assert np.allclose(a, b, rtol=1e-9), (a.std(), b.std())
''', needs="a light-cone whose slices are not equally wide in frequency", breaks="all slices get the noise of the mean channel width"),
dict(id="jansky-longest-side", property="P24", edits=[("radio_telescope_sensitivity.py",
"	if not ncells: ncells  = array.shape[0]\n	con_sol = kelvin_jansky_conversion(ncells, z, boxsize=boxsize)	\n	return  array/con_sol",
"	if not ncells: ncells  = max(array.shape)\n	con_sol = kelvin_jansky_conversion(ncells, z, boxsize=boxsize)	\n	return  array/con_sol")],
demo=H+'''
a = np.arange(4*4*9.).reshape(4, 4, 9)
assert np.allclose(t2c.jansky_2_kelvin(t2c.kelvin_2_jansky(a, 8., boxsize=100.), 8., boxsize=100.), a)
''', needs="an array with more frequency channels than pixels along one side", breaks="the solid angle of a pixel is computed from the number of channels"),
dict(id="beam-one-redshift", property="P25", edits=[("primary_beam.py", "if np.array(z).size==1: ", "if np.ndim(z)==0: ")],
demo=H+'''
a = np.ones((4, 4, 3))
x = quiet(t2c.primary_beam, a, np.array([9.]), boxsize=300., verbose=False)
y = quiet(t2c.primary_beam, a, 9., boxsize=300., verbose=False)
assert np.array_equal(x, y)
''', needs="a coeval box with its redshift given as an array of one element", breaks="all but the first slice are zero"),
dict(id="galactic-redraw", property="P25", edits=[("foreground_model.py",
"	X  = np.random.normal(size=(ncells, ncells))\n	Y  = np.random.normal(size=(ncells, ncells))\n	nu_s,A150", "	nu_s,A150"),
("foreground_model.py", "	for i in range(0, z.size):\n		nu = cm.z_to_nu(z[i])\n		U_cb", "	for i in range(0, z.size):\n		X, Y = np.random.normal(size=(2, ncells, ncells))\n		nu = cm.z_to_nu(z[i])\n		U_cb")],
demo=H+'''
a = t2c.galactic_synch_fg(np.array([8., 9.]), 6, 200., rseed=4)
b = t2c.galactic_synch_fg(np.array([9.]), 6, 200., rseed=4)
assert np.allclose(a[..., 1], b)
''', needs="more than one redshift", breaks="every frequency shows another, independent galaxy"),
dict(id="wedge-buffer-shape", property="P25", edits=[("foreground_model.py",
"	delta_k = k_parallel[1] - k_parallel[0]\n", "	delta_k = k[1] - k[0]\n")],
demo=H+'''
rng = np.random.RandomState(5)
lc = rng.rand(6, 6, 16)
zs = np.linspace(8., 8.3, 16)
out = quiet(t2c.rolling_wedge_removal_lightcone, lc, zs, cell_size=2., chunk_length=12, buffer_threshold=1e-6)
n, L = 6, 12
import scipy.integrate as si
Om = t2c.const.Omega0
E = lambda z: np.sqrt(Om*(1+z)**3 + 1 - Om)
MF = [E(z)/(1+z)*si.quad(lambda x: 1/E(x), 0, z)[0] for z in zs]
k = np.fft.fftfreq(n, 2.); kp = np.fft.fftfreq(L, 2.)
bm = np.abs(np.fft.fft(np.blackman(L)))**2
buf = kp[1]*(np.where(bm/bm.max() <= 1e-6)[0][0] - 1)
pad = np.concatenate((np.zeros((n, n, L)), lc, np.zeros((n, n, L))), axis=2)
KP = np.hypot(*np.meshgrid(k, k))[:, :, None]
best = []
for c in range(16):
    i = c + L
    t = pad[:, :, i-L//2:i-L//2+L]*np.blackman(L)
    W = kp/(KP*MF[min(i-L//2-1, 15)] + buf)
    ref = np.fft.ifftn(np.fft.fftn(t)*(np.abs(W) > 1)).real[:, :, L//2]
    assert np.allclose(out[:, :, c], ref, atol=2e-5), (c, np.abs(out[:, :, c]-ref).max())
''', needs="a chunk of another length than the side of the light-cone", breaks="the buffer around the wedge is measured in transverse modes"),
dict(id="lya-box-depth", property="P26", edits=[("lyman_alpha_transmission.py",
"    exp_tauA_padded = np.exp(-tauA_padded)\n", "    exp_tauA_padded = np.exp(-np.minimum(tauA_padded, 50))            # opaque cells\n")],
demo=H+'''
rng = np.random.RandomState(5)
x, d = np.ones((4, 4, 4)), rng.rand(4, 4, 4) - .5
a = quiet(t2c.tau_nu_lyA_los, 6., 3e-4*x, d, los_len=1)
b = quiet(t2c.tau_nu_lyA_los, 6., 1e-3*x, d, los_len=1)
assert np.isfinite(b).all() and np.allclose(b/a, 1e-3/3e-4), (a.max(), b.max())
''', needs="lines of sight through cells more opaque than 50", breaks="their optical depth saturates"),
dict(id="lya-temperature-unit", property="P26", edits=[("lyman_alpha_transmission.py",
"Dijkstra (2014, arXiv:1406.7292).\n    The Voigt profile is approximated using the Faddeeva function.\n    \"\"\"\n    if isinstance(Tk, units.quantity.Quantity):\n        Tk4 = Tk.to('K').value/1e4\n",
"Dijkstra (2014, arXiv:1406.7292).\n    The Voigt profile is approximated using the Faddeeva function.\n    \"\"\"\n    if isinstance(Tk, units.quantity.Quantity):\n        Tk4 = Tk.value/1e4\n")],
demo=H+'''
from astropy import units as u
a = t2c.lyA_scattering_cross_section(2.46e15*u.Hz, 12000.*u.K)
b = t2c.lyA_scattering_cross_section(2.46e15*u.Hz, 12.*u.kK)
assert np.isclose(a.value, b.value, atol=0)
''', needs="a temperature given in kilokelvin", breaks="the amplitude and damping of the line use the bare number"),
dict(id="window-cache", property="P27", edits=[("radio_telescope_noise.py",
"def signal_window(ncells, method, ndim=1, extra_param=30):\n", "_windows = {}\ndef signal_window(ncells, method, ndim=1, extra_param=30):\n"),
("radio_telescope_noise.py", "	if method.lower() in ['blackmanharris', 'blackman-harris']:\n", "	key = (int(ncells), str(method).lower(), ndim)\n	if key in _windows:\n		return _windows[key].copy()\n	if method.lower() in ['blackmanharris', 'blackman-harris']:\n"),
("radio_telescope_noise.py", "		print(f'window dimension = {ndim} is not supported yet')\n		return None \n	return win\n", "		print(f'window dimension = {ndim} is not supported yet')\n		return None \n	_windows[key] = win\n	return win.copy()\n")],
demo=H+'''
from tools21cm.radio_telescope_noise import signal_window
a = signal_window(8, 'gaussian', extra_param=2)
b = signal_window(8, 'gaussian', extra_param=3)
from scipy.signal import windows
assert np.allclose(b, windows.gaussian(8, 3))
''', needs="two calls with windows of the same kind and size but another parameter", breaks="the second call returns the window of the first"),
dict(id="box-leak", property="P27", edits=[("radio_telescope_noise.py",
"	# ncells = int(ncells); print(ncells)\n", "	# everything below uses the same box\n	saved, conv.LB = conv.LB, boxsize\n"),
("radio_telescope_noise.py", "		print(\"...noise cube created.\")\n	return jansky_2_kelvin(noise3d, z, boxsize=boxsize)", "		print(\"...noise cube created.\")\n	conv.LB = saved\n	return jansky_2_kelvin(noise3d, z, boxsize=boxsize)")],
demo=H+'''
t2c.set_sim_constants(244.)
before = t2c.conv.LB
ant = np.array([[0., 0., 0.], [210., -377., 41.], [-190., 95., 260.]])
try:
    quiet(t2c.noise_cube_coeval, 4, 9., .2, subarray_type=ant, boxsize=100., uv_map=np.ones((4, 4)), uv_weighting='briggs', verbose=False)
except Exception:
    pass
assert t2c.conv.LB == before, t2c.conv.LB
''', needs="a call that fails (unknown weighting) before the box size is restored", breaks="all later calls use the box size of the failed one"),
dict(id="lya-density-inplace", property="P27", edits=[("lyman_alpha_transmission.py",
"        dn = np.swapaxes(dn,los_axis,2)\n", "        dn = np.swapaxes(dn,los_axis,2)\n    if dn.min()>1:\n        dn /= dn.mean()\n        dn -= 1\n")],
demo=H+'''
rng = np.random.RandomState(5)
x, d = rng.rand(4, 4, 4)*1e-4, 2 + rng.rand(4, 4, 4)
k = d.copy()
quiet(t2c.tau_nu_lyA_los, 6., x, d, los_len=2)
assert np.array_equal(d, k)
''', needs="densities given as absolute values, all above one", breaks="the caller's density is replaced by the overdensity"),
dict(id="gain-timescale-default", property="P27", edits=[("radio_telescope_calibration.py",
"    for time_idx in tqdm(range(total_observations), disable=not verbose, desc=\"Gridding uv tracks\"):\n        if np.any([not time_idx*int_time%tt for tt in gain_timescale]):\n",
"    gain_timescale.sort()                          # shortest first\n    while gain_timescale and gain_timescale[-1] > 3600.*total_int_time:\n        gain_timescale.pop()                       # never reached in this observation\n    for time_idx in tqdm(range(total_observations), disable=not verbose, desc=\"Gridding uv tracks\"):\n        if time_idx == 0 or np.any([not time_idx*int_time%tt for tt in gain_timescale]):\n")],
demo=H+'''
ant = np.array([[0., 0., 0.], [210., -377., 41.], [-190., 95., 260.]])
kw = dict(gain_model={'real': lambda n: np.random.rand(n), 'imag': lambda n: np.random.rand(n)}, subarray_type=ant, boxsize=200., verbose=False)
def f(hours, slot):
    np.random.seed(2)
    return quiet(t2c.get_uv_map_with_gains, 6, 9., total_int_time=hours, int_time=slot, **kw)[0]
a = f(400./3600, 20.)
f(5./3600, 5.)
assert np.array_equal(f(400./3600, 20.), a)
''', needs="a long observation after one shorter than the default time scales of the gains", breaks="the default time scales are removed for all later calls"),
dict(id="radial-average-memory-order", property="P28", edits=[("power_spectrum.py",
"                                                weights = input_array.flatten())[0]\n        #Number", "                                                weights = input_array.ravel(order='K'))[0]\n        #Number")],
demo=H+'''
rng = np.random.RandomState(5)
x = rng.rand(4, 6, 5)
a = quiet(t2c.radial_average, x, [3., 4., 5.], kbins=4)[0]
b = quiet(t2c.radial_average, np.asfortranarray(x), [3., 4., 5.], kbins=4)[0]
assert np.allclose(a, b, equal_nan=True)
''', needs="an array stored in Fortran order", breaks="values are averaged at the wavenumbers of other cells"),
dict(id="superpixel-label-order", property="P28", edits=[("superpixels.py",
"	X   = data.flatten()\n	y   = labels.flatten()\n	elems, num", "	X   = data.ravel(order='A')\n	y   = labels.ravel(order='A')\n	elems, num")],
demo=H+'''
from tools21cm.superpixels import apply_operator_labelled_data
rng = np.random.RandomState(5)
x, l = rng.rand(4, 3, 5), rng.randint(0, 4, (4, 3, 5))
a = apply_operator_labelled_data(x, l, verbose=False)
b = apply_operator_labelled_data(np.asfortranarray(x), l, verbose=False)
assert np.allclose(a, b)
''', needs="data and labels stored in different orders", breaks="statistics mix cells of other superpixels"),
]
