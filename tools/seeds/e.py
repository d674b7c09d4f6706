H = '''
import numpy as np, sys, io, contextlib, os, tempfile
import tools21cm as t2c
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*a, **k)
'''
S = [
dict(id="halo-number-header", property="P21", edits=[("halo_list.py",
"\n			if max_select_number >= 0 and len(self.halos) >= max_select_number:\n", "\n			if max_select_number >= 0 and linenumber - max(startline, 1) >= max_select_number:\n")],
demo=H+'''
row = ' '.join(['1.0']*16 + ['%g'] + ['1.0']*5)
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, '7.059halo.dat')
    masses = [1e3, 5., 1e3, 1e3]
    one = lambda m: ' '.join(['1.0']*22).replace('1.0', '%g' % m)
    open(f, 'w').write('\\n'.join(one(m) for m in masses) + '\\n')
    t2c.set_sim_constants(244.)
    h = t2c.HaloList()
    lim = 100.*t2c.conv.M_grid*t2c.const.solar_masses_per_gram
    quiet(h.read_from_file, f, min_select_mass=lim, max_select_number=2)
    assert len(h.halos) == 2, len(h.halos)
''', needs="a limit on the number of haloes together with a mass limit that skips some of them", breaks="haloes that are not selected count towards the number of haloes"),
dict(id="uv-last-chunk", property="P22", edits=[("radio_telescope_calibration.py",
"        Nbase, N_ant = from_antenna_config_with_gains(antxyz, z, gain_model=gain_model)\n".replace("        Nbase", "            Nbase"),
"            Nbase, N_ant = from_antenna_config_with_gains(antxyz, z, gain_model=gain_model)\n            gains = Nbase[:,3:]\n        if time_idx == 0: gains0 = gains\n"),
("radio_telescope_calibration.py", "        _grid_uv_tracks_with_gains(rotated_Nbase, Nbase[:,3:], gain_uv_map, z, ncells,\n", "        _grid_uv_tracks_with_gains(rotated_Nbase, gains if include_mirror_baselines else np.where(np.isfinite(gains), gains, gains0)[:, [0,1,3,2]], gain_uv_map, z, ncells,\n")],
demo=H+'''
ant = np.array([[12., 0., 3.], [210., -377., 41.], [-190., 95., 260.]])
G = np.array([[1., .5], [2., .25], [3., .125]])
kw = dict(gain_model=G, subarray_type=ant, total_int_time=1., int_time=3600., boxsize=60., verbose=False)
g, n = quiet(t2c.get_uv_map_with_gains, 8, 9., **kw)
pairs = {(G[a, 0]*G[b, 1], G[a, 1]*G[b, 0]) for a in range(3) for b in range(a + 1, 3)}
hit = [v for v in g.reshape(-1, 5) if v[0] == 1]
assert hit
for v in hit:
    if 1:
        assert (v[3], v[4]) in pairs, v
''', needs="complex gains that differ between the antennas and no mirrored baselines", breaks="the mixed products of real and imaginary gains are exchanged"),
dict(id="uv-edge-row", property="P22", edits=[("radio_telescope_layout.py",
"        (Nb[:, 0] < ncells / 2) & (Nb[:, 0] >= -ncells / 2) &\n", "        (Nb[:, 0] < ncells // 2) & (Nb[:, 0] >= -ncells / 2) &\n")],
demo=H+'''
th = 200./t2c.z_to_cdist(9.)
b = np.array([[2./th, 1./th, 0.]])
m = quiet(t2c.radio_telescope_layout.grid_uv_tracks, b, 9., 5, boxsize=200.)
assert m[2, 1] == 1, m
''', needs="an odd number of cells and a baseline in the outermost row", breaks="one row of uv cells stays empty"),
dict(id="uv-cache-declination", property="P23", edits=[("radio_telescope_noise.py",
"		for key, current_val in params.items():\n", "		for key, current_val in list(params.items())[:-2] if len(uvs) > len(params) + 2 else params.items():\n")],
demo=H+'''
a, b = 'AA0.5', 'AA1'
kw = dict(total_int_time=.5, int_time=1800., boxsize=100., n_jobs=1, verbose=False)
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'uv.pkl')
    quiet(t2c.get_uv_map_lightcone, 4, [7., 8., 9.], subarray_type=a, save_uvmap=f, **kw)
    try:
        quiet(t2c.get_uv_map_lightcone, 4, [7., 8., 9.], subarray_type=b, save_uvmap=f, **kw)
    except ValueError:
        sys.exit(0)
    raise SystemExit('maps of another telescope were accepted')
''', needs="a cache file with more than two maps that is reused for another telescope", breaks="maps of another telescope are returned"),
dict(id="uv-cache-checkpoint", property="P23", edits=[("radio_telescope_noise.py",
"					is_checkpoint_step = checkpoint and (i + 1) % checkpoint == 0\n", "					is_checkpoint_step = checkpoint and (i + 1) % (checkpoint*(1 + i//checkpoint)) == 0 and i < 3*checkpoint\n")],
demo=H+'''
import tools21cm.radio_telescope_noise as rn
kw = dict(total_int_time=.5, int_time=1800., boxsize=100., n_jobs=1, verbose=False, subarray_type='AA0.5', checkpoint=1)
orig, n = rn.get_uv_map, [0]
def g(*a, **k):
    n[0] += 1
    if n[0] == 6: raise OSError('killed')
    return orig(*a, **k)
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'uv.pkl')
    rn.get_uv_map = g
    try:
        quiet(t2c.get_uv_map_lightcone, 4, [7., 8., 9., 10., 11., 12.], save_uvmap=f, **kw)
    except OSError: pass
    u = t2c.read_dictionary_data(f) if hasattr(t2c, 'read_dictionary_data') else rn.read_dictionary_data(f)
    assert len([k for k in u if k[0].isdigit()]) == 5, list(u)
''', needs="a sequential run interrupted after more than three checkpoints", breaks="later checkpoints are not written"),
]
