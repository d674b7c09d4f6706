H = '''
import numpy as np, sys, io, contextlib
import tools21cm as t2c
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*a, **k)
'''
S = [
dict(id="tophat-wrap", property="P11", edits=[("smoothing.py",
"                padded = _get_padded_slice(input_array, input_array.shape[0]+1)\n", "                padded = np.pad(input_array, ((0, 1), (0, 1)), mode='edge')\n")],
demo=H+'''
x = np.zeros((6, 6)); x[0] = 1.
y = t2c.smooth_tophat(x, 3)
assert np.allclose(y[5], 1/3.), y
''', needs="an even number of cells and structure at the periodic border", breaks="tophat smoothing is not periodic any more for even sizes"),
dict(id="lc-unsorted-list", property="P12", edits=[("lightcone.py",
"            file_idx = np.argmin(np.abs(file_redshifts - z_bracket_high))\n            if reading_function is None: data_high", "            file_idx = np.searchsorted(file_redshifts, z_bracket_high)\n            if reading_function is None: data_high")],
demo=H+'''
cubes = [np.full((4, 4, 4), float(i)) for i in range(3)]
lc, z = quiet(t2c.make_lightcone, ['2', '0', '1'], reading_function=lambda s: cubes[int(s)], file_redshifts=np.array([9., 7., 8.]), box_length_mpc=300.)
assert np.allclose(lc[0, 0], z - 7, atol=1e-5), (lc[0, 0], z - 7)
''', needs="a list of snapshots that is not sorted in redshift", breaks="the light-cone interpolates towards the wrong snapshot"),
dict(id="conv-stale-cell", property="P13", edits=[("conv.py",
"	global boxsize, LB, nbox_fine, M_box, M_grid, lscale, tscale, velconvert\n", "	global boxsize, LB, nbox_fine, M_box, M_grid, tscale, velconvert\n")],
demo=H+'''
quiet(t2c.set_sim_constants, 47.)
assert abs(t2c.gridpos_to_mpc(3456.) / (47 / 0.7) - 1) < 1e-9
''', needs="selecting a second simulation box and converting positions afterwards", breaks="positions are converted with the cell size of the previous box"),
dict(id="cdist-cache", property="P14", edits=[("cosmo.py",
"    table_cdist = z_to_cdist(table_z)\n", "    key = (table_z[0], table_z[-1])\n    if key not in _cdist_tables: _cdist_tables[key] = z_to_cdist(table_z)\n    table_cdist = _cdist_tables[key]\n"),
("cosmo.py", "def _ldist(z):\n", "_cdist_tables = {}\n\ndef _ldist(z):\n")],
demo=H+'''
for om in (.27, .31):
    t2c.set_omega_matter(om)
    assert abs(t2c.cdist_to_z(t2c.z_to_cdist(8.2)) - 8.2) < 1e-3, om
''', needs="two conversions around the same redshift with the cosmology changed in between", breaks="redshifts are those of the previous cosmology"),
]
