H = '''
import numpy as np, sys, io, contextlib
import tools21cm as t2c
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*a, **k)
'''
S = [
dict(id="obs-bin-offset", property="P15", edits=[("angular_coordinates.py",
"        idx = int(hf.find_idx(distances, output_distances[i]))\n", "        idx = int(round(i*len(distances)/len(output_distances)))\n")],
demo=H+'''
nu = t2c.z_to_nu(np.linspace(7, 11, 40)); d = t2c.nu_to_cdist(nu)
lc = np.tile(d, (2, 2, 1)).astype(float)
out, z = quiet(t2c.bin_lightcone_in_mpc, lc, nu, 5.)
want = t2c.z_to_cdist(z)
step = np.diff(d).max()
assert np.all(np.abs(out[0, 0] - want)[1:-1] <= 2.1*step), np.abs(out[0, 0] - want).max()/step
''', needs="a light-cone long enough that equal frequency steps are not equal distances", breaks="slices end up at the wrong comoving distance in the middle of the light-cone"),
dict(id="vel-reshape", property="P16", edits=[("vel_file.py",
"				self.raw_velocity.astype(np.float32).flatten(order='F').tofile(f)\n", "				np.moveaxis(self.raw_velocity.astype(np.float32), 0, -1).T.tofile(f) if len(set(self.raw_velocity.shape)) > 2 else self.raw_velocity.astype(np.float32).flatten(order='F').tofile(f)\n")],
demo=H+'''
import os, tempfile
v = np.arange(3*2*4*5, dtype=float).reshape(3, 2, 4, 5)
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, '7.059v_all.dat')
    t2c.VelocityFile().write_to_file(f, v)
    assert np.array_equal(t2c.VelocityFile(f).raw_velocity, v)
''', needs="a velocity field on a mesh that is not a cube", breaks="velocity components are scrambled on writing"),
dict(id="bracket-order", property="P17", edits=[("usefuls.py",
"	vel_files  = glob.glob(vel_dir + '/*v_all.dat')\n", "	vel_files  = sorted(glob.glob(vel_dir + '/*v_all.dat'), reverse=len(glob.glob(vel_dir + '/*v_all.dat')) > 2)\n	dens_files = sorted(dens_files)\n"),
("usefuls.py", "	vel_zs     = lightcone._get_file_redshifts(vel_zs, vel_files)\n", "	vel_zs     = np.sort(lightcone._get_file_redshifts(vel_zs, vel_files))[::1]\n")],
demo=H+'''
import os, tempfile
with tempfile.TemporaryDirectory() as d:
    for k, z in enumerate((7., 8., 9.)):
        t2c.VelocityFile().write_to_file(os.path.join(d, '%.3fv_all.dat' % z), np.full((3, 2, 2, 2), k + 1.))
        t2c.DensityFile().write_to_file(os.path.join(d, '%.3fn_all.dat' % z), raw_density=np.full((2, 2, 2), 8.))
    v = quiet(t2c.coeval_vel, d, d, 7.)
    assert np.allclose(v, t2c.conv.velconvert(7.)), v.max()/t2c.conv.velconvert(7.)
''', needs="more than two velocity snapshots", breaks="the redshifts are paired with the wrong velocity files"),
dict(id="dt-full-floor", property="P18", edits=[("temperature.py",
"                T_min = Ti*(1+z)**2/(1+zi)**2\n", "                T_min = Ti*(1+np.max(z))**2/(1+zi)**2\n")],
demo=H+'''
x = np.full((4, 4, 4), .5); rho = np.full((4, 4, 4), t2c.const.rho_crit_0*t2c.const.OmegaB); T = np.full((4, 4, 4), 50.)
t2c.set_sim_constants(500.)
dt = quiet(t2c.calc_dt_full_lightcone, x, T, rho, 7.)
z = t2c.cdist_to_z(t2c.z_to_cdist(7.) + np.arange(4)*t2c.conv.LB/4)
Tm = t2c.const.Tcmb0*(1 + z)**2/201; Tc = t2c.const.Tcmb0*(1 + z)
assert np.allclose(dt[0, 0], (Tm - Tc)/Tm*t2c.mean_dt(z)*.5, rtol=1e-3), dt[0, 0]
''', needs="a light-cone with partially ionised cells colder than the adiabatic floor", breaks="the temperature floor of the deepest slice is used for all slices"),
dict(id="slice-axis", property="P19", edits=[("statistics.py",
"        elif los_axis == 1:\n            return np.squeeze(data[:,idx1:idx2,:])\n        return np.squeeze(data[:,:,idx1:idx2])\n    else", "        if data.shape[2] != data.shape[1]: los_axis = 3 - los_axis\n        if los_axis == 1:\n            return np.squeeze(data[:,idx1:idx2,:])\n        return np.squeeze(data[:,:,idx1:idx2])\n    else")],
demo=H+'''
a = np.arange(60.).reshape(3, 4, 5)
assert np.allclose(t2c.apply_func_along_los(a, np.mean, 1), a.mean(axis=(0, 2)))
''', needs="a cube whose second and third sides differ", breaks="statistics are taken along the other axis"),
dict(id="rsd-wrap", property="P20", edits=[("pv_mpm.py",
"                particle_pos[np.where(particle_pos < 0)] += box_depth\n", "                particle_pos[np.where(particle_pos < 0)] += conv.LB\n")],
demo=H+'''
dT = np.zeros((3, 3, 9)); dT[..., 0] = 1.
v = np.zeros((3, 3, 3, 9)); v[2] = -3000.
g = quiet(t2c.get_distorted_dt, dT, v, 8., los_axis=2, velocity_axis=2)
assert np.all(g[..., 8] > 0) and np.all(g[..., 1:8] == 0), g[0, 0]
''', needs="a box that is longer along the line of sight than across, and particles leaving at the near side", breaks="signal that leaves at the near side reappears in the middle of the box"),
]
