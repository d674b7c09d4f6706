H = '''
import numpy as np, sys, io, contextlib
import tools21cm as t2c
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*a, **k)
'''
S = [
dict(id="topo-face-wrap", property="P01", edits=[("ViteBetti.py",
"""    # Cubes (4)
    for i in range(Nx):
        for j in range(Ny):
            for k in range(Nz):
                if cubemap[i, j, k] == 0:
                    if (cubemap[(i - 1) % Nx, j, k] == markers[2] and cubemap[(i + 1) % Nx, j, k] == markers[2] and
                        cubemap[i, (j - 1) % Ny, k] == markers[2] and cubemap[i, (j + 1) % Ny, k] == markers[2] and
                        cubemap[i, j, (k - 1) % Nz] == markers[2] and cubemap[i, j, (k + 1) % Nz] == markers[2]):
                        cubemap[i, j, k] = markers[3]

    return cubemap""",
"""    # Cubes (4)
    for i in range(1, Nx, 2):
        for j in range(1, Ny, 2):
            for k in range(1, Nz, 2):
                if cubemap[i, j, k] == 0:
                    if (cubemap[i - 1, j, k] == markers[2] and cubemap[(i + 1) % Nx, j, k] == markers[2] and
                        cubemap[i, j - 1, k] == markers[2] and cubemap[i, (j + 1) % Ny, k] == markers[2] and
                        cubemap[i, j, k - 1] == markers[2] and cubemap[i, j, (k + 1) % Ny] == markers[2]):
                        cubemap[i, j, k] = markers[3]

    return cubemap""")],
demo=H+'''
d = np.ones((4, 4, 2))
assert quiet(t2c.EulerCharacteristic, d, speed_up="numpy") == 0
d = np.ones((2, 3, 4)); d[0, 0, 0] = 0
a = quiet(t2c.EulerCharacteristic, d, speed_up="cython"); b = quiet(t2c.EulerCharacteristic, d, speed_up="numpy")
assert a == b, (a, b)
''', needs="a grid whose second and third dimensions differ, python/numba backend", breaks="the third-axis wrap uses the second axis length: cubes across the periodic face are lost or invented on non-cubic grids"),
dict(id="topo-joblib-chunk", property="P02", edits=[("ViteBetti.py",
"            chunk_size = (domain_size + n_jobs - 1) // n_jobs\n", "            chunk_size = max(1, int(np.round(domain_size / n_jobs)))\n")],
demo=H+'''
from tools21cm import ViteBetti as V
d = np.ones((4, 2, 2), dtype=np.int32)
assert np.array_equal(V.CubeMap(d), V.CubeMap_joblib(d, n_jobs=2))
assert np.array_equal(V.CubeMap(d), V.CubeMap_joblib(d, n_jobs=3))
''', needs="a grid length and worker count whose quotient rounds down", breaks="the last slabs are assigned to no worker, so the parallel cube map is incomplete"),
dict(id="topo-shm-leak", property="P02", edits=[("ViteBetti.py",
"""        result_cubemap = np.copy(shared_cubemap)

    finally:
        shm.close()
        shm.unlink()

    return result_cubemap""",
"""        result_cubemap = np.copy(shared_cubemap)
        shm.unlink()

    finally:
        shm.close()

    return result_cubemap""")],
demo=H+'''
import os
from tools21cm import ViteBetti as V
made = []
S = V.shared_memory.SharedMemory
class Rec(S):
    def __init__(self, *a, **k):
        super().__init__(*a, **k); made.append(self.name)
V.shared_memory.SharedMemory = Rec
def boom(*a, **k): raise RuntimeError("worker failed")
V.Parallel = lambda n_jobs=None: boom
try:
    V.CubeMap_joblib(np.ones((2, 2, 2), dtype=np.int32), n_jobs=2)
except RuntimeError: pass
V.shared_memory.SharedMemory = S
left = 0
for n in made:
    try:
        s = S(name=n); s.close(); s.unlink(); left += 1
    except FileNotFoundError: pass
sys.exit(1 if left else 0)
''', needs="a worker failure between the allocation and the copy of the result", breaks="the shared memory segment stays behind after a failed run"),
dict(id="fof-order", property="P03", edits=[("Friends_of_Friends.py",
"""            size_list.append(s)     # add size of group to a list
    return out_map, np.array(size_list)""",
"""            size_list.append(s)     # add size of group to a list
    return out_map, np.unique(out_map[out_map > 0], return_counts=True)[1][np.argsort(size_list)][::-1]""")],
demo=H+'''
from tools21cm.Friends_of_Friends import FoF_search
a = np.array([1, 0, 1, 1, 1, 0, 1, 1])
m, s = FoF_search(a, 0.5)
for i, n in enumerate(s): assert (m == i + 1).sum() == n, (m, s)
''', needs="two groups that are not found in order of decreasing size", breaks="the size list no longer belongs to label 1, 2, ..."),
dict(id="watershed-border", property="P04", edits=[("bubble_stats.py",
"""	labels = _watershed(mask, h=h)
	uniq   = np.unique(labels[labels>0], return_counts=1)""",
"""	labels = _watershed(mask, h=h)
	inner  = labels[tuple(slice(2, n) for n in labels.shape)]
	uniq   = np.unique(inner[inner>0], return_counts=1)""")],
demo=H+'''
from tools21cm.bubble_stats import watershed_bsd
d = np.zeros((16, 16)); d[0:5, 0:5] = 1; d[10:13, 10:13] = 1
r, rdp, dp = quiet(watershed_bsd, d, boxsize=16.)
want = np.sort(np.cbrt(3*np.array([9, 25])/4/np.pi))
got = r[dp > 0]
assert np.array_equal(got, np.round(want)), (got, want)
''', needs="a region touching the border of the box whose radius bin changes without its border cells", breaks="cells on the border of the box are not counted in the region volumes"),
dict(id="snr-order", property="P05", edits=[("superpixels.py",
"""	n_pix  = n_pix[sorts]
""",
"""	n_pix  = n_pix[np.argsort(sorts)]
""")],
demo=H+'''
from tools21cm import superpixels as sp
d = np.array([3., 3., 3., 1., 2., 2.]).reshape(1, 2, 3)+np.array([.1,-.1]*3).reshape(1,2,3); l = np.array([0, 0, 0, 1, 2, 2]).reshape(1, 2, 3)
snr, m, s, n = quiet(sp.get_superpixel_SNRs, data=d, labels=l)
assert list(n) == [1, 2, 3], n
''', needs="three or more superpixels whose mean order is a cyclic permutation", breaks="the pixel counts are in another order than the means"),
dict(id="tta-flip-order", property="P06", edits=[("segmentation.py",
"            X_tta[itta] = opt(np.rot90(X_tta[itta], k=-rot, axes=ax_tup))", "            X_tta[itta] = np.rot90(opt(X_tta[itta]), k=-rot, axes=ax_tup)")],
demo=H+'''
from tools21cm.segmentation import segunet21cm
class M:
    def predict(self, X, verbose=0): return X
s = quiet(segunet21cm, tta=2); s.MODEL_LOADED = M()
x = (np.arange(27).reshape(3, 3, 3) % 5 > 2) * 1.
a, b = quiet(s.prediction, x)
assert np.array_equal(a, x) and np.allclose(b, 0)
''', needs="test-time augmentation (tta=2) and an operation combining a flip and a 90 degree rotation", breaks="predictions are averaged in wrong orientations"),
]
