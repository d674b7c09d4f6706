From 35afeaf20671515a499b646c1dcc8b4a1672c371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 001/150] fix: FoF_search returned an empty map (exhausted
 iterator) and used an asynchronous queue as a FIFO

---
 src/tools21cm/Friends_of_Friends.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/Friends_of_Friends.py b/src/tools21cm/Friends_of_Friends.py
index f1c6100..0f8e8bc 100755
--- a/src/tools21cm/Friends_of_Friends.py
+++ b/src/tools21cm/Friends_of_Friends.py
@@ -11,7 +11,7 @@ sizes_list = ast.literal_eval(sizes_string)
 import numpy as np
 from itertools import count
 #from Queue import Queue
-from multiprocessing import Queue
+from queue import Queue
 
 
 def FoF_search(array, threshold):
@@ -29,7 +29,7 @@ def FoF_search(array, threshold):
                 yield tuple(new_coordinate)
 
     out_map = np.zeros(array.shape, dtype=int)   # creates an array with the same shape as the input search array
-    possibilities = zip(*np.where(array > threshold))  # creates a list of indices of points above the threshold
+    possibilities = list(zip(*np.where(array > threshold)))  # creates a list of indices of points above the threshold
     poss_set = set(possibilities)
     
     def recursive_search(point, current_group, currentsize):     # function to calculate group membership of a point
-- 
2.43.0


From d9709590284c9de4068943ca2a0510bfc14716cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 002/150] fix: fof dropped the first region's size when no cell
 is below the threshold

---
 src/tools21cm/bubble_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index 59e10b1..f1821eb 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -40,7 +40,7 @@ def fof(data, xth=0.5, connectivity=1):
 		from skimage import morphology
 		out_map = morphology.label(data, connectivity=connectivity)
 		elements, size_list = np.unique(out_map, return_counts=True)
-		size_list = size_list[1:]
+		size_list = size_list[elements>0]
 	else: out_map, size_list = FoF_search(data, xth)
 	t2 = datetime.datetime.now()
 	runtime = (t2-t1).total_seconds()/60
-- 
2.43.0


From 4d7171fe99c70ff3fe0736cb61985c52bce1fa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 003/150] fix: mean-free-path methods crashed on fields without
 region of interest when the threshold exceeds 1

---
 src/tools21cm/bubble_stats.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index f1821eb..e619260 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -133,7 +133,7 @@ def mfp(data, xth=0.5, boxsize=None, iterations=10000000, verbose=True, upper_li
 	if verbose:
 		print(f'{check_box}/{data.size} cells are marked as region of interest (ROI).')
 	if check_box==0:
-		data = np.ones(data.shape)
+		data = np.full(data.shape, xth, dtype=float)
 		iterations = 3
 	if dim == 2:
 		if verbose: print("MFP method applied on 2D data.")
@@ -207,7 +207,7 @@ def averaged_mfp(data, xth=0.5, boxsize=None, iterations=10000000, rays_per_poin
 		xth  = -1.*xth
 	check_box = (data>=xth).sum()
 	if check_box==0:
-		data = np.ones(data.shape)
+		data = np.full(data.shape, xth, dtype=float)
 		iterations = 3
 	if dim == 3:
 		ar = np.zeros_like(data)
@@ -296,7 +296,7 @@ def mfp_from_point(data, point, xth=0.5, boxsize=None, iterations=10000000, verb
 		xth  = -1.*xth
 	check_box = (data>=xth).sum()
 	if check_box==0:
-		data = np.ones(data.shape)
+		data = np.full(data.shape, xth, dtype=float)
 		iterations = 3
 	if dim == 2:
 		print("MFP method applied on 2D data")
-- 
2.43.0


From 5b37afdf8234064fdf2f250ff0b1caaef541c53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 004/150] fix: granulometry and watershed used numpy aliases
 removed in numpy 1.24

---
 src/tools21cm/bubble_stats.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index e619260..d303a55 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -418,7 +418,7 @@ def disk_structure(n):
     x, y, z = np.indices((2*n+1, 2*n+1, 2*n+1))
     mask = (x - n)**2 + (y - n)**2 + (z - n)**2 <= n**2
     struct[mask] = 1
-    return struct.astype(np.bool)
+    return struct.astype(bool)
 
 
 def granulometry_CDF(data, sizes=None, verbose=True, n_jobs=1):
@@ -498,18 +498,18 @@ def _granulometry(data, n_jobs=1, verbose=True):
         x, y = np.indices((2 * n + 1, 2 * n + 1))
         mask = (x - n)**2 + (y - n)**2 <= n**2
         struct[mask] = 1
-        return struct.astype(np.bool)
+        return struct.astype(bool)
     def ball(n):
         struct = np.zeros((2*n+1, 2*n+1, 2*n+1))
         x, y, z = np.indices((2*n+1, 2*n+1, 2*n+1))
         mask = (x - n)**2 + (y - n)**2 + (z - n)**2 <= n**2
         struct[mask] = 1
-        return struct.astype(np.bool)
+        return struct.astype(bool)
 
     s = max(data.shape)
     dim   = data.ndim
-    pixel = range(np.int(s/2))
-    area0 = np.float(data.sum())
+    pixel = range(int(s/2))
+    area0 = float(data.sum())
     area  = np.zeros_like(pixel)
 
     def func(n):
@@ -612,7 +612,7 @@ def watershed_bsd(data, xth=0.5, boxsize=None, verbose=True, upper_lim=False, h=
 	labels = _watershed(mask, h=h)
 	uniq   = np.unique(labels[labels>0], return_counts=1)
 	r_list = np.cbrt(3*uniq[0]/4/np.pi)
-	r_pixl = np.arange(0, np.int(r_list.max()+2), 1)-0.5 
+	r_pixl = np.arange(0, int(r_list.max()+2), 1)-0.5 
 	
 	ht = np.histogram(r_list, bins=r_pixl)
 	dFdR, R = ht[0]/ht[0].sum(), ht[1][1:]/2+ht[1][:-1]/2
-- 
2.43.0


From b19928bb36e03e20e4193a6ed92bfc55298d615d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 005/150] fix: watershed_bsd used region labels instead of
 region volumes as sizes

---
 src/tools21cm/bubble_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index d303a55..59edad3 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -611,7 +611,7 @@ def watershed_bsd(data, xth=0.5, boxsize=None, verbose=True, upper_lim=False, h=
 	if n_jobs>1: print('Parallelization not implemented yet.')
 	labels = _watershed(mask, h=h)
 	uniq   = np.unique(labels[labels>0], return_counts=1)
-	r_list = np.cbrt(3*uniq[0]/4/np.pi)
+	r_list = np.cbrt(3*uniq[1]/4/np.pi)
 	r_pixl = np.arange(0, int(r_list.max()+2), 1)-0.5 
 	
 	ht = np.histogram(r_list, bins=r_pixl)
-- 
2.43.0


From dcd93f565378001c15ebf0a0e69a33f5792f1e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 006/150] fix: mfp_from_point rejected a point given as ndarray

---
 src/tools21cm/mfp_np.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/mfp_np.py b/src/tools21cm/mfp_np.py
index 845bb60..f6aead0 100755
--- a/src/tools21cm/mfp_np.py
+++ b/src/tools21cm/mfp_np.py
@@ -75,7 +75,7 @@ def mfp3d(arr, xth=0.5, iterations=10000000, verbose=True, point='random'):
     ms = sin_thetas * sin_phis
     ns = cos_thetas
 
-    if point == 'random':
+    if isinstance(point, str) and point == 'random':
         loc = np.argwhere(ar == 1)
         rand_loc = np.random.randint(0, high=loc.shape[0], size=iterations)
         xs, ys, zs = loc[rand_loc, 0], loc[rand_loc, 1], loc[rand_loc, 2]
@@ -112,7 +112,7 @@ def mfp2d(arr, xth=0.5, iterations=1000000, verbose=True, point='random'):
     ls = sin_thetas
     ms = cos_thetas
 
-    if point == 'random':
+    if isinstance(point, str) and point == 'random':
         loc = np.argwhere(ar == 1)
         rand_loc = np.random.randint(0, high=loc.shape[0], size=iterations)
         xs, ys = loc[rand_loc, 0], loc[rand_loc, 1]
-- 
2.43.0


From a03ee5c04dccc24895292d8276302254a6a51c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 007/150] fix: binary_stitch ignored a threshold of zero

---
 src/tools21cm/superpixels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index 457c0c8..8443710 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -39,7 +39,7 @@ def binary_stitch(data, labels, stitch='mean', thres=None):
 	X1 = data.reshape(-1,1)
 	y  = labels.reshape(-1,1)
 	y1 = [X1[y==i].mean() for i in np.unique(y)]
-	if not thres:
+	if thres is None:
 		if stitch=='otsu': thres = threshold_otsu(np.array(y1))
 		else: thres = X1.mean()
 	y2 = np.zeros(y.shape)
-- 
2.43.0


From be8873d4d91ff3830a1170174e4ce07395d731e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 008/150] fix: get_superpixel_SNRs(pixels=True) indexed a list
 with an array

---
 src/tools21cm/superpixels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index 8443710..da3ad8b 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -177,7 +177,7 @@ def get_superpixel_SNRs(means=None, sigmas=None, n_pix=None, data=None, labels=N
 	means  = means[sorts]
 	if pixels:
 		pxls = get_superpixel_pixels(data=data, labels=labels, slic_segments=slic_segments)
-		pxls = pxls[sorts]
+		pxls = [pxls[i] for i in sorts]
 		return means/sigmas, means, sigmas, n_pix, pxls
 	return means/sigmas, means, sigmas, n_pix
 
-- 
2.43.0


From ddd65803671f4872ff54b219b62d63950c545115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:02 +0000
Subject: [PATCH 009/150] fix: watershed_bsd histogram range excluded the
 largest regions

---
 src/tools21cm/bubble_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index 59edad3..3a607a3 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -612,7 +612,7 @@ def watershed_bsd(data, xth=0.5, boxsize=None, verbose=True, upper_lim=False, h=
 	labels = _watershed(mask, h=h)
 	uniq   = np.unique(labels[labels>0], return_counts=1)
 	r_list = np.cbrt(3*uniq[1]/4/np.pi)
-	r_pixl = np.arange(0, int(r_list.max()+2), 1)-0.5 
+	r_pixl = np.arange(0, int(r_list.max()+3), 1)-0.5 
 	
 	ht = np.histogram(r_list, bins=r_pixl)
 	dFdR, R = ht[0]/ht[0].sum(), ht[1][1:]/2+ht[1][:-1]/2
-- 
2.43.0


From 9c68b7be99725dd1e7a7114f9f1e16ef13dd563a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:05 +0000
Subject: [PATCH 010/150] fix: morphological opening was not an opening for
 asymmetric structures, and its documented default structure crashed

---
 src/tools21cm/morph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/morph.py b/src/tools21cm/morph.py
index 21b5baf..a0794f9 100755
--- a/src/tools21cm/morph.py
+++ b/src/tools21cm/morph.py
@@ -1,5 +1,6 @@
 import numpy as np 
 from scipy.signal import fftconvolve
+from scipy.ndimage import generate_binary_structure
 
 """
 This script contains dilation and erosion implementations described in the following link.
@@ -23,7 +24,8 @@ def _erode_v1(A,B,R):
 
 def _erode_v2(A,B):
     thresh = np.count_nonzero(B)-0.5
-    return fftconvolve(A,B,'same') > thresh
+    # B is reflected: a cell survives if the structure placed on it fits inside A
+    return fftconvolve(A,np.flip(B),'same') > thresh
 
 
 def binary_opening(image, structure=None):
@@ -46,6 +48,7 @@ def binary_opening(image, structure=None):
     opening : ndarray of bool
         The result of the morphological opening.
     """
+    if structure is None: structure = generate_binary_structure(np.ndim(image), 1)
     eroded = binary_erosion(image, structure)
     out = binary_dilation(eroded, structure)
     # eroded = erode_v2(image, structure)
-- 
2.43.0


From 1f954735166bdcb710614b010693183c96ca67dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:12 +0000
Subject: [PATCH 011/150] fix: stitch_using_histogram crashed when the only
 peak is in the first bin

---
 src/tools21cm/superpixels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index da3ad8b..c8e7088 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -81,7 +81,7 @@ def stitch_using_histogram(data, mns, labels, bins='knuth', binary=True, on_supe
 	ht  = histogram(mns, bins=bins)
 	if ht[0].argmax()==0: peaks = argrelextrema(np.hstack((0,ht[0])), np.greater)[0]
 	else: peaks = argrelextrema(ht[0], np.greater)[0]
-	if peaks.size==1:
+	if peaks.size==1 and ht[0].argmax()>0:
 		x1,y1 = ht[1][0], ht[0][0]
 		y0 = ht[0].max()
 		bla = ht[0].argmax()
-- 
2.43.0


From e8640fe3c29ea8fc6bd5fdbea9180c63aab42273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:25 +0000
Subject: [PATCH 012/150] fix: slic_cube treated the last axis of a cube as
 colour channels with current scikit-image

---
 src/tools21cm/superpixels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index c8e7088..e76b6bf 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -25,7 +25,7 @@ def slic_cube(cube, n_segments=5000, compactness=0.1,
 	except: 
 		labels = slic(cube, n_segments=n_segments, compactness=compactness, 
 					  max_num_iter=max_iter, sigma=sigma, max_size_factor=max_size_factor, 
-					  slic_zero=True, start_label=0)
+					  slic_zero=True, channel_axis=-1 if multichannel else None, start_label=0)
 	if verbose: print("The output contains the labels with %d segments"%(labels.max()+1))
 	return labels
 
-- 
2.43.0


From e7fbae5066b68a33b74c9985a38d2be74abe9265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 013/150] fix: the ball kernel of the sliding box count was a
 cylinder

---
 src/tools21cm/box_counting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/box_counting.py b/src/tools21cm/box_counting.py
index 8ecb740..7686123 100755
--- a/src/tools21cm/box_counting.py
+++ b/src/tools21cm/box_counting.py
@@ -15,11 +15,11 @@ def get_kernel(size, window):
 		kern = np.zeros((size, size, size))
 		if size % 2 == 0:
 			size = int(size/2)
-			x,y = np.mgrid[-size:size, -size:size]
+			x,y,z = np.mgrid[-size:size, -size:size, -size:size]
 		else:
 			size = int(size/2)
-			x,y = np.mgrid[-size:size+1, -size:size+1]
-		kern[x**2+y**2<=size**2] = 1
+			x,y,z = np.mgrid[-size:size+1, -size:size+1, -size:size+1]
+		kern[x**2+y**2+z**2<=size**2] = 1
 	return kern/kern.sum()
 
 def Renyi_diemsnions(data, q):
-- 
2.43.0


From c5e9911aa12b083a764f49bb6475d07bf744e95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:17 +0000
Subject: [PATCH 014/150] fix: watershed lost regions whose distance peak lies
 on the border of the box

---
 src/tools21cm/bubble_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index 3a607a3..0475c48 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -558,7 +558,7 @@ def _watershed(image, h=None, threshold_rel=None, footprint=None, verbose=True):
 	if h is not None: distance1 = h_transform(distance, h, verbose=verbose)
 	if footprint is None: footprint = np.ones((3, 3)) if image.ndim==2 else np.ones((3,3,3))
 	if verbose: print('Finding watersheds...')
-	coords = peak_local_max(distance if h is None else distance1, footprint=footprint, labels=image, threshold_rel=threshold_rel)
+	coords = peak_local_max(distance if h is None else distance1, footprint=footprint, labels=image, threshold_rel=threshold_rel, exclude_border=False)
 	mask = np.zeros(distance.shape, dtype=bool)
 	mask[tuple(coords.T)] = True
 	markers, _ = ndimage.label(mask)
-- 
2.43.0


From 996bd5a66a382a656e3483c36f81a02c251e3470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:04 +0000
Subject: [PATCH 015/150] fix: apply_window overwrote the caller's data and
 rejected the documented array windows

---
 src/tools21cm/power_spectrum.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 2faaa86..a222af8 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -12,13 +12,12 @@ from scipy import fftpack, stats
 def apply_window(input_array, window):
     if window is None: return input_array
     from scipy.signal import windows
+    if not isinstance(window, str): return input_array*window
     if window.lower()=='blackmanharris':
-            input_array *= windows.blackmanharris(input_array.shape[-1])[None,None,:]
+            return input_array*windows.blackmanharris(input_array.shape[-1])[None,None,:]
     elif window.lower()=='tukey':
-            input_array *= windows.tukey(input_array.shape[-1])[None,None,:]
-    else:
-            input_array *= window
-    return input_array
+            return input_array*windows.tukey(input_array.shape[-1])[None,None,:]
+    raise ValueError('Unknown window: %s' % window)
 
 
 def power_spectrum_nd(input_array, box_dims=None, verbose=False, **kwargs):
-- 
2.43.0


From c1fe10c46f3fe6685a9e744b25f8f8e083f355dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:04 +0000
Subject: [PATCH 016/150] fix: box_dims given as numpy array, float or None was
 rejected by several power spectrum functions

---
 src/tools21cm/power_spectrum.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index a222af8..80c83a8 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -117,6 +117,7 @@ def radial_average(input_array, box_dims, kbins=10, binning='log', breakpoint=0.
         '''
 
         if kwargs.get('boxsize') is not None: box_dims = kwargs.get('boxsize')
+        box_dims = _get_dims(box_dims, input_array.shape)
         k_comp, k = _get_k(input_array, box_dims)
         kbins = _get_kbins(kbins, box_dims, k, binning=binning, breakpoint=breakpoint)
         
@@ -386,6 +387,7 @@ def mu_binning(powerspectrum, los_axis = 0, mubins=20, kbins=10, box_dims=None,
                 powerspectrum *= weights
 
         assert(len(powerspectrum.shape)==3)
+        box_dims = _get_dims(box_dims, powerspectrum.shape)
 
         k_comp, k = _get_k(powerspectrum, box_dims)
 
@@ -439,7 +441,7 @@ def get_k(input_array, box_dims):
         
 def get_kbins(kbins, box_dims, k=None, array=None, binning='log'):
         assert k is not None or array is not None
-        box_dims = _get_dims(box_dims, array.shape)
+        box_dims = _get_dims(box_dims, k.shape if array is None else array.shape)
         if k is None: k_comp, k = _get_k(array, box_dims)
         return _get_kbins(kbins, box_dims, k, binning=binning)
 
@@ -526,7 +528,7 @@ def _get_dims(box_dims, ashape):
         size
         Otherwise, return as it is
         '''
-        if box_dims == None:
+        if box_dims is None:
                 return [conv.LB]*len(ashape)
         if not hasattr(box_dims, '__iter__'):
                 return [box_dims]*len(ashape)
-- 
2.43.0


From 1dcae3f5161164e3c98be8b74b87e8ac752c8912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:04 +0000
Subject: [PATCH 017/150] fix: wavenumbers of 1D and 2D power spectra were half
 a mode off for even sizes and negative in 1D

---
 src/tools21cm/power_spectrum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 80c83a8..a99dcae 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -456,12 +456,12 @@ def _get_k(input_array, box_dims):
     dim = len(input_array.shape)
     if dim == 1:
         x = np.arange(len(input_array))
-        center = x.max()/2.
+        center = len(x)//2
         kx = 2.*np.pi*(x-center)/box_dims[0]
-        return [kx], kx
+        return [kx], np.abs(kx)
     elif dim == 2:
         x,y = np.indices(input_array.shape, dtype='int32')
-        center = np.array([(x.max()-x.min())/2, (y.max()-y.min())/2])
+        center = np.array([input_array.shape[0]//2, input_array.shape[1]//2])
         kx = 2.*np.pi * (x-center[0])/box_dims[0]
         ky = 2.*np.pi * (y-center[1])/box_dims[1]
         k = np.sqrt(kx**2 + ky**2)
-- 
2.43.0


From eafd46a2c5481f19d9819f6dbb8bc89c80502e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:04 +0000
Subject: [PATCH 018/150] fix: rounding of the logarithmic k bins dropped the
 fundamental or corner modes for some box sizes

---
 src/tools21cm/power_spectrum.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index a99dcae..49accab 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -512,12 +512,15 @@ def _get_kbins(kbins, box_dims, k, binning='log', breakpoint=0.1, kmin=None, kma
                 kmin = 2.*np.pi/min(box_dims) if kmin is None else kmin
                 kmax = k.max() if kmax is None else kmax
                 if binning=='linear': kbins = np.linspace(kmin, kmax, kbins+1)
-                elif binning=='log': kbins = 10**np.linspace(np.log10(kmin), np.log10(kmax), kbins+1)
+                elif binning=='log':
+                        kbins = 10**np.linspace(np.log10(kmin), np.log10(kmax), kbins+1)
+                        # rounding must not push the lowest and highest modes out of the range
+                        kbins[0], kbins[-1] = kmin, kmax
                 else:
                         kbins_low  = np.linspace(kmin, kmax, kbins+1)
                         kbins_high = 10**np.linspace(np.log10(kmin), np.log10(kmax), kbins+1)
                         kbins = np.hstack((kbins_low[kbins_low<breakpoint],kbins_high[kbins_high>breakpoint]))          
-        return kbins
+        return np.asarray(kbins)
 
 
 def _get_dims(box_dims, ashape):
-- 
2.43.0


From f8cfa461561ab7a878bd19d593ab5a7696b77703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:04 +0000
Subject: [PATCH 019/150] fix: k_perp=0 modes were not excluded on grids with
 odd sizes

---
 src/tools21cm/power_spectrum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 49accab..d28ce76 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -570,11 +570,11 @@ def _get_nonzero_idx(ps_shape, los_axis):
         '''
         x,y,z = np.indices(ps_shape)
         if los_axis == 0:
-                zero_idx = (y == ps_shape[1]/2)*(z == ps_shape[2]/2)
+                zero_idx = (y == ps_shape[1]//2)*(z == ps_shape[2]//2)
         elif los_axis == 1:
-                zero_idx = (x == ps_shape[0]/2)*(z == ps_shape[2]/2)
+                zero_idx = (x == ps_shape[0]//2)*(z == ps_shape[2]//2)
         else:
-                zero_idx = (x == ps_shape[0]/2)*(y == ps_shape[1]/2)
+                zero_idx = (x == ps_shape[0]//2)*(y == ps_shape[1]//2)
         good_idx = np.invert(zero_idx)
         return good_idx
 
-- 
2.43.0


From 42d777463287cc2db85d594ffe9437cdac7df520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:04 +0000
Subject: [PATCH 020/150] fix: mu_binning changed its input, rejected weights,
 and lost modes with mu=1, with k at the last edge or with k<0.001

---
 src/tools21cm/power_spectrum.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index d28ce76..786d18d 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -383,8 +383,7 @@ def mu_binning(powerspectrum, los_axis = 0, mubins=20, kbins=10, box_dims=None,
         This function is for internal use only.
         '''
         
-        if weights != None:
-                powerspectrum *= weights
+        powerspectrum = powerspectrum.copy() if weights is None else powerspectrum*weights
 
         assert(len(powerspectrum.shape)==3)
         box_dims = _get_dims(box_dims, powerspectrum.shape)
@@ -422,15 +421,15 @@ def mu_binning(powerspectrum, los_axis = 0, mubins=20, kbins=10, box_dims=None,
                 print_msg('Bin %d of %d' % (ki, n_kbins))
                 kmin = kbins[ki]
                 kmax = kbins[ki+1]
-                kidx = (k >= kmin) & (k < kmax)
+                kidx = (k >= kmin) & ((k < kmax) | ((ki == n_kbins-1) & (k == kmax)))
                 kidx = kidx*good_idx
                 for i in range(n_mubins):
                         mu_min = mubins[i]
                         mu_max = mubins[i+1]
-                        idx = (mu >= mu_min) & (mu < mu_max) & kidx.astype(bool)
+                        idx = (mu >= mu_min) & ((mu < mu_max) | ((i == n_mubins-1) & (mu == mu_max))) & kidx.astype(bool)
                         outdata[i,ki] = np.mean(powerspectrum[idx])
                         n_modes[i,ki] = np.size(powerspectrum[idx])
-                        if weights != None:
+                        if weights is not None:
                                 outdata[i,ki] /= weights[idx].mean()
 
         return outdata, mubins[:-1]+dmu, kbins[:-1]+dk, n_modes
@@ -498,7 +497,7 @@ def _get_mu(k_comp, k, los_axis, absolute_mus):
 
         #mu=cos(theta) = k_par/k
         mu = np.abs(los_dist/k) if absolute_mus else los_dist/np.abs(k)
-        mu[np.where(k < 0.001)] = np.nan
+        mu[np.where(k == 0)] = np.nan
         
         return mu
 
-- 
2.43.0


From f30eb6aca3e34b4ca71f233dbefeb17417a5eafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:04 +0000
Subject: [PATCH 021/150] fix: power_spectrum_2d rejected the documented list
 of two bin numbers

---
 src/tools21cm/power_spectrum.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 786d18d..c2451d2 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -207,11 +207,9 @@ def power_spectrum_2d(input_array, kbins=10, binning='log', box_dims=244/.7, ret
         '''
         input_array = apply_window(input_array, window)
         
-        if type(kbins) == list:
-                binning = None
-        elif np.array(kbins).size==1: 
+        if not hasattr(kbins, '__iter__'):
                 kbins = [kbins, kbins]
-        elif not isinstance(kbins[0], int): 
+        elif not all(isinstance(kb, (int, np.integer)) for kb in kbins):
                 binning = None
 
         if kwargs.get('boxsize') is not None: box_dims = kwargs.get('boxsize')
-- 
2.43.0


From cfb145064db7619a62ab86ae907a98bc9a42ab37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:04 +0000
Subject: [PATCH 022/150] fix: anisotropy_ratio_r_mu crashed with
 return_n_modes=True

---
 src/tools21cm/power_spectrum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index c2451d2..5fdd87e 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -606,10 +606,11 @@ def anisotropy_ratio_r_mu(input_array, los_axis=0, mu_cut=0.5, mubins=20, kbins=
             kbins is an array with the k bin centers.
 
     '''
-    Pk, mubins, kbins = power_spectrum_mu(input_array, los_axis=los_axis, mubins=mubins, kbins=kbins, box_dims=box_dims, weights=weights, exclude_zero_modes=exclude_zero_modes, return_n_modes=return_n_modes, absolute_mus=absolute_mus, **kwargs)
+    Pk, mubins, kbins, n_modes = power_spectrum_mu(input_array, los_axis=los_axis, mubins=mubins, kbins=kbins, box_dims=box_dims, weights=weights, exclude_zero_modes=exclude_zero_modes, return_n_modes=True, absolute_mus=absolute_mus, **kwargs)
     Pup = Pk[mubins>=mu_cut,:]
     Pdn = Pk[mubins<mu_cut,:]
     rup = np.array([pp[np.isfinite(pp)].mean() for pp in Pup.T])
     rdn = np.array([pp[np.isfinite(pp)].mean() for pp in Pdn.T])     
     rmu = rup/rdn-1.0
+    if return_n_modes: return rmu, kbins, n_modes.sum(axis=0)
     return rmu, kbins
\ No newline at end of file
-- 
2.43.0


From b23ee4cfce071d3c9e3794b21c76b0c4de536070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:04 +0000
Subject: [PATCH 023/150] fix: dimensionless_ps crashed when rounding put the
 last k outside the interpolation range

---
 src/tools21cm/power_spectrum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 5fdd87e..e70300a 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -559,6 +559,7 @@ def dimensionless_ps(data, kbins=100, box_dims=None, binning='log', factor=10):
         Pk, ks = power_spectrum_1d(data, kbins=kbins*factor, box_dims=box_dims, binning=binning)
         f_Dlta = interp1d(ks, Pk*ks**3/2/np.pi**2)
         knew   = 10**np.linspace(np.log10(ks[1]),np.log10(ks[-1]), kbins) if binning=='log' else np.linspace(ks[1],ks[-1], kbins)
+        knew   = np.clip(knew, ks[1], ks[-1])
         return f_Dlta(knew), knew
 
 def _get_nonzero_idx(ps_shape, los_axis):
-- 
2.43.0


From e8f88d6cc9291650c0bfc651d732ceb390beb6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:04 +0000
Subject: [PATCH 024/150] fix: power_spectrum_multipoles crashed and counted
 dimensions instead of modes

---
 src/tools21cm/power_legendre.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/power_legendre.py b/src/tools21cm/power_legendre.py
index d3fc984..03236e1 100755
--- a/src/tools21cm/power_legendre.py
+++ b/src/tools21cm/power_legendre.py
@@ -44,7 +44,7 @@ def power_spectrum_multipoles(input_array, kbins = 10, box_dims = None,\
     k_comp, k = _get_k(input_array, box_dims)
     kbins = _get_kbins(kbins, box_dims, k)
     dk = (kbins[1:]-kbins[:-1])/2.
-    mu = _get_mu(k_comp, k, los_axis)
+    mu = _get_mu(k_comp, k, los_axis, absolute_mus=True)
     
     #Exclude k_perp = 0 modes
     if exclude_zero_modes:
@@ -75,9 +75,9 @@ def power_spectrum_multipoles(input_array, kbins = 10, box_dims = None,\
     for i in range(n_kbins):
         kmin = kbins[i]
         kmax = kbins[i+1]
-        idx = get_eval()('(k >= kmin) & (k < kmax)')
-        idx *= good_idx
-        nmodes[i] = len(np.nonzero(idx))
+        idx = (k >= kmin) & ((k < kmax) | ((i == n_kbins-1) & (k == kmax)))
+        idx = idx & good_idx.astype(bool)
+        nmodes[i] = np.count_nonzero(idx)
         if 'P0' in output:
             multipoles['P0'][i] = np.sum(ps[idx]*P0[idx])/np.sum(P0[idx]**2)
         if 'P2' in output:
-- 
2.43.0


From 02b284bbac871cb9c1f50569bbb580203fcf75a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:41 +0000
Subject: [PATCH 025/150] fix: rounding of the mixed k bins dropped the corner
 modes for some box sizes

---
 src/tools21cm/power_spectrum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index e70300a..330af09 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -516,6 +516,7 @@ def _get_kbins(kbins, box_dims, k, binning='log', breakpoint=0.1, kmin=None, kma
                 else:
                         kbins_low  = np.linspace(kmin, kmax, kbins+1)
                         kbins_high = 10**np.linspace(np.log10(kmin), np.log10(kmax), kbins+1)
+                        kbins_high[0], kbins_high[-1] = kmin, kmax
                         kbins = np.hstack((kbins_low[kbins_low<breakpoint],kbins_high[kbins_high>breakpoint]))          
         return np.asarray(kbins)
 
-- 
2.43.0


From 9a178c1ab22f547c61d1c35027899e59ceeaf52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:47 +0000
Subject: [PATCH 026/150] fix: Bispectrum methods crashed and ignored the box
 size of the object

---
 src/tools21cm/bispectrum.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/bispectrum.py b/src/tools21cm/bispectrum.py
index 71d0c26..9501be8 100755
--- a/src/tools21cm/bispectrum.py
+++ b/src/tools21cm/bispectrum.py
@@ -109,8 +109,9 @@ class Bispectrum:
                     ):
         tstart = time()
         input_array_nd = self.input_array.astype(np.float64)
-        input_array = apply_window(input_array, window)
+        input_array_nd = apply_window(input_array_nd, window)
 
+        if box_dims is None: box_dims = self.box_dims
         box_dims, box_dims_input  = _get_dims(box_dims, input_array_nd.shape), box_dims
         if verbose and box_dims_input is None: print(f'box_dims set to {box_dims} Mpc')
         
@@ -165,8 +166,9 @@ class Bispectrum:
                     ):
         tstart = time()
         input_array_nd = self.input_array.astype(np.float64)
-        input_array = apply_window(input_array, window)
+        input_array_nd = apply_window(input_array_nd, window)
 
+        if box_dims is None: box_dims = self.box_dims
         box_dims, box_dims_input  = _get_dims(box_dims, input_array_nd.shape), box_dims
         if verbose and box_dims_input is None: print(f'box_dims set to {box_dims} Mpc')
         
-- 
2.43.0


From 5b1e447016141879c3383fa933a0fceb7ec6d590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:47 +0000
Subject: [PATCH 027/150] fix: bispectrum was wrong on grids with odd sizes

---
 src/tools21cm/bispectrum.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tools21cm/bispectrum.py b/src/tools21cm/bispectrum.py
index 9501be8..ed4aa3d 100755
--- a/src/tools21cm/bispectrum.py
+++ b/src/tools21cm/bispectrum.py
@@ -69,16 +69,16 @@ class Bispectrum:
         
         shell1 = self.spherical_shell_mask(input_array_fft.shape, k1, dk1, k_mag=k_mag)
         dfft1  = input_array_fft*shell1
-        s1     = np.fft.ifftn(np.fft.fftshift(shell1))
-        d1     = np.fft.ifftn(np.fft.fftshift(dfft1))
+        s1     = np.fft.ifftn(np.fft.ifftshift(shell1))
+        d1     = np.fft.ifftn(np.fft.ifftshift(dfft1))
         
         if k2==k1: 
             s2, d2 = s1, d1
         else: 
             shell2 = self.spherical_shell_mask(input_array_fft.shape, k2, dk2, k_mag=k_mag)
             dfft2  = input_array_fft*shell2
-            s2     = np.fft.ifftn(np.fft.fftshift(shell2))
-            d2     = np.fft.ifftn(np.fft.fftshift(dfft2))
+            s2     = np.fft.ifftn(np.fft.ifftshift(shell2))
+            d2     = np.fft.ifftn(np.fft.ifftshift(dfft2))
             
         if k3==k1: 
             s3, d3 = s1, d1
@@ -87,8 +87,8 @@ class Bispectrum:
         else: 
             shell3 = self.spherical_shell_mask(input_array_fft.shape, k3, dk3, k_mag=k_mag)
             dfft3  = input_array_fft*shell3
-            s3     = np.fft.ifftn(np.fft.fftshift(shell3))
-            d3     = np.fft.ifftn(np.fft.fftshift(dfft3))
+            s3     = np.fft.ifftn(np.fft.ifftshift(shell3))
+            d3     = np.fft.ifftn(np.fft.ifftshift(dfft3))
             
         d123 = np.real(d1*d2*d3)
         s123 = np.real(s1*s2*s3)
-- 
2.43.0


From e37604b037807e39934461e173c2d2717dec6ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:47 +0000
Subject: [PATCH 028/150] fix: spherical_shell_mask used k squared as k

---
 src/tools21cm/bispectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/bispectrum.py b/src/tools21cm/bispectrum.py
index ed4aa3d..b6cc6ea 100755
--- a/src/tools21cm/bispectrum.py
+++ b/src/tools21cm/bispectrum.py
@@ -46,7 +46,7 @@ class Bispectrum:
          
     def spherical_shell_mask(self, array_shape, k_center, k_width, k_comp=None, k_mag=None):
         assert k_comp is not None or k_mag is not None
-        if k_mag is None: k_mag = np.sum(np.array(k_comp)**2, axis=0)
+        if k_mag is None: k_mag = np.sqrt(np.sum(np.array(k_comp)**2, axis=0))
         try: out = np.zeros(array_shape)
         except: out = np.zeros((array_shape[0],array_shape[1],array_shape[2]))
         out[np.abs(k_mag-k_center)<k_width/2] = 1
-- 
2.43.0


From 088dd2072e98c525283ef6dfbb1544d52dec90ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:47 +0000
Subject: [PATCH 029/150] fix: bispectrum_k measured the bin edges but reported
 the bin centres

---
 src/tools21cm/bispectrum.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/bispectrum.py b/src/tools21cm/bispectrum.py
index b6cc6ea..18ccb60 100755
--- a/src/tools21cm/bispectrum.py
+++ b/src/tools21cm/bispectrum.py
@@ -177,10 +177,11 @@ class Bispectrum:
         if verbose: print('FFT of data done')
 
         kbins = _get_kbins(n_bins, box_dims, k_mag, binning=binning, kmax=k_mag.max()/2, kmin=None)
-        dk = dk*np.ones_like(kbins) if isinstance(dk,float) else dk
+        kcen = kbins[1:]/2+kbins[:-1]/2
+        dk = dk*np.ones_like(kcen) if np.ndim(dk)==0 else dk
         
         def run_loop(i):
-            k1 = kbins[i]
+            k1 = kcen[i]
             dk1 = dk[i]
             b123 = self.bispectrum_fast(input_array_fft,
                             k1, k1, k1,
@@ -200,7 +201,7 @@ class Bispectrum:
         
         out_dict = {
             'B': B_list,
-            'k': kbins[1:]/2+kbins[:-1]/2, 
+            'k': kcen, 
             }
         
         if verbose: print(f'...done | Runtime: {time()-tstart:.3f} s')
-- 
2.43.0


From 017748c86d6b5403068d8f1c3b45e27e46535a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:50 +0000
Subject: [PATCH 030/150] fix: Gaussian random fields and phase shuffled fields
 put the power on the wrong modes on grids with odd sizes

---
 src/tools21cm/gaussian_random_field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/gaussian_random_field.py b/src/tools21cm/gaussian_random_field.py
index 2188938..dfb8cc8 100755
--- a/src/tools21cm/gaussian_random_field.py
+++ b/src/tools21cm/gaussian_random_field.py
@@ -55,7 +55,7 @@ def make_gaussian_random_field(dims, box_dims, power_spectrum, random_seed=None)
     map_ft *= np.sqrt(power_spectrum(k)/scale_factor)
     
     #Inverse FT
-    map_ift = fftpack.ifftn(fftpack.fftshift(map_ft))
+    map_ift = fftpack.ifftn(fftpack.ifftshift(map_ft))
     
     #Return real part
     map_real = np.real(map_ift)
@@ -117,5 +117,5 @@ def fourier_phase_shuffled(input_array, **kwargs):
     ft_phi = np.angle(ft)
     np.random.shuffle(ft_phi)
     ft_new = ft_abs*np.exp(1j * ft_phi)
-    output_array = np.real(fftpack.ifftn(fftpack.fftshift(ft_new)))
+    output_array = np.real(fftpack.ifftn(fftpack.ifftshift(ft_new)))
     return output_array
\ No newline at end of file
-- 
2.43.0


From 283a8ac7cd627ad8513db29ad79d9de07f741adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 031/150] fix: circular convolution with an odd-sized kernel
 shifted the result by one cell

---
 src/tools21cm/fft_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/fft_functions.py b/src/tools21cm/fft_functions.py
index 11b752c..d5758b5 100644
--- a/src/tools21cm/fft_functions.py
+++ b/src/tools21cm/fft_functions.py
@@ -107,7 +107,7 @@ def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', dev
             ret = torch_fft.ifftn(f1 * f2, s=fsize, dim=calc_axes)
 
         if boundary == 'circular':
-            return torch.roll(ret, shifts=tuple((-s2 // 2).tolist()), dims=calc_axes)
+            return torch.roll(ret, shifts=tuple((-(s2 // 2)).tolist()), dims=calc_axes)
 
     # --- 3. JAX Backend ---
     elif backend == 'jax':
@@ -132,7 +132,7 @@ def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', dev
             ret = jnp.fft.ifftn(f1 * f2, s=fsize, axes=calc_axes)
 
         if boundary == 'circular':
-            return jnp.roll(ret, shift=tuple((-s2 // 2).tolist()), axis=calc_axes)
+            return jnp.roll(ret, shift=tuple((-(s2 // 2)).tolist()), axis=calc_axes)
 
     # --- 4. NumPy Backend ---
     elif backend == 'numpy':
@@ -154,7 +154,7 @@ def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', dev
             ret = np.fft.ifftn(f1 * f2, s=fsize, axes=calc_axes)
 
         if boundary == 'circular':
-            return np.roll(ret, shift=tuple((-s2 // 2).tolist()), axis=calc_axes)
+            return np.roll(ret, shift=tuple((-(s2 // 2)).tolist()), axis=calc_axes)
 
     # --- 5. Cropping Logic (Applies to all backends) ---
     if do_pad:
-- 
2.43.0


From bc113241c7241d89e46b1cf9a2f00f8947929105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 032/150] fix: padded convolution with an even-sized kernel was
 shifted by one cell with respect to the other boundary modes

---
 src/tools21cm/fft_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/fft_functions.py b/src/tools21cm/fft_functions.py
index d5758b5..bd48baf 100644
--- a/src/tools21cm/fft_functions.py
+++ b/src/tools21cm/fft_functions.py
@@ -71,8 +71,8 @@ def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', dev
         do_pad = False
     else: 
         do_pad = True
-        pad_before = s2 - 1 if mode == 'full' else s2 // 2
-        pad_after = s2 - 1 if mode == 'full' else s2 - 1 - (s2 // 2)
+        pad_after = s2 - 1 if mode == 'full' else s2 // 2
+        pad_before = s2 - 1 if mode == 'full' else s2 - 1 - (s2 // 2)
         fsize = tuple((s1 + pad_before + pad_after + s2 - 1).tolist())
 
     # --- 2. PyTorch Backend ---
-- 
2.43.0


From 86d87bb5d965789e3263f37d5ca4de6d65328950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 033/150] fix: circular convolution with a kernel larger than
 the array returned an array of the kernel's shape

---
 src/tools21cm/fft_functions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/fft_functions.py b/src/tools21cm/fft_functions.py
index bd48baf..64e990d 100644
--- a/src/tools21cm/fft_functions.py
+++ b/src/tools21cm/fft_functions.py
@@ -64,7 +64,11 @@ def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', dev
         
     if boundary == 'circular':
         mode = 'same'
-        fsize = tuple(np.maximum(s1, s2).tolist())
+        # wrap a kernel that is larger than in1 around the periodic box
+        for ax in np.flatnonzero(s2 > s1):
+            in2 = np.pad(np.asarray(in2), [(0, int(-s2[ax] % s1[ax])) if i == ax else (0, 0) for i in calc_axes])
+            in2 = in2.reshape(in2.shape[:ax] + (-1, s1[ax]) + in2.shape[ax+1:]).sum(axis=ax)
+        fsize = tuple(s1.tolist())
         do_pad = False
     elif boundary == 'constant':
         fsize = tuple((s1 + s2 - 1).tolist())
-- 
2.43.0


From 18328f9185ad6ed1eed1dda8f13ad2dedcda97c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 034/150] fix: smooth_coeval_tophat also smoothed along one of
 the angular axes

---
 src/tools21cm/smoothing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 2a5e27b..d0bcbda 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -414,12 +414,14 @@ def smooth_coeval_tophat(cube, width, nu_axis, verbose=True):
         Returns:
                 Smoothed_cube
         """
-        kernel = tophat_kernel(cube.shape[nu_axis], width)
+        # the tophat acts along the frequency axis only
+        kernel = tophat_kernel(cube.shape[nu_axis], width).sum(axis=0)
         output_cube = np.zeros(cube.shape)
         if nu_axis==0:
                 for i in tqdm(range(cube.shape[1]), disable=False if verbose else True):
-                        output_cube[:,i,:] = smooth_with_kernel(cube[:,i,:], kernel)
+                        output_cube[:,i,:] = smooth_with_kernel(cube[:,i,:], kernel[:,None])
         else:
+                kernel = kernel[:,None] if nu_axis==1 else kernel[None,:]
                 for i in tqdm(range(cube.shape[0]), disable=False if verbose else True):
                         output_cube[i,:,:] = smooth_with_kernel(cube[i,:,:], kernel)
         return output_cube
-- 
2.43.0


From 04ad2e4f69121840d07c1f65803c59e7104dc298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 035/150] fix: smooth_lightcone_uv_threshold returned the
 exception instead of raising it

---
 src/tools21cm/smoothing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index d0bcbda..0174308 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -497,7 +497,7 @@ def smooth_lightcone_uv_threshold(lightcone, uv_box, threshold=0.0):
                 Smoothed lightcone.
         """
         if not isinstance(threshold, float) or threshold < 0.0:
-                return ValueError("Threshold value should be a positive float.")
+                raise ValueError("Threshold value should be a positive float.")
         
         lightcone = np.fft.fft2(lightcone, axes = (0, 1))
         uv_bool = uv_box < threshold
-- 
2.43.0


From 479a911d77a6eba305e201927275bd69845e81db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 036/150] fix: convolve_uvmap_coeval returned the axes in the
 wrong order and crashed without uv_map

---
 src/tools21cm/smoothing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 0174308..f3e22d7 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -576,7 +576,7 @@ def convolve_uvmap_coeval(cube, z, box_size_mpc=False, max_baseline=2., ratio=1.
         if isinstance(max_baseline,u.Quantity):
                max_baseline = max_baseline.to('km').value
         if uv_map is None: 
-                uv_map, N_ant  = get_uv_map(array.shape[0],
+                uv_map, N_ant  = get_uv_map(cube.shape[0],
                                                 z,
                                                 filename=filename,
                                                 total_int_time=total_int_time,
@@ -592,7 +592,7 @@ def convolve_uvmap_coeval(cube, z, box_size_mpc=False, max_baseline=2., ratio=1.
         output_ang_res = output_dtheta*cm.z_to_cdist(z) * cube.shape[0]/box_size_mpc
         output_cube = smooth_coeval_tophat(cube, output_ang_res*ratio, nu_axis=nu_axis, verbose=verbose)
         if nu_axis not in [2,-1]: output_cube = np.swapaxes(output_cube,nu_axis,2)
-        output_cube = np.array([convolve_uvmap(output_cube[:,:,i], uv_map=uv_map, verbose=verbose, box_size_mpc=box_size_mpc) for i in tqdm(range(output_cube.shape[2]),disable=not verbose)])
+        output_cube = np.stack([convolve_uvmap(output_cube[:,:,i], uv_map=uv_map, verbose=verbose, box_size_mpc=box_size_mpc) for i in tqdm(range(output_cube.shape[2]),disable=not verbose)], axis=2)
         if nu_axis not in [2,-1]: output_cube = np.swapaxes(output_cube,nu_axis,2)
         return output_cube
 
-- 
2.43.0


From 6e742c217d03e3e2e8cb2b71ae71eea40570023b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:42 +0000
Subject: [PATCH 037/150] fix: smooth_line did not normalise Hamming, Hanning
 and integer windows and returned too many points for long windows

---
 src/tools21cm/smoothing.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index f3e22d7..08e82e3 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -645,15 +645,19 @@ def smooth_line(y, window=3, kind='tophat'):
             window = window / window.sum()
         elif kind.lower() == 'hamming':
             window = np.hamming(window)
+            window /= np.sum(window)
         elif kind.lower() == 'hanning':
             window = np.hanning(window)
+            window /= np.sum(window)
         else:
             raise ValueError(f"Unsupported window kind: '{kind}'. Choose from 'tophat', 'gaussian', 'triangular', 'hamming', or 'hanning'.")
     elif isinstance(window, (list, np.ndarray)):
         window = np.array(window)
-        window /= np.sum(window)  # Ensure the custom window is normalized
+        window = window / np.sum(window)  # Ensure the custom window is normalized
     else:
         raise ValueError("Window must be an integer or an array-like object.")
 
-    y_smooth = np.convolve(y, window, mode='same')
+    # mode='same' would return len(window) points for a window longer than y
+    start = (len(window) - 1)//2
+    y_smooth = np.convolve(y, window, mode='full')[start:start+len(y)]
     return y_smooth
-- 
2.43.0


From ed334257d371033e8aec0768560a38291c384a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:42 +0000
Subject: [PATCH 038/150] fix: smooth_lightcone rejected the documented lowest
 redshift given as a number

---
 src/tools21cm/smoothing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 08e82e3..0a232b6 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -348,8 +348,8 @@ def smooth_lightcone(lightcone, z_array, box_size_mpc=False, max_baseline=2., ra
                 (Smoothed_lightcone, redshifts) 
         """
         if (not box_size_mpc): box_size_mpc=conv.LB
-        if(z_array.shape[0] == lightcone.shape[2]):
-                input_redshifts = z_array.copy()
+        if(np.size(z_array) == lightcone.shape[2]):
+                input_redshifts = np.array(z_array, dtype=float).reshape(-1)
         else:
                 z_low = z_array
                 cell_size = 1.0*box_size_mpc/lightcone.shape[0]
-- 
2.43.0


From c96e802a2a0f74c917905bf40c106dc564ae7875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:42 +0000
Subject: [PATCH 039/150] fix: find_idx overwrote the caller's values and
 truncated integer ones

---
 src/tools21cm/helper_functions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index bcf86a6..408f031 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -526,9 +526,7 @@ def find_idx(ar, values):
         '''
         
         #Make input into an array and clamp outliers
-        values = np.atleast_1d(values)
-        values[values > ar.max()] = ar.max()
-        values[values < ar.min()] = ar.min()
+        values = np.clip(np.atleast_1d(values), ar.min(), ar.max())
         
         #Make sure that the values are monotonically increasing/decreasing
         dv = ar[1:]-ar[:-1]
-- 
2.43.0


From c46aa6197360937e6a916e75ae3465507bae949a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 040/150] fix: make_lightcone used the wrong coeval cube when a
 step skips a snapshot

---
 src/tools21cm/lightcone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index 4ad32fa..c821649 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -129,7 +129,7 @@ def make_lightcone(filenames, z_low = None, z_high = None, depth_mhz = None, fil
         if z_bracket_low_new != z_bracket_low:
             z_bracket_low = z_bracket_low_new
             file_idx = np.argmin(np.abs(file_redshifts - z_bracket_low))
-            if data_high is None:
+            if z_bracket_low != z_bracket_high:
                 if reading_function is None: data_low, datatype = get_data_and_type(filenames[file_idx], cbin_bits, cbin_order, raw_density)
                 else: data_low = reading_function(filenames[file_idx])#; print('yes')
             else: #No need to read the file again
-- 
2.43.0


From 7d9de150fb97dbf16477852cfed6b254edb0f958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 041/150] fix: light-cones reaching the highest snapshot
 redshift (always with depth_mhz) crashed

---
 src/tools21cm/lightcone.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index c821649..37d2aa2 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -122,8 +122,8 @@ def make_lightcone(filenames, z_low = None, z_high = None, depth_mhz = None, fil
     time.sleep(1)
     for ii in tqdm(range(len(output_z))):
         z = output_z[ii]
-        z_bracket_low_new = file_redshifts[file_redshifts <= z].max()
-        z_bracket_high_new = file_redshifts[file_redshifts > z].min()
+        z_bracket_high_new = file_redshifts[file_redshifts > z].min() if z < file_redshifts.max() else file_redshifts.max()
+        z_bracket_low_new = file_redshifts[(file_redshifts <= z) & (file_redshifts < z_bracket_high_new)].max()
         
         #Do we need a new file for the low z?
         if z_bracket_low_new != z_bracket_low:
@@ -241,8 +241,8 @@ def make_velocity_lightcone(vel_filenames, dens_filenames, z_low = None, \
     time.sleep(1)
     for ii in tqdm(range(len(output_z))):
         z = output_z[ii]
-        z_bracket_low_new = file_redshifts[file_redshifts <= z].max()
-        z_bracket_high_new = file_redshifts[file_redshifts > z].min()
+        z_bracket_high_new = file_redshifts[file_redshifts > z].min() if z < file_redshifts.max() else file_redshifts.max()
+        z_bracket_low_new = file_redshifts[(file_redshifts <= z) & (file_redshifts < z_bracket_high_new)].max()
         
         if z_bracket_low_new != z_bracket_low:
             z_bracket_low = z_bracket_low_new
-- 
2.43.0


From 0040ca2f980e28bcd9814ca1d669064eb47d7aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 042/150] fix: step interpolation always took the high redshift
 cube

---
 src/tools21cm/lightcone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index 37d2aa2..ebb8c61 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -440,7 +440,7 @@ def _get_interp_slice(data_high, data_low, z_bracket_high, z_bracket_low, z, \
         slice_interp = ((z-z_bracket_low)*slice_high + \
                     (z_bracket_high - z)*slice_low)/(z_bracket_high-z_bracket_low)
     elif interpolation == 'step':
-        transition_z = (z_bracket_high-z_bracket_low)/2.
+        transition_z = (z_bracket_high+z_bracket_low)/2.
         if z < transition_z:
             slice_interp = slice_low.copy()
         else:
-- 
2.43.0


From 85f1b4a25bee0894fc01a51c42d0e8d49cc88e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 043/150] fix: light-cones of non-cubic coeval cubes repeated
 the cube with the wrong period

---
 src/tools21cm/lightcone.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index ebb8c61..df2f90e 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -110,7 +110,7 @@ def make_lightcone(filenames, z_low = None, z_high = None, depth_mhz = None, fil
     output_z = _get_output_z(file_redshifts, z_low, z_high, mesh_size[0], box_length_mpc=box_length_mpc, dnu=depth_mhz)
 
     #Make the output 32-bit to save memory 
-    lightcone = np.zeros((mesh_size[0], mesh_size[1], len(output_z)), dtype='float32')
+    lightcone = np.zeros((*np.delete(mesh_size, los_axis), len(output_z)), dtype='float32')
     
     comoving_pos_idx = 0
     z_bracket_low = None; z_bracket_high = None
@@ -232,7 +232,7 @@ def make_velocity_lightcone(vel_filenames, dens_filenames, z_low = None, \
     
     output_z = _get_output_z(file_redshifts, z_low, z_high, mesh_size[0])
 
-    lightcone = np.zeros((3, mesh_size[0], mesh_size[1], len(output_z)), dtype='float32')
+    lightcone = np.zeros((3, *np.delete(mesh_size, los_axis), len(output_z)), dtype='float32')
     
     comoving_pos_idx = 0
     z_bracket_low = None; z_bracket_high = None
@@ -433,7 +433,7 @@ def _get_interp_slice(data_high, data_low, z_bracket_high, z_bracket_low, z, \
     '''
     Interpolate between two data slices. For internal use.
     '''
-    slice_ind = comoving_pos_idx % data_low.shape[1]
+    slice_ind = comoving_pos_idx % data_low.shape[los_axis-3]
     slice_low = _get_slice(data_low, slice_ind, los_axis)
     slice_high = _get_slice(data_high, slice_ind, los_axis)
     if interpolation == 'linear':
-- 
2.43.0


From 4058e619bf2497c255b81ab7405fbc6526613dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 044/150] fix: file names and redshifts given as a directory, a
 text file or a list were not accepted by the light-cone functions

---
 src/tools21cm/lightcone.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index df2f90e..faabca3 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -103,6 +103,8 @@ def make_lightcone(filenames, z_low = None, z_high = None, depth_mhz = None, fil
         mesh_size = get_mesh_size(filenames[0])
     else:
         assert file_redshifts is not None
+        if isinstance(filenames, str): filenames = _get_filenames(filenames)
+        file_redshifts = _get_file_redshifts(file_redshifts, filenames)
         mesh_size = reading_function(filenames[0]).shape
 
     assert len(file_redshifts) == len(filenames)
@@ -522,7 +524,7 @@ def _get_filenames(filenames_in):
     If it is a text file, read the list of files from the file
     '''
     
-    if hasattr(filenames_in, '__iter__'):
+    if hasattr(filenames_in, '__iter__') and not isinstance(filenames_in, str):
         filenames_out = filenames_in
     elif os.path.isdir(filenames_in):
         files_in_dir = glob.glob(filenames_in + '/*')
@@ -548,8 +550,8 @@ def _get_file_redshifts(redshifts_in, filenames):
     Else, return as is
     '''
     
-    if hasattr(redshifts_in, '__iter__'):
-        redshifts_out = redshifts_in
+    if hasattr(redshifts_in, '__iter__') and not isinstance(redshifts_in, str):
+        redshifts_out = np.asarray(redshifts_in)
     elif redshifts_in is None:
         redshifts_out = [determine_redshift_from_filename(f) for f in filenames]
         redshifts_out = np.array(redshifts_out)
-- 
2.43.0


From 33ad5f6c07c4be3ea2d47c558839448fc8d8a9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 045/150] fix: get_lightcone_subvolume accepted two
 contradicting depths

---
 src/tools21cm/lightcone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index faabca3..1731719 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -383,7 +383,7 @@ def get_lightcone_subvolume(lightcone, redshifts, central_z, \
         with the dimensions of the subvolume in Mpc
     '''
     
-    assert len(np.nonzero([depth_mhz, depth_mpc])) == 1
+    assert (depth_mhz is None) != (depth_mpc is None)
     
     if fov_Mpc is None:
         fov_Mpc = conv.LB
-- 
2.43.0


From 1aead34e92160612f1e252e2724d81068de4f183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 046/150] fix: get_lightcone_subvolume crashed when the
 sub-volume ends at the last slice

---
 src/tools21cm/lightcone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index 1731719..a549c49 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -421,7 +421,7 @@ def get_lightcone_subvolume(lightcone, redshifts, central_z, \
     box_depth = max_cdist-min_cdist
     box_dims = (fov_Mpc, fov_Mpc, box_depth)
     if(verbose): 
-        print('Slice redshift: %.3f %.3f' %(redshifts[low_n], redshifts[high_n]))
+        print('Slice redshift: %.3f %.3f' %(redshifts[low_n], redshifts[min(high_n, len(redshifts)-1)]))
         print('Slice frequencies (MHz): %.1f %.1f' %(min_freq, max_freq))
         print('Slice comoving distances (cMpc): %.2f %.2f' %(min_cdist, max_cdist))
         print('Slice indices:', low_n, high_n)
-- 
2.43.0


From c0ab4beecf2baa9552f5040fa0a7dd0e07790fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 047/150] fix: raw_density was ignored when the density is
 given by file name

---
 src/tools21cm/helper_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index 408f031..d65429c 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -389,7 +389,7 @@ def get_data_and_type(indata, cbin_bits=32, cbin_order='c', raw_density=False):
                 elif filetype == 'temper':
                         return get_data_and_type(tools21cm.temper_file.TemperFile(indata))
                 elif filetype == 'density':
-                        return get_data_and_type(tools21cm.density_file.DensityFile(indata))
+                        return get_data_and_type(tools21cm.density_file.DensityFile(indata), raw_density=raw_density)
                 elif filetype == 'cbin':
                         return read_cbin(indata, bits=cbin_bits, order=cbin_order), 'cbin'
                 elif filetype == 'dbt':
-- 
2.43.0


From 8c434d261d5bb4fb022aa569a0464809a701a510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:38 +0000
Subject: [PATCH 048/150] fix: step_cell light-cones crashed between cubes that
 differ in less than two cells of a slice

---
 src/tools21cm/lightcone.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index a549c49..85e7b37 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -482,6 +482,8 @@ def _get_step_weighted_slice(slice_low, slice_high, z_bracket_high, z_bracket_lo
 def _get_step_transitions(cell_dist, diff_idx):
     #Replace each value in cell_dist with the number of cells 
     #with a lower value. Then normalize to be between 0 and 1
+    if np.count_nonzero(diff_idx) < 2: #no order to infer
+        return np.full(cell_dist.shape, 0.5)
     values_flat = cell_dist[diff_idx].flatten()
     values_sorted = sorted(values_flat+np.random.random(len(values_flat))*1.e-9)
     values_uniform = np.linspace(values_sorted[0], values_sorted[-1], len(values_sorted))
-- 
2.43.0


From c30527e7564da8ddd886bd90db7e575d417649eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:02 +0000
Subject: [PATCH 049/150] fix: step_cell transitions were squeezed towards the
 high redshift end instead of being spread over the bracket

---
 src/tools21cm/lightcone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index 85e7b37..4934a00 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -487,7 +487,7 @@ def _get_step_transitions(cell_dist, diff_idx):
     values_flat = cell_dist[diff_idx].flatten()
     values_sorted = sorted(values_flat+np.random.random(len(values_flat))*1.e-9)
     values_uniform = np.linspace(values_sorted[0], values_sorted[-1], len(values_sorted))
-    f = scipy.interpolate.interp1d(values_sorted, values_uniform, bounds_error=False, fill_value=0.)
+    f = scipy.interpolate.interp1d(values_sorted, values_uniform, bounds_error=False, fill_value=(values_uniform[0], values_uniform[-1]))
     output_values = f(cell_dist)
     output_values -= output_values.min()
     output_values /= output_values.max()
-- 
2.43.0


From bc71b3044bd66c90bad83f3480bac592a9ca3583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:05 +0000
Subject: [PATCH 050/150] fix: set_sim_constants changed the box size before
 rejecting an invalid one

---
 src/tools21cm/conv.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/conv.py b/src/tools21cm/conv.py
index ac939b4..76d0bd2 100755
--- a/src/tools21cm/conv.py
+++ b/src/tools21cm/conv.py
@@ -31,6 +31,9 @@ def set_sim_constants(boxsize_cMpc):
 	'''
 	global boxsize, LB, nbox_fine, M_box, M_grid, lscale, tscale, velconvert
 
+	if not any(hf.flt_comp(boxsize_cMpc, valid) for valid in [37., 47., 64., 114., 200., 244., 425., 500.]):
+		raise Exception('Invalid boxsize (%.3f cMpc)' % boxsize_cMpc)
+
 	boxsize = boxsize_cMpc
 	LB = boxsize/const.h	
 	if hf.flt_comp(boxsize, 425.):
@@ -57,8 +60,6 @@ def set_sim_constants(boxsize_cMpc):
 	elif hf.flt_comp(boxsize, 200.):
 		hf.print_msg('Setting_conversion_factors for 200/h Mpc box')
 		nbox_fine = 3456
-	else:
-		raise Exception('Invalid boxsize (%.3f cMpc)' % boxsize_cMpc)
 
 	M_box      = const.rho_matter*(LB*const.Mpc)**3 # mass in box (g, not M0)
 	M_grid     = M_box/(float(nbox_fine)**3)
-- 
2.43.0


From f674d3c0fbc82260ab08dc49a48d6f845d42298f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:06 +0000
Subject: [PATCH 051/150] fix: derived cosmological constants were stale after
 setting a parameter

---
 src/tools21cm/const.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/const.py b/src/tools21cm/const.py
index 810a56c..ea1e316 100755
--- a/src/tools21cm/const.py
+++ b/src/tools21cm/const.py
@@ -27,6 +27,7 @@ def set_abundance_helium(value):
 	global abu_he_mass, abu_h_mass
 	abu_he_mass = value
 	abu_h_mass = 1.0-abu_he_mass
+	_update_derived()
 
 mean_molecular = 1.0/(1.0-abu_he_mass)
 solar_masses_per_gram = 5.02785431e-34
@@ -51,15 +52,16 @@ def set_hubble_h(value):
 	global h, H0
 	h  = value 
 	H0 = 100.0*h
+	_update_derived()
 
 def set_omega_matter(value): 
 	'''
 	Define new omega matter value.
 	'''
-	global Omega0, lam, q0
+	global Omega0, lam
 	Omega0 = value
 	lam = 1.0-Omega0
-	q0 = 0.5*Omega0 - lam
+	_update_derived()
 	# print(Omega0, q0)
 
 def set_omega_baryon(value):
@@ -68,14 +70,16 @@ def set_omega_baryon(value):
 	'''
 	global OmegaB
 	OmegaB = value 
+	_update_derived()
 
 def set_omega_lambda(value):
 	'''
 	Define new omega lambda value.
 	'''
-	global lam
+	global lam, OmegaL
 	lam = value 
 	OmegaL = value
+	_update_derived()
 
 def set_ns(value):
 	'''
@@ -109,3 +113,16 @@ lambda0 = c*1.0e5/(nu0*1.0e6) # cm
 num_h_0=(1-abu_he_mass)*OmegaB*rho_crit_0/m_p
 # meandt = 2.9*0.043/0.04
 meandt = 3.0*lambda0**3/(32.*np.pi)*A10*Tstar*num_h_0/(H0cgs/h)*1000.
+
+def _update_derived():
+	'''
+	Recompute everything that follows from the cosmological parameters. For internal use.
+	'''
+	global q0, H0cgs, rho_crit_0, rho_matter, num_h_0, meandt, mean_molecular
+	q0 = 0.5*Omega0 - lam
+	H0cgs = H0*1e5/Mpc
+	rho_crit_0 = 3.0*H0cgs*H0cgs/(8.0*np.pi*G_grav)
+	rho_matter = rho_crit_0*Omega0
+	mean_molecular = 1.0/(1.0-abu_he_mass)
+	num_h_0 = (1-abu_he_mass)*OmegaB*rho_crit_0/m_p
+	meandt = 3.0*lambda0**3/(32.*np.pi)*A10*Tstar*num_h_0/(H0cgs/h)*1000.
-- 
2.43.0


From 797ef9dbcd77fc1c067af185c83b6daa4811264f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:06 +0000
Subject: [PATCH 052/150] fix: z_to_cdist, cdist_to_z and z_to_age truncated
 their result for integer input

---
 src/tools21cm/cosmo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/cosmo.py b/src/tools21cm/cosmo.py
index 1c836b9..84671b2 100755
--- a/src/tools21cm/cosmo.py
+++ b/src/tools21cm/cosmo.py
@@ -138,7 +138,7 @@ def z_to_cdist(z):
         Comoving distance in Mpc
     '''
     z = np.atleast_1d(z)
-    dist = np.zeros_like(z)
+    dist = np.zeros(z.shape)
     for i in range(len(z)):
         Ez_func = lambda x: 1./np.sqrt(const.Omega0*(1.+x)**3+const.lam)
         dist[i] = const.c/const.H0 * quad(Ez_func, 0, z[i])[0]
@@ -160,7 +160,7 @@ def cdist_to_z(dist):
         
     '''
     dist = np.atleast_1d(dist)
-    z = np.zeros_like(dist)
+    z = np.zeros(dist.shape)
     func        = interp1d(precalc_table_cdist, precalc_table_z, kind='cubic', bounds_error=False, fill_value="extrapolate")
     z_min_guess = func(dist)-1 if type(dist)==float else func(dist.min())-1
     z_max_guess = func(dist)+1 if type(dist)==float else func(dist.max())+1
@@ -183,7 +183,7 @@ def z_to_age(z):
     '''
     z = np.atleast_1d(z)
     a = 1/(1+z)
-    tage = np.zeros_like(z)
+    tage = np.zeros(z.shape)
     for i in range(len(a)):
         Ea_func = lambda x: 1./x/np.sqrt(const.Omega0*x**-3+const.lam)
         tage[i] = 1/const.H0 * quad(Ea_func, 0, a[i])[0]
-- 
2.43.0


From 35ed2808b181be7e3513ec260b936492eb402aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:06 +0000
Subject: [PATCH 053/150] fix: cdist_to_z was wrong far away from the default
 cosmology

---
 src/tools21cm/cosmo.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/cosmo.py b/src/tools21cm/cosmo.py
index 84671b2..71f7c4a 100755
--- a/src/tools21cm/cosmo.py
+++ b/src/tools21cm/cosmo.py
@@ -161,7 +161,11 @@ def cdist_to_z(dist):
     '''
     dist = np.atleast_1d(dist)
     z = np.zeros(dist.shape)
-    func        = interp1d(precalc_table_cdist, precalc_table_z, kind='cubic', bounds_error=False, fill_value="extrapolate")
+    if (const.H0, const.Omega0, const.lam, const.c) == (70.0, 0.27, 0.73, 3.0e5):
+        all_cdist = precalc_table_cdist
+    else: #the precalculated table is for the default cosmology
+        all_cdist = z_to_cdist(precalc_table_z)
+    func        = interp1d(all_cdist, precalc_table_z, kind='cubic', bounds_error=False, fill_value="extrapolate")
     z_min_guess = func(dist)-1 if type(dist)==float else func(dist.min())-1
     z_max_guess = func(dist)+1 if type(dist)==float else func(dist.max())+1
     table_z     = precalc_table_z[precalc_table_z>z_min_guess]
-- 
2.43.0


From 4fc96b7d6ca50c3cc1d9aa9b6d5c0c07e4fc18bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:06 +0000
Subject: [PATCH 054/150] fix: bin_lightcone_in_frequency shifted the
 light-cone by half of the smoothing window

---
 src/tools21cm/angular_coordinates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index 79a088d..9a37a01 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -290,7 +290,7 @@ def bin_lightcone_in_frequency(lightcone, z_low, box_size_mpc, dnu):
     hf.print_msg('Smooth along LoS with scale %f' % smooth_scale)
     tophat3d = np.ones((1,1,int(smooth_scale)))
     tophat3d /= np.sum(tophat3d)
-    lightcone_smoothed = fftconvolve(lightcone, tophat3d)
+    lightcone_smoothed = fftconvolve(lightcone, tophat3d, mode='same')
     
     for i in range(output_lightcone.shape[2]):
         nu = output_frequencies[i]
-- 
2.43.0


From 9320b9a2b157384b659a4161cbe4e86a899f3a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:06 +0000
Subject: [PATCH 055/150] fix: bin_lightcone_in_mpc returned more redshifts
 than slices

---
 src/tools21cm/angular_coordinates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index 9a37a01..dd265f7 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -306,7 +306,7 @@ def bin_lightcone_in_mpc(lightcone, frequencies, cell_size_mpc):
     '''
     distances = cm.nu_to_cdist(frequencies)
     n_output_cells = (distances[-1]-distances[0])/cell_size_mpc
-    output_distances = np.arange(distances[0], distances[-1], cell_size_mpc)
+    output_distances = distances[0] + np.arange(int(n_output_cells))*cell_size_mpc
     output_lightcone = np.zeros((lightcone.shape[0], lightcone.shape[1], int(n_output_cells)))
     
     #Bin in Mpc by smoothing and indexing
-- 
2.43.0


From 8d7e025c31ef89317a1bf9dd40f7f67231f3348b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:27 +0000
Subject: [PATCH 056/150] fix: cdist_to_z crashed for single distances beyond
 redshift 25

---
 src/tools21cm/cosmo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/cosmo.py b/src/tools21cm/cosmo.py
index 71f7c4a..03f76f3 100755
--- a/src/tools21cm/cosmo.py
+++ b/src/tools21cm/cosmo.py
@@ -166,8 +166,8 @@ def cdist_to_z(dist):
     else: #the precalculated table is for the default cosmology
         all_cdist = z_to_cdist(precalc_table_z)
     func        = interp1d(all_cdist, precalc_table_z, kind='cubic', bounds_error=False, fill_value="extrapolate")
-    z_min_guess = func(dist)-1 if type(dist)==float else func(dist.min())-1
-    z_max_guess = func(dist)+1 if type(dist)==float else func(dist.max())+1
+    z_min_guess = 0.8*func(dist.min())-1
+    z_max_guess = 1.2*func(dist.max())+1
     table_z     = precalc_table_z[precalc_table_z>z_min_guess]
     table_z     = table_z[table_z<z_max_guess]
     table_cdist = z_to_cdist(table_z)
-- 
2.43.0


From cf617ea52cf1ae7dc95c5f589907623817bac594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:36 +0000
Subject: [PATCH 057/150] fix: luminosity_distance returned an array for a
 single redshift without dark energy

---
 src/tools21cm/cosmo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/cosmo.py b/src/tools21cm/cosmo.py
index 03f76f3..cd79f0d 100755
--- a/src/tools21cm/cosmo.py
+++ b/src/tools21cm/cosmo.py
@@ -112,7 +112,7 @@ def luminosity_distance(z, k=0):
     if const.lam == 0:
         denom = np.sqrt(1+2*const.q0*z) + 1 + const.q0*z 
         dlum = (const.c*z/const.H0)*(1 + z*(1-const.q0)/denom)
-        return dlum
+        return outputify(dlum)
     else:
         dlum = np.zeros(n)
         for i in range(n):
-- 
2.43.0


From 3691d4a863e8a2fe8a144b5f46b21a80a0ddb10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:01 +0000
Subject: [PATCH 058/150] fix: binning in frequency and distance dimmed the
 first and last slices

---
 src/tools21cm/angular_coordinates.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index dd265f7..a3be556 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -291,6 +291,7 @@ def bin_lightcone_in_frequency(lightcone, z_low, box_size_mpc, dnu):
     tophat3d = np.ones((1,1,int(smooth_scale)))
     tophat3d /= np.sum(tophat3d)
     lightcone_smoothed = fftconvolve(lightcone, tophat3d, mode='same')
+    lightcone_smoothed /= fftconvolve(np.ones((1,1,lightcone.shape[2])), tophat3d, mode='same') #incomplete bins at the ends
     
     for i in range(output_lightcone.shape[2]):
         nu = output_frequencies[i]
@@ -315,6 +316,7 @@ def bin_lightcone_in_mpc(lightcone, frequencies, cell_size_mpc):
     tophat3d = np.ones((1,1,int(smooth_scale)))
     tophat3d /= np.sum(tophat3d)
     lightcone_smoothed = fftconvolve(lightcone, tophat3d, mode='same')
+    lightcone_smoothed /= fftconvolve(np.ones((1,1,lightcone.shape[2])), tophat3d, mode='same') #incomplete bins at the ends
     
     for i in range(output_lightcone.shape[2]):
         idx = int(hf.find_idx(distances, output_distances[i]))
-- 
2.43.0


From 5289981bb6097e45c7c463ba41d9ae7001c0b844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:01 +0000
Subject: [PATCH 059/150] fix: rounding errors lost a row of cells when
 converting between physical and angular coordinates

---
 src/tools21cm/angular_coordinates.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index a3be556..4f81306 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -86,7 +86,7 @@ def physical_lightcone_to_observational(physical_lightcone, input_z_low, output_
                                                             input_z_low, input_box_size_mpc, output_dnu)
 
     #Calculate dimensions of output volume
-    n_cells_theta  = int(fov_deg_low*60./output_dtheta)
+    n_cells_theta  = _n_whole_cells(fov_deg_low*60./output_dtheta)
     n_cells_nu = len(output_freqs)
 
     #Go through each slice and make angular slices for each one
@@ -102,7 +102,7 @@ def physical_lightcone_to_observational(physical_lightcone, input_z_low, output_
     if mode.lower() in ['pad', 'full', 'extend']:
         pass
     elif mode.lower() in ['crop', 'valid']:
-        n_cells_theta_out = int(fov_deg_high*60./output_dtheta)
+        n_cells_theta_out = _n_whole_cells(fov_deg_high*60./output_dtheta)
         output_volume = output_volume[(n_cells_theta-n_cells_theta_out)//2:(n_cells_theta+n_cells_theta_out)//2,(n_cells_theta-n_cells_theta_out)//2:(n_cells_theta+n_cells_theta_out)//2,:]
     else:
         print(f"mode={mode} is not implemented")
@@ -148,7 +148,7 @@ def observational_lightcone_to_physical(observational_lightcone, input_freqs, in
     hf.print_msg('Making physical lightcone with cell size %.2f Mpc' % output_cell_size)
     #Go through each slice along frequency axis. Cut off excess and 
     #interpolate down to correct resolution
-    n_cells_perp = int(fov_mpc/output_cell_size)
+    n_cells_perp = _n_whole_cells(fov_mpc/output_cell_size)
     output_volume_par = np.zeros((n_cells_perp, n_cells_perp, observational_lightcone.shape[2]))
     for i in tqdm(range(output_volume_par.shape[2]), disable=not verbose):
         z = cm.nu_to_z(input_freqs[i])
@@ -181,7 +181,7 @@ def physical_slice_to_angular(input_slice, z, slice_size_mpc, fov_deg, dtheta, o
     #Resample
     fov_mpc = cm.deg_to_cdist(fov_deg, z)
     cell_size_mpc = fov_mpc/(fov_deg*60./dtheta)
-    n_cells_resampled = int(slice_size_mpc/cell_size_mpc)
+    n_cells_resampled = _n_whole_cells(slice_size_mpc/cell_size_mpc)
     #Avoid edge effects with even number of cells
     if n_cells_resampled % 2 == 0: 
         n_cells_resampled -= 1
@@ -189,7 +189,7 @@ def physical_slice_to_angular(input_slice, z, slice_size_mpc, fov_deg, dtheta, o
     
     #Pad the array
     slice_n = resampled_slice.shape[0]
-    padded_n = int(fov_deg*60./dtheta)# np.round(slice_n*(fov_mpc/slice_size_mpc))
+    padded_n = _n_whole_cells(fov_deg*60./dtheta)# np.round(slice_n*(fov_mpc/slice_size_mpc))
     if padded_n < slice_n:
         if slice_n - padded_n > 2:
             print('Warning! Padded slice is significantly smaller than original!')
@@ -216,14 +216,14 @@ def angular_slice_to_physical(input_slice, z, slice_size_deg, output_cell_size,
     '''
     #Resample
     slice_size_mpc = cm.deg_to_cdist(slice_size_deg, z)
-    n_cells_resampled = int(slice_size_mpc/output_cell_size)
+    n_cells_resampled = _n_whole_cells(slice_size_mpc/output_cell_size)
     #Avoid edge effects with even number of cells
     if n_cells_resampled % 2 == 0: 
         n_cells_resampled += 1
     resampled_slice = resample_slice(input_slice, n_cells_resampled, order, prefilter)
     
     #Remove cells to get correct size
-    n_cutout_cells = int(output_size_mpc/output_cell_size)# np.round(resampled_slice.shape[0]*output_size_mpc/slice_size_mpc)
+    n_cutout_cells = _n_whole_cells(output_size_mpc/output_cell_size)# np.round(resampled_slice.shape[0]*output_size_mpc/slice_size_mpc)
     if n_cutout_cells > input_slice.shape[0]:
         if input_slice.shape[0] - n_cutout_cells > 2:
             print('Warning! Cutout slice is larger than original.')
@@ -307,8 +307,8 @@ def bin_lightcone_in_mpc(lightcone, frequencies, cell_size_mpc):
     '''
     distances = cm.nu_to_cdist(frequencies)
     n_output_cells = (distances[-1]-distances[0])/cell_size_mpc
-    output_distances = distances[0] + np.arange(int(n_output_cells))*cell_size_mpc
-    output_lightcone = np.zeros((lightcone.shape[0], lightcone.shape[1], int(n_output_cells)))
+    output_distances = distances[0] + np.arange(_n_whole_cells(n_output_cells))*cell_size_mpc
+    output_lightcone = np.zeros((lightcone.shape[0], lightcone.shape[1], len(output_distances)))
     
     #Bin in Mpc by smoothing and indexing
     smooth_scale = np.round(len(frequencies)/n_output_cells)
@@ -327,6 +327,12 @@ def bin_lightcone_in_mpc(lightcone, frequencies, cell_size_mpc):
     return output_lightcone, output_redshifts
 
 
+def _n_whole_cells(n):
+    '''
+    The number of whole cells in n cells, allowing for rounding errors. For internal use.
+    '''
+    return int(np.round(n, 6))
+
 def _get_padded_slice(input_slice, padded_n):
     slice_n = input_slice.shape[0]
     padded_slice = np.zeros((padded_n, padded_n))
-- 
2.43.0


From 0950e938f90f9f3e15cf5c0074be4100221a60ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 060/150] fix: bin_lightcone_in_mpc crashed for cells finer
 than half a frequency channel

---
 src/tools21cm/angular_coordinates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index 4f81306..4d7dc47 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -311,7 +311,7 @@ def bin_lightcone_in_mpc(lightcone, frequencies, cell_size_mpc):
     output_lightcone = np.zeros((lightcone.shape[0], lightcone.shape[1], len(output_distances)))
     
     #Bin in Mpc by smoothing and indexing
-    smooth_scale = np.round(len(frequencies)/n_output_cells)
+    smooth_scale = max(1, np.round(len(frequencies)/n_output_cells))
 
     tophat3d = np.ones((1,1,int(smooth_scale)))
     tophat3d /= np.sum(tophat3d)
-- 
2.43.0


From 717c4eee57e6d30690c86524a3150f0371a55158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 061/150] fix: read_cbin only worked for three dimensions

---
 src/tools21cm/helper_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index d65429c..32fe179 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -182,8 +182,8 @@ def read_cbin(filename, bits=32, order='C', dimensions=3, records=False):
 
         counter=dimensions+3 if records else dimensions 
         header = np.fromfile(f, count=counter, dtype='int32')
-        if records: temp_mesh=header[1:4]
-        else: temp_mesh=header[0:3]
+        if records: temp_mesh=header[1:1+dimensions]
+        else: temp_mesh=header[:dimensions]
         
         datatype = np.float32 if bits == 32 else np.float64
         data = np.fromfile(f, dtype=datatype, count=np.prod(temp_mesh))
-- 
2.43.0


From 5d31258a50374bca1c4f4f1ce499ca64aa5a3405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 062/150] fix: read_fits and save_fits crashed without the
 discontinued pyfits

---
 src/tools21cm/helper_functions.py | 32 ++++++++++---------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index 32fe179..a7a942e 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -272,19 +272,13 @@ def read_fits(filename, header=True):
         Returns:
                 numpy array containing the data
         '''
-        try:
-                import pyfits as pf
-                hdulist = pf.open(filename)
-                header = hdulist[0].header
-                data = hdulist[0].data.astype('float64')
-        except:
-                from astropy.io import fits
-                fits_image_filename = fits.util.get_testdata_filepath(filename)
-                hdul = fits.open(fits_image_filename)
-                header = hdul[0].header
-                data = hdul[1].data.astype('float64')
-
-        if header: return data, header
+        from astropy.io import fits
+        with fits.open(filename) as hdul:
+                fits_header = hdul[0].header
+                hdu  = hdul[0] if hdul[0].data is not None else hdul[1]
+                data = hdu.data.astype('float64')
+
+        if header: return data, fits_header
         else: return data
 
 
@@ -305,15 +299,9 @@ def save_fits(data, filename, header=None):
         
         save_data, datatype = get_data_and_type(data)
 
-        try:
-                import pyfits as pf
-                if type(header)==pf.header.Header: pf.writeto(filename, save_data, header)
-                else: pf.writeto(filename, save_data)
-        except:
-                from astropy.io import fits
-                hdu = pf.PrimaryHDU(save_data.astype('float64'))
-                hdulist = pf.HDUList([hdu])
-                hdulist.writeto(filename, clobber=True)
+        from astropy.io import fits
+        hdu = fits.PrimaryHDU(save_data.astype('float64'), header=header)
+        hdu.writeto(filename, overwrite=True)
 
         
 
-- 
2.43.0


From 84c61f79ec67fd45906766a4ac4c8397a623df58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 063/150] fix: get_mesh_size was wrong for temperature and
 brightness temperature files

---
 src/tools21cm/helper_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index a7a942e..a1e4c15 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -424,14 +424,14 @@ def get_mesh_size(filename):
                 temp_mesh = np.fromfile(f, count=6, dtype='int32')
                 mesh_size = temp_mesh[1:4]
         elif datatype == 'temper':
-                temp_mesh = np.fromfile(f,count=3,dtype='int32')
+                temp_mesh = np.fromfile(f,count=6,dtype='int32')
                 mesh_size = temp_mesh[1:4]
         elif datatype == 'density':
                 mesh_size = np.fromfile(f,count=3,dtype='int32')
         elif datatype == 'cbin':
                 mesh_size = np.fromfile(f,count=3,dtype='int32')
         elif datatype == 'dbt':
-                mesh_size = np.array([250,250,250])
+                mesh_size = np.array(np.load(filename, mmap_mode='r').shape)
         else:
                 raise Exception('Could not determine mesh for filetype %s' % datatype)
         f.close()
-- 
2.43.0


From cfdecb478fc364b51ab4d32e50c34ea523cd2678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 064/150] fix: bracketing redshifts crashed when only one limit
 is given

---
 src/tools21cm/helper_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index a1e4c15..6f29e5d 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -113,10 +113,10 @@ def _get_redshifts_in_range(redshifts, z_low, z_high, bracket):
         redshifts = np.array(redshifts)
         redshifts.sort()
         if bracket:
-                if z_low < redshifts.min() or z_high > redshifts.max():
+                if (z_low is not None and z_low < redshifts.min()) or (z_high is not None and z_high > redshifts.max()):
                         raise Exception('No redshifts to bracket range.')
-                z_low = redshifts[redshifts <= z_low][-1]
-                z_high = redshifts[redshifts >= z_high][0]
+                if z_low is not None: z_low = redshifts[redshifts <= z_low][-1]
+                if z_high is not None: z_high = redshifts[redshifts >= z_high][0]
         if z_low == None:
                 z_low = redshifts.min()-1
         if z_high == None:
-- 
2.43.0


From d7afd44bd91057a7150ebf3e18547df4eb150535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 065/150] fix: determine_redshift_from_filename crashed on file
 names with dots around the redshift or without one

---
 src/tools21cm/helper_functions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index 6f29e5d..bcc588a 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -496,7 +496,10 @@ def determine_redshift_from_filename(filename):
         if len(number_strs) == 0:
                 return -1
                 
-        return float(number_strs[longest_idx])
+        try:
+                return float(number_strs[longest_idx].strip('.'))
+        except ValueError:
+                return -1
 
 
 def find_idx(ar, values):
-- 
2.43.0


From 5272e2b7d1428fe3faa2e659c6c1734756ae602d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 066/150] fix: DensityFile.write_to_file crashed for cgs
 densities

---
 src/tools21cm/density_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/density_file.py b/src/tools21cm/density_file.py
index 305b9d6..b653c35 100755
--- a/src/tools21cm/density_file.py
+++ b/src/tools21cm/density_file.py
@@ -95,7 +95,7 @@ class DensityFile:
 			self.cgs_density = cgs_density
 			self.mesh_x, self.mesh_y, self.mesh_z = self.cgs_density.shape
 			conv_factor = const.rho_crit_0*(float(self.mesh_x)/float(conv.nbox_fine))**3*const.OmegaB
-			self.raw_density = cgs_density/self.conv_factor
+			self.raw_density = cgs_density/conv_factor
 		else:
 			pass 
 
-- 
2.43.0


From 65078abe6af5c87ddc101389ef83ac504da524d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 067/150] fix: old format temperature files were not shaped
 into a cube

---
 src/tools21cm/temper_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/temper_file.py b/src/tools21cm/temper_file.py
index 3af9e2f..6368a0b 100755
--- a/src/tools21cm/temper_file.py
+++ b/src/tools21cm/temper_file.py
@@ -51,7 +51,7 @@ class TemperFile:
                 self.temper = np.fromfile(f, dtype='float32')
         else:
                 self.temper = np.fromfile(f, count=self.mesh_x*self.mesh_y*self.mesh_z, dtype='float32')
-                self.temper = self.temper.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
+        self.temper = self.temper.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
 
         f.close()
         print_msg('...done')
-- 
2.43.0


From 370c97f0d623c5396d0ae361dcf000ea9192ead3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 068/150] fix: gridding sources lost all but the last source of
 a cell

---
 src/tools21cm/source_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/source_file.py b/src/tools21cm/source_file.py
index c7c85bc..f8763da 100755
--- a/src/tools21cm/source_file.py
+++ b/src/tools21cm/source_file.py
@@ -84,7 +84,7 @@ class SourceFile:
         # loop over list
         for n in range(self.sources_list.shape[0]):
             i, j, k = self.sources_list[n,:3].astype(int)
-            self.sources_coeval[i,j,k] = self.sources_list[n,3]  # Msun
+            self.sources_coeval[i,j,k] += self.sources_list[n,3]  # Msun
         
         print_msg('...done')
 
-- 
2.43.0


From 66e27ca345ba7fb6475808ae4f0c01cb0e348abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 069/150] fix: source files could not be read with both mass
 ranges, and lost masses of zero

---
 src/tools21cm/source_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/source_file.py b/src/tools21cm/source_file.py
index f8763da..69ae37b 100755
--- a/src/tools21cm/source_file.py
+++ b/src/tools21cm/source_file.py
@@ -67,7 +67,7 @@ class SourceFile:
             idx = 2*i+1
             text = lines[idx].split()
             self.sources_list[i,:3] = np.array(text[:3], dtype=int)-1
-            self.sources_list[i,3:] = np.power(10, conv.gridmass_to_msol(float(text[idx_mass]))) # Msun
+            self.sources_list[i,3:] = np.array(text, dtype=float)[idx_mass]*conv.M_grid*const.solar_masses_per_gram # Msun
 
         print_msg('...done')
 
-- 
2.43.0


From 8aae4619b9dcb4700866fe8bea1a39536a2bb47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 070/150] fix: SourceFile.write_to_file wrote masses that could
 not be read back

---
 src/tools21cm/source_file.py | 42 +++++++++---------------------------
 1 file changed, 10 insertions(+), 32 deletions(-)

diff --git a/src/tools21cm/source_file.py b/src/tools21cm/source_file.py
index 69ae37b..8a7719b 100755
--- a/src/tools21cm/source_file.py
+++ b/src/tools21cm/source_file.py
@@ -115,42 +115,20 @@ class SourceFile:
                 # The read method only uses the first number, so 0.0 is a safe placeholder for the second value.
                 f.write(f"{nr_src} 0.0\n") 
 
-                # Determine which column contains the mass for writing
-                # This depends on how sources_list was populated (by read_from_file or manually).
-                # The original file format has coordinates as 1-indexed integers and log10 of grid mass.
-                
-                # Default to 'hm' column if self.mass is 'hm' or not specified,
-                # otherwise 'lm' column if self.mass is 'lm'.
-                # If self.sources_list has 5 columns, it means both hm and lm are stored.
-                # We need to decide which one to write back to the file format.
-                # Assuming the original file structure implies a single mass value per source line.
-                # Let's prioritize writing the 'hm' mass if available (index 3 for 5-col array).
-
+                # The file has one column for each mass range, in grid mass units. The one that is not given is zero.
+                msun_per_gridmass = conv.M_grid*const.solar_masses_per_gram
                 for i in range(nr_src):
                     # Convert coordinates back to 1-indexed integers for writing
                     x, y, z = self.sources_list[i,:3].astype(int) + 1 
                     
-                    # Get the mass value(s) in Msun
-                    current_mass_msun = None
-                    if self.sources_list.shape[1] == 5: # (x, y, z, hm_mass, lm_mass)
-                        # Decide which mass to write back: if self.mass is specified use that, else default to hm
-                        if self.mass == 'lm':
-                            current_mass_msun = self.sources_list[i,4] # Use lm_mass
-                        else: # self.mass is 'hm' or default
-                            current_mass_msun = self.sources_list[i,3] # Use hm_mass
-                    elif self.sources_list.shape[1] == 4: # (x, y, z, mass) for hm or lm
-                        current_mass_msun = self.sources_list[i,3]
-                    else:
-                        raise ValueError("Unexpected sources_list shape. Expected 4 or 5 columns.")
-
-                    # Convert Msun back to log10 of grid mass as expected by the file format
-                    # Ensure it's not log10(0) if mass is 0, to avoid errors.
-                    log10_grid_mass = conv.gridmass_to_msol(current_mass_msun) if current_mass_msun > 0 else -99.0 # Use a placeholder for zero mass
-
-                    # Write each source line: x y z log10(grid_mass)
-                    # The original file format has two lines per source, the first is coordinates and log10 grid mass
-                    # and the second is empty. Let's replicate this based on the original parsing logic that does `lines[2*i+1]`
-                    f.write(f"{x} {y} {z} {log10_grid_mass:.6f}\n") # Using .6f for precision
+                    masses = self.sources_list[i,3:]/msun_per_gridmass
+                    if len(masses) == 1:
+                        masses = [0.0, masses[0]] if self.mass == 'lm' else [masses[0], 0.0]
+
+                    # Write each source line: x y z grid_mass_hm grid_mass_lm
+                    # The original file format has two lines per source, the second is empty.
+                    # Let's replicate this based on the original parsing logic that does `lines[2*i+1]`
+                    f.write(f"{x} {y} {z} {masses[0]:.9e} {masses[1]:.9e}\n")
                     f.write("\n") # Empty line as per typical C2Ray source file format
 
             print_msg('...done')
-- 
2.43.0


From da54676daa614e1407b9003f317a101ca781a984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:53 +0000
Subject: [PATCH 071/150] fix: coeval readers crashed for the redshift of a
 file

---
 src/tools21cm/read_files.py |  4 ++--
 src/tools21cm/usefuls.py    | 16 ++++++++--------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index 62538df..07d3857 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -120,7 +120,7 @@ def coeval_xfrac_c2ray(xfrac_dir, z, interpolation='linear'):
 	xfrac_zs = None
 	xfrac_zs = lightcone._get_file_redshifts(xfrac_zs, xfrac_files)
 	if z in xfrac_zs:
-		xfrac = XfracFile(xfrac_files[np.argwhere(z==xfrac_zs)]).xi
+		xfrac = XfracFile(xfrac_files[np.argwhere(xfrac_zs==z)[0,0]]).xi
 	else:
 		z_l = xfrac_zs[xfrac_zs<z].max()
 		z_h = xfrac_zs[xfrac_zs>z].min()
@@ -148,7 +148,7 @@ def coeval_dens_c2ray(dens_dir, z):
 	dens_zs  = None
 	dens_zs  = lightcone._get_file_redshifts(dens_zs, dens_files)
 	if z in dens_zs:
-		dens, dtype = helper_functions.get_data_and_type(dens_files[np.argwhere(z==dens_zs)])
+		dens, dtype = helper_functions.get_data_and_type(dens_files[np.argwhere(dens_zs==z)[0,0]])
 	else:
 		#z_l = dens_zs[dens_zs<z].max()
 		z_h = dens_zs[dens_zs>z].min()
diff --git a/src/tools21cm/usefuls.py b/src/tools21cm/usefuls.py
index 7a54b32..1c44075 100755
--- a/src/tools21cm/usefuls.py
+++ b/src/tools21cm/usefuls.py
@@ -62,7 +62,7 @@ def coeval_xfrac(xfrac_dir, z, interpolation='linear'):
 	xfrac_zs = None
 	xfrac_zs = lightcone._get_file_redshifts(xfrac_zs, xfrac_files)
 	if z in xfrac_zs:
-		xfrac = xfrac_file.XfracFile(xfrac_files[np.argwhere(z==xfrac_zs)]).xi
+		xfrac = xfrac_file.XfracFile(xfrac_files[np.argwhere(xfrac_zs==z)[0,0]]).xi
 	else:
 		z_l = xfrac_zs[xfrac_zs<z].max()
 		z_h = xfrac_zs[xfrac_zs>z].min()
@@ -84,7 +84,7 @@ def coeval_dens(dens_dir, z, interpolation='linear'):
 	dens_zs  = None
 	dens_zs  = lightcone._get_file_redshifts(dens_zs, dens_files)
 	if z in dens_zs:
-		dens, dtype = helper_functions.get_data_and_type(dens_files[np.argwhere(z==dens_zs)])
+		dens, dtype = helper_functions.get_data_and_type(dens_files[np.argwhere(dens_zs==z)[0,0]])
 	else:
 		z_l = dens_zs[dens_zs<z].max()
 		z_h = dens_zs[dens_zs>z].min()
@@ -116,13 +116,13 @@ def coeval_vel(dens_dir, vel_dir, z, interpolation='linear'):
 	vel_files  = glob.glob(vel_dir + '/*v_all.dat')
 	vel_zs     = None
 	vel_zs     = lightcone._get_file_redshifts(vel_zs, vel_files)
-	def get_vel(vel_file, dens_file):
-		dfile = density_file.DensityFile(dens_file)
-		vel_file = vel_file.VelocityFile(vel_file)
-		vel = vel_file.get_kms_from_density(dfile)
-		return vel
+	dens_zs    = lightcone._get_file_redshifts(None, dens_files)
+	def get_vel(vel_filename, dens_filename):
+		dfile = density_file.DensityFile(dens_filename)
+		vfile = vel_file.VelocityFile(vel_filename)
+		return vfile.get_kms_from_density(dfile)
 	if z in vel_zs:
-		vel = get_vel(vel_files[np.argwhere(z==vel_zs)],dens_files[np.argwhere(z==vel_zs)])
+		vel = get_vel(vel_files[np.argwhere(vel_zs==z)[0,0]],dens_files[np.argwhere(dens_zs==z)[0,0]])
 	else:
 		z_l = vel_zs[vel_zs<z].max()
 		z_h = vel_zs[vel_zs>z].min()
-- 
2.43.0


From a4732e9eac2573fcab4e4c924872e0f237209022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:54 +0000
Subject: [PATCH 072/150] fix: coeval readers interpolated between the wrong
 files

---
 src/tools21cm/read_files.py |  8 ++++----
 src/tools21cm/usefuls.py    | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index 07d3857..03c3853 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -124,8 +124,8 @@ def coeval_xfrac_c2ray(xfrac_dir, z, interpolation='linear'):
 	else:
 		z_l = xfrac_zs[xfrac_zs<z].max()
 		z_h = xfrac_zs[xfrac_zs>z].min()
-		xfrac_l = XfracFile(xfrac_files[xfrac_zs[xfrac_zs<z].argmax()]).xi
-		xfrac_h = XfracFile(xfrac_files[xfrac_zs[xfrac_zs>z].argmin()]).xi
+		xfrac_l = XfracFile(xfrac_files[np.argwhere(xfrac_zs==z_l)[0,0]]).xi
+		xfrac_h = XfracFile(xfrac_files[np.argwhere(xfrac_zs==z_h)[0,0]]).xi
 		xfrac = xfrac_h + (xfrac_l-xfrac_h)*(z-z_h)/(z_l-z_h)
 		print("The xfrac cube has been interpolated using %s interpolation." %interpolation)
 		print("CAUTION: This data should be used with care.")
@@ -152,8 +152,8 @@ def coeval_dens_c2ray(dens_dir, z):
 	else:
 		#z_l = dens_zs[dens_zs<z].max()
 		z_h = dens_zs[dens_zs>z].min()
-		#dens_l,dtype = helper_functions.get_data_and_type(dens_files[dens_zs[dens_zs<z].argmax()])
-		dens_h, dtype = helper_functions.get_data_and_type(dens_files[dens_zs[dens_zs>z].argmin()])
+		#dens_l,dtype = helper_functions.get_data_and_type(dens_files[np.argwhere(dens_zs==z_l)[0,0]])
+		dens_h, dtype = helper_functions.get_data_and_type(dens_files[np.argwhere(dens_zs==z_h)[0,0]])
 		#dens = dens_h + (dens_l-dens_h)*(z-z_h)/(z_l-z_h)
 		dens = dens_h*(1+z_h)**3/(1+z)**3
 		#print("The density cube has been interpolated using %s interpolation."%interpolation)
diff --git a/src/tools21cm/usefuls.py b/src/tools21cm/usefuls.py
index 1c44075..a718fb6 100755
--- a/src/tools21cm/usefuls.py
+++ b/src/tools21cm/usefuls.py
@@ -66,8 +66,8 @@ def coeval_xfrac(xfrac_dir, z, interpolation='linear'):
 	else:
 		z_l = xfrac_zs[xfrac_zs<z].max()
 		z_h = xfrac_zs[xfrac_zs>z].min()
-		xfrac_l = xfrac_file.XfracFile(xfrac_files[xfrac_zs[xfrac_zs<z].argmax()]).xi
-		xfrac_h = xfrac_file.XfracFile(xfrac_files[xfrac_zs[xfrac_zs>z].argmin()]).xi
+		xfrac_l = xfrac_file.XfracFile(xfrac_files[np.argwhere(xfrac_zs==z_l)[0,0]]).xi
+		xfrac_h = xfrac_file.XfracFile(xfrac_files[np.argwhere(xfrac_zs==z_h)[0,0]]).xi
 		xfrac = xfrac_h + (xfrac_l-xfrac_h)*(z-z_h)/(z_l-z_h)
 		print("The xfrac cube has been interpolated using", interpolation, "interpolation.")
 	return xfrac
@@ -88,8 +88,8 @@ def coeval_dens(dens_dir, z, interpolation='linear'):
 	else:
 		z_l = dens_zs[dens_zs<z].max()
 		z_h = dens_zs[dens_zs>z].min()
-		dens_l, dtype = helper_functions.get_data_and_type(dens_files[dens_zs[dens_zs<z].argmax()])
-		dens_h, dtype = helper_functions.get_data_and_type(dens_files[dens_zs[dens_zs>z].argmin()])
+		dens_l, dtype = helper_functions.get_data_and_type(dens_files[np.argwhere(dens_zs==z_l)[0,0]])
+		dens_h, dtype = helper_functions.get_data_and_type(dens_files[np.argwhere(dens_zs==z_h)[0,0]])
 		dens = dens_h + (dens_l-dens_h)*(z-z_h)/(z_l-z_h)
 		print("The density cube has been interpolated using", interpolation, "interpolation.")
 	return dens.astype(np.float64)
@@ -126,8 +126,8 @@ def coeval_vel(dens_dir, vel_dir, z, interpolation='linear'):
 	else:
 		z_l = vel_zs[vel_zs<z].max()
 		z_h = vel_zs[vel_zs>z].min()
-		vel_l = get_vel(vel_files[vel_zs[vel_zs<z].argmax()],dens_files[vel_zs[vel_zs<z].argmax()])
-		vel_h = get_vel(vel_files[vel_zs[vel_zs>z].argmin()],dens_files[vel_zs[vel_zs>z].argmin()])
+		vel_l = get_vel(vel_files[np.argwhere(vel_zs==z_l)[0,0]],dens_files[np.argwhere(dens_zs==z_l)[0,0]])
+		vel_h = get_vel(vel_files[np.argwhere(vel_zs==z_h)[0,0]],dens_files[np.argwhere(dens_zs==z_h)[0,0]])
 		vel = vel_h + (vel_l-vel_h)*(z-z_h)/(z_l-z_h)
 		print("The velocity cube has been interpolated using", interpolation, "interpolation.")
 	return vel
-- 
2.43.0


From 434e07e911a765edd5e8c5af6914a85d8e913009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:54 +0000
Subject: [PATCH 073/150] fix: read_c2ray_files crashed for velocity files

---
 src/tools21cm/read_files.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index 03c3853..dfbaa15 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -5,7 +5,8 @@ Methods to read simulations outputs of few popular codes.
 import numpy as np
 import glob
 from .xfrac_file import XfracFile
-from . import helper_functions, density_file, vel_file, lightcone
+from .density_file import DensityFile
+from . import helper_functions, vel_file, lightcone
 from . import temperature as tm
 import sys, os
 
@@ -57,9 +58,9 @@ def read_c2ray_files(filename, file_type='xfrac', density_file=None):
 		out = dens.astype(np.float64)
 	elif file_type=='vel':
 		assert density_file is not None
-		dfile = density_file.DensityFile(density_file)
-		vel_file = vel_file.VelocityFile(filename)
-		out = vel_file.get_kms_from_density(dfile)
+		dfile = DensityFile(density_file)
+		vfile = vel_file.VelocityFile(filename)
+		out = vfile.get_kms_from_density(dfile)
 	return out
 
 def read_grizzly_files(filename):
-- 
2.43.0


From b198f42d4f8bdd7797f011847a1302aece17bef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:54 +0000
Subject: [PATCH 074/150] fix: read_21cmfast_files crashed with recent numpy

---
 src/tools21cm/read_files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index dfbaa15..50e2913 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -18,7 +18,7 @@ def _load_binary_data(filename, dtype=np.float32):
 	f = open(filename, "rb") 
 	data = f.read() 
 	f.close() 
-	_data = np.fromstring(data, dtype) 
+	_data = np.frombuffer(data, dtype).copy() 
 	if sys.byteorder == 'big':
 		_data = _data.byteswap()
 	return _data 
-- 
2.43.0


From 9054633c12688058a9a2ef78e9692a5f53a5dd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 075/150] fix: calc_dt and calc_dt_full could not find the
 redshift of file objects

---
 src/tools21cm/temperature.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/tools21cm/temperature.py b/src/tools21cm/temperature.py
index 815c4ae..bf06ff2 100755
--- a/src/tools21cm/temperature.py
+++ b/src/tools21cm/temperature.py
@@ -68,9 +68,9 @@ def calc_dt(xfrac, dens, z = -1):
 	rho = rho.astype('float64')
 	
 	if z < 0:
-		z = determine_redshift_from_filename(xfrac)
+		z = _get_redshift(xfrac)
 		if z < 0:
-			z = determine_redshift_from_filename(dens)
+			z = _get_redshift(dens)
 		if z < 0:
 			raise Exception('No redshift specified. Could not determine from file.')
 	
@@ -105,9 +105,9 @@ def calc_dt_full(xfrac, dens, temp, z = -1, correct=True):
 	rho = rho.astype('float64')
 	
 	if z < 0:
-		z = determine_redshift_from_filename(xfrac)
-		if z < 0: z = determine_redshift_from_filename(dens)
-		if z < 0: z = determine_redshift_from_filename(temp)
+		z = _get_redshift(xfrac)
+		if z < 0: z = _get_redshift(dens)
+		if z < 0: z = _get_redshift(temp)
 		if z < 0: raise Exception('No redshift specified. Could not determine from file.')
 	
 	print_msg('Making full dT box for z=%f' % z)
@@ -193,6 +193,13 @@ def calc_dt_full_lightcone(xfrac, temp, dens, lowest_z, los_axis = 2, correct=Tr
 	print("Redshift: ", str(z))
 	return _dt_full(dens, xfrac,temp, z, correct)
 
+def _get_redshift(data):
+	'''
+	The redshift of a file name or file object, -1 if unknown. For internal use.
+	'''
+	if isinstance(data, str): return determine_redshift_from_filename(data)
+	return getattr(data, 'z', -1)
+
 def mean_dt(z):
 	'''
 	Get the mean dT at redshift z
-- 
2.43.0


From 2655aff2a4211bb97106f582f978f8a6daefb811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 076/150] fix: brightness temperature of light-cones used the
 redshifts along the wrong axis for los_axis 0 and 1

---
 src/tools21cm/temperature.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/temperature.py b/src/tools21cm/temperature.py
index bf06ff2..9ebba54 100755
--- a/src/tools21cm/temperature.py
+++ b/src/tools21cm/temperature.py
@@ -146,7 +146,7 @@ def calc_dt_lightcone(xfrac, dens, lowest_z, los_axis = 2):
 	cell_size = conv.LB/xfrac.shape[(los_axis+1)%3]
 	cdist_low = cosmo.z_to_cdist(lowest_z)
 	cdist = np.arange(xfrac.shape[los_axis])*cell_size + cdist_low
-	z = cosmo.cdist_to_z(cdist)
+	z = _along_axis(cosmo.cdist_to_z(cdist), los_axis)
 	return _dt(dens, xfrac, z)
 
 def calc_dt_full_lightcone(xfrac, temp, dens, lowest_z, los_axis = 2, correct=True):
@@ -189,7 +189,7 @@ def calc_dt_full_lightcone(xfrac, temp, dens, lowest_z, los_axis = 2, correct=Tr
 	cell_size = conv.LB/xfrac.shape[(los_axis+1)%3]
 	cdist_low = cosmo.z_to_cdist(lowest_z)
 	cdist = np.arange(xfrac.shape[los_axis])*cell_size + cdist_low
-	z = cosmo.cdist_to_z(cdist)
+	z = _along_axis(cosmo.cdist_to_z(cdist), los_axis)
 	print("Redshift: ", str(z))
 	return _dt_full(dens, xfrac,temp, z, correct)
 
@@ -200,6 +200,14 @@ def _get_redshift(data):
 	if isinstance(data, str): return determine_redshift_from_filename(data)
 	return getattr(data, 'z', -1)
 
+def _along_axis(z, axis):
+	'''
+	Reshape the redshifts of the slices, such that they broadcast along the given axis. For internal use.
+	'''
+	shape = [1, 1, 1]
+	shape[axis] = -1
+	return np.asarray(z).reshape(shape)
+
 def mean_dt(z):
 	'''
 	Get the mean dT at redshift z
-- 
2.43.0


From cf622177b3aff4e7e25f5b29bf3ad2d5a02d7e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 077/150] fix: hot fully ionised cells had NaN brightness
 temperature

---
 src/tools21cm/temperature.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/temperature.py b/src/tools21cm/temperature.py
index 9ebba54..e779552 100755
--- a/src/tools21cm/temperature.py
+++ b/src/tools21cm/temperature.py
@@ -264,8 +264,9 @@ def _dt_full(rho, xi, Ts, z, correct):
                 # assuming that the ionized part of the cell is fully ionized
                 # (so a fraction xi of the cell's volume is ionized) and that
                 # the temperature of the ionized part is T_HII
-                Ts_new = (Ts-xi*T_HII)/(1.-xi)
-                Ts_new[Ts_new < T_min] = T_min
+                # (no neutral medium is left in fully ionized cells)
+                Ts_new = np.where(xi < 1., Ts-xi*T_HII, 0.)/np.where(xi < 1., 1.-xi, 1.)
+                Ts_new = np.maximum(Ts_new, T_min)
                 if np.any(Ts_new < 0): print("WARNING: negative temperatures")
         else:
                 Ts_new=Ts
-- 
2.43.0


From e05d5113191267799af2c4a16484f74fa9fab3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 078/150] fix: calc_dt_full_lightcone used the mean redshift of
 the light-cone for all slices

---
 src/tools21cm/temperature.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/tools21cm/temperature.py b/src/tools21cm/temperature.py
index e779552..8dc7afb 100755
--- a/src/tools21cm/temperature.py
+++ b/src/tools21cm/temperature.py
@@ -237,8 +237,6 @@ def _dt(rho, xi, z):
 	return dt
 
 def _dt_full(rho, xi, Ts, z, correct):
-        z = np.mean(z)
-        print("Redshift:" , str(z))
         rho_mean = const.rho_crit_0*const.OmegaB
         Tcmb 	 = const.Tcmb0*(1+z) 
         Cdt      = mean_dt(z)
-- 
2.43.0


From 1d4cd15661b63ef61de18ab65871f260d6bc022a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 079/150] fix: tau_map was wrong for redshifts in descending
 order

---
 src/tools21cm/tau.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/tau.py b/src/tools21cm/tau.py
index 4b4e835..78d05b4 100755
--- a/src/tools21cm/tau.py
+++ b/src/tools21cm/tau.py
@@ -110,7 +110,8 @@ def tau_map(ionfractions, redshifts=None, num_points=50, reading_function=None):
         redshifts = np.sort(np.array(list(ionfractions.keys())))
 
     if isinstance(ionfractions, np.ndarray):
-        lightcone, output_z = ionfractions, redshifts
+        order = np.argsort(redshifts)
+        lightcone, output_z = ionfractions[:, :, order], np.asarray(redshifts)[order]
     else:
         lightcone, output_z = make_lightcone(ionfractions, file_redshifts=redshifts, reading_function=reading_function)
 
-- 
2.43.0


From 8fea8b5dc1b28e64d5d20308579eae279f04e2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 080/150] fix: subtracting or dividing by the mean signal
 crashed for integers and signal_overdensity ignored negative axes

---
 src/tools21cm/statistics.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tools21cm/statistics.py b/src/tools21cm/statistics.py
index 615becf..d263c42 100755
--- a/src/tools21cm/statistics.py
+++ b/src/tools21cm/statistics.py
@@ -72,7 +72,7 @@ def subtract_mean_signal(signal, los_axis=2):
 		
 	TODO:vectorize 
 	'''
-	signal_out = signal.copy()
+	signal_out = signal.astype(np.result_type(signal, np.float32))
 	
 	for i in range(signal.shape[los_axis]):
 		if los_axis in [0,-3]:
@@ -98,14 +98,14 @@ def signal_overdensity(signal, los_axis):
 		
 	TODO:vectorize 
 	'''
-	signal_out = signal.copy()
+	signal_out = signal.astype(np.result_type(signal, np.float32))
 	
 	for i in range(signal.shape[los_axis]):
-		if los_axis == 0:
+		if los_axis in [0,-3]:
 			signal_out[i,:,:] /= signal[i,:,:].mean()
-		if los_axis == 1:
+		if los_axis in [1,-2]:
 			signal_out[:,i,:] /= signal[:,i,:].mean()
-		if los_axis == 2:
+		if los_axis in [2,-1]:
 			signal_out[:,:,i] /= signal[:,:,i].mean()
 
 	return signal_out - 1.
-- 
2.43.0


From 866fad9dc5fa93f5143ed29f87680e13da00a654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 081/150] fix: combined_mean_variance mixed up sample sizes
 when the means are arrays, and crashed for tuples

---
 src/tools21cm/helper_functions.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index bcc588a..59ea498 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -608,16 +608,15 @@ def combined_mean_variance(means, variances, sample_sizes=None):
     (3.2, 0.6666666666666666)
     '''
     # Convert inputs to numpy arrays for easier manipulation
-    if isinstance(means, list) or isinstance(means, dict):
-        means = np.array(list(means.values()) if isinstance(means, dict) else means)
-
-    if isinstance(variances, list) or isinstance(variances, dict):
-        variances = np.array(list(variances.values()) if isinstance(variances, dict) else variances)
+    means = np.asarray(list(means.values()) if isinstance(means, dict) else means)
+    variances = np.asarray(list(variances.values()) if isinstance(variances, dict) else variances)
 
     if sample_sizes is None:
         sample_sizes = np.ones(means.shape)
-    elif isinstance(sample_sizes, list) or isinstance(sample_sizes, dict):
-        sample_sizes = np.array(list(sample_sizes.values()) if isinstance(sample_sizes, dict) else sample_sizes)
+    else:
+        sample_sizes = np.asarray(list(sample_sizes.values()) if isinstance(sample_sizes, dict) else sample_sizes)
+        #one sample size per dataset, whatever the shape of its mean
+        sample_sizes = sample_sizes.reshape(sample_sizes.shape + (1,)*(means.ndim-sample_sizes.ndim))
 
     # Calculate combined mean
     mean_comb = np.sum(sample_sizes * means, axis=0) / np.sum(sample_sizes, axis=0)
-- 
2.43.0


From a22eef6c1b6836dd88449ab49d7cc696d9402a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 082/150] fix: make_pv_box used the first velocity component
 for every line of sight

---
 src/tools21cm/pv_mpm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/pv_mpm.py b/src/tools21cm/pv_mpm.py
index a2c01a9..f5da74a 100755
--- a/src/tools21cm/pv_mpm.py
+++ b/src/tools21cm/pv_mpm.py
@@ -153,6 +153,6 @@ def make_pv_box(dT_filename, vel_filename, dens_filename, z, los = 0, num_partic
     dfile = density_file.DensityFile(dens_filename)
     kms = vfile.get_kms_from_density(dfile)
     dT_pv = get_distorted_dt(dT, kms, redsh = z, los_axis = los, \
-                            num_particles = num_particles)
+                            velocity_axis = los, num_particles = num_particles)
     return dT_pv
 
-- 
2.43.0


From b99f9a2aecda0bb89a39606d63b735d224decaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 083/150] fix: HaloRockstar ignored every positive
 max_select_number and read nothing

---
 src/tools21cm/halo_list.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index 344066a..a949022 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -95,7 +95,7 @@ class HaloRockstar:
 				vals = line.split()
 				
 				#Create a halo and add it to the list
-				if(len(self.halos) > max_select_number):
+				if(max_select_number < 0 or len(self.halos) < max_select_number):
 					halo = Halo()
 					halo.pos = np.array(vals[idx_pos:idx_pos+3]).astype(float) #* U.Mpc/self.h
 					halo.vel = np.array(vals[idx_vel:idx_vel+3]).astype(float) #* U.km/U.s
@@ -107,7 +107,8 @@ class HaloRockstar:
 					halo.mp = int(round(halo.m / self.part_mass, 0))
 					self.halos.append(halo)
 				else:
-					break
+					fileinput.close()
+					return False
 		
 		fileinput.close()
 		return True
-- 
2.43.0


From 5d935c6eefa66870007d08983d227014ae2e6603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 084/150] fix: reading a second Rockstar file appended to the
 haloes of the first one

---
 src/tools21cm/halo_list.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index a949022..81a5fa2 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -47,6 +47,8 @@ class HaloRockstar:
 			True if all the halos were read. False otherwise.
 		'''
 
+		self.halos = []
+
 		print_msg('Reading Rockstar Halo Catalog %s...' % filename)
 		self.filename = filename
 		
-- 
2.43.0


From 085eddec2320c37b9070835be202dd8c93dd9e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 085/150] fix: halo lists selected by a shape parameter instead
 of the halo mass

---
 src/tools21cm/halo_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index 81a5fa2..59c18f0 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -231,7 +231,7 @@ class HaloCubeP3MFull:
 						# print('skipping this line')
 						continue
 				# print('VALS:', vals)
-				grid_mass = float(vals[-3])
+				grid_mass = float(vals[16])
 
 				# Create a halo and add it to the list
 				if grid_mass > min_select_grid_mass and (max_select_mass == None or grid_mass < max_select_grid_mass):
@@ -516,7 +516,7 @@ class HaloList:
 			linenumber += 1
 
 			vals = line.split()			
-			grid_mass = float(vals[-3])
+			grid_mass = float(vals[16])
 
 			#Create a halo and add it to the list
 			if grid_mass > min_select_grid_mass and (max_select_mass == None or grid_mass < max_select_grid_mass):
-- 
2.43.0


From b905c7211bab7b7a67d3a46a87004cff4e85599e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 086/150] fix: negative components of the angular momentum of
 haloes became nan

---
 src/tools21cm/halo_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index 59c18f0..fe78451 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -245,7 +245,7 @@ class HaloCubeP3MFull:
 						halo.pos    = self._reposition(np.array([float(i) for i in vals[:3]]) * self.box_len / self.nbox_fine) # same units as box_len
 						halo.pos_cm = self._reposition(np.array([float(i) for i in vals[3:6]]) * self.box_len / self.nbox_fine) # same units as box_len
 						halo.vel = conv.gridvel_to_kms(gridvel=np.array([float(i) for i in vals[6:9]]), z=self.z)	# km/s
-						halo.l   = 10**(conv.gridmass_to_msol(conv.gridpos_to_mpc(conv.gridvel_to_kms(gridvel=np.array([float(i) for i in vals[9:12]]), z=self.z)))) * const.h * const.h # Msun/h * Mpc/h * km/s
+						halo.l   = conv.gridpos_to_mpc(conv.gridvel_to_kms(gridvel=np.array([float(i) for i in vals[9:12]]), z=self.z)) * conv.M_grid * const.solar_masses_per_gram * const.h * const.h # Msun/h * Mpc/h * km/s
 						halo.vel_disp = conv.gridvel_to_kms(gridvel=np.array([float(i) for i in vals[12:15]]), z=self.z)	# km/s
 						halo.m  = 10**(conv.gridmass_to_msol(float(vals[16]))) * const.h # Msun/h
 						halo.mp = float(vals[17])
@@ -409,7 +409,7 @@ class HaloCubeP3M:
 					halo.r = conv.gridpos_to_mpc(halo.r) * const.h 				# Mpc/h
 					halo.pos_cm = self._reposition(pos=conv.gridpos_to_mpc(halo.pos_cm) * const.h)	# Mpc/h
 					halo.vel = conv.gridvel_to_kms(gridvel=halo.vel, z=self.z)	# km/s
-					halo.l = 10**(conv.gridmass_to_msol(conv.gridpos_to_mpc(conv.gridvel_to_kms(gridvel=halo.l, z=self.z)))) * const.h * const.h # Msun/h * Mpc/h * km/s
+					halo.l = conv.gridpos_to_mpc(conv.gridvel_to_kms(gridvel=halo.l, z=self.z)) * (conv.M_grid * const.solar_masses_per_gram) * const.h * const.h # Msun/h * Mpc/h * km/s
 					halo.vel_disp = conv.gridvel_to_kms(gridvel=halo.vel_disp, z=self.z)	# km/s
 
 				self.halos.append(halo)
-- 
2.43.0


From 9fb00e0d1d935a3005b5f9560c6aec33349e6702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 087/150] fix: HaloCubeP3M rejected redshift 0

---
 src/tools21cm/halo_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index fe78451..6b7b8b0 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -316,7 +316,7 @@ class HaloCubeP3M:
 		'''
 
 		self.halos = []
-		if not z:
+		if z is None:
 			raise NameError('Redshift value not specified, please define.')
 
 		if filespath:
-- 
2.43.0


From c1955aaafe7791d065a5069e57726a2c3dd638a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 088/150] fix: halo lists crashed for max_select_mass=0

---
 src/tools21cm/halo_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index 6b7b8b0..316dc59 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -210,7 +210,7 @@ class HaloCubeP3MFull:
 		tstart = time()
 		
 		min_select_grid_mass = min_select_mass/(conv.M_grid*const.solar_masses_per_gram)
-		if max_select_mass:
+		if max_select_mass is not None:
 				print_msg('Max_select_mass: %g' % max_select_mass)
 				max_select_grid_mass = max_select_mass/(conv.M_grid*const.solar_masses_per_gram)
 
@@ -500,7 +500,7 @@ class HaloList:
 		#Read the file line by line, since it's large
 		linenumber = 1
 		min_select_grid_mass = min_select_mass/(conv.M_grid*const.solar_masses_per_gram)
-		if max_select_mass:
+		if max_select_mass is not None:
 			print_msg('Max_select_mass: %g' % max_select_mass)
 			max_select_grid_mass = max_select_mass/(conv.M_grid*const.solar_masses_per_gram)
 
-- 
2.43.0


From dca04b9a56630b85683d64fc2e10c45fa47092d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 089/150] fix: after a failed read of a halo list no other halo
 list could be read

---
 src/tools21cm/halo_list.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index 316dc59..e638446 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -56,7 +56,8 @@ class HaloRockstar:
 		from astropy import units as U
 
 		#Read the file line by line, since it's large
-		for linenumber, line in tqdm(enumerate(fileinput.input(filename))):
+		halo_file = fileinput.FileInput(filename)
+		for linenumber, line in tqdm(enumerate(halo_file)):
 			if(linenumber == 0):
 				# Store the variable from the file header
 				header = line.split()
@@ -109,10 +110,10 @@ class HaloRockstar:
 					halo.mp = int(round(halo.m / self.part_mass, 0))
 					self.halos.append(halo)
 				else:
-					fileinput.close()
+					halo_file.close()
 					return False
 		
-		fileinput.close()
+		halo_file.close()
 		return True
 	
 	def get(self, var=None):
@@ -214,12 +215,13 @@ class HaloCubeP3MFull:
 				print_msg('Max_select_mass: %g' % max_select_mass)
 				max_select_grid_mass = max_select_mass/(conv.M_grid*const.solar_masses_per_gram)
 
-		for line in tqdm(fileinput.input(filename)):
+		halo_file = fileinput.FileInput(filename)
+		for line in tqdm(halo_file):
 				if linenumber < startline: #If you want to read from a particular line
 						linenumber += 1
 						continue
 				if max_select_number >= 0 and len(self.halos) >= max_select_number:
-						fileinput.close()
+						halo_file.close()
 						return False
 				if linenumber % 100000 == 0:
 						print_msg(f'{linenumber} lines read in {(time()-tstart):.2f} s' )
@@ -256,7 +258,7 @@ class HaloCubeP3MFull:
 
 				# if linenumber==50:
 				#         break
-		fileinput.close()
+		halo_file.close()
 			
 		print(f'Total number of lines read: {linenumber-1}')
 		print(f'Number of lines skipped   : {skipped_lines}')
@@ -504,12 +506,13 @@ class HaloList:
 			print_msg('Max_select_mass: %g' % max_select_mass)
 			max_select_grid_mass = max_select_mass/(conv.M_grid*const.solar_masses_per_gram)
 
-		for line in tqdm(fileinput.input(filename)):
+		halo_file = fileinput.FileInput(filename)
+		for line in tqdm(halo_file):
 			if linenumber < startline: #If you want to read from a particular line
 				linenumber += 1
 				continue
 			if max_select_number >= 0 and len(self.halos) >= max_select_number:
-				fileinput.close()
+				halo_file.close()
 				return False
 			if linenumber % 100000 == 0:
 				print_msg('Read %d lines' % linenumber)
@@ -538,6 +541,6 @@ class HaloList:
 				halo.solar_masses = grid_mass*conv.M_grid*const.solar_masses_per_gram
 				self.halos.append(halo)
 
-		fileinput.close()
+		halo_file.close()
 
 		return True
-- 
2.43.0


From 293be941af128ea063278d8aa789ce43e2002e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 090/150] fix: Halo2Grid.set_halo_pos crashed without a unit

---
 src/tools21cm/nbody_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/nbody_file.py b/src/tools21cm/nbody_file.py
index 4a036fe..c6c6374 100755
--- a/src/tools21cm/nbody_file.py
+++ b/src/tools21cm/nbody_file.py
@@ -203,7 +203,9 @@ class Halo2Grid:
 		self.pos_grid = None
 
 	def set_halo_pos(self, pos, unit=None):
-		if unit.lower()=='cm':
+		if unit is None:
+			self.pos_grid = pos
+		elif unit.lower()=='cm':
 			self.pos_cm_to_grid(pos) 
 		elif unit.lower()=='mpc':
 			self.pos_mpc_to_grid(pos)
-- 
2.43.0


From 1406093473c55280fd4d8dd006e23e128e797bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 091/150] fix: Halo2Grid.halo_mass_on_grid used the positions
 as masses

---
 src/tools21cm/nbody_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/nbody_file.py b/src/tools21cm/nbody_file.py
index c6c6374..e44fb73 100755
--- a/src/tools21cm/nbody_file.py
+++ b/src/tools21cm/nbody_file.py
@@ -201,6 +201,7 @@ class Halo2Grid:
 		self.mpc_to_cm = 3.085677581491367e+24 # in cm
 		self.Msun_to_g = 1.988409870698051e+33 # in gram
 		self.pos_grid = None
+		self.mass_Msun = None
 
 	def set_halo_pos(self, pos, unit=None):
 		if unit is None:
@@ -258,7 +259,7 @@ class Halo2Grid:
 		if pos is None:
 			print('Provide the halo positions via parameter "pos".')
 			return None
-		mass = kwargs.get('mass', self.pos_grid)
+		mass = kwargs.get('mass', self.mass_Msun)
 		if mass is None:
 			print('Provide the halo masses via parameter "mass".')
 			return None
-- 
2.43.0


From f46aa1f43e6a6a459d8283f58870010c7ae6aa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 092/150] fix: haloes were put on a grid spanning only the
 haloes instead of the box

---
 src/tools21cm/nbody_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/nbody_file.py b/src/tools21cm/nbody_file.py
index e44fb73..495a93c 100755
--- a/src/tools21cm/nbody_file.py
+++ b/src/tools21cm/nbody_file.py
@@ -251,7 +251,7 @@ class Halo2Grid:
 		# https://docs.scipy.org/doc/scipy/reference/generated/scipy.stats.binned_statistic_dd.html
 		statistic = kwargs.get('statistic', 'sum')
 		bins = kwargs.get('bins', self.n_grid)
-		binned_mass, bin_edges, bin_num = binned_statistic_dd(positions, values, statistic=statistic, bins=bins)
+		binned_mass, bin_edges, bin_num = binned_statistic_dd(positions, values, statistic=statistic, bins=bins, range=[(0, self.n_grid)]*3)
 		return binned_mass, bin_edges, bin_num
 	
 	def halo_mass_on_grid(self, **kwargs):
-- 
2.43.0


From 120a23bf4d06717c0875f035d14d4300233a439d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 093/150] fix: halo_list_to_grid took the unit of the positions
 from the masses

---
 src/tools21cm/nbody_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/nbody_file.py b/src/tools21cm/nbody_file.py
index 495a93c..2c8ba0c 100755
--- a/src/tools21cm/nbody_file.py
+++ b/src/tools21cm/nbody_file.py
@@ -311,7 +311,7 @@ def halo_list_to_grid(mass, pos_xyz, box_dim, n_grid):
 	else:
 		print('The provided halo mass is assumed to be in Msun units.')
 		mhalo_msun = mass 
-	if isinstance(mass, astropy.units.quantity.Quantity):
+	if isinstance(pos_xyz, astropy.units.quantity.Quantity):
 		srcpos_mpc = pos_xyz.to('Mpc').value
 	else:
 		print('The provided halo mass is assumed to be in Mpc units.')
-- 
2.43.0


From 9c3322db52253f1e25032a4e4f008bbc74055a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 094/150] fix: halo_mass_to_particle_number used the particle
 mass as a number of particles

---
 src/tools21cm/nbody_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/nbody_tools.py b/src/tools21cm/nbody_tools.py
index accddf3..1f20242 100755
--- a/src/tools21cm/nbody_tools.py
+++ b/src/tools21cm/nbody_tools.py
@@ -38,7 +38,7 @@ def ParticleMass_to_ParticleNumber(Lbox, particle_mass, cosmo='Planck18'):
 
 def halo_mass_to_particle_number(Lbox, halo_mass, particles_in_halo, cosmo='Planck18'):
     particle_mass = halo_mass/particles_in_halo
-    return particle_number_to_particle_mass(Lbox, particle_mass, cosmo=cosmo)
+    return ParticleMass_to_ParticleNumber(Lbox, particle_mass, cosmo=cosmo)
 
 def particle_number_to_particle_mass(Lbox, particle_each_direction=None, particle_total=None, cosmo='Planck18'):
     particle_number = particle_each_direction if particle_each_direction is not None else np.cbrt(particle_total)
-- 
2.43.0


From 80d0566f0c8f211c47cd96f09ec6bbef5a6f4f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 095/150] fix: haloes beyond the edge of the periodic box were
 lost or stretched the grid

---
 src/tools21cm/nbody_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/nbody_file.py b/src/tools21cm/nbody_file.py
index 2c8ba0c..d0ad2dc 100755
--- a/src/tools21cm/nbody_file.py
+++ b/src/tools21cm/nbody_file.py
@@ -251,7 +251,8 @@ class Halo2Grid:
 		# https://docs.scipy.org/doc/scipy/reference/generated/scipy.stats.binned_statistic_dd.html
 		statistic = kwargs.get('statistic', 'sum')
 		bins = kwargs.get('bins', self.n_grid)
-		binned_mass, bin_edges, bin_num = binned_statistic_dd(positions, values, statistic=statistic, bins=bins, range=[(0, self.n_grid)]*3)
+		positions = np.mod(positions, self.n_grid) # periodic box
+		binned_mass, bin_edges, bin_num = binned_statistic_dd(positions, values, statistic=statistic, bins=bins, range=[(0, self.n_grid)]*np.shape(positions)[1])
 		return binned_mass, bin_edges, bin_num
 	
 	def halo_mass_on_grid(self, **kwargs):
-- 
2.43.0


From 9859d951f0a08ab3e0dc3279c0900087832b13b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 096/150] fix: halo_list_to_grid ignored the unit of the box
 length

---
 src/tools21cm/nbody_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools21cm/nbody_file.py b/src/tools21cm/nbody_file.py
index d0ad2dc..8bfd5f4 100755
--- a/src/tools21cm/nbody_file.py
+++ b/src/tools21cm/nbody_file.py
@@ -318,6 +318,8 @@ def halo_list_to_grid(mass, pos_xyz, box_dim, n_grid):
 		print('The provided halo mass is assumed to be in Mpc units.')
 		srcpos_mpc = pos_xyz 
 
+	if isinstance(box_dim, astropy.units.quantity.Quantity):
+		box_dim = box_dim.to('Mpc').value
 	hg = Halo2Grid(box_len=box_dim, n_grid=n_grid)
 	hg.set_halo_pos(srcpos_mpc, unit='mpc')
 	hg.set_halo_mass(mhalo_msun, unit='Msun')
-- 
2.43.0


From 272e9ad7f5d7b34977bba837d7a97d288e2e8d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 097/150] fix: M_HI_on_grid took the unit of the positions from
 the masses

---
 src/tools21cm/line_intensity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/line_intensity.py b/src/tools21cm/line_intensity.py
index 0960084..dd3e648 100755
--- a/src/tools21cm/line_intensity.py
+++ b/src/tools21cm/line_intensity.py
@@ -49,7 +49,7 @@ def M_HI_on_grid(z, mass, pos_xyz, box_dim, n_grid, cosmo=None,
     else:
         print('The provided halo mass is assumed to be in Msun units.')
         mhalo = mass*units.Msun
-    if isinstance(mass, units.quantity.Quantity):
+    if isinstance(pos_xyz, units.quantity.Quantity):
         srcpos = pos_xyz.to('Mpc')
     else:
         print('The provided halo mass is assumed to be in Mpc units.')
-- 
2.43.0


From ceb68a67e00683588fb09f2ad2c221c3547d2ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 098/150] fix: halo masses in single precision overflowed to
 infinity

---
 src/tools21cm/conv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/conv.py b/src/tools21cm/conv.py
index 76d0bd2..d8e68dc 100755
--- a/src/tools21cm/conv.py
+++ b/src/tools21cm/conv.py
@@ -105,4 +105,4 @@ def gridmass_to_msol(grid_mass):
 	Returns:
 		The mass in log10(Msol) 
 	'''
-	return np.log10(grid_mass*M_grid*const.solar_masses_per_gram)
+	return np.log10(grid_mass*(M_grid*const.solar_masses_per_gram))
-- 
2.43.0


From 39fddbc9b09ae9e8553c080091859ea55dee8440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 099/150] fix: uv maps with an odd number of cells were shifted
 by one cell

---
 src/tools21cm/radio_telescope_layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_layout.py b/src/tools21cm/radio_telescope_layout.py
index ed23305..b9f6b82 100755
--- a/src/tools21cm/radio_telescope_layout.py
+++ b/src/tools21cm/radio_telescope_layout.py
@@ -265,7 +265,7 @@ def grid_uv_tracks(Nbase, z, ncells, boxsize=None, include_mirror_baselines=Fals
         # uv_map += np.flip(np.flip(uv_map, axis=0), axis=1)  # Flip along both axes for mirror effect
         uv_map = uv_map/2.  # Average with mirrored baselines
     
-    return np.fft.fftshift(uv_map)
+    return np.fft.ifftshift(uv_map)
 
 def geographic_to_cartesian_coordinate_system(antll):
     """
-- 
2.43.0


From ae87ea14d4b2d477ebb14b55fdb4fe6616ccf46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 100/150] fix: a telescope of two antennas crashed the uv
 simulation

---
 src/tools21cm/radio_telescope_layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_layout.py b/src/tools21cm/radio_telescope_layout.py
index b9f6b82..7e30bbe 100755
--- a/src/tools21cm/radio_telescope_layout.py
+++ b/src/tools21cm/radio_telescope_layout.py
@@ -143,7 +143,7 @@ def earth_rotation_effect(Nbase, slice_nums, int_time, total_int_time, declinati
     new_Nbase[:, :, 2] = (cos_delta * cos_HA[:, None] * Nbase[:, 0] -
                           cos_delta * sin_HA[:, None] * Nbase[:, 1] + sin_delta * Nbase[:, 2])
     
-    return new_Nbase.squeeze() if len(slice_nums) == 1 else new_Nbase
+    return new_Nbase[0] if len(slice_nums) == 1 else new_Nbase
 
 def get_uv_daily_observation(ncells, z, antxyz=None, total_int_time=4., int_time=10., boxsize=None, declination=-30., include_mirror_baselines=False, verbose=True):
     """
-- 
2.43.0


From 0636691bb38a82daacb35711c5474404f9a4dc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 101/150] fix: antenna positions given as plain arrays crashed
 the uv simulation

---
 src/tools21cm/radio_telescope_calibration.py | 4 ++--
 src/tools21cm/radio_telescope_layout.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/radio_telescope_calibration.py b/src/tools21cm/radio_telescope_calibration.py
index 1bc88e5..62ad8e2 100755
--- a/src/tools21cm/radio_telescope_calibration.py
+++ b/src/tools21cm/radio_telescope_calibration.py
@@ -55,7 +55,7 @@ def from_antenna_config_with_gains(antxyz, z, nu=None,
         antll  = antll[:,-2:].astype(float)
         antxyz = geographic_to_cartesian_coordinate_system(antll)
     else:
-        antxyz = antxyz.to('m').value
+        antxyz = u.Quantity(antxyz, 'm').value
     if not nu: 
         nu = cm.z_to_nu(z)                           # MHz
 
@@ -312,7 +312,7 @@ def from_antenna_config_with_antenna_stamp(antxyz, z, nu=None):
         antll  = antll[:,-2:].astype(float)
         antxyz = geographic_to_cartesian_coordinate_system(antll)
     else:
-        antxyz = antxyz.to('m').value
+        antxyz = u.Quantity(antxyz, 'm').value
     if not nu: 
         nu = cm.z_to_nu(z)                                 # MHz
 
diff --git a/src/tools21cm/radio_telescope_layout.py b/src/tools21cm/radio_telescope_layout.py
index 7e30bbe..b117c9a 100755
--- a/src/tools21cm/radio_telescope_layout.py
+++ b/src/tools21cm/radio_telescope_layout.py
@@ -32,7 +32,7 @@ def subarray_type_to_antxyz(subarray_type, verbose=True):
     if isinstance(subarray_type, str):
         antxyz = get_SKA_Low_layout(subarray_type=subarray_type, unit='xyz', verbose=verbose)
     elif isinstance(subarray_type, np.ndarray): 
-        antxyz = subarray_type
+        antxyz = subarray_type if isinstance(subarray_type, u.Quantity) else subarray_type*u.m
     else:
         antll  = SKA1_LowConfig_Sept2016()
         antxyz = geographic_to_cartesian_coordinate_system(antll)*u.m
@@ -68,7 +68,7 @@ def from_antenna_config(antxyz, z, nu=None):
         antll  = antll[:,-2:].astype(float)
         antxyz = geographic_to_cartesian_coordinate_system(antll)
     else:
-        antxyz = antxyz.to('m').value
+        antxyz = u.Quantity(antxyz, 'm').value
     if not nu: 
         nu = cm.z_to_nu(z)                           # MHz
 
-- 
2.43.0


From 5bf13add9105a2082eedbd2ea2b6e015b654d350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 102/150] fix: cartesian_to_geographic_coordinate_system never
 worked

---
 src/tools21cm/radio_telescope_layout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/radio_telescope_layout.py b/src/tools21cm/radio_telescope_layout.py
index b117c9a..3a304f8 100755
--- a/src/tools21cm/radio_telescope_layout.py
+++ b/src/tools21cm/radio_telescope_layout.py
@@ -337,8 +337,8 @@ def cartesian_to_geographic_coordinate_system(antxyz):
     Re = 6371. * u.km  # Earth's radius
 
     # Extract Cartesian coordinates and attach units
-    if isinstance(antxyz, u.quantity.Quantity):
-        antxyz *= u.m
+    if not isinstance(antxyz, u.quantity.Quantity):
+        antxyz = antxyz*u.m
     x = antxyz[:, 0]
     y = antxyz[:, 1]
     z = antxyz[:, 2]
-- 
2.43.0


From 32e2286a5a9ae8f9f7d16efbb10f4989789bbda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 103/150] fix: the baseline cut of get_uv_map was not centred
 on the zero mode

---
 src/tools21cm/radio_telescope_noise.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 7f20458..0e19cfa 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -614,12 +614,12 @@ def get_uv_map(ncells, z, subarray_type="AA4", total_int_time=6., int_time=10.,
 	uv_map, N_ant  = get_uv_daily_observation(ncells, z, antxyz, total_int_time=total_int_time, int_time=int_time, boxsize=boxsize, declination=declination, include_mirror_baselines=include_mirror_baselines, verbose=verbose)
 	if max_baseline is not None:
 		kcut = max_baseline_to_max_k(z, max_baseline)
-		kk = np.linspace(-ncells/2, ncells/2, ncells) * np.pi / boxsize
-		kx, ky = np.meshgrid(kk, kk)
+		kk = np.fft.fftshift(np.fft.fftfreq(ncells)) * ncells * np.pi / boxsize
+		kx, ky = np.meshgrid(kk, kk, indexing='ij')
 		ksq = kx**2 + ky**2
 		uv_map_shift = np.fft.fftshift(uv_map)
 		uv_map_shift[ksq>kcut**2] = 0.0
-		uv_map = np.fft.fftshift(uv_map_shift)
+		uv_map = np.fft.ifftshift(uv_map_shift)
 	return uv_map, N_ant
 
 def make_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int_time=10., boxsize=None, declination=-30., verbose=True):
-- 
2.43.0


From 758d6f413d1c3867a288bfac39fde8ea04a4a65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 104/150] fix: the gain and antenna uv maps took the
 declination for the observation time and ignored it

---
 src/tools21cm/radio_telescope_calibration.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/tools21cm/radio_telescope_calibration.py b/src/tools21cm/radio_telescope_calibration.py
index 62ad8e2..900744f 100755
--- a/src/tools21cm/radio_telescope_calibration.py
+++ b/src/tools21cm/radio_telescope_calibration.py
@@ -172,7 +172,7 @@ def get_uv_map_with_gains(ncells, z,
             Nbase, N_ant = from_antenna_config_with_gains(antxyz, z, gain_model=gain_model)
 
         # Apply incremental rotation for the time step
-        rotated_Nbase = earth_rotation_effect(Nbase[:,:3], time_idx, int_time, declination)
+        rotated_Nbase = earth_rotation_effect(Nbase[:,:3], time_idx, int_time, total_int_time, declination)
 
         # Grid the rotated baselines with gain values
         _grid_uv_tracks_with_gains(rotated_Nbase, Nbase[:,3:], gain_uv_map, z, ncells,
@@ -392,7 +392,7 @@ def get_full_uv_map_with_antenna_stamp(ncells, z, subarray_type="AA4", total_int
     # Parallel processing with progress bar for the first chunk
     results = Parallel(n_jobs=n_jobs)(
         delayed(_process_chunk_get_full_uv_map_with_antenna_stamp)(
-            chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0))
+            chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0), total_int_time=total_int_time)
             for i, (chunk_start, chunk_end) in enumerate(chunks)
     )
 
@@ -404,7 +404,7 @@ def get_full_uv_map_with_antenna_stamp(ncells, z, subarray_type="AA4", total_int
 
     return ant_tag_uv_map, N_ant
 
-def _process_chunk_get_full_uv_map_with_antenna_stamp(chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress):
+def _process_chunk_get_full_uv_map_with_antenna_stamp(chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress, total_int_time):
     """
     Process a chunk of time slices.
 
@@ -449,7 +449,7 @@ def _process_chunk_get_full_uv_map_with_antenna_stamp(chunk_start, chunk_end, nc
         time_indices = tqdm(time_indices, desc="Gridding uv tracks", disable=not verbose)
 
     for time_idx in time_indices:
-        rotated_Nbase = earth_rotation_effect(Nbase[:, :3], time_idx, int_time, declination)
+        rotated_Nbase = earth_rotation_effect(Nbase[:, :3], time_idx, int_time, total_int_time, declination)
         _grid_uv_tracks_with_antenna_stamp(rotated_Nbase, Nbase[:, 3:], ant_tag_uv_map_chunk, z, ncells, time_idx - chunk_start,
                                           boxsize=boxsize, include_mirror_baselines=include_mirror_baselines)
 
@@ -591,7 +591,7 @@ def get_full_uv_lagrangian_with_antenna_stamp(ncells, z, subarray_type="AA4", to
     # Parallel processing with progress bar for the first chunk
     results = Parallel(n_jobs=n_jobs)(
         delayed(_process_chunk_get_full_uv_lagrangian_with_antenna_stamp)(
-            chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0))
+            chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0), total_int_time=total_int_time)
             for i, (chunk_start, chunk_end) in enumerate(chunks)
     )
 
@@ -604,7 +604,7 @@ def get_full_uv_lagrangian_with_antenna_stamp(ncells, z, subarray_type="AA4", to
     ant_pairs = Nbase[:,-2:]
     return ant_tag_uv_lagr, ant_pairs
 
-def _process_chunk_get_full_uv_lagrangian_with_antenna_stamp(chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress):
+def _process_chunk_get_full_uv_lagrangian_with_antenna_stamp(chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress, total_int_time):
     """
     Processes a chunk of observation time slices for parallel computation.
 
@@ -650,7 +650,7 @@ def _process_chunk_get_full_uv_lagrangian_with_antenna_stamp(chunk_start, chunk_
         time_indices = tqdm(time_indices, desc="Gridding uv tracks", disable=not verbose)
 
     for time_idx in time_indices:
-        rotated_Nbase = earth_rotation_effect(Nbase[:, :3], time_idx, int_time, declination)
+        rotated_Nbase = earth_rotation_effect(Nbase[:, :3], time_idx, int_time, total_int_time, declination)
         _grid_uv_lagrangian_tracks_with_antenna_stamp(rotated_Nbase, Nbase[:, 3:], ant_tag_uv_map_chunk, z, ncells, time_idx - chunk_start,
                                           boxsize=boxsize, include_mirror_baselines=include_mirror_baselines)
 
-- 
2.43.0


From d63833c39f6ccfa75d42549a209c8285046afdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 105/150] fix: antenna uv maps crashed for fewer time steps
 than jobs

---
 src/tools21cm/radio_telescope_calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/radio_telescope_calibration.py b/src/tools21cm/radio_telescope_calibration.py
index 900744f..9f0ed8d 100755
--- a/src/tools21cm/radio_telescope_calibration.py
+++ b/src/tools21cm/radio_telescope_calibration.py
@@ -386,7 +386,7 @@ def get_full_uv_map_with_antenna_stamp(ncells, z, subarray_type="AA4", total_int
         print(f"Starting UV map generation on {n_jobs} CPUs...")
 
     # Split the workload into chunks
-    chunk_size = total_observations // n_jobs
+    chunk_size = max(1, total_observations // n_jobs)
     chunks = [(i, min(i + chunk_size, total_observations)) for i in range(0, total_observations, chunk_size)]
 
     # Parallel processing with progress bar for the first chunk
@@ -585,7 +585,7 @@ def get_full_uv_lagrangian_with_antenna_stamp(ncells, z, subarray_type="AA4", to
         print(f"Starting UV map generation on {n_jobs} CPUs...")
 
     # Split the workload into chunks
-    chunk_size = total_observations // n_jobs
+    chunk_size = max(1, total_observations // n_jobs)
     chunks = [(i, min(i + chunk_size, total_observations)) for i in range(0, total_observations, chunk_size)]
 
     # Parallel processing with progress bar for the first chunk
-- 
2.43.0


From 007aae3ee76d6bc4162220e0e35ce29a01f60804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 106/150] fix: baselines outside the grid shifted the tracks of
 all later baselines

---
 src/tools21cm/radio_telescope_calibration.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tools21cm/radio_telescope_calibration.py b/src/tools21cm/radio_telescope_calibration.py
index 9f0ed8d..28854cc 100755
--- a/src/tools21cm/radio_telescope_calibration.py
+++ b/src/tools21cm/radio_telescope_calibration.py
@@ -711,10 +711,8 @@ def _grid_uv_lagrangian_tracks_with_antenna_stamp(Nbase, ant_tag, ant_tag_uv_map
     ant_tag1, ant_tag2 = ant_tag[:,0], ant_tag[:,1]
     Nb, ant_tag1, ant_tag2 = Nb[in_bounds], ant_tag1[in_bounds], ant_tag2[in_bounds]
     
-    count = 0
-    for (x, y), ant1, ant2 in zip(Nb[:, :2].astype(int), ant_tag1.astype(int), ant_tag2.astype(int)):
+    for count, (x, y) in zip(np.flatnonzero(in_bounds), Nb[:, :2].astype(int)):
         ant_tag_uv_map[time_idx, count, 0] = x
         ant_tag_uv_map[time_idx, count, 1] = y
-        count += 1
         if include_mirror_baselines:
             print('include_mirror_baselines is not implemented yet.')
\ No newline at end of file
-- 
2.43.0


From cbc5bd18284d626d3ecbf7dc4021571a4cb87490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:46 +0000
Subject: [PATCH 107/150] fix: write_dictionary_data rejected formats in upper
 case

---
 src/tools21cm/read_files.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index 50e2913..936edb2 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -246,6 +246,7 @@ def write_dictionary_data(data_dict, filename, format=None):
 	"""
 	if format is None:
 		format = os.path.splitext(filename)[1].lstrip('.').lower()
+	format = format.lower()
 
 	if format in ['pickle', 'pkl']:
 		import pickle
-- 
2.43.0


From 00c849997751a2459d5488b7e60cad545b1e680e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:46 +0000
Subject: [PATCH 108/150] fix: npz dictionaries without the extension npz were
 written to another file

---
 src/tools21cm/read_files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index 936edb2..fd885ab 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -281,7 +281,8 @@ def write_dictionary_data(data_dict, filename, format=None):
 			recursive_save(f, data_dict)
 
 	elif format == 'npz':
-		np.savez(filename, **data_dict)
+		with open(filename, 'wb') as f:
+			np.savez(f, **data_dict)
 
 	elif format in ['nc', 'netcdf']:
 		import xarray as xr
-- 
2.43.0


From 628e9c1791bd9d3b1f2ee28525ba5306e12133c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:46 +0000
Subject: [PATCH 109/150] fix: an interrupted write of a dictionary destroyed
 the existing file and all uv maps in it

---
 src/tools21cm/read_files.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index fd885ab..bd51620 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -244,10 +244,24 @@ def write_dictionary_data(data_dict, filename, format=None):
 	Writes a dictionary to various file formats.
 	Supports: pickle, json, yaml, hdf5, npz, netcdf (xarray), csv, xlsx
 	"""
+	root, ext = os.path.splitext(filename)
 	if format is None:
-		format = os.path.splitext(filename)[1].lstrip('.').lower()
+		format = ext.lstrip('.').lower()
 	format = format.lower()
 
+	if format == 'zarr': # a directory
+		return _write_dictionary_file(data_dict, filename, format)
+
+	# An interrupted write must not destroy an existing file: write a temporary file and move it.
+	temporary = f'{root}.{os.getpid()}.tmp{ext}'
+	try:
+		_write_dictionary_file(data_dict, temporary, format)
+		os.replace(temporary, filename)
+	except BaseException:
+		if os.path.exists(temporary): os.remove(temporary)
+		raise
+
+def _write_dictionary_file(data_dict, filename, format):
 	if format in ['pickle', 'pkl']:
 		import pickle
 		with open(filename, 'wb') as f:
-- 
2.43.0


From e182e94c592d7581062701b5c6366ec43b0762ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:46 +0000
Subject: [PATCH 110/150] fix: get_uv_map_lightcone crashed for telescopes
 given by their antenna positions

---
 src/tools21cm/radio_telescope_noise.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 0e19cfa..b784d8c 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -217,7 +217,8 @@ def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int
 	antxyz, N_ant = subarray_type_to_antxyz(subarray_type, verbose=verbose)
 	if boxsize is None: boxsize = conv.LB
 	if isinstance(zs, list): zs = np.array(zs)
-	if subarray_type.upper()=='AA*': subarray_type = 'AAstar'
+	if not isinstance(subarray_type, str): subarray_type = antxyz.to('m').value
+	elif subarray_type.upper()=='AA*': subarray_type = 'AAstar'
 
 	# Define a dictionary of simulation parameters 
 	params = {
@@ -240,7 +241,7 @@ def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int
 		for key, current_val in params.items():
 			cached_val = uvs.get(key)
 			# Check for a mismatch
-			if cached_val is not None and cached_val != current_val:
+			if cached_val is not None and not np.array_equal(cached_val, current_val):
 				# Add the error message to a list instead of raising immediately
 				mismatch_msg = f"  - '{key}': Cached value is '{cached_val}', but current call requested '{current_val}'."
 				mismatches.append(mismatch_msg)
-- 
2.43.0


From f215d6fb841c481b7ed9636793652425bfcb34b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:33 +0000
Subject: [PATCH 111/150] fix: noise_cube_lightcone passed the number of
 antennas as uv weighting and crashed

---
 src/tools21cm/radio_telescope_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index b784d8c..18122c2 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -762,7 +762,7 @@ def noise_cube_lightcone(ncells, z, obs_time=1000, subarray_type="AA4", boxsize=
 
 	# This function body is very similar to `noise_lightcone`. Consider refactoring.
 	return noise_lightcone(ncells, zs, obs_time, subarray_type, boxsize, save_uvmap, 
-						total_int_time, int_time, declination, N_ant, uv_weighting, fft_wrap, verbose, n_jobs, checkpoint, 
+						total_int_time, int_time, declination, uv_weighting, fft_wrap, verbose, n_jobs, checkpoint, 
 						T_sys, sefd_data, nu_data, D_station, ep_aperture,
 						suppress_sharp_features_uv_map)
 
-- 
2.43.0


From 32ec3d5d8b073a1aabe7c341597fda84a652954f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:33 +0000
Subject: [PATCH 112/150] fix: the window of noise maps with an odd number of
 cells was not centred on the zero mode

---
 src/tools21cm/radio_telescope_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 18122c2..3b6c285 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -392,7 +392,7 @@ def noise_map(ncells, z, depth_mhz, obs_time=1000, subarray_type="AA4", boxsize=
 	noise_four = apply_uv_response_noise(noise_arr, uv_map, boxsize=boxsize, uv_weighting=uv_weighting, suppress_sharp_features_uv_map=suppress_sharp_features_uv_map)
 	# noise_four = apply_uv_response_noise_briggs(noise_arr, uv_map, robust=2.0, epsilon=1e-6)
 	win_2d = signal_window(ncells, 'blackmanharris', ndim=2)
-	noise_four = noise_four*np.fft.fftshift(win_2d)
+	noise_four = noise_four*np.fft.ifftshift(win_2d)
 	if fft_wrap: noise_map  = ifft2_wrap(noise_four)*np.sqrt(int_time/3600./obs_time)
 	else: noise_map  = np.fft.ifft2(noise_four)*np.sqrt(int_time/3600./obs_time)
 	return np.real(noise_map)
-- 
2.43.0


From e1534af37e09c97524a08da0cac855544bbd705a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:33 +0000
Subject: [PATCH 113/150] fix: apply_uv_response_noise overwrote its input for
 uniform weighting

---
 src/tools21cm/radio_telescope_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 3b6c285..54f6717 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -467,7 +467,7 @@ def apply_uv_response_noise(noise, uv_map, boxsize=None, uv_weighting='natural',
 			uv_map_smooth = uv_map
 		out = noise/np.sqrt(uv_map_smooth)
 	elif uv_weighting.lower() in ['uni', 'uniform', 'uniform_weighting']:
-		out = noise
+		out = noise.copy()
 	else:
 		print(f'{uv_weighting} scheme is not known or implemented')
 	out[uv_map<uv_map_min] = 0.
-- 
2.43.0


From 9bf728a54f5d1b1e3f3ba73e02451324521b8613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:33 +0000
Subject: [PATCH 114/150] fix: apply_uv_response_on_coeval took the number of
 slices for the number of pixels of the sky

---
 src/tools21cm/radio_telescope_noise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 54f6717..98bf4e2 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -670,13 +670,13 @@ def apply_uv_response_on_coeval(array, z, subarray_type="AA4", boxsize=None, tot
 	np.ndarray
 		The observed 3D data cube after applying the UV mask to each slice.
 	"""
-	ncells = array.shape[-1]
+	ncells = array.shape[0]
 	if boxsize is None: boxsize = conv.LB
 	if uv_map is None: 
 		uv_map, N_ant  = get_uv_map(ncells, z, subarray_type=subarray_type, total_int_time=total_int_time, int_time=int_time, boxsize=boxsize, declination=declination)
 	data3d = np.zeros(array.shape)
 	print("Applying the uv tracks to the the coeval signal cube...")
-	for k in tqdm(range(ncells)):
+	for k in tqdm(range(array.shape[-1])):
 		data2d = apply_uv_response_on_image(array[:,:,k], uv_map=uv_map)
 		data3d[:,:,k] = data2d
 	return data3d
-- 
2.43.0


From 2db118c589ea0628452680fd8f404878286d0f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:33 +0000
Subject: [PATCH 115/150] fix: get_SEFD crashed for a constant system
 temperature and aperture efficiency

---
 src/tools21cm/radio_telescope_sensitivity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools21cm/radio_telescope_sensitivity.py b/src/tools21cm/radio_telescope_sensitivity.py
index ab00297..76beb18 100755
--- a/src/tools21cm/radio_telescope_sensitivity.py
+++ b/src/tools21cm/radio_telescope_sensitivity.py
@@ -91,6 +91,7 @@ def get_SEFD(nu_obs, T_sys=None, sefd_data=None, nu_data=None, D_station=40., ep
 
 	# SEFD in Jy
 	sefd = 2 * KB_SI * T_sys_val / A_eff / janskytowatt  # Jy
+	sefd = sefd * np.ones(nu_obs.shape)
 
 	# Return a scalar if input was scalar
 	return sefd[0] if nu_obs.size == 1 else sefd
-- 
2.43.0


From 097823f94457ea2ea576d779a7331a53ab3493d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 116/150] fix: primary_beam crashed for light-cones with
 another frequency axis and for lists of redshifts

---
 src/tools21cm/primary_beam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/primary_beam.py b/src/tools21cm/primary_beam.py
index 14542cf..1ff0b91 100755
--- a/src/tools21cm/primary_beam.py
+++ b/src/tools21cm/primary_beam.py
@@ -34,14 +34,15 @@ def primary_beam(array, z, nu_axis=2, beam_func='Gaussian', boxsize=None, D_stat
 	assert array.ndim > 1
 	if boxsize is None: 
 		boxsize = conv.LB
-	beam = np.zeros(array.shape)
 	if array.ndim==2: 
 		beamed = array*circular_beam(array.shape[0], z, D_station=D_station, beam_func=beam_func, boxsize=boxsize)
 	else:
 		if nu_axis!=2: 
 			array = np.swapaxes(array, nu_axis, 2)
+		beam = np.zeros(array.shape)
 		if np.array(z).size==1: 
 			z = z*np.ones(array.shape[2])
+		z = np.asarray(z)
 		for i in tqdm(range(z.size), disable=not verbose): 
 			beam[:,:,i] = circular_beam(array.shape[0], z[i], D_station=D_station, beam_func=beam_func, boxsize=boxsize, l_null=l_null)
 		beamed = array*beam
-- 
2.43.0


From a559a723c1f4cd095f4956f08f99740147d08fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 117/150] fix: primary_beam ignored the given null for images

---
 src/tools21cm/primary_beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/primary_beam.py b/src/tools21cm/primary_beam.py
index 1ff0b91..e32ae50 100755
--- a/src/tools21cm/primary_beam.py
+++ b/src/tools21cm/primary_beam.py
@@ -35,7 +35,7 @@ def primary_beam(array, z, nu_axis=2, beam_func='Gaussian', boxsize=None, D_stat
 	if boxsize is None: 
 		boxsize = conv.LB
 	if array.ndim==2: 
-		beamed = array*circular_beam(array.shape[0], z, D_station=D_station, beam_func=beam_func, boxsize=boxsize)
+		beamed = array*circular_beam(array.shape[0], z, D_station=D_station, beam_func=beam_func, boxsize=boxsize, l_null=l_null)
 	else:
 		if nu_axis!=2: 
 			array = np.swapaxes(array, nu_axis, 2)
-- 
2.43.0


From 959749b3571cf74a779c29bf28361599a953829f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 118/150] fix: the sigmoid beam raised the distance to the
 power 1.41 and was not one half at the null radius

---
 src/tools21cm/primary_beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/primary_beam.py b/src/tools21cm/primary_beam.py
index e32ae50..b0092f6 100755
--- a/src/tools21cm/primary_beam.py
+++ b/src/tools21cm/primary_beam.py
@@ -98,7 +98,7 @@ def circular_beam(ncells, z, D_station=40., beam_func='Gaussian', boxsize=None,
         beam[center_idx] = 1.0  # Manually set the peak to 1
     elif beam_func.lower()=='sigmoid':
         r0, b = l_null/2., 0.5
-        beam = 1.-1/(1+np.exp(b*r0-b*rr**2**0.5))
+        beam = 1.-1/(1+np.exp(b*r0-b*rr))
     else:
         raise ValueError("Please choose between 'step', 'gaussian', 'bessel', and 'sigmoid' for beam_func.")
     
-- 
2.43.0


From a93fb642be9a68bbd8f7141f22132d714cace573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 119/150] fix: foregrounds crashed for integer redshifts and
 lists

---
 src/tools21cm/foreground_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index 3a8df22..cd927bd 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -30,7 +30,7 @@ def galactic_synch_fg(z, ncells, boxsize, rseed=False):
 	if(isinstance(z, float)):
 		z = np.array([z])
 	else:
-		z = np.array(z, copy=False)
+		z = np.atleast_1d(z)
 	gf_data = np.zeros((ncells, ncells, z.size))
 
 	if(rseed): np.random.seed(rseed)
@@ -72,7 +72,7 @@ def extragalactic_pointsource_fg(z, ncells, boxsize, rseed=False, S_max=100):
 	if(isinstance(z, float)):
 		z = np.array([z])
 	else:
-		z = np.array(z, copy=False)
+		z = np.atleast_1d(z)
 	exgf_data = np.zeros((ncells, ncells, z.size))
 
 	dS, nu_s = 0.01, 150
-- 
2.43.0


From 5b2d785b8f2764d500abb3a6303765378dc5b408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 120/150] fix: random seed 0 was ignored by the foregrounds

---
 src/tools21cm/foreground_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index cd927bd..e2f0ed5 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -33,7 +33,7 @@ def galactic_synch_fg(z, ncells, boxsize, rseed=False):
 		z = np.atleast_1d(z)
 	gf_data = np.zeros((ncells, ncells, z.size))
 
-	if(rseed): np.random.seed(rseed)
+	if(rseed is not False and rseed is not None): np.random.seed(rseed)
 	X  = np.random.normal(size=(ncells, ncells))
 	Y  = np.random.normal(size=(ncells, ncells))
 	nu_s,A150,beta_,a_syn,Da_syn = 150,513,2.34,2.8,0.1
@@ -80,7 +80,7 @@ def extragalactic_pointsource_fg(z, ncells, boxsize, rseed=False, S_max=100):
 	
 	Ss = np.arange(0.1, S_max, dS)
 	N  = int(10**3.75*np.trapz(Ss**(-1.6), x=Ss, dx=dS)*solid_angle)
-	if(rseed): np.random.seed(rseed)
+	if(rseed is not False and rseed is not None): np.random.seed(rseed)
 	x, y = np.random.random_integers(0, high=ncells-1, size=(2,N))
 	alpha_ps = 0.7+0.1*np.random.random(size=N)
 	S_s  = np.random.choice(Ss, N)
-- 
2.43.0


From d47123e336ff506226fd4a60914ca625faa7977c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 121/150] fix: galactic foregrounds were nan for an odd number
 of cells

---
 src/tools21cm/foreground_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index e2f0ed5..048aacd 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -42,6 +42,7 @@ def galactic_synch_fg(z, ncells, boxsize, rseed=False):
 		nu = cm.z_to_nu(z[i])
 		U_cb  = (np.mgrid[-ncells/2:ncells/2,-ncells/2:ncells/2]+0.5)*cm.z_to_cdist(z[i])/boxsize
 		l_cb  = 2*np.pi*np.sqrt(U_cb[0,:,:]**2+U_cb[1,:,:]**2)
+		l_cb[l_cb==0] = np.inf   # the mean is not observed
 		C_syn = A150*(1000/l_cb)**beta_*(nu/nu_s)**(-2*a_syn-2*Da_syn*np.log(nu/nu_s))
 		solid_angle = boxsize**2/cm.z_to_cdist(z[i])**2
 		AA = np.sqrt(solid_angle*C_syn/2)
-- 
2.43.0


From 0d5578cad61748aa3062b547f8cbc3904d780792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 122/150] fix: extragalactic foregrounds crashed with current
 numpy

---
 src/tools21cm/foreground_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index 048aacd..d5e8902 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -80,9 +80,9 @@ def extragalactic_pointsource_fg(z, ncells, boxsize, rseed=False, S_max=100):
 	solid_angle = boxsize**2/cm.z_to_cdist(z.min())**2
 	
 	Ss = np.arange(0.1, S_max, dS)
-	N  = int(10**3.75*np.trapz(Ss**(-1.6), x=Ss, dx=dS)*solid_angle)
+	N  = int(10**3.75*trapz(Ss**(-1.6), x=Ss, dx=dS)*solid_angle)
 	if(rseed is not False and rseed is not None): np.random.seed(rseed)
-	x, y = np.random.random_integers(0, high=ncells-1, size=(2,N))
+	x, y = np.random.randint(0, high=ncells, size=(2,N))
 	alpha_ps = 0.7+0.1*np.random.random(size=N)
 	S_s  = np.random.choice(Ss, N)
 
-- 
2.43.0


From ef625a03ab05a3aee18d43c9addf3f95b3ddc710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 123/150] fix: extragalactic foregrounds lost the flux of all
 but the last source of a pixel

---
 src/tools21cm/foreground_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index d5e8902..ec66649 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -90,7 +90,7 @@ def extragalactic_pointsource_fg(z, ncells, boxsize, rseed=False, S_max=100):
 		nu = cm.z_to_nu(z[i])
 		S_nu = S_s*(nu/nu_s)**(-alpha_ps)
 		for p in range(S_nu.size):
-			exgf_data[x[p], y[p], i] = jansky_2_kelvin(S_nu[p], z[i], boxsize=boxsize, ncells=ncells)
+			exgf_data[x[p], y[p], i] += jansky_2_kelvin(S_nu[p], z[i], boxsize=boxsize, ncells=ncells)
 	return exgf_data.squeeze()
 
 
-- 
2.43.0


From 3396db53eb50bd3ab955acc424ac6b8e5bc4a817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:16 +0000
Subject: [PATCH 124/150] fix: remove_wedge_image mixed up the modes of boxes
 with an odd number of cells

---
 src/tools21cm/foreground_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index ec66649..4d437f5 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -145,7 +145,7 @@ def barrel_filter(z, ncells=None, array=None, boxsize=None, k_par_min=None, smal
 def remove_wedge_image(dt, z, mu=0.5, funct='step', boxsize=None, filt=None):
 	if filt is None: filt = diabolo_filter(z, array=dt, mu=mu, funct=funct, boxsize=boxsize)
 	fft_dt = np.fft.fftn(dt)
-	apply_filt = np.fft.fftshift(np.fft.fftshift(fft_dt)*filt)
+	apply_filt = np.fft.ifftshift(np.fft.fftshift(fft_dt)*filt)
 	dt_new = np.real(np.fft.ifftn(apply_filt))
 	return dt_new
 
-- 
2.43.0


From b0e74dde5a076ea0c24a6291b8561fd1c97fd910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:16 +0000
Subject: [PATCH 125/150] fix: rolling wedge removal crashed for odd chunks

---
 src/tools21cm/foreground_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index 4d437f5..6b7314b 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -199,7 +199,7 @@ def rolling_wedge_removal_lightcone(lightcone, redshifts, cell_size=None, chunk_
 	Box_uv = np.concatenate((empty_box, Box_uv, empty_box), axis = 2)
     
 	for i in range(chunk_length, box_shape[-1] + chunk_length):
-		t_box = np.copy(Box_uv[..., i-chunk_length//2: i+chunk_length//2])
+		t_box = np.copy(Box_uv[..., i-chunk_length//2: i-chunk_length//2+chunk_length])
 		t_box *= BM
 		W = k_par / (k_perp * MF[min(i - chunk_length // 2 - 1, box_shape[-1] - 1)] + buffer)
 		w = np.logical_or(W < -1., W > 1.)
-- 
2.43.0


From 65660a421031da58f6d580fef2aa9c545665de1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:38 +0000
Subject: [PATCH 126/150] fix: Muv_to_muv always crashed

---
 src/tools21cm/astro_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/astro_tools.py b/src/tools21cm/astro_tools.py
index 84d8e1e..d4142f5 100755
--- a/src/tools21cm/astro_tools.py
+++ b/src/tools21cm/astro_tools.py
@@ -89,7 +89,7 @@ def Muv_to_muv(Muv, z, cosmo=None):
         print('Assuming Planck 2018 cosmology.')
     if isinstance(Muv, (int,float)): Muv *= units.mag
     Kcorrection = 2.5 * np.log10(1 + z) 
-    m_uv = Muv + cosmo.distmod(z).value - Kcorrection
+    m_uv = Muv + cosmo.distmod(z) - Kcorrection*units.mag
     return m_uv
 
 
-- 
2.43.0


From 057c04a8a41bf9943fc55664da0049c31d623dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:38 +0000
Subject: [PATCH 127/150] fix: Muv_to_L1500 always crashed

---
 src/tools21cm/astro_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/astro_tools.py b/src/tools21cm/astro_tools.py
index d4142f5..479cd58 100755
--- a/src/tools21cm/astro_tools.py
+++ b/src/tools21cm/astro_tools.py
@@ -145,7 +145,7 @@ def Muv_to_L1500(M_AB):
     This conversion is based on the AB magnitude system, where a magnitude of M_AB = 34.1 corresponds 
     to a luminosity of 10^34.1 erg/s/Hz.
     '''
-    if isinstance(Muv, (int,float)): Muv *= units.mag
+    if isinstance(M_AB, (int,float)): M_AB *= units.mag
     SI2cgs = 1e7  # 1 W/Hz = 1e7 erg/s/Hz
     L1500 = SI2cgs * 10.**((34.1 - M_AB.to('mag').value)/2.5) * units.erg/units.s/units.Hz
     return L1500
-- 
2.43.0


From 0f924d6127a376d97429cfc0ac546231f2a029c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:38 +0000
Subject: [PATCH 128/150] fix: tau_nu_lyA_los combined the neutral fraction
 with the density of other cells for line-of-sight axes other than 2

---
 src/tools21cm/lyman_alpha_transmission.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools21cm/lyman_alpha_transmission.py b/src/tools21cm/lyman_alpha_transmission.py
index 5b4dedd..eb4ec95 100755
--- a/src/tools21cm/lyman_alpha_transmission.py
+++ b/src/tools21cm/lyman_alpha_transmission.py
@@ -306,6 +306,7 @@ def tau_nu_lyA_los(z, xHI, dn, los_len=30*units.Mpc, box_len=None, los_axis=2, m
 
     if los_axis!=2:
         xHI = np.swapaxes(xHI,los_axis,2)
+        dn = np.swapaxes(dn,los_axis,2)
     
     if not isinstance(los_len, units.quantity.Quantity):
         print(f'As a unitless los_len was provided, it is assumed to be number of grids')
-- 
2.43.0


From 017c09ccf29dff1d0a10fb0049db36b1e103506d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:38 +0000
Subject: [PATCH 129/150] fix: method smith2015 of tau_nu_lyA_los always
 crashed

---
 src/tools21cm/lyman_alpha_transmission.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/lyman_alpha_transmission.py b/src/tools21cm/lyman_alpha_transmission.py
index eb4ec95..7df038d 100755
--- a/src/tools21cm/lyman_alpha_transmission.py
+++ b/src/tools21cm/lyman_alpha_transmission.py
@@ -323,7 +323,7 @@ def tau_nu_lyA_los(z, xHI, dn, los_len=30*units.Mpc, box_len=None, los_axis=2, m
         nu = kwargs.get('nu', 2.46e15*units.Hz)
         if los_axis!=2: 
             Tk = np.swapaxes(Tk,los_axis,2)
-        tauA = tau_nu_lyA_Smith2015(z, xHI, Tk, dr, nu=nu, X_H=X_H, cosmo=cosmo)
+        tauA = tau_nu_lyA(z, xHI, Tk, dr, nu=nu, X_H=X_H, cosmo=cosmo)
     elif method.lower()=='fgpa':
         f_alpha = kwargs.get('f_alpha', 0.416)
         lambda_alpha = kwargs.get('lambda_alpha', 1216.0*units.Angstrom)
-- 
2.43.0


From 54a9119cbc028b3be0c57097e978011dd93c694a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:38 +0000
Subject: [PATCH 130/150] fix: lines of sight given in another unit than the
 box got a wrong number of cells

---
 src/tools21cm/lyman_alpha_transmission.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/lyman_alpha_transmission.py b/src/tools21cm/lyman_alpha_transmission.py
index 7df038d..fe1a5fe 100755
--- a/src/tools21cm/lyman_alpha_transmission.py
+++ b/src/tools21cm/lyman_alpha_transmission.py
@@ -312,7 +312,7 @@ def tau_nu_lyA_los(z, xHI, dn, los_len=30*units.Mpc, box_len=None, los_axis=2, m
         print(f'As a unitless los_len was provided, it is assumed to be number of grids')
         los_cells = los_len
     else:
-        los_cells = int(np.round(los_len*(xHI.shape[0]/box_len)))
+        los_cells = int(np.round((los_len*(xHI.shape[0]/box_len)).to('').value))
 
     if dn.min()>1:
         dn = dn/dn.mean()-1
-- 
2.43.0


From 300fb8a40d71f70ca6586f20a93c32fbad95bef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:38 +0000
Subject: [PATCH 131/150] fix: the Doppler width of Lyman alpha missed a factor
 of sqrt(2)

---
 src/tools21cm/lyman_alpha_transmission.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/lyman_alpha_transmission.py b/src/tools21cm/lyman_alpha_transmission.py
index fe1a5fe..01fe887 100755
--- a/src/tools21cm/lyman_alpha_transmission.py
+++ b/src/tools21cm/lyman_alpha_transmission.py
@@ -128,7 +128,7 @@ def lyA_scattering_cross_section(nu, Tk):
     a_nu = 4.7e-4/np.sqrt(Tk4) #2004.13065
 
     nuA = 2.46e15 #units.Hz
-    dnu_D = nuA*np.sqrt((constants.k_B*Tk/constants.m_p/constants.c**2).to(''))
+    dnu_D = nuA*np.sqrt((2*constants.k_B*Tk/constants.m_p/constants.c**2).to(''))
     if isinstance(nu, units.quantity.Quantity):
         nu = nu.to('Hz').value
     x_nu = (nu-nuA)/dnu_D
@@ -255,7 +255,7 @@ def tau_nu_lyA(z, xHI, Tk, dr, nu=2.46e15*units.Hz, X_H=0.76, cosmo=None):
     a_nu = 4.7e-4/np.sqrt(Tk4) #2004.13065
 
     nuA = 2.46e15 #units.Hz
-    dnu_D = nuA*np.sqrt((constants.k_B*Tk/constants.m_p/constants.c**2).to(''))
+    dnu_D = nuA*np.sqrt((2*constants.k_B*Tk/constants.m_p/constants.c**2).to(''))
     if isinstance(nu, units.quantity.Quantity):
         nu = nu.to('Hz').value
     x_nu = (nu-nuA)/dnu_D
-- 
2.43.0


From 83fd1bc61a5ef7e7f46e67f55572feec3fc7ed7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:36 +0000
Subject: [PATCH 132/150] fix: tau_nu_lyA_los crashed for a uniform temperature
 and line-of-sight axes other than 2

---
 src/tools21cm/lyman_alpha_transmission.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/lyman_alpha_transmission.py b/src/tools21cm/lyman_alpha_transmission.py
index 01fe887..144936c 100755
--- a/src/tools21cm/lyman_alpha_transmission.py
+++ b/src/tools21cm/lyman_alpha_transmission.py
@@ -321,7 +321,7 @@ def tau_nu_lyA_los(z, xHI, dn, los_len=30*units.Mpc, box_len=None, los_axis=2, m
         Tk = kwargs.get('Tk')
         dr = kwargs.get('dr')
         nu = kwargs.get('nu', 2.46e15*units.Hz)
-        if los_axis!=2: 
+        if los_axis!=2 and np.ndim(Tk)==3: 
             Tk = np.swapaxes(Tk,los_axis,2)
         tauA = tau_nu_lyA(z, xHI, Tk, dr, nu=nu, X_H=X_H, cosmo=cosmo)
     elif method.lower()=='fgpa':
-- 
2.43.0


From 65aea6f0b89d71bea4756c9e3b7f83345888667d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:37 +0000
Subject: [PATCH 133/150] fix: numbers of bins given as numpy integers were
 taken for bin edges

---
 src/tools21cm/power_spectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 330af09..46ee137 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -403,7 +403,7 @@ def mu_binning(powerspectrum, los_axis = 0, mubins=20, kbins=10, box_dims=None,
 
         #Make mu bins
         min_mu=0.0 if absolute_mus else -1.0
-        if isinstance(mubins,int):
+        if isinstance(mubins,(int,np.integer)):
                 mubins = np.linspace(min_mu, 1.0 , mubins+1)
         dmu = (mubins[1:]-mubins[:-1])/2.
         n_mubins = len(mubins)-1
@@ -505,7 +505,7 @@ def _get_kbins(kbins, box_dims, k, binning='log', breakpoint=0.1, kmin=None, kma
         Make a list of bin edges if kbins is an integer,
         otherwise return it as it is.
         '''
-        if isinstance(kbins,int):
+        if isinstance(kbins,(int,np.integer)):
                 kmin = 2.*np.pi/min(box_dims) if kmin is None else kmin
                 kmax = k.max() if kmax is None else kmax
                 if binning=='linear': kbins = np.linspace(kmin, kmax, kbins+1)
-- 
2.43.0


From 7a94a59f203b6743179d1c38d95ae41c867086f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:37 +0000
Subject: [PATCH 134/150] fix: smooth_line refused a window given as a numpy
 integer

---
 src/tools21cm/smoothing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 0a232b6..395cb11 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -632,7 +632,7 @@ def smooth_line(y, window=3, kind='tophat'):
     >>> smooth_line(y, window=3, kind='gaussian')
     array([...])  # Smoothed values
     """
-    if isinstance(window, int):
+    if isinstance(window, (int, np.integer)):
         if kind.lower() in ['tophat', 'boxcar']:
             window = np.ones(window) / window
         elif kind.lower() in ['normal', 'gaussian']:
-- 
2.43.0


From 557bdcb0643023437a3ca295c15754c2cdf03673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:37 +0000
Subject: [PATCH 135/150] fix: mfp_from_point crashed for a point of numpy
 integers

---
 src/tools21cm/mfp_np.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/mfp_np.py b/src/tools21cm/mfp_np.py
index f6aead0..21c190d 100755
--- a/src/tools21cm/mfp_np.py
+++ b/src/tools21cm/mfp_np.py
@@ -81,7 +81,7 @@ def mfp3d(arr, xth=0.5, iterations=10000000, verbose=True, point='random'):
         xs, ys, zs = loc[rand_loc, 0], loc[rand_loc, 1], loc[rand_loc, 2]
     else:
         xs, ys, zs = point
-        if isinstance(xs, (int,float)):
+        if isinstance(xs, (int,float,np.integer)):
             if ar[xs, ys, zs] == 0:
                 print('Given point is outside the structure.')
                 return None
-- 
2.43.0


From 12da6ccfeb3fa351ea380b799bcc85eeb2f34cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:59 +0000
Subject: [PATCH 136/150] fix: box sizes in single precision dropped the
 largest scales from the binned spectra

---
 src/tools21cm/power_spectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 46ee137..248adc9 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -532,8 +532,8 @@ def _get_dims(box_dims, ashape):
         if box_dims is None:
                 return [conv.LB]*len(ashape)
         if not hasattr(box_dims, '__iter__'):
-                return [box_dims]*len(ashape)
-        return box_dims
+                return [float(box_dims)]*len(ashape)
+        return [float(b) for b in box_dims]
 
 def dimensionless_ps(data, kbins=100, box_dims=None, binning='log', factor=10):
         r'''
-- 
2.43.0


From 159fb5c74885d64a1e229f787dc51a72993ae8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:40 +0000
Subject: [PATCH 137/150] fix: radial_average crashed on integer data

---
 src/tools21cm/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 248adc9..0b586ec 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -129,7 +129,7 @@ def radial_average(input_array, box_dims, kbins=10, binning='log', breakpoint=0.
                                                 weights = input_array.flatten())[0]
         #Number of modes in each bin
         n_modes = np.histogram(k.flatten(), bins=kbins)[0].astype('float')
-        outdata /= n_modes
+        outdata = outdata/n_modes
         
         return outdata, kbins[:-1]+dk, n_modes
         
-- 
2.43.0


From e2958323afc216bc105f4774bc84a1f386546062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:40 +0000
Subject: [PATCH 138/150] fix: interpolation of integer arrays was cut to
 integers

---
 src/tools21cm/smoothing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 395cb11..9c597f4 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -298,7 +298,7 @@ def interpolate3d(input_array, x, y, z, order=0):
         inds[1,:,:] = y[np.newaxis,:,np.newaxis]
         inds[2,:,:] = z[np.newaxis,np.newaxis,:]
         new_array = ndimage.map_coordinates(input_array, inds, mode='wrap', \
-                                                                        order=order)
+                                                                        order=order, output=np.result_type(input_array, np.float32))
         
         return new_array
 
@@ -326,7 +326,7 @@ def interpolate2d(input_array, x, y, order=0):
         inds[0,:] = x[:,np.newaxis]
         inds[1,:] = y[np.newaxis,:]
         new_array = ndimage.map_coordinates(input_array, inds, mode='wrap', \
-                                                                        order=order, prefilter=True)
+                                                                        order=order, prefilter=True, output=np.result_type(input_array, np.float32))
         
         return new_array
 
-- 
2.43.0


From ffa8c4143b0a95eceadce0ff74edba5c6c330014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:40 +0000
Subject: [PATCH 139/150] fix: redshift-space distortions of integer boxes were
 cut to integers

---
 src/tools21cm/pv_mpm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/pv_mpm.py b/src/tools21cm/pv_mpm.py
index f5da74a..8431e47 100755
--- a/src/tools21cm/pv_mpm.py
+++ b/src/tools21cm/pv_mpm.py
@@ -83,7 +83,7 @@ def get_distorted_dt(dT, kms, redsh, los_axis=0, velocity_axis = 0, num_particle
     dr = (1.+z_obs)*vpar/const.Hz(z_obs)
 
     #Make the distorted box
-    distbox = np.zeros_like(dT)
+    distbox = np.zeros(dT.shape, dtype=np.result_type(dT, np.float32))
     particle_dT = np.zeros(grid_depth*num_particles)
 
     last_percent = 0
-- 
2.43.0


From 66768d9889bf917853e7ec9016e3b8488d703663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:40 +0000
Subject: [PATCH 140/150] fix: boundaries marked on integer maps were cut to
 integers

---
 src/tools21cm/superpixels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index e76b6bf..c460ecc 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -50,7 +50,7 @@ def binary_stitch(data, labels, stitch='mean', thres=None):
 def boundaries(sl, lab, mark=True, factor=1.01):
 	assert sl.ndim == 2 and lab.ndim == 2
 	bd  = mark_boundaries(np.zeros(sl.shape), lab)
-	out = sl.copy()
+	out = sl.astype(np.result_type(sl, np.float32))
 	if mark: out[bd[:,:,0]==1] = sl.max()*factor
 	else: out[0,0] = sl.max()*factor
 	return out
-- 
2.43.0


From c802fa8738d4a7db52fc2db9c1724a1f7ec6744e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:39 +0000
Subject: [PATCH 141/150] fix: worker processes use the cosmology and the box
 that were set, not the default ones

---
 src/tools21cm/conv.py                        | 24 ++++++++++++++++++++
 src/tools21cm/radio_telescope_calibration.py |  4 ++--
 src/tools21cm/radio_telescope_noise.py       |  1 +
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/conv.py b/src/tools21cm/conv.py
index d8e68dc..528dbf9 100755
--- a/src/tools21cm/conv.py
+++ b/src/tools21cm/conv.py
@@ -3,6 +3,7 @@ Various values and functions to deal with unit conversions regarding file types
 '''
 
 from . import const
+import sys
 import numpy as np
 from . import helper_functions as hf
 
@@ -68,6 +69,29 @@ def set_sim_constants(boxsize_cMpc):
 	velconvert = lambda z: lscale/tscale*(1.0+z)/1.e5
 
 
+def _with_current_settings(func):
+	'''
+	Make func use the present cosmological parameters and simulation constants
+	also when it is run in another process (where they have their default values).
+	
+	Parameters:
+		func (function): the function to run
+		
+	Returns:
+		A function with the same arguments.
+	'''
+	def settings(module):
+		return {k: v for k, v in vars(module).items() if not k.startswith('_') and not callable(v) and not hasattr(v, '__file__')}
+
+	state_const, state_conv = settings(const), settings(sys.modules[__name__])
+
+	def run(*args, **kwargs):
+		vars(const).update(state_const)
+		vars(sys.modules[__name__]).update(state_conv)
+		return func(*args, **kwargs)
+	return run
+
+
 def gridpos_to_mpc(gridpos):
 	'''
 	Convert a position or length in simulation grid units to Mpc
diff --git a/src/tools21cm/radio_telescope_calibration.py b/src/tools21cm/radio_telescope_calibration.py
index 28854cc..a46a962 100755
--- a/src/tools21cm/radio_telescope_calibration.py
+++ b/src/tools21cm/radio_telescope_calibration.py
@@ -391,7 +391,7 @@ def get_full_uv_map_with_antenna_stamp(ncells, z, subarray_type="AA4", total_int
 
     # Parallel processing with progress bar for the first chunk
     results = Parallel(n_jobs=n_jobs)(
-        delayed(_process_chunk_get_full_uv_map_with_antenna_stamp)(
+        delayed(conv._with_current_settings(_process_chunk_get_full_uv_map_with_antenna_stamp))(
             chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0), total_int_time=total_int_time)
             for i, (chunk_start, chunk_end) in enumerate(chunks)
     )
@@ -590,7 +590,7 @@ def get_full_uv_lagrangian_with_antenna_stamp(ncells, z, subarray_type="AA4", to
 
     # Parallel processing with progress bar for the first chunk
     results = Parallel(n_jobs=n_jobs)(
-        delayed(_process_chunk_get_full_uv_lagrangian_with_antenna_stamp)(
+        delayed(conv._with_current_settings(_process_chunk_get_full_uv_lagrangian_with_antenna_stamp))(
             chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0), total_int_time=total_int_time)
             for i, (chunk_start, chunk_end) in enumerate(chunks)
     )
diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 98bf4e2..5f6c31b 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -265,6 +265,7 @@ def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int
 		
 		# Define the worker function for a single redshift
 		_uvmap_worker = lambda zi: get_uv_map(ncells, zi, subarray_type=antxyz, total_int_time=total_int_time, int_time=int_time, boxsize=boxsize, declination=declination, verbose=False)[0]
+		_uvmap_worker = conv._with_current_settings(_uvmap_worker)
 		
 		# Condition for using chunked parallel processing with checkpoints
 		use_chunked_parallel = n_jobs > 1 and checkpoint is not None and checkpoint > 0
-- 
2.43.0


From 823b9adf66fd05d33de06667ebf0551befc143f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:26 +0000
Subject: [PATCH 142/150] fix: mean_estimate ignored the data, labels and
 number of segments it was given

---
 src/tools21cm/superpixels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index c460ecc..2f9b218 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -194,7 +194,7 @@ def mean_estimate(data, means=None, sigmas=None, n_pix=None, labels=None, slic_s
 	#if means is None: means  = get_superpixel_means(data, labels=labels, slic_segments=slic_segments)
 	#if sigmas is None: sigmas = get_superpixel_sigmas(data, labels=labels, slic_segments=slic_segments)
 	#if n_pix is None: n_pix = get_superpixel_n_pixels(data, labels=labels, slic_segments=slic_segments)
-	SNRs, means, sigmas, n_pix = get_superpixel_SNRs(means=means, sigmas=sigmas, n_pix=n_pix)
+	SNRs, means, sigmas, n_pix = get_superpixel_SNRs(means=means, sigmas=sigmas, n_pix=n_pix, data=data, labels=labels, slic_segments=slic_segments)
 	if SNR_thres<=0: locs = SNRs<SNR_thres
 	else: locs = SNRs<-SNR_thres
 	global_means  = np.abs(means[locs])
-- 
2.43.0


From e8c9037f503b78dfdb6d122bc8be87535742e5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:07 +0000
Subject: [PATCH 143/150] fix: convolve_uvmap and convolve_uvmap_coeval crashed
 unless a uv map was passed

---
 src/tools21cm/smoothing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 9c597f4..150bd22 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -536,7 +536,7 @@ def convolve_uvmap(array, z=None, uv_map=None, max_baseline=None, box_size_mpc=F
         if uv_map is None: 
                 uv_map, N_ant  = get_uv_map(array.shape[0],
                                                 z,
-                                                filename=filename,
+                                                subarray_type=filename,
                                                 total_int_time=total_int_time,
                                                 int_time=int_time,
                                                 boxsize=box_size_mpc,
@@ -578,7 +578,7 @@ def convolve_uvmap_coeval(cube, z, box_size_mpc=False, max_baseline=2., ratio=1.
         if uv_map is None: 
                 uv_map, N_ant  = get_uv_map(cube.shape[0],
                                                 z,
-                                                filename=filename,
+                                                subarray_type=filename,
                                                 total_int_time=total_int_time,
                                                 int_time=int_time,
                                                 boxsize=box_size_mpc,
-- 
2.43.0


From 1521ab3983f8d3c732971162e5cf8dbcd036ef6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:02 +0000
Subject: [PATCH 144/150] fix: a second read of a CubeP3M catalogue or particle
 file added to the first

---
 src/tools21cm/halo_list.py  | 1 +
 src/tools21cm/nbody_file.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index e638446..9cbae44 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -373,6 +373,7 @@ class HaloCubeP3M:
 			print_msg('Reading Cube3PM Halo Catalog from node = %d...' %node)
 			filesname = ['%snode%d/%.3fhalo%d.dat' %(filespath, node, self.z, node)]
 
+		self.halos = []
 		self.nhalo = 0
 
 		for fn in filesname:
diff --git a/src/tools21cm/nbody_file.py b/src/tools21cm/nbody_file.py
index 8bfd5f4..028d2c4 100755
--- a/src/tools21cm/nbody_file.py
+++ b/src/tools21cm/nbody_file.py
@@ -114,6 +114,7 @@ class NbodyFile:
 			filesname_xv = ['%snode%d/%.3fxv%d.dat' %(self.filespath, self.node, self.z, self.node)]
 			filesname_pid = ['%snode%d/%.3fPID%d.dat' %(self.filespath, self.node, self.z, self.node)]
 
+		self.nbody = []
 		npart_xv = 0
 		npart_pid = 0
 		for fn_xv, fn_pid in zip(filesname_xv, filesname_pid):
-- 
2.43.0


From 07a8a2c645d71044e5a7e31e7a1ae7335ef2a956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:09 +0000
Subject: [PATCH 145/150] fix: plots of a density could not be drawn because of
 a broken axis label

---
 src/tools21cm/plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/plotting.py b/src/tools21cm/plotting.py
index 9b96958..8998b15 100755
--- a/src/tools21cm/plotting.py
+++ b/src/tools21cm/plotting.py
@@ -87,9 +87,9 @@ def plot_slice(data, los_axis = 0, slice_num = 0, logscale = False, **kwargs):
         pl.title('Ionized fraction, %s' % z_str)
     elif datatype == 'density':
         if (logscale):
-            cbar.set_label(r'$\log_{10} \\rho \; \mathrm{[g \; cm^{-3}]}$')
+            cbar.set_label(r'$\log_{10} \rho \; \mathrm{[g \; cm^{-3}]}$')
         else:
-            cbar.set_label(r'$\\rho \; \mathrm{[g \; cm^{-3}]}$')
+            cbar.set_label(r'$\rho \; \mathrm{[g \; cm^{-3}]}$')
         pl.title('Density, %s' % z_str)
         
 def plot_hist(data, logscale = False, **kwargs):
@@ -133,7 +133,7 @@ def plot_hist(data, logscale = False, **kwargs):
     if datatype == 'xfrac':
         pl.xlabel('$x_i$')
     elif datatype == 'density':
-        pl.xlabel(r'$\\rho \; \mathrm{[g \; cm^{-3}]}$')
+        pl.xlabel(r'$\rho \; \mathrm{[g \; cm^{-3}]}$')
 
 def print_chain_stats(samples_dict, weights_dict, param_names):
     """Calculates and prints Mean +/- 1-sigma for each chain."""
-- 
2.43.0


From 454bf9fb42e99b37fbd667a0de5d3337ec6c8e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:09 +0000
Subject: [PATCH 146/150] fix: plot_hist ignored the bins it was given

---
 src/tools21cm/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/plotting.py b/src/tools21cm/plotting.py
index 8998b15..8352752 100755
--- a/src/tools21cm/plotting.py
+++ b/src/tools21cm/plotting.py
@@ -118,7 +118,7 @@ def plot_hist(data, logscale = False, **kwargs):
     #Fix bins
     if datatype == 'xfrac' and not 'bins' in kwargs.keys():
         kwargs['bins'] = np.linspace(0,1,30)
-    else: 
+    elif not 'bins' in kwargs.keys():
         kwargs['bins'] = 30
         
     #Plot
-- 
2.43.0


From 4e09741beaac71dabd397968e0fee9c26a3abdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:09 +0000
Subject: [PATCH 147/150] fix: print_chain_stats normalised the weights of the
 caller in place

---
 src/tools21cm/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/plotting.py b/src/tools21cm/plotting.py
index 8352752..3c85903 100755
--- a/src/tools21cm/plotting.py
+++ b/src/tools21cm/plotting.py
@@ -143,7 +143,7 @@ def print_chain_stats(samples_dict, weights_dict, param_names):
     for name, samples in samples_dict.items():
         weights = weights_dict[name] if weights_dict else np.ones(len(samples))
         # Normalize weights
-        weights /= np.sum(weights)
+        weights = weights/np.sum(weights)
         
         for i, p_name in enumerate(param_names):
             data = samples[:, i]
-- 
2.43.0


From 6d17b419e87b1a11c0eb917e5c46ef20febd9248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:09 +0000
Subject: [PATCH 148/150] fix: distributions of a single parameter could not be
 diagnosed

---
 src/tools21cm/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/plotting.py b/src/tools21cm/plotting.py
index 3c85903..27b7ad7 100755
--- a/src/tools21cm/plotting.py
+++ b/src/tools21cm/plotting.py
@@ -326,7 +326,7 @@ class DistributionDiagnostic(ABC):
         num_params = points.shape[1]
 
         means = np.average(points, axis=0, weights=weights_norm)
-        cov = np.cov(points.T, aweights=weights_norm)
+        cov = np.atleast_2d(np.cov(points.T, aweights=weights_norm))
         sigmas = np.sqrt(np.diag(cov))
 
         cis = []
-- 
2.43.0


From 20605a443f5f2e2336f17dfd6e46dc16ca29128d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:09 +0000
Subject: [PATCH 149/150] fix: plot_forest turned the shared axis back for an
 even number of parameters

---
 src/tools21cm/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/plotting.py b/src/tools21cm/plotting.py
index 27b7ad7..c1c7c98 100755
--- a/src/tools21cm/plotting.py
+++ b/src/tools21cm/plotting.py
@@ -506,7 +506,7 @@ class DistributionDiagnostic(ABC):
             if p == 0:
                 ax.set_yticks(range(num_dist))
                 ax.set_yticklabels(list(self.distributions.keys()))
-            ax.invert_yaxis()
+                ax.invert_yaxis()
         plt.tight_layout()
         return fig
 
-- 
2.43.0


From bb425ceead804b60854673ee7a0dcf35c8f9e519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:51 +0000
Subject: [PATCH 150/150] fix: the phase of a Fourier mode is its angle in the
 full circle

---
 src/tools21cm/helper_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index 59ea498..ecb2628 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -22,7 +22,7 @@ def real_to_fourier_amplitude_phase(data):
         data_fft = fftn(data)
         a, b     = np.real(data_fft), np.imag(data_fft)
         R        = np.sqrt(a**2+b**2)
-        phi      = np.arctan(b/a)
+        phi      = np.arctan2(b, a)
         return R, phi
 
 def get_source_redshifts(source_dir, z_low = None, z_high = None, bracket=False):
-- 
2.43.0

