MC = "explicit enumeration of every case of a bounded space, executed on the real code and compared with an independent reference model"
NOTE = "Exhaustive inside the bounds recorded in the evidence (samples[].bounds); nothing is claimed outside them. Trusts numpy/scipy primitives, the reference model in mc/props/{}.py and the runner mc/core.py."


def prop(id, title, statement, over, quant, why, files, mech, observe, technique=MC, note=None, **k):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note or NOTE.format(id), **k))


P = []
prop("P01", "Topology numbers are exact on every periodic binary field",
     "For a binary field on a periodic box, every cell-complex backend (pure Python, numba, compiled) contains exactly the vertices of the occupied cells and "
     "every edge, face and cube all of whose corners are occupied, and the Euler characteristic equals V-E+F-C for either connectivity. Betti numbers 0 and 2 are the numbers of "
     "connected components of the occupied and empty phases and betti1 = betti0 + betti2 - chi. The answer does not depend on backend, dtype or memory layout and the input field is left unchanged.",
     ["inputs", "configurations"], "all binary fields up to 2x2x2 (and generic larger boxes), all backends, dtypes, layouts, thresholds and connectivities",
     "the suite has no topology test at all; an error needs a particular neighbourhood pattern across a periodic face",
     ["topology.py", "ViteBetti.py", "ViteBetti_cython.pyx"],
     [("EulerCharacteristic/betti0/betti1/betti2", "src/tools21cm/topology.py"), ("CubeMap, CubeMap_numba, CubeMap_cython", "src/tools21cm/ViteBetti.py, src/tools21cm/ViteBetti_cython.pyx")],
     ["CubeMap*", "EulerCharacteristic", "betti0", "betti1", "betti2"])
prop("P02", "Parallel cube map is schedule independent and leaks nothing",
     "The shared-memory parallel cube map returns exactly the serial cube map for every number of workers, every assignment of work and every interleaving of the workers. "
     "A failing worker is reported as an error, never as a wrong map, and after every run, successful or failed, no shared memory segment is left behind.",
     ["schedules", "fault_sequences", "inputs"], "all worker interleavings within a deviation bound at element-access granularity, all task orders, all partitions, a failure before/after every worker task",
     "no test runs the parallel path; races and leaks need particular schedules or faults",
     ["ViteBetti.py"], [("CubeMap_joblib stages", "src/tools21cm/ViteBetti.py")], ["CubeMap_joblib", "EulerCharacteristic(n_jobs=...)"],
     technique="deviation-bounded stateless exploration of the real workers under a controlled scheduler, plus fault injection at every task",
     note="All schedules within the deviation bound on the listed grids; workers are run as threads under a baton scheduler with joblib and shared memory replaced by controlled stand-ins; the free_running suite checks the stand-ins against the real joblib and real shared memory. Element accesses are assumed atomic.")
prop("P03", "Region labels are exactly the connected regions; sizes count each once",
     "Friends-of-friends labelling (fof: cells at or above the threshold, connectivity 1 to ndim; FoF_search: cells above the threshold, face neighbours) gives label 0 to unselected cells and one label 1..n to each maximal connected region of the non-periodic grid, "
     "and the size list holds the volume of label 1, 2, ... n. The size distributions derived from such a list or label map put every region in exactly one logarithmic bin and are normalised as documented. Inputs are left unchanged.",
     ["inputs"], "all binary fields of small 1D/2D/3D grids and generic larger ones, all connectivities, thresholds equal to cell values, dtypes and layouts; all multisets of a few region sizes",
     "the single test labels one ball in a box; wrong merging needs particular shapes, full or empty grids",
     ["bubble_stats.py", "Friends_of_Friends.py"],
     [("fof, dist_from_volumes, get_distribution, plot_fof_sizes", "src/tools21cm/bubble_stats.py"), ("FoF_search", "src/tools21cm/Friends_of_Friends.py")],
     ["fof", "FoF_search", "dist_from_volumes", "get_distribution", "plot_fof_sizes"])
prop("P04", "Bubble size estimators measure exactly what they define",
     "Spherical averaging assigns each cell the largest listed radius whose ball average (zero outside the box) passes the threshold; mean free path counts every ray once at the first unit step where the interpolated region of interest drops to 0.5 or less; granulometry and its CDF count the cells surviving morphological opening by balls; watershed histograms the effective radii of isolated regions. "
     "Radii scale with boxsize over the first grid dimension, upper_lim selects cells at or below the threshold, distributions are normalised as documented, and a field without region of interest yields zero mean-free-path density instead of an error. Inputs are left unchanged.",
     ["inputs", "configurations"], "structures x thresholds x senses x scales; every integer-degree ray direction from chosen starts and every start on a direction lattice (random draws replaced by enumeration); all 2D masks up to 12 cells",
     "tests only look at the peak of one ball; randomness hides errors of individual rays",
     ["bubble_stats.py", "mfp_np.py", "spa_np.py", "morph.py"],
     [("spa, mfp, mfp_from_point, averaged_mfp, granulometry_bsd, granulometry_CDF, watershed_bsd", "src/tools21cm/bubble_stats.py"), ("ray marching", "src/tools21cm/mfp_np.py"), ("spa_np", "src/tools21cm/spa_np.py")],
     ["spa", "mfp", "mfp_from_point", "averaged_mfp", "granulometry_bsd", "granulometry_CDF", "watershed_bsd"])
prop("P05", "Region identification thresholds and superpixel statistics are exact",
     "Fixed, triangle (3D or median over slices along any axis) and k-means identification select exactly the cells on the requested side of the threshold or in the extreme cluster. Superpixel means, spreads, pixel counts and lists, maps, SNR tables, combined statistics and stitched masks are those of the labelled segments (labels 0..n-1): a stitched mask selects whole superpixels by one threshold on their mean, a threshold of zero included. "
     "SLIC labels of a 3D cube cover the cube with labels 0..n-1. Inputs are left unchanged.",
     ["inputs", "configurations"], "all small fields over 4 values; all assignments of 1-3 levels to 5 cells; all labellings of 6 cells with up to 4 labels; SLIC on 2 boxes",
     "three tests inspect one cell of one ball",
     ["identify_regions.py", "superpixels.py"],
     [("bubbles_from_*", "src/tools21cm/identify_regions.py"), ("superpixel operators and stitching", "src/tools21cm/superpixels.py")],
     ["bubbles_from_fixed_threshold", "bubbles_from_triangle2D/3D", "bubbles_from_kmeans", "bubbles_from_slic", "superpixels.*"])
prop("P06", "Morphology, segmentation symmetries and box counts are exact",
     "Binary dilation, erosion and opening equal their set definitions on a zero-padded grid for every structuring element with odd sides, symmetric or not. The augmentation operations of the segmentation wrapper are distinct cube symmetries closed under its flips and rotations, each undone exactly, so an equivariant network yields its own rounded prediction with zero spread. "
     "Sliding box counts sum the q-th power of the normalised cube or ball average around every cell.",
     ["inputs", "configurations"], "all binary images of several small shapes x 9 structures, all 3x3 structures; all augmentation modes; windows 1-5",
     "no test touches these parts", ["morph.py", "segmentation.py", "box_counting.py"],
     [("binary_erosion/dilation/opening", "src/tools21cm/morph.py"), ("segunet21cm.IndependentOperations/prediction", "src/tools21cm/segmentation.py"), ("get_kernel, box_count_sliding", "src/tools21cm/box_counting.py")],
     ["morph.binary_*", "segunet21cm", "box_count_sliding"])
prop("P07", "Power spectra are mode-exact in 1D, 2D and nD",
     "The nD power (and cross) spectrum equals |FFT|^2 (Re of the product with the conjugate) times cell volume squared over box volume, with the zero mode in the middle, for every grid parity, dimension, dtype and box given as number, list, array or keyword. "
     "The spherical and cylindrical averages assign each mode by its true wavenumber 2 pi n_i/L_i to the bin containing it, report the mean power, bin centres and mode counts, the automatic bins run from the fundamental mode of the shortest side to the largest wavenumber inclusive, both edges belonging to a bin; windows multiply the data along the last axis; the dimensionless form is k^3 P/(2 pi^2). Inputs are left unchanged.",
     ["inputs", "configurations"], "all binary fields of small shapes and generic ones of 37 shapes in 1D-3D, box forms, bins, binning modes, line-of-sight axes, windows",
     "tests look at one cubic box; parity, non-cubic boxes, rounding of the extreme bins and other box forms are never sampled",
     ["power_spectrum.py"],
     [("power_spectrum_nd/1d/2d, cross_*, radial_average, dimensionless_ps, apply_window, _get_k, _get_kbins", "src/tools21cm/power_spectrum.py")],
     ["power_spectrum_nd", "cross_power_spectrum_nd", "power_spectrum_1d", "cross_power_spectrum_1d", "power_spectrum_2d", "radial_average", "dimensionless_ps", "apply_window"])
prop("P08", "Anisotropic spectra bin every mode by its true k and mu",
     "The (k, mu) spectra, their mode counts, Legendre multipoles and the anisotropy ratio equal the mode-by-mode sums over the Fourier grid: mu is the line-of-sight component over |k|, signed or absolute as requested, the zero mode carries no power, modes with k_perp=0 are excluded exactly when requested (all of them, whatever the parity of the grid), no mode with mu=1 or at the last edge is lost, optional weights give the weighted mean. Inputs are left unchanged.",
     ["inputs", "configurations"], "shapes of every parity x line of sight x box form and scale x bins x flags, auto and cross",
     "tests use one cubic even grid and only look at shapes or one value",
     ["power_spectrum.py"],
     [("power_spectrum_mu, cross_power_spectrum_mu, mu_binning, anisotropy_ratio_r_mu, power_spectrum_multipoles, _get_mu, _get_nonzero_idx", "src/tools21cm/power_spectrum.py")],
     ["power_spectrum_mu", "cross_power_spectrum_mu", "mu_binning", "anisotropy_ratio_r_mu", "power_spectrum_multipoles"])
prop("P09", "Bispectra are averages over closed triangles; sub-volume statistics are exact",
     "The bispectrum of three shells equals the average of F(k1)F(k2)F(k3) over all triples of Fourier modes in the shells that close modulo the grid, in the documented normalisation, for equilateral, isosceles, scalene and general triangles, grid parity and non-cubic boxes. The integrated bispectrum and response functions average, over every one of the equal sub-volumes, the product of sub-volume mean and sub-volume power spectrum; shapes that cannot be cut equally are rejected.",
     ["inputs", "configurations"], "5 shapes x box x window x triangle family x binning x shell width; 9 (shape, cuts) x binning x bins x 6 statistics; 16 rejections",
     "tests only check one even cubic noise box", ["bispectrum.py", "position_dependent_power_spectrum.py"],
     [("Bispectrum, spherical_shell_mask", "src/tools21cm/bispectrum.py"), ("integrated_bispectrum, integrated_bispectrum_cross, power_spectrum_response", "src/tools21cm/position_dependent_power_spectrum.py")],
     ["Bispectrum.bispectrum_k/k1k2", "integrated_bispectrum", "integrated_bispectrum_cross", "power_spectrum_response"])
prop("P10", "Gaussian random fields put each mode's power where the spectrum says",
     "The generated field is real, has the requested shape, depends linearly on the normal draws, and each draw excites exactly one Fourier mode (and its mirror) with variance equal to the requested power at that mode's true wavenumber times the documented normalisation, so the ensemble spectrum is the requested one for every grid parity. A seed determines the field whatever the previous generator state; a field made like another one uses that field's spectrum; phase shuffling recombines the true amplitudes with the shuffled phases (an identity shuffle gives back the field). Amplitude and phase of the transform of any field give back that transform.",
     ["inputs", "histories"], "every unit draw of every mode of 9 grids x 3 spectra (linearity decides all realisations); seeds x generator histories",
     "random output: tests can only sample realisations", ["gaussian_random_field.py"],
     [("make_gaussian_random_field, make_gaussian_random_field_like_field, fourier_phase_shuffled", "src/tools21cm/gaussian_random_field.py"), ("real_to_fourier_amplitude_phase", "src/tools21cm/helper_functions.py")],
     ["make_gaussian_random_field", "make_gaussian_random_field_like_field", "fourier_phase_shuffled"])
prop("P11", "Smoothing and resampling do what their kernels say, everywhere in the box",
     "Convolution equals the direct sum for every boundary mode, kernel size and grid parity and never moves structures; Gaussian, tophat, Lanczos and spherical kernels are normalised, centred and of the documented width; smoothing of images and light-cones applies the redshift-dependent resolution to the right slice and axis (both along angles and frequency), baseline and uv cuts remove exactly the modes beyond the limit, one-dimensional smoothing and spline resampling agree with their definitions and keep constants constant. Inputs are left unchanged.",
     ["inputs", "configurations"], "shapes of every parity x kernels smaller and larger than the array x boundary modes x axes; light-cones x axes x resolutions x ratios",
     "tests smooth one cube and look at shapes; off-by-one-cell shifts for some parities are invisible there", ["smoothing.py", "fft_functions.py", "helper_functions.py"],
     [("gauss_kernel*, tophat_kernel*, lanczos_kernel, smooth_*, interpolate2d/3d, convolve_uvmap*, remove_baselines_from_uvmap", "src/tools21cm/smoothing.py"), ("fftconvolve, numpy_fftconvolve", "src/tools21cm/fft_functions.py"), ("find_idx, get_interpolated_array", "src/tools21cm/helper_functions.py")],
     ["fftconvolve", "smooth_with_kernel", "smooth_coeval", "smooth_lightcone", "smooth_lightcone_tophat", "smooth_line"])
prop("P12", "Light-cones take every slice from the right snapshots at the right depth",
     "A light-cone's redshifts are the documented grid (one cell of comoving distance, or constant frequency width) inside the range covered by the snapshots; slice i combines cell i (periodically continued along the line of sight) of the two snapshots bracketing its redshift, with linear, step, sigmoid or cell-wise step weights; the result does not depend on how the snapshots are passed (dictionary, list in any order, text file, directory, reader) nor on which snapshots were read before; sub-volumes are the requested redshift interval with the stated physical size and optional mean subtraction.",
     ["inputs", "histories", "configurations"], "snapshot sets (sparse, dense, skipped) x shapes x axes x interpolations x ranges x 13 ways to pass data; sub-volume centres, depths and flags",
     "the tests build one light-cone of two snapshots and only look at its shape", ["lightcone.py"],
     [("make_lightcone, make_velocity_lightcone, redshifts_at_*, get_lightcone_subvolume, _get_interp_slice, _get_step_transitions", "src/tools21cm/lightcone.py")],
     ["make_lightcone", "make_velocity_lightcone", "redshifts_at_equal_comoving_distance", "redshifts_at_equal_frequncy_width", "get_lightcone_subvolume"])
prop("P13", "Cosmological parameters and simulation constants stay consistent under any sequence of setters",
     "After any sequence of calls of the parameter setters and of set_sim_constants (including rejected ones), every parameter has the last value set, every derived constant (H0, q0, critical and matter density, mean hydrogen number density, mean brightness temperature, molecular weight, Hubble parameter) is the one implied by the current parameters, the conversion factors of the simulation are those of the last accepted box size, and a rejected box size changes nothing.",
     ["histories"], "all sequences of setter calls up to length 3 (thorough 4)",
     "a history property: tests set one cosmology once", ["const.py", "conv.py"],
     [("set_hubble_h, set_omega_*, set_ns, set_sigma_8, set_abundance_helium", "src/tools21cm/const.py"), ("set_sim_constants, gridpos_to_mpc, gridvel_to_kms, gridmass_to_msol", "src/tools21cm/conv.py")],
     ["set_hubble_h", "set_omega_matter", "set_omega_lambda", "set_omega_baryon", "set_ns", "set_sigma_8", "set_abundance_helium", "set_sim_constants", "gridpos_to_mpc", "gridvel_to_kms", "gridmass_to_msol"])
prop("P14", "Cosmological conversions are exact, mutually inverse and follow the current cosmology",
     "Comoving and luminosity distances, ages, angular sizes, 21 cm frequencies and wavelengths equal the integrals of the current cosmology at every redshift below 100; the conversions redshift/distance, redshift/frequency, angle/distance, comoving/proper, virial temperature/mass invert each other; scalars, arrays, integers and lists give the same numbers; the result never depends on which cosmologies or values were used before.",
     ["inputs", "histories"], "6 cosmologies x 12 redshifts x 7 argument forms; 400 (thorough 4000) distances per cosmology; all sequences of cosmologies up to length 3 (4)",
     "tests evaluate two cosmologies at one or two redshifts", ["cosmo.py"],
     [("z_to_cdist, cdist_to_z, luminosity_distance, z_to_age, angular_size*, deg_to_cdist, nu_to_z, z_to_nu, nu_to_cdist, nu_to_wavel, c_to_p, p_to_c, Tvir_to_M, M_to_Tvir", "src/tools21cm/cosmo.py")],
     ["z_to_cdist", "cdist_to_z", "luminosity_distance", "z_to_age", "angular_size", "angular_size_comoving", "deg_to_cdist", "Tvir_to_M", "M_to_Tvir"])
prop("P15", "Observational and physical light-cones convert into each other cell by cell",
     "Regridding of slices and light-cones between comoving size and angle, and binning between comoving distance and frequency, put every output cell where its angle, frequency or distance says: the numbers of cells are those of the field of view and frequency range, the means over cells are complete also at the ends, a structureless sky stays exactly as bright as it was, periodic padding continues the box, cells are never lost to rounding, and the reported frequencies, redshifts and cell sizes describe the output.",
     ["inputs", "configurations"], "shapes x field sizes x redshifts x channel widths x cell sizes x interpolation orders, coarser and finer than the input",
     "no test touches this module", ["angular_coordinates.py"],
     [("physical_lightcone_to_observational, observational_lightcone_to_physical, physical_slice_to_angular, angular_slice_to_physical, bin_lightcone_in_frequency, bin_lightcone_in_mpc, resample_slice, padding_lightcone", "src/tools21cm/angular_coordinates.py")],
     ["physical_lightcone_to_observational", "observational_lightcone_to_physical", "bin_lightcone_in_frequency", "bin_lightcone_in_mpc"])
prop("P16", "What is written to a file is what is read back, in every layout",
     "Ionisation, density, clumping, velocity, temperature and source files and cbin, raw, fits, numpy and pickle array files keep every value in its cell for every mesh shape (also non-cubic), precision, ordering, record-marker, neutral/ionised and old-format flag and memory layout of the array written; files of other programs in the documented byte layout are read the same way; derived quantities (cgs density, km/s from momentum and density, gridded source masses, mesh sizes, redshift, data type) follow from the content and the current constants.",
     ["inputs", "configurations", "histories"], "6-9 mesh shapes x flags x names x memory layouts x simulation boxes; objects reused for several files; overwritten files",
     "no test touches the file classes; transposed axes and lost flags are invisible on the cubic files used in practice", ["xfrac_file.py", "density_file.py", "vel_file.py", "temper_file.py", "source_file.py", "helper_functions.py", "read_files.py"],
     [("XfracFile", "src/tools21cm/xfrac_file.py"), ("DensityFile, ClumpingFile", "src/tools21cm/density_file.py"), ("VelocityFile", "src/tools21cm/vel_file.py"), ("SourceFile", "src/tools21cm/source_file.py"), ("TemperFile", "src/tools21cm/temper_file.py"), ("read_cbin, save_cbin, read_raw_binary, save_raw_binary, read_fits, save_fits, save_data, get_data_and_type, get_mesh_size", "src/tools21cm/helper_functions.py"), ("read_c2ray_files, read_21cmfast_files, read_grizzly_files", "src/tools21cm/read_files.py")],
     ["XfracFile", "DensityFile", "ClumpingFile", "VelocityFile", "TemperFile", "SourceFile", "read_cbin/save_cbin", "save_data", "read_fits/save_fits", "get_data_and_type"])
prop("P17", "Simulation outputs are found by redshift, whatever the order of the directory",
     "The redshift lists of a directory contain exactly the outputs within the requested limits (with brackets: also the neighbours enclosing them) in increasing order; the redshift and type of a file follow from its name alone, not from its directory; coeval ionisation, density, velocity and brightness cubes at a requested redshift are the snapshot of that redshift or the linear interpolation between the two snapshots enclosing it, each velocity file combined with the density file of the same redshift; redshifts outside the snapshots are rejected. None of this depends on the order in which the file system lists the files.",
     ["inputs", "schedules"], "100 limits x brackets x listing orders; 3456 names; 12 redshifts x 5 (thorough all 24) listing orders x 2 APIs",
     "directory order is decided by the file system: tests on one machine see one order", ["usefuls.py", "read_files.py", "helper_functions.py"],
     [("coeval_xfrac, coeval_dens, coeval_overdens, coeval_vel, coeval_21cm, get_zs_list", "src/tools21cm/usefuls.py"), ("coeval_*_c2ray", "src/tools21cm/read_files.py"), ("get_xfrac_redshifts, get_dens_redshifts, get_source_redshifts, determine_redshift_from_filename, determine_filetype", "src/tools21cm/helper_functions.py")],
     ["coeval_xfrac", "coeval_dens", "coeval_vel", "coeval_21cm", "get_xfrac_redshifts", "get_dens_redshifts", "get_source_redshifts", "get_zs_list", "determine_redshift_from_filename"])
prop("P18", "Brightness temperature and optical depth follow each cell's state and redshift",
     "The 21 cm brightness temperature of every cell is the documented function of its neutral fraction, density, spin temperature (corrected for partial ionisation, with an adiabatic floor) and redshift: finite everywhere, zero where ionised or empty; the redshift comes from the argument or else from the first input that knows it; light-cones use each slice's own redshift along the stated axis. "
     "The Thomson optical depth is the running integral of the ionisation history on top of a fully ionised foreground, never decreasing, independent of the order of the redshifts, and the map version treats every line of sight alike.",
     ["inputs", "configurations"], "shapes x redshifts x temperature regimes x cosmologies x dtypes; all combinations of input forms; 4 line-of-sight axes; all 3-level ionisation histories x all orders",
     "tests use uniform cubes, one axis and one redshift", ["temperature.py", "tau.py"],
     [("calc_dt, calc_dt_full, calc_dt_lightcone, calc_dt_full_lightcone, calc_dt_halo, mean_dt", "src/tools21cm/temperature.py"), ("tau, tau_map", "src/tools21cm/tau.py")],
     ["calc_dt", "calc_dt_full", "calc_dt_lightcone", "calc_dt_full_lightcone", "calc_dt_halo", "mean_dt", "tau", "tau_map"])
prop("P19", "Slice and one-point statistics are the moments they claim to be",
     "Skewness and kurtosis equal the exact sample moments in the documented normalisation, independent of unit, offset and shape; removing the mean signal, the overdensity and statistics along the line of sight act on every slice perpendicular to the given (possibly negative) axis for every shape and number type; the mass-weighted mean weights with density; means and variances pooled from any partition of a dataset, given as lists, tuples, arrays or dictionaries, are those of the whole dataset.",
     ["inputs"], "all samples of up to 6 (7) values on 3 levels against rational arithmetic; 7 shapes x 6 axes x 4 dtypes; all cuts of 7 (9) values",
     "tests use constant cubes and random ones with loose bounds", ["statistics.py", "helper_functions.py"],
     [("skewness, kurtosis, mass_weighted_mean_xi, subtract_mean_signal, signal_overdensity, apply_func_along_los", "src/tools21cm/statistics.py"), ("combined_mean_variance", "src/tools21cm/helper_functions.py")],
     ["skewness", "kurtosis", "mass_weighted_mean_xi", "subtract_mean_signal", "signal_overdensity", "apply_func_along_los", "combined_mean_variance"])
prop("P20", "Redshift-space distortions conserve the signal of every line of sight",
     "Moving a brightness temperature box into redshift space shifts each particle of a cell along its own line of sight by its velocity over the Hubble rate at the observed redshift: with periodic boundaries every line of sight keeps its total signal, without them only what leaves the box is lost; no velocity means no change, a uniform velocity is a rigid shift, the result is linear in the signal, depends on no other line of sight and uses the velocity component of the requested axis, for every line-of-sight axis, box size and cosmology.",
     ["inputs", "configurations"], "4 depths x 3 widths x 3 axes x 3 velocity components x 4 particle numbers x boundary x boxes x velocity fields; all shifts of -3 to 2 cells",
     "no test touches this module", ["pv_mpm.py"],
     [("get_distorted_dt, make_pv_box", "src/tools21cm/pv_mpm.py")],
     ["get_distorted_dt", "make_pv_box"])

prop("P21", "Halo catalogues keep exactly the haloes asked for, each in its own cell",
     "Reading a halo catalogue (CubeP3M text and binary, Rockstar, pkdgrav) yields exactly the haloes selected by mass limits, number and start line, in file order, each with its own position, velocity, angular momentum and mass in the documented units, and says whether anything was left unread; a read is independent of earlier reads, also of failed ones, and of how the catalogue is split over nodes or files. "
     "Putting haloes on a grid places each one in the cell of the periodic box that contains it, whatever the units of masses, positions and box, so the total is conserved and maps add up; particle mass and particle number convert into each other.",
     ["inputs", "configurations", "histories"], "all short catalogues x all selections; all sequences of 3 (4) good, missing and broken files; all halo positions and pairs on a sub-cell lattice x 12 entry points",
     "no test touches the halo readers or the halo grids", ["halo_list.py", "nbody_file.py", "nbody_tools.py", "nbody_pkdgrav.py", "line_intensity.py", "conv.py"],
     [("HaloList, HaloCubeP3M, HaloCubeP3MFull, HaloRockstar", "src/tools21cm/halo_list.py"), ("Halo2Grid, halo_list_to_grid, read_pkdgrav_fof_halo_catalogue, read_pkdgrav_density_grid", "src/tools21cm/nbody_file.py"), ("Pkdgrav3data", "src/tools21cm/nbody_pkdgrav.py"), ("ParticleMass_to_ParticleNumber, particle_number_to_particle_mass, halo_mass_to_particle_number", "src/tools21cm/nbody_tools.py"), ("M_HI_on_grid, L_CII_on_grid", "src/tools21cm/line_intensity.py")],
     ["HaloList", "HaloCubeP3M", "HaloCubeP3MFull", "HaloRockstar", "Halo2Grid", "halo_list_to_grid", "M_HI_on_grid", "L_CII_on_grid", "read_pkdgrav_*"])
prop("P22", "UV coverage puts every baseline of every time slot into its own uv cell",
     "The baselines of a radio telescope are the differences of its antenna positions in wavelengths at the observed redshift, rotate with the Earth according to declination, time and duration, and the simulated uv map counts each of them in the uv cell it falls into (and its mirror image when asked), for every number of cells (odd and even), field of view, observation and longest baseline; baselines outside the grid are dropped without touching others. Light-cones, per-antenna maps and gain-affected maps agree with the plain one, whatever the number of jobs and the order in which they finish. Conversions between geographic and cartesian antenna positions invert each other.",
     ["inputs", "schedules"], "every cell of the grid and one row beyond for 1..7 (11) cells per side; 4 telescopes x grids x observations x declinations x fields; all orders of up to 4 parallel tasks",
     "tests only look at the shape of one uv map", ["radio_telescope_layout.py", "radio_telescope_calibration.py", "radio_telescope_noise.py", "radio_telescope_sensitivity.py"],
     [("get_uv_daily_observation, earth_rotation_effect, from_antenna_config, grid_uv_tracks, get_SKA_Low_layout, geographic_to_cartesian_coordinate_system, cartesian_to_geographic_coordinate_system", "src/tools21cm/radio_telescope_layout.py"), ("get_uv_map_with_gains, get_uv_daily_observation_with_gains, uv map stamps per antenna", "src/tools21cm/radio_telescope_calibration.py"), ("get_uv_map, get_uv_map_lightcone", "src/tools21cm/radio_telescope_noise.py")],
     ["get_uv_daily_observation", "get_uv_map", "get_uv_map_lightcone", "from_antenna_config", "earth_rotation_effect", "gain uv maps", "antenna uv stamps"])
prop("P23", "The uv-map cache survives every crash and does not depend on how it was filled",
     "get_uv_map_lightcone returns for every requested redshift the uv map of that redshift and of the requested observation and telescope, never one of another declination, duration, integration time, box or telescope left in the file, whatever the order of redshifts, the number of jobs, the checkpoint interval and the history of earlier (also failed or killed) runs. A process killed at any point, or a second process running at any point of the first one, never leaves a cache file that cannot be read or that contains a wrong map, and finished checkpoints are not lost. Dictionary files read back what was written, in the file named, for every format and spelling of the format, and a failed write leaves the earlier file as it was.",
     ["crash_points", "histories", "schedules"], "kill at every executed line of the cache code and after written bytes; all sequences of 2-3 (4) runs out of 14; second process at every executed line; all subsets of 4 stored redshifts",
     "tests never kill a run nor reuse a cache", ["radio_telescope_noise.py", "read_files.py"],
     [("get_uv_map_lightcone", "src/tools21cm/radio_telescope_noise.py"), ("write_dictionary_data, read_dictionary_data", "src/tools21cm/read_files.py")],
     ["get_uv_map_lightcone", "write_dictionary_data", "read_dictionary_data"])
prop("P24", "Telescope noise has exactly the covariance its uv coverage and settings imply",
     "A noise image is linear in its gaussian draws and its covariance is the periodic one of the uv coverage: each uv cell contributes in proportion to one over the number of its baselines (or as the weighting says), empty uv cells contribute nothing, the variance scales with system temperature, effective area, bandwidth, integration and total time as the radiometer equation with the given settings says, for odd and even numbers of cells. "
     "Light-cone noise is the image noise of each slice's own redshift and channel; the uv response of a telescope removes exactly the modes with no (or too few) baselines and nothing else and leaves its input alone; Kelvin and jansky conversions invert each other in the cell's solid angle; windows are symmetric around the zero mode.",
     ["inputs", "configurations"], "every unit gaussian draw on maps of 2..7 (9) cells x all 0/1/2-count uv patterns on small grids x weightings x telescopes x settings",
     "tests look at the shape of one random noise map", ["radio_telescope_noise.py", "radio_telescope_sensitivity.py"],
     [("noise_map, noise_cube_coeval, noise_cube_lightcone, noise_lightcone, apply_uv_response_noise, apply_uv_response_on_image, apply_uv_response_on_coeval, signal_window, gauss_kernel_3d", "src/tools21cm/radio_telescope_noise.py"), ("sigma_noise_radio, get_SEFD, apply_uv_response, kelvin_jansky_conversion, jansky_2_kelvin, kelvin_2_jansky", "src/tools21cm/radio_telescope_sensitivity.py")],
     ["noise_map", "noise_cube_coeval", "noise_lightcone", "noise_cube_lightcone", "apply_uv_response_noise", "apply_uv_response_on_coeval", "kelvin_2_jansky", "jansky_2_kelvin", "get_SEFD"])
prop("P25", "Beam, foregrounds and foreground removal act on the right pixels and modes",
     "The primary beam weights each pixel by the beam function of its angular distance from the pointing centre at each slice's frequency (one at the centre, one half at the null radius of the sigmoid, zero outside the step), along the stated frequency axis and for the given null; galactic foregrounds are real, finite maps with the documented spectrum and frequency scaling for odd and even sizes; extragalactic foregrounds place every source in its pixel and add up; seeds (also 0) reproduce, whatever types redshifts are given in. "
     "Removing the foreground wedge multiplies exactly the modes the given filter selects, keeps the rest of the signal, and applied in rolling chunks gives each channel from its own chunk.",
     ["inputs", "configurations"], "shapes (odd and even) x axes x redshift forms x beams x nulls x seeds; every Fourier mode of small boxes through the wedge; chunk lengths x slices",
     "tests cover none of these modules beyond shapes", ["primary_beam.py", "foreground_model.py"],
     [("primary_beam, primary_beam_null, circular_beam", "src/tools21cm/primary_beam.py"), ("galactic_synch_fg, extragalactic_pointsource_fg, remove_wedge_image, rolling_wedge_removal_lightcone", "src/tools21cm/foreground_model.py")],
     ["primary_beam", "galactic_synch_fg", "extragalactic_pointsource_fg", "remove_wedge_image", "rolling_wedge_removal_lightcone"])
prop("P26", "Lyman-alpha absorption adds up the cells along each line of sight",
     "The Voigt function and Lyman-alpha cross-section equal their defining integrals (normalised to the oscillator strength, thermally broadened) for every temperature and frequency; the optical depth along a line of sight combines exactly the cells it covers (as many as its length holds, in cells or in any unit, continuing periodically), each with its own neutral fraction, density and temperature, the same for every line-of-sight axis and independent of all other lines of sight; the fluctuating Gunn-Peterson optical depth, magnitudes and luminosities follow their definitions for every cosmology and unit and invert each other; the noise error of a power spectrum follows its formula for every parameter set.",
     ["inputs", "configurations"], "shapes x axes x lines of sight x units x temperatures x frequencies x methods; every cell as the only absorber",
     "no test touches these modules", ["lyman_alpha_transmission.py", "astro_tools.py", "power_spectrum_noise.py"],
     [("direct_voigt_profile, approximation_voigt_faddeeva, lyA_scattering_cross_section, tau_nu_lyA_FGPA, tau_nu_lyA_los", "src/tools21cm/lyman_alpha_transmission.py"), ("mag_to_flux, Muv_to_muv, muv_to_Muv, Muv_to_L1500", "src/tools21cm/astro_tools.py"), ("noise_error_ps", "src/tools21cm/power_spectrum_noise.py")],
     ["tau_nu_lyA_los", "tau_nu_lyA_FGPA", "lyA_scattering_cross_section", "direct_voigt_profile", "Muv_to_muv", "muv_to_Muv", "Muv_to_L1500", "noise_error_ps"])
prop("P27", "Results depend on arguments and current settings only",
     "Every public function returns, for the same arguments and the same current cosmological and simulation settings, the same result whatever happened before or happens in between: after any earlier calls of the same or other functions with other arguments or settings, after calls that failed or were interrupted at any line, while another call runs at any point of it, and after files were replaced under the same name. "
     "No call changes its arguments, results returned earlier, the settings, the working directory, numpy's error handling, or (unless it draws random numbers) the random state.",
     ["histories", "schedules", "crash_points", "inputs"], "258 calls x 4 argument variants x 2 settings: all sequences of 2 (3) calls of a function, all ordered pairs of functions, an interrupt and a complete other call before the first and last execution of every source line, all arguments made unusable",
     "tests call every function once, in a fixed order", ["power_spectrum.py", "bubble_stats.py", "smoothing.py", "lightcone.py", "temperature.py", "cosmo.py", "const.py", "conv.py", "radio_telescope_noise.py", "helper_functions.py"],
     [("all public functions of the catalogue mc/catalog.py", "src/tools21cm/__init__.py"), ("set_hubble_h, set_omega_matter, set_omega_lambda, set_omega_baryon", "src/tools21cm/const.py"), ("set_sim_constants", "src/tools21cm/conv.py")],
     ["power_spectrum_*", "bubble statistics", "topology", "smoothing", "light-cones", "conversions", "temperature", "telescope functions", "file readers"])

prop("P28", "Results depend on the values of the arguments, not on their representation",
     "Every public function gives the same result (to rounding) for the same values whatever their representation: arrays that are C- or Fortran-ordered, strided, reversed, transposed, read-only, unaligned, of the other byte order, of a subclass of numpy's array or in single precision or integers (holding the same values), and numbers that are Python or numpy integers or floats of any precision holding the same value (documented type requirements aside). No such argument is changed.",
     ["inputs"], "258 calls x 4 argument variants: every array argument in 9 representations, whole-number arrays in 3 integer types, every number, also inside lists, tuples and dictionaries, in up to 6 types",
     "tests pass freshly made contiguous arrays and Python numbers", ["power_spectrum.py", "bubble_stats.py", "smoothing.py", "lightcone.py", "temperature.py", "mfp_np.py", "scipy_func.py", "helper_functions.py", "radio_telescope_noise.py"],
     [("all public functions of the catalogue mc/catalog.py", "src/tools21cm/__init__.py"), ("_get_kbins, _get_dims", "src/tools21cm/power_spectrum.py")],
     ["power_spectrum_*", "bubble statistics", "topology", "smoothing", "light-cones", "conversions", "temperature", "telescope functions"])

prop("P29", "Defaults, reporting, units and parallel work do not change results",
     "Every public function gives the same result however its call is spelled out: with the box left out or given as the box that is currently set (after any history of boxes set, rejected or passed explicitly), with intermediate results (labels, means, uv maps, filters, Betti numbers, cosmology) passed or left to be computed, with quantities as plain numbers in the documented unit or with any compatible unit, with messages switched on or off, "
     "and with its work done by one process or distributed over any number of workers, in whatever order and by whichever worker the parts are done; workers use the cosmology and box that were set in the calling process.",
     ["schedules", "histories", "configurations", "inputs"], "57 functions with an optional box x 4 variants x all histories of 2 boxes; 258 calls x 4 variants x verbose x set_verbose; 13 functions with workers x 4 variants x 2 settings x numbers of jobs x task orders x assignments to workers; 25 functions x all combinations of units; 19 functions x all subsets of intermediate results",
     "tests give every argument in one way, run silently, with the default cosmology and in one process", ["radio_telescope_noise.py", "radio_telescope_calibration.py", "radio_telescope_layout.py", "bubble_stats.py", "smoothing.py", "power_spectrum.py", "topology.py", "superpixels.py", "lightcone.py", "primary_beam.py", "line_intensity.py", "nbody_file.py", "conv.py"],
     [("all public functions of the catalogue mc/catalog.py", "src/tools21cm/__init__.py"), ("_with_current_settings, set_sim_constants", "src/tools21cm/conv.py"), ("get_uv_map_lightcone", "src/tools21cm/radio_telescope_noise.py"), ("get_full_uv_map_with_antenna_stamp, get_full_uv_lagrangian_with_antenna_stamp", "src/tools21cm/radio_telescope_calibration.py"), ("mean_estimate, get_superpixel_SNRs", "src/tools21cm/superpixels.py")],
     ["power_spectrum_*", "bubble statistics", "smoothing", "light-cones", "telescope functions", "superpixels", "Lyman-alpha functions", "unit conversions"])
prop("P30", "Plots, chain statistics and fits show the data they were given",
     "Slice plots show exactly the requested slice (its logarithm if asked for) over the current box with the labels of the kind of data, histograms count the given data in the given bins, and contour and forest plots draw every chain with its own samples, weights, colour, name and intervals. "
     "Means, standard deviations, covariances, quantiles, distribution functions, coverage and distances reported for chains and probability grids are those of the weighted points, whatever the order of the samples and the scale of the weights and whatever else was added; fits return the parameters that generated the data. The data and weights passed are unchanged.",
     ["inputs", "histories", "configurations"], "every order of up to 4 (5) samples x all weights in {1,2,5} x 1-3 parameters; all small probability grids; 1-3 chains of 1-3 parameters each; every slice x axis x scale x kind of data x 3 boxes; 7 binnings; 5 models x parameters x cross-validation",
     "no test touches these modules", ["plotting.py", "fitting_methods.py"],
     [("plot_slice, plot_hist, print_chain_stats, plot_triangle", "src/tools21cm/plotting.py"), ("DistributionDiagnostic, SampledDistribution, GriddedProbabilities", "src/tools21cm/plotting.py"), ("FitFunction", "src/tools21cm/fitting_methods.py")],
     ["plot_slice", "plot_hist", "print_chain_stats", "plot_triangle", "SampledDistribution", "GriddedProbabilities", "plot_forest", "plot_corner", "FitFunction"])
prop("P31", "Test cubes consist of whole periodic bubbles and stop at the requested fraction",
     "For every sequence of random draws, spherical_bubble_model returns a cube of zeros and ones that is the given cube (or an empty one) plus whole periodic balls of the requested radius centred on neutral cells - mutually non-overlapping if so requested - where painting stops as soon as the requested fraction, the number of iterations or the available space is reached and nothing is painted when one batch is larger than what is missing; every such cube can occur. "
     "paint_kernel adds the kernel, centred and periodic, at every given position and nothing else. The given cube is unchanged.",
     ["schedules", "inputs", "histories"], "every sequence of random positions in boxes 3^3-5^3 (7^3), radii 1-2 (3), 1-9 iterations, batches of 1-2; every position and pair of positions x 6 kernel shapes",
     "no test touches this module; one run draws one sequence of positions", ["test_case.py"],
     [("spherical_bubble_model, paint_kernel", "src/tools21cm/test_case.py")],
     ["spherical_bubble_model", "paint_kernel"])
