HEAD = """# DESIGN

(Generated by `tools/mkdesign.py` from `tools/design_text.py`, `tools/props.py` and the suites themselves.)

## Approach
Every property is decided by *bounded exhaustive exploration of the real code* (stateless model checking of the implementation):
a property module `mc/props/Pnn.py` holds suites; a suite enumerates every case of an explicitly bounded space (inputs,
configurations, operation sequences, thread schedules, crash points), runs the real tools21cm functions on each of them and
compares every observable with a small independent reference model written from the documentation and the statement of the
property. Nothing is sampled and no solver is used. tools21cm is a numerical library, so "state" is mostly (input,
configuration, history, environment); the places with genuine concurrency and crash behaviour (the shared-memory cube map P02,
the uv-map cache P23, the parallel uv maps P22, interruption of any call P27) are explored with controlled schedulers and
fault injectors on the real code.

- `mc/core.py`: runner. Eight forked workers, per-case time-out, SIGKILL of stuck workers, evidence file, replay files,
  known-findings filter. Every call of package code made through `call(...)` also checks that the arguments are left as they
  were (bit by bit, dtype and flags included) unless the suite says the argument is an output.
- `mc/sched.py`: cooperative scheduler. Workers run as threads that stop at every access to a shared array; the explorer
  enumerates all schedules with at most d deviations from the default order (iterative context bounding).
- `mc/cybuild.py`: compiles the Cython extension from the current working tree into a scratch directory, so that the compiled
  topology back end which is checked is the one in the tree.
- `mc/catalog.py`: a catalogue of some 200 calls covering nearly every public function with 4 variants of arguments each; used by
  the cross-cutting properties P27, P28 and P29, for which the oracle is relational (the same call, another history, interleaving,
  representation or spelling).
- Random number generators used by the code are replaced by enumeration: every integer-degree ray, every unit draw of a
  Gaussian field (linearity then decides all realisations), every permutation. `time.sleep` is a no-op.
- Crash points: a `sys.settrace` hook raises (or calls `os._exit`) at the k-th executed line of the package, for every k.

`./check Pnn [quick|thorough]` runs one property; `./check Pnn --replay FILE` re-executes one recorded case. Checks import the
sources from /repo/src (or `$MC_REPO`), with byte code, numba caches and scratch files in a private temporary directory.
There are no hooks in /repo: schedulers and fault injectors are put in place from outside (module attributes, tracing).

States = distinct observations; transitions = calls of real code; `traces_validated_against_impl` = cases whose real outcome
agreed with the model. The reference model is compared with the implementation on every case, so exploration and
conformance check are the same run and the model cannot drift from the code unnoticed.

Comparisons: exact where the result is discrete (labels, counts, files, schedules), and within a stated tolerance set from the
precision of the data type and the algorithm otherwise. A tolerance is always relative to the largest value of the reference
array, so that zeros must be zeros up to rounding; edges (values equal to a bin edge or threshold up to rounding) are generated only in
forms where the documented rule decides them exactly, otherwise the reference accepts both sides.
"""

D = {
"P01": dict(oracle="cell complex built as Python sets of occupied cells and all their faces; union-find components for betti 0 and 2.", cost="27 s / ~6 min"),
"P02": dict(oracle="the serial cube map (itself decided by P01) and an inventory of live shared-memory segments (SharedMemory replaced by a recording stand-in, plus /dev/shm listing in free-running runs).", cost="35 s / ~10 min"),
"P03": dict(oracle="union-find over explicit neighbour lists; sizes by counting labels; histogram bins by rational comparison with the edges.", cost="5 s / 2 min"),
"P04": dict(oracle="explicit ball averages (zero outside the box), ray marching with explicit trilinear interpolation, morphological opening as sets, watershed expectation on isolated odd blocks; all random rays are replaced by the complete set of integer-degree directions.", cost="8 s / 3 min"),
"P05": dict(oracle="brute-force thresholds from explicit histograms, two-cluster optimum by enumerating all partitions, explicit superpixel sums.", cost="9 s / 2 min"),
"P06": dict(oracle="set definitions of dilation/erosion/opening, group of cube symmetries as index permutations, explicit window sums.", cost="9 s / 2 min"),
"P07": dict(oracle="explicit DFT sum on small grids, numpy FFT with independently built wave numbers on larger ones; bin membership of every mode decided by its true wave number.", cost="6 s / 2 min"),
"P08": dict(oracle="mode-by-mode table of (k, mu, power) accumulated in Python, shared reference `mc/psref.py`.", cost="11 s / 4 min"),
"P09": dict(oracle="explicit sum over all triples of modes closing modulo the grid; sub-volume statistics from explicit loops.", cost="5 s / 3 min"),
"P10": dict(oracle="the field is linear in its normal draws: each unit draw must give one cosine mode (and its mirror) of the requested variance; together these decide the covariance of all realisations.", cost="3 s / 1 min"),
"P11": dict(oracle="direct convolution sums for every boundary mode, explicit kernels, explicit uv cells; unit impulses for every linear operator (so the whole operator is decided).", cost="6 s / 3 min"),
"P12": dict(oracle="explicit slice-by-slice model of the light-cone (bracketing snapshots, periodic cell index, linear/step/sigmoid transition).", cost="12 s / 4 min"),
"P13": dict(oracle="a small state machine (last value of each parameter; derived constants recomputed from formulas) stepped along every sequence of setters.", cost="6 s / 1 min"),
"P14": dict(oracle="high-order quadrature of the Friedmann integrals, written independently, for the cosmology current at the call.", cost="7 s / 3 min", note="One known finding (stale OmegaL in the virial conversions after set_omega_matter; pinned by an existing test)."),
"P15": dict(oracle="explicit overlap/interpolation model per cell of angle, frequency and distance.", cost="8 s / 3 min"),
"P16": dict(oracle="byte-level writers and readers of each documented format written independently; values encode their cell, so any transposition is visible.", cost="5 s / 1 min"),
"P17": dict(oracle="os.listdir/glob replaced by every (thorough) or five (quick) permutations; redshift recovered by an independent parser of the documented names.", cost="6 s / 2 min"),
"P18": dict(oracle="formula in high precision per cell; the optical depth by trapezium sums over explicit histories.", cost="5 s / 2 min"),
"P19": dict(oracle="rational arithmetic (fractions) for all samples over three levels.", cost="5 s / 1 min"),
"P20": dict(oracle="explicit particle-by-particle displacement and nearest-cell assignment on a periodic line.", cost="6 s / 2 min"),
"P21": dict(oracle="independent writers of each catalogue format; explicit selection; cell index from rational positions.", cost="10 s / 3 min"),
"P22": dict(oracle="independent rotation matrices, explicit uv cells of every baseline of every time slot; joblib.Parallel replaced by a stand-in that executes the tasks in every order.", cost="25 s / 5 min"),
"P23": dict(oracle="uv maps computed without cache; the cache file after a kill at every executed line (and after every few written bytes) is handed to a fresh run, which must return exactly these maps.", cost="25 s / 10 min"),
"P24": dict(oracle="noise is linear in its draws: each unit draw on an enumerated uv map gives one column of the covariance; expected variance from the documented radiometer formula.", cost="90 s / 6 min", note="Two suites were found vacuous by planted bugs (telescopes whose baselines all fell outside the map); all suites now assert that their uv maps hold baselines."),
"P25": dict(oracle="explicit beam functions per pixel, foreground formulas per pixel on identical draws, every Fourier mode of small boxes pushed through the wedge filter, rolling removal recomputed chunk by chunk.", cost="30 s / 3 min"),
"P26": dict(oracle="explicit Voigt/line formulas and integrals along every line of sight, magnitudes and Gunn-Peterson relations in closed form.", cost="10 s / 2 min"),
"P27": dict(oracle="relational: each of the catalogued calls is run alone, then after every other call (all ordered pairs on one walk per pair), after a failed or interrupted call (interruption at every executed line, up to a bound), and overlapped with a second thread at line granularity; result, arguments, global random state, settings, files, environment must be the same.", cost="~200 s / ~12 min (300 s under load)"),
"P29": dict(oracle="relational: the same call spelled out differently. Boxes left out are compared with the explicit box over all histories of two settings; joblib's Parallel is replaced by an executor that pickles the tasks as joblib does and runs them in forked workers holding the package as freshly imported, in every order and assignment; a run with real loky workers binds this model to joblib.", cost="60 s / 3 min"),
"P30": dict(oracle="explicit weighted sums and interpolation in Python; figures are inspected through matplotlib's artists (images, bars, markers, texts); the contour libraries, which are not installed, are replaced by recorders.", cost="40 s / 2 min"),
"P31": dict(oracle="a transition system over sets of cells (state = set of ionized cells, transition = painting one batch of balls); the real code is driven through every sequence of random answers and its set of final cubes must equal the set of terminal states of the model.", cost="20 s / ~8 min"),
"P28": dict(oracle="relational: the same call with arrays in C order, Fortran order, strided, reversed, read-only, masked-free subclass, float32 and byte-swapped representation and with numpy scalars must give the same answer.", cost="12 s / 1 min"),
}

UNCLAIMED = """## Not claimed
Not part of any property (behaviour undocumented, ambiguous, unreachable here, or a matter of modelling choice):
percolation.find_percolation_cluster; the threshold of threshold_kmeans on continuous data; mfp3d rays longer than max(shape) steps;
superpixel maps with labels other than 0..n-1; Renyi dimensions; genus; Pylians functions, torch/jax back ends, hdf5/netcdf/zarr/parquet
dictionaries, astroML and tensorflow functions (libraries absent); integrated_bispectrum_cross_slide; power_spectrum_2d with binning='mixed';
tophat widths larger than the box; interpolation mode 'wrap' outside the grid; extension-less names in determine_redshift_from_filename;
corr_function (whole module); power_spect_fast.py; model_21cmfast.py; the chainconsumer backend of plot_triangle; bubbles wider than the cube; lyman_alpha_coupling.py (not imported);
displacements larger than the box and depth-one boxes in pv_mpm; haloes exactly on box or cell edges; N_ant argument of the noise
functions; truncation of the number of time slots; redshifts closer than 0.001 in one cache (they share a key); values of the SKA1_LowConfig
tables; reference frequency and flux distribution of the extragalactic model; which channel sets the wedge slope inside a rolling
chunk; normalisation of tau_nu_lyA with redshift and the axis order of tau_nu_lyA_los; Briggs robustness sign convention;
two processes filling one cache file at the same time with different redshifts (last writer wins, both stay correct);
file writers that swallow I/O errors.

No property is given up as not applicable: all can be decided by bounded enumeration on the real code. Where the input space is
continuous, bounds are stated per suite above; for linear operators enumeration of unit impulses decides all inputs of that shape.
"""

SEEDS = """`seeded/<id>` (specifications in `tools/seeds/*.py`, validated by `tools/mkseed.py`: applies to HEAD, stable tests pass, demo
passes without and fails with the patch). Besides them an AST mutation tool was run over each module for each property
(operators, constants, dropped statements, swapped arguments); survivors were either shown equivalent/unclaimed or led to new suites.
Seeds exposed and led to the repair of: vacuous light-cone and simulated-uv suites in P24, too steep wedges in P25 (no mode inside
the filter), and gaps in P27's failed-call and interrupted-call suites (settings, files and arguments were not compared).
"""
CAUGHT = {}

TAIL = """## Defects found
{nfix} defects of the pinned commit were repaired in separate `fix:` commits, listed with property and commit in `known_findings.json`
(`fixed` entries suppress nothing). {nfind} findings are recorded but not repaired (`findings`); each prints a KNOWN-FINDING line:
- P14: virial conversions after set_omega_matter use a stale OmegaL, because an existing test pins the resulting value.
- P31: five defects of `src/tools21cm/test_case.py` (contents doubled by paint_kernel; non-overlapping bubbles that overlap across the
  faces, and never start near the corner; painting into the given cube, returning it, refusing integers). By its name the file counts as
  a test file, which commits may not change. The check does not skip these cases: it computes exactly what the defect makes of the input
  (the doubled kernel sums, the terminal states of the model without faces, the caller's cube with one ball painted in), accepts only
  that under the finding's own kind, and reports anything else as a violation.

## False alarms met while building (machinery corrected, not listed as findings)
- tolerances at exact bin edges (P07, P08, P15): the reference accepted only one side of an edge that rounding decides; edges moved or both sides accepted.
- P27: results that legitimately depend on the clock or on the process (temporary names, thread ids) are removed from observations.
- P28: integer or float32 data that the documentation rounds; the tolerance follows the stated precision.
- P23: caches with redshifts closer than the documented key precision are outside the claim.

## Robustness to harmless edits
Checks judge results only. Line-granular crash and interruption points are enumerated from the executed trace of the current tree,
not from recorded line numbers, and stand-ins (joblib, shared memory, file opening, random generators) are put in place at module attribute level
and fall back to the real object when a module does not use them.
"""
