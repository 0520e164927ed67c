#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

GME, PWE, EXC, POL = 'legume/gme/gme.py', 'legume/pwe/pwe.py', 'legume/exc/exc.py', 'legume/pol/pol.py'
SLAB, MEL = 'legume/gme/slab_modes.py', 'legume/gme/matrix_elements.py'
LAY, PHC, SHP, LAT = 'legume/phc/layer.py', 'legume/phc/phc.py', 'legume/phc/shapes.py', 'legume/phc/lattice.py'
BE, MIN, GDS, VIZ = 'legume/backend.py', 'legume/minimize.py', 'legume/gds.py', 'legume/viz.py'
PB, PU, PRIM, UT = 'legume/print_backend.py', 'legume/print_utils.py', 'legume/primitives.py', 'legume/utils.py'
SIMS = [GME, PWE, EXC, POL, SLAB, MEL]

prop('C01', 'A run depends only on structure, constructor arguments and its own options',
 'What a guided-mode, plane-wave, exciton or polariton simulation returns (energies, losses, couplings, eigenvectors, fields, symmetries, or the error it raises) is a function of the photonic crystal, the arguments the simulation object was constructed with and the options passed to that very run. Whatever was computed before in the same process, on the same object or on others, with the same or different options and wave vectors, the values are those a fresh object in a fresh process gives, and an option left out of a run takes its documented default, not the value of an earlier run. The photonic crystal is taken as not edited after the simulation object was built, except for the effective permittivity assigned to its layers before a run.',
 ['histories', 'configurations', 'inputs'],
 'All finite histories of constructing objects, running, re-running with changed options, computing losses, querying and failing runs, over many objects alive in one process.',
 'The tests build one object, run it once or twice with nearly the same options, and compare to stored numbers; whether earlier work leaks into later results is a statement about every history.',
 SIMS + [SLAB, UT],
 [('options are all reset from defaults by set_run_options at every run', GME), ('per-run work lists re-created in run()', GME), ('inverse permittivity kept between runs together with the only_gmodes value it was computed for', GME)],
 ['GuidedModeExp.freqs/freqs_im/eigvecs/rad_coup/kz_symms', 'PlaneWaveExp.freqs', 'ExcitonSchroedEq.eners', 'HopfieldPol.eners', 'compute_rad', 'get_field_xy'],
 [('eps_inv_mat', 'inverse permittivity matrices kept across runs', GME), ('g_array/omegas/coeffs/ind_modes/modes_numg', 'per-run tables', GME)])

prop('C02', 'A failed or interrupted run never leaves mixed or wrong results',
 'When a simulation run (or the computation of losses after it) stops early, because of an interrupt, a failed allocation, a linear-algebra or root-finding failure or a broken console at any point inside it, every result the object still exposes is either empty or exactly the one of a single run that did complete (that step) at the wave vectors the object reports: nothing of different runs is mixed and no partial or placeholder numbers are exposed. The next run of the same object that is not disturbed gives the results of a fresh object. If the fault is absorbed and the run returns normally, its results are those of an undisturbed run.',
 ['crash_points', 'fault_sequences', 'histories'],
 'All points inside a run at which an exception can surface, all kinds of exception, any number of failures, before and after successful runs.',
 'No test makes a run fail; the existing tests only see runs that complete.',
 SIMS,
 [('results discarded at the start of run(), published together once complete', GME), ('same in PlaneWaveExp.run, ExcitonSchroedEq.run, HopfieldPol.run', POL)],
 ['results and kpoints properties after the exception', 'compute_rad / run_im / get_field after the exception', 'the next run'],
 [('_freqs/_freqs_im/_eigvecs/_kpoints', 'published results', GME)])

prop('C03', 'Simulations of different objects in concurrent threads do not affect each other',
 'With the numpy backend, threads that each work on their own simulation object (guided-mode, plane-wave, exciton, polariton) may run at the same time in one process, also when the objects are built on one shared photonic crystal that nobody edits meanwhile and while other threads read that crystal or export GDS files (each to its own file). For every interleaving each thread obtains the results, and writes the file, it obtains alone.',
 ['schedules'],
 'All interleavings of two to four threads at the granularity of source lines of legume, with and without a shared PhotCryst.',
 'All tests are single-threaded.',
 SIMS + [LAY, SHP, PHC, UT],
 [('all working state lives on the simulation object; the crystal, layers and shapes are only read', GME)],
 ['results of each thread against the same thread run alone'])

prop('C04', 'A sweep over wave vectors can be split, reordered, repeated and retried',
 'The results at a wave vector do not depend on which other wave vectors are part of the same run: computing a set of k-points in one run, or split over any number of runs, objects or worker processes, in any order, with pieces duplicated, failed and retried, gives the same energies, losses, couplings and symmetries for every k-point, in the order requested within each run. This holds for guided-mode runs that compute the guided modes exactly (not by interpolation over a common grid), plane-wave, exciton and polariton runs.',
 ['schedules', 'fault_sequences', 'inputs'],
 'All partitions of k-point sets into chunks, all assignments to workers, orders, duplications, crashes and retries.',
 'Tests run one fixed k-list in one piece.',
 SIMS,
 [('per-k loop in run(); everything indexed by kind', GME)],
 ['freqs, freqs_im, rad_coup, rad_gvec, unbalance_sp, kz_symms, eners per k-point'])

prop('C05', 'Losses computed later, selectively or repeatedly equal those of the full run',
 'A run without losses followed later by the loss computation for all modes, or for any selection of k-points and modes in any order, with repetition and with other queries or failed loss requests in between, gives exactly the losses, s/p contributions, couplings and diffraction orders that a run computing all losses at once gives, listed in the order of the modes requested. Such requests do not change the stored eigenfrequencies and eigenmodes, requests for selected modes do not change the stored losses, and requests that come before any run or for modes that are not stored raise an error.',
 ['histories', 'inputs', 'fault_sequences'],
 'All sequences of run/run_im/compute_rad/compute_rad_sp requests with all subsets and orders of modes and k-points.',
 'Tests compute losses once, immediately, for all modes.',
 [GME, MEL, SLAB, VIZ],
 [('compute_rad/compute_rad_sp/run_im share _compute_rad_components', GME), ('viz.bands runs run_im on demand when freqs_im is empty', VIZ)],
 ['freqs_im, rad_coup, rad_gvec, unbalance_sp, return values of compute_rad and compute_rad_sp'])

prop('C06', 'Switching the numerical backend never changes results',
 'Switching between the numpy and autograd backends any number of times, between any two operations (building shapes, layers and simulation objects, running, computing losses, queries), never changes the numerical results beyond rounding. A request for an unknown backend raises an error and leaves the active one, and the results, unchanged.',
 ['histories', 'configurations'],
 'All placements of backend switches, including rejected ones, in all histories of operations.',
 'The tests run each scenario under one or two fixed backend settings, never mixed within a workflow.',
 [BE, PRIM, UT] + SIMS + [LAY, SHP],
 [('set_backend swaps the class of one shared backend object; both classes offer the same functions', BE)],
 ['results of operations after switches against those with numpy only', 'repr(legume.backend)'])

prop('C07', 'Results and success do not depend on the clock',
 'Whatever the system clock does during an operation (stands still, has coarse resolution, jumps forward by years or backward, before or in the middle of a run), runs, optimizations and exports finish without an error and give the same results as with a well-behaved clock, with every print backend and verbosity.',
 ['fault_sequences', 'histories'],
 'All sequences of clock readings, non-monotone and constant ones included.',
 'Tests run with the real clock, which never stands still or jumps.',
 [PU, GME, PWE, EXC, POL, MIN, GDS],
 [('time is only used for reports; percentages are guarded and clamped', PU)],
 ['results, exceptions'])

prop('C08', 'Console output is only a side effect',
 'With verbose output off a run writes nothing to the console, so a closed, full or broken standard output cannot make it fail; choosing another print backend or verbosity at any moment changes no result. With verbose output on, a console that fails makes the run either complete with correct results or raise the console error, and the object is then usable for a new run. The notices that a chosen plane-wave cutoff or a skipped step calls for are not part of this.',
 ['fault_sequences', 'configurations', 'histories'],
 'All placements of console faults (errors on write or flush, closed stream, stream that accepts only ASCII) and print-backend switches.',
 'Tests run with a working console and one print backend.',
 [PB, PU, GME, EXC, POL],
 [('all printing goes through verbose_print and the print backend', PU)],
 ['bytes written by the run, results, exceptions'])

prop('C09', 'Adam executes exactly its documented iteration, once per epoch',
 'The Adam optimizer evaluates the objective once per epoch, at the parameters produced by the documented update rule (first and second moments with bias correction, given step size and betas, clipped to the bounds) starting at the given point; it records one objective value per epoch in order, calls the callback once per epoch after recording with a faithful state, and returns the last evaluated parameters and that history. A new optimization with the same object starts from scratch, also when the previous one was stopped by an exception of the objective or the callback, which reaches the caller with the history up to then intact.',
 ['histories', 'fault_sequences', 'inputs'],
 'All objectives, starting points, options, bounds, sequences of optimizations on one object and points at which the objective or callback fails.',
 'No test exercises the optimizer.',
 [MIN],
 [('Minimize.adam loop and _step_adam', MIN)],
 ['sequence of points at which the objective is called, of_list, callback arguments, return value'],
 [('iteration/of_list/params', 'state visible to callbacks', MIN)])

prop('C10', 'Optimizers respect bounds and leave the data of the caller alone',
 'Starting from a point inside the bounds, every parameter vector that the optimizers evaluate, show to callbacks or return lies inside the bounds, for bounds given as one pair or as one pair per parameter, and ill-formed bounds are rejected before the objective is evaluated at all. The starting point, the bounds and the extra arguments given by the caller are never modified, and histories and results returned by one optimization are not altered by a later one.',
 ['histories', 'inputs', 'fault_sequences'],
 'All starting points, bounds, step sizes, objectives and sequences of optimizations, including ones that are stopped.',
 'No test exercises the optimizer.',
 [MIN],
 [('_parse_bounds and clipping', MIN)],
 ['points evaluated, callback parameters, return values, caller arrays'])

prop('C11', 'The L-BFGS wrapper reports faithfully what the optimizer did',
 'The L-BFGS optimizer passes the objective, its gradient, bounds, extra arguments and limits on to SciPy unchanged and returns its solution; the history holds the objective value at the starting point and then, for every iteration, the value at the parameters shown to the callback in that iteration, which is called once per iteration. When asked to pass itself to the objective it does so in every evaluation; a second optimization starts from scratch, also after one stopped by an exception.',
 ['histories', 'fault_sequences', 'inputs'],
 'All objectives, starting points, bounds, limits, sequences of optimizations on one object and points of failure.',
 'No test exercises the optimizer.',
 [MIN],
 [('Minimize.lbfgs wraps scipy.optimize.minimize', MIN)],
 ['evaluations seen by the objective, of_list, callback arguments, return value'])

prop('C12', 'A photonic crystal always reflects exactly the accepted building steps',
 'After any sequence of adding layers, shapes (singly, in lists, to any layer or cladding) and quantum wells, some of them rejected with an error, the crystal is exactly what the accepted steps describe: layers stacked without gaps from z=0 with the claddings adjoining, each layer holding its shapes in order with the matching average permittivity, quantum wells in order, permittivity at every point given by the layer, the background and the last shape there, and matching permittivity bounds. A rejected step leaves the crystal unchanged and can be corrected and retried.',
 ['histories', 'fault_sequences', 'inputs'],
 'All sequences of valid and invalid building calls and of failures inside them.',
 'Tests build three or four fixed structures with valid calls only.',
 [PHC, LAY, SHP, LAT],
 [('add_layer/add_shape/add_qw', PHC), ('ShapesLayer.add_shape updates shapes and eps_avg together', LAY)],
 ['layers, claddings, z_min/z_max/d, eps_avg, shapes, qws, get_eps, get_eps_bounds, compute_ft'])

prop('C13', 'GDS export writes exactly the structure, or reports the failure',
 'When an export to GDS returns normally, the file on disk is complete and holds exactly the shapes of the given crystal (each on the layer number of its layer, polygons with their vertices, circles within the tolerance, in the unit given), or the contours of the given raster, whatever was exported or attempted before in the process. If the storage fails at any point of the writing, or a shape is not supported, the export raises an error instead of returning normally, and a later export to working storage is complete.',
 ['fault_sequences', 'crash_points', 'histories'],
 'All structures, sequences of exports, and storage failures (no space, I/O error, failing open, flush or close) at every point.',
 'No test exports anything.',
 [GDS],
 [('a new gdspy library per export', GDS), ('gdspy.write_gds', GDS)],
 ['the file read back, exceptions'])

prop('C14', 'Results do not depend on the state of random number generators',
 'The library computes deterministic results: whatever the seeds or states of the random number generators of Python and NumPy (including ones seeded from the operating system), repeated runs give the same energies, losses, fields and gradients within solver accuracy, also with the iterative eigensolver, whose starting vectors are random.',
 ['histories', 'configurations'],
 'All seeds and states of the generators, all positions in their streams.',
 'The tests that touch random starting vectors compare one run with loose tolerances.',
 [GME, PRIM, BE],
 [('eigsh and its gradient (conjugate gradient with random start)', PRIM)],
 ['energies, losses, gradients across generator states'])

prop('C15', 'Arguments handed to the library are never modified',
 'Arrays, lists, dictionaries and objects passed to constructors, runs, queries, visualizations, exports and gradients (wave vectors, angles, mode lists, option dictionaries, coordinate grids, vertex lists, rasters, shapes, layers, crystals) are never modified by simulations, whether the call succeeds, fails or is interrupted.',
 ['histories', 'crash_points', 'inputs'],
 'All operations with all argument kinds, completing or failing at any point.',
 'No test checks arguments after the call.',
 SIMS + [PHC, LAY, SHP, VIZ, GDS],
 [('run() reads its arguments only; HopfieldPol.run copies its option dictionaries', POL)],
 ['deep comparison of all arguments before and after'])

prop('C16', 'The order of independent building steps does not matter',
 'Shapes of one layer added in any order or grouping, interleaved in any way with steps on other layers and claddings, quantum wells added in any order, and simulation objects constructed in any order give the same permittivity Fourier coefficients, exciton potential, photonic bands, losses, exciton and polariton energies and fractions (up to rounding). Shapes are taken as not overlapping where point-wise permittivity is concerned.',
 ['schedules', 'histories'],
 'All interleavings of independent building steps.',
 'Tests build each structure in one order, mostly with one shape and one quantum well.',
 [PHC, LAY, EXC, POL],
 [('layer Fourier transform is a sum over shapes', LAY), ('Hopfield matrix is a sum over quantum wells', POL)],
 ['compute_ft, eps_avg, freqs, freqs_im, eners, fractions'])

prop('C17', 'Queries and visualizations never change anything',
 'Reading results, computing fields, permittivities, Fourier coefficients and potentials, printing objects and drawing any of the visualizations, any number of times, in any order and also when a query fails, does not change the structure or the stored results (band plots with quality factors may compute missing losses), so repeating a query gives the same answer and later runs and queries give what they give without the queries.',
 ['histories', 'fault_sequences'],
 'All sequences of queries between runs, including failing ones.',
 'No test calls queries twice or compares state around them.',
 [GME, PWE, EXC, POL, VIZ, LAY, PHC],
 [('get_* and ft_* methods and viz functions only read', GME)],
 ['results and query values before and after other queries'])

prop('C18', 'Gradient computations are isolated from each other and from plain runs',
 'Differentiating an objective that builds and runs simulations, repeatedly, for different parameters, nested in an optimization, or stopped by an exception at any point, leaves no trace: the same gradient is obtained again, the objective value under differentiation equals the plain value, later plain runs and gradients equal those of a fresh process, and no result of a plain run is a traced value. The parallel map helper gives the values and gradients of evaluating its functions one after the other, and an objective that combines several simulations has the combination of their separate gradients.',
 ['histories', 'crash_points', 'inputs'],
 'All histories mixing gradients, aborted gradients, plain runs and backend switches.',
 'Gradient tests compute one gradient per process section and never abort one.',
 [PRIM, BE, GME, SLAB, UT, MIN],
 [('custom primitives with vector-Jacobian products', PRIM), ('get_value strips tracing', UT)],
 ['values and gradients against a fresh process'])

prop('C19', 'Results already handed out are not altered by later work',
 'Arrays, lists and dictionaries obtained from a simulation object, an optimizer or a query (energies, losses, couplings, eigenvectors, k-points, fields, histories) keep their values when the object is run again, queried, interrupted or discarded afterwards.',
 ['histories', 'crash_points'],
 'All histories that continue after results were obtained.',
 'Tests read each result once, immediately.',
 SIMS + [MIN],
 [('run() creates new result containers instead of reusing the old ones', GME)],
 ['snapshots of every result compared at the end of the history'])

prop('C20', 'Saved and restored or copied work continues as if never interrupted',
 'Crystals and simulation objects may be pickled or deep-copied at any point of their life (with any backend active, before and after runs, after failed or interrupted ones, and the saving itself may fail). The restored or copied object, in the same or in a new process, has the same structure and results, every later operation on it gives what it would have given on the original and on fresh objects, and copy and original do not affect each other.',
 ['crash_points', 'histories'],
 'All histories with checkpoints, copies, process restarts and failures between them.',
 'No test pickles or copies an object.',
 SIMS + [PHC, LAY, SHP, EXC],
 [('all state of a simulation is kept in plain attributes of the objects, incl. the tables kept between runs', GME)],
 ['results and query values of restored and copied objects; results of the originals'])

prop('C21', 'Repeated work does not accumulate state',
 'Repeating a cycle of building, running, querying, plotting, differentiating, exporting, failing or interrupted runs any number of times keeps the memory held by the library, the number of open files and of threads bounded, releases objects that are no longer referred to by the caller, and the last repetition gives the results of the first.',
 ['histories', 'crash_points'],
 'All numbers of repetitions of all cycles, with failures inside them.',
 'Tests run everything once.',
 SIMS + [BE, PRIM, UT, VIZ],
 [('results and tables are held by the objects only; module state is limited to the backends', GME)],
 ['objects alive, memory, open files and threads per repetition; results per repetition'])

prop('C22', 'Process-wide settings are left as found',
 'Building, running, querying, visualizing, exporting, optimizing and differentiating, whether completed, failed or interrupted at any point, leave NumPy error handling and print options, warning filters, the seeding of random generators, standard streams, signal handlers, environment, working directory, locale, matplotlib settings, the current gdspy library, garbage collection, recursion limit, file creation mask, resource limits, signal mask, priority and threads, the functions of the libraries used, and the active numerical and print backend, as the caller had set them.',
 ['crash_points', 'histories'],
 'All operations, stopped anywhere, under all settings of the caller.',
 'Tests never look at process-wide settings.',
 SIMS + [BE, PRIM, UT, VIZ, MIN],
 [('the library changes no global setting except through set_backend and its print backend', UT)],
 ['process-wide settings after every operation'])

prop('C24', 'Plots show the objects, in the figure they are given',
 'Each plot function draws what the objects hold - every band at every wave vector at its frequency or energy, losses, excitonic fractions and symmetry as the colours of their points, the light cone, the values of permittivity, potential, field or wave function that the queries return (times the Bloch phase if asked for), the outlines of the shapes - into the axes, figure or grid position it is given, or else into one new figure, whatever figures exist and whichever of them is current. All other figures and axes stay as they are and no stray figure appears, also when a plot fails or is interrupted.',
 ['histories', 'crash_points', 'inputs'],
 'All sequences of runs, plots, figures and axes of the caller (also outside pyplot), choices of the current figure, options, interruptions.',
 'No stable test draws anything.',
 [VIZ, EXC, GME, PWE],
 [('plot functions of legume.viz', VIZ)],
 ['content of all figures before and after each plot'])

prop('C23', 'Results do not depend on the process',
 'The results of every operation are the same in every process and under all settings of the caller: whatever the hash seed, memory addresses, interpreter options, the thread it runs in, floating-point error handling, print options, warning filters, locale, working directory, environment variables, garbage collection and matplotlib settings. Settings that turn warnings or floating-point events into errors may make an operation raise, but never return another result, and operations afterwards are unaffected.',
 ['inputs', 'histories', 'schedules'],
 'All operations in all processes and settings of the caller.',
 'Tests run in one process with default settings.',
 SIMS + [BE, PRIM, UT, SHP, LAT],
 [('tables and sets keyed by values', GME), ('floating-point handling', UT)],
 ['freqs, losses, eigenvectors, gradients, queries'])
prop('C25', 'Optional packages are optional',
 'Without autograd, rich, gdspy or scikit-image (or with an incomplete installation of them) the library imports and everything that does not need the missing package gives the same results; what needs it raises, leaves existing files as they are, and affects nothing afterwards.',
 ['inputs', 'histories'],
 'All operations with any of the optional packages missing.',
 'Tests run with all packages installed.',
 [BE, PB, PU, GDS, PRIM],
 [('imports in try blocks', BE), ('choice of the print backend', PB)],
 ['results, exceptions, files'])

# Properties of pure functions: listed for breadth, not claimed (see MANIFEST not_applicable).
def pure(id, title, statement, files, mech, obs, why):
    prop(id, title, statement, ['inputs'], 'All structures, wave vectors and options in the documented domain.', why, files, mech, obs)
pure('N01', 'Guided-mode bands converge to the photonic bands',
 'The guided-mode frequencies are those of the Hermitian Maxwell operator projected on the guided modes of the effective slab: real, sorted, non-negative, and converging to the photonic bands as the cutoff and number of guided modes grow.',
 [GME, MEL, SLAB], [('matrix elements between guided modes', MEL)], ['freqs'], 'Tests compare a few bands to stored reference numbers.')
pure('N02', 'Gradients equal derivatives of the computed quantities',
 'The gradient of any differentiable function of the results with respect to structure parameters equals its numerical derivative (within the documented approximation when approximate gradients are chosen).',
 [PRIM, GME, BE], [('vector-Jacobian products', PRIM)], ['autograd.grad'], 'Tests check two structures and a few primitives.')
pure('N03', 'Symmetry separation partitions the full spectrum',
 'For a structure symmetric about the vertical plane of k, the odd and even runs together give the spectrum of the full run, with the sign reported for each mode.',
 [GME], [('_separate_hamiltonian_*', GME)], ['freqs, kz_symms'], 'One test compares three lattices.')
pure('N04', 'Bands are invariant under the symmetries of the problem',
 'Frequencies and losses are invariant under translation of the unit cell, lattice-equivalent k (at convergence), time reversal, and rotation or mirroring of structure and k together.',
 [GME, PWE, LAT], [('reciprocal lattice construction', LAT)], ['freqs, freqs_im'], 'Tests contain no invariance check.')
pure('N05', 'Fourier transforms of shapes match the shapes',
 'The Fourier transform of every shape equals the integral over the points its indicator function accepts, and its area the value at zero.',
 [SHP], [('compute_ft and is_inside', SHP)], ['compute_ft, is_inside'], 'One polygon is tested.')
pure('N06', 'Radiative losses are non-negative and match the couplings',
 'Losses are non-negative, vanish below the light lines, and equal the sum of squared couplings; the s/p unbalance lies in [0, 1].',
 [GME, MEL], [('Fermi golden rule sum', GME)], ['freqs_im, rad_coup, unbalance_sp'], 'Stored numbers for a few modes only.')
pure('N07', 'Slab solver finds every guided mode',
 'For every multilayer the slab solver returns every guided mode below the light lines at each in-plane wave vector up to the requested number, sorted and normalised.',
 [SLAB], [('guided_modes bracketing and root finding', SLAB)], ['guided_modes'], 'One three-layer stack is tested.')
pure('N08', 'Reconstructed fields satisfy Maxwell equations',
 'Fields reconstructed from eigenmodes are normalised, divergence-free where they should be and mutually consistent between H, D and E and between the planes they are evaluated on.',
 [GME, PWE], [('ft_field_xy', GME)], ['get_field_*'], 'No test reconstructs a field.')
pure('N09', 'Polariton energies reduce to uncoupled ones and conserve fractions',
 'With vanishing oscillator strength the polariton energies are those of photon and exciton; excitonic and photonic fractions are between the bounds set by the Bogoliubov normalisation.',
 [POL, EXC], [('_construct_Hopfield', POL)], ['eners, fractions_ex, fractions_ph'], 'One structure with stored numbers.')
pure('N10', 'Plane-wave bands match the two-dimensional photonic bands',
 'Plane-wave frequencies are those of the two-dimensional crystal for the chosen polarization, sorted and converging with the cutoff.',
 [PWE], [('PlaneWaveExp.run', PWE)], ['freqs'], 'No stable test.')

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
