import vflib
from vflib import run_mc, run_enum


def C01(run):
    run_mc(run, 'pool', 'mc/mc_pool.cpp')


def C02(run):
    run_enum(run, 'shapes', 'enum/parallel.cpp', total=400)
    run_mc(run, 'par', 'mc/mc_par.cpp', total=820)


def enum(part, source, **kw):
    return lambda run: run_enum(run, part, source, **kw)


import os
COMMON = os.path.join(vflib.VERIF, 'common')
SUBPROGRAMS = tuple('subprog_%s.cpp' % x for x in ('binary', 'binary_scheme', 'binary_io', 'binary_diagnostics', 'binary_solver_data', 'cloud', 'sedov', 'boilerplate'))
SIM = dict(hdf5=True, extra_sources=SUBPROGRAMS + (os.path.join(COMMON, 'fault.cpp'), os.path.join(COMMON, 'fake_mpi.cpp')), stall=150, env=dict(HDF5_USE_FILE_LOCKING='FALSE'))


def C21(run):
    run_enum(run, 'conserve', 'enum/conserve.cpp', total=600, **SIM)
    run_enum(run, 'steps', 'enum/steps.cpp', **SIM)


CHECKS = {
    'C23': dict(run=enum('mpi', 'enum/mpi.cpp', hdf5=True, extra_sources=(os.path.join(COMMON, 'mpi_model.cpp'),), env=dict(ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:exitcode=86')), level='model_checking',
        technique='stateless model checking: the real communication layer runs on a model of MPI in which every rank is a thread that runs one at a time and everything the MPI standard leaves open is a choice (which rank goes on, when a message is seen, which one a wildcard matches, buffered or synchronous sends, when pending data move, whether a cancelled operation is carried out); all sequences of choices of every scenario are executed, with buffers checked to exist while they are in use',
        note='2-4 ranks, 1-3 messages of 0-40 bytes, all ways to send and receive, all collective operations with lists of 0-2 elements, all sequences of 2 (3) operations on communicators. A receive may fail to see an available message once per rank. The model of MPI is our own; the real library is not run.',
        rule='one case per scenario; states are executions (sequences of choices), transitions are MPI calls; non-trivial when there are more than four executions'),
    'C21': dict(run=C21, level='model_checking',
        technique='exhaustive enumeration of all balanced refined meshes within bounds, all scheme variants, gas states and step counts on the real update of the binary problem, against budgets of mass, momentum and angular momentum and symmetry relations; and step-by-step conformance of every consecutive pair of checkpoints of real runs of the three simulations with a reference update written cell by cell',
        note='Meshes: closures of all quadtrees up to depth 2-3 and 3-5 branches, blocks of 2 and 4 zones, up to 3 steps; runs: 336 (432) configurations on small grids, 2-60 steps each. Work done by gravity is checked to second order in the step only; mass added by the density floor is not part of the ledger; flows that the schemes cannot follow (negative densities) are only checked to be refused.',
        rule='one case per mesh, option set and gas state, or per run; transitions are time steps; non-trivial when the mesh is refined or the gas moves'),
    'C16': dict(run=enum('states', 'enum/states.cpp'), level='exploration',
        technique='bounded-exhaustive enumeration of a lattice of gas states on the real conversions, against the governing definitions evaluated in extended precision, and of all single perturbations that leave the physical region',
        note='Isothermal, adiabatic and relativistic gases; densities and pressures over 12-24 decades, velocities to Lorentz factors of 1e3; states between lattice points are not covered. Isothermal states of zero density are excluded.',
        rule='one case per state (and equation of state, or direction); non-trivial when the gas moves'),
    'C17': dict(run=enum('riemann', 'enum/riemann.cpp'), level='exploration',
        technique='bounded-exhaustive enumeration of all pairs of states on a lattice, all axes and all solvers, on the real flux functions, against consistency, mirror, rotation and upwind relations and true characteristic speeds in extended precision',
        note='All ordered pairs of the lattices in enum/riemann.cpp, three gases, HLLE and HLLC.',
        rule='one case per state or pair of states; non-trivial when the two states differ or move'),
    'C18': dict(run=enum('eigen', 'enum/eigen.cpp'), level='exploration',
        technique='bounded-exhaustive enumeration of states and pairs of states on a lattice, on the real eigenvector and averaging code, against a numerically differentiated flux in extended precision',
        note='All states and ordered pairs of the lattices in enum/eigen.cpp, five adiabatic indices, along the first axis (the only one the code offers).',
        rule='one case per state or pair; non-trivial when the gas moves or the states differ'),
    'C19': dict(run=enum('plm', 'enum/plm.cpp'), level='exploration',
        technique='bounded-exhaustive enumeration of all triples of a value lattice, all limiter parameters, array shapes and axes, on the real limiter, against its defining inequalities and an element-by-element reference',
        note='All triples over the lattice in enum/plm.cpp; arrays of ranks 1-3.',
        rule='one case per triple, limiter or array; non-trivial when the slope is not zero'),
    'C24': dict(run=enum('algebra', 'enum/algebra.cpp'), level='exploration',
        technique='bounded-exhaustive enumeration of all operands over a small integer lattice on the real value types, against element-by-element references and compile-time unit exponents',
        note='Sequences up to length 4, tuples of three mixed types, matrices up to 3x3 over 2-3 values, all unit exponents in the table.',
        rule='one case per operand set; non-trivial when operands differ or have more than one element'),
    'C20': dict(run=enum('twobody', 'enum/twobody.cpp'), level='exploration',
        technique='bounded-exhaustive enumeration of a lattice of orbits, phases and orientations on the real orbit model, against Kepler\'s laws, the conservation laws and the equation of motion',
        note='Mass ratios 1e-3 to 1, eccentricities 0 to 0.99, separations and masses over several decades, whole and part orbits up to 1e6 orbits away; orbits that turn counter-clockwise.',
        rule='one case per orbit and time; non-trivial when the orbit is eccentric or the bodies unequal'),
    'C22': dict(run=enum('poly', 'enum/poly.cpp'), level='exploration',
        technique='bounded-exhaustive enumeration of all polynomials with roots on a lattice (real, repeated, complex) and of all small profiles, on the real root formulas and shock locator, against the roots the polynomial was made from',
        note='All root multisets over the lattices in enum/poly.cpp, several leading coefficients; profiles up to length 8.',
        rule='one case per polynomial or profile; non-trivial when roots are repeated or complex, or the profile jumps'),
    'C25': dict(run=enum('models', 'enum/models.cpp'), level='exploration',
        technique='bounded-exhaustive enumeration of a lattice of model parameters and radii on the real models, against numerical quadrature and inversion',
        note='Power-law atmospheres, the cloud-and-envelope model and the jet nozzle; parameters between lattice points are not covered.',
        rule='one case per parameter set (and radius); non-trivial when the density is not uniform'),
    'C26': dict(run=enum('reports', 'enum/reports.cpp', **SIM), level='exploration',
        technique='exhaustive exploration of a table of configurations of the real simulation programs and of every output of every run: initial states, diagnostics and time series are compared with independent evaluations of the checkpoint of the same time',
        note='166 (318) configurations of the sedov, cloud and binary programs on small grids; places that hang on rounding (two equally steep steps) are not compared.',
        rule='one case per configuration; every one has at least three outputs'),
    'C27': dict(run=enum('demos', 'enum/demos.cpp', program='app_main.cpp', **dict(SIM, extra_sources=SIM['extra_sources'] + ('subprog_amrsand.cpp', 'subprog_partdom.cpp'))), level='exploration',
        technique='exhaustive exploration of a table of command lines and configurations of the real program selector and demonstration programs: every output of every step is compared with a cell-by-cell reference, every run through the selector with the run of the program itself',
        note='Trees of depth 0-5, blocks of 1-8 zones, up to 6 (16) steps each with every step written; domains of up to 5^3 (6^3) cells in up to 16 (30) blocks; about 110 command lines. The collection of unit tests is replaced by a stand-in that says what it was given.',
        rule='one case per configuration or command line; non-trivial when the mesh is refined, or there is more than one block, or arguments are passed on'),
    'C11': dict(run=enum('restart', 'enum/restart.cpp', **SIM), level='model_checking',
        technique='exhaustive exploration, on the real simulation programs, of every checkpoint of a run, every chain of two restarts and every prolonged run, over a table of configurations; every later output file is compared value by value with the uninterrupted run',
        note='45 (62) configurations of four simulations on small grids; every checkpoint of each as a restart point, with and without the files of the first run, chained with later restart points; options given at restart one at a time.'),
    'C12': dict(run=enum('crash', 'enum/crash.cpp', san=False, **SIM), level='model_checking',
        technique='exhaustive fault injection on the real simulation programs: for every file-modifying system call of a run, a kill before it, a kill half-way through it, its failure, and failure of everything from it on; completed checkpoints are compared with the undisturbed run and the run is taken up again to its end',
        note='Four simulations on small grids (about 1100 calls); also every call of a restarted run. A kill loses nothing that was already written (no power failure); files are written through HDF5 only.'),
    'C08': dict(run=enum('hdf5', 'enum/hdf5.cpp', hdf5=True), level='model_checking',
        technique='explicit-state exploration of operation histories on real HDF5 files against a reference map of paths to typed values, plus bounded-exhaustive enumeration of stored values, type pairs, overwrites, selections, extents, trees and handle sequences',
        note='Histories of 3 (4) operations over 21 operations; ~180 stored values x ~30 reading types x all overwriting pairs; all selections of small extents; trees of ranks 1-3.'),
    'C09': dict(run=enum('config', 'enum/config.cpp', hdf5=True), level='model_checking',
        technique='explicit-state exploration of all sequences of declarations, updates, argument lists and store/reload steps on the real configuration type, against a reference map',
        note='Histories of 3 (4) operations over 33 operations; every text of up to 3 (5) characters over a 7-letter alphabet for every option type; all argument lists of up to 4 (5) arguments over 11.'),
    'C10': dict(run=enum('schedule', 'enum/schedule.cpp', hdf5=True), level='model_checking',
        technique='explicit-state exploration of all histories of time advances, completions, task runs and save/reload steps on the real schedule, against a reference',
        note='Two tasks, 25 interval pairs, histories of 4 (5) steps over 11 operations; runs of 5 (8) steps for the cadence; times and intervals are exact binary fractions.'),
    'C13': dict(run=enum('list', 'enum/list.cpp'), level='model_checking',
        technique='explicit-state exploration of all operation sequences on three lists that share structure, on the real list type, against ordinary sequences',
        note='Sequences of 3 (4) operations over 73 operations from three starting states; every two-valued list up to length 6 (8) built in every way; lists of up to 100000 (1000000) elements on a 512 KB stack.'),
    'C15': dict(run=enum('fs', 'enum/fs.cpp'), level='model_checking',
        technique='explicit-state exploration of operation histories on every initial directory content within bounds, and of the failure of every file-system call, on the real helpers in a guarded scratch tree, against snapshots taken before and after',
        note='Histories of 2 (3) operations over 53 operations from 34 initial contents (files, directories, links out of the tree, dangling and cyclic links, fifos, sockets); every name of up to 7 (9) characters over 4 letters. File permissions are not varied (checks run as root).'),
    'C14': dict(run=enum('rational', 'enum/rational.cpp'), level='exploration',
        technique='bounded-exhaustive enumeration of operands and expression trees on the real rational type, against exact wide-integer arithmetic',
        note='Every pair of fractions within the bounds of enum/rational.cpp, extreme 32-bit operands, every compile-time fraction in the table.',
        rule='one case per operand pair or expression; non-trivial when neither operand is an integer'),
    'C06': dict(run=enum('mesh', 'enum/mesh.cpp'), level='model_checking',
        technique='explicit-state exploration: every quadtree mesh within bounds is balanced by the real code and compared with the least fixpoint of a reference model; every block address around every mesh is fetched and compared with a cell-by-cell reference',
        note='Meshes with up to 5-6 refined blocks to depth 5 (quick); radial refinement criteria with every threshold combination over 2-3 levels; ranks 1-3 for fetching.'),
    'C07': dict(run=enum('prolong', 'enum/prolong.cpp'), level='exploration',
        technique='bounded-exhaustive enumeration of block shapes, axes and refinement depths on the real operators, against an element-by-element reference',
        note='All shapes up to 64 / 14x14 / 6x6x6 (quick); element values are a generic labelling.',
        rule='one case per block shape (or side, axis, depth); non-trivial when some extent or depth exceeds one'),

    'C05': dict(run=enum('tree', 'enum/tree.cpp', parts=(1, 2, 3)), level='model_checking',
        technique='explicit-state exploration of the real tree container: every tree shape within bounds, every operation with every argument from each, compared with a reference map from addresses to values',
        note='Ranks 1-3, depth up to 4 / 3 / 2 in the quick tier; leaf values are a generic labelling.'),

    'C02': dict(run=C02, level='model_checking',
        technique='stateless exploration of all thread interleavings of the real code (deviation-bounded, happens-before state merging), plus bounded-exhaustive enumeration of shapes, trees and thread counts against serial evaluation',
        note='Schedules: 35 driver programs within the listed deviation bound, data races reported as violations. Inputs: all array shapes and trees within the bounds of enum/parallel.cpp, for 1-12 threads.',
        assumptions=['sequentially consistent interleavings at synchronisation operations; unsynchronised conflicting accesses are reported as violations, so weaker orders add no behaviours to a passing run',
        'deviation bound per scenario as listed (preemptions, spurious wake-ups, expired timed waits)',
        'the shape enumeration runs under the schedules the machine produces; schedules are covered by the exploration of the driver programs']),

    'C04': dict(run=enum('ndarray', 'enum/ndarray.cpp', parts=(1, 2, 3)), level='model_checking',
        technique='explicit-state exploration of all operator sequences up to a depth on the real lazy arrays, each step compared with a dense reference array',
        note='Ranks 1-3, extents up to 3-6, every operator with every argument in range, compositions of depth 2 (3 in the thorough tier for rank 1); element values are a fixed generic labelling.'),
    'C03': dict(run=enum('partition', 'enum/partition.cpp'), level='exploration',
        technique='bounded-exhaustive enumeration of all shapes, regions, strides and part counts on the real code, against a set-based reference model',
        note='All inputs within the bounds coded in enum/partition.cpp (ranks 1-4); assumes nothing about larger extents.',
        rule='one case per (shape/region, stride, part count); non-trivial when more than one element or part is involved'),
    'C01': dict(run=C01, level='model_checking',
        technique='stateless exploration of all thread interleavings of the real code (deviation-bounded, happens-before state merging)',
        note='Every schedule of 38 driver programs within the listed deviation bound; sequential consistency, with data races reported as violations; the scheduler runtime (mc/mcrt.cpp) is trusted.',
        assumptions=[
        'sequentially consistent interleavings at synchronisation operations; unsynchronised conflicting accesses are reported as violations, so weaker orders add no behaviours to a passing run',
        'deviation bound per scenario as listed (preemptions, spurious wake-ups, expired timed waits)']),
}

NOTES = 'All checks: python3 bin/check.py <property> <tier>. known_findings.txt lists defects found.'
BUILT = set(CHECKS)
NOT_APPLICABLE = [dict(property='C%02d' % n, reason='planned; machinery not built yet') for n in range(1, 26) if 'C%02d' % n not in BUILT]
