#!/usr/bin/env python3
"""Development tool: writes properties.jsonl."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw)))

prop('C01', 'Thread pool runs every task exactly once and always shuts down',
     'Every task given to a running worker pool runs exactly once and its caller receives that task\'s own result, or the exception it threw; no task stays queued while a worker is idle, and one worker takes tasks in submission order. '
     'Stopping, resizing or destroying the pool always terminates, and only after every task submitted so far has run; a resized or restarted pool accepts work again. '
     'None of this involves a data race.',
     ['schedules', 'histories'], 'for every interleaving of callers and workers, and every sequence of submit / wait / stop / restart / destroy',
     'The one existing test submits a few tasks and waits for them in one lucky schedule; lost wake-ups, stop races and exception paths need specific interleavings.',
     ['src/core_thread_pool.hpp'], [('task queue and condition variable', 'core_thread_pool.hpp enqueue_internal/next'), ('stop flag', 'core_thread_pool.hpp stop_all/restart'), ('promise delivery', 'core_thread_pool.hpp enqueue')])

prop('C02', 'Parallel evaluation gives the serial result under every schedule',
     'Mapping a function over a tree in parallel (on a worker pool or on asynchronous tasks) and filling an array with several threads yield exactly the value, shape and element order of the serial evaluation, whatever the number of threads and whatever the schedule. '
     'Each element is computed exactly once, there is no data race between the threads, and an exception thrown for one element reaches the caller instead of being lost or ending the process.',
     ['schedules', 'inputs', 'configurations'], 'for every interleaving of the worker threads, every tree or array shape and every thread count',
     'Tests run each parallel path on one shape under whatever schedule the machine produces, so overlapping regions and unordered accesses go unseen.',
     ['src/core_tree.hpp', 'src/core_ndarray.hpp', 'src/core_thread_pool.hpp'], [('asynchronous tree evaluation', 'core_tree.hpp pool/async operators'), ('threaded array evaluation', 'core_ndarray.hpp evaluate_on')])

prop('C03', 'Partitions of an index space are exact tilings',
     'Splitting a range, an array shape or a block domain into parts yields exactly the requested number of parts, whose union is the whole and which are pairwise disjoint, with sizes that differ by at most one along a split axis; a proposed block decomposition has exactly the requested number of blocks. '
     'Iterating over any rectangular (possibly strided, possibly empty) index region visits each of its members exactly once, in row-major order, and nothing else; the number of visits equals the advertised size.',
     ['inputs'], 'for every shape, region, stride and part count up to the stated bounds, including empty extents and more parts than elements',
     'Tests look at one or two shapes that divide evenly; remainders, empty parts and degenerate shapes are where work is lost or done twice.',
     ['src/core_ndarray.hpp', 'src/app_parallel.hpp'], [('access patterns', 'core_ndarray.hpp access_pattern_t'), ('shape partition', 'core_ndarray.hpp partition_shape'), ('block decomposition', 'app_parallel.hpp')])

prop('C04', 'Array operators agree with element-by-element evaluation',
     'Every array operator (select, shift, freeze or collect an axis, replace, concatenate, zip, map, reduce, difference, midpoint, extension by guard zones, arithmetic, comparison and find) yields an array whose shape and elements are those of the obvious element-by-element definition, alone and when composed. '
     'Storing a lazy array in memory never changes its shape or values, later writes never reach an array already shared, and reads outside the bounds are refused wherever a checked access is offered.',
     ['inputs', 'programs'], 'for every operator composition up to the stated depth on every small shape and argument',
     'Each operator is tested on one shape, mostly alone; off-by-one errors at particular extents, strides or axis positions and wrong interplay are not reached.',
     ['src/core_ndarray.hpp', 'src/core_ndarray_ops.hpp'], [('operators and providers', 'core_ndarray.hpp'), ('stencil operators', 'core_ndarray_ops.hpp')])

prop('C05', 'Tree container agrees with a map from leaf addresses to values',
     'Whatever sequence of tree operations is applied (growing, attaching, replacing, pruning, mapping, zipping, indexing, iterating, parent/child and neighbour navigation), the tree always holds exactly the leaves, addresses and values that a plain map from addresses to values would hold. '
     'Iteration visits every leaf once in a fixed order that matches the order of the indexes, an operation never alters the tree it was applied to, and reads at an address that has no value are refused with an exception.',
     ['histories', 'inputs'], 'for every tree reachable by operation sequences up to the stated depth, in 1, 2 and 3 dimensions',
     'Tests build one or two fixed trees; operations at deep, shallow or one-sided leaves and their combinations are not sampled.',
     ['src/core_tree.hpp'], [('tree and tree index', 'core_tree.hpp arithmetic_binary_tree_t, tree_index_t')])

prop('C06', 'Adaptive mesh is always balanced, gap-free and overlap-free',
     'For every refinement criterion, the generated mesh covers the domain exactly once, contains the blocks the criterion asks for, and after balancing no two neighbouring blocks (including across periodic boundaries) differ by more than one level. '
     'Cell data fetched at any block address in or around the mesh are the data of the blocks that cover it: the block itself, the covering cells of the block one level coarser, or the average of the finer cells inside it; vertex data fetched the same way reproduce linear fields exactly. Addresses more than one level finer than the mesh are refused.',
     ['inputs', 'configurations'], 'for every refinement pattern up to the stated depth and every neighbour direction',
     'Tests use one uniform and one hand-refined mesh; imbalance and wrong neighbour lookups depend on the refinement pattern.',
     ['src/core_tree.hpp', 'src/mesh_tree_operators.hpp', 'src/mesh_prolong_restrict.hpp'], [('mesh creation and balancing', 'mesh_tree_operators.hpp'), ('neighbour blocks', 'mesh_tree_operators.hpp get_cell_block')])

prop('C07', 'Refining and coarsening data conserve and undo each other',
     'Prolonging an array to twice the resolution and restricting it back returns the original array; splitting data into child blocks and recombining them is the identity; restriction of cell data preserves totals and restriction of vertex or face data keeps the shared points. '
     'Prolongation keeps constants (and, for vertex data, linear fields) and never produces values outside the range of the data it interpolates; a block that cannot be halved is refused.',
     ['inputs'], 'for every small array shape in 1, 2 and 3 dimensions and every axis, with generic data',
     'Tests check one shape per operator; axis mix-ups and end-point errors show only on non-square shapes and particular positions.',
     ['src/mesh_prolong_restrict.hpp'], [('prolongation and restriction operators', 'mesh_prolong_restrict.hpp')])

prop('C08', 'Whatever is written to a file is read back unchanged',
     'Every value that can be stored (numbers, text, vectors, arrays, trees of arrays, rational numbers, dimensional quantities, run configurations, schedules, and compound records of these) reads back equal in value, shape and type from a file, after reopening and after overwriting. '
     'Opening or reading something that is missing or of another type raises an error, data are never made up, truncated or reordered to fit, a write that does not match what is stored is refused and leaves it unchanged, what other objects hold in the file is unaffected, and handles are all released.',
     ['inputs', 'histories'], 'for every stored type, every small shape including empty ones, and every order of create / write / reopen / overwrite / read up to the stated depth',
     'Tests write and read a handful of values once, in one order, with matching types.',
     ['src/core_hdf5.hpp', 'src/app_serialize.hpp', 'src/app_serialize_tree.hpp'], [('HDF5 wrapper', 'core_hdf5.hpp'), ('serialization of application types', 'app_serialize.hpp, app_serialize_tree.hpp')])

prop('C09', 'Run configuration accepts only declared options with their declared types',
     'A configuration holds exactly the options its template declares; setting an unknown option, or one with a value of another type or text that does not parse as its type, is refused with an error and leaves the configuration unchanged. '
     'Values set from the command line, from text and from a stored run override the defaults (the last one wins), untouched options keep their defaults, and a configuration written to a file and read back is the same configuration.',
     ['inputs', 'histories'], 'for every sequence of template declarations, updates and reads up to the stated depth over every option type',
     'Tests set a few options in one order and never mix sources or feed malformed text systematically.',
     ['src/app_config.hpp', 'src/app_serialize.hpp', 'src/app_subprogram.hpp'], [('template and checked updates', 'app_config.hpp')])

prop('C10', 'Recurring tasks come due exactly on their cadence, across restarts',
     'A recurring task comes due exactly when at least one interval has passed since its last scheduled time; coming due moves that scheduled time forward by exactly one interval, and the task stays due until it is completed, which counts one execution. Other tasks are not affected, and the tasks that are due, and only those, are run once each in the declared order. '
     'A schedule saved with nothing pending and reloaded behaves exactly as before, so a run executes a task once per interval however it is saved and resumed; referring to an undeclared task is refused.',
     ['histories', 'inputs'], 'for every sequence of time advances, completions, save/reload steps up to the stated depth, over several tasks and intervals',
     'Tests walk a single schedule through one history and never save and reload it half way.',
     ['src/app_schedule.hpp', 'src/app_serialize.hpp'], [('schedule marking and completion', 'app_schedule.hpp')])

prop('C11', 'Restarting from any checkpoint continues the same run',
     'Stopping a simulation (binary, cloud, sedov, boilerplate) at any of its checkpoints and restarting from that file, in the same output directory, reproduces the run that was not interrupted: the same later checkpoints, diagnostics and time series with the same values, the same simulation time, iteration numbers, schedule, output numbering and run configuration, and no output lost or repeated under a new number. '
     'The same run twice gives the same output. Options given at restart replace the stored ones and all others are kept, so a run can be prolonged to the result of the longer run; a restart from a file that is missing or is no checkpoint is refused.',
     ['histories', 'configurations', 'crash_points'], 'for every checkpoint of a run, every chain of restarts up to the stated length, over the stated set of configurations',
     'No existing test runs a simulation, let alone restarts one.',
     ['src/subprog_binary.cpp', 'src/subprog_binary_io.cpp', 'src/subprog_binary_scheme.cpp', 'src/subprog_cloud.cpp', 'src/subprog_sedov.cpp', 'src/subprog_boilerplate.cpp', 'src/app_serialize.hpp'], [('checkpoint writing and state creation from restart', 'subprog_*.cpp')])

prop('C12', 'A failure while writing output never harms earlier checkpoints',
     'If the process is killed, or a file operation fails, at any point of a run, every checkpoint that run completed before (and the one it was restarted from) is intact on disk, and taking the run up again from the latest of them, in the same directory, gives the output of the undisturbed run. '
     'A run in which a file operation fails either ends with an error or has written everything: it never claims success with missing or wrong data.',
     ['crash_points', 'fault_sequences'], 'for every file-modifying system call of the run, crash before it, in the middle of it, and failure of it',
     'Tests never inject faults or kill a run.',
     ['src/subprog_binary.cpp', 'src/subprog_binary_io.cpp', 'src/subprog_cloud.cpp', 'src/subprog_sedov.cpp', 'src/subprog_boilerplate.cpp', 'src/core_hdf5.hpp'], [('checkpoint writers', 'subprog_*.cpp'), ('error checks and closing', 'core_hdf5.hpp')])

prop('C13', 'Persistent list behaves as an immutable sequence',
     'Every list operation (prepend, append, concatenate, reverse, head, tail, size, comparison, iteration, construction from other sequences) gives the result of the same operation on an ordinary sequence, and lists that share structure with the result keep their contents. '
     'Taking the head or tail of an empty list is refused, and creating, copying and releasing lists of any length neither leaks nor exhausts the stack.',
     ['histories', 'inputs'], 'for every operation sequence up to the stated depth over a small value alphabet',
     'Tests exercise a couple of lists; structural sharing errors need several lists derived from one another.',
     ['src/core_linked_list.hpp'], [('shared list nodes', 'core_linked_list.hpp')])

prop('C14', 'Rational numbers are exact, canonical and totally ordered',
     'Arithmetic and comparison on rational numbers give the mathematically exact result for every operand whose result is representable, always in lowest terms with positive denominator, so equal numbers compare equal, hash and store alike and print alike. '
     'Division by zero and zero denominators are refused.',
     ['inputs', 'histories'], 'for every pair (and chain) of numbers with numerator and denominator in the stated range, including negatives and zero',
     'Tests compare a few positive fractions.',
     ['src/core_rational.hpp', 'src/app_serialize.hpp'], [('rational type', 'core_rational.hpp')])

prop('C15', 'File-system helpers touch exactly the paths they are given',
     'Listing, testing, creating and removing act exactly on the named path, relative or absolute: requiring a directory makes it and its missing parents and nothing else, removing a directory tree removes everything in it, hidden entries included, and nothing outside it (even through symbolic links inside it), and refuses what is not a directory; tests tell files, directories and everything else apart, and a listing holds exactly the entries that are not hidden. '
     'Any step that fails is reported. Splitting and joining path names undo each other, and extension and parent are those of the last component.',
     ['inputs', 'histories'], 'for every operation sequence up to the stated depth over a small universe of paths, links and existing contents',
     'Tests only cover name splitting.',
     ['src/app_filesystem.hpp'], [('path helpers', 'app_filesystem.hpp')])

prop('C16', 'Primitive and conserved variables convert back and forth exactly',
     'For every physical state of every supported gas (isothermal, adiabatic, relativistic), conversion to conserved variables and back returns the state, conversion agrees with the governing definitions of mass, momentum and energy density, and derived quantities (sound speed, enthalpy, Mach number, Lorentz factor, temperature) agree with them and with one another. '
     'Pressure and temperature floors act as documented, relativistic states that no primitive state can represent are reported instead of being returned as numbers that are not finite, and directions given as vectors have unit length.',
     ['inputs'], 'for every state on the stated lattice of densities, pressures, velocities up to ultra-relativistic, and equations of state',
     'Tests check one or two mild states per system.',
     ['src/physics_euler.hpp', 'src/physics_iso2d.hpp', 'src/physics_srhd.hpp'], [('recover_primitive / to_conserved', 'physics_*.hpp')])

prop('C17', 'Numerical fluxes are consistent, symmetric and upwind',
     'For every gas and every approximate Riemann solver, equal left and right states give exactly the physical flux, mirroring the two states mirrors the flux, rotating axes permutes its components, and when all waves move one way the flux is the upwind physical flux. '
     'The wave speeds used bound the true characteristic speeds and a uniform flow at rest relative to a contact stays unchanged where the solver resolves contacts.',
     ['inputs'], 'for every pair of states on the stated lattice and every axis',
     'Tests evaluate one pair of states per solver.',
     ['src/physics_euler.hpp', 'src/physics_iso2d.hpp', 'src/physics_srhd.hpp'], [('riemann_hlle / hllc', 'physics_*.hpp'), ('wave speeds', 'physics_*.hpp')])

prop('C18', 'Characteristic decomposition diagonalises the flux exactly',
     'For every adiabatic gas state, the flux derivative is the derivative of the flux along the first axis, the left and right characteristic vectors are inverse to one another and diagonalise it with the reported wave speeds, and the averaged state of two states lies between them, is symmetric and reproduces the jump in the mass and momentum (and, for a sound average, energy) flux from the jump in conserved variables.',
     ['inputs'], 'for every state (pair) on the stated lattice and every direction',
     'Tests check one state.',
     ['src/physics_euler.hpp', 'src/physics_iso2d.hpp'], [('eigenvector matrices and averages', 'physics_*.hpp')])

prop('C19', 'Slope-limited reconstruction creates no new extrema',
     'The limited slope of three neighbouring values is zero at an extremum, has the sign of the data, is bounded by the limiter and by the one-sided differences, is exact for linear data, antisymmetric under mirroring and scales with the data; applied to arrays and records it acts on every element along the chosen axis. '
     'Reconstructed interface values therefore lie between their neighbours.',
     ['inputs'], 'for every triple (and array) over the stated value lattice and every limiter parameter',
     'Tests evaluate a few triples.',
     ['src/math_interpolation.hpp'], [('plm_gradient', 'math_interpolation.hpp')])

prop('C20', 'Two-body orbits obey Kepler and the conservation laws',
     'For every bound (counter-clockwise) orbit, positions and velocities at any time, however many orbits away, conserve the system\'s energy, angular momentum, momentum and centre of mass, have the requested separation, mass ratio, eccentricity, orientation and period, and satisfy the equation of motion; recovering orbital elements from a state and evaluating them again returns the state, circular orbits included. '
     'Differences and sums of orbital elements act on every element, and states that are not bound are refused.',
     ['inputs'], 'for every orbit on the stated lattice of mass ratio, eccentricity, orientation and phase',
     'Tests recover elements of one or two orbits.',
     ['src/model_two_body.hpp'], [('orbital elements and state vectors', 'model_two_body.hpp')])

prop('C21', 'Simulations neither create nor destroy conserved quantities',
     'Over every step of a simulation, each cell changes by what flows through its faces and by the stated sources, and the mass in the domain changes exactly by what the run\'s own ledger says was accreted or ejected or by what crossed the outer boundary (momentum, angular momentum and energy likewise where they are conserved), on every mesh including refinement jumps, for every set of conserved variables, reconstruction and time-integration order. '
     'A uniform state stays uniform, a flow turned by a right angle evolves into the turned flow, the result does not depend on the number of threads, the time step is the one the options ask for, and a step that fails is repeated safely or ends the run.',
     ['configurations', 'histories', 'inputs'], 'for every mesh topology, solver option and step count within the stated bounds',
     'No existing test advances a simulation.',
     ['src/subprog_binary_scheme.cpp', 'src/subprog_sedov.cpp', 'src/subprog_cloud.cpp', 'src/mesh_tree_operators.hpp'], [('advance and flux correction', 'subprog_binary_scheme.cpp')])

prop('C22', 'Polynomial roots and interpolants satisfy their defining equations',
     'The reported roots of every cubic and quartic polynomial are all of its real roots with their multiplicity, and nothing else counts as real; each is exact to rounding (repeated roots to what their conditioning allows), and complex pairs are reported by their real part. A parabola through three points has its extremum where the vertex formula puts it, and located shocks lie where the profile actually jumps.',
     ['inputs'], 'for every polynomial with roots (real, repeated, complex) on the stated lattice and any non-zero leading coefficient; every small profile',
     'Tests solve a few polynomials with easy roots.',
     ['src/math_polynomial.hpp', 'src/post_shock_locator.hpp'], [('root formulas', 'math_polynomial.hpp'), ('shock locator', 'post_shock_locator.hpp')])

prop('C23', 'Messages between processes arrive intact at their addressee',
     'Data sent from one process to another through the communication layer, blocking or not, arrives with the same type, length and contents at the addressed process under the addressed tag, exactly once and in order, whatever the timing; collective operations give every participant the documented result. '
     'Requests complete exactly once; moving a request, dropping it or cancelling it while it is pending neither corrupts a message nor uses memory that is gone; a value of the wrong size is refused; copies of a communicator are independent, and none is lost or leaked.',
     ['schedules', 'inputs'], 'for every interleaving of two or three processes and every message size up to the stated bound',
     'Existing tests run in one process.',
     ['src/core_mpi.hpp'], [('communicator, requests', 'core_mpi.hpp')])

prop('C24', 'Tuple, matrix, sequence and unit arithmetic follow their algebra',
     'Fixed-size sequences, tuples, matrices, vectors in space and quantities with units obey the algebra of the objects they stand for: element-wise operations act on every element and in order, matrix and dot products, norms and scaling satisfy their identities, comparisons agree with the elements, access out of range is refused, and unit exponents add, subtract and scale.',
     ['inputs'], 'for every operand on the stated integer lattice and every supported size',
     'Tests evaluate one operand set per operation.',
     ['src/core_sequence.hpp', 'src/core_tuple.hpp', 'src/core_matrix.hpp', 'src/core_dimensional.hpp', 'src/core_geometric.hpp'], [('value types', 'core_*.hpp')])

prop('C25', 'Jet and atmosphere models integrate to their stated totals',
     'The ambient-medium and jet models are internally consistent: the masses they report are the integrals of their densities, a model made to have a given total mass has it without changing its profile, the mass coordinate is the inverse of the radius of a shell, the energy of the jets is the one given, radial profiles join continuously and models of infinite mass are refused. Changing one parameter changes nothing else.',
     ['inputs'], 'for every parameter set and radius on the stated lattice',
     'Tests evaluate one parameter set.',
     ['src/model_atmosphere.hpp', 'src/model_jet_nozzle.hpp'], [('profiles', 'model_*.hpp')])

prop('C26', 'What a simulation reports describes the solution it has',
     'Every simulation starts from the state its documentation and options describe (grid, density, velocity, pressure, orbit), and the diagnostics and time series it writes are those of the solution at the time they carry: density, pressure, entropy and velocity fields are those of the checkpoint of the same time, totals are the sums over the zones, places of shocks and of orbiting bodies, powers and Lorentz factors are the ones the solution has, in the stated units, and earlier samples of a time series stay as they were.',
     ['inputs', 'histories'], 'for every configuration in the stated tables and every output of the runs',
     'No test runs a simulation or reads its diagnostics.',
     ['src/subprog_sedov.cpp', 'src/subprog_cloud.cpp', 'src/subprog_binary.cpp', 'src/subprog_binary_diagnostics.cpp', 'src/post_shock_locator.hpp'], [('diagnostics, time series', 'subprog_*.cpp: diagnostic_fields / time_series'), ('initial conditions', 'subprog_*.cpp: create_solution, initial_disk')])

prop('C27', 'The program selector and the demonstration programs do what they show',
     'Naming a program runs that program and no other, with exactly the arguments that follow its name, leaves the files that program leaves and returns its exit code; without a name every program is listed, and an unknown name runs nothing. '
     'The mesh-refinement demonstration builds the balanced tree its rule describes, starts from the stated pulse, and each step carries it along by the upwind scheme across all block and level boundaries, without new extrema; its outputs are numbered in order and are those of the stated times. The partitioning demonstration divides the domain into the stated number of non-empty, even blocks that cover every cell once, with matching vertices, cell centres and file contents.',
     ['inputs', 'histories'], 'for every command line, tree depth, block size, interval and number of blocks in the stated tables, and every step of the runs',
     'No test runs the program or its demonstrations.',
     ['src/app_main.cpp', 'src/subprog_amrsand.cpp', 'src/subprog_partdom.cpp', 'src/mesh_tree_operators.hpp', 'src/app_parallel.hpp'], [('main', 'app_main.cpp'), ('next_solution, schedule', 'subprog_amrsand.cpp'), ('block decomposition', 'subprog_partdom.cpp')])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P))
