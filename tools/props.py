prop('P01', 'Distributed sort returns the sorted permutation, split as requested',
 'Sorting records that are spread over any number of ranks leaves them globally ordered by key with ties broken by identity, each record present exactly once and unchanged. Every rank ends up with exactly the number of records it asked for. The result depends neither on message timing nor on how the records were spread before.',
 ['schedules', 'inputs', 'configurations'], 'all message and rank schedules, all key multisets including many equal keys, all rank counts, uneven initial shares and requested shares',
 NOMPI + 'no test runs the distributed sort with more than one rank, with duplicate keys or with uneven shares.',
 ['mpisph/psort.h', 'mpisph/utils.h'], [('median-based splitting and exchange', 'mpisph/psort.h'), ('all-to-all exchange', 'mpisph/psort.h')], observe=['record arrays after the sort'])
prop('P02', 'Domain decomposition neither loses, duplicates nor alters particles',
 'Whenever the particles are redistributed over the ranks, every particle that existed before exists exactly once afterwards, with all its fields unchanged. All ranks use the same bounding box, which contains every particle; they hold consecutive pieces of one order in which each cell of every halving of that box is one contiguous stretch, and their loads differ by at most one particle. This holds however the particles were distributed before and however often it is repeated.',
 ['schedules', 'inputs', 'histories', 'configurations'], 'all schedules, rank counts, particle distributions in one to three dimensions, and sequences of moves, exchanges and redistributions',
 NOMPI + 'the redistribution over ranks is never executed by a stable test.',
 ['mpisph/bodies_system.h', 'mpisph/psort.h', 'include/tree_topology/tree_topology.h'], [('balanced distribution', 'mpisph/bodies_system.h update_iteration'), ('key computation and sort', 'include/tree_topology/tree_topology.h compute_keys')], observe=['local particle arrays of all ranks'])
prop('P03', 'Every rank sees the same, correct global summary of the particle tree',
 'After the tree is built or refreshed, the summary of the whole system is the same on every rank and right: total mass, centre of mass, number of particles and bounding box equal those of all particles, and the radius encloses them all. This holds for every number of ranks and every particle distribution.',
 ['schedules', 'inputs', 'configurations'], 'all schedules, rank counts including those that are not powers of two, distributions and sequences of rebuilds and refreshes',
 NOMPI + 'no test builds the distributed tree.',
 ['include/tree_topology/tree_topology.h', 'include/physics/default_physics.h', 'mpisph/tree_colorer.h'], [('sharing of tree pieces', 'include/tree_topology/tree_topology.h share_nodes_'), ('bottom-up aggregation', 'include/physics/default_physics.h compute_cofm')], observe=['root node of every rank'])
prop('P04', 'Neighbour search finds every interacting pair, exactly once, on any rank count',
 'For every particle the interaction function is called exactly once per traversal and receives every particle closer than the mean of the two smoothing lengths exactly once, itself included. It never receives a particle farther away than that. This does not depend on which rank owns either particle, on timing, or on earlier traversals.',
 ['schedules', 'inputs', 'histories', 'configurations'], 'all schedules and message timings, rank counts, particle distributions and smoothing lengths, repeated traversals with and without refresh',
 NOMPI + 'the neighbour search and its remote requests are never executed; races between computing and answering requests need particular schedules.',
 ['include/tree_topology/tree_topology.h', 'include/tree_topology/tree_geometry.h', 'include/tree_topology/hashtable.h'], [('traversal with requests for remote nodes', 'include/tree_topology/tree_topology.h traversal_sph'), ('request handler', 'include/tree_topology/tree_topology.h handle_requests')], observe=['arguments of the interaction function'])
prop('P05', 'Copies of remote particles are as fresh as their owner',
 'After a rebuild or a refresh, whatever an interaction function reads from a particle owned by another rank equals what the owner holds at that moment. No value from before the last refresh is ever seen, for any number of updates, refreshes and traversals in a row.',
 ['schedules', 'inputs', 'histories'], 'all schedules and delays, all sequences of field updates, refreshes and traversals',
 NOMPI + 'stale copies need several refreshes with a delayed message in between.',
 ['include/tree_topology/tree_topology.h', 'mpisph/bodies_system.h'], [('ghost reset', 'include/tree_topology/tree_topology.h reset_ghosts'), ('entity exchange', 'include/tree_topology/tree_topology.h')], observe=['arguments of the interaction function'])
prop('P06', 'Tree operations always finish and leave no message behind',
 'Rebuilding, refreshing and traversing the distributed tree terminate on every rank for every schedule and message timing, once messages are delivered. All ranks take part in the same collective operations in the same order, and no message stays undelivered at the end. No rank reads or changes memory of a message in flight.',
 ['schedules', 'inputs', 'histories', 'configurations'], 'all schedules, delays, rendezvous and eager sends, slow ranks, unsuccessful polls, and all sequences of operations',
 NOMPI + 'deadlocks and lost requests need particular interleavings of polling, request and completion messages.',
 ['include/tree_topology/tree_topology.h', 'mpisph/utils.h'], [('request and completion protocol', 'include/tree_topology/tree_topology.h handle_requests'), ('collective helpers', 'mpisph/utils.h')], observe=['termination', 'left-over messages', 'collective call sequence'])
prop('P07', 'Gravity equals direct summation within the opening-angle error',
 'With an opening angle of zero, gravitational acceleration and potential of every particle equal direct summation over all other particles. With a positive opening angle the error stays within the bound that the angle implies. Neither rank count nor timing matters, and a repeated computation gives the same result as the first.',
 ['schedules', 'inputs', 'configurations'], 'all schedules, rank counts, mass distributions, opening angles and gravitational constants',
 NOMPI + 'the multipole code and its exchange of cells between ranks are never executed.',
 ['include/physics/fmm.h', 'include/tree_topology/tree_topology.h', 'mpisph/tree_colorer.h'], [('multipole traversal', 'include/tree_topology/tree_topology.h traversal_fmm'), ('expansion kernels', 'include/physics/fmm.h')], observe=['acceleration and potential of all particles'])
DRV = 'no stable test runs a driver; the MPI tests need FleCSI and check single steps on one rank. '
prop('P08', 'The hydrodynamics driver computes the published SPH equations',
 'Every snapshot the hydrodynamics driver writes equals, particle by particle and field by field, what the SPH equations and the kick-drift-kick scheme give for the same initial data when summed directly over all pairs. This covers density, pressure, sound speed based time step, internal or total energy, acceleration, external gravity, relaxation terms, smoothing length updates and the simulation time. It holds for every equation of state, kernel, viscosity and external force the parameters offer, every number of ranks and every message timing.',
 ['inputs', 'configurations', 'schedules', 'histories'], 'all initial particle sets in one to three dimensions, parameter combinations, rank counts, message timings and numbers of steps',
 DRV + 'Stale copies of remote particles or a missing synchronisation change results only with several ranks and several steps.',
 ['app/drivers/hydro/main_driver.cc', 'include/physics/default_physics.h', 'include/physics/integration.h', 'include/physics/eos.h', 'include/physics/viscosity.h', 'include/physics/kernels.h', 'mpisph/bodies_system.h'], [('driver loop', 'app/drivers/hydro/main_driver.cc mpi_init_task'), ('equations', 'include/physics/default_physics.h'), ('time integration', 'include/physics/integration.h')], observe=['snapshots', 'final iteration and time'])
prop('P09', 'The Newtonian driver computes the SPH equations with self-gravity',
 'Every snapshot the self-gravitating driver writes equals what the SPH equations plus direct-sum Newtonian gravity and the kick-drift-kick scheme give for the same initial data. Gravity enters acceleration, energy and time step exactly once. It holds for all rank counts and message timings when the gravity solver runs without approximation.',
 ['inputs', 'configurations', 'schedules', 'histories'], 'all initial particle sets, parameter combinations, rank counts, message timings and numbers of steps',
 DRV + 'Gravity is accumulated in several passes over cells exchanged between ranks.',
 ['app/drivers/newtonian/main_driver.cc', 'include/physics/default_physics.h', 'include/physics/integration.h', 'include/physics/fmm.h', 'mpisph/bodies_system.h'], [('driver loop', 'app/drivers/newtonian/main_driver.cc mpi_init_task'), ('gravity', 'mpisph/bodies_system.h gravitation_fmm')], observe=['snapshots', 'final iteration and time'])
prop('P10', 'Evolution conserves particles, mass, momentum and energy',
 'Without external forces the number of particles, every mass, total momentum and total angular momentum stay constant to rounding through any number of steps, and in the thermokinetic formulation without self-gravity so does total energy, with the potential of external forces included where they act. This includes adaptive viscosity, every kernel, changing smoothing lengths and any number of ranks.',
 ['histories', 'configurations', 'schedules', 'inputs'], 'all runs of the drivers without external forces, all viscosity, kernel and energy options, rank counts and message timings',
 DRV + 'A pair force that is not equal and opposite because the two sides saw different data appears only across ranks.',
 ['app/drivers/hydro/main_driver.cc', 'app/drivers/newtonian/main_driver.cc', 'include/physics/default_physics.h', 'include/physics/viscosity.h', 'include/physics/integration.h'], [('pairwise rates', 'include/physics/default_physics.h'), ('adaptive viscosity', 'include/physics/viscosity.h compute_alpha')], observe=['snapshots', 'scalar report'])
prop('P11', 'Scalar reports equal the totals over all particles',
 'Each row of the scalar report holds the iteration and time of that moment and the total mass, energies, momentum and angular momentum summed over the particles of all ranks as a snapshot of the same iteration shows them. One row is written per requested output and none is lost or repeated, for every number of ranks and reduction order.',
 ['configurations', 'schedules', 'inputs', 'histories'], 'all runs of the drivers, output intervals, rank counts and reduction orders',
 DRV + 'A forgotten reduction over ranks gives correct rows on one rank.',
 ['include/analysis.h', 'app/drivers/hydro/main_driver.cc', 'app/drivers/newtonian/main_driver.cc'], [('reductions and report', 'include/analysis.h scalar_output')], observe=['scalar report', 'snapshots'])
prop('P12', 'Results do not depend on the number of ranks or on message timing',
 'Running the same initial data and parameters on one rank and on any number of ranks, with any message timing, gives the same snapshots up to rounding, for every viscosity switch, kernel, time step control and smoothing length option. Neighbour counts are identical.',
 ['schedules', 'configurations', 'inputs', 'histories'], 'all rank counts and message timings, all initial particle sets and parameter combinations of the drivers',
 DRV + 'The dependence appears only where a quantity of a remote copy is read before it was refreshed.',
 ['app/drivers/hydro/main_driver.cc', 'app/drivers/newtonian/main_driver.cc', 'mpisph/bodies_system.h', 'include/tree_topology/tree_topology.h', 'include/physics/viscosity.h'], [('refresh of remote copies', 'mpisph/bodies_system.h reset_ghosts'), ('driver loop', 'app/drivers/hydro/main_driver.cc mpi_init_task')], observe=['snapshots of two runs'])
IO = 'the I/O tests run on one process without crashes; '
prop('P13', 'A snapshot read back gives the particles that were written',
 'Whatever particles the ranks hold, writing a snapshot and reading it back on any other number of ranks gives every particle exactly once with identical position, velocity, mass, smoothing length, density, pressure, energy, type, state, time step and identifier. Iteration, simulation time and time step come back unchanged on every rank. It holds for one file with many steps and for one file per snapshot, with uneven and empty ranks; quantities that an input file lacks are read as zero.',
 ['configurations', 'schedules', 'inputs', 'histories'], 'all particle sets, distributions over writing and reading ranks, sequences of snapshots, file modes and message timings',
 IO + 'offsets into the shared file depend on how many particles every other rank holds.',
 ['mpisph/io.h'], [('collective write', 'mpisph/io.h outputDataHDF5'), ('collective read', 'mpisph/io.h inputDataHDF5')], observe=['snapshot files', 'particle arrays after reading'])
prop('P14', 'Particles from files without identifiers get unique consecutive ones',
 'When an input file carries no identifiers, the particles get the identifiers 1 to N in file order, each exactly once, whatever the number of ranks reading it. The pair search relies on unique identifiers to tell particles apart.',
 ['configurations', 'inputs'], 'all particle numbers and rank counts, also with fewer particles than ranks',
 IO + 'identifiers of one rank depend on how many particles all lower ranks read.',
 ['mpisph/io.h'], [('identifier assignment', 'mpisph/io.h inputDataHDF5')], observe=['particle arrays after reading'])
prop('P15', 'A crash costs at most the snapshot that was being written',
 'When a run with one file per snapshot dies at any moment, every snapshot finished before survives intact, and the run can be restarted from the last intact one on any number of ranks. After any number of crashes and restarts the finished run has left the same snapshots as a run that was never interrupted.',
 ['crash_points', 'histories', 'schedules', 'configurations'], 'all crash points during the run, all degrees to which buffered writes survive, repeated crashes, rank counts after each restart',
 IO + 'no test crashes or restarts a run.',
 ['mpisph/io.h', 'app/drivers/hydro/main_driver.cc', 'app/drivers/newtonian/main_driver.cc'], [('snapshot writing', 'mpisph/io.h outputDataHDF5'), ('restart', 'mpisph/io.h inputDataHDF5')], observe=['snapshot files after crash and restart'])
prop('P16', 'A restart continues from exactly the requested iteration or not at all',
 'Asked to continue from an iteration, a run reads the snapshot whose recorded iteration is the requested one, with its particles, time and time step, on every rank, whatever other files, older or newer snapshots, damaged files or directory listing order exist. If there is no such snapshot the run stops without reading another one and without changing, creating or deleting any file.',
 ['inputs', 'histories', 'configurations', 'fault_sequences'], 'all sets of snapshot files and bystanders, listing orders per process, damaged files, prefixes with directories, file modes and rank counts',
 IO + 'ranks may see files in different order and must still agree on one.',
 ['mpisph/io.h'], [('snapshot lookup', 'mpisph/io.h H5P_findIterationSnapshot'), ('restart', 'mpisph/io.h inputDataHDF5')], observe=['particles, time and files after reading'])
prop('P17', 'Cleaning up before a run removes only stale output of the same prefix',
 'Before writing, a run removes earlier output under its own prefix: all of it in a fresh run, and in a run that continues its own output only snapshots later than the one it continues from. No other file is touched, however similar its name, in whichever directory it is, and no stale snapshot is left in place.',
 ['inputs', 'histories', 'configurations'], 'all sets of earlier snapshots and bystander files, prefixes with and without directories, file modes, fresh and continued runs',
 IO + 'clean-up is only run in an otherwise empty directory.',
 ['mpisph/io.h'], [('clean-up', 'mpisph/io.h removePrefix'), ('decision what is stale', 'mpisph/io.h inputDataHDF5')], observe=['directory contents before and after'])
prop('P18', 'An interrupted and restarted run produces the same results',
 'A run stopped after any snapshot and continued from it, on any number of ranks and with any output interval, under its own or another prefix, writes the snapshots an uninterrupted run would have written: none missing, none twice, iterations and times continuing, and particles equal to rounding. Snapshots from before the restart stay as they were.',
 ['histories', 'configurations', 'schedules', 'inputs'], 'all restart points, output intervals, file modes, prefixes, rank counts before and after, message timings',
 IO + 'restarting involves driver, time integration and file handling together.',
 ['mpisph/io.h', 'app/drivers/hydro/main_driver.cc', 'app/drivers/newtonian/main_driver.cc', 'include/physics/default_physics.h'], [('restart', 'mpisph/io.h inputDataHDF5'), ('driver loop', 'app/drivers/hydro/main_driver.cc mpi_init_task')], observe=['snapshots of interrupted and uninterrupted runs'])
prop('P19', 'Disk errors are reported and cost only the snapshots they hit',
 'When opening, writing, flushing or closing a snapshot fails on any rank, the run reports an error and neither hangs nor crashes. Snapshots whose file met no error are complete and correct. A run in which nothing failed reports no error.',
 ['fault_sequences', 'schedules', 'configurations'], 'all sequences of failing disk operations on any rank: a full disk from some moment on, for a while, or single errors',
 IO + 'no test makes a disk operation fail.',
 ['mpisph/io.h'], [('error detection', 'mpisph/io.h outputDataHDF5')], observe=['program output', 'snapshot files'])
prop('P20', 'Time steps stay within the stability limit and outputs come when asked',
 'With the adaptive time step every step is positive and no longer than the limit of any particle on any rank, and it is shortened only to meet an output time. Screen, scalar and snapshot output requested every so much time appear exactly at the start of the run and then at each multiple of the interval, with a fixed step at the first iteration that reaches it; output requested every so many iterations appears at those iterations. This also holds after a restart, and the run ends at the final iteration or time.',
 ['configurations', 'histories', 'inputs', 'schedules'], 'all output intervals and their combinations, fixed and adaptive steps, restarts, final times and rank counts',
 DRV + 'output times, step limits and restarts interact over many steps.',
 ['include/physics/default_physics.h', 'include/physics/analysis.h', 'app/drivers/hydro/main_driver.cc', 'app/drivers/newtonian/main_driver.cc'], [('time step', 'include/physics/default_physics.h set_adaptive_timestep'), ('output decisions', 'include/physics/analysis.h')], observe=['times of screen, scalar and snapshot output', 'time steps in snapshots'])
prop('P21', 'Periodic boundaries make opposite faces neighbours',
 'In a box that is periodic along any of its axes every particle interacts with others exactly as if the box were repeated, across faces, edges and corners. A particle that leaves reappears on the opposite side, none is lost or duplicated, and all stay inside the box after each step. Results do not depend on rank count, identifiers or how images of particles are spread over ranks.',
 ['configurations', 'inputs', 'schedules', 'histories'], 'all combinations of periodic axes in one to three dimensions, box shapes at least five smoothing lengths wide, particle sets including ones on the faces, rank counts and numbers of steps',
 DRV + 'ranks that own only images, and particles crossing corners, need several ranks and steps.',
 ['include/physics/boundary.h', 'mpisph/bodies_system.h'], [('images', 'include/physics/boundary.h pboundary_generate'), ('rebuild', 'mpisph/bodies_system.h update_iteration')], observe=['snapshots'])
prop('P22', 'Diagnostic reports describe the particles of all ranks',
 'Each row of the diagnostic report holds, for that iteration, the smallest, average and largest number of neighbours, smoothing length and speed over the particles of all ranks as a snapshot of the same moment shows them. One row is written per requested report and none depends on how particles are spread over ranks.',
 ['configurations', 'schedules', 'inputs', 'histories'], 'all runs of the drivers, report intervals, rank counts and reduction orders',
 DRV + 'an extreme value that forgets other ranks or is never reset is right on one rank or at the first report.',
 ['include/diagnostic.h', 'app/drivers/hydro/main_driver.cc', 'app/drivers/newtonian/main_driver.cc'], [('statistics and reductions', 'include/diagnostic.h')], observe=['diagnostic report', 'snapshots'])
prop('P23', 'Relaxation moves particles as the all-pairs equations prescribe',
 'Every iteration of the particle relaxation gives the displacements, positions, smoothing lengths and neighbour counts of an all-pairs evaluation, for each method, boundary treatment, density profile and cool-down schedule, on any number of ranks. Particles do not end outside the sphere through small steps, none is lost, and the run stops exactly at global convergence or after the last cool-down iteration.',
 ['configurations', 'inputs', 'schedules', 'histories'], 'all particle sets, relaxation methods, boundary treatments, convergence settings, rank counts and message timings',
 'no test runs the relaxation driver; ' + 'convergence is a global decision all ranks must take in the same iteration.',
 ['app/drivers/wvt/main_driver.cc', 'include/physics/wvt.h'], [('displacements', 'include/physics/wvt.h'), ('driver loop', 'app/drivers/wvt/main_driver.cc')], observe=['snapshots'])
prop('P24', 'Initial data generators fill the domain with valid particles once',
 'For every parameter choice and any number of ranks a generator writes each particle once, with identifiers counting from 0, inside the domain. Lattices have the requested arrangement and shells the requested density profile, built in or tabulated, without holes or particles closer than the separation, also across a boundary declared periodic, for which the box is adjusted no further than needed; masses add up to density times volume, and pressure, energy, smoothing length, density and speed fit each other and the requested problem, including the requested blast energy. Drivers read exactly these particles from the file on any number of ranks.',
 ['configurations', 'inputs', 'schedules'], 'all generators, lattices, domains, resolutions and problem parameters, numbers of writing and reading ranks, old files in place',
 'no test runs a generator; ' + 'several ranks write one shared file.',
 ['app/id_generators/*/main.cc', 'include/lattice.h', 'mpisph/io.h'], [('lattices', 'include/lattice.h'), ('problem set-up and writing', 'app/id_generators/*/main.cc')], observe=['initial data file', 'particle arrays after reading'])
prop('P25', 'Results do not depend on the frame, the axes or the units',
 'The same problem set up displaced, in uniform motion, with axes exchanged or reversed, or in other units of length, time and mass gives the same run expressed in that frame, at every output, whatever the number of ranks. Apart from uniform motion, this includes the adaptive time step. Excluded are external forces and relaxation, which single out a frame, and under uniform motion the second pressure pass of the thermokinetic form.',
 ['inputs', 'configurations', 'schedules'], 'all particle sets, physics options, displacements, speeds, axis exchanges and units, rank counts and message timings',
 DRV + 'a formula that mixes times, forgets a component or hides a dimensional constant can look right in the one frame a test uses.',
 ['include/physics/default_physics.h', 'include/physics/integration.h', 'include/physics/viscosity.h', 'app/drivers/hydro/main_driver.cc', 'app/drivers/newtonian/main_driver.cc'], [('rates and equations of state', 'include/physics/default_physics.h'), ('integration', 'include/physics/integration.h')], observe=['snapshots of both runs'])
