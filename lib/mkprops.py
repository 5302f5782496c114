import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=None,obs=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d['anchors']['observe_at']=obs or []
    d['anchors']['hook_needed']=hook
    P.append(d)
M='src/muscl/'; S='src/sdm/'; H='src/shared/'; I='src/utils/io/'
U=[('U/U2','conservative variables of the current / next step, ghost cells included',M+'SolverHydroMuscl.h, '+M+'SolverMHDMuscl.h')]
p('P01','Hydro finite-volume steps conserve mass, momentum and energy',
 'On a fully periodic domain without gravity, every time step of the compressible hydrodynamics finite-volume solver leaves the domain totals of mass, every momentum component and total energy unchanged up to round-off, in 2D and 3D, for every Riemann solver, slope limiter, implementation variant and grid shape. With solid (reflecting) walls on some or all sides, total mass and total energy are still unchanged, and momentum along every periodic direction whose walls exert no force on it is unchanged too.',
 ['inputs','configurations','histories'],
 'all initial fields of the enumerated alphabet (every ordered pair of neighbour states occurs across a face in each direction), all riemann x slope_type x implementationVersion x dimension x grid shape x {periodic,reflecting} per direction, successive steps of either parity',
 'The shipped tests run a few set-ups and check that the executable exits; no test sums the conserved quantities, and none varies solver/limiter/implementation.',
 [M+'SolverHydroMuscl.h',M+'HydroRunFunctors2D.h',M+'HydroRunFunctors3D.h',M+'HydroBaseFunctor2D.h',M+'HydroBaseFunctor3D.h'],
 [('each face flux is computed once and added to one cell and subtracted from its neighbour',M+'HydroRunFunctors2D.h, '+M+'HydroRunFunctors3D.h'),('ghost cells refilled before every step',M+'SolverHydroMuscl.h godunov_unsplit')],U,['U after next_iteration()'])
p('P02','MHD finite-volume steps conserve mass, momentum, energy and magnetic flux',
 'On a fully periodic domain, every time step of the ideal MHD solver leaves the domain totals of mass, every momentum component, total energy and every magnetic-field component unchanged up to round-off, in 2D and 3D, for every MHD Riemann solver, slope limiter, implementation variant and grid shape.',
 ['inputs','configurations','histories'],
 'all enumerated divergence-free initial fields, riemann (hydro and magnetic) x slope_type x implementationVersion x dimension x grid shape, several consecutive steps',
 'Tests only start an Orszag-Tang or blast run for a few steps and never look at totals.',
 [M+'SolverMHDMuscl.h',M+'MHDRunFunctors2D.h',M+'MHDRunFunctors3D.h',M+'MHDBaseFunctor2D.h',M+'MHDBaseFunctor3D.h'],
 [('flux differencing of the 8 variables',M+'MHDRunFunctors2D.h UpdateFunctor_MHD, '+M+'MHDRunFunctors3D.h'),('constrained transport of the face-centred field',M+'MHDRunFunctors2D.h UpdateEmfFunctor2D_MHD, '+M+'MHDRunFunctors3D.h UpdateEmfFunctor3D_MHD')],U,['U after next_iteration()'])
p('P03','Constrained transport keeps the magnetic field divergence free',
 'The discrete divergence of the face-centred magnetic field is zero to round-off in every cell of every built-in MHD initial condition, and every MHD time step leaves the divergence of every cell of a periodic domain unchanged to round-off, whatever the fluid state, Riemann solver, slope limiter or implementation variant, in 2D and 3D.',
 ['inputs','configurations','histories'],
 'all enumerated fluid states and (divergence-free and not) face fields, all solver options, all built-in MHD problems, several steps',
 'No test evaluates the divergence of B.',
 [M+'SolverMHDMuscl.h',M+'MHDRunFunctors2D.h',M+'MHDRunFunctors3D.h',M+'MHDInitFunctors2D.h',M+'MHDInitFunctors3D.h',H+'RiemannSolvers_MHD.h'],
 [('one EMF per edge, used by every face around it',M+'MHDRunFunctors2D.h, '+M+'MHDRunFunctors3D.h UpdateEmf functors'),('initial fields derived from a vector potential or constant per line',M+'MHDInitFunctors2D.h, '+M+'MHDInitFunctors3D.h')],U,['U after init and after next_iteration()'])
p('P04','A uniform flow is an exact steady state of the finite-volume solvers',
 'A spatially uniform state (any density, pressure, velocity and magnetic field) is left unchanged to round-off by every time step of the hydro and MHD finite-volume solvers, for every Riemann solver, slope limiter and implementation variant, with periodic or outflow boundaries, and with reflecting walls when the velocity (and magnetic field) normal to the wall vanishes.',
 ['inputs','configurations'],
 'all uniform states from a product alphabet (density, pressure, signed velocity and field components including 0, sub/supersonic and sub/super-Alfvenic), all solver options, every compatible boundary combination',
 'No test checks a steady state.',
 [M+'HydroRunFunctors2D.h',M+'HydroRunFunctors3D.h',M+'MHDRunFunctors2D.h',M+'MHDRunFunctors3D.h',H+'RiemannSolvers.h',H+'RiemannSolvers_MHD.h'],
 [('consistent Riemann fluxes and zero slopes','src/shared/RiemannSolvers.h, src/shared/RiemannSolvers_MHD.h, src/muscl/*BaseFunctor*.h')],U,['U after next_iteration()'])
p('P05','Finite-volume steps commute with mirror, axis-swap and translation symmetries',
 'Advancing a mirrored, axis-permuted (with the grid permuted alike) or periodically translated flow gives the mirrored, permuted or translated result of advancing the original, to round-off, including the time step chosen, for the hydro and MHD finite-volume solvers in 2D and 3D, for every Riemann solver, slope limiter and implementation variant; nothing depends on position or direction beyond the flow itself.',
 ['inputs','configurations'],
 'all enumerated flows x all mirror/permutation/translation generators x all solver options',
 'No test compares two related runs; a sign or index error in one direction keeps every shipped test green.',
 [M+'HydroRunFunctors2D.h',M+'HydroRunFunctors3D.h',M+'HydroBaseFunctor2D.h',M+'HydroBaseFunctor3D.h',M+'MHDRunFunctors2D.h',M+'MHDRunFunctors3D.h',M+'MHDBaseFunctor2D.h',M+'MHDBaseFunctor3D.h'],
 [('per-direction trace/Riemann/update code written out separately for x, y and z',M+'HydroRunFunctors3D.h, '+M+'MHDBaseFunctor3D.h')],U,['U, dt after next_iteration()'])
p('P06','All implementation variants of a finite-volume scheme give the same result',
 'For the same problem, parameters and initial field, every selectable implementation variant of the hydro solver, and every selectable variant of the MHD solver, computes the same time step and the same solution to round-off, in 2D and 3D, for every Riemann solver, slope limiter, gravity setting and boundary type.',
 ['inputs','configurations'],
 'all enumerated fields x all solver options x boundary types x variants, several steps',
 'Tests run one variant at a time and do not compare outputs.',
 [M+'SolverHydroMuscl.h',M+'SolverMHDMuscl.h',M+'HydroRunFunctors2D.h',M+'HydroRunFunctors3D.h',M+'MHDRunFunctors2D.h',M+'MHDRunFunctors3D.h'],
 [('dispatch on implementationVersion',M+'SolverHydroMuscl.h godunov_unsplit_impl, '+M+'SolverMHDMuscl.h godunov_unsplit_impl')],U,['U after next_iteration()'])
p('P07','Riemann solvers return consistent, symmetric, upwind and bounded fluxes',
 'For every pair of admissible states, every hydro and MHD Riemann solver returns the physical flux of the common state when both sides are equal, the mirrored flux for the mirrored problem, for all but the Lax-Friedrichs solver the flux of the upwind side when all waves move the same way, and always finite values; solvers that resolve contacts leave a stationary contact discontinuity at rest, and the approximate and exact hydro solvers agree as the jump vanishes. In MHD the same holds, and the MHD fluxes reduce to the hydro ones when the magnetic field is zero.',
 ['inputs'],
 'all pairs of states from product alphabets of density, pressure, velocity and magnetic field (including vacuum-near, strong jump, zero-field and degenerate alignments), all solvers, 2D and 3D overloads',
 'There is no unit test of any Riemann solver in the stable tests; runs sample a thin set of states and do not compare fluxes.',
 [H+'RiemannSolvers.h',H+'RiemannSolvers_MHD.h'],
 [('dispatch riemann_hydro / riemann_mhd',H+'RiemannSolvers.h, '+H+'RiemannSolvers_MHD.h'),('approx, hll, hllc, hlld, llf solvers',H+'RiemannSolvers.h, '+H+'RiemannSolvers_MHD.h')],None,['returned flux'])
p('P08','Ghost cells always hold the values prescribed by the boundary conditions',
 'After a boundary fill every ghost cell, edges and corners included, holds the value its boundary type prescribes: the periodic image, the nearest interior value for outflow, or for reflecting walls the mirror image with the normal momentum (and in MHD the normal magnetic field) changing sign and all else unchanged, and interior cells are untouched. This holds for every combination of boundary types on the sides of a 2D or 3D domain and for hydro, MHD and spectral-difference data.',
 ['configurations','inputs'],
 'all combinations of boundary types per side (3^4 in 2D, 3^6 in 3D; periodic ones paired), every grid shape of a small list, every ghost cell and variable, every stale ghost content',
 'Tests run two or three boundary set-ups and never look at ghost values; corner cells and mixed combinations are never reached.',
 [H+'BoundariesFunctors.h',H+'SolverBase.cpp',H+'SolverBase.h',S+'SDM_Boundaries_Functors.h',S+'SolverHydroSDM.h'],
 [('face-by-face fill, x then y then z, later directions covering earlier ghosts',H+'BoundariesFunctors.h, '+S+'SDM_Boundaries_Functors.h')],U,['U after make_boundaries()'])
p('P09','A distributed run computes the same solution as a serial run',
 'For every process grid, boundary combination, solver (hydro and MHD finite volume, spectral difference) and problem, the distributed run takes the same time steps and produces the same cell values as the single-process run of the same global problem, up to round-off, and every ghost cell filled by communication equals the value the single-process run has there.',
 ['configurations','inputs'],
 'all process grids up to 8 ranks, all boundary combinations, all solvers and enumerated problems/fields, several steps',
 'The MPI tests start one or two process grids and check the exit code; results are never compared with a serial run.',
 [H+'SolverBase.cpp',H+'SolverBase.h',H+'mpiBorderUtils.h',H+'HydroParams.cpp',M+'SolverHydroMuscl.h',M+'SolverMHDMuscl.h',S+'SolverHydroSDM.h'],
 [('copy border buffers, exchange with neighbours, unpack',H+'SolverBase.cpp, '+H+'SolverBase.h, '+H+'mpiBorderUtils.h'),('neighbour table and per-rank boundary types',H+'HydroParams.cpp setup_mpi'),('global min of the time step',H+'SolverBase.cpp')],U,['gathered U, dt'])
p('P10','The message exchange never deadlocks or mismatches in any schedule',
 'In every interleaving of the processes and for every amount of message buffering (including none), a distributed run completes: no process waits forever, every receive gets the message meant for it with matching type and length, no message is left over, and collective operations are entered by all processes in the same order.',
 ['schedules','configurations'],
 'all interleavings of the rank programs under rendezvous and buffered semantics, all process grids up to 8 ranks with 1-3 ranks per axis, periodic and non-periodic',
 'A test run observes one schedule with one eager-buffer limit; rendezvous-mode deadlocks and order mismatches do not show.',
 [H+'SolverBase.cpp',H+'SolverBase.h','src/utils/mpiUtils/MpiComm.h','src/utils/mpiUtils/MpiCommCart.cpp','src/main.cpp'],
 [('ordered sendrecv per direction',H+'SolverBase.cpp transfert_boundaries_*'),('collectives in the main loop','src/main.cpp, '+H+'SolverBase.cpp')],None,['MPI calls of each rank'])
p('P11','Process topology, neighbours and domain ownership are mutually consistent',
 'For every process grid the ranks form a bijection with the grid coordinates, the neighbour relation is symmetric (if A is the right neighbour of B then B is the left neighbour of A) and wraps exactly in periodic directions, communication replaces the physical boundary exactly on interior or periodic sides, and the sub-domains tile the global domain without gap or overlap.',
 ['configurations'],
 'all process grids up to 4x4 and 3x3x3, all periodic/non-periodic combinations, all ranks',
 'Tests run only a couple of process grids and do not query the topology.',
 [H+'HydroParams.cpp',H+'HydroParams.h',H+'HydroParamsMpi.h','src/utils/mpiUtils/MpiCommCart.cpp','src/utils/mpiUtils/MpiCommCart.h'],
 [('Cartesian communicator set-up and neighbour table',H+'HydroParams.cpp setup_mpi, src/utils/mpiUtils/MpiCommCart.cpp')],None,['HydroParams fields per rank'])
p('P12','Every time step obeys the CFL limit of every cell and is as large as allowed',
 'The time step chosen by each solver equals the Courant number divided by the largest signal rate over all interior cells (the sum over directions of flow speed plus fastest wave speed over cell size, with the solver-specific scaling), so it never exceeds any interior cell\'s limit, is not smaller than needed, ignores ghost-cell contents, and is identical on all processes.',
 ['inputs','configurations'],
 'the extreme cell placed at every interior position, in every direction and variable, with all grid shapes, dimensions and solvers; every reduction order',
 'Tests do not check dt; a cell missed at the edge of the domain only matters for rare flows.',
 [M+'HydroRunFunctors2D.h',M+'HydroRunFunctors3D.h',M+'MHDRunFunctors2D.h',M+'MHDRunFunctors3D.h',S+'SDM_Dt_Functor.h',H+'SolverBase.cpp'],
 [('max-reduction over interior cells',M+'HydroRunFunctors2D.h ComputeDtFunctor, ...'),('dt = cfl/invDt, global minimum',H+'SolverBase.cpp compute_dt')],None,['dt after compute_dt()'])
p('P13','A run advances time monotonically, ends exactly at its limit and outputs on cue',
 'For every setting of end time, step limit and output cadence, simulated time strictly increases, a run stops at the end time exactly (never beyond) or after the step limit, whichever comes first, it takes no step afterwards, and it writes the initial state, one output at each step due by its cadence, and the final state, with consecutive output numbers and the times they claim.',
 ['histories','configurations'],
 'all combinations of tEnd, nStepmax, nOutput and solver from a grid that includes 0, 1, non-divisors and limits reached at the same time',
 'Tests use one setting per problem and only look at the exit status.',
 ['src/main.cpp',H+'SolverBase.cpp',H+'SolverBase.h',M+'SolverHydroMuscl.cpp',M+'SolverHydroMuscl.h',M+'SolverMHDMuscl.h',S+'SolverHydroSDM.h'],
 [('finished(), compute_dt clipping, should_save_solution()',H+'SolverBase.cpp'),('main loop','src/main.cpp')],
 [('m_t, m_dt, m_iteration, m_times_saved','progress of the run',H+'SolverBase.h')],['files written, m_t/m_iteration'])
p('P14','A restarted run continues exactly where the original stopped',
 'Stopping a run at any saved output and restarting from that file yields, in every later output, the same solution at the same time as the uninterrupted run (to the precision stored) and continues the numbering of the outputs, whatever the output chosen, dimension, grid shape, boundaries, problem (static gravity included) and finite-volume solver; restarting with upscaling copies every coarse value to the fine cells it covers and interpolates the face magnetic field between coarse faces.',
 ['crash_points','histories','configurations'],
 'every saved output of every enumerated run used as the restart point, all chains of two restarts, ghost cells stored or not, 2D/3D, hydro/MHD',
 'No test restarts a run.',
 [I+'IO_HDF5.h',I+'IO_ReadWrite.cpp',I+'IO_ReadWrite.h',H+'SolverBase.cpp',M+'SolverHydroMuscl.h',M+'SolverMHDMuscl.h'],
 [('Load_HDF5 reads data and time/iteration attributes',I+'IO_HDF5.h'),('restart branch of init',M+'SolverHydroMuscl.h, '+M+'SolverMHDMuscl.h')],None,['U, t, iteration after restart'])
p('P15','HDF5 output and its XDMF index describe exactly the simulated field',
 'Every HDF5 file holds, for each enabled variable and every cell, exactly the value in memory at the position of that cell (ghost cells included only if requested), together with the time, step number and geometry of the run, reading it back restores them, and the XDMF index of a run lists exactly the files it wrote, in order, with their dimensions and every variable.',
 ['configurations','inputs'],
 'all grid shapes, dimensions, solvers, variable selections, ghost inclusion, prefixes and output histories of an enumerated grid, each cell carrying a unique value',
 'Tests write files but no test reads one back against memory.',
 [I+'IO_HDF5.h',I+'IO_HDF5.cpp',I+'IO_ReadWrite.cpp',I+'IO_common.cpp'],
 [('Save_HDF5',I+'IO_HDF5.h'),('writeXdmfForHdf5Wrapper',I+'IO_HDF5.cpp')],None,['files on disk'])
p('P16','VTK output describes exactly the simulated field',
 'Every VTK image file is well formed and holds, for each variable and interior cell (or spectral-difference sub-cell), the value in memory, in the declared order, with extents, origin and spacing that match the simulated domain; a distributed run additionally writes an index whose pieces tile the global grid and name existing files.',
 ['configurations','inputs'],
 'all grid shapes, dimensions, ascii/binary encodings, solvers and process grids of an enumerated list, each cell carrying a unique value',
 'Tests write VTK files but nothing parses them.',
 [I+'IO_VTK.h',I+'IO_VTK.cpp',I+'IO_VTK_SDM.h',I+'IO_VTK_SDM.cpp',I+'IO_VTK_shared.h'],
 [('save_VTK_2D / save_VTK_3D / write_pvti_header',I+'IO_VTK.cpp')],None,['files on disk'])
p('P17','Parameter files are read faithfully and safely',
 'For every text given as parameter file, each lookup returns the value the file assigns to that section and key (last assignment wins or accumulates as documented, names case-insensitive, surrounding blanks and comments ignored) converted to the requested type, or the supplied default when the key is absent or not convertible; malformed lines are reported and never crash or corrupt other keys.',
 ['inputs'],
 'all sequences of up to a bounded number of tokens over an alphabet of line fragments (sections, names, separators, comments, quotes, continuation lines, blanks, over-long lines), all lookup types',
 'Tests read a handful of well-formed shipped files.',
 ['src/utils/config/ConfigMap.cpp','src/utils/config/ConfigMap.h','src/utils/config/inih/ini.cpp','src/utils/config/inih/INIReader.cpp','src/utils/config/inih/INIReader.h'],
 [('ini_parse','src/utils/config/inih/ini.cpp'),('typed getters','src/utils/config/ConfigMap.cpp, src/utils/config/inih/INIReader.cpp')],None,['values returned by getters'])
p('P18','Run parameters mean what the file says, on every process',
 'Every run parameter, enumerated option name and default in the parameter file determines the corresponding run setting exactly (grid sizes, domain bounds and spacings, physics constants, scheme choices, boundary types, output switches), independently of the other keys, every registered solver name builds that solver and an unknown one is refused, and in a distributed run all processes see the same parameters as the file read by one of them, whatever its length.',
 ['inputs','configurations'],
 'every parameter set to each of several values with all others at default, every option name, every file length around buffer boundaries, every process count up to 8',
 'Tests use shipped parameter files only, and do not compare settings between processes.',
 [H+'HydroParams.cpp',H+'HydroParams.h',H+'SolverFactory.cpp',H+'SolverFactory.h','src/utils/config/ConfigMap.cpp','src/main.cpp'],
 [('HydroParams::setup and init',H+'HydroParams.cpp'),('broadcast_parameters','src/utils/config/ConfigMap.cpp'),('SolverFactory map',H+'SolverFactory.cpp')],None,['HydroParams fields, solver type'])
p('P19','Spectral-difference interpolation and differentiation are exact on polynomials',
 'For every polynomial order, dimension and direction, interpolating a polynomial of degree below the order from solution points to flux points gives its exact values there, differentiating one of degree up to the order at flux points gives its exact derivative at solution points (scaled by the cell size), point locations are symmetric and the flux points include both cell ends, and no cell influences another.',
 ['inputs','configurations'],
 'all monomials of the basis (complete by linearity), all orders 1-6, 1D/2D/3D cells, every direction, every cell position',
 'Existing SDM programs print errors for one function and order and do not fail on them.',
 [S+'SDM_Geometry.h',S+'SDM_Interpolate_Functors.h',S+'SDM_Interpolate_Functors2.h',S+'SDMBaseFunctor.h'],
 [('Lagrange interpolation and derivative matrices',S+'SDM_Geometry.h'),('functors applying them',S+'SDM_Interpolate_Functors.h, '+S+'SDM_Interpolate_Functors2.h')],None,['functor outputs'])
p('P20','Spectral-difference steps conserve totals and preserve uniform flow',
 'On a periodic domain every spectral-difference step leaves the quadrature totals of mass, momentum and energy unchanged to round-off, for every order, time integrator, Riemann solver and dimension, and leaves a uniform flow unchanged, with outflow boundaries too. The result commutes with mirrors, axis swaps and periodic translations of the flow.',
 ['inputs','configurations','histories'],
 'all orders 1-6 (2D) and 1-4 (3D), all integrators and Riemann solvers, all enumerated flows and symmetry generators',
 'SDM tests check that runs exit; no totals, no symmetry.',
 [S+'SolverHydroSDM.h',S+'SDM_Flux_Functors.h',S+'SDM_Run_Functors.h',S+'SDM_Interpolate_Functors.h'],
 [('one Riemann flux per face shared by both cells',S+'SDM_Flux_Functors.h'),('derivative at solution points telescopes',S+'SDM_Interpolate_Functors.h')],[('U','solution-point values of every cell',S+'SolverHydroSDM.h')],['U after next_iteration()'])
p('P21','Each spectral-difference time integrator realises its Runge-Kutta scheme',
 'Each selectable time integrator (forward Euler, SSP-RK2, SSP-RK3, SSP-RK54) advances the solution exactly by the published combination of stage right-hand sides of the spatial operator, so it has its nominal order of accuracy, evaluates boundaries before each stage, and consumes exactly one time step per iteration.',
 ['inputs','configurations'],
 'all integrators x orders x dimensions x enumerated flows, compared with the scheme applied to the same right-hand side and with the exact Taylor coefficients for a linear operator',
 'No test varies or compares integrators.',
 [S+'SolverHydroSDM.h',S+'SDM_Run_Functors.h'],
 [('time_int_forward_euler, time_int_ssprk2, time_int_ssprk3, time_int_ssprk54',S+'SolverHydroSDM.h')],None,['U after next_iteration()'])
p('P22','Spectral-difference limiting and positivity keep cell means and admissibility',
 'The positivity and limiting procedures never change the mean state of a cell, leave cells with smooth, uniform or already admissible data unchanged, and the positivity procedure returns density and pressure no smaller than its thresholds at every flux point of every cell whose mean state is admissible.',
 ['inputs','configurations'],
 'all cells whose point values come from the enumerated alphabet (including near-vacuum and oscillatory data), orders 1-4, 2D and 3D, limiter and positivity on/off',
 'Tests run with the limiter in one or two set-ups and only check the exit status.',
 [S+'SDM_Limiter_Functors.h',S+'SDM_Positivity_preserving.h',S+'SolverHydroSDM.h'],
 [('cell averages by quadrature',S+'SDM_Limiter_Functors.h'),('rescaling towards the mean',S+'SDM_Positivity_preserving.h')],None,['U after the procedure'])
p('P23','Euler fluxes and conversions are the ones of the compressible Euler equations',
 'For every admissible state, conversion to primitive variables and back is the identity, the flux functions in each direction are those of the compressible Euler (and ideal MHD) equations, pressure and sound speed are positive and consistent with the equation of state, and the characteristic transforms used for limiting are inverse to each other and diagonalise the flux Jacobian in each direction.',
 ['inputs'],
 'all states of a product alphabet, all directions, 2D and 3D',
 'Existing programs print eigen-decompositions for one state without asserting.',
 [H+'EulerEquations.h',M+'HydroBaseFunctor2D.h',M+'HydroBaseFunctor3D.h',M+'MHDBaseFunctor2D.h',M+'MHDBaseFunctor3D.h',S+'SDMBaseFunctor.h'],
 [('flux_x/y/z, eigenvalues and transforms',H+'EulerEquations.h'),('computePrimitives, eos',M+'HydroBaseFunctor2D.h, '+S+'SDMBaseFunctor.h')],None,['returned values'])
p('P24','Parallel kernels are race free, in bounds and deterministic in every schedule',
 'Within every parallel kernel launched by any solver no iteration writes memory that another iteration reads or writes (other than by atomic update or reduction), no access leaves its array, no value is read before it is defined, and the solution therefore does not depend on the order or number of threads that execute the iterations (beyond round-off where kernels accumulate with atomic updates).',
 ['schedules','configurations'],
 'all pairs of iterations of every kernel launch of complete runs (so all interleavings of the threads), all solvers, dimensions, implementation variants, boundary types and grid shapes of the enumerated list',
 'OpenMP test runs use one schedule of 2 threads; races and out-of-bounds reads of ghost cells are invisible in exit codes.',
 [M+'HydroRunFunctors2D.h',M+'HydroRunFunctors3D.h',M+'MHDRunFunctors2D.h',M+'MHDRunFunctors3D.h',H+'BoundariesFunctors.h',S+'SDM_Flux_Functors.h',S+'SDM_Interpolate_Functors.h',S+'SDM_Limiter_Functors.h'],
 [('each iteration writes its own cell; gather-style updates, or atomics','all functor headers')],None,['every memory access of every kernel iteration'])
p('P25','Initial conditions are complete, admissible and independent of the decomposition',
 'Every built-in problem of every solver gives every cell, for every grid shape and process grid, a state with positive density and pressure that is the prescribed function of that cell\'s physical position and the problem parameters, so it does not depend on how the domain is decomposed or on cell-visit order, and it has the symmetries of the problem.',
 ['configurations','inputs'],
 'all registered problems x solvers x dimensions x grid shapes x process grids x enumerated problem parameters',
 'Tests start a few problems at one resolution on one process.',
 [M+'HydroInitFunctors2D.h',M+'HydroInitFunctors3D.h',M+'MHDInitFunctors2D.h',M+'MHDInitFunctors3D.h',S+'HydroInitFunctors.h',H+'problems'],
 [('position from global index and rank offset',M+'HydroInitFunctors2D.h, ...'),('problem parameter structs',H+'problems')],None,['U after construction'])
p('P26','Static gravity changes momentum and energy exactly as its work and weight demand',
 'With gravity enabled, a time step leaves total mass unchanged on a closed or periodic domain, changes total momentum by the time step times the total weight and total energy by exactly the kinetic energy this gives each cell, lets no mass or energy through reflecting walls, gives zero effect for zero gravity, and acts identically in every direction.',
 ['inputs','configurations'],
 'all enumerated fields and gravity vectors along each axis, 2D/3D, all implementation variants that support gravity',
 'Only a Rayleigh-Taylor run is started by tests.',
 [M+'SolverHydroMuscl.h',M+'HydroRunFunctors2D.h',M+'HydroRunFunctors3D.h'],
 [('half-step prediction and source term',M+'HydroRunFunctors2D.h, '+M+'HydroRunFunctors3D.h')],None,['U after next_iteration()'])
p('P27','The viscous terms of the spectral-difference solver act as a Newtonian viscosity',
 'With viscosity enabled the spectral-difference solver still conserves mass, momentum and energy on a periodic domain, leaves uniform flow and rigid translation unchanged, and its viscous stress is the symmetric traceless Newtonian stress of the velocity gradient, which decays shear flow and never creates momentum.',
 ['inputs','configurations'],
 'all enumerated flows, orders 2-4, 2D and 3D, all integrators',
 'No test enables viscosity.',
 [S+'SDM_Viscous_Flux_Functors.h',S+'SDM_Interpolate_viscous_Functors.h',S+'SolverHydroSDM.h'],
 [('velocity gradients at flux points and viscous flux',S+'SDM_Viscous_Flux_Functors.h, '+S+'SDM_Interpolate_viscous_Functors.h')],None,['U after next_iteration()'])
p('P28','A 3D run of a flow invariant along one axis reproduces the 2D run',
 'A 3D hydro, MHD or spectral-difference run whose initial field does not vary along one axis and has no velocity and no magnetic field along it stays invariant along that axis and takes, plane by plane, the values of the 2D run of the same field advanced with the same time steps, for every scheme option for which the 3D scheme restricts to the 2D one.',
 ['inputs','configurations'],
 'all enumerated 2D fields extruded along each axis, all options',
 'No test compares 2D with 3D.',
 [M+'HydroRunFunctors3D.h',M+'HydroBaseFunctor3D.h',M+'HydroRunFunctors2D.h',S+'SDM_Flux_Functors.h'],
 [('3D functors generalise the 2D ones',M+'HydroRunFunctors3D.h')],None,['U after next_iteration()'])
p('P29','The high-order finite-volume (MOOD) solver conserves and stays admissible',
 'Every step of the high-order a-posteriori-limited (MOOD) solver conserves mass, momentum and energy on a periodic domain, and its fall-back cascade always ends with an admissible solution.',
 ['inputs','configurations'],'all fields, degrees and stencils','MOOD is not built in the tested configurations.',
 ['src/mood/SolverHydroMood.h','src/mood/MoodUpdateFunctors.h'],[('flux recomputation of troubled cells','src/mood/MoodUpdateFunctors.h')],None,[])
p('P30','Parallel-netCDF output holds exactly the simulated field',
 'Every parallel-netCDF file written together by the processes of a distributed run, whatever the process grid, the numbering of the processes, the local shape, the dimension, the solver and the file format, holds every variable of that solver and, at each global position (outer ghost cells included), exactly the value the process owning that cell has in memory, written once; the recorded time, step and format are those of the output; nothing outside the buffers of the process is read or written.',
 ['configurations','schedules'],'all process grids, shapes, solvers, formats and numberings','Parallel-netCDF is not available in the tested configurations.',
 [I+'IO_PNETCDF.h',I+'IO_ReadWrite.cpp'],[('Save_PNETCDF',I+'IO_PNETCDF.h')],None,['the file left after save_data() by all processes'])
open(__file__.rsplit('/',2)[0]+'/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
