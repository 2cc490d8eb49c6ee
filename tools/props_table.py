prop('P01', 'Flux update is conservative and telescopes over cell faces',
     'For every numerical flux function, every grid size, ghost width and window, one application of the net-flux operator adds to each cell inside the window exactly (flux through its lower face minus flux through its upper face) in the requested direction, where the flux of a face is one value computed from the same stencil of reconstructed neighbours for both cells sharing it; cells outside the window and the input states are left unchanged. The returned wave speed is at least the wave speed reported at every face of the window. The numerical flux of a grid sums these over its directions onto zero, each from the reconstruction of the state in that direction; the spatial operator computes it for every interior cell from exchanged halos, however the halo exchange overlaps with it, and applies the diffusion once to the complete flux.',
     ['inputs', 'configurations'], 'all states, grid sizes, ghost widths, sub-windows, directions and all two-, four- and six-point numerical flux functions',
     'Tests run a handful of fixed grids and concrete fluxes; a slipped index, a face computed from different data for its two cells or a missed boundary row shows only for other sizes, directions or windows.',
     ['alsfvm/include/alsfvm/numflux/numflux_util.hpp', 'alsfvm/src/numflux/NumericalFluxCPU.cpp', 'alsfvm/src/volume/Volume.cpp'],
     [('NumericalFluxCPU::computeFlux', 'alsfvm/src/numflux/NumericalFluxCPU.cpp'), ('for_each_cell_index', 'alsfvm/include/alsfvm/volume/volume_foreach.hpp')],
     'Proved for an arbitrary (uninterpreted) flux function, all sizes and windows, 1d/2d/3d and 2/4/6-point stencils.')
prop('P02', 'Numerical fluxes are consistent, upwind and entropy conservative',
     'For all admissible states each registered numerical flux is consistent (equal states give the exact flux and |largest eigenvalue| as wave speed), reports a wave speed bounding the speeds of the states it is built from, and equals its defining formula: central mean, Rusanov, Godunov (extremum of f between the states), Roe/upwind (flux of the upwind side), HLL average with Einfeldt speeds, and the three-wave HLL solver whose middle state satisfies the jump conditions. The entropy conservative fluxes (Burgers and Euler in 1, 2 and 3 dimensions) satisfy [v].F = [psi] for every pair of admissible states and every direction, and the fourth and sixth order combinations are the published linear combinations of them.',
     ['inputs', 'configurations'], 'all admissible pairs of states, all gas constants gamma > 1, all directions and dimensions',
     'Tests compare a few states in one dimension; degenerate speeds, equal components, negative states and the other directions are never sampled.',
     ['alsfvm/include/alsfvm/numflux', 'alsfvm/include/alsfvm/numflux/euler', 'alsfvm/include/alsfvm/numflux/burgers'],
     [('computeFlux of each flux', 'alsfvm/include/alsfvm/numflux'), ('computeHLLSpeeds', 'alsfvm/include/alsfvm/numflux/euler/HLL.hpp')],
     'Proved for all states; HLL and three-wave fluxes are verified against the contract of their wave speed function, which is proved separately.')
prop('P07', 'Ghost cells hold the periodic or mirror image of the interior',
     'After applying a boundary condition, every ghost cell of every variable (faces, edges and corners included) holds the value of its periodic image (periodic) or of its mirror image across the boundary (Neumann), and every interior cell is unchanged. This holds for every grid size, ghost width and dimension, and a side that is exchanged by message passing is left alone while the other sides are filled. A configuration selects the condition by name ("periodic", "neumann"; any other name is refused). Where a state beyond the boundary is looked up without ghost cells (ValueAtBoundary), it is the periodic image, or for Neumann the nearest interior cell.',
     ['inputs', 'configurations'], 'all cell values, sizes, ghost widths, 1d/2d/3d, all combinations of physical and exchanged sides covered by the contracts',
     'Tests use a few small grids and check some cells; the corners, other ghost widths and partially active sides are not covered.',
     ['alsfvm/include/alsfvm/boundary', 'alsfvm/src/boundary/BoundaryCPU.cpp'],
     [('BoundaryCPU::applyBoundaryConditions', 'alsfvm/src/boundary/BoundaryCPU.cpp'), ('BoundaryFactory::createBoundary', 'alsfvm/src/boundary/BoundaryFactory.cpp'), ('ValueAtBoundary::getValueAtBoundary', 'alsfvm/include/alsfvm/boundary/ValueAtBoundary.hpp')],
     'Proved for all sizes and ghost widths.')
prop('P09', 'Equations: exact fluxes, eigenstructure, entropy, conversions, constraints',
     'For every admissible state and every direction, each equation (Burgers, cubic, linear, Buckley-Leverett, Euler in 1, 2, 3 dimensions) evaluates its exact flux, its wave speed is the largest absolute eigenvalue of the flux Jacobian, its eigenvectors are eigenvectors of that Jacobian with the eigenvalues it reports, and its entropy variables and scaled entropy variables R^T v are those of its entropy. Conversions between primitive, conserved and derived variables are mutually inverse and exact. The constraint check accepts a state exactly when it is finite and (for gases) density and pressure are positive. Over a volume of any size and dimension, every cell (ghost cells included) is converted, the maximal wave speed in a direction is at least that of every cell, and the volume is accepted only if each of its cells is.',
     ['inputs', 'configurations'], 'all states, all gamma > 1, all directions and dimensions, all volume sizes, NaN and infinities for the constraint check',
     'Tests evaluate fluxes at a couple of states; eigenvectors in y and z, infinities and entropy variables are not tested.',
     ['alsfvm/include/alsfvm/equation', 'alsfvm/src/equation', 'alsfvm/include/alsfvm/volume/volume_foreach.hpp'],
     [('computePointFlux, computeEigenVectorMatrix, obeysConstraints', 'alsfvm/include/alsfvm/equation'), ('CPUCellComputer', 'alsfvm/src/equation/CPUCellComputer.cpp')],
     'Proved for all states; NaN and infinity are explicit constants.')
prop('P10', 'Memory and volume algebra is elementwise, checked and keeps the geometry',
     'Arithmetic on memories and volumes (sum, difference, product, quotient, scaling, powers, linear combinations, copies, zeroing) computes the named operation on every element and touches nothing else, for every size, also when operands alias; operands of a different size are rejected. Cell addressing is the same bijection everywhere (x fastest, then y, then z), interior copies select exactly the interior cells, coarsening onto a smaller volume averages exactly the covered fine cells, interpolation between grids reads only interior cells, and a sub-volume shares storage with its parent. Loops over cells (for_each_*, transform_volume, fill_volume) visit every cell of their region exactly once, each with its own index, neighbours, values and midpoint, so a volume filled from a function of position holds it at the midpoints of the interior cells, ghost cells untouched.',
     ['inputs', 'configurations'], 'all sizes, ghost widths, values, and all aliasing patterns covered by the contracts',
     'Tests use fixed small arrays without ghost cells in most cases; size mismatches, aliasing, three dimensions and ghost offsets are not exercised.',
     ['alsfvm/src/memory', 'alsfvm/include/alsfvm/memory', 'alsfvm/src/volume/Volume.cpp', 'alsfvm/include/alsfvm/volume'],
     [('HostMemory operations', 'alsfvm/src/memory/HostMemory.cpp'), ('Volume operations', 'alsfvm/src/volume/Volume.cpp'), ('loops over cells', 'alsfvm/include/alsfvm/volume/volume_foreach.hpp')],
     'Proved for all sizes and values.')
prop('P04', 'Time integrators advance by their stated Runge-Kutta scheme',
     'For every integrator (forward Euler, strong stability preserving Runge-Kutta 2 and 3, classical Runge-Kutta 4), every state and every right hand side, each stage evaluates the spatial operator exactly once, on the latest stage, and stores exactly the stage value of the scheme; all stages of a step use the time step computed in the first stage, which is cfl divided by the sum over the directions of (wave speed / cell length); the old state is left unmodified, so the step is the stated Runge-Kutta combination in every cell, with the flux difference of each direction divided by the cell length of that direction.',
     ['inputs', 'configurations'], 'all states, operator values, wave speeds, cell lengths, CFL numbers and grid sizes in 1d, 2d and 3d (rectangular cells: known finding)',
     'Tests integrate one scalar ODE to a tolerance, which a wrong weight on one stage, a stale stage or a re-evaluated time step can pass.',
     ['alsfvm/src/integrator'],
     [('performSubstep of each integrator', 'alsfvm/src/integrator'), ('Integrator::computeTimestep', 'alsfvm/src/integrator/Integrator.cpp')],
     'Proved for an arbitrary spatial operator.')
prop('P05', 'Time stepping: CFL step, adjusters, clock, state checks and writers',
     'The time step of every simulation step is cfl / sum over active directions of (wave speed / cell length), passed through all time step adjusters in the order they were added, each seeing the current time; the clock advances by exactly the step taken and the step counter by one; each step runs all stages of the integrator, extends every stage to the ghost cells once, continues from the result of the previous step, checks the constraints on the new state and aborts before any writer sees an inadmissible state; every writer is called once per step, in order, with that state and the new time; the run ends exactly when the end time is reached.',
     ['inputs', 'histories', 'configurations'], 'all states, speeds, CFL numbers, grids, time step adjusters, end times, all integrators',
     'Tests run a whole simulation once and look at the result; ordering of the checks, accumulation over steps and adjusters are not observed.',
     ['alsfvm/src/simulator', 'alsfvm/src/integrator/Integrator.cpp'],
     [('Simulator::performStep', 'alsfvm/src/simulator/Simulator.cpp'), ('Integrator::adjustTimestep', 'alsfvm/src/integrator/Integrator.cpp')],
     'Proved against the interface contracts of the collaborators (flux, boundary, writers), which are proved under other properties.')
prop('P03', 'Tecno diffusion is a difference of entropy dissipating face terms',
     'For every state, every dimension, grid size and ghost width, applying the tecno diffusion operator adds to each interior cell exactly D(upper face) minus D(lower face) in every active direction, where D of a face is one half R M R^T (v(right) - v(left)) with v the entropy variables of the two cells, and R and M evaluated at the mean of the two conserved states; the state itself is not modified. M is, in characteristic variables, the absolute eigenvalues (Roe) or the largest absolute eigenvalue on every component (Rusanov), and M never produces entropy. With a reconstruction, the scaled entropy variables (R^T v, at the face) are handed to it once per active direction and the jump in D is that of its results at the face. One operator may be applied to grids of different sizes in turn.',
     ['inputs', 'configurations'], 'all cell values, sizes, dimensions, and all equations (eigenvector matrix and entropy variables are arbitrary functions of the state)',
     'Tests run a full simulation at one resolution; a face term computed from mismatched cells, or the last cell of a row, shows only for other schemes and sizes.',
     ['alsfvm/src/diffusion', 'alsfvm/include/alsfvm/diffusion'],
     [('TecnoDiffusionCPU::applyDiffusion', 'alsfvm/src/diffusion/TecnoDiffusionCPU.cpp'), ('RoeMatrix, RusanovMatrix', 'alsfvm/include/alsfvm/diffusion')],
     'Proved for an arbitrary system and an arbitrary scalar equation, without reconstruction and with an arbitrary one.')
prop('P08', 'Reconstruction: stencil choice, weights, limiters, window, positivity',
     'For all cell values, sizes and windows (CPU code): ENO of order 2-4 (plain and entropy variable variant) grows its stencil towards the divided difference of smaller magnitude next to the current stencil and returns, at both faces, the value of the polynomial with the given averages on that stencil; WENO of order 2 and 3 is the convex combination of those polynomials with the stated linear weights scaled by the stated smoothness measures, measured in the first variable; MC and MM (second order limited) use the stated minmod slope, keep the cell average and stay between the neighbouring averages; WENOF2 limits primitive slopes to 1.9 times the value and adds at most half of one, so density and pressure stay positive; none copies the values. Every variable is reconstructed from its own values along the given direction; the input is not modified; ENO and the limiters write only inside the given window; ghost cell counts are as documented.',
     ['inputs', 'configurations'], 'all cell values, sizes, windows, directions; scalar and Euler variables',
     'Tests check smooth or constant data on small one dimensional grids; stencil choice near jumps in the third level, y and z strides and windows are not exercised.',
     ['alsfvm/src/reconstruction', 'alsfvm/include/alsfvm/reconstruction'],
     [('ENOCPU::performReconstruction', 'alsfvm/src/reconstruction/ENOCPU.cpp'), ('WENOCPU', 'alsfvm/src/reconstruction/WENOCPU.cpp'), ('MC, MM, WENO2, WENOF2', 'alsfvm/include/alsfvm/reconstruction'), ('tecno::ENOCPU', 'alsfvm/src/reconstruction/tecno/ENOCPU.cpp')],
     'Proved for all sizes; the coefficients are compared with the derivative of the Lagrange interpolant of the primitive function.')
prop('P06', 'Output schedule: save times hit exactly and once; time averages weighted right',
     'For every save interval, step history and requested time steps: the fixed interval writers and statistics never let a step pass the next save time, save the current state once at each multiple of the interval (counted from the start) and in order, save the initial state exactly if requested, and statistics start over for each sample; the coarse graining writer does the same for the groups of states around each save time. Time averages (writer and functional) weight each state by the part of its step that lies inside the averaging window, do not change the state, and are written once, at the centre of the window; a functional writer evaluates its functional on a cleared volume with weight one at each save time.',
     ['histories', 'inputs', 'configurations'], 'all step histories, intervals, windows, start times and requested time steps',
     'Tests drive one writer through one uniform sequence of steps; the step that would pass a save time, the first step of a window, a second sample or an initial state that is not requested need other histories.',
     ['alsfvm/src/io', 'alsfvm/src/functional', 'alsuq/src/stats/FixedIntervalStatistics.cpp'],
     [('FixedIntervalWriter::write, adjustTimestep', 'alsfvm/src/io/FixedIntervalWriter.cpp'), ('CoarseGrainingIntervalWriter', 'alsfvm/src/io/CoarseGrainingIntervalWriter.cpp'), ('TimeIntegratedWriter::write', 'alsfvm/src/io/TimeIntegratedWriter.cpp'), ('TimeIntegrationFunctional', 'alsfvm/src/functional/TimeIntegrationFunctional.cpp'), ('FixedIntervalStatistics', 'alsuq/src/stats/FixedIntervalStatistics.cpp')],
     'Proved by induction over the steps with an arbitrary state of the writer.')
prop('P12', 'Ensemble statistics: every sample counts once, on any number of processes',
     'Mean and variance, moments, total variation and functional statistics add each sample exactly once, per time and per variable (the sample, its square, its p-th power, its variation in the right direction, its functional with the right weight); the combination is the sum over all processes divided by the number of samples, the variance is the second moment minus the squared mean, and each statistics is written once per time to its writers, by the first process, after it was combined and finalized. Results of another size than the solution start from zero, keep their size and are written with a grid of that size. The load balancer gives each group of processes its own equal block of the samples, the blocks partition the samples, processes of one block share a spatial communicator and corresponding processes of the blocks a statistical one; work that cannot be divided evenly is refused. Every sample is run under its own number with its own random parameters, from its initial state to its end, with all statistics attached; component c of sample s of a D-dimensional parameter is the draw s*D+c of the generator, mapped linearly to the interval of the distribution.',
     ['inputs', 'histories', 'configurations'], 'all sample values, ensemble sizes, process counts, splittings, dimensions of the random parameters',
     'Tests run one small ensemble on one process; accumulation over samples, several times, other splittings over processes and skipped draws are not exercised.',
     ['alsuq/src/stats', 'alsuq/src/mpi', 'alsuq/src/samples', 'alsuq/src/generator', 'alsuq/src/distribution', 'alsuq/src/run/Runner.cpp'],
     [('MeanVariance, OnePointMoment, BoundedVariation, FunctionalStatistics', 'alsuq/src/stats'), ('StatisticsHelper::combineStatistics', 'alsuq/src/stats/StatisticsHelper.cpp'), ('SimpleLoadBalancer::loadBalance', 'alsuq/src/mpi/SimpleLoadBalancer.cpp'), ('STLMersenne::generate', 'alsuq/src/generator/STLMersenne.cpp'), ('Runner::run', 'alsuq/src/run/Runner.cpp')],
     'Proved by induction over the samples; MPI calls are given by their meaning; the runner is proved for lists of up to three samples (bounded in the length of the list only).')
prop('P11', 'Domain decomposition and halo exchange: blocks tile the grid, ghosts match',
     'The Cartesian decomposition gives every process an equal block of the global grid: the blocks tile it (size, global position, corners, cell lengths), a grid that does not divide evenly is refused, the neighbour across an inner side (or a periodic outer side cut over several processes) is the process that owns the adjacent block and that side is left to the exchange, an outer side keeps its boundary condition and has no neighbour. For every size, ghost width and dimension the exchange sends, for each variable, exactly the layer of inner cells next to each side that has a neighbour and receives exactly into the ghost cells of that side; what is sent across a side carries the tag under which the neighbour receives it across its opposite side, messages between the same two processes differ in their tags, and the end of every transfer is awaited. The maximum over processes is the maximum of all their values. Cells of a grid fill its box: equal lengths, midpoints at origin + (i+1/2) h, two sides per axis.',
     ['inputs', 'configurations'], 'all process grids, ranks, block sizes (at least two cells and the ghost width per cut direction), ghost widths, dimensions, sides and boundary conditions',
     'Tests run a few fixed decompositions; a wrong row stride, a missing segment, swapped tags or a neighbour off by one at a wrap-around shows only for other sides, sizes or ranks.',
     ['alsfvm/src/mpi', 'alsfvm/include/alsfvm/mpi/cartesian', 'alsfvm/src/grid/Grid.cpp'],
     [('CartesianDecomposition::decompose', 'alsfvm/src/mpi/domain/CartesianDecomposition.cpp'), ('CartesianCellExchanger::exchangeCells', 'alsfvm/src/mpi/CartesianCellExchanger.cpp'), ('computeDisplacements, computeLengths, computeNumberOfSegments', 'alsfvm/include/alsfvm/mpi/cartesian'), ('Grid', 'alsfvm/src/grid/Grid.cpp')],
     'The MPI calls are given by their meaning (recorded types, buffers, peers, tags); delivery by a real MPI library is assumed.')
prop('P13', 'Small vectors, matrices, powers and Legendre polynomials compute what they say',
     'The algebra under every kernel is exact over the reals: vectors of one to six components (construction, conversion, sum, difference, quotient, product with scalars and integers, dot product, equality, norm), matrices (product with vectors and matrices, transpose, identity, normalised columns), integer powers and general powers, and the Legendre polynomials of degree 0 to 11 as given by the formula of Rodrigues. The states of the equations (conserved and primitive) are such vectors of their components (sum, difference, multiple, quotient, numbering, equality), and views on a volume select the variable of the given number or name.',
     ['inputs'], 'all component values, all sizes in use, all arguments',
     'Tests evaluate single values; a component dropped in one size or operator, or a polynomial right at a few points only, passes them.',
     ['alsutils/include/alsutils'],
     [('vec1..vec6', 'alsutils/include/alsutils'), ('matrix', 'alsutils/include/alsutils/matrix.hpp'), ('legendre, FastPower, PowPower', 'alsutils/include/alsutils/math')],
     'The length of the columns of a matrix uses the single precision square root, taken as exact.')
prop('P14', 'Functionals and structure functions equal their defining sums',
     'For every state, grid, ghost width and weight the functionals add (never overwrite) weight times their definition and leave the state alone: moment (value^p per cell), identity, Legendre polynomials per cell or integrated over two dimensional grids (other grids are refused), bounded variation (p-th power of the gradient jumps of the inner cells, at most two dimensions) and directional variation, logarithmic entropy of the Euler equations integrated over the inner cells, and the structure functions: mean p-th power of the jump over each distance along an axis, or over the surface of the cube of that distance, each point of which counts once. States outside the grid are continued by its boundary condition. The structure statistics add the same sums per sample, the two point statistics the mean product of the jumps along its two directions; mixed boundary conditions are refused where one formula cannot serve.',
     ['inputs', 'configurations'], 'all states, grid sizes, ghost widths, weights, exponents, numbers of distances and directions',
     'Tests compare a few functions on one grid, mostly in one dimension with weight one; other axes, boundary conditions, repeated accumulation and the corners of the cube are never seen.',
     ['alsfvm/src/functional', 'alsfvm/include/alsfvm/functional', 'alsuq/src/stats'],
     [('Moment, Identity, Legendre, LegendrePointWise, BoundedVariation, LogEntropy, StructureBase, StructureCube', 'alsfvm/src/functional'), ('computeStructureCube, forEachPointInComputeStructureCube', 'alsfvm/include/alsfvm/functional/structure_common.hpp'), ('StructureBasic, StructureTwoPoints', 'alsuq/src/stats'), ('HostMemory::getTotalVariation', 'alsfvm/src/memory/HostMemory.cpp')],
     'The Legendre polynomials of boost are assumed to be functions of degree and point; cube sums of the largest size are proved per distance by induction over the cells.')
