AI = 'abstract interpretation to algebraic normal forms'

prop('P01', 'Runge-Kutta tables satisfy every order condition of their nominal order',
     'The coefficient tables of rk3, rk4, rk5, rk6, rk8, rk10, rk12 and rk14 are explicit, every stage time is the sum '
     'of its row, and all rooted-tree order conditions up to the order in the name hold to 1e-12.',
     ['configurations', 'inputs'], 'every scheme name and every smooth right-hand side (through its elementary differentials)',
     'Tests run only rk4 and rk8 on one step size pattern; a wrong digit in a table passes a fixed-tolerance comparison.',
     ['dg1d/rk_coeffs.py'], [{'name': 'get_*_coefficients', 'where': 'dg1d/rk_coeffs.py'}],
     'exact partial evaluation of the tables + enumeration of all rooted trees',
     'Complete up to the nominal order for the tables in the source; tolerance 1e-12.')

prop('P02', 'Each time integrator performs exactly the step its coefficient table defines',
     'For every integrator name (rk3 to rk14, low_storage_rk4, and any unrecognised name, which means classical RK4) each '
     'completed step maps the solution u to u + sum c_k K_k with K_k = dt * residual(u + sum beta_kj K_j), advances the '
     'time by dt and the step counter by one, independently of anything left from earlier steps.',
     ['inputs', 'histories', 'configurations'],
     'any initial solution, any spatial operator, any number of earlier steps, any limiter-free run',
     'Tests only compare six final solutions with stored ones for rk4/rk8; stage coupling, stale storage and the other six integrators are never run.',
     ['dg1d/rk.py', 'dg1d/rk_coeffs.py', 'dg1d/solution.py'],
     [{'name': 'integrate, classic_rk, low_storage_rk4', 'where': 'dg1d/rk.py'}, {'name': 'copy_data_only, smart_axpy', 'where': 'dg1d/solution.py'}],
     AI + ' with loop havoc and an uninterpreted residual',
     'The residual is an arbitrary function of the interior coefficients only (ghost independence is P08).')

prop('P03', 'The limiter acts on every later stage and on every completed step',
     'With limiting on, every Runge-Kutta stage after the first is limited before its residual is evaluated, every '
     'completed step ends with the limited solution, and what is output or carried to the next step is that limited solution.',
     ['inputs', 'histories', 'configurations'], 'any integrator, any limiter operator, any step of any run',
     'Tests compare final states of six runs with rk4/rk8 to stored numbers.',
     ['dg1d/rk.py'], [{'name': 'limiter.limit calls', 'where': 'dg1d/rk.py'}],
     AI + ' with uninterpreted residual and limiter',
     'The limiter is an arbitrary function of the interior coefficients.')

prop('P04', 'Output schedule: nout outputs, equally spaced, last one at the final time',
     'A run with nout >= 2 writes output 0 at the start time before the first step, then outputs 1..nout-1 each exactly once and in order '
     'with the solution at the equally spaced times from start to final time, stepping exactly onto each of them and never past, '
     'and stops immediately after output nout-1 at the final time.',
     ['inputs', 'histories', 'configurations'], 'any step sizes, number of outputs, start and final time, integrator',
     'All regression decks use two outputs; a skipped or repeated intermediate output time depends on how step sizes fall.',
     ['dg1d/rk.py'], [{'name': 'get_next_time_step, adjust_for_output, time loops', 'where': 'dg1d/rk.py'}],
     'inductive loop invariant inferred from templates, checked by abstract interpretation',
     'The CFL step is an arbitrary positive number each step.')

prop('P05', 'The time step is the CFL step of the fastest wave; bad steps stop the run',
     'Before reduction for output the step is dx*cfl/((2p+1)*v) with v the maximum of |velocity| + sound speed over the '
     'cell averages of the whole domain (v = 1 for advection); a step below 1e-14 or not a number ends the program with an error.',
     ['inputs', 'configurations'], 'any admissible solution, dx, cfl, order and gamma',
     'Tests evaluate one wave speed on one short vector and never exercise the aborts.',
     ['dg1d/rk.py', 'dg1d/euler_physics.py', 'dg1d/advection_physics.py', 'dg1d/solution.py'],
     [{'name': 'cfl_time_step, sanity_check_dt', 'where': 'dg1d/rk.py'}, {'name': 'max_wave_speed', 'where': 'dg1d/euler_physics.py'}],
     AI + ' with symbolic reductions', 'Orders 0..4 (0..7 thorough); cell count symbolic.')

prop('P06', 'The residual is the DG weak form with boundary-condition ghosts',
     'For every polynomial order, cell, mode and field the residual equals (2m+1)/dx times the (p+1)-point Gauss quadrature of '
     'flux times derivative of Legendre mode m, minus the right interface flux plus (-1)^m times the left interface flux, '
     'where interface states are the solution evaluated at the two sides and cells beyond the ends follow the boundary condition; '
     'it does not change the interior solution and does not depend on earlier evaluations.',
     ['inputs', 'configurations', 'histories'], 'any coefficients, number of cells, order, system, flux function and boundary condition',
     'Tests check two helper methods on one small array.',
     ['dg1d/dg.py', 'dg1d/solution.py', 'dg1d/basis.py'],
     [{'name': 'DG.residual', 'where': 'dg1d/dg.py'}, {'name': 'collocate, evaluate_faces, apply_bc', 'where': 'dg1d/solution.py'}],
     AI + ' with uninterpreted fluxes, symbolic cell count', 'Orders 0..4 (0..6 thorough).')

prop('P09', 'Basis, quadrature and projection are the exact Legendre/Gauss ones',
     'For each order the quadrature integrates polynomials up to degree 2p+1 exactly, the tabulated values, weighted derivatives, face '
     'values, mass matrix and its inverse are those of the Legendre polynomials at those nodes, and the projection of a '
     'function onto a cell is the quadrature L2 projection on that cell; the polynomial shift and product-integral helpers are exact.',
     ['inputs', 'configurations'], 'any order, cell bounds, function to project and polynomial coefficients',
     'Tests compare one order with literal numbers.',
     ['dg1d/basis.py'], [{'name': 'Basis', 'where': 'dg1d/basis.py'}],
     AI + ' with exact algebraic numbers', 'Orders 0..5 (0..7 thorough); exact algebraic comparison.')

prop('P12', 'Fluxes are consistent with one ideal-gas flux, and the named solver is used',
     'For equal left and right states every interface flux (Rusanov, Roe, Godunov) equals the physical Euler flux, the interior flux is that same '
     'flux at every quadrature node for the current ratio of specific heats, advection uses the left value as interface flux and '
     'the solution as interior flux, and the flux a solution uses is the one named by its system and solver name (Roe when the name is unknown).',
     ['inputs', 'configurations'], 'any admissible state, any gamma > 1, any number of interfaces, any solver name',
     'Tests evaluate each flux for one or two sampled states with gamma 1.4.',
     ['dg1d/euler_physics.py', 'dg1d/advection_physics.py', 'dg1d/solution.py'],
     [{'name': 'riemann_*, interior_flux', 'where': 'dg1d/euler_physics.py'}, {'name': 'set_manipulation_functions', 'where': 'dg1d/solution.py'}],
     AI, 'States with positive density and pressure.')

prop('P13', 'The Rusanov and Roe fluxes are mirror symmetric',
     'Swapping left and right and reversing velocities changes the sign of the mass and energy flux and leaves the momentum '
     'flux unchanged, for the Rusanov and the Roe flux.',
     ['inputs'], 'any pair of admissible states, any gamma > 1',
     'Tests sample a handful of states; the entropy-fix branches need special states.',
     ['dg1d/euler_physics.py'], [{'name': 'riemann_rusanov, riemann_roe', 'where': 'dg1d/euler_physics.py'}],
     AI + ' + case analysis', 'Godunov is excluded: its contact tie-breaking is decided under P15.')

prop('P14', 'The Rusanov and Roe fluxes are the published formulas on every branch',
     'The Rusanov flux is the average of the physical fluxes minus half the larger |v|+a times the jump, and the Roe flux is the average minus half the '
     'sum of wave strengths times |eigenvalue| times eigenvectors at the Roe average, where the two acoustic eigenvalues use '
     "Harten's entropy fix w^2/D + D/4 when |w| < D/2 with D = max(0, 4(lambda_R - lambda_L)).",
     ['inputs'], 'any pair of admissible states and any gamma > 1, including those on the entropy-fix branches',
     'Sampled states do not reach every branch of the fix and use gamma 1.4 only.',
     ['dg1d/euler_physics.py'], [{'name': 'riemann_rusanov, riemann_roe', 'where': 'dg1d/euler_physics.py'}],
     AI + ' + case analysis', 'Exact real arithmetic; states with positive density and pressure.')

prop('P15', 'The Godunov flux follows the published exact Riemann iteration on all branches',
     'The Godunov flux takes the supersonic shortcuts, iterates the pressure by the mass-flux fixed point from the published guess until successive values differ by less than 1e-6, '
     'stops the program if that fails, and evaluates the flux at the sampled state on the interface: '
     'left, right, star or sonic point, upwinded on the contact velocity.',
     ['inputs'], 'any pair of admissible states and any gamma > 1',
     'Tests sample three shock-tube states; rarefaction fans over the interface, vacuum-like and failing iterations are not sampled.',
     ['dg1d/euler_physics.py'], [{'name': 'riemann_godunov, massflux, sonic', 'where': 'dg1d/euler_physics.py'}],
     AI + ' with an arbitrary loop iterate', 'Assumes the accepted pressure iterate is positive. Convergence of the iteration itself is not claimed.')


prop('P07', 'Conservation: only boundary fluxes change the total of each conserved variable',
     'Summed over the cells, dx times the cell-average residual of every conserved variable is exactly the flux through the left '
     'end minus the flux through the right end (zero when periodic), for any coefficients, system, flux, enhancement and boundary condition; '
     'every Runge-Kutta step and the limiter preserve cell averages when the residual has none.',
     ['inputs', 'configurations'], 'any coefficients, number of cells, order, system, flux function, enhancement and boundary condition',
     'Tests never sum a residual; a flux used with two different values on the two sides of an interface shows only in a long-run drift.',
     ['dg1d/dg.py', 'dg1d/rk.py', 'dg1d/limiting.py', 'dg1d/enhance.py'],
     [{'name': 'DG.residual', 'where': 'dg1d/dg.py'}, {'name': 'integrate', 'where': 'dg1d/rk.py'}, {'name': 'limit', 'where': 'dg1d/limiting.py'}],
     AI + ': each interface flux must enter its two cells with opposite signs (telescoping)', 'Orders 0..3 (0..5 thorough).')

prop('P08', 'Boundary conditions fill the ghost cells; stale ghosts are never read',
     'apply_bc fills all modes of each ghost cell from the interior: a periodic side gets a copy of the cell at the opposite end, a zerograd side a copy of the adjacent cell, each side by its own condition; '
     'any other name ends the program with an error. Names are compared by value, the interior is untouched, and residual, limiter and time steps never depend on what the ghost cells held before.',
     ['inputs', 'histories', 'configurations'], 'any coefficients, previous ghost contents, number of cells and pair of boundary conditions',
     'Tests use literals in one process, where equal names are the same object, and never pre-fill ghosts with stale data.',
     ['dg1d/solution.py', 'dg1d/dg.py', 'dg1d/rk.py', 'dg1d/limiting.py'],
     [{'name': 'apply_bc', 'where': 'dg1d/solution.py'}, {'name': 'adaptive_hr', 'where': 'dg1d/limiting.py'}],
     AI + ' with distinct symbols for stale ghosts', 'Orders 0..3 (0..5 thorough).')

prop('P10', 'A new solution has the uniform mesh and layout of its named problem',
     'A solution built for a named problem covers that problem\'s domain with the requested number of equal cells: edges, centres, cell size, '
     'coefficient array with one ghost cell at each end, scaled inverse mass matrix, time and step zero. An unknown problem name gives an empty '
     'solution (as the loader needs), and a shock tube with the wrong number of parameters stops the program with an error.',
     ['inputs', 'configurations'], 'any number of cells, every problem name, order and system',
     'Tests construct three solutions at one resolution.',
     ['dg1d/solution.py'], [{'name': 'Solution.__init__', 'where': 'dg1d/solution.py'}],
     AI, 'Orders 0, 1, 3 (0..5 thorough); the number of cells is symbolic.')

prop('P11', 'Initial states are the documented functions projected onto each cell',
     'For every problem name, each cell\'s coefficients are the (p+1)-point Gauss projection of the documented initial state on that cell, and the boundary '
     'conditions and ratio of specific heats are those of the problem, also when other solutions were created before.',
     ['inputs', 'configurations', 'histories'], 'any number of cells, any cell, problem name, order, shock-tube parameters and earlier solutions',
     'Tests evaluate a few cells at one resolution; the ramps, jumps and the gamma of each problem are not all visited.',
     ['dg1d/solution.py', 'dg1d/constants.py', 'dg1d/basis.py'],
     [{'name': 'sinewave, ictest, simplew, entrpyw, acsticw, scktube, shuoshe', 'where': 'dg1d/solution.py'}, {'name': 'populate', 'where': 'dg1d/solution.py'}],
     AI, 'Orders 0..2 (0..4 thorough); order 0 is compared as a function of the position.')

prop('P17', 'Shock sensors flag exactly the cells their thresholds define',
     'With s(x) = 2x/(1+x)^2, advection flags an interior cell with 1 when s of the jump of averages at one of its faces exceeds the threshold. Euler flags 1 (contact) when s of the '
     'density jump not explained by the pressure jump, relative to the density sum, exceeds the first threshold at a face; 2 (shock, which wins) when s of the relative pressure jump exceeds the '
     'second and the left state, Roe and right state wave speeds v-a decrease; else 0. Earlier flags do not matter and the solution is not changed.',
     ['inputs', 'histories'], 'any admissible averages, thresholds, gamma, number of cells and earlier flags',
     'Tests check one short array with fixed thresholds.',
     ['dg1d/sensor.py', 'dg1d/euler_physics.py', 'dg1d/advection_physics.py'], [{'name': 'Sensor.sensing', 'where': 'dg1d/sensor.py'}, {'name': 'sensing', 'where': 'dg1d/euler_physics.py'}],
     AI + ' with a symbolic number of cells', 'Flags of ghost cells are not observable and are not checked.')

prop('P18', 'Limiting acts on flagged cells only, from unlimited neighbours',
     'The adaptive_hr limiter leaves every cell whose flag is zero exactly alone and replaces each flagged cell by the reconstruction from the values it and its two neighbours had '
     'before limiting (so the order of cells does not matter), keeps every cell average, ignores earlier uses, and any other limiter name leaves the solution unchanged.',
     ['inputs', 'histories', 'configurations'], 'any coefficients, number of cells, order, flags, limiter name and earlier uses of the limiter',
     'Tests limit one small solution once.',
     ['dg1d/limiting.py', 'dg1d/sensor.py'], [{'name': 'Limiter.limit, adaptive_hr', 'where': 'dg1d/limiting.py'}],
     AI + ' with a symbolic number of cells', 'The flags and the reconstruction are uninterpreted (decided in P17 and P19); orders 0..2 (0..4 thorough).')

prop('P19', 'Flagged cells are limited by hierarchical reconstruction with minmod',
     'The limited coefficients of a flagged cell are the hierarchical reconstruction of it and its neighbours: from the highest derivative down, each Taylor coefficient is the minmod of the two '
     'one-sided differences of cell averages of the derivative, corrected by the average of the already reconstructed higher terms. minmod is zero on sign disagreement and otherwise the argument of least magnitude; '
     'cell averages are kept and a polynomial of degree p shared by the three cells is unchanged.',
     ['inputs', 'configurations'], 'any coefficients of a cell and its neighbours, any order and system',
     'Tests compare two literal arrays at p=2.',
     ['dg1d/limiting.py', 'dg1d/helpers.py', 'dg1d/basis.py'],
     [{'name': 'hr, c_omega, minmod', 'where': 'dg1d/limiting.py'}, {'name': 'integrate_legendre_product', 'where': 'dg1d/basis.py'}],
     AI + ' against a Taylor-series reference of hierarchical reconstruction', 'Orders 0..4 (0..6 thorough).')

prop('P21', 'Enhanced interface values and fluxes use the named enhancement',
     'With enhancement "icb m1 m2 ..." the two interface values of a cell are the end values of the polynomial of degree p + number of listed modes that shares the cell\'s own modes and, on the neighbour '
     'beyond that face, the neighbour\'s listed modes, in whatever order they are listed; the residual uses these values, with no enhancement the plain face values are used, '
     'and a copied solution keeps its enhancement.',
     ['inputs', 'configurations'], 'any coefficients, number of cells, order, enhancement name and boundary condition',
     'Tests compare a few matrices with literals.',
     ['dg1d/enhance.py', 'dg1d/solution.py', 'dg1d/dg.py'],
     [{'name': 'Enhance, enhancement_matrices, left_right_enhancement', 'where': 'dg1d/enhance.py'}, {'name': 'evaluate_faces', 'where': 'dg1d/solution.py'}],
     AI + ' with exact algebraic numbers', 'Orders up to 4; symbolic number of cells.')

prop('P22', 'What is printed is what is loaded back, and it restarts to the same residual',
     'printer writes one file per field with the documented name, header and one full-precision row per interior cell (plus sensor flags when sensors are on), '
     'and loader on those files restores time, step count, boundary conditions, mesh and every interior coefficient, so that the residual of the loaded solution is that of the printed one.',
     ['inputs', 'configurations'], 'any coefficients, time, step, output number, order, number of cells (at least 2), system and boundary conditions',
     'Tests compare one final file; restart is never run.',
     ['dg1d/solution.py'], [{'name': 'printer, loader, format_fname', 'where': 'dg1d/solution.py'}],
     AI + ' with symbolic strings and abstract files', 'numpy savetxt/loadtxt are modelled; 19 significant digits are taken to round-trip.')

prop('P24', 'A deck file sets exactly what it names',
     'Parsing a deck sets each setting named in it (system, scheme, flux, initial condition with its parameters, number of outputs, final time, CFL number, order, limiter, enhancement, '
     'sensor thresholds) to the value on the line after its keyword, whatever the order of the entries and with or without a final newline, and leaves every other setting at its documented '
     'default; decks do not affect one another, and a written deck parses back to the same settings.',
     ['inputs', 'histories'], 'any values, any order and subset of entries, any earlier decks',
     'Tests parse one deck with every entry in one order.',
     ['dg1d/deck.py'], [{'name': 'Deck.parser, Deck.write_deck', 'where': 'dg1d/deck.py'}],
     AI + ' with symbolic strings and abstract files', 'Entries are tried alone, all together in several orders, and (thorough) in every ordered pair.')

prop('P25', 'The program integrates the solution, scheme and limiter its deck names',
     'Run on a deck, main.py integrates exactly once: the initial state, system, order, enhancement and sensors the deck names, to the deck\'s final time with its CFL number, number of outputs and '
     'Runge-Kutta scheme, with the residual of the named Riemann solver and the named limiter; the deck is the file given on the command line, deck.inp when none is given, inside or outside of a git repository. A missing deck, an unknown initial condition or an integration that fails never ends as a success.',
     ['inputs', 'configurations'], 'any number of cells, final time, CFL number, outputs and thresholds; every system, flux, limiter and enhancement setting',
     'Regression decks run a handful of combinations (rk4 and rk8, p=1..3, adaptive_hr) at fixed sizes.',
     ['dg1d/main.py', 'dg1d/deck.py', 'dg1d/dg.py', 'dg1d/solution.py', 'dg1d/limiting.py'], [{'name': 'module body of main.py', 'where': 'dg1d/main.py'}],
     AI + ' of the whole program up to the integrator', 'Ten decks covering every setting at low orders; where a rewritten program is not understood for any number of cells it is analysed with four.')

prop('P26', 'A uniform flow stays uniform',
     'On a state that is the same everywhere, the residual vanishes for every system, flux, boundary condition, enhancement and mesh, the limiter and the sensors change nothing and '
     'flag no cell, and so a step keeps the state.',
     ['inputs', 'configurations'], 'any admissible uniform state, thresholds (zero included), ratio of specific heats, number of cells and mesh width',
     'No test integrates a uniform state.',
     ['dg1d/dg.py', 'dg1d/euler_physics.py', 'dg1d/advection_physics.py', 'dg1d/limiting.py', 'dg1d/sensor.py'],
     [{'name': 'DG.residual', 'where': 'dg1d/dg.py'}, {'name': 'riemann_*', 'where': 'dg1d/euler_physics.py'}],
     AI + ' with exact algebra; every atom of the residual must cancel', 'Orders 0..2 (0..3 thorough); real arithmetic.')

prop('P27', 'Solutions, copies and their solvers do not interfere',
     'Building, using or overwriting one solution, its copy, its DG solver or its limiter never changes the coefficients, time, boundary conditions, sensor flags, thresholds or residual of another '
     '(of the same gas: the ratio of specific heats is shared by the process), whatever their orders, systems and enhancements and in whatever order they are built and used, '
     'and the coefficients of one integration are not changed by an earlier one.',
     ['histories', 'configurations'], 'any coefficients; pairs of solutions of different order, system, enhancement and boundary conditions in several histories',
     'Tests use one solution at a time.',
     ['dg1d/solution.py', 'dg1d/dg.py', 'dg1d/limiting.py', 'dg1d/enhance.py', 'dg1d/sensor.py', 'dg1d/basis.py', 'dg1d/rk_coeffs.py'],
     [{'name': 'Solution.copy', 'where': 'dg1d/solution.py'}, {'name': 'DG, Limiter, Enhance, Sensor, Basis', 'where': 'dg1d'}],
     AI + ' with an abstract heap (aliasing between objects is followed exactly)', 'Five pairs of configurations (nine thorough); symbolic number of cells.')

prop('P29', 'The convergence study runs the solver on the problems it names',
     'advection_convergence/run.py makes a directory <order>/<resolution> for each resolution, starts the solver of this repository in it, and waits for it, on a deck that parses back to the '
     'sine wave of that order and number of cells, an existing Runge-Kutta scheme, no limiter, a final time of whole periods and eleven outputs, with its output in logfile there; '
     'it removes nothing but the results of the orders it is about to run.',
     ['configurations', 'histories'], 'the files, directories and processes of every resolution of the study',
     'The study has no tests.',
     ['advection_convergence/run.py', 'dg1d/deck.py'], [{'name': 'module body, runcode', 'where': 'advection_convergence/run.py'}, {'name': 'write_deck', 'where': 'dg1d/deck.py'}],
     AI + ' of the script with its working directory, files and processes followed as effects', 'Directory and process calls are modelled, nothing is executed.')

prop('P30', 'The plot shows the solution it loaded',
     'In one figure per field, plot.py draws the quadrature nodes and the edges of every interior cell of the loaded output at their positions with the values of that solution there '
     '(density, velocity and pressure for Euler, in a gas with ratio of specific heats 1.4), and no ghost cell; the sensors of that output are drawn at the cell centres when sensor files exist and never otherwise.',
     ['inputs', 'configurations'], 'any coefficients on meshes of four cells at orders 0..3 (0..5 thorough) and of up to forty cells at order 0, both systems, with and without sensors',
     'The plotting tool has no tests.',
     ['dg1d/plot.py', 'dg1d/solution.py'], [{'name': 'module body', 'where': 'dg1d/plot.py'}, {'name': 'loader, collocate, evaluate_faces', 'where': 'dg1d/solution.py'}],
     AI + ' of the script on abstract files, with the drawing calls recorded', 'Small meshes; curves of more than 60 points (the reference solution) are not judged.')

prop('P31', 'The convergence plot shows the error and run time of every run',
     'For each order of the study, advection_convergence/plot.py draws, for every resolution with a directory, in increasing number of cells, the L2 norm of the change of the cell averages from '
     'output 0 to output 10 (up to one factor common to all runs) over the number of cells, with a line of slope 2p+1 through the first error, and in another figure the same errors over the elapsed '
     'seconds in the log of the run, however long it took; nothing else is drawn.',
     ['inputs', 'configurations'], 'any contents of the outputs and logs, directories listed in any order, runs shorter and longer than a day',
     'The study has no tests.',
     ['advection_convergence/plot.py'], [{'name': 'module body, error_norm, get_timer', 'where': 'advection_convergence/plot.py'}],
     AI + ' of the script on abstract files, with the drawing calls recorded', 'Two or three resolutions of at most 16 cells per order.')

na('P40', 'Smooth solutions converge at the design order',
   'On smooth problems the error against the exact solution falls like dx^(p+1) (or better with enhancement) in space and like dt^q for a scheme of order q in time.',
   ['inputs', 'configurations'], 'every smooth initial state, order, scheme and sequence of meshes',
   'Regression decks compare one run with a stored one.',
   ['dg1d/dg.py', 'dg1d/rk.py'], [{'name': 'DG.residual', 'where': 'dg1d/dg.py'}],
   'A statement about the limit of many steps on ever finer meshes: it needs a stability and approximation proof for the assembled scheme, not facts of the source. Its ingredients that are '
   'decidable from the source are claimed instead: order conditions (P01), the step (P02), the weak form (P06), projection and quadrature (P09), fluxes (P12 to P15).')
na('P41', 'Runs at the documented CFL number stay bounded and physical',
   'A run whose time step is the CFL step never produces unbounded values, and density and pressure stay positive.',
   ['inputs', 'histories'], 'every initial state and number of steps',
   'Seven regression problems are run.',
   ['dg1d/rk.py', 'dg1d/euler_physics.py', 'dg1d/limiting.py'], [{'name': 'cfl_time_step', 'where': 'dg1d/rk.py'}],
   'Not true of the method for every input (there is no positivity limiter) and where true it depends on accumulated runtime values no sound static bound reaches; what the code does about it, '
   'stopping on an absurd step, is claimed in P05.')
na('P42', 'Results are accurate to rounding error',
   'Conservation, uniform flow and output times hold to a small multiple of machine precision after any number of steps, and repeated runs are bitwise equal.',
   ['inputs', 'histories'], 'every run',
   'Tests compare with tolerances on short runs.',
   ['dg1d/rk.py', 'dg1d/dg.py'], [{'name': 'integrate', 'where': 'dg1d/rk.py'}],
   'The analysis decides identities over the reals; rounding analysis of data dependent iteration counts, numpy reductions and a linear solver has no sound static bound of useful size here.')
na('P43', 'Every run ends in reasonable time',
   'A run with valid settings ends after finitely many steps, with memory proportional to the number of unknowns.',
   ['inputs', 'histories'], 'every run',
   'Tests run small problems.',
   ['dg1d/rk.py'], [{'name': 'integrate', 'where': 'dg1d/rk.py'}],
   'The number of steps depends on the wave speeds met at run time; the lower bound on the step (P05), progress of the output schedule and exit at the final time (P04) are claimed, the count is not boundable.')
