SOLVE_ASSUME = ['single MPI rank; ranks of a parallel run are not executed concurrently',
                'numerical comparisons use relative tolerances (1e-7 where results should be bit-equal up to solver tolerance)']

prop('S01', 'A killed 2D run continued from an export is the uninterrupted run',
     'However often and wherever a depth-averaged run is killed (inside a time step or forcing update, between steps, in the middle of writing output), continuing it from any export that is complete on disk reproduces the uninterrupted run: '
     'same restored elevation, velocity, tracers, suspended sediment, bed level and non-hydrostatic fields, time, iteration count and export number, same later states, same later export times and files, same end. '
     'Every export whose write has returned is complete and readable afterwards, an export that was cut short never appears as a complete one, and continuing in another directory or on the mesh read from an export makes no difference.',
     ['crash_points', 'histories', 'fault_sequences', 'configurations'],
     'for every time integrator of the 2D solver, time step/export interval/end time or end date combination, kill point, disk fault, sequence of kills and choice of export to continue from',
     'No upstream test calls load_state; tests run to completion, so no crash point and no history of continued runs is ever reached.',
     ['thetis/solver2d.py', 'thetis/exporter.py', 'thetis/timeintegrator.py', 'thetis/rungekutta.py'],
     [('FlowSolver2d.load_state', 'thetis/solver2d.py'), ('FlowSolver2d.create_iterator', 'thetis/solver2d.py'), ('HDF5Exporter.export/load', 'thetis/exporter.py'), ('read_mesh_from_checkpoint', 'thetis/utility.py')],
     ['state, time, iteration and export number after load_state and after every step', 'files in outputs/hdf5'],
     'an execution counts as non-trivial when at least one life was continued from an export written by an earlier, interrupted life',
     [REAL_SOLVE], [STUB_DISK, STUB_KILL, 'user forcing: a volume source that depends on time only'],
     SOLVE_ASSUME,
     'Seeded search over kill points, disk faults and restart histories; the oracle is the uninterrupted run of the same code plus the arithmetic of the export schedule. No exhaustiveness.',
     (220, 80), (4000, 800),
     state=[('solution_2d', 'prognostic state', 'thetis/solver2d.py'), ('simulation_time/iteration/i_export/next_export_t', 'clock', 'thetis/solver2d.py')])

prop('S02', 'A killed 3D run carries its stored state and clock across a restart',
     'After any sequence of kills, a 3D run continued from any export that is complete on disk starts with exactly the elevation, depth-averaged velocity, total 3D velocity, tracers and turbulence fields that were exported, at the right time, iteration and export number. '
     'From there its steps, later export numbers and times and its end are those of the uninterrupted run, its fields stay close to it, and continuing twice from the same files gives the same run.',
     ['crash_points', 'histories', 'fault_sequences', 'configurations'],
     'for both 3D time integrators, fixed and moving meshes, with and without salinity and turbulence closure, every kill point, disk fault and restart history',
     'No upstream test restarts a 3D run (loading any 3D field failed outright before the fix); crash points and restart histories are not reached.',
     ['thetis/solver.py', 'thetis/exporter.py', 'thetis/coupled_timeintegrator.py'],
     [('FlowSolver.load_state', 'thetis/solver.py'), ('FlowSolver.export', 'thetis/solver.py'), ('FlowSolver.iterate', 'thetis/solver.py'), ('HDF5Exporter.load', 'thetis/exporter.py')],
     ['fields, time, iteration and export number after load_state and after every step'],
     'an execution counts as non-trivial when at least one life was continued from an export written by an earlier, interrupted life',
     [REAL_SOLVE], [STUB_DISK, STUB_KILL],
     SOLVE_ASSUME + ['the 2D/3D coupling residual is not among the documented state variables, so the continued trajectory is compared with a loose tolerance (15 % velocity/elevation, 0.5 % salinity; observed below 2 % and 0.03 %)'],
     'Seeded search; restored state compared with what the writing life recorded (1e-9), clock against the uninterrupted run, repeatability to 1e-10.',
     (120, 100), (3000, 800))

prop('S03', 'Time advances exactly and exports happen exactly when they are due',
     'Whatever the time step, export interval, start, end and sequence of runs, continuations, abandoned iterators and restarts, the clock after n steps is start + n*dt without drift, iteration and export counters advance by one per step and export, and the run ends at the first step at or past the end time. '
     'An export happens after the first step at or past each multiple of the export interval and never otherwise, carries that time and the next number, and forcings are asked for only within the step being taken.',
     ['histories', 'configurations'],
     'for all combinations of time step and export interval (including non-multiples and inexactly representable ones), end times or end dates in any zone, and sequences of segments',
     'Tests use one run with one friendly time step; non-multiples, binary-inexact steps, long runs and re-entered loops are not sampled.',
     ['thetis/solver2d.py', 'thetis/solver.py'],
     [('FlowSolver2d.create_iterator', 'thetis/solver2d.py'), ('FlowSolver.iterate', 'thetis/solver.py'), ('load_state bookkeeping', 'thetis/solver2d.py, thetis/solver.py')],
     ['simulation_time, iteration, i_export, exporter calls, callback times, yielded times'],
     'an execution counts as non-trivial when it takes at least two steps and at least one export after the initial one',
     ['time loop, export scheduling, callbacks and load_state bookkeeping of thetis/solver2d.py and thetis/solver.py'],
     ['the time integrator (a stand-in that only records the forcing times)', 'PDE assembly'],
     ['reference arithmetic is exact (rational numbers) with the documented 1e-5 s loop tolerance'],
     'Seeded search over configurations and segment histories against an exact-arithmetic reference clock.',
     (250, 60), (6000, 800))

prop('S04', 'Every integrator advances with the forcing of the right instant',
     'For any history of steps, step-size changes, state changes between steps, re-initialisations, forcing changes, Picard iterations and restarts, one step of each time integrator equals one step of its published scheme, with time-dependent 2D and 3D forcing evaluated at the instants that scheme prescribes. '
     'Forcing callbacks are invoked only with times inside the step being taken.',
     ['histories', 'inputs', 'configurations'],
     'for every time integrator class reachable in the 2D model, the coupled split-explicit integrators of the 3D model and all library Runge-Kutta and IMEX schemes, implicitness and linearisation option, forcing signal and operation history',
     'Convergence tests see one smooth forcing, a constant step and an uninterrupted run; a first-order error in the forcing instant or stale forcing after a restart stays within their tolerances.',
     ['thetis/timeintegrator.py', 'thetis/rungekutta.py', 'thetis/implicitexplicit.py', 'thetis/coupled_timeintegrator_2d.py'],
     [('advance/advance_picard', 'thetis/timeintegrator.py'), ('solve_stage/solve_tendency', 'thetis/rungekutta.py'), ('IMEXGeneric.solve_stage', 'thetis/implicitexplicit.py'), ('update_fields_old', 'thetis/timeintegrator.py')],
     ['solution after every step', 'times passed to update_forcings'],
     'an execution counts as non-trivial when more than one step is taken',
     ['all time integrators of thetis, Equation/Term, the 2D solver and tracer equations for the solver-level runs; Firedrake/PETSc solves'],
     ['the spatial problem: a nodewise ODE with decay, drag-like and source terms (direct runs), a closed basin at rest with a uniform source (solver runs)'],
     ['Butcher tableaux in the reference are copied from the cited papers; linear/nonlinear solves are run with tight tolerances',
      'the semi-nonlinear linearisation of the plain DIRK classes is not exercised with nonlinear terms'],
     'Seeded search over operation histories, nodewise comparison (3e-7) with an independent numpy implementation of each scheme.',
     (700, 75), (20000, 800))

prop('S05', 'Diagnostic files hold each evaluation exactly once, in time order',
     'After any history of evaluations, evaluation windows, I/O errors, kills and continued runs, a diagnostic time-series file holds exactly one entry per evaluation that took place, in time order and with the evaluated values and time; only rank 0 writes. '
     'A failed evaluation leaves no entry and no file that cannot be read; a kill can at most leave the one entry being written incomplete, and a continued run replaces it and everything it repeats, in the same or a new directory.',
     ['crash_points', 'fault_sequences', 'histories'],
     'for every sequence of evaluations, fault at every disk operation, kill and continuation, array shape, precision and evaluation window',
     'Callback tests evaluate a run once, never fail an I/O call and never continue a file.',
     ['thetis/callback.py', 'thetis/solver2d.py', 'thetis/solver.py'],
     [('DiagnosticHDF5', 'thetis/callback.py'), ('DiagnosticCallback.evaluate/set_write_mode', 'thetis/callback.py'), ('append mode of continued runs', 'thetis/solver2d.py, thetis/solver.py')],
     ['diagnostic_*.hdf5 read back independently'],
     'an execution counts as non-trivial when a disk fault or kill fired or a file was continued by a later life',
     ['DiagnosticHDF5, DiagnosticCallback, CallbackManager; h5py; whole 2D and 3D solvers in the solver-mode runs'],
     [STUB_DISK, STUB_KILL, 'the solver object in direct-mode runs (time, options and communicator only)'],
     ['HDF5 library buffering across a kill is represented by what the OS file holds at the frozen instant', 'files without a time stamp are only required to be right within one life'],
     'Seeded search; every file compared with a small reference model after each life.',
     (500, 60), (8000, 800))

prop('S06', 'Exports hold the field as it was, under its own number, and change nothing',
     'Whatever the sequence of exports, re-numberings, loads, new or re-created exporters, failing preprocessors, disk errors and crashes, every export that succeeded is on disk under its own number and holds exactly the values, name, time stamp and initial date at the time of the call, as HDF5 and as visualisation file listed in its collection; loading it returns those values. '
     'No export changes the model state, successful or not; a failed one is reported with its own error, consumes no number, harms no earlier export and can be repeated by setting the export number again.',
     ['histories', 'fault_sequences', 'crash_points', 'configurations'],
     'for every sequence of export-manager operations and model exports (2D and 3D), field space, disk fault, crash point and failing preprocessor',
     'Tests write one export of each type and never fail an I/O call or a preprocessor, re-number, or read visualisation files back.',
     ['thetis/exporter.py', 'thetis/solver2d.py', 'thetis/solver.py'],
     [('ExportManager', 'thetis/exporter.py'), ('VTKExporter/HDF5Exporter', 'thetis/exporter.py'), ('FlowSolver.export', 'thetis/solver.py'), ('FlowSolver2d.export', 'thetis/solver2d.py')],
     ['.h5, .vtu and .pvd files read back independently', 'all fields of the model before and after an export', 'next_export_ix'],
     'an execution counts as non-trivial when an export failed or at least two exports succeeded',
     ['ExportManager, VTKExporter, HDF5Exporter; FlowSolver and FlowSolver2d export(); Firedrake VTK and checkpoint output'],
     [STUB_DISK, STUB_KILL, 'time stepping (fields are assigned between exports)'],
     ['a collection file (.pvd) whose own update was interrupted is not judged (written by Firedrake)', 'the collection lists the exports of the current exporter object only'],
     'Seeded search over operation and fault sequences; every file is compared with a recorded snapshot.',
     (600, 70), (12000, 800))

prop('S08', 'Every message reaches the log file of the moment once and in order',
     'Whatever the sequence of messages, changes of the log directory, logger set-ups, level changes, failing or blocked directories, disk errors, crashes and continued runs, every enabled message is in the log file that is current when it is issued, exactly once, complete and in order, as it is on the console; messages issued before the first log file exists are at its head. '
     'An appended log keeps what earlier runs wrote, a failed change of directory loses and redirects nothing, and other ranks and runs with log output disabled write no file.',
     ['histories', 'fault_sequences', 'crash_points'],
     'for every sequence of log operations, I/O faults, crash points and restarts, with bare loggers and with 2D and 3D solver lives',
     'No upstream test reads a log file; changing, appending, failing and restarting are never exercised.',
     ['thetis/log.py', 'thetis/solver2d.py', 'thetis/solver.py'],
     [('set_log_directory', 'thetis/log.py'), ('set_thetis_loggers', 'thetis/log.py'), ('keep_log', 'thetis/solver2d.py, thetis/solver.py')],
     ['contents of every log file after every operation', 'console stream'],
     'an execution counts as non-trivial when it restarts, fails to change directory, crashes or uses more than one log directory',
     ['thetis/log.py (a fresh module per simulated process), Python logging, FlowSolver and FlowSolver2d runs'],
     [STUB_DISK, STUB_KILL, 'rank 1 of a communicator (its logger set-up runs alone)'],
     ['a message whose own write failed may be lost or cut short', 'the wording of the announcement of a directory change is free', 'start-up messages may be repeated at the head of later logs'],
     'Seeded search against a reference of the expected contents of every log file; solver lives compare the log with the console.',
     (3000, 60), (200000, 800))

prop('S09', 'Forcing read from files depends on the model time alone',
     'At every instant covered by the data, forcing read from files is the linear interpolation between the two stored time stamps around it, whatever was evaluated before, in whatever order (forwards, backwards, repeated), however the series is split into files and named, whatever units, reference dates and time zones the files and the model use, and across restarts. '
     'A failed or interrupted read is reported, leaves the forcing fields as they were and can be repeated; instants outside the data are refused, never extrapolated.',
     ['histories', 'fault_sequences', 'inputs'],
     'for every time series and its partition into files, evaluation sequence, read failure, unavailable file and restart',
     'Tests evaluate one friendly series once, forwards, without failures, gaps, file boundaries in other zones, or restarts.',
     ['thetis/interpolation.py', 'thetis/forcing.py', 'thetis/timezone.py'],
     [('LinearTimeInterpolator', 'thetis/interpolation.py'), ('NetCDFTimeSearch/DailyFileTimeSearch', 'thetis/interpolation.py'), ('NetCDFTimeParser', 'thetis/interpolation.py'), ('ATMNetCDFTime, AtmosphericForcingInterpolator, GenericInterpolator2D', 'thetis/forcing.py')],
     ['values returned or assigned to the forcing fields'],
     'an execution counts as non-trivial when the data span several files, a read fails or the interpolator is restarted',
     ['thetis/interpolation.py, thetis/forcing.py, thetis/timezone.py, coordinate systems, netCDF4 and cftime on real files'],
     ['file system below the scratch root: opening an input file or looking up a variable can fail', 'the model run (the simulator asks for forcing times itself)'],
     ['time stamps at least 15 s apart', 'files do not overlap except forecasts cut by max_duration'],
     'Seeded search against an independent piecewise-linear reference in exact time arithmetic.',
     (3000, 60), (200000, 800))

prop('S13', 'Diagnostics report the present state',
     'Whatever was evaluated, failed, re-assigned, moved or added before, and whenever a diagnostic is created, called or evaluated, it reports the value its definition gives for the fields, mesh, depth and time of the moment: point values in detectors, time series, vertical profiles and transects, volumes and tracer masses, extremes and their change since its first evaluation, turbine power and its average. '
     'Accumulated time integrals are the trapezium rule over the instants of evaluation; results handed out do not change afterwards, and the diagnostic files hold the same values.',
     ['histories', 'configurations', 'fault_sequences'],
     'for every history of field changes, mesh movements, clock advances, evaluations and failing evaluations, all element families, detector positions and evaluation windows',
     'Upstream tests check the file format and one or two values of an undisturbed run; stale interpolation data, moved meshes, uneven intervals and failing evaluations are not sampled.',
     ['thetis/callback.py', 'thetis/turbines.py', 'thetis/utility.py'],
     [('DetectorsCallback, TimeSeriesCallback2D/3D, VerticalProfileCallback, TransectCallback', 'thetis/callback.py'), ('ScalarConservationCallback, MinMaxConservationCallback, AccumulatorCallback', 'thetis/callback.py'), ('TurbineFunctionalCallback', 'thetis/turbines.py'), ('vom_interpolator_functions', 'thetis/utility.py')],
     ['values returned by each callback, integrals, diagnostic files'],
     'an execution counts as non-trivial when the state changes between evaluations',
     ['all callbacks of thetis/callback.py and the turbine callback, on 2D and 3D solver objects; Firedrake point evaluation'],
     ['time stepping: the simulator assigns fields, moves the mesh and sets the clock'],
     ['points well inside cells (values at discontinuities are ambiguous)', 'time series and profiles of scalar fields', 'averages of turbine power at equal intervals'],
     'Seeded search over histories; independent evaluation from degrees of freedom and node coordinates.',
     (2000, 60), (100000, 800))

prop('S14', 'An inversion keeps an exact record of the iterates it accepts',
     'The cost of an inversion is that of a plain forward run with the same controls: regularisation plus the weighted squared misfits of the stations in use at each evaluation time, against observations interpolated to the model time. '
     'Whatever sequence of trial points, gradients, failed forward runs and accepted iterates an optimiser goes through, each accepted iterate gets exactly one entry in the progress arrays and files, one control file and one model series per station, and the cost, its parts, gradient norms, controls and series of an entry belong to that iterate.',
     ['histories', 'schedules', 'configurations'],
     'for every kind of control, observed variable, station set, observation period and weighting, and every sequence of evaluations by an optimiser',
     'No upstream test runs the inversion tools; the examples run one optimiser without checking its record.',
     ['thetis/inversion_tools.py', 'thetis/callback.py', 'thetis/solver2d.py'],
     [('InversionManager', 'thetis/inversion_tools.py'), ('StationObservationManager', 'thetis/inversion_tools.py'), ('ControlManager', 'thetis/inversion_tools.py'), ('CostFunctionCallback', 'thetis/inversion_tools.py')],
     ['J, J_reg, J_misfit and the *_progress lists and files', 'control_*.h5', 'diagnostic_timeseries_progress_*.hdf5'],
     'an execution counts as non-trivial when it records more than one iterate',
     [REAL_SOLVE, 'pyadjoint tape, SciPy optimisers'],
     ['the optimiser, in two thirds of the runs: a seeded sequence of evaluations, gradients, failures and accepted iterates'],
     ['single MPI rank', 'the regularisation terms are compared at 1e-3, the accuracy of the iterative derivative recovery', 'the correctness of gradients is not judged (N05)', 'an accepted iterate is the point evaluated last, as in the optimisers of SciPy'],
     'Seeded search; oracle is a plain forward run of the same model with an independent evaluation of the misfit.',
     (600, 100), (30000, 800))

prop('S15', 'Volume and tracer mass are conserved through every history',
     'In a closed or periodic basin no step, step-size change, pause, failed export, kill or restart changes the volume of water (other than by prescribed volume sources), the mass of a tracer solved in conservative form, or makes a uniform tracer of the 2D or 3D model non-uniform. '
     'The volume of the 3D mesh stays that of the 2D model.',
     ['histories', 'crash_points', 'fault_sequences', 'configurations'],
     'for every time integrator, element family, tracer formulation, time step and history of steps, pauses, failed exports, kills and restarts of the 2D and 3D models',
     'Consistency tests look once, at the end of one undisturbed run of one mesh and step, and are too slow to be run on every change.',
     ['thetis/shallowwater_eq.py', 'thetis/tracer_eq_2d.py', 'thetis/tracer_eq.py', 'thetis/coupled_timeintegrator.py', 'thetis/coupled_timeintegrator_2d.py', 'thetis/solver.py', 'thetis/solver2d.py', 'thetis/timeintegrator.py', 'thetis/rungekutta.py'],
     [('CoupledTimeIntegrator.advance', 'thetis/coupled_timeintegrator.py'), ('CoupledTimeIntegrator2D.advance', 'thetis/coupled_timeintegrator_2d.py'), ('ALEMeshUpdater', 'thetis/utility.py'), ('VertexBasedP1DGLimiter', 'thetis/limiter.py')],
     ['volume, tracer mass and extremes after every step, export and load_state'],
     'an execution counts as non-trivial when the run is continued after a pause, failure or restart',
     [REAL_SOLVE], [STUB_DISK, STUB_KILL],
     ['closed boundaries; volume sources constant in time', 'tracer mass in non-conservative form is not claimed (the scheme does not conserve it exactly)', 'mass in conservative form is judged on periodic domains: at walls the normal velocity vanishes only weakly and a little leaks', 'linear solves at their default tolerances'],
     'Seeded search over configurations and histories; invariants after every step with tolerances 3e-9 (volume), 1e-8 (mass, uniformity).',
     (2000, 100), (100000, 800))

prop('S16', 'Solver objects alive at the same time do not influence each other',
     'Any number of 2D and 3D solver objects may live in one process on shared or separate meshes, be set up, stepped, exported, restarted, discarded or fail in any interleaving - also from within the forcing updates and callbacks of another one - and each one computes the same states, clock, exports and diagnostics as it does alone.',
     ['schedules', 'histories', 'fault_sequences'],
     'for every set of solver configurations and every interleaving of their set-up, steps, callbacks, restarts, failures and disposal',
     'Tests run one solver at a time, each to its end.',
     ['thetis/solver2d.py', 'thetis/solver.py', 'thetis/timeintegrator.py', 'thetis/rungekutta.py', 'thetis/callback.py', 'thetis/options.py', 'thetis/field_defs.py', 'thetis/utility.py'],
     [('FlowSolver2d, FlowSolver', 'thetis/solver2d.py'), ('get_functionspace cache', 'thetis/utility.py'), ('field_metadata', 'thetis/field_defs.py'), ('option defaults', 'thetis/options.py')],
     ['states after each step', 'output directories'],
     'an execution counts as non-trivial when control passes from one unfinished solver to another',
     [REAL_SOLVE],
     ['the application that interleaves the solvers: a seeded scheduler with switch points between set-up calls, between steps, in forcing updates and in export callbacks'],
     ['different output directories', 'log files and physical_constants are per process by design', 'nested calls at most four deep'],
     'Seeded search over interleavings; oracle is the same solver run alone in the same process.',
     (2000, 100), (100000, 800))

prop('S17', 'Set-up is lazy, order-independent and survives failures',
     'Whether function spaces, fields, equations, integrators and exporters are created explicitly, one by one, or implicitly by what needs them, and whatever fails on the way - disk errors, missing or incomplete restart files, wrong arguments - and is then repeated or left to be done implicitly, the run that follows is the plain one: same states, clock, exports, diagnostics and log file. '
     'A failed load_state changes neither fields nor clock nor the way output is written. Misspelt attributes and options are refused before, during and after set-up.',
     ['histories', 'fault_sequences'],
     'for every order and granularity of set-up calls and every failure injected into them',
     'Tests set every solver up in one way, without failures.',
     ['thetis/solver2d.py', 'thetis/solver.py', 'thetis/utility.py', 'thetis/options.py', 'thetis/configuration.py', 'thetis/exporter.py'],
     [('create_function_spaces ... create_exporters, initialize', 'thetis/solver2d.py'), ('load_state', 'thetis/solver2d.py'), ('FrozenClass, unfrozen', 'thetis/utility.py'), ('ModelOptions2d, ModelOptions3d', 'thetis/options.py')],
     ['states after each step', 'output directory'],
     'an execution counts as non-trivial when a set-up call fails',
     [REAL_SOLVE],
     [STUB_DISK, 'the application that sets the solver up'],
     ['calls that reset what exists already (creating fields twice) are the user\'s own', 'options are not changed after the objects that use them exist'],
     'Seeded search over set-up histories; oracle is the run after a plain set-up.',
     (2000, 70), (100000, 800))

NA_TXT = 'pure function of its arguments (no schedule, clock, I/O, failure or history to inject); deciding it is a matter of numerical analysis or input enumeration, not of simulation'
na('N01', 'Discretisations converge at their design order',
   'For smooth solutions the discretisations of the shallow water, tracer, momentum and continuity equations converge at the order of their elements on refined meshes.',
   ['inputs'], 'all smooth solutions and mesh families', 'Tests use one manufactured solution per equation.',
   ['thetis/shallowwater_eq.py', 'thetis/tracer_eq.py', 'thetis/momentum_eq.py'], [('weak forms', 'thetis/shallowwater_eq.py')], NA_TXT)
na('N02', 'Coordinate and vector transformations are inverse pairs',
   'Transforming coordinates or vectors to another reference system and back returns the original values everywhere in the domain of the projection.',
   ['inputs'], 'all coordinates', 'Tests check a few points.', ['thetis/coordsys.py'], [('CoordinateSystem', 'thetis/coordsys.py')], NA_TXT)
na('N03', 'Slope limiting keeps cell means and local bounds',
   'Limiting a discontinuous field conserves every cell mean and leaves no vertex value outside the range of the neighbouring cell means.',
   ['inputs'], 'all fields', 'Tests limit one jump.', ['thetis/limiter.py'], [('VertexBasedP1DGLimiter', 'thetis/limiter.py')], NA_TXT)
na('N04', 'Equations of state and closures match their formulas',
   'Density, turbulence stability functions, bottom drag and sediment closures equal their published formulas for every admissible input.',
   ['inputs'], 'all admissible inputs', 'Tests check tabulated values.', ['thetis/equation_of_state.py', 'thetis/stability_functions.py', 'thetis/sediment_model.py'], [('formulas', 'thetis/equation_of_state.py')], NA_TXT)
na('N05', 'Adjoint gradients equal finite differences',
   'The gradient computed for any supported control and functional passes a Taylor test.',
   ['inputs', 'configurations'], 'all controls and functionals', 'Tests check a few controls.', ['thetis/inversion_tools.py'], [('InversionManager.get_optimization... gradient', 'thetis/inversion_tools.py')],
   'the gradient is produced by the pyadjoint tape from the recorded forward model; no schedule, clock, fault or history decides it, and a Taylor test is a numerical check of one input')
