"""The properties: statement, what is encoded, bounds.  properties.jsonl and MANIFEST.json are generated from this
table by lib/generate.py; check.py reads the machine part (harness, scenarios, budgets, bounds)."""

PROPS = {}


def prop(pid, title, statement, over, over_text, why, files, mechanism, harness, bounds, observe=None, state=None, assumptions=None, **kw):
    assert len(title) <= 80, (pid, len(title))
    PROPS[pid] = dict(kw, title=title, statement=statement, over=over, over_text=over_text, why=why, files=files,
                      mechanism=[{"name": n, "where": w} for n, w in mechanism], harness=harness, bounds=bounds,
                      observe=observe or [], state=[{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                      assumptions=assumptions or [])


NOT_APPLICABLE = []


def na(pid, title, statement, over, over_text, why, files, mechanism, reason):
    NOT_APPLICABLE.append(dict(pid=pid, title=title, statement=statement, over=over, over_text=over_text, why=why, files=files,
                               mechanism=[{"name": n, "where": w} for n, w in mechanism], reason=reason))


prop("C01", "Step sizes, window completion and the end of the simulation are consistent",
     "The largest step offered to a solver is exactly the remainder of the current time window (cut at the maximum time); a window is reported complete, and only then, when the steps taken since its start add up to it, and with several iterations per window the solver is told to write a checkpoint exactly at a window's start and to read it exactly when the window repeats. "
     "Coupling ends exactly when the maximum time or the maximum number of windows is reached, at the same window count and time for both participants, and no step is offered afterwards. "
     "This holds for every choice of substep sizes, for serial and parallel, explicit and implicit coupling.",
     ["inputs", "histories", "configurations"], "every substep size in (0, window], every window size and maximum time within the bounds, all four two-participant schemes",
     "Integration tests run fixed step sizes (mostly whole windows) and a handful of window/maximum-time ratios.",
     ["src/precice/impl/ParticipantImpl.cpp", "src/cplscheme/BaseCouplingScheme.cpp", "src/math/differences.hpp"],
     [("step size bookkeeping and window completion", "src/cplscheme/BaseCouplingScheme.cpp addComputedTime, secondExchange, getNextTimeStepMaxSize"), ("truncation at the maximum time", "src/cplscheme/BaseCouplingScheme.cpp isCouplingOngoing, setTimeWindowSize")],
     ["c01"], "windows <= 3, one symbolic substep per window per participant (thorough: both participants), window size in [0.1,2], maximum time <= 3 windows, two iterations per window in implicit schemes, two single-rank participants",
     observe=["getMaxTimeStepSize()", "isTimeWindowComplete()", "isCouplingOngoing()", "requires*Checkpoint()"])

prop("C02", "Calls that violate the API contract are rejected and leave no damage",
     "Every API call made in a state that does not allow it (before initialization, after finalization, or while a checkpoint request is unanswered), naming an unknown mesh or data, using a mesh the participant does not own or may not modify, with a buffer size, vertex index, time-step size or relative read time outside the documented range, raises a preCICE error. "
     "Every call inside the documented contract is accepted. No such call crashes, blocks, or silently changes data.",
     ["inputs", "histories"], "every API function in every life-cycle state, every step size and read time in a real interval, every vertex index and buffer size within the bounds",
     "Tests cover one misuse each for a few functions and do not combine functions with states.",
     ["src/precice/Participant.cpp", "src/precice/impl/ParticipantImpl.cpp", "src/precice/impl/ValidationMacros.hpp"],
     [("precondition checks", "src/precice/impl/ParticipantImpl.cpp PRECICE_CHECK"), ("name and access validation", "src/precice/impl/ValidationMacros.hpp")],
     ["c02"], "26 API calls in 5 life-cycle states; vertex ids and buffer sizes in small ranges around the valid one; step sizes in [-1,3]; one mesh of two vertices",
     observe=["precice::Error raised or not", "data read back after rejected calls"])

_TWO = "one symbolic value per component and write, values in [-10,10], 1-2 vertices with 1-2 components, <= 3 windows, <= 3 steps per window, time steps and read times kept 1e-6 away from each other unless equal (the library compares times with a tolerance), two single-rank participants"
prop("C03", "Explicit coupling: a read returns the partner's value of the requested time",
     "In explicit coupling, a read at a time of the current time window returns the value which the data's interpolation in time assigns to it: from the partner's last value of the previous window, plus all the values (or, without substeps, only the last one) the partner wrote in the same window if the partner already solved it; the value is held constant where nothing newer is known. "
     "The values arrive for the vertices and components they were written for, unwritten vertices are zero, whatever the order of vertices, the number and sizes of both participants' time steps, and a final window cut at the maximum time.",
     ["inputs", "histories", "configurations"], "every value written, every split of a window into steps, every relative read time; both schemes, both orders, with and without substeps, degrees 0, 1 and higher",
     "Integration tests use fixed values and equal step sizes, reading mostly at the step's end.",
     ["src/cplscheme/SerialCouplingScheme.cpp", "src/cplscheme/ParallelCouplingScheme.cpp", "src/cplscheme/BaseCouplingScheme.cpp", "src/cplscheme/CouplingData.cpp", "src/time/Waveform.cpp", "src/precice/impl/ReadDataContext.cpp", "src/precice/impl/WriteDataContext.cpp"],
     [("exchange order and window bookkeeping", "src/cplscheme/SerialCouplingScheme.cpp exchangeFirstData, exchangeSecondData"), ("sampling received data", "src/time/Waveform.cpp sample"), ("samples of the time window", "src/cplscheme/BaseCouplingScheme.cpp receiveData, receiveDataForWindowEnd")],
     ["c03"], _TWO, observe=["readData()"])

prop("C04", "Implicit coupling: iterations, repeats and reads follow the iteration protocol",
     "In implicit coupling, a window repeats exactly while the criteria are unmet and the iteration limit is not reached, never before the minimum number of iterations, and both participants do the same iterations. "
     "In every iteration a read at any time of the window returns the value interpolated from the partner's last accepted window and the newest iterate the scheme has passed on: that of the same iteration for the second participant of serial coupling, that of the previous iteration otherwise, and the previous window's last value in the first iteration. "
     "A repeated window starts from the same state, and every message sent is received.",
     ["inputs", "histories", "configurations"], "every value written in every iteration, every split of a window into steps, every relative read time; serial and parallel implicit coupling with up to 4 iterations, criteria decided by the data",
     "Integration tests run fixed iteration counts with constant data per iteration.",
     ["src/cplscheme/SerialCouplingScheme.cpp", "src/cplscheme/ParallelCouplingScheme.cpp", "src/cplscheme/BaseCouplingScheme.cpp", "src/cplscheme/CouplingData.cpp", "src/time/Waveform.cpp", "src/precice/impl/ParticipantImpl.cpp"],
     [("iteration control", "src/cplscheme/BaseCouplingScheme.cpp doImplicitStep, moveToNextWindow"), ("iterates kept and dropped", "src/cplscheme/CouplingData.cpp storeIteration, src/time/Waveform.cpp")],
     ["c04"], _TWO + ", <= 4 iterations", observe=["readData()", "requires*Checkpoint()", "isTimeWindowComplete()"])

prop("C05", "Convergence measures decide exactly by their documented criterion",
     "A window of implicit coupling is accepted exactly when, beyond the minimum number of iterations, all convergence measures are met, or one marked as sufficient is met while no strict one is unmet, or the iteration limit is reached. "
     "With d the difference of the values at the window's end to the previous iteration over all vertices and components, absolute means |d| <= limit, relative |d| <= limit*|value|, absolute-or-relative either of them, residual-relative |d| < limit*|d of the window's first iteration|. "
     "An unmet strict measure in the last permitted iteration, and nothing else, raises an error.",
     ["inputs", "configurations"], "every value of the coupling data in every iteration and every limit, all measure types and combinations of two",
     "Unit tests evaluate each measure on one or two constants.",
     ["src/cplscheme/BaseCouplingScheme.cpp", "src/cplscheme/impl/AbsoluteConvergenceMeasure.hpp", "src/cplscheme/impl/RelativeConvergenceMeasure.hpp", "src/cplscheme/impl/AbsoluteOrRelativeConvergenceMeasure.hpp", "src/cplscheme/impl/ResidualRelativeConvergenceMeasure.hpp"],
     [("criteria", "src/cplscheme/impl/*ConvergenceMeasure.hpp measure"), ("combination", "src/cplscheme/BaseCouplingScheme.cpp measureConvergence, reachedEndOfTimeWindow")],
     ["c05"], "1-2 vertices, <= 3 iterations, <= 2 windows, values in [-10,10], limits in [0.01,1], <= 2 measures", observe=["requiresReadingCheckpoint()", "isTimeWindowComplete()", "precice::Error raised"])

prop("C06", "Participants in several coupling schemes, and multi coupling, stay consistent",
     "With several explicit schemes and at most one implicit scheme per participant (couplings not forming a cycle of waiting), and in multi coupling, a read returns the value interpolated from what the partner of that data passed on, as in the two-participant scheme of that type: explicit partners of an iterating participant see its accepted window only, multi-coupled participants see the previous iteration. "
     "The offered step reaches the next end of a window among the participant's schemes, windows of different sizes included; checkpoints follow the implicit scheme alone. "
     "No participant blocks forever, all reach the maximum time, and every message sent is received.",
     ["inputs", "histories", "configurations"], "every value written in every iteration and every read time, 13 compositions of three and four participants",
     "Integration tests of compositional and multi coupling use constants and check the end value only.",
     ["src/cplscheme/CompositionalCouplingScheme.cpp", "src/cplscheme/MultiCouplingScheme.cpp", "src/cplscheme/BaseCouplingScheme.cpp", "src/precice/impl/ParticipantImpl.cpp"],
     [("explicit schemes on hold", "src/cplscheme/CompositionalCouplingScheme.cpp addComputedTime, firstExchange, secondExchange"), ("controller and others", "src/cplscheme/MultiCouplingScheme.cpp exchangeFirstData, exchangeSecondData")],
     ["c06"], "3-4 participants, one vertex per shared mesh, <= 2 steps per window, <= 3 iterations, <= 4 windows, linear interpolation, values in [-10,10], one symbolic read time per run",
     observe=["readData()", "getMaxTimeStepSize()", "requires*Checkpoint()", "deadlocks"])

prop("C07", "With the first-participant method both participants use the first one's windows",
     "When the first participant determines the window size, each of its steps up to the maximum time is one time window; the second participant is offered exactly that window and may split it into steps. "
     "Reads return the partner's values interpolated over this window, as in serial coupling of fixed window size; in implicit coupling the first participant has to repeat its step, another size is an error. "
     "Both participants complete the same windows and end at the maximum time.",
     ["inputs", "histories"], "every sequence of step sizes the first participant may choose, every value written, every read time; explicit and implicit coupling",
     "Integration tests use one or two fixed sequences of step sizes.",
     ["src/cplscheme/SerialCouplingScheme.cpp", "src/cplscheme/BaseCouplingScheme.cpp"],
     [("sending and receiving the window size", "src/cplscheme/SerialCouplingScheme.cpp sendTimeWindowSize, receiveAndSetTimeWindowSize")],
     ["c07"], "maximum time <= 2.5, steps of the first participant in [0.6,2.5], <= 2 steps of the second per window, <= 3 iterations, one vertex", observe=["getMaxTimeStepSize()", "isTimeWindowComplete()", "readData()"])

prop("C10", "Initial data is requested, transferred and visible exactly as configured",
     "Initial data is requested exactly from the participants configured to provide it, and initialize() without answering the request is an error. "
     "In the first time window a read returns the partner's initial data (unwritten vertices zero, zero without initial data) as the value at the start of the simulation: on its own until the partner's first window or iteration is known, and as start of the interpolation afterwards; it is also the reference of the first iteration's convergence measures. "
     "Initial data is mapped like other data.",
     ["inputs", "configurations"], "every initial value and every value written later, all schemes, both orders, either or both participants, with and without substeps",
     "Tests use constants and read at the window's end.",
     ["src/cplscheme/SerialCouplingScheme.cpp", "src/cplscheme/ParallelCouplingScheme.cpp", "src/cplscheme/BiCouplingScheme.cpp", "src/cplscheme/BaseCouplingScheme.cpp", "src/precice/impl/ParticipantImpl.cpp"],
     [("initial exchange", "src/cplscheme/SerialCouplingScheme.cpp, ParallelCouplingScheme.cpp exchangeInitialData"), ("requests", "src/precice/impl/ParticipantImpl.cpp requiresInitialData, initialize")],
     ["c10"], "two participants, <= 2 vertices, 1-2 components, <= 2 windows, <= 3 iterations, linear interpolation, values in [-10,10]", observe=["requiresInitialData()", "readData()"])

prop("C11", "Relaxation and Aitken acceleration pass on exactly the documented combination",
     "After an iteration that did not converge, constant relaxation passes on w*new + (1-w)*old for all accelerated data at every time of the window, where old is the previously passed-on iterate interpolated at that time (the accepted last value of the previous window in the first iteration); an accepted iterate is passed on unchanged. "
     "Aitken acceleration does the same with its factor: the initial one (or the last, if smaller in magnitude, with its sign) in a window's first iteration, then -factor*<r_old, r-r_old>/|r-r_old|^2 from the (scaled) residuals of its primary data at the window's end, and the same factor if the residual did not change. "
     "In serial coupling the second participant's data is accelerated, in parallel coupling all data.",
     ["inputs", "configurations"], "every value in every iteration, every relaxation factor, serial and parallel coupling, with substeps at equal and differing times",
     "Unit tests use fixed vectors and one sample per window.",
     ["src/acceleration/Acceleration.cpp", "src/acceleration/ConstantRelaxationAcceleration.cpp", "src/acceleration/AitkenAcceleration.cpp", "src/acceleration/config/AccelerationConfiguration.cpp", "src/cplscheme/BaseCouplingScheme.cpp", "src/cplscheme/CouplingData.cpp"],
     [("relaxation", "src/acceleration/Acceleration.cpp applyRelaxation"), ("Aitken factor", "src/acceleration/AitkenAcceleration.cpp performAcceleration"), ("which data", "src/cplscheme/*CouplingScheme.cpp getAccelerationData")],
     ["c11"], "<= 2 vertices, <= 2 steps, <= 4 iterations, <= 2 windows (Aitken across windows: one window's values fixed), values in [-10,10], factors in [0.05,1]; Aitken: squared residual changes 0 or above 1e-2, factors within +-20", observe=["readData()"])

_MAP = "symbolic values in [-10,10] of every vertex and component, meshes of 2-5 (one case 40) vertices, one symbolic query point"
_QN = "two participants, one or two meshes' worth of data, 1-3 vertices, 1-4 iterations per window, 1-4 windows, 1-2 steps per window; primary data (which determine the coefficients) symbolic for one quasi-Newton step on 1-2 unknowns and else from up to 8 fixed tables chosen by the solver, secondary data symbolic throughout; serial runs (one rank)"
prop("C12", "IQN-ILS acceleration passes on the documented quasi-Newton update",
     "An iterate that is not accepted is replaced, for primary and secondary data alike, by the solvers' values plus the linear combination of earlier differences of these values whose coefficients minimise the weighted residual of the primary data in the least-squares sense; the very first one (or, if enforced, the first one of every window) is relaxed instead. "
     "The differences used are those between subsequent iterations of the current and of as many earlier windows as configured, the newest ones first, limited to the configured number; an accepted iterate is passed on unchanged and starts the next window. "
     "This holds in serial and parallel coupling, with substeps, with the reduced and the full time grid, and for systems with more differences than unknowns.",
     ["inputs", "histories", "configurations"], "all values of a first quasi-Newton step, all values of secondary data in longer histories, every listed configuration of reuse, limits and enforcement",
     "Tests compare a few iterates with recorded numbers or only check that a toy problem converges.",
     ["src/acceleration/BaseQNAcceleration.cpp", "src/acceleration/IQNILSAcceleration.cpp", "src/acceleration/impl/QRFactorization.cpp", "src/time/TimeGrids.cpp", "src/acceleration/config/AccelerationConfiguration.cpp"],
     [("difference matrices", "src/acceleration/BaseQNAcceleration.cpp updateDifferenceMatrices, iterationsConverged"), ("least squares", "src/acceleration/IQNILSAcceleration.cpp computeQNUpdate, src/acceleration/impl/QRFactorization.cpp")],
     ["c12"], _QN, observe=["readData() of the partner in every iteration"])

prop("C39", "IQN-IMVJ acceleration keeps the inverse Jacobian of past time windows",
     "An iterate that is not accepted is corrected by minus the inverse Jacobian times the residual, where the inverse Jacobian is the one of the past windows changed as little as possible (in the weighted norm, as the least-squares fit) so that it maps the residual differences in use to the differences of all values; the very first iterate, or if enforced every window's first one, is relaxed instead. "
     "At the end of a window, also one of a single iteration, its differences enter the inverse Jacobian once. "
     "Restart modes give the same as long as no restart is due; a restart drops everything (RS-0), or keeps the least-squares fit of the stored windows (RS-LS) or of the newest columns (RS-SLIDE).",
     ["inputs", "histories", "configurations"], "all values of a first quasi-Newton step, all values of secondary data over several windows, every listed configuration of reuse, enforcement, limits, filters and restarts",
     "Tests compare a few iterates with recorded numbers or only check that a toy problem converges.",
     ["src/acceleration/IQNIMVJAcceleration.cpp", "src/acceleration/BaseQNAcceleration.cpp", "src/acceleration/impl/ParallelMatrixOperations.hpp", "src/acceleration/impl/QRFactorization.cpp", "src/acceleration/config/AccelerationConfiguration.cpp"],
     [("inverse Jacobian", "src/acceleration/IQNIMVJAcceleration.cpp computeNewtonUpdate, computeNewtonUpdateEfficient, buildJacobian, buildWtil"), ("end of a window, restarts", "src/acceleration/IQNIMVJAcceleration.cpp specializedIterationsConverged, restartIMVJ")],
     ["c39"], _QN + "; the content of the restart by a truncated singular value decomposition is outside (its iteration does not encode; C37 compares it between distributions over ranks)", observe=["readData() of the partner in every iteration"])

prop("C23", "Mesh connectivity is what the calls describe, in any order and form",
     "The connectivity of a mesh that a mapping or export uses, on the participant providing it and on the one receiving it, is exactly the edges, triangles and tetrahedra handed over and all their faces and edges, each once, whatever the order of the calls, the order of the vertices in an element, repetitions, and whether single or bulk calls are used. "
     "A planar quadrilateral whose four corners, given in any order, are in convex position becomes the two triangles along its shorter diagonal; one whose corners are not in convex position is an error. "
     "Unknown vertices are an error in every such call, and so are repeated vertices in a single triangle or a quad and lists that do not consist of whole quads; if connectivity is not required, the calls change nothing.",
     ["inputs", "programs"], "every order of the four corners with one corner of one of two adjacent quads anywhere on a line; every rotation of the calls, order of the vertices and repeated element; every vertex id and list length in an interval",
     "Tests build a few meshes with one order of calls.",
     ["src/precice/impl/ParticipantImpl.cpp", "src/math/geometry.cpp", "src/mesh/Mesh.cpp", "src/mesh/Utils.cpp", "src/mesh/Triangle.cpp", "src/mesh/Tetrahedron.cpp", "src/com/SerializedMesh.cpp"],
     [("calls", "src/precice/impl/ParticipantImpl.cpp setMeshEdge to setMeshTetrahedra"), ("quads", "src/math/geometry.cpp isConvexQuad"), ("once, with faces", "src/mesh/Mesh.cpp preprocess, removeDuplicates, generateImplicitPrimitives"), ("receiver", "src/com/SerializedMesh.cpp")],
     ["c23"], "2-6 vertices, up to 6 elements, 2D and 3D, serial participants, corners of quads at least 0.01 (as cross product) from lying on a line and diagonals not equal within 0.01; seen in the exported files of both participants; degenerate edges and repeated vertices in bulk triangles are not promised to be rejected",
     observe=["exported files", "errors"])

prop("C33", "Exported files show the meshes, data, times and pieces",
     "Every CSV, VTU, VTP and legacy VTK file lists each vertex of the exporting rank once in order with coordinates, the rank and the values (in VTK formats also gradients, in components as written) the participant holds at the end of that time window or iteration, two-dimensional vectors padded with zero, and each edge, triangle and tetrahedron the format can represent once. "
     "One file per rank, mesh and format is written after initialization and after every N-th completed time window (none if N is not positive), or after every iteration, named after the mesh, participant, rank and the number of the window or iteration. "
     "The index file of a parallel export lists the pieces of exactly the ranks with vertices, and the series file lists all exports of time windows with their times.",
     ["inputs", "configurations"], "all values, gradients and initial data, one coordinate of each mesh in an interval, every subset of the listed connectivity, every distribution of the vertices over the ranks, every listed combination of windows, iterations, substeps and frequency",
     "Tests check that files exist, without reading them back.",
     ["src/io/ExportVTK.cpp", "src/io/ExportXML.cpp", "src/io/ExportVTU.cpp", "src/io/ExportVTP.cpp", "src/io/ExportCSV.cpp", "src/io/Export.cpp", "src/precice/impl/ParticipantState.cpp", "src/precice/impl/ParticipantImpl.cpp"],
     [("content of files", "src/io/ExportXML.cpp, ExportVTK.cpp, ExportCSV.cpp doExport"), ("when", "src/precice/impl/ParticipantState.cpp exportInitial, exportIntermediate; src/precice/impl/ParticipantImpl.cpp handleExports")],
     ["c33"], "2-5 vertices, up to 5 time windows, 2 iterations, 2 substeps, 3 ranks, parallel coupling schemes; a symbolic value appears in the file as a reference to its expression, so the conversion of numbers to text is outside (only the number of digits is checked); triangles in 2D are not part of the legacy VTK export; series files of exports of every iteration are not defined",
     observe=["exported files"])

prop("C13", "Quasi-Newton filters and preconditioners act as documented",
     "The QR1, absolute QR1, QR2 and QR3 filters remove from the quasi-Newton differences exactly those which their criterion and limit mark as nearly dependent on the newer ones, never the newest one, and a removed difference is not used again. "
     "The constant, value, residual and residual-sum preconditioners weigh the primary data by the documented factors, updated in the documented iterations only, so that the least-squares problem solved is the one weighted like that.",
     ["inputs", "histories", "configurations"], "every filter limit in an interval around the norms that occur, all secondary values, every combination of filter and preconditioner listed in the scenarios",
     "Tests exercise filters on single matrices and preconditioners on single vectors, not their interplay over windows.",
     ["src/acceleration/impl/QRFactorization.cpp", "src/acceleration/impl/ResidualSumPreconditioner.cpp", "src/acceleration/impl/ResidualPreconditioner.cpp", "src/acceleration/impl/ValuePreconditioner.cpp", "src/acceleration/impl/ConstantPreconditioner.cpp", "src/acceleration/BaseQNAcceleration.cpp"],
     [("filters", "src/acceleration/impl/QRFactorization.cpp applyFilter, resetFilter, deleteColumn"), ("weights", "src/acceleration/impl/*Preconditioner.cpp _update_")],
     ["c13"], _QN + "; filter limits symbolic, kept away from ties", observe=["readData() of the partner in every iteration"])

prop("C38", "Quasi-Newton updates respect the bounds configured for the data",
     "If a quasi-Newton update takes a value of any bounded data at any time of the window beyond its bound, then, as configured, exactly the violating values are set to the bound, or the update of all data is dropped, or the update of all data is shortened just enough to meet the bounds; values within the bounds, data without bounds, and updates without a violation are not touched.",
     ["inputs", "configurations"], "all values within the bounds of bounded data, scalar and vector, bounded from below, above or both, primary or secondary, with and without substeps",
     "Tests call the helper functions with single vectors and never with several time steps.",
     ["src/acceleration/BaseQNAcceleration.cpp"],
     [("bound handling", "src/acceleration/BaseQNAcceleration.cpp checkBoundViolation, onBoundViolationsClamp, onBoundViolationsScale")],
     ["c38"], "as for C12; the solvers' own values lie within the bounds; for the scaled update only the values of the last iteration are symbolic", observe=["readData() of the partner in every iteration"])

prop("C14", "Nearest-neighbor mapping assigns values by exact proximity",
     "Nearest-neighbor mapping with the consistent constraint gives every output vertex exactly the value of the closest input vertex; with the conservative constraint every output vertex gets the sum of the values of exactly those input vertices it is the closest output vertex of, so that the total is conserved. "
     "This holds in 2D and 3D, for scalar and vector data, for read and write mappings, for initial data, and whatever the order of the vertices.",
     ["inputs", "configurations"], "every value and every position of the query point or of an input vertex in a box around the mesh, up to ties",
     "Unit tests use a handful of fixed positions.",
     ["src/mapping/NearestNeighborMapping.cpp", "src/mapping/NearestNeighborBaseMapping.cpp", "src/query/Index.cpp", "src/precice/impl/DataContext.cpp"],
     [("matching", "src/mapping/NearestNeighborBaseMapping.cpp computeMapping"), ("nearest vertex query", "src/query/Index.cpp getClosestVertex"), ("mapping", "src/mapping/NearestNeighborMapping.cpp mapConsistent, mapConservative")],
     ["c14"], _MAP + " anywhere in a box around the mesh; ties (squared distances closer than 1e-6) excluded", observe=["readData()"])

prop("C15", "Nearest projection and linear cells interpolate at the closest point of the mesh",
     "Nearest-projection mapping gives an output vertex the piecewise linear interpolant of the input mesh at its closest point (edges and vertices in 2D, planar or mildly bent triangle surfaces and edge meshes in 3D); linear cell interpolation gives the linear interpolant of the triangle (2D) or tetrahedron (3D) containing it and falls back to nearest projection outside of all cells. "
     "Quadrilaterals reproduce linear fields. "
     "The conservative constraint distributes every input value with the same weights to the output mesh, so that the total is conserved.",
     ["inputs", "configurations"], "every value, and every position on several line segments crossing the mesh and its surroundings (thorough: in 2D and 3D boxes)",
     "Unit tests use a handful of fixed positions.",
     ["src/mapping/NearestProjectionMapping.cpp", "src/mapping/LinearCellInterpolationMapping.cpp", "src/mapping/BarycentricBaseMapping.cpp", "src/mapping/Polation.cpp", "src/math/barycenter.cpp", "src/query/Index.cpp"],
     [("closest element", "src/query/Index.cpp findNearestProjection, findCellOrProjection"), ("weights", "src/math/barycenter.cpp, src/mapping/Polation.cpp"), ("mapping", "src/mapping/BarycentricBaseMapping.cpp mapConsistent, mapConservative")],
     ["c15"], _MAP + " on 1-4 line segments through the mesh and around it (thorough: in a box), meshes of 3-5 vertices with 2-3 edges, triangles or tetrahedra", observe=["readData()"], quick_s=80)

prop("C18", "Scaled-consistent mapping preserves the integral of every component",
     "Mapping with the scaled-consistent constraint (surface or volume) multiplies the consistently mapped values of each component by one common factor such that the integral over the output mesh equals the integral over the input mesh; if the output integral is zero the values stay as mapped. "
     "Integrals are those of the piecewise linear interpolant over the edges (2D surface), triangles (2D volume, 3D surface) or tetrahedra (3D volume).",
     ["inputs", "configurations"], "every value; nearest-neighbor, nearest-projection and linear cell interpolation, surface and volume, 2D and 3D",
     "Unit tests check fixed values.",
     ["src/mapping/Mapping.cpp", "src/mesh/Utils.cpp", "src/mesh/Edge.cpp", "src/mesh/Triangle.cpp", "src/mesh/Tetrahedron.cpp"],
     [("scaling", "src/mapping/Mapping.cpp scaleConsistentMapping"), ("integration", "src/mesh/Utils.cpp integrateSurface, integrateVolume")],
     ["c18"], "values in [-10,10] of 3-5 vertices; fixed meshes of 1-3 elements with exactly representable sizes; output integrals zero or above 0.25 in magnitude", observe=["readData()"], quick_s=60)

prop("C19", "Gradient mapping extrapolates linearly from the nearest vertex",
     "Nearest-neighbor-gradient mapping gives every output vertex the value of the closest input vertex plus that vertex's gradient times the offset to the output vertex, for scalar and vector data, read and write mappings, also where the values are zero and the gradients are not. "
     "Gradients are those written in the same step for exactly that vertex and component; one that is not written in a step is zero.",
     ["inputs", "configurations"], "every value, every gradient, every position of the query point or of an input vertex in a box around the mesh, up to ties",
     "Unit tests use a handful of fixed positions and constant gradients.",
     ["src/mapping/NearestNeighborGradientMapping.cpp", "src/mapping/NearestNeighborBaseMapping.cpp", "src/precice/impl/WriteDataContext.cpp", "src/cplscheme/BaseCouplingScheme.cpp", "src/precice/impl/DataContext.cpp"],
     [("mapping", "src/mapping/NearestNeighborGradientMapping.cpp mapConsistent, onMappingComputed"), ("gradient buffer", "src/precice/impl/WriteDataContext.cpp writeGradientsIntoDataBuffer"), ("transfer", "src/cplscheme/BaseCouplingScheme.cpp sendData, receiveData")],
     ["c19"], "values and gradients in [-10,10], 2-3 input vertices, ties excluded, up to 3 time windows with 1-2 exchanged steps", observe=["readData()"])

_RBF = ["src/mapping/RadialBasisFctSolver.hpp", "src/mapping/RadialBasisFctMapping.hpp", "src/mapping/RadialBasisFctBaseMapping.hpp", "src/mapping/impl/BasisFunctions.hpp", "src/mapping/config/MappingConfiguration.cpp"]
prop("C16", "Global RBF mappings evaluate the documented interpolant and its transpose",
     "A consistent global radial-basis-function mapping (direct solver) gives every output vertex the value of the interpolant built from the configured basis function, support radius or shape parameter and polynomial (on, off, separate) over the living axes: it interpolates the input values, and reproduces linear fields when a polynomial is used; a separate polynomial is fitted first, over only as many axes as the input vertices determine. "
     "The conservative mapping applies the transposed operator of the opposite direction: with a polynomial the total of every component is conserved. "
     "A thin-plate-spline problem made singular by duplicate vertices is refused.",
     ["inputs", "configurations"], "every value at every vertex; all basis functions and polynomial treatments, consistent and conservative, read and write, 2D and 3D, dead axes, several vertex sets and orders",
     "Unit tests compare a few functions at fixed values, mostly constants.",
     _RBF, [("system and solution", "src/mapping/RadialBasisFctSolver.hpp solveConsistent, solveConservative"), ("basis functions", "src/mapping/impl/BasisFunctions.hpp"), ("degenerate vertex sets", "src/mapping/RadialBasisFctSolver.hpp reduceActiveAxis")],
     ["c16"], "values in [-10,10] symbolic at every vertex; 2-3 fixed vertex sets of 3-5 vertices per configuration (positions are concrete: the matrices are); agreement up to 1e-5 relative", observe=["readData()"], quick_s=60)

prop("C17", "Partition-of-unity RBF mappings reproduce, interpolate and conserve",
     "A consistent partition-of-unity radial-basis-function mapping reproduces the input values at coinciding vertices, and linear fields exactly when a separate polynomial is used and every cluster's vertices determine it, whatever the clusters, overlap and projection settings; output vertices covered by one single cluster get the global interpolant. "
     "The conservative mapping is the transpose of the consistent mapping of the opposite direction; with a separate polynomial it conserves the total of every component, and its first moments if every cluster determines a linear polynomial.",
     ["inputs", "configurations"], "every value at every vertex; several basis functions, cluster sizes, overlaps, vertex sets, 2D and 3D, read and write",
     "Unit tests compare fixed values.",
     _RBF + ["src/mapping/PartitionOfUnityMapping.hpp", "src/mapping/impl/SphericalVertexCluster.hpp", "src/mapping/impl/CreateClustering.hpp"],
     [("clusters", "src/mapping/impl/CreateClustering.hpp createClustering"), ("weights", "src/mapping/PartitionOfUnityMapping.hpp computeMapping"), ("local interpolants", "src/mapping/impl/SphericalVertexCluster.hpp mapConsistent, mapConservative")],
     ["c17"], "values in [-10,10] symbolic at every vertex (or the coefficients of the linear field); 1-3 fixed vertex sets of 6-36 vertices per configuration; agreement up to 1e-4 relative", observe=["readData()"], quick_s=60)

prop("C08", "Waveforms of higher degree interpolate and reproduce polynomials in time",
     "With a waveform degree of two or more, reads inside a time window follow the interpolating spline through the last value of the previous window and all values of the window: with exactly degree+1 values it is their interpolating polynomial, with fewer the polynomial through all of them, and with more it reproduces every polynomial of the degree and returns the written values at the times they were written for. "
     "This holds for unequal step sizes, for every iteration of implicit coupling with its newest values (also changed by acceleration), and in a final window cut at the maximum time.",
     ["inputs", "histories", "configurations"], "every value written (or every polynomial), every relative read time; degrees 2 to 5, 2 to 5 steps per window, explicit and implicit coupling",
     "Tests of the spline use a few fixed functions and times.",
     ["src/time/Waveform.cpp", "src/math/Bspline.cpp", "src/cplscheme/CouplingData.cpp", "src/precice/impl/ReadDataContext.cpp"],
     [("sampling", "src/time/Waveform.cpp sample"), ("spline", "src/math/Bspline.cpp Bspline, interpolateAt")],
     ["c08"], _TWO + ", <= 5 steps per window (fixed unequal step sizes where there are more than 3 values; one scenario with symbolic step size), values or polynomial coefficients in [-10,10], degree <= 5", observe=["readData()"], quick_s=60)

prop("C20", "Geometric multiscale mappings distribute and average as documented",
     "Axial multiscale mapping multiplies the value of the closest input vertex with the configured profile at the output vertex's distance (uniform: 1; parabolic: with unit mean over the section, relative to the radius or, between a plane and a volume, to the largest distance in the vertex's band; tabulated exponents for squares) when spreading, and averages the values closest to each output vertex when collecting; only the axis component of vectors is transferred, and vertices outside of the radius are refused. "
     "Radial multiscale mapping assigns the value (all components) of the vertex closest along the axis when spreading and averages those when collecting, whatever the order of vertices.",
     ["inputs", "configurations"], "every value, vertices moving along or across the axis; both types, all axes, scalar and vector data, read and write",
     "Unit tests use a few fixed vertices in sorted order.",
     ["src/mapping/AxialGeoMultiscaleMapping.cpp", "src/mapping/RadialGeoMultiscaleMapping.cpp", "src/mapping/config/MappingConfiguration.cpp"],
     [("axial", "src/mapping/AxialGeoMultiscaleMapping.cpp computeMapping, mapConsistent"), ("radial", "src/mapping/RadialGeoMultiscaleMapping.cpp computeMapping, mapConsistent")],
     ["c20"], "values in [-10,10], 1-4 input and output vertices of which 1-3 coordinates are symbolic, ties excluded; the square profile only at fixed positions and with the centre at the origin across the first axis", observe=["readData()"], quick_s=40)

prop("C21", "Just-in-time mapping reads and writes consistently at any location",
     "Reading at a location just in time returns, at any relative time, what the configured consistent mapping gives for the values of that time: the nearest vertex's value (nearest-neighbor) or the interpolant (partition of unity; exact for linear fields with a separate polynomial). "
     "Loads written just in time are accumulated over all calls of a step, reset at the next step or iteration, and distributed as by the conservative mapping (nearest vertex, transposed interpolant with the total conserved, or the coarse-graining kernel of the configured radius), in explicit and implicit coupling, with substeps, in any number of calls per step. "
     "Locations outside of the access region or of wrong dimension are refused.",
     ["inputs", "histories", "configurations"], "every value, every location in boxes or on line segments, every relative read time; scalar and vector data, 2D and 3D",
     "Tests use fixed locations, values and steps.",
     ["src/precice/impl/ReadDataContext.cpp", "src/precice/impl/WriteDataContext.cpp", "src/mapping/NearestNeighborMapping.cpp", "src/mapping/PartitionOfUnityMapping.hpp", "src/mapping/CoarseGrainingMapping.cpp", "src/mapping/impl/MappingDataCache.hpp", "src/precice/impl/ParticipantImpl.cpp"],
     [("read", "src/precice/impl/ReadDataContext.cpp mapAndReadValues"), ("write and reset", "src/precice/impl/WriteDataContext.cpp writeAndMapValues, completeJustInTimeMapping"), ("caches", "src/mapping/impl/MappingDataCache.hpp")],
     ["c21"], "values in [-10,10], 3-36 mesh vertices, 1-3 locations per call and 1-2 calls per step (nearest-neighbor: symbolic locations), <= 2 windows, <= 2 iterations, <= 2 steps; partition of unity: fixed locations, agreement up to 1e-4", observe=["mapAndReadData()", "readData()"], quick_s=40)

prop("C37", "Distributing participants over ranks does not change results",
     "Running participants on several ranks, with their vertices distributed in any way over the ranks (also none on some ranks), gives every vertex the same values as running them on one rank: mapped data of nearest-neighbor, nearest-projection, linear cell and RBF mappings (consistent read, conservative write), initial data, accelerated and bounded iterates, and the decision on convergence, which all ranks take alike. "
     "This holds for every order in which the processes run, for direct and gather-scatter communication, two-level initialization, and geometric filters whose safety margin covers the vertices needed. Vertices that no rank sends values for are zero.",
     ["inputs", "configurations", "schedules"], "every value; every distribution of 3-4 vertices over 2-3 ranks on both sides; several mappings, filters, communication modes, coupling schemes, accelerations; for one configuration the order of processes at the first scheduling points",
     "Integration tests use one fixed distribution each.",
     ["src/partition/ReceivedPartition.cpp", "src/partition/ProvidedPartition.cpp", "src/m2n/PointToPointCommunication.cpp", "src/m2n/GatherScatterCommunication.cpp", "src/com/CommunicateMesh.cpp", "src/utils/IntraComm.cpp", "src/acceleration/BaseQNAcceleration.cpp", "src/mapping/RadialBasisFctMapping.hpp"],
     [("repartitioning and ownership", "src/partition/ReceivedPartition.cpp compute"), ("routing of values", "src/m2n/PointToPointCommunication.cpp send, receive; src/m2n/GatherScatterCommunication.cpp"), ("collective operations", "src/utils/IntraComm.cpp, src/acceleration/BaseQNAcceleration.cpp"), ("tagging", "src/mapping/*Mapping tagMeshFirstRound, tagMeshSecondRound")],
     ["c37"], "two participants with 1-3 ranks each (simulated processes with in-memory connections), 3-4 vertices per mesh, values in [-10,10], <= 2 windows, <= 4 iterations; positions fixed but for one coordinate in some configurations; with acceleration, measured and accelerated data live on the accelerating participant's own mesh (copies of received vertices on several ranks would be counted repeatedly)", observe=["readData()", "requiresReadingCheckpoint()", "isTimeWindowComplete()", "getMaxTimeStepSize()"], quick_s=100)

prop("C22", "Direct mesh access covers exactly the vertices inside the access region",
     "With direct access to a received mesh, a rank sees exactly the vertices inside its access region (a closed box), each one once, with its coordinates, and their number; the region can be set only once and buffers of any other size are refused. "
     "Values read and written through these vertices belong to exactly those vertices: reads return the value the mesh's owner wrote for it, writes arrive at the owner's vertex, writes of several ranks to the same vertex are summed and vertices nobody writes to are zero. "
     "This holds for all distributions over ranks, regions and communication modes, and neither disturbs nor is disturbed by mappings using the same mesh.",
     ["inputs", "configurations"], "every box, every vertex position (vertices inside, outside and exactly on the border), every value; 1-2 ranks per participant; several communication modes; with and without a mapping on the same mesh",
     "Integration tests use a few hand-written boxes with vertices far from their borders and one or two ranks.",
     ["src/precice/impl/ParticipantImpl.cpp", "src/precice/impl/MeshContext.cpp", "src/mesh/Utils.cpp", "src/mesh/BoundingBox.cpp", "src/mesh/Mesh.cpp", "src/partition/ReceivedPartition.cpp", "src/m2n/GatherScatterCommunication.cpp", "src/m2n/PointToPointCommunication.cpp"],
     [("region and access checks", "src/precice/impl/ParticipantImpl.cpp setMeshAccessRegion, getMeshVertexIDsAndCoordinates, computePartitions"), ("filter by region", "src/partition/ReceivedPartition.cpp filterByBoundingBox"), ("closed boxes", "src/mesh/BoundingBox.cpp contains")],
     ["c22"], "3-4 vertices, 2D and 3D, <= 2 ranks per participant, not all ranks' regions empty in parallel (documented error), a region's border either at a vertex's coordinate exactly or 1e-6 away from it, one or two windows",
     observe=["getMeshVertexSize()", "getMeshVertexIDsAndCoordinates()", "readData()"])

prop("C09", "Iteration and convergence logs record every window and iteration",
     "In implicit coupling every participant's iteration log gets exactly one row per completed time window, in order: the window's number, the iterations done so far and in this window, whether the window ended below the iteration limit, and for quasi-Newton acceleration, at the accelerating participant only, the columns in use, removed by the filter and dropped in this window. "
     "The convergence log of the participant that measures convergence gets exactly one row per iteration, with the window, the iteration and each measure's residual (the norm of the change for absolute and absolute-or-relative measures, relative to the norm of the values or to the window's first change for the others). "
     "Earlier rows stay when a participant remeshes; explicit coupling writes neither log.",
     ["inputs", "histories", "configurations"], "every value in every iteration, so every sequence of iteration counts; all measures, serial and parallel coupling, with and without limit, minimum, acceleration and remeshing",
     "Tests do not look at the logs.",
     ["src/cplscheme/BaseCouplingScheme.cpp", "src/cplscheme/impl/AbsoluteConvergenceMeasure.hpp", "src/cplscheme/impl/RelativeConvergenceMeasure.hpp", "src/cplscheme/impl/AbsoluteOrRelativeConvergenceMeasure.hpp", "src/cplscheme/impl/ResidualRelativeConvergenceMeasure.hpp", "src/acceleration/BaseQNAcceleration.cpp"],
     [("columns", "src/cplscheme/BaseCouplingScheme.cpp initializeTXTWriters"), ("rows", "src/cplscheme/BaseCouplingScheme.cpp advanceTXTWriters, measureConvergence"), ("quasi-Newton columns", "src/acceleration/BaseQNAcceleration.cpp writeLogEntries")],
     ["c09"], "two participants, 1-2 vertices, <= 4 windows, <= 4 iterations, values in [-10,10], residuals relative to values above 1e-2; observed as the values handed to the table writer (the text formatting is outside the claim)",
     observe=["rows of the iteration and convergence logs"])

prop("C31", "Watch points and watch integrals record the coupling data faithfully",
     "A watch point records initially and once after every completed time window, and never for an iteration that is repeated, the window's end time, the point of the watched mesh closest to the configured coordinate, and every data of the mesh linearly interpolated there: the values written last and those readable at that time. "
     "A watch integral records at the same times the sum over all vertices or, when scaling is on and the mesh has connectivity, the integral of the linear interpolant over edges (2D) or triangles (3D), and the surface area. "
     "On several ranks exactly the rank closest to the point records it, and sums run over all ranks.",
     ["inputs", "histories", "configurations"], "every value, the mesh shifted along lines and a vertex moved arbitrarily; 2D, 3D, scalar and vector data; explicit and implicit coupling with substeps, a final window cut at the maximum time; 1-3 ranks with every distribution of the vertices",
     "Tests watch vertices (not points between them) on fixed meshes and compare a handful of numbers.",
     ["src/precice/impl/WatchPoint.cpp", "src/precice/impl/WatchIntegral.cpp", "src/precice/impl/ParticipantState.cpp", "src/precice/impl/ParticipantImpl.cpp", "src/mesh/Utils.cpp", "src/query/Index.cpp"],
     [("closest point, interpolation and choice of the rank", "src/precice/impl/WatchPoint.cpp initialize, exportPointData"), ("sum, surface integral and area", "src/precice/impl/WatchIntegral.cpp exportIntegralData, src/mesh/Utils.cpp integrateSurface"), ("when records are written", "src/precice/impl/ParticipantState.cpp exportInitial, exportIntermediate")],
     ["c31"], "3-4 vertices with 2-3 edges or 2 triangles, 1-2 windows, <= 3 iterations, <= 2 steps per window, <= 3 ranks, values in [-10,10]; surface integrals on one rank (partially connected partitions are outside the claim), connectivity required by a mapping; observed as the values handed to the table writer (the text formatting is outside the claim), points equally close to two parts of the mesh excluded",
     observe=["rows of the watch point and watch integral tables"])

prop("C29", "Data actions apply their operation exactly once to every value",
     "The area-scaling actions multiply or divide the value at a vertex by the vertex's share of its edges' lengths (a half each, 2D) or triangles' areas (a third each, 3D), and refuse meshes without them; the summation action sets the target data to the sum of its source data. "
     "Actions apply exactly once to every value passed on, initial data included, after the write or read mapping as configured, for every component, step of a window, window and iteration of implicit coupling.",
     ["inputs", "histories", "configurations"], "every value written; vertex positions moving; both timings on provided and received meshes, with and without a mapping; serial and parallel, explicit and implicit coupling, with and without substeps and initial data",
     "Unit tests perform single actions on single samples; integration tests check only when actions are called.",
     ["src/action/ScaleByAreaAction.cpp", "src/action/SummationAction.cpp", "src/action/config/ActionConfiguration.cpp", "src/precice/impl/ParticipantImpl.cpp"],
     [("scaling and summation of all samples", "src/action/ScaleByAreaAction.cpp performAction, src/action/SummationAction.cpp performAction"), ("when actions run", "src/precice/impl/ParticipantImpl.cpp performDataActions")],
     ["c29"], "3-4 vertices with 2 edges or 2 triangles, <= 2 windows, <= 3 iterations, <= 2 steps per window, 2-3 source data of equal time steps, waveform degree 1, one rank, no acceleration of scaled data; Python actions are not encoded (they run in an embedded interpreter); known finding: the sample at the begin of a window is scaled repeatedly (known_findings.txt)",
     observe=["readData() of the participant that receives the data"])
prop("C36", "C and Fortran bindings behave like the C++ API",
     "The same simulation driven through the C functions or the Fortran functions returns, in every call, exactly what the C++ API returns: all setup, connectivity, coupling-control, writing, reading, gradient, just-in-time, direct-access and remeshing calls have the same effect and outputs. "
     "Strings handed over by Fortran are used without their trailing blanks, whatever their length, without touching memory outside of them.",
     ["inputs", "histories"], "every value written; read times and just-in-time locations moving; meshes with edges, triangles, quads and tetrahedra in 2D and 3D; strings of up to 5 arbitrary characters",
     "The bindings have no test of the functions' behaviour.",
     ["extras/bindings/c/src/preciceC.cpp", "extras/bindings/fortran/src/preciceFortran.cpp"],
     [("C functions", "extras/bindings/c/src/preciceC.cpp"), ("Fortran functions, string lengths", "extras/bindings/fortran/src/preciceFortran.cpp strippedLength")],
     ["c36"], "one rank; 4-8 vertices, 3 time windows or 2 windows with 2 iterations, 2 steps per window; errors are outside (bindings abort); not encoded: precicef_set_tetrahedron (deprecated, declared without the underscore Fortran links to), get_version_information, creation with a communicator",
     observe=["values returned by the C and Fortran functions"])
prop("C28", "Invalid configurations are rejected when creating a participant",
     "Creating a participant raises an error if a numeric setting of the configuration is out of its documented range, and succeeds if all are in range: times, time windows, iteration limits and absolute limits positive (time windows from 1e-14, minimum not above maximum iterations), relative limits and relaxation factors in (0,1], used iterations positive, reused windows, safety factor and flushing not negative, lower not above upper bounds (per component), waveform degree not negative and fitting the exchange of substeps, two or three dimensions, ports of 16 bits, positive radii and shape parameters, positive cluster size, overlap in [0,1). "
     "References to unknown participants, meshes or data, duplicated definitions and combinations documented as unsupported raise an error as well, for the participant concerned.",
     ["configurations"], "every value of every numeric setting, single and in the combinations that depend on each other, in every kind of coupling scheme and filter, created by either participant; 120 structural defects",
     "Tests contain a few invalid configurations; a range has infinitely many values and the parser, the conversion and the check all have to agree on the border.",
     ["src/cplscheme/config/CouplingSchemeConfiguration.cpp", "src/mesh/config/DataConfiguration.cpp", "src/mesh/config/MeshConfiguration.cpp", "src/precice/config/ParticipantConfiguration.cpp", "src/precice/config/Configuration.cpp", "src/mapping/config/MappingConfiguration.cpp", "src/acceleration/config/AccelerationConfiguration.cpp", "src/acceleration/AitkenAcceleration.cpp", "src/acceleration/BaseQNAcceleration.cpp", "src/acceleration/ConstantRelaxationAcceleration.cpp", "src/m2n/config/M2NConfiguration.cpp", "src/xml/ConfigParser.cpp", "src/xml/XMLAttribute.hpp"],
     [("ranges of the coupling scheme", "src/cplscheme/config/CouplingSchemeConfiguration.cpp xmlTagCallback, addAbsoluteConvergenceMeasure, checkIterationLimits, checkSubstepExchangeWaveformDegree"), ("ranges of accelerations", "src/acceleration/*Acceleration.cpp constructors"), ("references and duplicates", "src/precice/config/ParticipantConfiguration.cpp, src/precice/config/Configuration.cpp, src/mesh/config/MeshConfiguration.cpp")],
     ["c28"], "numbers in [-10,10] and at least 1e-10 away from a border unless exactly on it, integers in [-5,5] (ports in [-70000,140000]); one or two settings at a time; the text of a number is parsed concretely (values are injected behind the parser, a few texts are part of the structural variants); structural defects are a finite list selected by a symbolic index; serial participants; exporters, PETSc, Ginkgo, MPI and IQN-IMVJ settings are outside",
     observe=["constructor of Participant"])
prop("C30", "After remeshing the coupling continues as if started with the new meshes",
     "A participant of a parallel coupling may reset a mesh after a completed time window and define it anew. From the end of that window on, every value both participants read, every repetition of windows and every acceleration is that of a simulation which starts with the new meshes: "
     "data, mappings, partitions, communication and quasi-Newton history of the previous meshes have no influence, data on meshes nobody reset continues. ",
     ["inputs", "histories", "configurations"], "every value written; who remeshes (either or both); new vertices moving; new vertices distributed arbitrarily over ranks; parallel-explicit and parallel-implicit coupling with measures and accelerations",
     "Tests remesh with a few meshes in one order and compare few values.",
     ["src/precice/impl/ParticipantImpl.cpp", "src/cplscheme/BaseCouplingScheme.cpp", "src/cplscheme/CouplingData.cpp", "src/mesh/Mesh.cpp", "src/acceleration/BaseQNAcceleration.cpp"],
     [("detection and coordination", "src/precice/impl/ParticipantImpl.cpp getTotalMeshChanges, reinitHandshake, reinitialize"), ("history", "src/cplscheme/BaseCouplingScheme.cpp reinitialize, src/cplscheme/CouplingData.cpp reinitialize")],
     ["c30"], "1-5 vertices per mesh, <= 2 ranks per participant, <= 3 windows, <= 2 remeshings, <= 3 iterations, one step per window, waveform degree 1, no initial data; the value at the begin of a repeated window right after remeshing and the factor Aitken keeps from window to window are not claimed; quasi-Newton with one unknown value per iteration; IQN-IMVJ not encoded",
     observe=["readData(), getMaxTimeStepSize(), isTimeWindowComplete(), requires...Checkpoint()"])
