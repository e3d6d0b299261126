"""Descriptions of the properties (source of properties.jsonl and MANIFEST.json)."""


def mech(*a):
    return [{"name": n, "where": w} for n, w in a]


PBT = ("generated-input search with a choice-sequence generator and internal shrinking; "
       "8 workers, every failure confirmed by 3 replays. ")

PROPS = [
    {
        "id": "P01",
        "title": "Checkpoint and restore is transparent",
        "statement": "A simulation that is saved (to a file or to a memory buffer) and later restored, in the same instance after further steps or in a freshly created instance of the same model, continues exactly as the run that was never interrupted: positions, velocities, tensions, forces and unstretched lengths all agree at every later step. This holds for every time scheme and every kind of object, and saving does not disturb the run it is taken from.",
        "quantifier": {"over": ["inputs", "histories", "crash_points"], "text": "all valid models, time schemes, step sizes, host motions, payout histories and checkpoint instants, restored by file or memory into the same or a new instance"},
        "why_tests_cant": "The io test saves one fixed model with one scheme right after initialization and compares few values; state that only matters for other schemes, other objects or after payout is never exercised.",
        "anchors": {"files": ["source/IO.cpp", "source/IO.hpp", "source/MoorDyn2.cpp", "source/Line.cpp", "source/Rod.cpp", "source/Body.cpp", "source/Point.cpp", "source/Time.hpp"],
                    "mechanism": mech(("serialize/deserialize", "Serialize() and Deserialize() of every entity and time scheme"), ("binary format", "source/IO.cpp"), ("save/load API", "MoorDyn_Save, MoorDyn_Load, MoorDyn_Serialize, MoorDyn_Deserialize in source/MoorDyn2.cpp")),
                    "observe_at": ["MoorDyn_Step forces", "all line/rod/point/body getters"], "hook_needed": None},
        "technique": "stateful property-based testing: differential run with and without checkpoint",
        "note": PBT + "Oracle: the uninterrupted run of the same build, compared observable by observable to 1e-9 relative.",
    },
    {
        "id": "P02",
        "title": "Broken model files are refused, never a crash",
        "statement": "Whatever the text of the model file and of its auxiliary files (curves, bathymetry, waves, currents, grids), MoorDyn_Create, MoorDyn_Init and MoorDyn_Step either work or report the problem (NULL or an error code): no memory error, no undefined behaviour, no exception leaving the C API, no endless reading. Models which cannot be given a meaning are refused by MoorDyn_Create: rows with missing fields, line or rod types which are not defined, attachments to points, rods or bodies which do not exist or to unknown words, curve or bathymetry files which do not exist, lists with a wrong number of components, lines without segments. Output channels of objects or nodes which do not exist are ignored with a warning.",
        "quantifier": {"over": ["inputs"], "text": "all model and auxiliary files obtained by damaging valid ones: words replaced, rows cut, dropped, repeated or swapped, headers inserted, files truncated anywhere, CRLF line ends"},
        "why_tests_cant": "The tests read a handful of well-formed files; the set of malformed ones is unbounded.",
        "anchors": {"files": ["source/MoorDyn2.cpp", "source/MoorDyn2.hpp", "source/Misc.hpp", "source/Seafloor.cpp", "source/Waves.cpp", "source/Waves/WaveGrid.cpp", "source/Waves/WaveSpectrum.cpp"],
                    "mechanism": mech(("parser", "MoorDyn::ReadInFile, readLineProps, readRodProps, readBody, readRod, readOptionsLine, read_curve"), ("auxiliary files", "Seafloor::setup, rectilinearGridFromFile, construct*Grid, spectrumFromFile"), ("error channel", "MOORDYN_CATCHER")),
                    "observe_at": ["MoorDyn_Create / Init / Step return values", "ASan/UBSan reports"], "hook_needed": None},
        "technique": "structure-aware mutation fuzzing of model files under ASan+UBSan, with a catalogue of fatal faults that have to be refused",
        "note": PBT + "Built with ASan and UBSan. Damaged models that are accepted are initialized, stepped, observed and serialized too.",
    },
    {
        "id": "P03",
        "title": "Damaged or foreign checkpoints are refused without side effects",
        "statement": "Loading a checkpoint that is truncated, padded, corrupted, missing or belongs to a different model fails with an error code and leaves the running system exactly as it was, so that it can carry on. A failed save (unwritable target, full device) is reported with an error code, and none of this ever reads or writes outside the memory of the system.",
        "quantifier": {"over": ["fault_sequences", "inputs", "crash_points"], "text": "every truncation point, padding, header or payload corruption, foreign system and I/O fault, at any instant of any valid model"},
        "why_tests_cant": "No test loads a bad checkpoint; the damage positions and the mismatching models are unbounded.",
        "anchors": {"files": ["source/IO.cpp", "source/IO.hpp", "source/MoorDyn2.cpp"],
                    "mechanism": mech(("file validation", "IO::LoadFile / IO::Load"), ("sizes validation", "IO::Deserialize and the callers")),
                    "observe_at": ["return codes", "all observables after the refused load", "ASan/UBSan reports"], "hook_needed": None},
        "technique": "fault injection with generated faults, differential oracle, ASan+UBSan",
        "level": "fault_enumeration",
        "note": PBT + "Built with ASan and UBSan. Payload corruption that keeps the layout may legally be accepted; then only memory safety is required.",
    },
    {
        "id": "P04",
        "title": "Runs are reproducible and instances do not interfere",
        "statement": "The same model with the same inputs gives bit by bit the same positions, velocities, tensions, forces, masses and output files every time it is run in a process: whatever the former content of the memory it is given, and whatever other MoorDyn instances (of the same or of other models) are created, initialized, stepped or closed before or in between.",
        "quantifier": {"over": ["inputs", "histories", "schedules"], "text": "all pairs of valid models with any water kinematics, schemes and motions, and all interleavings of the calls to up to 3 instances"},
        "why_tests_cant": "The tests run one instance at a time once; values that depend on uninitialized memory or on state shared by instances usually look right.",
        "anchors": {"files": ["source/MoorDyn2.cpp", "source/Line.cpp", "source/Rod.cpp", "source/Body.cpp", "source/Point.cpp", "source/Time.cpp", "source/Waves.cpp", "source/Misc.cpp", "source/Log.cpp"],
                    "mechanism": mech(("initialization of the members", "constructors and setup() of every entity"), ("per-instance state", "no statics in MoorDyn, Line, Rod, Point, Body, Waves, Time")),
                    "observe_at": ["all the observables at every step", "output files"], "hook_needed": None},
        "technique": "stateful property-based testing: interleaved instances with perturbed fresh memory against runs alone",
        "note": PBT + "Fresh heap memory is filled with generated bytes (M_PERTURB) and the stack is dirtied before every call. Comparison is exact. Calls from several threads at once are not claimed.",
    },
    {
        "id": "P05",
        "title": "Line loads follow the documented lumped-mass model",
        "statement": "For every line node the net force, the tensions, weight, drag, fluid inertia, seabed reaction, bending and pressure loads, curvature and mass reported after a step are those of the documented lumped-mass model evaluated at the node positions, velocities and water kinematics of that instant, with tabulated stiffness, damping and bending curves, partial submergence and bathymetry included. In particular segments never push, and the force with which a line pulls its two ends is what those ends receive.",
        "quantifier": {"over": ["inputs", "histories", "configurations"], "text": "all line types (constant or tabulated), geometries, attachments, water kinematics, seabeds, payout and motion histories"},
        "why_tests_cant": "The tests compare a handful of static catenaries and one or two published cases; regimes such as slack plus damping, surface crossing, friction, tabulated curves or cantilevered ends with waves are not sampled.",
        "anchors": {"files": ["source/Line.cpp", "source/Line.hpp", "source/Misc.cpp"],
                    "mechanism": mech(("line internal and hydrodynamic loads", "Line::getStateDeriv"), ("line getters", "MoorDyn_GetLineNode* in source/Line.cpp")),
                    "observe_at": ["MoorDyn_GetLineNode*", "MoorDyn_GetLineFairTen/MaxTen/FairForce", "node velocities after the step"], "hook_needed": None},
        "technique": "property-based testing against an independent reference load model",
        "note": PBT + "Oracle: reference model in src/ref.hpp written from the documentation, 1e-10 relative plus conditioning terms; states on a kink of the model (friction sign change, exact surface crossing) are discarded.",
    },
    {
        "id": "P06",
        "title": "Line lengths follow the winch commands",
        "statement": "The unstretched length of every line is that of the model file (or the given fraction of the distance between its ends if negative) until the host changes it: a length set through MoorDyn_SetLineUnstretchedLength is taken at once, and with MoorDyn_SetLineUnstretchedLengthVel the length grows by exactly rate times time in each step until the rate is changed, whatever the time scheme, the split in internal steps, checkpoints or changes of scheme in between. No other line changes its length, and the weight of the line is that of its current length.",
        "quantifier": {"over": ["inputs", "histories"], "text": "all valid models, schemes, step sizes and sequences of length and rate commands, steps, checkpoints and scheme changes"},
        "why_tests_cant": "The lifting test pays a single line at a constant rate with one scheme.",
        "anchors": {"files": ["source/Line.hpp", "source/Line.cpp", "source/Time.cpp", "source/Time.hpp"],
                    "mechanism": mech(("length bookkeeping", "Line::setUnstretchedLength, setUnstretchedLengthVel, updateUnstretchedLength"), ("update in the schemes", "TimeSchemeBase::Update, TimeScheme::Next")),
                    "observe_at": ["MoorDyn_GetLineUnstretchedLength", "MoorDyn_GetLineNodeWeight"], "hook_needed": None},
        "technique": "model-based stateful property-based testing of command histories",
        "note": PBT + "Oracle: a length per line, integrated by hand; 1e-9 relative. The weight is bracketed by the lengths at both ends of the step because the loads are those of the last stage of the scheme.",
    },
    {
        "id": "P07",
        "title": "Points balance their loads and the host gets the reactions in order",
        "statement": "The force on a point is the sum of its weight, buoyancy, drag, constant and line-end loads, its mass includes added mass and the share of the attached lines, and a free point accelerates accordingly. The force vector returned by every step holds the loads on the coupled bodies, then rods, then points, in input order and with the announced number of entries, and a zero-length step returns the same forces without advancing anything.",
        "quantifier": {"over": ["inputs", "histories", "configurations"], "text": "all models mixing fixed, free, coupled and body-attached points with any number of lines, water kinematics and host motions"},
        "why_tests_cant": "Tests use one or two coupled points with the same layout and check total magnitudes loosely; mixed layouts and dynamic terms are not sampled.",
        "anchors": {"files": ["source/Point.cpp", "source/Point.hpp", "source/MoorDyn2.cpp", "source/MoorDyn2.hpp"],
                    "mechanism": mech(("point net force", "Point::getNetForceAndMass and Point::getStateDeriv"), ("forces handed to the host", "MoorDyn::GetForces"), ("coupled DOF layout", "MoorDyn::Step")),
                    "observe_at": ["MoorDyn_GetPointForce/M/Vel/Pos", "forces of MoorDyn_Step", "MoorDyn_NCoupledDOF"], "hook_needed": None},
        "technique": "property-based testing against an independent reference load model",
        "note": PBT + "Oracle: reference point loads on top of the reference line loads, 1e-10 relative.",
    },
    {
        "id": "P08",
        "title": "Rod loads, inertia and motion follow the rigid cylinder model",
        "statement": "The force, moment about end A and 6x6 inertia reported for a rod are those of the documented rigid cylinder: weight, side and end-cap buoyancy with partial submergence in any orientation, drag, added mass, seabed contact, and the forces, bending moments and masses of the attached lines. Free rods accelerate accordingly, and rods driven by the host report the load including their inertia.",
        "quantifier": {"over": ["inputs", "histories", "configurations"], "text": "all rod types, orientations (also upside down and crossing the surface), attachments, lines, water kinematics and host motions"},
        "why_tests_cant": "Rods appear in a few end-to-end tests in one orientation each; no test looks at the moments, inertia or the upside-down or surface-crossing regimes.",
        "anchors": {"files": ["source/Rod.cpp", "source/Rod.hpp", "source/Misc.hpp"],
                    "mechanism": mech(("rod loads and inertia", "Rod::doRHS"), ("rod equations of motion", "Rod::getStateDeriv"), ("rod reaction", "Rod::getFnet")),
                    "observe_at": ["MoorDyn_GetRodForce", "MoorDyn_GetRodM", "MoorDyn_GetRodNodePos/Vel"], "hook_needed": None},
        "technique": "property-based testing against an independent reference load model",
        "note": PBT + "Oracle: reference rod loads (src/ref.hpp); exact waterline tangency is discarded.",
    },
    {
        "id": "P09",
        "title": "Body loads, inertia and motion include everything attached",
        "statement": "The force, moment and 6x6 inertia of a body are those of its own weight, buoyancy and drag plus, moved to the body reference point, the loads, inertia and centripetal terms of every attached point and rod. Free bodies translate and rotate accordingly, pinned ones only rotate, and coupled ones report the load including their inertia.",
        "quantifier": {"over": ["inputs", "histories", "configurations"], "text": "all bodies, orientations, attached points, rods and lines, water kinematics and host motions"},
        "why_tests_cant": "Tests cover one body per case with symmetric properties and no coupling terms; anisotropic drag, eccentric masses and attached rods in motion are not sampled.",
        "anchors": {"files": ["source/Body.cpp", "source/Body.hpp", "source/Misc.hpp", "source/MoorDyn2.cpp"],
                    "mechanism": mech(("body loads", "Body::doRHS"), ("body equations of motion", "Body::getStateDeriv"), ("body reaction", "Body::getFnet"), ("body reading", "MoorDyn::readBody")),
                    "observe_at": ["MoorDyn_GetBodyForce", "MoorDyn_GetBodyM", "MoorDyn_GetBodyState"], "hook_needed": None},
        "technique": "property-based testing against an independent reference load model",
        "note": PBT + "Oracle: reference body loads (src/ref.hpp), 1e-9 relative.",
    },
    {
        "id": "P10",
        "title": "Everything stays attached and coupled objects follow the host",
        "statement": "After the initialization and after every step, with every time scheme: the ends of each line are where the point or rod end they are attached to is, and move with it; the points and rods of a body sit at their body-fixed coordinates and move as a rigid body with it (a pinned rod, just its end A); the nodes of a rod are evenly spaced on a straight segment of the rod's length and move rigidly; fixed objects stay where the model file puts them, at rest; the coupled bodies, rods and points, in this order, take the positions, angles and velocities given by the host, extrapolated with the given velocities to the end of the step (pinned ones just the position); the body getters agree with each other and the attached lines reported for each point are those of the model.",
        "quantifier": {"over": ["inputs", "histories"], "text": "all valid models mixing fixed, coupled, pinned, free and body-attached objects, time schemes, step sizes, and host motions, including inconsistent ones (jumps)"},
        "why_tests_cant": "Tests drive a few fixed topologies with one kind of coupled object; the mixture of object kinds, orders and schemes is combinatorial.",
        "anchors": {"files": ["source/MoorDyn2.cpp", "source/Point.cpp", "source/Rod.cpp", "source/Body.cpp", "source/Line.cpp", "source/Time.cpp"],
                    "mechanism": mech(("coupling", "MoorDyn::Init and Step distribution of x and xd, initiateStep, updateFairlead"), ("attachment", "setDependentStates / setDependentKin, setEndKinematics"), ("scheme", "TimeSchemeBase::Update")),
                    "observe_at": ["position and velocity getters of lines, points, rods and bodies"], "hook_needed": None},
        "technique": "stateful property-based testing: kinematic invariants over generated histories",
        "note": PBT + "Oracle: rigid body kinematics and linear extrapolation recomputed from the model file and the host motion; 1e-9 relative.",
    },
    {
        "id": "P11",
        "title": "Time integration converges and does not depend on how the steps are split",
        "statement": "With every time scheme the solution converges to the one and only trajectory of the system as the internal time step dtM is reduced, at least with the order of the scheme (4 for RK4, 2 for RK2, AB2 and Midpoint, 1 for the others, except the Anderson ones, which iterate to a tolerance); a free falling point follows the exact trajectory. MoorDyn_Step advances the time exactly by the requested step, and one long step with constant host velocity gives the same motion, loads and coupled forces as the internal steps it consists of, requested one by one.",
        "quantifier": {"over": ["inputs", "histories", "configurations"], "text": "all smooth models (taut submerged lines, points, rods and bodies, with and without drag, waves and winches), all the time schemes, internal and outer step sizes and host motions"},
        "why_tests_cant": "The time_schemes test only checks that one pendulum does not blow up with each scheme; accuracy and step splitting are never looked at.",
        "anchors": {"files": ["source/Time.cpp", "source/Time.hpp", "source/State.cpp", "source/State.hpp", "source/MoorDyn2.cpp"],
                    "mechanism": mech(("time schemes", "the Step() of each scheme in source/Time.cpp"), ("state algebra", "source/State.cpp"), ("splitting of the outer step in internal steps", "MoorDyn::Step")),
                    "observe_at": ["positions, velocities, tensions and forces after MoorDyn_Step", "time returned by MoorDyn_Step"], "hook_needed": None},
        "technique": "property-based testing: convergence against RK4 with a 16 times shorter step, exact free fall, metamorphic step splitting",
        "note": PBT + "The step is divided by 4 and the error has to drop at least 1.6, 8 or 100 times (order 1, 2, 4); up to 3 refinements let the asymptotic regime show. Known finding: AB3 and AB4 are first order.",
    },
    {
        "id": "P12",
        "title": "Results do not depend on how the model is written, numbered or placed",
        "statement": "The same system gives the same results however its model file is written: with any documented synonym or letter case of the section titles, attachments, end names and options, any order of the sections and options, any number format, spacing, line ends or unused types the results are identical; with the bodies, rods, points, lines and types listed in another order, with the lines declared from the other end, or with unrelated objects added to the model, every object moves and is loaded as before; and if the whole system is moved horizontally and turned about the vertical, positions, velocities, forces and the forces returned to the host move and turn with it.",
        "quantifier": {"over": ["inputs", "histories", "configurations"], "text": "all valid models, their rewritings, permutations, unions, line reversals and horizontal rigid motions, all time schemes and host motions"},
        "why_tests_cant": "Each test model is written in a single way, with its objects in a single order and position.",
        "anchors": {"files": ["source/MoorDyn2.cpp", "source/Misc.cpp", "source/Misc.hpp", "source/Line.cpp", "source/Rod.cpp", "source/Body.cpp", "source/Point.cpp", "source/Time.cpp"],
                    "mechanism": mech(("parser", "MoorDyn::ReadInFile, readOptionsLine, findStartOfSection"), ("numbering", "the order of the coupled objects in MoorDyn::Init and Step, and of the state vectors in source/Time.cpp"), ("frames", "rotations of Body, Rod and Line")),
                    "observe_at": ["all the getters of lines, rods, points and bodies", "forces returned by MoorDyn_Step"], "hook_needed": None},
        "technique": "metamorphic property-based testing: two or three runs of the same system written in different ways",
        "note": PBT + "Rewritten files have to give bit by bit the same run; the other relations hold to 1e-8 plus the difference of the initial catenaries, which the iterative solver amplifies. Configurations in which the model itself is discontinuous (vertical rods, lines folded along their rod, rods ending exactly at the surface) are discarded.",
    },
    {
        "id": "P13",
        "title": "Waves and currents follow the input files everywhere",
        "statement": "With waves and currents from files (WaveKin 2, 3 and 7; Currents 1, 2 and 5), the elevation, velocity and acceleration of the water at any point and time are those of linear wave theory for the given components plus the interpolated current table, with the nearest value outside of the tabulated depths and times, nothing above the surface or below the seabed. The hydrodynamic loads of lines, points and rods are those of the kinematics at the position of each node and at the instant of the step, also when the kinematics come from the host.",
        "quantifier": {"over": ["inputs", "histories", "configurations"], "text": "all wave spectra, elevation series, current profiles and grids, depths and bathymetries, query points and times, and models moving through them"},
        "why_tests_cant": "The wavekin tests run one spectrum, one grid and one current profile through a single line; axes order, time interpolation, directions and domain edges are not sampled.",
        "anchors": {"files": ["source/Waves.cpp", "source/Waves.hpp", "source/Waves/SpectrumKin.cpp", "source/Waves/WaveGrid.cpp", "source/Waves/SpectrumKin.hpp", "source/Misc.cpp", "source/Seafloor.cpp"],
                    "mechanism": mech(("construction from files", "constructWaveGridSpectrumData, constructWaveGridElevationData, constructSteadyCurrentGrid, constructDynamicCurrentGrid, construct4DCurrentGrid"), ("interpolation", "WaveGrid::getWaveKin, CurrentGrid::getCurrentKin"), ("summation of components", "SpectrumKin::getWaveKin")),
                    "observe_at": ["MoorDyn_GetWavesKin", "node drag and fluid inertia getters", "velocities after a step"], "hook_needed": None},
        "technique": "property-based testing against an independent linear wave theory and interpolation model",
        "note": PBT + "Oracle: src/water.hpp, 2e-6 of the wave amplitude scale (the wave number is solved to 7 digits). The last instants of the periodic wave grid and the dynamic pressure of WaveKin 7 (not provided) are excluded.",
    },
    {
        "id": "P14",
        "title": "The seabed is the one of the bathymetry file",
        "statement": "The depth at any point is the bilinear interpolation of the bathymetry file given with SeafloorFile, and that of the nearest edge outside of it, whatever the grid spacing and the order and separators of the rows; the reported average and minimum depths are those of the tabulated points. Without a file, the seabed is flat at the depth of the model. Line nodes are pushed up by the seabed, in proportion to the penetration, if and only if they are below the local depth.",
        "quantifier": {"over": ["inputs"], "text": "all bathymetry grids (uneven spacings, any order of the rows), all query points inside, outside and on the edges, and lines lying over the seabed"},
        "why_tests_cant": "A single test uses a bathymetry file, and looks at a few tensions of one line.",
        "anchors": {"files": ["source/Seafloor.cpp", "source/Seafloor.hpp", "source/Line.cpp", "source/MoorDyn2.cpp"],
                    "mechanism": mech(("reading", "Seafloor::setup"), ("interpolation", "Seafloor::getDepthAt"), ("contact", "Line::getStateDeriv and getSeabedDepth")),
                    "observe_at": ["MoorDyn_GetDepthAt, MoorDyn_GetAverageDepth, MoorDyn_GetMinDepth", "MoorDyn_GetLineNodeSeabedForce"], "hook_needed": None},
        "technique": "property-based testing against an independent bilinear interpolation",
        "note": PBT + "Oracle: a brute force bilinear interpolation of the generated table, to the single precision in which the file is read.",
    },
    {
        "id": "P15",
        "title": "Output files record what was requested, at the right instants",
        "statement": "The main output file has a header with the requested channels in order, their units unless WriteUnits is 0, and one row with the time and the value of each channel per MoorDyn_Step (or per dtOut), plus the initial one if dtOut is not set. The values of every documented channel of lines, line nodes, points, rods, rod nodes and bodies are those of the simulation at that instant, in the documented units. The same holds for the files of the individual lines (p, v, U, D, t, c, s, d), rods (p, v) and bodies.",
        "quantifier": {"over": ["inputs", "histories", "configurations"], "text": "all valid models, selections of output channels (in any letter case) and line, rod and body output flags, output periods and motions"},
        "why_tests_cant": "No test reads an output file back except a few single columns; the combinations of channels, objects, nodes, flags and output periods are unbounded.",
        "anchors": {"files": ["source/MoorDyn2.cpp", "source/Line.cpp", "source/Rod.cpp", "source/Body.cpp", "source/Point.cpp", "source/Misc.cpp"],
                    "mechanism": mech(("channel parsing", "OUTPUT section of MoorDyn::ReadInFile, str::decomposeString"), ("rows", "MoorDyn::AllOutput and MoorDyn::GetOutput"), ("objects", "GetLineOutput, GetPointOutput, GetRodOutput, GetBodyOutput and the Output methods")),
                    "observe_at": ["<model>.out, <model>_Line#.out, <model>_Rod#.out and <model>_Body#.out"], "hook_needed": None},
        "technique": "property-based testing: output files parsed back and compared with the API after every step and with the reference load model",
        "note": PBT + "Values are compared to the 6 digits written. Channels without a getter (accelerations, submergence, segment tensions, strains, damping) are compared in the last row with the reference model.",
    },
    {
        "id": "P16",
        "title": "Queries and refused calls have no effect, and settings take effect",
        "statement": "Through the C API, any sequence of queries (of the system, lines, rods, points, bodies, waves and seafloor), logging calls, checkpoints, steps of no time and refused calls leaves the simulation exactly as it was: the run continues bit by bit as that of a twin that never received them. Null handles, objects, nodes or attachments which do not exist, unknown time schemes, null coupled kinematics, missing files and similar invalid arguments are reported with an error code (or a NULL handle) and never crash. Counts, identifiers and node numbers match the model, and a setting (time step, CFL factor, time scheme, line stiffness, pressure bending) reads back as it was set; the time step, time scheme and stiffness set before the initialization act as the same values in the model file, and setting a time scheme keeps the state and the time of the simulation.",
        "quantifier": {"over": ["inputs", "histories", "configurations"], "text": "all valid models and all sequences of API calls before and after the initialization, with valid and invalid arguments"},
        "why_tests_cant": "The tests call each function in the intended order with valid arguments; call orders and invalid arguments are unbounded.",
        "anchors": {"files": ["source/MoorDyn2.cpp", "source/MoorDyn2.hpp", "source/Line.cpp", "source/Line.hpp", "source/Rod.cpp", "source/Rod.hpp", "source/Point.cpp", "source/Body.cpp", "source/Waves.cpp", "source/Seafloor.cpp", "source/Time.hpp"],
                    "mechanism": mech(("argument checks", "CHECK_SYSTEM, CHECK_LINE, ... and the node index checks of the getters"), ("settings", "MoorDyn::SetDt, SetCFL, SetTimeScheme, Line::setConstantEA, enablePb")),
                    "observe_at": ["return codes", "all observables of the run and of its twin", "ASan/UBSan reports"], "hook_needed": None},
        "technique": "stateful property-based testing of API call sequences under ASan+UBSan, differential against a twin instance that only receives the effective calls",
        "note": PBT + "Built with ASan and UBSan. Output buffers are allocated with their exact documented size. NULL output pointers are not claimed, the API does not document them.",
    },
    {
        "id": "P17",
        "title": "The initial condition is the documented one",
        "statement": "Without time for it (MoorDyn_Init_NoIC, or TmaxIC 0, which are identical), the lines start on the elastic catenary between their ends (resting on the seabed when an end lies on it), or straight when they are vertical or too long for the seabed or the catenary cannot be solved. The dynamic initial condition (ICgenDynamic 1) is the simulation from there, at rest and without waves, with the drag coefficients multiplied by CdScaleIC, that stops when the tensions of the lines have been steady within threshIC over dtIC, or at TmaxIC. The stationary one leaves everything at rest with the nominal unstretched lengths, never raises the potential energy, and does not move nor turn what is in equilibrium. Afterwards the time is 0, the water is that of t = 0 and the drag coefficients are the nominal ones: a system without initial condition which is given the same state continues identically.",
        "quantifier": {"over": ["inputs", "configurations"], "text": "all line types, end positions, lengths, schemes, waves, currents and initial condition options"},
        "why_tests_cant": "The tests check a couple of equilibrium tensions after the initial condition of single files; catenary regimes, thresholds and leftovers of the initial condition are not looked at.",
        "anchors": {"files": ["source/MoorDyn2.cpp", "source/Line.cpp", "source/Time.cpp", "source/QSlines.hpp", "source/State.cpp"],
                    "mechanism": mech(("catenary", "Line::initialize and Catenary"), ("dynamic", "MoorDyn::icLegacy"), ("stationary", "MoorDyn::icStationary and StationaryScheme")),
                    "observe_at": ["positions, tensions and unstretched lengths after MoorDyn_Init", "the run afterwards"], "hook_needed": None},
        "technique": "property-based testing: brute force catenary, differential against explicit simulations, energy monotonicity, neutral equilibria",
        "note": PBT + "Buoyant lines are only required to be closer to their catenary than the straight line, the solver of the code being loose there.",
    },
    {
        "id": "P18",
        "title": "The legacy API is the same simulation behind a single hidden system",
        "statement": "MoorDynInit, MoorDynStep, MoorDynClose, externalWaveKinInit, getWaveKinCoordinates, setWaveKin, GetFairTen, GetFASTtens, GetPointPos, GetPointForce and GetNodePos (MoorDyn.h) give exactly the results, codes and output files of the corresponding calls of the current API. An initialization replaces the previous system, and a refused one reports an error and leaves it alive. Without a system every call is an error (-1 tension, 0 wave points) that touches neither the buffers nor the time; lines, points and nodes which do not exist are errors too. An empty or NULL file name means Mooring/lines.txt.",
        "quantifier": {"over": ["inputs", "histories"], "text": "all sequences of legacy calls, on all valid models and with valid and invalid arguments"},
        "why_tests_cant": "The legacy API is used by a few drivers in the intended order; the hidden instance makes the behaviour depend on the whole history of calls.",
        "anchors": {"files": ["source/MoorDyn.cpp", "source/MoorDyn.h", "source/MoorDyn2.cpp"],
                    "mechanism": mech(("hidden system", "md_singleton")),
                    "observe_at": ["return codes, forces, positions and output files"], "hook_needed": None},
        "technique": "stateful property-based testing under ASan+UBSan, differential against the current API",
        "note": PBT + "Exact comparison.",
    },
    {
        "id": "P19",
        "title": "Closed or failed systems release everything",
        "statement": "Creating, initializing, stepping, checkpointing and closing a system over and over leaves no memory and no open file behind, whatever the model, the outputs, the water kinematics, the time scheme and the API (current or legacy), and also when the model file is refused, when the initialization fails and when the system is closed before being initialized.",
        "quantifier": {"over": ["inputs", "histories", "faults"], "text": "all models, broken models and lives of a system"},
        "why_tests_cant": "The tests create each system once per process, and never look at what is left.",
        "anchors": {"files": ["source/MoorDyn2.cpp", "source/MoorDyn2.hpp", "source/MoorDyn.cpp", "source/Line.cpp", "source/Rod.cpp", "source/Log.cpp", "source/Waves.cpp"],
                    "mechanism": mech(("ownership", "MoorDyn::~MoorDyn and the constructor"), ("schemes", "MoorDyn::SetTimeScheme")),
                    "observe_at": ["live allocations and open file descriptors between rounds"], "hook_needed": None},
        "technique": "property-based testing of repeated lives with an interposed allocator and descriptor counts",
        "note": PBT + "Growth in the last two of four rounds is a leak; a cache filled once is not.",
    },
    {
        "id": "P20",
        "title": "The internal time step is the documented one",
        "statement": "The internal time step is dtM when only that option is given; the CFL factor times the smallest natural period of the segments of the lines (2 pi l sqrt(w/EA) for a segment of unstretched length l, mass per unit length w and stiffness EA, the last secant one when it is tabulated) when only CFL is given; the smaller of both when both are given; and the one of CFL 0.5 when none is given. MoorDyn_SetDt, MoorDyn_SetCFL, MoorDyn_GetDt and MoorDyn_GetCFL set and report it consistently, before and after the initialization. Every MoorDyn_Step consists of internal steps of that size and a last shorter one with what is left of the requested step, if anything.",
        "quantifier": {"over": ["inputs", "histories", "configurations"], "text": "all the models, combinations of dtM and CFL in the file and through the API, and requested steps"},
        "why_tests_cant": "The tests always give dtM alone and never ask for the time step, nor look at the internal steps.",
        "anchors": {"files": ["source/MoorDyn2.cpp", "source/MoorDyn2.hpp", "source/Line.cpp", "source/Util/CFL.hpp"],
                    "mechanism": mech(("choice of the time step", "MoorDyn::Init"), ("natural period of the lines", "CFL<> and Line::setup"), ("splitting", "MoorDyn::Step")),
                    "observe_at": ["MoorDyn_GetDt, MoorDyn_GetCFL", "the trajectory of a free falling point with the Euler scheme"], "hook_needed": None},
        "technique": "property-based testing against the formulas of the documentation; the internal steps are recovered from the Euler free fall of a probe",
        "note": PBT + "Known finding: the period of the lines with relative (negative) unstretched length is computed from the fraction.",
    },
    {
        "id": "P21",
        "title": "The Python module is the C API",
        "statement": "Every function of the Python module moordyn does what the C function it stands for does, for every model and sequence of calls: the getters of the system and of its bodies, rods, points, lines, waves, current and seafloor give exactly the values of the C API; the setters, MoorDyn_Init, MoorDyn_Step, the saved and restored states, external wave kinematics and log settings have the same effect and give the same results; the numbers may be given as lists or tuples of integers or floats. Failures are error codes or exceptions as in the C API, and bad arguments (wrong types, wrong sizes, indices out of range, other kinds of object) raise a Python exception and never crash nor change the system.",
        "quantifier": {"over": ["inputs", "histories"], "text": "all models, sequences of calls and arguments"},
        "why_tests_cant": "The Python tests call a handful of functions on a single model, without looking at most of the returned values.",
        "anchors": {"files": ["wrappers/python/cmoordyn.cpp", "wrappers/python/moordyn/moordyn.py"],
                    "mechanism": mech(("conversion of arguments and results", "wrappers/python/cmoordyn.cpp"), ("Python functions", "wrappers/python/moordyn/moordyn.py")),
                    "observe_at": ["values and exceptions of the functions of the module moordyn"], "hook_needed": None},
        "technique": "property-based differential testing: the embedded interpreter drives one instance, the C API a twin one, exact comparison, ASan",
        "note": PBT + "Coupled pinned bodies are excluded (known finding of P07: the announced size of the arrays is not the exchanged one).",
    },
    {
        "id": "P22",
        "title": "Models built with the Python Generator are the intended ones",
        "statement": "A model described with the classes of moordyn.Generator (line and rod materials, bodies, rods, points, lines with their ends on points or on either end of the rods, attachments to bodies, options) and created with Mooring.Create() is exactly the one of the equivalent hand written input file: same objects with the same numbers and types, same initial state, forces and motion. That does not depend on the order in which the objects of different kinds are added, on the values being passed to the constructors or assigned to the properties afterwards (before or after adding the object), on integers, floats, lists or tuples, nor on creating the system twice.",
        "quantifier": {"over": ["inputs", "histories"], "text": "all models the classes can describe, and ways of describing them"},
        "why_tests_cant": "The only test builds one model with three lines between points, and bodies, rods and properties are never used.",
        "anchors": {"files": ["wrappers/python/moordyn/Generator/" + f for f in ("Mooring.py", "Entity.py", "Body.py", "Rod.py", "Point.py", "Line.py", "Option.py")],
                    "mechanism": mech(("columns and words of the entities", "the __set_values() and __str__() of each class"), ("writing the file", "Mooring.__write_input_file")),
                    "observe_at": ["the system returned by Mooring.Create(), through the C API"], "hook_needed": None},
        "technique": "property-based differential testing: generated Python scripts against the same model written as an input file, exact comparison",
        "note": PBT + "Not claimed: renaming a material after it was used, and the Failure class (MoorDyn-F only).",
    },
]
NOT_APPLICABLE = []
