#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (keeps the two in step)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTEST = "The test suite links only the kernel, reference values, bucket/neighbour search, exporter and VTU loader and runs each on one input; "
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, technique="", level="exploration", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  state=state or [], observe=observe or [], technique=technique, level=level, note=note))

prop("P01", "Neighbour search is exact",
 "After every neighbour update, the neighbour list of each non-ghost particle contains every other non-ghost particle strictly closer than the search radius exactly once, with its true distance, and nothing else. This holds for every domain box (2D or 3D, any offset), every arrangement including positions on the box or cell boundaries, and after any sequence of moves and updates with the same searcher.",
 ["inputs", "histories"], "all domain boxes, radii, particle arrangements and types, and all sequences of moves followed by updates of one searcher",
 "The one test uses 100 uniformly random fluid particles in one 2D box and a single update; boundaries, 3D, offsets, non-fluid types, ghosts and repeated updates are never sampled.",
 ["src/bucket.cpp", "src/neighbor_searcher.cpp"],
 [("linked-list cell grid with one layer of padding", "src/bucket.cpp:11-80"), ("27-cell scan with distance filter", "src/neighbor_searcher.cpp:11-45")],
 state=[("first/last/next", "cell heads, tails and per-particle links", "src/bucket.hpp")], observe=["Particle::neighbors after NeighborSearcher::setNeighbors"],
 technique="ASan/UBSan-instrumented searcher, brute-force neighbour oracle over generated move histories")

prop("P02", "Particles leaving the domain become inert ghosts, no others do",
 "At every neighbour update a particle whose position is outside the closed domain box, or is not a number, becomes a ghost, and a particle inside the box never does. A ghost stays a ghost: it never moves or changes velocity again, has zero pressure and zero number density, is nobody's neighbour, and does not influence any other particle; it still appears in every saved file.",
 ["inputs", "histories"], "all trajectories, including particles that start outside, sit exactly on the boundary, leave in the prediction or collision phase, or blow up to non-finite positions",
 NOTEST + "no test moves a particle or has one outside the box.",
 ["src/bucket.cpp", "src/neighbor_searcher.cpp", "src/mps.cpp"],
 [("domain test", "src/bucket.cpp:36-58"), ("type checks in every phase", "src/mps.cpp")],
 state=[("type", "particle type", "src/particle.hpp")], observe=["particle states before/after each step", "saved VTU files"],
 technique="online state monitor around every real step plus ghost-removal differential runs, under ASan/UBSan")

prop("P03", "Particles keep their identity and walls never move",
 "During a run no particle is created, lost, reordered or duplicated, and its fluid type and density never change; its particle type changes at most once, to ghost. Wall and dummy wall particles keep exactly their initial position and velocity forever, whatever hits them and whatever the pressure or gravity.",
 ["inputs", "histories"], "all initial particle sets, settings and step counts, in both pressure methods",
 NOTEST + "no test runs a time step.",
 ["src/mps.cpp", "src/particles.cpp", "src/particle.cpp"],
 [("fluid-only motion", "src/mps.cpp:105-115,219-229"), ("zero inverse density for non-fluid in collisions", "src/particle.cpp:12-23")],
 observe=["particle states before/after each step"],
 technique="online invariant monitor over particle state at every step boundary, under ASan/UBSan")

prop("P04", "Weight function and reference values are those of a full regular lattice",
 "The weight is re/r - 1 for 0 < r < re and exactly 0 from re on. The reference number density n0 is the sum of the weights, and lambda the weight-averaged squared distance, over all points of the regular square (2D) or cubic (3D) lattice with the given spacing around a lattice point, for every ratio of effective radius to spacing and every spacing.",
 ["inputs"], "all distances, effective radii, spacings, and both dimensions",
 "Tests evaluate the weight at three points and the reference values for one spacing and one ratio (1.5).",
 ["src/weight.cpp", "src/refvalues.cpp"],
 [("closed form weight", "src/weight.cpp"), ("lattice sum", "src/refvalues.cpp")],
 observe=["weight()", "RefValues::n0, RefValues::lambda"],
 technique="generated-input differential monitor against exact long-double lattice sums, under ASan/UBSan")

prop("P05", "Prediction applies exactly gravity and viscosity to fluid particles",
 "Where no collision, domain exit or pressure acts, one step changes each fluid particle's velocity by dt times gravity plus the viscous term nu*2d/(n0*lambda0) times the sum over all non-ghost particles within the Laplacian radius of the velocity difference weighted by the kernel, and then moves it by dt times its new velocity. All fluid particles are updated from the state at the start of the step; nothing carries over from earlier steps. Gravity is the given vector or, with norm and angle, that norm turned by the angle counter-clockwise from -Y in the XY plane.",
 ["inputs", "histories"], "all particle states, viscosities, gravity specifications, radii, dimensions and step counts",
 NOTEST + "the stepping code is not even linked.",
 ["src/mps.cpp", "src/mps_factory.cpp"],
 [("gravity", "src/mps.cpp:66-75"), ("viscosity", "src/mps.cpp:77-103"), ("motion", "src/mps.cpp:105-115"), ("gravity vector", "src/mps_factory.cpp:12-20")],
 observe=["state at step start, state handed to the pressure calculator"],
 technique="online phase monitor: brute-force executable model of the prediction phase compared with the live state at the pressure call, under ASan/UBSan")

prop("P06", "Collisions conserve momentum, restore distance and never add energy",
 "When, after prediction, exactly two particles (at least one fluid) are closer than the collision distance and neither is that close to any third, they are pushed apart along their line to exactly the collision distance, and if approaching their relative normal velocity becomes -restitution times what it was. Among fluid particles momentum (weighted by density) and centre of mass are conserved in every collision, also in larger clusters, and kinetic energy never grows for restitution in [0,1]; a wall partner stays unaffected. Particles with no partner that close are not changed by the collision phase.",
 ["inputs", "histories"], "all overlapping configurations, densities, restitution coefficients, collision distances, approach directions and cluster shapes",
 NOTEST + "collision code is not linked.",
 ["src/mps.cpp", "src/particle.cpp"],
 [("impulse and position correction", "src/mps.cpp:117-155"), ("inverse density", "src/particle.cpp")],
 observe=["state at step start, state handed to the pressure calculator"],
 technique="online conservation and impulse monitor at the pressure call with generated pairs and clusters, under ASan/UBSan")

prop("P07", "Number density is the kernel sum over the positions pressure is computed on",
 "At every pressure calculation each non-ghost particle's number density equals the sum of the weights (with the number-density radius) of all other non-ghost particles of any type at their current, post-collision positions; for ghosts it is 0. The value and its ratio to the reference density are what the saved files report for that step.",
 ["inputs", "histories"], "all configurations, radii (whichever of the three is largest), dimensions, particle types, and step counts",
 NOTEST + "number density is never computed in a test.",
 ["src/mps.cpp", "src/particles_exporter.cpp", "src/saver.cpp"],
 [("neighbour refresh then kernel sum", "src/mps.cpp:45-48,157-168")],
 observe=["Particle::numberDensity at the pressure call", "VTU Number Density / Number Density Ratio arrays"],
 technique="online monitor: brute-force kernel sum at every pressure call, and offline check of saved files, under ASan/UBSan")

prop("P08", "Free-surface classification follows the configured criterion",
 "With the implicit method every step marks ghost and dummy wall particles as ignored and every fluid or wall particle as free surface or inner. In number-density mode it is free surface iff its number density is below threshold times the reference; in particle-distribution mode it must in addition have no neighbours or have a coordinate of the summed vectors to all neighbours within the largest effective radius exceed, in absolute value, distribution threshold times particle distance.",
 ["inputs", "histories"], "all configurations, thresholds, both modes, both dimensions, all directions of the neighbour imbalance",
 NOTEST + "the surface detectors are not linked.",
 ["src/surface_detector/number_density.cpp", "src/surface_detector/distribution.cpp", "src/pressure_calculator/dirichlet_boundary_condition_generator/free_surface.cpp", "src/mps_factory.cpp"],
 [("main and sub detection", "src/surface_detector/distribution.cpp"), ("classification", "src/pressure_calculator/dirichlet_boundary_condition_generator/free_surface.cpp")],
 observe=["Particle::boundaryCondition after each pressure calculation", "VTU Boundary Condition array"],
 technique="online monitor with an independent classifier at every pressure call, under ASan/UBSan")

prop("P09", "Implicit pressures solve the pressure Poisson equation",
 "With the implicit method the pressures after each calculation are the solution, negatives set to 0, of the linear system in which ghosts, dummy walls and free-surface particles have pressure 0 and every inner particle i satisfies sum_j c_ij (P_i - P_j) + (compressibility/dt^2) P_i = gamma/dt^2 (n_i - n0)/n0 with c_ij = 2d/(n0 lambda0) w(r_ij)/rho_i over non-ghost, non-dummy particles within the Laplacian radius. If the solver cannot solve it the run fails instead of continuing.",
 ["inputs", "histories"], "all configurations, densities, compressibilities, relaxation coefficients, time steps, radii and mixtures of particle types",
 NOTEST + "the pressure calculators are not linked.",
 ["src/pressure_calculator/implicit.cpp", "src/pressure_calculator/pressure_poisson_equation.cpp", "src/pressure_calculator/dirichlet_boundary_condition.cpp"],
 [("assembly", "src/pressure_calculator/pressure_poisson_equation.cpp:82-129"), ("BiCGSTAB with failure exit", "src/pressure_calculator/pressure_poisson_equation.cpp:44-63"), ("clamp", "src/pressure_calculator/implicit.cpp:51-58")],
 observe=["return value of the pressure calculator", "Particle::pressure"],
 technique="online monitor: independently assembled system, dense direct solve compared with live pressures, under ASan/UBSan")

prop("P10", "Explicit pressures follow the equation of state",
 "With the explicit method every fluid and wall particle's pressure after a step is soundSpeed^2 * density * (n - n0)/n0, using its own density and its number density of that step, when n exceeds n0, and exactly 0 otherwise; it is 0 for ghosts and never negative.",
 ["inputs", "histories"], "all configurations, per-particle densities, sound speeds, radii and step counts",
 NOTEST + "the explicit calculator is not linked.",
 ["src/pressure_calculator/explicit.cpp", "src/mps.cpp"],
 [("equation of state", "src/pressure_calculator/explicit.cpp:16-37"), ("re-evaluation at step end", "src/mps.cpp:57-63")],
 observe=["Particle::pressure and numberDensity after each step"],
 technique="online equation-of-state monitor at every step, under ASan/UBSan")

prop("P11", "Correction moves fluid by the minimum-pressure gradient only",
 "After the pressure calculation each fluid particle is accelerated by -(1/rho_i)(d/n0) sum_j (P_j - Pmin_i)/|r_ij|^2 r_ij w(r_ij) over fluid and wall particles within the gradient radius, where Pmin_i is the smallest pressure among itself and those particles; its velocity changes by dt and its position by dt^2 times that, and nothing else changes it. All accelerations use the positions and pressures before any particle is corrected.",
 ["inputs", "histories"], "all configurations, pressure fields, per-particle densities, radii and dimensions, both pressure methods",
 NOTEST + "the stepping code is not linked.",
 ["src/mps.cpp"],
 [("minimum pressure", "src/mps.cpp:184-207"), ("gradient", "src/mps.cpp:209-234"), ("correction", "src/mps.cpp:236-246")],
 observe=["state at the pressure call, pressures returned, state after the step"],
 technique="online phase monitor: brute-force gradient model from the live mid-step state compared with the end-of-step state, with injected pressure fields, under ASan/UBSan")

prop("P12", "Courant number is exact and a CFL violation is always reported",
 "After each step the reported Courant number is the largest fluid speed times dt divided by the particle distance (0 without fluid particles), and an error naming it is written to standard error for exactly those steps in which it exceeds the configured CFL condition.",
 ["inputs", "histories"], "all velocity fields, time steps, particle distances, CFL settings and step counts",
 NOTEST + "the stepping code is not linked.",
 ["src/mps.cpp", "src/simulation.cpp"],
 [("maximum over fluid", "src/mps.cpp:248-262")], observe=["MPS::courant", "stderr of the program"],
 technique="online monitor of the Courant value and captured error stream at every step, under ASan/UBSan")

prop("P13", "Runs are repeatable and depend only on the current particle state",
 "Two runs on the same input write byte-identical particle files, whatever the memory contents, environment or address layout. Starting a fresh simulation from the full-precision particle state (type, fluid type, position, velocity, density) reached after any number of steps gives the same subsequent states as the uninterrupted run.",
 ["inputs", "histories"], "all inputs and all points at which a run is continued in a fresh simulation",
 NOTEST + "nothing is run twice.",
 ["src/mps.cpp", "src/simulation.cpp", "src/pressure_calculator/implicit.cpp", "src/pressure_calculator/pressure_poisson_equation.cpp"],
 [("per-step reset of accelerations, neighbours, matrix and pressure", "src/mps.cpp, src/pressure_calculator/pressure_poisson_equation.cpp:65-69")],
 observe=["saved files of repeated runs", "particle states of split and uninterrupted runs"],
 technique="trace-equality monitor over repeated runs with poisoned heap, and split-run differential monitor, under ASan/UBSan")

prop("P14", "Results do not depend on OpenMP threads and no data race exists",
 "Built with OpenMP, the program computes the same particle states for every number of threads, every assignment of loop iterations to threads and every interleaving as it does when run serially. No two threads access the same memory without synchronisation when one of them writes.",
 ["schedules", "inputs"], "all thread counts, iteration-to-thread assignments and interleavings of the parallel loops, over all inputs",
 "Tests are built without OpenMP and single-threaded, so no parallel loop ever runs in parallel.",
 ["src/mps.cpp", "src/bucket.cpp", "src/neighbor_searcher.cpp", "src/pressure_calculator/explicit.cpp", "src/pressure_calculator/implicit.cpp", "src/pressure_calculator/pressure_poisson_equation.cpp", "src/pressure_calculator/dirichlet_boundary_condition_generator/free_surface.cpp"],
 [("per-particle writes only inside parallel loops; pairwise updates kept serial", "src/mps.cpp, src/bucket.cpp:21-70")],
 observe=["ThreadSanitizer reports", "particle states across schedules"],
 technique="ThreadSanitizer with a purpose-built OpenMP runtime (randomised threads, assignments and delays), and schedule-differential monitor")

prop("P15", "No memory error or undefined behaviour on any input file",
 "Whatever particle file is given (well-formed, truncated, corrupted, or physically absurd such as coincident particles, huge or non-finite coordinates and velocities, unknown particle types) and for every valid setting, the program never reads or writes out of bounds, uses freed or uninitialised memory, or performs undefined arithmetic; it either runs or stops with an error.",
 ["inputs", "histories"], "all particle files in the three formats and all valid settings, over whole runs",
 NOTEST + "inputs are tiny, well-formed and run without instrumentation.",
 ["src/particles_loader/prof.cpp", "src/particles_loader/csv.cpp", "src/particles_loader/vtu.cpp", "src/bucket.cpp", "src/neighbor_searcher.cpp", "src/mps.cpp", "src/pressure_calculator/pressure_poisson_equation.cpp", "src/particles_exporter.cpp"],
 [("domain filter before cell indexing", "src/bucket.cpp:36-60"), ("stream checks in loaders", "src/particles_loader/")],
 observe=["sanitizer and valgrind reports of whole program runs"],
 technique="AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++/Eigen assertions and valgrind memcheck over generated and mutated inputs")

prop("P16", "Outputs are saved on schedule and the run ends at the end time",
 "The initial state is saved first; afterwards file set k (k = 1, 2, ...) is saved after the first step, following the save of set k-1, at which the simulated time since the start is at least k output periods, at most one set per step. Steps of dt are taken as long as the time is below the end time and no longer. Sets are numbered consecutively from 0000, each exists in all three formats, each file carries the simulated time of the state it holds, and time starts at the start time given in the particle file.",
 ["inputs", "configurations", "histories"], "all combinations of start time, dt, output period and end time, including periods shorter than dt and end times before the start",
 NOTEST + "the simulation loop and saver are not linked.",
 ["src/simulation.cpp", "src/saver.cpp"],
 [("main loop", "src/simulation.cpp:30-48"), ("save condition", "src/simulation.cpp:106-109"), ("numbering", "src/saver.cpp:13-31")],
 state=[("fileNumber", "number of sets saved", "src/saver.hpp"), ("time/timeStep", "simulated clock", "src/simulation.hpp")],
 observe=["files in the output directory", "time stamps in the files"],
 technique="offline trace checker: saved-file log of real runs against an exact-arithmetic schedule model")

prop("P17", "Saved files state exactly the particle state",
 "Every saved set lists all particles in order. The binary VTU file is well formed and carries type, fluid type, position, velocity, pressure, number density, its ratio to the reference, boundary condition and time bit-exactly; the ASCII VTU file carries the same, and the profile and CSV files type, position, velocity and time (CSV also fluid type), to six significant digits. The declared particle counts, array lengths and offsets match the data.",
 ["inputs", "configurations"], "all particle states, counts (including none), values of any magnitude and sign, and both VTU encodings",
 "Tests only check that a file exists after exporting 100 zero particles; the values and the binary encoding are never read back.",
 ["src/particles_exporter.cpp", "src/saver.cpp"],
 [("writers", "src/particles_exporter.cpp")], observe=["exported files re-read by independent parsers"],
 technique="export monitor: independent parsers re-read every file and compare with the in-memory state, under ASan/UBSan")

prop("P18", "Particle files are loaded faithfully in every format",
 "Loading a profile, CSV or ASCII VTU file yields the particles it lists, in order, with their type, position and velocity, and the file's start time. CSV columns may come in any order; fluid type (CSV, VTU) defaults to 0; a particle without a density or with a negative one gets the default density, every other keeps its own, and number density arrays in a VTU file are never taken for the density.",
 ["inputs"], "all well-formed files: any column order, optional columns present or absent, array order, number notation, counts",
 "The one loader test reads two particles from one VTU file and does not look at fluid type or density; the CSV and profile loaders are not linked.",
 ["src/particles_loader/csv.cpp", "src/particles_loader/prof.cpp", "src/particles_loader/vtu.cpp", "src/loader.cpp"],
 [("column-name based CSV reading", "src/particles_loader/csv.cpp"), ("stream extraction", "src/particles_loader/prof.cpp"), ("array-name based VTU reading", "src/particles_loader/vtu.cpp")],
 observe=["particles and start time returned by the loaders"],
 technique="differential monitor: generated files loaded by the instrumented loaders, compared with the generator's record, under ASan/UBSan")

prop("P19", "Saved states can be loaded again and converted without loss",
 "A profile, CSV or ASCII VTU file saved for any state with finite values loads again with the same particle count, order, types, fluid types (CSV, VTU), and, to six significant digits, positions, velocities and time, so a run can be restarted from any of them. The supplied profile-to-CSV conversion script turns a saved profile into a CSV file that loads to the same particles and time.",
 ["inputs", "histories"], "all saved states with finite values and all three restart formats",
 "The one round-trip test uses two particles with short decimal values and one format.",
 ["src/particles_exporter.cpp", "src/particles_loader/csv.cpp", "src/particles_loader/prof.cpp", "src/particles_loader/vtu.cpp", "scripts/prof_to_csv.sh"],
 [("writers and readers agree on layout", "src/particles_exporter.cpp, src/particles_loader/"), ("line-by-line conversion", "scripts/prof_to_csv.sh")],
 observe=["particles loaded from files exported from known states"],
 technique="round-trip monitor over generated states, all formats and the conversion script, under ASan/UBSan")

prop("P20", "Every setting in the YAML file takes effect as documented",
 "Each documented key of the settings file reaches the simulation with exactly the given value, whatever the order of keys; lengths given as ratios are multiplied by the particle distance, the search radius is the largest effective radius, the domain spans domainMin to domainMax, the particle file path is taken relative to the settings file's directory, and the optional keys default to xyz gravity, zero norm and angle, and ASCII VTU output.",
 ["configurations"], "all settings files with valid values in any key order, notation and location",
 NOTEST + "the settings loader is not linked.",
 ["src/loader.cpp", "src/settings.hpp", "src/mps_factory.cpp", "src/simulation.cpp"],
 [("key-by-key YAML reading", "src/loader.cpp:77-144")], observe=["Settings after loading", "method selection and output encoding of real runs"],
 technique="configuration monitor: generated settings files loaded by the instrumented loader and compared field by field, under ASan/UBSan, plus whole-program observations")

prop("P21", "Inputs are archived unchanged and nothing is overwritten",
 "A run leaves the settings and particle files untouched and puts byte-identical copies of both, under their own names, in the output directory before simulating. If either name already exists there, the program stops with a failure status, keeps every existing file in the output directory unchanged and saves no simulation results. Of two runs with a common input file name started on one output directory, at most one simulates, however their actions interleave, and what it saves is not disturbed by the other.",
 ["inputs", "configurations", "histories"], "all input names, locations and formats, and all prior contents of the output directory, and the points of a run at which a second one is started",
 NOTEST + "the loader and main program are not linked.",
 ["src/loader.cpp", "src/main.cpp"],
 [("copy with existence check", "src/loader.cpp:62-75")], observe=["directory contents before and after the run", "exit status"],
 technique="file-system monitor: content hashes before/after real runs")

prop("P22", "Bad invocations and inputs are rejected, never simulated",
 "A missing or unknown command-line option, a setting file, output directory or particle file that does not exist, a missing or ill-typed required setting, an unknown pressure method, an unsupported particle file extension, a binary VTU input, or a truncated or malformed particle file (bad number, missing required CSV column, too few profile rows) makes the program end promptly with a failure status and a message on standard error, without saving any particle output and without reporting the end of a simulation.",
 ["inputs", "configurations"], "all such faulty invocations and files, including each required setting in turn",
 NOTEST + "no test exercises an error path.",
 ["src/main.cpp", "src/loader.cpp", "src/mps_factory.cpp", "src/particles_loader/csv.cpp", "src/particles_loader/prof.cpp", "src/particles_loader/vtu.cpp"],
 [("argument actions", "src/main.cpp:21-64"), ("format dispatch", "src/loader.cpp:42-55"), ("method dispatch", "src/mps_factory.cpp:50-71")],
 observe=["exit status, stderr and output directory of real runs"],
 technique="fault-input monitor over real program runs (status, message, produced files, bounded time)")

prop("P23", "A run that reports success has written every file completely",
 "If any output file cannot be opened or completely written (disk full, I/O error, size limit, name taken by a directory), the program ends with a failure status and a message instead of continuing; when it exits successfully, every saved file is complete.",
 ["fault_sequences", "inputs"], "every output operation failing in turn, with different error kinds, in both VTU encodings",
 NOTEST + "no fault is ever injected.",
 ["src/particles_exporter.cpp", "src/saver.cpp", "src/loader.cpp"],
 [("open and close checks", "src/particles_exporter.cpp")], observe=["exit status and files after an injected fault"],
 technique="fault-injection monitor (seccomp/ptrace supervisor failing each write/open in turn) against the fault-free run's files", level="fault_enumeration")

prop("P24", "Generators produce valid tanks and never overwrite unasked",
 "The dam-break and hydrostatic generators write profile and VTU files that agree with each other and list, on a regular grid without overlaps, fluid exactly in the documented fluid region, enclosed on both sides and below by two layers of walls backed by dummy walls; the simulator accepts them. If input files already exist they are replaced only after the answer y; on n, on end of input, or while only other answers are given, nothing is changed, and the program always terminates when its input ends.",
 ["inputs", "histories"], "all sequences of answers, all combinations of pre-existing files, both generators",
 NOTEST + "the generators are only compiled.",
 ["generator/generate_dambreak.cpp", "generator/generate_hydrostatic.cpp", "generator/generator_src/generator_dialogue.cpp"],
 [("region classification", "generator/*.cpp"), ("confirmation dialogue", "generator/generator_src/generator_dialogue.cpp")], observe=["generated files", "file contents after each dialogue"],
 technique="dialogue and file monitor over instrumented generator runs in scratch directories against a geometric region model")

prop("P25", "Physics does not depend on axes, origin, units or numbering",
 "Mirroring, rotating by right angles or exchanging axes of the whole problem (particles, velocities, gravity, domain), shifting it in space, or renumbering the particles transforms the result of a step accordingly and changes nothing else, up to rounding, as long as no collision involves more than two particles. Scaling all lengths and velocities (gravity and viscosity accordingly) scales the motion accordingly.",
 ["inputs"], "all configurations in general position and all such transformations, both pressure methods, both surface criteria",
 NOTEST + "no step is run.",
 ["src/mps.cpp", "src/bucket.cpp", "src/neighbor_searcher.cpp", "src/surface_detector/distribution.cpp", "src/pressure_calculator/pressure_poisson_equation.cpp"],
 [("isotropic kernels and pairwise terms", "src/mps.cpp")], observe=["particle states of original and transformed runs"],
 technique="metamorphic differential monitor over paired instrumented runs, under ASan/UBSan")

prop("P26", "A killed run leaves all earlier file sets complete",
 "If the program is killed at any moment, every file set saved before the one being written is complete and identical to what an uninterrupted run writes, the archived inputs are intact once the first set exists, and continuing from the last complete profile, CSV or ASCII VTU set works.",
 ["crash_points", "inputs"], "every output operation as the last one before the kill",
 NOTEST + "no run is ever interrupted.",
 ["src/saver.cpp", "src/particles_exporter.cpp", "src/simulation.cpp", "src/loader.cpp"],
 [("files are completed and closed one after another before the simulation goes on", "src/saver.cpp:13-31")], observe=["output directory after the kill"],
 technique="crash-point enumeration (a seccomp/ptrace supervisor kills the real program at the k-th output operation) with offline completeness checker", level="fault_enumeration")

prop("P27", "A resting tank of water stays at rest with hydrostatic pressure",
 "A fluid at rest in an open tank, simulated with parameters like the supplied ones, stays in the tank with both pressure methods, in two and three dimensions: no fluid particle passes the walls, is lost or turned into a ghost, the fluid does not expand or collapse, speeds stay small, and the pressure averaged over time grows with depth as density * g * depth within the method's accuracy. A collapsing water column likewise keeps all its fluid within the walls, never gains energy, and its front advances as measured by Martin and Moyce.",
 ["inputs", "histories"], "tanks and columns of different sizes, spacings, densities and gravity strengths, any numbering, input format and frame (turned, mirrored, shifted), parameters scaled from the supplied ones, over hundreds of steps",
 "No test runs a simulation; CI only draws a picture of the hydrostatic case for a human.",
 ["src/mps.cpp", "src/pressure_calculator/implicit.cpp", "src/simulation.cpp"],
 [("the whole MPS step", "src/mps.cpp:36-64")], observe=["saved binary VTU files of whole runs"],
 technique="offline physical-envelope checker over traces of whole simulations of the real program")

prop("P28", "The console report states what actually happened",
 "Between the notices of its start and end a run reports every time step exactly once and in order: on standard output its number (from 1), the time step, the simulated time after it, the end time, the wall time elapsed since the start in hours, minutes and seconds, the wall time remaining as estimated from the average pace, the average and last wall time per step, the number of file sets saved so far and the Courant number (largest fluid speed times time step over particle distance); on standard error its number and simulated time, and a warning exactly when the Courant number exceeds the CFL condition. The end is reported, with the total wall time, only when the end time was reached.",
 ["inputs", "histories"], "all settings, start times, step counts and clock behaviours, including runs of months and runs that are killed",
 NOTEST + "no output on the console is ever looked at.",
 ["src/simulation.cpp", "src/simulation.hpp", "src/mps.cpp"],
 [("step report", "src/simulation.cpp:66-110"), ("hours, minutes and seconds", "src/simulation.hpp:42-53"), ("Courant number", "src/mps.cpp:242-256")], observe=["standard output and standard error", "clock readings", "saved binary VTU files"],
 technique="offline checker over an ordered log of report lines and clock readings of the real program under a preloaded virtual clock")

prop("P29", "Long runs do not grow, and the work is proportional to the particles",
 "Memory in use, the number of open files and the cost of a step do not grow with the number of steps made or file sets saved; no allocated memory is lost, in finished runs, rejected runs or the generators. CPU time and memory for loading, stepping and saving grow in proportion to the number of particles (with the iterations of the pressure solver), not quadratically.",
 ["inputs", "histories"], "all run lengths, numbers of saved sets, input formats, methods and particle numbers",
 NOTEST + "each runs for milliseconds on at most a few hundred particles.",
 ["src/simulation.cpp", "src/saver.cpp", "src/particles_exporter.cpp", "src/bucket.cpp", "src/neighbor_searcher.cpp", "src/particles_loader"],
 [("reused neighbour lists, buckets and matrices", "src/neighbor_searcher.cpp, src/pressure_calculator/pressure_poisson_equation.cpp"), ("cell grid instead of all pairs", "src/bucket.cpp"), ("sparse matrix", "src/pressure_calculator/pressure_poisson_equation.cpp")],
 observe=["live heap bytes and blocks, open descriptors and CPU time at every clock reading", "LeakSanitizer"],
 technique="online allocation, descriptor and CPU monitor (preloaded) over long and large runs of the real program, LeakSanitizer")

prop("P30", "The runner scripts run the named project and touch nothing else",
 "From whatever directory and by whatever path they are called, and wherever the project folder lies, runner.sh starts the program once with input/dambreak/settings.yml on result/dambreak after removing what an earlier run left there, and safe_runner.sh starts it with the named project's settings on a new directory result/<time>-<project>-<note>, leaving all earlier results alone. Standard error goes completely to error.log, standard output both to the terminal and to console.log there. Nothing else is changed or removed. Without a project name safe_runner.sh prints its usage, fails and does nothing.",
 ["inputs", "histories"], "all folder names, working directories, ways of calling, project names and notes, earlier contents",
 "No test calls the scripts.",
 ["scripts/runner.sh", "scripts/safe_runner.sh"],
 [("change to the project folder", "scripts/runner.sh:13"), ("clearing the result directory", "scripts/runner.sh:20")], observe=["file tree before and after", "recorded starts of the program and of rm"],
 technique="file tree and command monitor over scripts run as an unprivileged user in scratch folders with recording stand-ins")

prop("P31", "Results depend on the problem, not on how it is written, saved or stopped",
 "Two runs of the same physical problem pass through identical states: the files saved at a common time agree byte for byte (to six digits between text and binary) whatever the output period, the end time, the VTU encoding, the CFL limit, the number of cores named, the order, layout and comments of the settings, the format, column order and number notation of the particle file, a default density left out or spelt out, the fluid types, and the settings that belong to the method, surface criterion or gravity notation not chosen.",
 ["inputs", "histories"], "all problems whose numbers every format states exactly, and all such variants of them",
 NOTEST + "no test compares two runs.",
 ["src/simulation.cpp", "src/saver.cpp", "src/particles_exporter.cpp", "src/loader.cpp", "src/particles_loader", "src/mps_factory.cpp"],
 [("saving between steps", "src/simulation.cpp:30-48"), ("format chosen by extension", "src/loader.cpp"), ("construction by method and criterion", "src/mps_factory.cpp:10-75")],
 observe=["all files saved by the variants of one problem"],
 technique="offline trace equality monitor over whole runs of up to 13 variants of generated problems")

GUARANTEE = ("Held on the executions explored (counts in the evidence file); nothing is said about inputs the workload did not reach. "
             "Trusts the compiler, the sanitizer runtimes and the oracle in /verif. ")

def manifest():
    done = json.load(open(os.path.join(ROOT, "tools", "claimed.json")))
    checks, na = [], []
    for p in P:
        if p["id"] in done:
            cmd = f"python3 bin/check {p['id']}"
            checks.append(dict(property=p["id"], quick_cmd=cmd + " quick", thorough_cmd=cmd + " thorough", evidence_file=f"evidence/{p['id']}.json",
                               technique=p["technique"], level=p["level"], level_note=GUARANTEE + done[p["id"]]))
        else:
            na.append(dict(property=p["id"], reason="check not built yet"))
    return dict(version=1, setup_cmd="python3 bin/setup", checks=checks, not_applicable=na,
                notes="No hooks were added to /repo: every monitor attaches through public interfaces, the sanitizers, a private OpenMP runtime or a supervisor of system calls. Quick and thorough commands are the same program at different depth.")

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        anchors = dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mechanism"]], observe_at=p["observe"], hook_needed=None)
        if p["state"]: anchors["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                why_tests_cant=p["why"], anchors=anchors)) + "\n")
json.dump(manifest(), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(ROOT, "properties.jsonl")): jsonschema.validate(json.loads(l), s)
    jsonschema.validate(manifest(), json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("schemas ok")
except (ImportError, FileNotFoundError): pass
