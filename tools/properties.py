prop("P01", "Two-body motion follows the analytic Kepler solution",
     "Integrating any two-body system, bound or unbound, with any of the adaptive integration methods and precisions the library offers, from any start time and in any reference frame, ends at the requested time in the state given by the analytic Kepler solution. The relative error stays within a small multiple of the requested tolerance (and of machine precision) times the amplification inherent in the orbit, and the median error over several orbits is smaller still.",
     ["inputs", "configurations"], "every pair (masses, eccentricity up to 0.9999 or hyperbolic up to 11, orientation, frame), tolerance, start time, duration and every adaptive method",
     "The tests integrate a handful of fixed orbits with loose energy bounds; they cannot see an error that appears only for some mass ratio, frame, phase or one of the ~200 method variants.",
     ["src/spaceHub.hpp", "src/simulator.hpp", "src/particle-system/regu-system.hpp", "src/particle-system/archain.hpp", "src/ode-iterator/Bulirsch-Stoer.hpp", "src/ode-iterator/IAS15.hpp", "src/integrator/Gauss-Radau.hpp", "src/integrator/symplectic/symplectic-integrator.hpp"],
     [("Simulator::run", "src/simulator.hpp"), ("BulirschStoer::iterate", "src/ode-iterator/Bulirsch-Stoer.hpp"), ("RegularizedSystem::advance_time", "src/particle-system/regu-system.hpp")],
     "Generated orbits for all adaptive methods against an independent universal-variable Kepler solver in long double; bounds scale with the measured condition number of each orbit. Trusts the reference solver; bound eccentricities above 0.9999 and parabolas to within 0.001 are not sampled here, and the second-order methods are run on eccentricities below 0.9 only.")
prop("P05", "Constant-step methods converge at their design order",
     "For every constant-step method, halving the step repeatedly reduces the error of a smooth trajectory at the rate of the method's nominal order (2, 4, 6, 8, 10, and 15 for Gauss-Radau) until rounding dominates. On two-body orbits the error constant is also bounded by the value known for that scheme.",
     ["inputs", "configurations"], "every constant-step method and precision, smooth two-body and few-body systems, any step size in the asymptotic regime",
     "The tests only check that the energy error of one trajectory is small at one step size, which a scheme with a wrong coefficient or a lost order can still satisfy.",
     ["src/integrator/symplectic/symplectic-integrator.hpp", "src/integrator/Gauss-Radau.hpp", "src/ode-iterator/const-iterator.hpp"],
     [("Symplectic*::integrate", "src/integrator/symplectic/symplectic-integrator.hpp"), ("GaussRadau::integrate", "src/integrator/Gauss-Radau.hpp"), ("ConstOdeIterator::iterate", "src/ode-iterator/const-iterator.hpp")],
     "Observed slopes over repeated step halving and error constants on generated systems, against analytic Kepler motion or an independent reference integrator. For the 10th-order scheme and Gauss-Radau in N-body systems rounding is reached too soon to measure a slope; those are bounded by the two-body error constant.")
prop("P02", "Few-body trajectories match an independent high-precision integration",
     "Integrating any moderately interacting system of three or more bodies (hierarchies, clouds, planetary systems, scattering encounters, equal or very unequal masses) with any adaptive integration method and precision of the library, in any reference frame and from any start time, ends in the state an independent high-precision N-body integration gives. The relative error stays within a small multiple of the requested tolerance (and of machine precision) times the amplification inherent in the trajectory. At the default tolerance the median error over several systems is smaller still.",
     ["inputs", "configurations"], "every few-body system with a moderate condition number, tolerance, start time, duration, frame and adaptive method",
     "The tests integrate a few fixed systems and look at the energy error only; a wrong trajectory that conserves energy, or an error that needs particular mass ratios, hierarchies or frames, passes.",
     ["src/spaceHub.hpp", "src/simulator.hpp", "src/particle-system/base-system.hpp", "src/particle-system/regu-system.hpp", "src/particle-system/chain-system.hpp", "src/particle-system/archain.hpp", "src/ode-iterator/Bulirsch-Stoer.hpp", "src/ode-iterator/IAS15.hpp", "src/ode-iterator/sequent-iterator.hpp"],
     [("BulirschStoer::iterate", "src/ode-iterator/Bulirsch-Stoer.hpp"), ("IAS15::iterate", "src/ode-iterator/IAS15.hpp"), ("SequentOdeIterator::iterate", "src/ode-iterator/sequent-iterator.hpp"), ("ARchainSystem::drift/kick", "src/particle-system/archain.hpp")],
     "Reference: Gragg-Bulirsch-Stoer in long double. Strongly chaotic systems (condition number above 1e5) are discarded, so nothing is claimed for them.")
prop("P07", "Runs end where asked, call what was registered in order, and do bounded work",
     "For every integration method and any start and end time (zero, negative, crossing zero, far from zero), a run ends within the time tolerance of the requested end, or at the first step at which any registered stop condition holds. Start-point operations run once before the first step, operations run once per step boundary (including the first and the last), stop-point operations run once at the end. All callbacks of one kind run in registration order. Stateful callbacks and stop conditions keep their state. Time never runs backwards beyond rounding, constant-step methods take steps of the requested size, nothing changes when there is nothing to do, and the number of steps and force evaluations stays within a fixed multiple of what the accuracy requires.",
     ["inputs", "schedules", "histories"], "every method, start/end time, stop condition, callback set and tolerance",
     "The tests start at time zero, use one end time and one operation; other times, several callbacks, stateful stop conditions and the amount of work are not exercised.",
     ["src/simulator.hpp", "src/args-callback/callbacks.hpp", "src/ode-iterator/Bulirsch-Stoer.hpp", "src/ode-iterator/const-iterator.hpp", "src/ode-iterator/sequent-iterator.hpp"],
     [("Simulator::run", "src/simulator.hpp"), ("RunArgs", "src/simulator.hpp")],
     "Runs with recorded call histories against a model of the contract. Systems whose centre-of-mass kinetic energy dwarfs the binding energy stall the time-transformed methods: known finding.",
     observe="callback history and final time of Simulator::run")
prop("P10", "Chain coordinates are nearest-neighbour chains of the same system",
     "For any set of particle positions the chain index is a permutation that links nearest neighbours (the closest pair is adjacent and every further particle is linked to the closer end first). Transforming Cartesian coordinates to chain coordinates and back, and re-chaining from one order to another, reproduces the separations and positions to rounding. While a chain-based system is integrated, its chain coordinates, index and Cartesian state stay consistent with one another.",
     ["inputs", "histories"], "every particle count, configuration (ties, collinear, clustered, widely spread), permutation and integration history",
     "The tests chain a few random configurations; tie-breaking, re-chaining between arbitrary orders and consistency during an integration are not sampled.",
     ["src/particle-system/chain.hpp", "src/particle-system/chain-system.hpp", "src/particle-system/archain.hpp"],
     [("Chain::calc_chain_index", "src/particle-system/chain.hpp"), ("Chain::update_chain", "src/particle-system/chain.hpp"), ("ChainSystem::post_iter_process", "src/particle-system/chain-system.hpp")],
     "Order oracle: a search over all greedy linkings with ties allowed; transformations against direct differences in long double.")
prop("P03", "Isolated systems conserve energy, momentum, angular momentum and COM motion",
     "For every integration method (adaptive or constant step, every precision), an isolated system of point masses keeps its total momentum and the straight-line motion of its centre of mass to rounding of the precision used. Adaptive methods keep energy and angular momentum within the tolerance accumulated over the steps taken. Constant-step symplectic methods keep angular momentum to rounding and energy within the bound of their order, without secular drift over many revolutions; constant-step Gauss-Radau keeps both within the error of its order.",
     ["inputs", "configurations", "histories"], "every system of 2-6 bodies (including moving frames), method, tolerance and start time, over up to hundreds of dynamical times",
     "The tests print or loosely bound energy errors of a few fixed systems; momentum, angular momentum and secular drift are never checked.",
     ["src/particle-system/base-system.hpp", "src/particle-system/regu-system.hpp", "src/particle-system/chain-system.hpp", "src/particle-system/archain.hpp", "src/integrator/symplectic/symplectic-integrator.hpp", "src/ode-iterator/sequent-iterator.hpp", "src/core-computation.hpp"],
     [("Symplectic*::integrate", "src/integrator/symplectic/symplectic-integrator.hpp"), ("RegularizedSystem::kick/drift", "src/particle-system/regu-system.hpp"), ("NewtonianGrav::add_acc_to", "src/interaction/newtonian.hpp")],
     "Invariants evaluated in long double at every step of generated runs. Bounds scale with tolerance, machine epsilon, number of steps and closest approach. Constant steps that do not resolve an encounter are discarded.")
prop("P04", "Trajectories respect the symmetries of Newtonian gravity",
     "For every integration method, integrating a relabelled, rotated, reflected, shifted, uniformly moving, rescaled (length, mass, velocity and time together) or time-shifted copy of a system gives the correspondingly transformed trajectory. For constant-step methods the two discrete trajectories agree to rounding of the precision used (boosts only for methods without time transformation); for adaptive methods they agree within the tolerance. Symplectic constant-step methods are time-reversible: n steps forwards followed by n steps back return to the starting state and time up to rounding.",
     ["inputs", "configurations", "histories"], "every few-body system, symmetry operation and method; runs up to 60 constant steps or tens of dynamical times",
     "No test compares two runs with each other; an error that depends on absolute positions, particle order, units, orientation or the sign of time is invisible to an energy check.",
     ["src/particle-system/base-system.hpp", "src/particle-system/regu-system.hpp", "src/particle-system/chain-system.hpp", "src/particle-system/archain.hpp", "src/particle-system/chain.hpp", "src/integrator/symplectic/symplectic-integrator.hpp", "src/integrator/Gauss-Radau.hpp", "src/simulator.hpp", "src/vector/vector3.hpp"],
     [("Symplectic*::integrate", "src/integrator/symplectic/symplectic-integrator.hpp"), ("Chain::calc_chain_index", "src/particle-system/chain.hpp"), ("Simulator::run", "src/simulator.hpp")],
     "Metamorphic relations with bounds derived from machine epsilon (2.2e-16, or 1.1e-19 for the extended types) or tolerance times the measured condition number. Unresolved encounters are discarded.")
prop("P08", "Runs can be interrupted, continued, copied, repeated and run side by side",
     "For every integration method: running a simulation in several pieces (to intermediate end times, or stopped by a condition and continued, on the same simulator or on a copy) gives the result of one uninterrupted run: for constant-step methods the same steps to rounding, for adaptive methods within the tolerance. A copy of a simulator, fresh or after a run, equals the original and behaves identically. Two simulators built from the same input give identical results. Running one simulator never changes another, also when one runs inside a callback of the other or in another thread at the same time.",
     ["inputs", "histories", "schedules"], "every method, system, way to cut a run into pieces, copy point, nesting and pairing of methods",
     "The tests run each simulator once from start to end, alone; state left over from a run, shared statics and incomplete copies are never exercised.",
     ["src/simulator.hpp", "src/ode-iterator/Bulirsch-Stoer.hpp", "src/ode-iterator/IAS15.hpp", "src/ode-iterator/sequent-iterator.hpp", "src/integrator/Gauss-Radau.hpp", "src/particle-system/archain.hpp", "src/particle-system/regu-system.hpp"],
     [("Simulator::run", "src/simulator.hpp"), ("IAS15 predictor state", "src/ode-iterator/IAS15.hpp"), ("BulirschStoer step-size memory", "src/ode-iterator/Bulirsch-Stoer.hpp")],
     "Differential relations between runs of the same build (identical, rounding or tolerance, as stated). Thread pairs are executed on real threads without controlling the schedule.")
prop("P09", "Sliced callbacks are invoked on their schedule",
     "A time-sliced operation is invoked for the k-th time at the first step boundary not before start + k (end-start)/n, at most once per boundary and never outside [start, end]. A log-sliced operation is invoked at the first boundary not before start + (end-start)^(k/n), k=1..n, missed slices being skipped. A step-sliced operation is invoked at every n-th boundary beginning with the first. All three pass the particles and step size through, forward the answer of a boolean operation (false when it is not invoked), keep the state of the wrapped operation, survive copying, and start afresh with the new parameters after a reset. This holds for any history of boundaries and for slices registered as operations or stop conditions of real runs.",
     ["inputs", "histories"], "every slice start, end, count and kind, every sequence of boundaries, resets and copies; real-valued slice times",
     "The tests do not cover slices at all apart from writing output files; the schedule depends on the whole history of boundary times.",
     ["src/args-callback/callbacks.hpp", "src/simulator.hpp"],
     [("TimeSlice", "src/args-callback/callbacks.hpp"), ("LogTimeSlice", "src/args-callback/callbacks.hpp"), ("StepSlice", "src/args-callback/callbacks.hpp")],
     "Model-based: histories replayed against a schedule model that tolerates rounding at scheduled instants. Log slices over less than one time unit are outside the statement.")
prop("P11", "Accelerations are the sum of Newtonian gravity and all registered forces",
     "For any configuration of one or more particles (tight pairs, aligned or shifted clusters, any mass ratio) and in every kind of particle system and precision, the Newtonian acceleration of each particle equals the pairwise sum of inverse-square attractions to rounding. With extra forces registered, the total acceleration is Newtonian plus every registered force exactly once; the velocity-dependent and velocity-independent evaluators split that total by the declared kind of each force. Evaluators overwrite what was in the output array, they do not add to it. A single particle has no Newtonian acceleration.",
     ["inputs", "configurations"], "every configuration of 1-24 bodies, particle system kind, precision and combination of extra forces",
     "The tests evaluate forces only through integrations of a few fixed systems; terms that matter only for particular geometry, particle kinds or combinations of forces are invisible.",
     ["src/interaction/newtonian.hpp", "src/interaction/interaction.hpp", "src/particle-system/base-system.hpp", "src/particle-system/chain-system.hpp", "src/particle-system/archain.hpp", "src/particle-system/chain.hpp"],
     [("NewtonianGrav", "src/interaction/newtonian.hpp"), ("Interactions::eval_*", "src/interaction/interaction.hpp")],
     "Long-double pair sums as oracle, error within 64 eps of the summed magnitudes.")
prop("P12", "Post-Newtonian accelerations match the published formulas",
     "For any configuration, the first, second and 2.5th order post-Newtonian terms, alone or together, give the accelerations of the published two-body harmonic-coordinate equations of motion summed over pairs, for both members of a pair (the formula is symmetric under exchange of the particles), in every kind of particle system. The speed of light used is the physical one in code units.",
     ["inputs", "configurations"], "every configuration of 2-16 bodies, mass ratio, velocity, combination of terms, particle system kind",
     "The tests never evaluate a post-Newtonian term; a wrong coefficient, or one that matters only for unequal masses, is invisible.",
     ["src/interaction/post-newtonian.hpp", "src/interaction/interaction.hpp"],
     [("PN1/PN2/PN2.5", "src/interaction/post-newtonian.hpp")],
     "Oracle: an independent transcription of Blanchet's equation (203) in long double; numerical bound 64 eps of the summed magnitudes.")
prop("P13", "Tidal and gas forces follow their formulas",
     "For any configuration: the tidal force is the equilibrium-tide (Hut) acceleration with apsidal constant and time lag, including bodies of which only one is deformable, and conserves momentum; static gas drag is linear below the sound speed and falls as 1/v^2 above it; drag in an alpha disc is gaseous dynamical friction plus aerodynamic drag relative to the rotating gas, antiparallel to the relative motion, with its reaction on the central body; the thin disc and the magnetised disc drag follow their profiles, tabulated profiles being interpolated linearly and constant outside the tables. A body co-moving with the gas feels no drag, and no result is NaN.",
     ["inputs", "configurations"], "every configuration of bodies, sizes, disc parameters, sub- and supersonic motion, radii inside and outside the tables",
     "No test evaluates these forces against their formulas.",
     ["src/interaction/tidal.hpp", "src/interaction/static-gas-drag.hpp", "src/interaction/alpha-disk.hpp", "src/interaction/disk-capture-star.hpp", "src/interaction/magneto-disk.hpp"],
     [("tidal and drag forces", "src/interaction")],
     "Independent formulas in long double, bound relative to the summed magnitudes of the terms.")
prop("P14", "External forces are integrated correctly by every kind of method",
     "With extra forces present (velocity independent, velocity dependent, both, or post-Newtonian), adaptive methods of every system kind end in the state of an independent high-precision integration of the same equations of motion, within a small multiple of tolerance times the amplification inherent in the trajectory, and constant-step methods converge to it at their design order.",
     ["inputs", "configurations"], "every few-body system with external or velocity-dependent forces and every kind of integration method",
     "The tests integrate with post-Newtonian forces but only look at whether something runs; regularised methods treat velocity-dependent forces with auxiliary velocities and an energy that is itself integrated, which only a comparison of trajectories can check.",
     ["src/particle-system/base-system.hpp", "src/particle-system/regu-system.hpp", "src/particle-system/chain-system.hpp", "src/particle-system/archain.hpp", "src/integrator/Gauss-Radau.hpp", "src/ode-iterator/IAS15.hpp", "src/interaction/interaction.hpp"],
     [("kick/kick_pseu_vel/advance_omega_bindE", "src/particle-system/regu-system.hpp"), ("evaluate_general_derivative", "src/particle-system/archain.hpp")],
     "Reference: Gragg-Bulirsch-Stoer in long double with the same forces. Ill-conditioned systems are discarded.")
prop("P18", "Kepler elements, anomalies and orbital times describe the same orbit",
     "For any conic (circular, elliptic, nearly or exactly parabolic, hyperbolic; planar, polar, retrograde): orbit_to_coord gives the relative state of the orbit elements (with the library's convention that the periapsis lies at omega + pi from the ascending node), coord_to_orbit is its inverse for any relative state that is not radial, and all functions for semi-major axis, eccentricity, Laplace-Runge-Lenz vector and angular momentum give the exact values to rounding. Eccentric, mean and true anomaly convert into one another in all directions as Kepler's equation says. The period and the time to periapsis (on ellipses: the signed time since periapsis) are those of Kepler motion. Orbits built from (a, e) or from velocity at infinity, impact parameter and distance have those parameters, moving inwards or outwards as asked; angles left to chance are isotropic with uniform mean anomaly, given angles are kept. Elements that belong to no orbit (negative eccentricity, semi-latus rectum that is not positive, true anomaly beyond the asymptotes of a hyperbola, distance below the periapsis, the period of an open orbit) are refused: the call ends the program or raises an exception instead of returning a number. Tidal factor and tidal radius are inverse relations.",
     ["inputs"], "every conic, orientation and point on the orbit, masses over many orders of magnitude",
     "There are no unit tests of the orbit functions; initial conditions of every simulation depend on them, and the degenerate cases (apsides, planar, circular) need their own branches.",
     ["src/orbits/orbits.hpp", "src/math.hpp"],
     [("orbit_to_coord/coord_to_orbit", "src/orbits/orbits.hpp"), ("anomaly conversions", "src/orbits/orbits.hpp"), ("Hyperbolic/Elliptic constructors", "src/orbits/orbits.hpp")],
     "Independent long-double formulas and Kepler solver, bounds scaled with the rounding inherent in each quantity. Orbits that are radial to 1e-6 of rounding are discarded. Mean anomalies below epsilon count as zero.")
prop("P20", "Functions of particle clusters give exact values and place clusters as asked",
     "For any cluster of particles, passed as a container, an array, separate arguments or a single particle: total mass, centre-of-mass position and velocity, kinetic, potential, centre-of-mass, total and inner energy and size (largest separation; the radius for a single finite-size particle) are exact to rounding. For two clusters, reduced mass, tidal energy, tidal factors and radius, and semi-major axis, eccentricity, period and time to the periapsis (its magnitude, also at the apsides) of their mutual orbit are those of the two centres of mass. Moving a cluster to a position, a velocity, both, the centre-of-mass frame or a Kepler orbit shifts all its particles alike, puts the centre of mass there, and changes nothing else.",
     ["inputs"], "every cluster of 1-60 particles of either particle kind and precision and every way to pass it",
     "There are no unit tests of these functions, although initial conditions and analysis of every simulation use them.",
     ["src/orbits/particle-manip.hpp", "src/orbits/orbits.hpp"],
     [("COM_p, E_tot, cluster_size, move_particles", "src/orbits/particle-manip.hpp")],
     "Long-double oracles, bounds in units of the rounding inherent in each sum.")
prop("P21", "Scattering setup gives the orbits and cross sections it promises",
     "The critical velocity of two clusters is the relative velocity at which the total energy vanishes (NaN for unbound clusters). The largest impact parameter for a velocity at infinity is that of the orbit whose periapsis is the given distance, or the tidal radius for the given factor when clusters or sizes are given. Random incident orbits have the requested velocity at infinity, masses and distance (or the tidal radius of the clusters), are inbound, and hit the disc of radius b_max uniformly: b^2 uniform and the angle around the axis uniform. The hard radius follows its formula.",
     ["inputs"], "all masses, velocities, sizes, factors and clusters",
     "No test calls the scattering functions; a wrong sampling density or bound biases every cross section computed with the library without failing any run.",
     ["src/scattering/cross-section.hpp", "src/orbits/orbits.hpp", "src/orbits/particle-manip.hpp"],
     [("critical_vel, b_max, incident_orbit, hard_radius", "src/scattering/cross-section.hpp")],
     "Statistical part: Kolmogorov-Smirnov distance of 800 draws at the 1e-13 point, the library seeds its generators itself.")
prop("P24", "SmallVector behaves like std::vector under any history of operations",
     "For any history of operations (construction, copy, move, swap, push, emplace, pop, insertion and erasure of elements, counts and ranges, including empty ones, append, assign, resize, reserve, clear, comparison) on small-size-optimised vectors of any element type, the contents, size, returned positions and order relations equal those of std::vector. Growing beyond the inline storage and moving between inline and allocated storage lose nothing: no memory error, no element constructed, copied or destroyed wrongly, and no memory left allocated at the end.",
     ["inputs", "histories"], "every operation history on vectors of numbers, 3-vectors, compensated numbers and objects, inline sizes 1 to 16",
     "All particle data lives in these vectors; the tests use a handful of push_backs and never cross the inline capacity with non-trivial types, moves or insertions.",
     ["src/small-vector.hpp", "src/type-class.hpp"],
     [("SmallVectorImpl::insert/erase/operator=/swap", "src/small-vector.hpp"), ("grow_pod", "src/small-vector.hpp")],
     "Model-based histories against std::vector, run under AddressSanitizer and UBSan, with counted live objects and blocks. Passing an element of the vector itself is tested only for single insertions without growth.")

prop("P17", "Compensated numbers add without loss and the Plus methods use them",
     "For any sequence of additions and subtractions, Kahan and Neumaier numbers of any base type differ from the exact sum by a few units in the last place of the summed magnitudes however many terms there are, Klein numbers by a few units in the last place of the result; tiny increments are never lost. Multiplying or dividing such a number scales its compensation with it, assigning, reading or zeroing clears the compensation, copying keeps it. Every Plus and ExtPlus method keeps its state in compensated numbers of the precision its name says, so that the error of time and of uniform motion does not grow with the number of steps.",
     ["inputs", "histories"], "every history of arithmetic on compensated numbers, every number of steps of the Plus methods",
     "The tests do not look at compensated numbers by themselves; a stale compensation after scaling, or a method silently using plain numbers, changes only the last digits of long runs.",
     ["src/kahan-number.hpp", "src/spaceHub.hpp", "src/particle-system/base-system.hpp", "src/particle-system/chain-system.hpp"],
     [("Kahan/Neumaier/Klein", "src/kahan-number.hpp"), ("DEFINE_INTEGRATION_METHOD", "src/spaceHub.hpp")],
     "Quadruple-precision model of each history. The coefficients of the composition methods are double numbers, so extended-precision time is exact only to 1e-16 per unit of time.")
prop("P22", "Vector algebra, array kernels and system diagnostics compute what they say",
     "For any input: every operation on 3-vectors, every element-wise, summing and advancing kernel on arrays of numbers, vectors or compensated numbers (of any length including empty ones, in place or not), the storage of coordinates as flat x,y,z triples and back, and the kernels that save, load, copy and clear compensation terms give the mathematical result to rounding. Kinetic, potential and total energy, angular momentum (of all particles, of a subset, of a subset about its own centre of mass), shortest free-fall time and energy error of a particle system of any kind are exact to rounding, for one or more particles.",
     ["inputs"], "all vectors, arrays of 0-40 elements, particle systems of 1-12 bodies of every kind and precision",
     "The kernels have no tests of their own beyond the runs that use them; in-place use, empty arrays, single particles and tight pairs in shifted frames are not exercised.",
     ["src/vector/vector3.hpp", "src/core-computation.hpp", "src/type-class.hpp"],
     [("calc::*", "src/core-computation.hpp"), ("Vec3", "src/vector/vector3.hpp"), ("load_to_coords/add_coords_to", "src/type-class.hpp")],
     "Long-double oracle for every operation; bounds of a few units in the last place of the summed magnitudes.")
prop("P25", "Random draws follow the distributions they are named after",
     "For any parameters, draws of Uniform, Logarithm, PowerLaw (any exponent, including -1), Normal, TruncatedNormal, Maxwellian, TruncatedMaxwellian and the polar pair generator lie in the support, follow the named distribution (density of the power law proportional to x^power between the limits; Maxwellian with the given one-dimensional dispersion) and are independent of each other, also when several threads draw at once. A random parameter bound to any distribution (negative, zero or constant too) draws from it, restricted to the bounds that were set and only those.",
     ["inputs", "schedules"], "every generator, parameters over many orders of magnitude, any bounds, several threads",
     "No test draws random numbers; a wrong density or a bound that silently rejects half of the values biases every population generated with the library.",
     ["src/rand-generator.hpp"],
     [("random::PowerLaw/TruncatedMaxwellian/Normal2", "src/rand-generator.hpp"), ("random::Parameter::draw", "src/rand-generator.hpp")],
     "Kolmogorov-Smirnov distance of 600-1500 draws at the 1e-13 point and serial correlation at nine sigma: the library seeds its generators itself, so replays repeat the parameters, not the draws.")
prop("P31", "Root finders, limiters and the unit system are exact",
     "For any monotonic function (smooth, steep, flat, discontinuous, with tiny or huge values) whose root lies in or at the end of a bracket given in either order, bisection ends and returns the root to rounding, in any precision and also when the root is zero. Newton's iteration returns the root of functions on which it converges from zero. Range limiter, minimum, maximum, absolute value, sign, step and approximate equality are those of the mathematical functions. All units, the constants of gravity and light and the radii of black holes, neutron stars, white dwarfs and main-sequence stars agree with SI values.",
     ["inputs"], "all monotonic functions and brackets, all numbers, all units and stellar masses",
     "The tests never call these functions directly; bisection is used with the scales of Kepler's equation only.",
     ["src/math.hpp", "src/macros.hpp", "src/stellar/stellar.hpp"],
     [("root_bisection", "src/math.hpp"), ("MAKE_UNIT", "src/macros.hpp"), ("stellar_radius", "src/stellar/stellar.hpp")],
     "Functions with exactly known roots and exact signs; SI values with the precision to which the library states its constants.")
prop("P15", "State arrays, drifts, kicks, increments and derivatives of a system agree",
     "For every kind of particle system (plain, chain, regularised and AR chain; LogH, TTL or no regularisation), any forces and precision: the flat state array has one entry per variable, with time, positions, velocities (chain links in chain systems), auxiliary velocities, omega and bindE at the named offsets; reading a written array restores that state completely. A drift moves only time and positions, by the velocities times the physical time of the step; a kick changes only velocities and the extra variables, by the accelerations; omega follows the potential under TTL and bindE the work of extra forces under LogH. Each is undone by the opposite step. While collection is on, collected increments equal the change of the array. The general derivative equals the equations of motion and the limit of a drift-kick-drift step, and evaluating it changes nothing.",
     ["inputs", "histories"], "every kind of system, force set, precision, state (also with omega and bindE off their initial relation) and sequence of drifts, kicks, saves and restores",
     "Integrators, extrapolation and Gauss-Radau steps only talk to systems through this interface; the tests see it through whole runs whose energy error hides a slot that is off, stale or stepped at the wrong rate.",
     ["src/particle-system/base-system.hpp", "src/particle-system/chain-system.hpp", "src/particle-system/regu-system.hpp", "src/particle-system/archain.hpp", "src/type-class.hpp"],
     [("write_to_scalar_array/read_from_scalar_array/drift/kick", "src/particle-system/base-system.hpp"), ("Regularization::eval_pos_phy_time", "src/particle-system/regu-system.hpp"), ("ARchainSystem::evaluate_general_derivative", "src/particle-system/archain.hpp")],
     "Reference accelerations and energies in long double, bounds in units of rounding; the derivative against Richardson-extrapolated central differences of a step. Velocity-dependent kicks are checked through their limit and reversibility, not step by step.")
prop("P16", "Particle containers behave like lists of particles and lose no attribute",
     "For any history of operations on containers of point, finite-size, tidal and drag particles (construction from any container of particles, emplace_back, resize, reserve, clear, copy, move, assignment, writing through accessors, setting the time), the container holds exactly the particles, attributes, time and consecutive ids a list of rows would hold; all arrays keep the same length; conversion to separate particles and printed rows carry every attribute in the column the header names. Systems built from particles hold all their attributes; copies of a system are independent of the original and evolve identically.",
     ["inputs", "histories"], "every history of operations on the four particle families in three precisions, 0-60 particles; systems of every kind",
     "Everything downstream reads these parallel arrays; the tests build each container once from a vector and never grow, shrink, copy or print families with extra attributes.",
     ["src/particles/point-particles.hpp", "src/particles/finite-size.hpp", "src/particles/tide-particles.hpp", "src/particles/drag-particles.hpp", "src/particle-system/base-system.hpp"],
     [("emplace_back/resize/clear/to_AoS/operator<<", "src/particles/tide-particles.hpp"), ("SPACEHUB_ARRAY_ACCESSOR", "src/dev-tools.hpp")],
     "Model-based histories under AddressSanitizer. Ids of entries created by growing resize() are set by the check, as the library leaves them to the caller; operator>> of containers is declared but not defined.")
prop("P26", "Files of runs, streams, configurations and command lines keep their contents",
     "The file a run writes through the writers of states and energy errors holds exactly the states of the moments at which the writer was called (every step, every few steps, start or stop points, over several runs), one row per particle with time, id and all attributes under the right header, each number to at least double precision; energy errors are relative to the energy of that writer's first state, however many writers there are. Numbers, words, vectors, tuples and containers printed by the stream helpers read back the same. A configuration file yields for every key the value last given, whatever the comments, blanks, divider, line ends and permissions; a missing key is reported, not invented. Command line options of every type receive their values.",
     ["inputs", "histories"], "every sequence of runs and writers, every value, every layout of a configuration file or command line",
     "Results leave the library only through these files; the tests write files but never read them back, and never read a configuration or a command line.",
     ["src/IO.hpp", "src/args-callback/callbacks.hpp", "src/tools/config-reader.hpp", "src/particles/point-particles.hpp"],
     [("DefaultWriter/EnergyErrWriter", "src/args-callback/callbacks.hpp"), ("ConfigReader/OptArg", "src/tools/config-reader.hpp"), ("print/input/print_csv", "src/IO.hpp")],
     "Values are written with the precision the library sets (17 digits or the type's own). Rows printed by particles are comma separated and not meant to be read back by operator>>.")
prop("P27", "Work spread over threads is done exactly once and shared files stay whole",
     "multi_threads_loop covers every index of the loop exactly once for any length and number of threads; multi_thread and indexed_multi_thread (and their automatic forms) run the job exactly once per thread, each with its own copy of the arguments as the caller gave them and each index once, and everything is done when they return. Records written to a ConcurrentFile by several threads stay whole, none is lost and each thread's order is kept; items read from it are handed out once each; execute() has the file to itself and returns the result. Tasks committed to the thread pool run once and hand their result or exception over; the pool ends with the program. Independent simulations, orbits and random draws on different threads share no data.",
     ["inputs", "schedules"], "any number of threads, indices, records and tasks, any interleaving",
     "No test starts a thread. Lost indices, torn lines and races show only for odd lengths, many threads or unlucky schedules; the race detector finds them whatever the schedule was.",
     ["src/multi-thread/multi-thread.hpp", "src/multi-thread/thread_pool.h", "src/rand-generator.hpp", "src/orbits/orbits.hpp"],
     [("multi_threads_loop/multi_thread/indexed_multi_thread", "src/multi-thread/multi-thread.hpp"), ("ConcurrentFile", "src/multi-thread/multi-thread.hpp"), ("ThreadPool", "src/multi-thread/thread_pool.h")],
     "Runs under ThreadSanitizer; the pool's condition variable is replaced by one that pauses before it waits. ciostream.hpp and concurrent-queue.h are used by nothing and do not compile when used.")
prop("P28", "Step control follows its definitions and the equation solver meets its tolerance",
     "The error measures (worst offender, root mean square, ratio of maxima) of any arrays of numbers, vectors or compensated numbers, with any tolerances including zero ones, are those of their definitions. The PID controller proposes S1 (S2/error)^(1/order), with the integral term when a previous error is given, and limits steps to the range of the limits set, also after they are changed; the constant controller keeps the step. Bulirsch-Stoer iterate() for an arbitrary system of differential equations, forwards or backwards, from any time, with one solver for systems of different sizes, advances the time by no more than the step asked, evaluates the derivative only inside the step, proposes a usable next step, and stays within the tolerance per step of the true solution.",
     ["inputs", "histories"], "all errors, orders and tolerances; linear, nonlinear and time-dependent equations of 1-28 variables",
     "No test calls the error measures, the controllers or the equation solver by themselves; inside runs, a wrong exponent or an extrapolation that does not converge is masked by smaller steps.",
     ["src/ode-iterator/Bulirsch-Stoer.hpp", "src/ode-iterator/error-checker/worst-offender.hpp", "src/ode-iterator/error-checker/RMS.hpp", "src/ode-iterator/error-checker/max-ratio-error.hpp", "src/ode-iterator/step-controller/PID-controller.hpp"],
     [("PIDController::next/limiter", "src/ode-iterator/step-controller/PID-controller.hpp"), ("BulirschStoer::iterate(func, ...)", "src/ode-iterator/Bulirsch-Stoer.hpp"), ("WorstOffender/RMS/MaxRatioError::error", "src/ode-iterator/error-checker")],
     "Known solutions in long double. Arrays of vectors only in the forms the library compiles for them; how many steps a problem takes is not checked.")
