"""Source of properties.jsonl; `python3 tools/build.py` writes the file."""

CORE = "movement_primitives/dmp/"
PYX = "movement_primitives/dmp_fast.pyx"
PROPS = []
NOT_APPLICABLE = []


def prop(pid, title, statement, over, text, why, files, mech, observe=(),
         state=(), na=None):
    assert len(title) <= 80, (pid, len(title))
    PROPS.append(dict(
        id=pid, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w)
                            for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))
    if na:
        NOT_APPLICABLE.append(dict(property=pid, reason=na))


prop("D01", "Every DMP step integrates the documented transformation system",
     "For every start, goal, gain, weight vector, time and sub-step length, "
     "one step of the basic DMP advances the state by exactly the documented "
     "spring-damper equation with goal attraction, damping, forcing term, "
     "optional smooth scaling, coupling acceleration and tracking-error gain, "
     "component by component. This holds for every selectable integrator "
     "(Euler with sub-steps and Runge-Kutta, Python and compiled) and for any "
     "number of dimensions, during, at the end of and after the movement.",
     ("inputs", "configurations", "histories"),
     "all states, gains, weights, times; dimensions 1-7, 2-12 weights, up to 6 "
     "sub-steps, up to 3 consecutive steps; all four integrators, with and "
     "without smooth scaling, coupling (term or precomputed) and tracking "
     "gain",
     "Tests run a few trajectories with equal gains in all dimensions and "
     "check end points; an error in a single dimension, in the last sub-step "
     "or with smooth scaling plus coupling stays below their tolerance.",
     (CORE + "_dmp.py", PYX),
     (("acceleration of the transformation system", CORE + "_dmp.py"),
      ("compiled integrators", PYX)), ("DMP.step", "dmp_transformation_system"))

prop("D02", "Python and compiled implementations are interchangeable",
     "Each compiled integrator, phase, obstacle-avoidance and quaternion "
     "function leaves the same state, returns the same value, evaluates the "
     "coupling term equally often and modifies the same arguments as its "
     "Python counterpart, for all arguments after the start time with at most "
     "one kind of coupling. Movements executed with either are identical.",
     ("inputs", "configurations"),
     "all values of all arguments; all combinations of smooth scaling, "
     "coupling term or precomputed coupling, tracking error; default and "
     "explicit arguments; first step, middle, after the end",
     "Tests compare single calls with one set of numbers and without "
     "coupling, smooth scaling or unequal gains.",
     (PYX, CORE + "_dmp.py", CORE + "_cartesian_dmp.py",
      CORE + "_dual_cartesian_dmp.py", CORE + "_canonical_system.py",
      CORE + "_coupling_terms.py"),
     (("duplicated implementations", PYX),),
     ("DMP.step", "CartesianDMP.step", "DualCartesianDMP.step",
      "movement_primitives.dmp_fast"))

prop("D03", "Orientation DMPs follow the quaternion transformation system",
     "For every start, goal and current orientation, one step of the "
     "Cartesian DMP rotates the current orientation by the integrated angular "
     "velocity, whose acceleration is the documented spring-damper on the "
     "rotation vector from current to goal orientation with forcing term, "
     "coupling and optional smooth scaling; the position part follows the "
     "ordinary transformation system. Unit quaternions stay unit quaternions.",
     ("inputs", "configurations", "histories"),
     "all unit quaternions (including identity and coinciding orientations), "
     "gains, weights, times; compiled and Python version; up to 4 sub-steps",
     "Tests use small rotations and compare only end poses, so conjugation "
     "order, gains of single axes and sign conventions go unnoticed.",
     (CORE + "_cartesian_dmp.py", PYX),
     (("quaternion integrator", CORE + "_cartesian_dmp.py"),
      ("compiled quaternion integrator and helpers", PYX)),
     ("CartesianDMP.step",))

prop("D04", "Dual-arm DMPs move each arm by its own equation of motion",
     "One step of the dual-arm DMP moves both positions and both orientations "
     "by their documented equations with the gains, weights, goals, tracking "
     "errors and coupling components that belong to that arm and axis. "
     "Without a coupling term nothing of one arm influences the other.",
     ("inputs", "configurations", "histories"),
     "all poses, velocities, gains, weights, tracking errors; compiled and "
     "Python version; smooth scaling on and off; up to 4 sub-steps",
     "Tests use identical gains in all 12 velocity components and no tracking "
     "error, so swapped or shifted indices between the 14 pose and 12 "
     "velocity components are invisible.",
     (CORE + "_dual_cartesian_dmp.py", PYX),
     (("index maps between pose and velocity components",
       CORE + "_dual_cartesian_dmp.py"),), ("DualCartesianDMP.step",))

prop("D05", "DMPs with final velocity track the boundary-value polynomial",
     "Up to the end of the movement the attractor of a DMP with final "
     "velocity is the fifth-order polynomial that meets the configured start "
     "and goal position, velocity and acceleration, and its velocity and "
     "acceleration enter the documented equation of motion. After the end the "
     "attractor is the goal position at rest.",
     ("inputs", "configurations", "histories"),
     "all boundary states, gains, weights, states; before, at and after the "
     "end; with and without coupling and tracking gain",
     "Tests check the final position and velocity of two movements; "
     "acceleration boundary conditions and the behaviour after the end are "
     "not observed.",
     (CORE + "_dmp_with_final_velocity.py",),
     (("boundary polynomial", CORE + "_dmp_with_final_velocity.py"),),
     ("DMPWithFinalVelocity.step",))

prop("D06", "State-following DMPs mix attractors by normalised activations",
     "The acceleration of a state-following DMP is the activation-weighted "
     "sum of spring-dampers towards its via-points, with activations that are "
     "Gaussian in the phase, centred at equal time intervals and normalised "
     "to one. This holds for any number of via-points including one.",
     ("inputs", "configurations", "histories"),
     "all via-points, gains, states, times; 1-15 via-points, 1-7 "
     "dimensions; coupling term or precomputed coupling",
     "The tests follow one trajectory with ten via-points.",
     (CORE + "_state_following_dmp.py",),
     (("activations and step", CORE + "_state_following_dmp.py"),),
     ("StateFollowingDMP.step",))

prop("D07", "Spring-dampers integrate their equation, critically damped",
     "One step of a spring-damper (position or orientation) integrates "
     "stiffness times distance to the goal minus damping times velocity plus "
     "coupling, in sub-steps of the integration interval. If no damping is "
     "given it is critically damped (twice the square root of the "
     "stiffness), also in open loop.",
     ("inputs", "configurations", "histories"),
     "all states, goals, stiffness and damping values; 1-7 dimensions; up to "
     "3 sub-steps",
     "Tests use one stiffness and look at convergence only.",
     ("movement_primitives/spring_damper.py",),
     (("spring-damper steps", "movement_primitives/spring_damper.py"),),
     ("SpringDamper.step", "SpringDamperOrientation.step"))

prop("D08", "Forcing terms are phase-weighted normalised basis mixtures",
     "The forcing term equals the phase times the average of the weights, "
     "weighted with Gaussian basis functions of the phase that are centred at "
     "equally spaced times and have the configured overlap at the next "
     "centre. It enters the equation of motion of every DMP exactly once and "
     "with the same values the regression of imitation uses.",
     ("inputs", "configurations"),
     "all weights, times, start times, execution times, overlaps; 2-10 "
     "weights, 1-2 dimensions",
     "Tests look at two centres of one instance that starts at time zero.",
     (CORE + "_forcing_term.py",),
     (("basis functions", CORE + "_forcing_term.py"),),
     ("ForcingTerm",))

prop("D09", "The phase decays exponentially from one to its final value",
     "The phase is one at the start time, the requested final phase at the "
     "goal time and exponential in between and beyond, for scalars and arrays "
     "and in both implementations; every DMP decays to one percent over its "
     "execution time. Non-positive final phases and goals that are not after "
     "the start are rejected.",
     ("inputs",),
     "all times, start and goal times, final phases",
     "Tests evaluate start and end for one execution time.",
     (CORE + "_canonical_system.py", PYX),
     (("phase", CORE + "_canonical_system.py"), ("phase", PYX)),
     ("phase", "canonical_system_alpha"))

prop("E01", "Open loop execution equals repeated stepping from the start state",
     "For every configuration and every movement class, the trajectory "
     "returned by open loop execution is the one obtained by starting in the "
     "configured start position and velocity and calling the step function "
     "repeatedly with its own results, at times zero, dt, 2 dt, ... up to the "
     "first one that reaches the requested (by default: the full) duration. "
     "Taking n steps at once equals taking n single steps.",
     ("inputs", "configurations"),
     "all starts, goals, velocities, gains, weights; all selectable "
     "integrators, with and without compiled extension, smooth scaling, "
     "coupling term, sub-steps; up to four steps, durations that are no "
     "multiple of the step and beyond the end",
     "Tests compare final positions of one configuration with zero start "
     "velocity; a different first step or clock drifts below tolerance.",
     (CORE + "_dmp.py", CORE + "_cartesian_dmp.py",
      CORE + "_dual_cartesian_dmp.py", CORE + "_dmp_with_final_velocity.py",
      CORE + "_state_following_dmp.py", "movement_primitives/spring_damper.py",
      "movement_primitives/base.py"),
     (("open loop execution", CORE + "_dmp.py"),),
     ("open_loop", "step", "n_steps_open_loop"))

prop("E02", "Executions do not influence later executions",
     "Open loop execution returns the same trajectory however often it is "
     "called and whatever steps were taken before; after a reset the same "
     "calls give the same results as for a new object. Executing never "
     "changes weights, start, goal, gains, step length or another instance.",
     ("histories", "inputs"),
     "all configurations and states of all movement classes and integrators; "
     "histories of up to two executions with two steps of arbitrary states in "
     "between",
     "Tests use a fresh object per execution, so state that survives is "
     "never seen.",
     (CORE + "_dmp.py", CORE + "_base.py", CORE + "_cartesian_dmp.py",
      CORE + "_dual_cartesian_dmp.py", CORE + "_dmp_with_final_velocity.py",
      CORE + "_state_following_dmp.py", "movement_primitives/spring_damper.py",
      "movement_primitives/minimum_jerk_trajectory.py"),
     (("mutable movement state", CORE + "_base.py"),),
     ("open_loop", "step", "reset"))

prop("E03", "Integration sub-steps cover each step exactly once",
     "For every step length and internal integration step, one step advances "
     "the clock by exactly the step length and integrates over exactly that "
     "interval: full sub-steps followed by one shorter rest if needed, "
     "forcing term and attractor evaluated at the end of each sub-step and "
     "the coupling term once per sub-step. This holds for steps and open "
     "loop execution of every movement class.",
     ("inputs", "configurations"),
     "all states; step lengths of 1, 2, 1.5, 2.25 and 0.5 integration steps; "
     "all movement classes and Euler-type integrators",
     "An additional, missing or too long sub-step changes trajectories by "
     "less than test tolerances.",
     (CORE + "_dmp.py", CORE + "_cartesian_dmp.py",
      CORE + "_dual_cartesian_dmp.py", CORE + "_dmp_with_final_velocity.py",
      CORE + "_state_following_dmp.py", "movement_primitives/spring_damper.py",
      PYX),
     (("integration loop", CORE + "_dmp.py"), ("compiled loop", PYX)),
     ("step", "open_loop"))

prop("E04", "Movements do not depend on the choice of coordinates",
     "Adding a constant to all positions (start, goal, state, via-points) "
     "adds it to the resulting position and leaves the velocity unchanged; "
     "multiplying all positions, velocities and weights of non-orientation "
     "movements by a positive factor multiplies the result by it; expressing "
     "all orientations in another body frame does the same to the result and "
     "leaves the angular velocity unchanged.",
     ("inputs", "configurations"),
     "all states, starts, goals, weights, gains, offsets, factors and "
     "rotations; all movement classes and integrators, with and without "
     "smooth scaling and tracking error, during and after the movement",
     "Tests place movements at few locations, mostly starting in the origin, "
     "where a position used in place of a difference is invisible.",
     (CORE + "_dmp.py", CORE + "_cartesian_dmp.py",
      CORE + "_dual_cartesian_dmp.py", CORE + "_dmp_with_final_velocity.py",
      CORE + "_state_following_dmp.py", "movement_primitives/spring_damper.py",
      PYX, "movement_primitives/data/_minimum_jerk.py"),
     (("differences of positions", CORE + "_dmp.py"),), ("step",))

prop("E05", "Longer execution times give the same path, proportionally slower",
     "If execution time, step length and integration step are multiplied by "
     "a factor and velocities and accelerations of start and goal are divided "
     "by it and its square, each movement primitive passes through the same "
     "positions and its velocities are divided by the factor. It does not "
     "matter whether the execution time is given at construction or set "
     "later.",
     ("inputs", "configurations"),
     "all factors, states, weights, gains; all DMP classes and integrators, "
     "smooth scaling, position-dependent coupling, during and after the "
     "movement; minimum-jerk trajectories",
     "Tests execute one or two durations and compare only the goal.",
     (CORE + "_dmp.py", CORE + "_cartesian_dmp.py",
      CORE + "_dual_cartesian_dmp.py", CORE + "_dmp_with_final_velocity.py",
      CORE + "_state_following_dmp.py", CORE + "_forcing_term.py", PYX),
     (("powers of the execution time", CORE + "_dmp.py"),),
     ("step", "open_loop"))

prop("E06", "A movement at rest in its goal stays there",
     "With zero weights and no coupling, a movement whose state is the goal "
     "with zero velocity stays exactly there, at any time and for any gains "
     "(with smooth scaling: if it also started there). Executing from goal to "
     "goal gives a constant trajectory.",
     ("inputs", "configurations"),
     "all goals, gains, times during and after the movement; all movement "
     "classes and integrators; two steps with several sub-steps",
     "Needs exact equality for all goals, tests check few with tolerance.",
     (CORE + "_dmp.py", CORE + "_cartesian_dmp.py",
      CORE + "_dual_cartesian_dmp.py", CORE + "_dmp_with_final_velocity.py",
      CORE + "_state_following_dmp.py", "movement_primitives/spring_damper.py",
      PYX),
     (("transformation system", CORE + "_dmp.py"),), ("step", "open_loop"))

ALLDMP = tuple(CORE + x for x in (
    "_base.py", "_dmp.py", "_cartesian_dmp.py", "_dual_cartesian_dmp.py",
    "_dmp_with_final_velocity.py", "_state_following_dmp.py"))

prop("I01", "Imitation learns the ridge regression of the documented forces",
     "After imitation of a demonstration, the weights are the regularised "
     "least squares solution, dimension by dimension, that maps the basis "
     "activations at the demonstrated times to the forces the documented "
     "equation of motion needs to produce the demonstrated accelerations with "
     "the gains of the object. This holds for every regularisation, for "
     "unevenly sampled times, with smooth scaling, with and without final "
     "velocity, for positions and orientations, and for every learning DMP.",
     ("inputs", "configurations"),
     "all demonstrations, gains and regularisations; 5 samples (2-7 at the "
     "edges), even and uneven times, 2-4 weights",
     "Tests reproduce one smooth demonstration and tolerate deviations of the "
     "reproduced path; gains of the wrong dimension or a force with a wrong "
     "term are compensated by the fit or stay below the tolerance.",
     ALLDMP[1:5] + (CORE + "_forcing_term.py",),
     (("target forces and regression", CORE + "_dmp.py"),),
     ("imitate", "get_weights"))

prop("I02", "What imitation learns does not depend on incidental choices",
     "The weights learned from a demonstration do not depend on the absolute "
     "time of its first sample, on its total duration, on the execution time "
     "or weights the object had before, or on a common offset of the "
     "demonstrated positions; they scale with the amplitude of the "
     "demonstration, and rotating the body frame leaves orientation weights "
     "unchanged. Each dimension, orientation and arm is learned from its own "
     "part of the demonstration only.",
     ("inputs", "configurations", "histories"),
     "all demonstrations, offsets, factors, frames, earlier states; all "
     "learning DMP classes, with and without smooth scaling and final "
     "velocity",
     "Tests imitate one demonstration that begins at time zero with a fresh "
     "object.",
     ALLDMP[1:5] + (CORE + "_forcing_term.py",),
     (("imitation", CORE + "_dmp.py"),), ("imitate", "get_weights"))

prop("I03", "Imitation sets start and goal to those of the demonstration",
     "After imitation, start and goal of the movement are the first and last "
     "sample of the demonstration, execution begins with the first sample "
     "exactly, and later changes of the demonstration array have no effect. "
     "If final velocities are allowed, the velocities at start and goal are "
     "those of the demonstration, otherwise the goal is approached with zero "
     "velocity.",
     ("inputs", "configurations"),
     "all demonstrations; all learning DMP classes",
     "Tests compare the goal with tolerance and never modify the "
     "demonstration afterwards.",
     ALLDMP[:5], (("imitation", CORE + "_dmp.py"),),
     ("imitate", "open_loop", "start_y", "goal_y"))

prop("O01", "Functions and methods never modify the caller's arrays",
     "No public function or method of movements, probabilistic movements, "
     "forcing terms, coupling terms, kinematics and data generation changes "
     "the contents of an array that is passed to it, unless the array is "
     "documented as output (the current state of the low-level integrators).",
     ("inputs", "configurations"),
     "all values of all array arguments; every movement class with every "
     "integrator, ProMP, coupling terms, functions",
     "Tests do not look at their arguments again, or pass lists and copies.",
     ALLDMP + (PYX, CORE + "_coupling_terms.py", CORE + "_forcing_term.py",
               "movement_primitives/promp.py",
               "movement_primitives/kinematics.py",
               "movement_primitives/spring_damper.py"),
     (("in-place operations on arguments", "movement_primitives/"),),
     ("all public functions",))

prop("O02", "Returned arrays are not aliases of the state of an object",
     "The caller may modify any array a method returned: no later execution, "
     "prediction or result of the object, and no array returned before or "
     "later, changes because of it.",
     ("inputs", "histories"),
     "all contents of the returned arrays; every movement class with every "
     "integrator, ProMP, coupling terms, functions",
     "Tests do not modify results before they use the object again.",
     ALLDMP + ("movement_primitives/promp.py",
               "movement_primitives/spring_damper.py",
               CORE + "_coupling_terms.py"),
     (("views and references in results", "movement_primitives/"),),
     ("step", "open_loop", "get_weights"))

prop("O03", "Objects keep no references to the caller's arrays",
     "Changing an array after it was passed to a constructor, configuration, "
     "step, imitation, conditioning or training method of a movement has no "
     "influence on the later behaviour of the object.",
     ("inputs", "histories"),
     "all later contents of the arrays; every movement class with every "
     "integrator, ProMP, minimum jerk trajectories (coupling terms may keep "
     "references to their targets and are excluded)",
     "Tests do not change arrays after they passed them.",
     ALLDMP + ("movement_primitives/promp.py",
               "movement_primitives/spring_damper.py"),
     (("stored arguments", "movement_primitives/"),),
     ("configure", "step", "set_weights", "imitate"))

prop("U01", "No result depends on uninitialised memory",
     "Every element of every array that a public function or method returns "
     "or that determines later results was computed or initialised; none has "
     "the arbitrary content of freshly allocated memory. This includes the "
     "smallest admissible numbers of weights, via-points, samples and time "
     "steps, and objects that were only constructed.",
     ("inputs", "configurations"),
     "all inputs; every movement class with every integrator, ProMP, coupling "
     "terms, functions; smallest and typical sizes",
     "Fresh memory often contains zeros or plausible old values, so tests "
     "pass.",
     ALLDMP + (PYX, CORE + "_forcing_term.py", "movement_primitives/promp.py",
               "movement_primitives/data/_minimum_jerk.py"),
     (("allocation without initialisation", "movement_primitives/"),),
     ("all public functions",))

prop("V01", "Invalid arguments are rejected and leave the object unchanged",
     "Starts, goals, last positions and velocities, gains and weight vectors "
     "of DMPs with wrong number of components, execution times that are not "
     "positive, too few weights "
     "or via-points, negative regularisation and unknown integrator names "
     "raise an error in every movement class, and afterwards the object "
     "behaves exactly as if the call had not happened. Valid arguments are "
     "accepted and become exactly the new configuration, arguments that are "
     "left out keep their values.",
     ("inputs", "configurations"),
     "all other arguments; each argument of configuration, construction and "
     "step on its own, lengths one too small and one too large, several "
     "wrong lengths of weight vectors, both signs",
     "Tests check a few error messages and never what happens afterwards.",
     ALLDMP + ("movement_primitives/spring_damper.py",
               "movement_primitives/utils.py",
               "movement_primitives/data/_minimum_jerk.py", 
               "movement_primitives/minimum_jerk_trajectory.py"),
     (("argument checks", "movement_primitives/utils.py"),),
     ("configure", "step", "open_loop"))

prop("W01", "Weights can be read, set and transferred without loss",
     "Reading weights returns exactly the weights that were set, as one flat "
     "array grouped by dimension whose length is the number of weights, and a "
     "new object has zero weights. Weights, start, goal and gains survive a "
     "change of the execution time, reset and configuration, and an object "
     "with the weights of another otherwise equal object moves like it; with "
     "zero weights a movement is the spring-damper alone.",
     ("inputs", "histories"),
     "all weights, start, goal, execution times; all classes with weights, "
     "2-5 weights per dimension",
     "Tests set and get weights without changing the execution time and with "
     "weights of one dimension.",
     ALLDMP[:5] + (CORE + "_forcing_term.py",),
     (("weights of forcing terms", CORE + "_forcing_term.py"),),
     ("get_weights", "set_weights", "execution_time_"))

prop("C01", "Coupling terms act like springs between the coupled parts",
     "Each coupling term between two parts of a state adds velocities and "
     "accelerations that are its documented factors times a spring force on "
     "the deviation from the desired distance, pose or recorded relative "
     "trajectory: a part with leader-follower weight zero is not affected, "
     "equal weights give the coupled positions opposite effects, and a pair "
     "that is at rest in the desired relation gets no coupling. Coupling of "
     "position and of orientation can be switched off separately, and the "
     "executed motion of a leader is the motion without coupling.",
     ("inputs", "configurations"),
     "all states, desired relations, gains and weights; all documented "
     "coupling terms, compiled and Python integrators",
     "Tests look at the final distance of single examples.",
     (CORE + "_coupling_terms.py", CORE + "_dmp.py",
      CORE + "_dual_cartesian_dmp.py"),
     (("coupling terms", CORE + "_coupling_terms.py"),),
     ("coupling", "step", "open_loop"))

prop("C02", "Obstacle avoidance steers perpendicular to the motion",
     "The obstacle avoidance acceleration is perpendicular to the velocity, "
     "lies in the plane of velocity and obstacle, points away from the "
     "obstacle and has the magnitude gamma * |velocity| * angle * exp(-beta * "
     "angle), where angle is the angle between velocity and direction to the "
     "obstacle. The planar, spatial, batched, compiled and coupling term "
     "variants agree.",
     ("inputs",), "all states, obstacles, gamma and beta in 2D and 3D; "
     "batches of 1-7 states, also on grids",
     "Tests compare few states of one variant.",
     (CORE + "_coupling_terms.py", PYX),
     (("obstacle avoidance", CORE + "_coupling_terms.py"),
      ("compiled obstacle avoidance", PYX)),
     ("obstacle_avoidance_acceleration_2d",
      "obstacle_avoidance_acceleration_3d", "coupling"))

prop("P01", "The potential field shows the accelerations of the DMP",
     "The potential field of a two-dimensional DMP returns, for each point of "
     "a grid over the given ranges, the transformation system's attractor "
     "acceleration, the forcing term, the obstacle term and their sum, each "
     "equal to its contribution to the acceleration that the DMP has in that "
     "state at that time. Without obstacle and forcing the field vanishes at "
     "the goal at rest.",
     ("inputs", "configurations"),
     "all points, velocities, times, weights, with and without obstacle and "
     "smooth scaling; DMPs with zero final velocity",
     "Tests check the shape of the field only.",
     ("movement_primitives/dmp_potential_field.py", CORE + "_dmp.py"),
     (("field", "movement_primitives/dmp_potential_field.py"),),
     ("potential_field_2d",))

prop("M01", "Conditioning a ProMP is exact Bayesian inference",
     "Conditioning a ProMP on a noisy observation of the position at some time "
     "gives the Gaussian posterior of the weights, for noise that is absent, a "
     "number or a matrix: without noise the new mean passes through the "
     "observation with variance zero, an observation of the expected position "
     "leaves the mean as it is, and the new covariance does not depend on the "
     "observed value. Only the ratio of time and maximum time matters, the "
     "original ProMP is not changed, and conditioning on several via-points is "
     "conditioning on one after the other.",
     ("inputs", "configurations"),
     "all weight distributions, observations, noises; 1-7 dimensions with 1-5 "
     "weights each, times at, between and on the ends of the basis functions, "
     "1-4 via-points",
     "Tests condition one trained ProMP and look at the mean of few points.",
     ("movement_primitives/promp.py",),
     (("conditioning", "movement_primitives/promp.py"),),
     ("condition_position", "via_points", "mean_trajectory",
      "var_trajectory"))

prop("M02", "Trajectory distributions are linear images of the weights",
     "Mean, covariance and variance of positions and velocities are those of "
     "the Gaussian weight distribution mapped linearly by normalised radial "
     "basis functions and by their derivatives with respect to the given "
     "times, variances are the diagonal of the covariance arranged as step x "
     "dimension. Sampled trajectories are trajectories of weights that are "
     "drawn with the given random state from the current distribution, and a "
     "new ProMP has zero mean and identity covariance.",
     ("inputs", "configurations"),
     "all weight distributions; 1-7 dimensions with 1-10 weights each, several "
     "time grids",
     "Tests compare one trained mean with the data within wide tolerances.",
     ("movement_primitives/promp.py",),
     (("trajectory distribution", "movement_primitives/promp.py"),),
     ("mean_trajectory", "cov_trajectory", "var_trajectory",
      "mean_velocities", "cov_velocities", "var_velocities",
      "sample_trajectories", "trajectory_from_weights"))

prop("M03", "ProMP weights are a per-dimension regularised least squares fit",
     "Equal weights of a dimension give a constant trajectory with that value "
     "and zero velocity, each dimension of a trajectory depends only on its "
     "own weights and linearly. The weights computed for a demonstration "
     "minimise the squared deviation plus the regularisation factor times the "
     "squared weights, dimension by dimension, and computing them does not "
     "change the ProMP; reversing time reverses the weights.",
     ("inputs", "configurations"),
     "all weights, demonstrations, regularisation factors; 1-7 dimensions "
     "with up to 20 weights each, several time grids",
     "Tests fit one demonstration and compare within tolerances.",
     ("movement_primitives/promp.py",),
     (("regression", "movement_primitives/promp.py"),),
     ("weights", "trajectory_from_weights", "mean_velocities"))

prop("M04", "ProMP training follows the expectation-maximisation updates",
     "Training sets mean and covariance of the weights to the result of the "
     "documented expectation-maximisation updates, in which each demonstration "
     "enters with its own times and length, and the covariance is the spread "
     "of the posterior means plus the mean posterior covariance. The order of "
     "demonstrations and the unit of their times do not matter, training "
     "continues from the current distribution, makes at most the given number "
     "of iterations and stops when the mean changes less than the given "
     "threshold.",
     ("inputs", "histories"),
     "all demonstrations and initial distributions; 1-2 dimensions, 1-3 "
     "demonstrations of 2-3 steps, up to two iterations",
     "Tests train one data set and compare the mean within wide tolerances.",
     ("movement_primitives/promp.py",),
     (("training", "movement_primitives/promp.py"),),
     ("imitate", "mean_trajectory", "cov_trajectory"))

prop("K01", "Inverse kinematics searches only within the allowed joint ranges",
     "Every search for joint angles is bounded by the joint limits of the "
     "robot, where missing limits are replaced by +-pi, and by explicitly "
     "given bounds if there are any; a local search is additionally bounded by "
     "the interval around the given joint angles. Random restarts start "
     "anywhere within exactly these bounds and the joint order of the chain "
     "is respected.",
     ("inputs", "configurations"),
     "all poses, joint angles, limits, intervals, random numbers; chains with "
     "revolute and prismatic joints with finite and missing limits, joints in "
     "another order than in the robot, up to nine joints",
     "Tests use one robot with few poses and cannot see the bounds.",
     ("movement_primitives/kinematics.py",),
     (("bounds", "movement_primitives/kinematics.py"),),
     ("inverse", "inverse_with_random_restarts",
      "local_inverse_with_random_restarts", "inverse_trajectory"))

prop("K02", "All inverse kinematics entry points respect their options",
     "The chosen solver, the weights of orientation and position error, the "
     "random state and the start joint angles reach every optimisation that "
     "an inverse kinematics call makes, for single poses, restarts and "
     "trajectories. Each optimisation minimises the weighted pose error of "
     "the pose it is made for, verbosity does not change results, and on "
     "request the error of the returned joint angles is returned.",
     ("inputs", "configurations"),
     "all poses, joint angles, weights, random numbers; each option of each "
     "entry point",
     "Tests use the default options of most entry points.",
     ("movement_primitives/kinematics.py",),
     (("optimisation", "movement_primitives/kinematics.py"),),
     ("inverse", "inverse_with_random_restarts",
      "local_inverse_with_random_restarts", "inverse_trajectory"))

prop("K03", "Inverse kinematics with restarts returns the best attempt",
     "With random restarts the joint angles with the smallest error of all "
     "attempts are returned, attempts end as soon as an error is not larger "
     "than the tolerance and after the given number of restarts, and at least "
     "one restart is required. A trajectory is solved pose by pose in order, "
     "each starting from the solution of the previous pose, and the solutions "
     "are returned in this order.",
     ("inputs", "histories"),
     "all poses and joint angles; outcomes of up to four attempts in all "
     "relevant orders, trajectories of up to three poses",
     "Which attempt is best depends on random numbers and the optimiser.",
     ("movement_primitives/kinematics.py",),
     (("restarts", "movement_primitives/kinematics.py"),),
     ("inverse_with_random_restarts", "local_inverse_with_random_restarts",
      "inverse_trajectory"))

prop("K04", "The pose error is a weighted distance of poses",
     "The pose error of joint angles is the orientation weight times the "
     "rotation angle plus the position weight times the distance between the "
     "desired pose and the pose reached with these joint angles. It is zero at "
     "the reached pose, ignores a part with weight zero, is defined for all "
     "rotations despite rounding, and does not change when both poses are "
     "expressed in another frame.",
     ("inputs",), "all poses, joint angles and weights; several chains",
     "Tests minimise the error and never compare it with its definition.",
     ("movement_primitives/kinematics.py",),
     (("pose error", "movement_primitives/kinematics.py"),),
     ("ee_pose_error",))

prop("K05", "Forward kinematics composes the joint transformations",
     "The pose for given joint angles is the product of the joint "
     "transformations along the path from end effector to base, where "
     "revolute joints rotate about and prismatic joints move along their axis "
     "and angles beyond the joint limits are set to the limits. It depends on "
     "the given joint angles of the chain and not on earlier calls, and the "
     "poses of a trajectory are the poses of its joint angles.",
     ("inputs", "histories"),
     "all joint angles, limits, joint offsets and axes; chains with 2-9 "
     "moving joints, branches, all pairs of frames of one robot",
     "Tests use one robot without prismatic joints.",
     ("movement_primitives/kinematics.py",),
     (("forward kinematics", "movement_primitives/kinematics.py"),),
     ("forward", "forward_trajectory"))

prop("S01", "Objects read from a file behave like the written objects",
     "A movement primitive, spring-damper, minimum jerk trajectory, ProMP or "
     "coupling term that is written as pickle, YAML or JSON and read again has "
     "the same class, configuration, weights and internal state as the written "
     "one, and all later steps and executions are the same, whatever was done "
     "with it before writing. Writing does not change the object, the file "
     "holds the object at the time of writing, and each reading gives a new "
     "independent object. A missing file or an unknown class is an error.",
     ("inputs", "configurations", "histories"),
     "all configurations, weights and states; each class after configuration, "
     "steps, reset, execution, imitation and change of the execution time, in "
     "each format",
     "Tests write one object per format directly after imitation.",
     ("movement_primitives/io.py",) + ALLDMP[:5],
     (("writing and reading", "movement_primitives/io.py"),),
     ("read_pickle", "read_yaml", "read_json", "write_pickle", "write_yaml",
      "write_json"))

prop("S02", "YAML and JSON files hold plain data and are read safely",
     "Writing YAML or JSON gives one text file under the given name that "
     "consists only of mappings with text keys, lists, numbers, texts, truth "
     "values and null, without Python-specific tags, for every class and state "
     "of an object. Reading them never uses a loader that can run code from "
     "the file, and opens only the given file and only for reading.",
     ("inputs", "configurations", "histories"),
     "all configurations, weights and states; each class after several "
     "histories",
     "Tests read only files that the same version has just written.",
     ("movement_primitives/io.py",),
     (("writing and reading", "movement_primitives/io.py"),),
     ("read_yaml", "read_json", "write_yaml", "write_json"))

prop("X01", "Without the compiled module the package works the same way",
     "If the compiled module is not available, everything that can be imported "
     "with it can still be imported, and steps, executions and imitation with "
     "default arguments give the same results as with it, for every class, "
     "with and without coupling term, smooth scaling and feedback. Asking "
     "explicitly for a compiled implementation that is not available is an "
     "error that leaves the object unchanged.",
     ("inputs", "configurations"),
     "all configurations, weights, states and times; all classes",
     "Tests run only in an environment where the module has been compiled.",
     ALLDMP + (PYX,),
     (("choice of the default implementation",
       "movement_primitives/dmp/_dmp.py"),),
     ("movement_primitives.dmp", "step", "open_loop", "imitate"))

prop("X02", "Compiled functions access only memory they may access",
     "No compiled function reads or writes an array element outside of the "
     "array, for any number of dimensions that its callers allow, with and "
     "without coupling term, feedback and smooth scaling, before, during and "
     "after the execution. Their results never depend on memory that was not "
     "written before.",
     ("inputs", "configurations"),
     "all values; one to seven dimensions; all combinations of options",
     "Bounds checks are switched off, so that a wrong access reads some other "
     "memory and goes unnoticed for many inputs.",
     (PYX,),
     (("typed array accesses", PYX),),
     ("movement_primitives.dmp_fast",))

prop("T01", "Minimum jerk trajectories run from rest to rest on a quintic",
     "A minimum jerk trajectory starts at the start and ends at the goal, "
     "without velocity and acceleration at both ends, for every start, goal, "
     "time step and execution time of at least two time steps; in between all "
     "samples lie on the quintic polynomial with these ends, and velocities "
     "and accelerations are its derivatives. Stepping through it returns these "
     "samples in order, from the first one again after a reset.",
     ("inputs", "histories"),
     "all starts, goals and time steps; execution times of 2 to 7 time steps, "
     "including fractions of a time step",
     "Tests use one execution time, a multiple of the time step without "
     "rounding error.",
     ("movement_primitives/data/_minimum_jerk.py",
      "movement_primitives/minimum_jerk_trajectory.py"),
     (("iteration over samples", "movement_primitives/data/_minimum_jerk.py"),
      ("stepping", "movement_primitives/minimum_jerk_trajectory.py")),
     ("generate_minimum_jerk", "MinimumJerkTrajectory.step"))

prop("T02", "Generated trajectory distributions are reproducible",
     "Generated one-dimensional trajectories are one period of a cosine plus a "
     "line between a random initial and final offset in the given ranges plus "
     "smooth noise with the inverse squared second differences as covariance, "
     "independently for each demonstration. All random numbers come from the "
     "given random state; without one, every call returns the same "
     "trajectories, and the global random state is never used.",
     ("inputs", "histories"),
     "all ranges and random numbers; 1 to 3 demonstrations of 2 to 5 steps",
     "Tests compare only averages over many trajectories of a single call.",
     ("movement_primitives/data/_toy_1d.py",),
     (("generation of demonstrations", "movement_primitives/data/_toy_1d.py"),),
     ("generate_1d_trajectory_distribution",))

prop("T03", "Weight distributions are propagated through executed movements",
     "The distribution of movement parameters is estimated from one row per "
     "demonstration sampled every 5 ms or slower that holds its learned "
     "weights, start, goal and execution time; the state distribution is estimated from the executions of its "
     "sigma points with their own weights, start and goal and the mean "
     "execution time, with the same parameters of the unscented transform. "
     "Given the name of a file, the executed trajectories are stored there, "
     "and later calls use them instead of the dataset.",
     ("inputs", "histories"),
     "all demonstrations, sigma points and parameters; 1 to 5 demonstrations "
     "with 2 to 7 samples, 1 to 3 sigma points, with and without cache",
     "The only test needs a dataset that is not part of the repository.",
     ("movement_primitives/dmp_to_state_space_distribution.py",),
     (("propagation",
       "movement_primitives/dmp_to_state_space_distribution.py"),),
     ("propagate_weight_distribution_to_state_space",))

prop("B01", "Each simulation reads and changes only its own physics client",
     "Every simulated robot, kinematic chain and drawing function uses only "
     "the physics client that it has connected or that it was given, however "
     "many other clients exist: it loads, reads, controls, draws and steps "
     "nothing in another client, and two objects never share a client.",
     ("inputs", "histories"),
     "all poses, joint states and movements; zero to two other clients; each "
     "public method of each class",
     "Tests create the simulation when its client is the only one or the one "
     "with the number that is used by default.",
     ("movement_primitives/testing/simulation.py",),
     (("calls of the physics engine",
       "movement_primitives/testing/simulation.py"),),
     ("UR5Simulation", "RH5Simulation", "KinematicsChain",
      "PybulletSimulation", "draw_transform", "draw_pose",
      "draw_trajectory"))

prop("B02", "Simulated robots follow and report the intended movement",
     "Poses with scalar-first quaternions are converted correctly to and from "
     "the physics engine, joint commands go to the joints of the arm in their "
     "order (velocities as difference to the measured angles per time step), "
     "and each execution makes one simulation step per movement step, starts "
     "each step from the last desired or, in closed loop, the measured pose, "
     "and reports all desired and measured states in order. Without a physics "
     "engine, executed and desired states are those of the movement.",
     ("inputs", "configurations"),
     "all poses, velocities and joint states; one and two arms; 0 to 3 steps; "
     "open and closed loop",
     "Tests only check that a simulated robot can be sent to one pose.",
     ("movement_primitives/testing/simulation.py",),
     (("control and measurement", "movement_primitives/testing/simulation.py"),),
     ("UR5Simulation", "RH5Simulation", "KinematicsChain",
      "SimulationMockup.step_through_cartesian", "analyze_robot"))

prop("L01", "Plots show each dimension and its bands in the right subplot",
     "Plotting a trajectory or a distribution draws column i over the given "
     "times, or over step numbers, in the i-th subplot, in rows or in columns "
     "if transposed, with its title and with the time label in the bottom row. "
     "Distributions have one band from mean minus to mean plus each factor "
     "times the standard deviation, filled or as two lines, in the given "
     "colour or the default one. Given axes are used and keep their titles "
     "and limits, and arguments are not modified.",
     ("inputs", "configurations"),
     "all values; 1 to 6 dimensions in several arrangements; all combinations "
     "of times, axes, filling and colour",
     "There are no tests of plots.",
     ("movement_primitives/plot.py",),
     (("plots", "movement_primitives/plot.py"),),
     ("plot_trajectory_in_rows", "plot_distribution_in_rows"))

prop("A01", "Omitted optional arguments take their documented values",
     "For every public function, method and constructor, leaving out an "
     "optional argument means the same as passing the default value that the "
     "documentation of this argument states as number, flag, string, tuple or "
     "None.",
     ("inputs", "configurations"),
     "all public functions, methods and constructors; all optional arguments "
     "with a documented number, flag, string, tuple or None as default",
     "Tests pass arguments explicitly or accept whatever the default yields; "
     "none compares a default with its documentation.",
     ("movement_primitives/dmp", "movement_primitives/promp.py",
      "movement_primitives/kinematics.py", "movement_primitives/dmp_fast.pyx"),
     (("signatures and docstrings", "movement_primitives"),),
     ("DMP", "CartesianDMP", "ProMP", "Chain.inverse_with_random_restarts",
      "CouplingTermDualCartesianPose", "dmp_step"))

prop("P02", "A plotted potential field shows each acceleration at its position",
     "Plotting the potential field of a planar movement draws four fields of "
     "arrows at the positions of the grid: attractor green, forcing term red, "
     "obstacle avoidance yellow and their sum black. Each arrow is the "
     "acceleration of the computed potential field at this position times the "
     "given exaggeration, and all fields have the same scale.",
     ("inputs", "configurations"),
     "all planar movements, ranges, obstacles and exaggerations; with and "
     "without obstacle",
     "No test calls the plotting function; arrows are judged by eye.",
     ("movement_primitives/dmp_potential_field.py",),
     (("arrows", "movement_primitives/dmp_potential_field.py"),),
     ("plot_potential_field_2d",))

prop("V02", "Progress messages change nothing but the printed output",
     "For every verbosity, inverse kinematics, training of probabilistic "
     "primitives, coupling terms and propagation of distributions return the "
     "same values after the same number of optimisations or iterations as "
     "without messages, and the messages themselves never raise an error.",
     ("inputs", "configurations"),
     "all poses, joint limits, demonstrations and gains; verbosity 0 to 2; "
     "with and without success of the optimisation",
     "Tests leave the messages switched off.",
     ("movement_primitives/kinematics.py", "movement_primitives/promp.py",
      "movement_primitives/dmp/_coupling_terms.py",
      "movement_primitives/dmp_to_state_space_distribution.py"),
     (("messages", "movement_primitives/kinematics.py"),),
     ("Chain.inverse", "ProMP.imitate", "CouplingTermDualCartesianPose",
      "propagate_weight_distribution_to_state_space"))

prop("N01", "Movements converge to the goal",
     "Executed long enough, the position of every DMP converges to its goal "
     "for all admissible gains.",
     ("inputs", "configurations"), "all gains, weights, steps sizes",
     "Tests run single examples.", (CORE + "_dmp.py",),
     (("transformation system", CORE + "_dmp.py"),),
     na="Convergence of the discretised system depends on numerical step "
        "sizes and gains; no static argument about the source bounds it.")

prop("N02", "Imitated demonstrations are reproduced accurately",
     "After imitation, open loop execution reproduces the demonstration up to "
     "the resolution of the basis functions.",
     ("inputs",), "all smooth demonstrations", "Tests use few examples.",
     (CORE + "_dmp.py",), (("imitation", CORE + "_dmp.py"),),
     na="The approximation error is a runtime quantity (least squares fit, "
        "finite differences); the structural part is covered by I01-I03.")

prop("N03", "Inverse kinematics finds a solution when one exists",
     "For every reachable pose inverse kinematics returns joint angles that "
     "reach it within the tolerance.",
     ("inputs",), "all reachable poses", "Tests use few poses.",
     ("movement_primitives/kinematics.py",),
     (("numerical optimisation", "movement_primitives/kinematics.py"),),
     na="Convergence of a numerical optimiser cannot be decided from the "
        "source.")

prop("N04", "Expectation-maximisation does not decrease the likelihood",
     "Every iteration of ProMP training increases the likelihood of the "
     "demonstrations or leaves it unchanged.",
     ("inputs", "histories"), "all demonstrations",
     "Tests check the mean of one data set.",
     ("movement_primitives/promp.py",),
     (("training", "movement_primitives/promp.py"),),
     na="A numerical quantity of the training data; additionally the variance "
        "update is documented as a heuristic.")

prop("N05", "Compiled implementations are faster than the Python ones",
     "A compiled integrator takes less time than its Python counterpart.",
     ("inputs", "configurations"), "all inputs", "Tests do not measure time.",
     (PYX,), (("compiled integrators", PYX),),
     na="Run time cannot be decided statically.")
