"""Checks by property: module, function, expected obligations, rule."""
REGISTRY = {}


def check(pid, module, function, minimum, rule, assumptions=(),
          technique=None, cost=""):
    REGISTRY[pid] = (module, function, dict(
        minimum=minimum, rule=" ".join(rule.split()),
        assumptions=assumptions, technique=technique, cost=cost))


GENERIC = (
    "real arithmetic: rounding is not modelled",
    "shapes (dimensions, number of weights, sub-steps) are the ones listed "
    "in the obligations",
    "generic inputs: comparisons of input values for equality and with "
    "thresholds below 1e-6 have the outcome they have almost everywhere; "
    "degenerate inputs have obligations of their own",
)

check("D01", "dynamics", "d01", 60, """
For each integrator (selected by its public name), the value numbers of the
position and velocity returned by a step from an arbitrary internal state are
compared, component by component, with the documented equation written down
independently (spec.euler, spec.rk4). Obligations enumerate smooth scaling,
coupling term, tracking gain, number of sub-steps (none to three full ones plus
a shorter rest), dimensions, number of weights, first and consecutive steps,
times in the middle, across and after the end.""", GENERIC, cost="19 s")
check("D02", "siblings", "d02", 65, """
Both members of each pair of implementations are analysed on the same
arguments with an uninterpreted forcing and coupling term; the value numbers of
all arguments after the call, the presence of a return value and the number of
coupling evaluations must agree. Pairs: Euler, Runge-Kutta, quaternion and
dual-arm integrators, phase, obstacle avoidance, quaternion product and
logarithm, and open loop execution by function name.""", GENERIC, cost="21 s")
check("D03", "dynamics", "d03", 18, """
Value numbers of a Cartesian DMP step are compared with the documented
quaternion equation in terms of the quaternion product, exponential and
logarithm; helpers of the compiled module are replaced by these maps only if
their own value numbers are the ones of the map. The squared norm of the
resulting quaternion must have the normal form one.""", GENERIC, cost="18 s")
check("D04", "dynamics", "d04", 20, """
Value numbers of a dual-arm step are compared with the documented equations,
with distinct symbols for each of the 14 pose, 12 velocity, gain, weight,
tracking error and coupling components. A dependence analysis requires that
terms of one arm contain no symbol of the other arm.""", GENERIC, cost="15 s")
check("D05", "dynamics", "d05", 13, """
Value numbers of a step are compared with the equation whose attractor is the
quintic Hermite polynomial of the six boundary values, before the end, in the
last step and after the end.""", GENERIC, cost="4 s")
check("D06", "dynamics", "d06", 12, """
Value numbers of a step and of the activations are compared with the
documented mixture for one to five via-points.""", GENERIC, cost="12 s")
check("D07", "dynamics", "d07", 14, """
Value numbers of a step are compared with the documented spring-damper
equation; the result without damping argument must equal the one with damping
2*sqrt(k), for steps and open loop.""", GENERIC, cost="5 s")
check("D08", "dynamics", "d08", 7, """
Value numbers of the forcing term, of its design matrix and of the influence
of the weights on the velocity after a step of each DMP are compared with the
documented basis mixture, with symbolic start time, execution time, overlap
and phase rate.""", GENERIC, cost="12 s")
check("D09", "dynamics", "d09", 6, """
Value numbers of the phase are compared with the exponential for scalars and
arrays, both implementations and the forcing term of every DMP; arguments
outside the domain must raise ValueError on every path.""", GENERIC,
      cost="1 s")

check("E01", "execution", "e01", 75, """
Value numbers of the trajectory of open loop execution are compared with those
of a chain of steps, both from the source of the same class, on a concrete time
grid (dt 0.1) with symbolic start, goal, velocities, gains and weights.""",
      GENERIC, cost="50 s")
check("E02", "execution", "e02", 38, """
Value numbers of the second of two executions of one object, with arbitrary
steps or a reset in between, are compared with those of the first; weights,
start, goal, gains, step lengths after execution are compared with those
before.""", GENERIC, cost="50 s")
check("E03", "execution", "e03", 55, """
Value numbers of state and clock after a step are compared with the documented
equation applied to each sub-interval of lengths int_dt, ..., rest; the coupling
term is an uninterpreted function of the state, so that the number and place of
its evaluations enter the result.""", GENERIC, cost="35 s")
check("E04", "execution", "e04", 34, """
Each step is analysed twice, with symbolic inputs and with the transformed
symbolic inputs (offset, factor or unit quaternion symbols); the second value
number must be the transformed first one.""", GENERIC, cost="11 s")
check("E05", "execution", "e05", 37, """
Each step is analysed with execution time tau and with a symbolic multiple of
it; positions must have the same value number, velocities the one divided by
the factor.""", GENERIC, cost="11 s")
check("E06", "execution", "e06", 31, """
The value numbers of position and velocity after two steps from the goal with
zero velocity must be those of the goal and zero. Comparisons of inputs are not
taken as generic here.""", GENERIC[:2], cost="3 s")

check("I01", "imitation", "i01", 26, """
Value numbers of the weights after imitation of a symbolic demonstration are
compared with the ridge regression formula (with an uninterpreted matrix
inverse) of the forces that solve the documented equation for the finite
differences of the demonstration.""", GENERIC, cost="16 s")
check("I02", "imitation", "i02", 34, """
Imitation is analysed twice, with a symbolic demonstration and with the
transformed one (shifted or scaled times, offset, amplitude, body frame, other
previous state); value numbers of the weights must be equal. A dependence
analysis requires that weights of one part contain no symbol of another.""",
      GENERIC, cost="14 s")
check("I03", "imitation", "i03", 12, """
Value numbers of start, goal, boundary velocities and first executed sample
after imitation are compared with samples of the symbolic demonstration.""",
      GENERIC, cost="7 s")
check("O01", "ownership", "o01", 58, """
Effect analysis: every array argument consists of fresh symbols; after the call
each element must still be its symbol. Views share memory in the abstract
domain, so in-place operations through aliases are seen.""", GENERIC,
      cost="17 s")
check("O02", "ownership", "o02", 58, """
Ownership analysis: after the call all returned arrays are overwritten by new
symbols in the abstract heap; value numbers of everything observable afterwards
must be those without overwriting.""", GENERIC, cost="26 s")
check("O03", "ownership", "o03", 53, """
Ownership analysis: after the call all array arguments are overwritten by new
symbols in the abstract heap; value numbers of everything observable afterwards
must be those without overwriting.""", GENERIC, cost="40 s")
check("U01", "state", "u01", 84, """
Definite initialisation: elements of arrays allocated without initialisation
are marked symbols; no result, state or later result may contain one.""",
      GENERIC, cost="17 s")
check("V01", "state", "v01", 112, """
Each invalid call must raise on every path of the abstract interpretation with
all other values symbolic; value numbers of everything observable afterwards
must be those of an object without that call. Valid calls must not raise and
store exactly the arguments.""", GENERIC, cost="30 s")
check("W01", "state", "w01", 24, """
Value numbers of weights, start, goal and gains after each operation are
compared with the symbols that were set.""", GENERIC, cost="4 s")
check("C01", "coupling", "c01", 33, """
Value numbers of the velocity and acceleration returned by each coupling term,
and of executed steps with and without it, are compared with the documented
spring for symbolic states, gains and leader-follower weights.""", GENERIC,
      cost="5 s")
check("C02", "coupling", "c02", 14, """
Value numbers of the acceleration are compared with the documented formula;
its scalar product with the velocity must be zero and the one with the
direction to the obstacle non-positive.""", GENERIC, cost="2 s")
check("P01", "coupling", "p01", 6, """
Value numbers of the four components of the field are compared with the terms
of the documented equation in the same symbolic state.""", GENERIC, cost="19 s")
check("M01", "promp", "m01", 54, """
Value numbers of mean and covariance of the conditioned ProMP are compared with
the posterior formula for symbolic weight distributions (conditioning is by
inverse matrices in the normal form), and with the observation at the observed
time; a dependence analysis requires that the covariance contains no symbol of
the observed value.""", GENERIC, cost="22 s")
check("M02", "promp", "m02", 70, """
Value numbers of all moments are compared with basis matrix times symbolic
weight distribution; the basis and its derivative are computed independently
from their definition. Draws from the random state are symbols that name the
state and the distribution.""", GENERIC, cost="40 s")
check("M03", "promp", "m03", 39, """
Value numbers of trajectories of equal weights must be the weight; a dependence
analysis requires that no dimension contains weights of another; computed
weights are compared with the ridge regression formula.""", GENERIC,
      cost="8 s")
check("M04", "promp", "m04", 24, """
Value numbers of mean and covariance after training with symbolic
demonstrations are compared with the documented updates; permuted and rescaled
demonstrations must give the same value numbers; calls of the basis and the
number of iterations follow from the gated stop condition.""", GENERIC,
      cost="23 s")
ROBOT = GENERIC + (
    "The robot is an abstract tree of frames with symbolic offsets and limits "
    "in place of the URDF transform manager; the numerical optimiser returns "
    "arbitrary joint angles and errors.",)
check("K01", "kinematics", "k01", 16, """
Each call of the optimiser is recorded with its value-numbered arguments; its
bounds must be the symbolic limits, intersected with interval or given bounds,
and its start the affine image of the random draws in these bounds.""", ROBOT,
      cost="1 s")
check("K02", "kinematics", "k02", 32, """
Each call of the optimiser is recorded; its method, start, and objective,
applied to symbolic joint angles, must be the ones that belong to the options of
the entry point. Every random draw must come from the given state.""", ROBOT,
      cost="1 s")
check("K03", "kinematics", "k03", 22, """
The optimiser model returns symbolic joint angles with scripted errors; number
and order of its calls, the start of each call and the returned symbols are
compared with the specification.""", ROBOT, cost="1 s")
check("K04", "kinematics", "k04", 7, """
Value numbers of the pose error are compared with the formula for symbolic
joint angles and poses; a range analysis of the arguments of inverse
trigonometric functions must stay in their domain.""", ROBOT, cost="1 s")
check("K05", "kinematics", "k05", 13, """
Value numbers of the end effector pose are compared with the product of joint
transformations along the path for symbolic joint angles, offsets, axes and
limits.""", ROBOT, cost="1 s")
check("S01", "fileio", "s01", 240, """
Writing and reading are analysed with a model of files that holds the abstract
value as the format represents it (lists for arrays and tuples in JSON,
Python-specific tags in YAML). Value numbers of everything observable on the
object that was read are compared with those of a twin of the written object;
objects have symbolic configuration, weights and states.""", GENERIC + (
    "Numbers survive their textual representation in JSON and YAML exactly.",),
      cost="75 s")
check("S02", "fileio", "s02", 98, """
The abstract contents of each written file must consist of plain data; the
calls that a reading function makes, resolved through all helpers, must not
include an unsafe loader; opened files and modes are compared with the
arguments.""", GENERIC, cost="11 s")
check("X01", "compiled", "x01", 56, """
All modules are analysed a second time with an import of the compiled module
that fails; exported names are compared as sets, value numbers of steps,
executions and learned weights with those of the first analysis.""", GENERIC,
      cost="75 s")
check("X02", "compiled", "x02", 50, """
Each access of an element of a typed array in the compiled module is recorded
with the shape of the array it reaches; each index must lie in the range of its
dimension (negative ones are allowed only where wraparound is on). Elements of
new arrays are distinct symbols until they are written; no result may contain
one.""", GENERIC, cost="11 s")
check("T01", "generated", "t01", 30, """
Value numbers of all samples for symbolic start, goal and time step are
compared with the quintic polynomial and its derivatives; results of stepping
with arbitrary arguments with the samples.""", GENERIC, cost="2 s")
check("T02", "generated", "t02", 10, """
Random draws are symbols that name the random state and the position in its
stream. Value numbers of the trajectories are compared with the formula in
these symbols; no other random state may occur among the recorded draws.""",
      GENERIC, cost="1 s")
check("T03", "generated", "t03", 10, """
Multivariate normal distributions are stand-ins that record what is estimated
and return symbolic sigma points; learning and execution of movements are
uninterpreted functions of the whole state of the object. Value numbers of all
recorded arguments are compared with those of movements that are set up through
the public interface.""", GENERIC + (
    "The distributions of gmr do what their documentation says.",),
      cost="2 s")
ENGINE = GENERIC + (
    "The physics engine is a stand-in: states are symbols that name client, "
    "body, joint or link and number of simulated steps; the base of the robot "
    "is the origin.",)
check("B01", "simulation", "b01", 40, """
Each call of the physics engine is recorded with the client it goes to,
resolved through all helpers and objects; clients get numbers that differ from
the default. Each call that concerns a client must name one that was connected
by, or given to, the object or function.""", ENGINE, cost="1 s")
check("B02", "simulation", "b02", 30, """
Value numbers of arguments of recorded calls of the physics engine (poses,
indices, modes and targets of joints) and of all results are compared with the
specification; calls are counted and their order is compared. The movement is a
stand-in that records the states it is given.""", ENGINE, cost="1 s")
check("L01", "plots", "l01", 60, """
Each drawing call is recorded with its subplot; value numbers of the curves are
compared with columns of mean and standard deviation, subplots with the
arrangement.""", GENERIC + (
    "Plotting functions of matplotlib do what their documentation says.",),
      cost="1 s")
check("A01", "defaults", "a01", 130, """
Default values are evaluated in the resolved modules (constants through imports)
and compared with the values that the docstring of the function or class states
for the parameter. None as marker for a value that is determined in the body is
left out.""", GENERIC, cost="1 s")
check("P02", "coupling", "p02", 4, """
Calls that draw arrows are recorded; value numbers of positions and components
are compared with those of the computed field.""", GENERIC + (
    "Plotting functions of matplotlib do what their documentation says.",),
      cost="1 s")
check("V02", "messages", "v02", 30, """
The same operation is analysed with and without messages; value numbers of all
results and the numbers of optimisations must agree.""", GENERIC, cost="4 s")
