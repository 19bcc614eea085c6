MODEL = "runtime oracle: results compared online with an independent long-double model, under ASan/UBSan"
TRUST = ("Every generated case is executed on the real code built from the working tree with AddressSanitizer and UBSan checks on (thorough: also full UBSan and the optimised NDEBUG build) "
         "and judged by an oracle; assurance is limited to the inputs generated. Trusts the reference model in harness/ref.hpp and the compiler's sanitizers. ")

P("C01", "Rigid-body algebra: vectors, rotations, frames, twists and wrenches",
  "Every arithmetic, composition, inversion and change-of-reference operation on Vector, Rotation, Frame, Twist and Wrench returns the result defined by rigid-body mechanics (group laws, "
  "inverse composition, invariance of wrench-twist power under a change of frame or reference point), to rounding error. "
  "Compound assignment gives the same result as the two-operand form, even when the operand is the object itself, and no operation changes its other operands. "
  "Equality and epsilon-comparison agree with component-wise comparison. A diagonal stiffness maps displacements to loads and back, component by component.",
  ["inputs"], "all finite vectors, rotation matrices, frames, twists and wrenches, including zero vectors, quarter and half turns and aliased operands",
  "The tests evaluate a few fixed vectors and one frame; an error confined to one component, one overload or aliased operands passes them.",
  ["frames.hpp", "frames.inl", "frames.cpp"],
  [("frame composition and inverse", "frames.inl"), ("twist/wrench reference point and base change", "frames.inl"), ("homogeneous matrix export", "frames.cpp")],
  MODEL, TRUST + "Tolerances 1e-12 relative; Vector::Norm is allowed the library's documented resolution epsilon=1e-6.")

P("C02", "Rotation parametrisations convert exactly and return proper rotations",
  "Axis-angle, RPY, Euler ZYX/ZYZ, quaternion and Denavit-Hartenberg constructors give the proper rotation (or frame) their documentation defines, for every angle, including multiples of a quarter turn and a null axis. "
  "Every extraction returns parameters that rebuild the same rotation and lie in the documented range, at and near the singular configurations too. "
  "No conversion produces NaN for a valid rotation.",
  ["inputs"], "all rotation matrices and all parameter values, with emphasis on singular neighbourhoods (0, pi, gimbal lock) at distances 1e-16..1e-3",
  "Singular neighbourhoods have measure zero: the tests visit a handful of exact angles and no near-singular one.",
  ["frames.cpp", "frames.hpp", "frames.inl"],
  [("angle/axis extraction near 0 and pi", "frames.cpp"), ("Euler/RPY branch at gimbal lock", "frames.cpp"), ("quaternion branch selection", "frames.cpp")],
  MODEL, TRUST + "Near singularities the tolerance widens to the resolution the threshold epsilon=1e-6 of the extraction implies.")

P("C03", "Finite differences of poses and their integration are mutual inverses",
  "For all vectors, rotations, frames, twists and wrenches a and b, adding the difference diff(a,b,dt) to a over the same dt gives b, and the difference is the constant velocity that moves a to b in dt. "
  "Integrating a twist at a given sampling frequency moves a frame along the exact screw motion, and rotation differences never exceed half a turn. "
  "Base-frame and tip-frame variants differ exactly by the change of frame.",
  ["inputs"], "all pairs of poses and all non-zero dt, including identical poses, half-turn differences and very small differences",
  "The tests check one direction for a few frames; errors in the reference frame of the difference or near half turns are not sampled.",
  ["frames.inl", "frames.cpp"],
  [("diff/addDelta", "frames.inl"), ("Frame::Integrate", "frames.inl"), ("rotation vector extraction", "frames.cpp")],
  MODEL, TRUST)

P("C04", "Planar types Vector2, Rotation2 and Frame2 form the planar motion group",
  "Operations on planar vectors, rotations and frames obey the planar rigid-motion group: composition, inverse, application to points and the conversion from and to angles are exact and mutually consistent. "
  "Element access of a planar rotation returns the entries of the matrix that multiplies vectors. "
  "Conversion between planar and spatial vectors takes the components of the plane it names.",
  ["inputs"], "all planar vectors, angles and frames, aliased operands included",
  "The existing tests touch only a few planar operations with fixed numbers.",
  ["frames.hpp", "frames.inl", "frames.cpp"],
  [("Rotation2 composition/inverse", "frames.inl"), ("Frame2 composition/inverse", "frames.inl"), ("Vector2 <-> Vector plane conversion", "frames.inl")],
  MODEL, TRUST)

P("C05", "Automatic differentiation carries exact velocities and accelerations",
  "Every arithmetic operator and elementary function on the value-with-derivative scalars (first order, second order and nested) returns the exact derivatives of the operation, for in-place and mixed-scalar forms and aliased operands as for the two-operand form. "
  "The same holds for every operation on moving vectors, rotations, frames and twists, whose derivative parts are the true time derivatives of the value part. "
  "Differences of moving poses keep translation and rotation in their own slots and round-trip.",
  ["inputs", "programs"], "all expression sequences over these types at points where the function is differentiable",
  "Tests cover a few operators at fixed points; a wrong derivative term in a rarely used function or in-place form is invisible to them.",
  ["utilities/rall1d.h", "utilities/rall2d.h", "framevel.hpp", "framevel.inl", "frameacc.hpp", "frameacc.inl"],
  [("derivative propagation rules", "utilities/rall2d.h"), ("moving frame composition", "framevel.inl"), ("accelerating frame composition", "frameacc.inl")],
  MODEL + " (truncated power series)", TRUST + "Model: truncated Taylor series in long double; random straight-line programs are checked step by step against the actual operands.")

P("C06", "Textual representations round-trip and hostile text is handled safely",
  "Every vector, rotation, frame, twist, wrench and planar object, and every path, rotational interpolation, velocity profile and trajectory description written to a text stream and read back is the same object, to the printed precision; all documented literal forms are accepted. "
  "Malformed, truncated or oversized text ends in a reported error and never in memory corruption, a leak of half-built objects or a hang. "
  "Listing operators name every segment and joint.",
  ["inputs"], "all objects and all byte strings up to a few kilobytes (nesting depth bounded)",
  "Tests read a few well-formed literals; parsers fail on the inputs nobody wrote down.",
  ["frames_io.cpp", "kinfam_io.cpp", "utilities/utility_io.cxx", "path.cpp", "rotational_interpolation.cpp", "velocityprofile.cpp", "trajectory.cpp", "utilities/error_stack.cxx"],
  [("stream extraction of frames", "frames_io.cpp"), ("token reader", "utilities/utility_io.cxx"), ("factory Path::Read", "path.cpp")],
  "sanitizers + runtime oracle: write/read round trips and mutated text under ASan/UBSan", TRUST)

P("C07", "Joints and segments: pose and twist match the joint model",
  "The pose of a joint is the exact rotation about or translation along its axis through its origin by scale*q+offset, for every joint type, and its twist is the exact time derivative of that pose. "
  "A segment's pose is its joint pose times its fixed tip frame and its twist is the velocity of the tip in the segment's base orientation; the tip-frame accessor and mutator agree with the pose. "
  "Invalid joint definitions are rejected, and copies and assignments behave identically to the original.",
  ["inputs"], "all joint types, axes, origins, scales, offsets and joint values",
  "The tests run a few joint types with default scale/offset at fixed values.",
  ["joint.cpp", "joint.hpp", "segment.cpp", "segment.hpp"],
  [("Joint::pose and Joint::twist", "joint.cpp"), ("Segment::twist reference point", "segment.cpp")],
  MODEL, TRUST)

P("C08", "Chains and trees keep their structural invariants through every edit history",
  "After any sequence of segment, chain and tree additions, copies, assignments, sub-tree and chain extractions, the counts of segments and joints, the segment order and names, the parent/child links and the joint numbering describe exactly the structure that was built. "
  "Joint numbers are a permutation of 0..n-1, fixed joints consume none, parents and children refer to each other, rejected edits report failure and leave the structure unchanged by the rejected segment, and copies are independent of their source.",
  ["histories"], "all finite edit sequences, including invalid hooks, name clashes, self-append and self-assignment",
  "Tests build a few fixed trees; index corruption appears only after particular sequences of edits and copies.",
  ["tree.cpp", "tree.hpp", "chain.cpp", "chain.hpp"],
  [("Tree::addSegment/addTree/addChain", "tree.cpp"), ("Tree copy and getSubTree", "tree.cpp"), ("Chain append", "chain.cpp")],
  "runtime monitor: invariant and model comparison after every step of random edit histories, under ASan/UBSan", TRUST)

P("C09", "Extracted chains and sub-trees move like the structure they came from",
  "The chain extracted from a tree between any two segments, downwards, upwards or across a common ancestor, has the same relative pose and velocity between its ends as the tree, for matching joint values. "
  "Joint parameters (scale, offset, inertia, damping, stiffness) survive the reversal of segments. "
  "A sub-tree, a copied tree and a tree with a grafted chain or tree reproduce the poses of the original.",
  ["inputs", "programs"], "all trees, all ordered pairs of segments, all joint values",
  "Tests extract one or two chains from a fixed tree and mostly check counts.",
  ["tree.cpp", "chain.cpp", "segment.cpp", "joint.cpp"],
  [("Tree::getChain inversion", "tree.cpp"), ("Tree::getSubTree", "tree.cpp")],
  MODEL, TRUST + "Inertia of reversed segments is outside the claim: a reversed segment carries the body of the other end.")

P("C10", "Forward position kinematics gives the product of the segment poses",
  "For every chain and tree, every joint position and every requested segment, the forward position solver returns the ordered product of the segment poses from the root to that segment, with joint values taken in the documented joint order. "
  "The all-segments variants agree with the single-segment calls, negative segment numbers count as documented, and tree results do not depend on the order in which branches were added. "
  "Out-of-range segments and wrongly sized arguments are refused with the documented code.",
  ["inputs"], "all chains and trees (fixed joints, scaled and offset joints, no movable joints), all joint values, all segment numbers",
  "The tests compare a handful of fixed arms at a few configurations, usually only for the last segment.",
  ["chainfksolverpos_recursive.cpp", "treefksolverpos_recursive.cpp", "segment.cpp"],
  [("chain recursion", "chainfksolverpos_recursive.cpp"), ("tree recursion and joint lookup", "treefksolverpos_recursive.cpp")],
  MODEL, TRUST)

P("C11", "Jacobians and velocity kinematics are the derivative of forward kinematics",
  "For every chain and tree, the Jacobian solver returns the geometric Jacobian of the requested segment (base frame, reference point at the segment's tip), and the velocity forward kinematics returns the pose together with the Jacobian times the joint velocities. "
  "Changing reference point, frame or base of a Jacobian transforms every column as a twist; locked joints give zero columns; columns of joints outside the path are zero in a tree.",
  ["inputs"], "all chains and trees, all joint positions and velocities, all segments, all lock patterns, all changes of reference",
  "The tests check consistency between two solvers of the same code base on four fixed arms; a shared error or one in an unusual segment or lock pattern passes.",
  ["chainjnttojacsolver.cpp", "chainfksolvervel_recursive.cpp", "treejnttojacsolver.cpp", "jacobian.cpp"],
  [("reference point and frame propagation", "chainjnttojacsolver.cpp"), ("velocity recursion", "chainfksolvervel_recursive.cpp"), ("tree path walk", "treejnttojacsolver.cpp"), ("change of reference", "jacobian.cpp")],
  MODEL, TRUST)

P("C12", "The Jacobian derivative is the time derivative of the Jacobian",
  "For every chain, joint position and velocity and each representation (hybrid, body-fixed, inertial), the Jacobian-derivative solver returns the exact time derivative of the Jacobian in that representation, and its product with the joint velocities is returned by the twist overload. "
  "Locked joints contribute neither motion nor columns and the remaining columns stay in order; segment number and size errors are refused.",
  ["inputs"], "all chains, joint states, representations, segments and lock patterns",
  "The tests use one arm and compare with a first-order difference at loose tolerance, without locked joints.",
  ["chainjnttojacdotsolver.cpp", "chainjnttojacdotsolver.hpp"],
  [("partial derivatives per representation", "chainjnttojacdotsolver.cpp"), ("locked joints", "chainjnttojacdotsolver.cpp")],
  MODEL, TRUST + "Reference derivative by 4th-order differences in long double (error about 1e-11).")

P("C13", "Inertia algebra: bodies add, move and map twists as rigid bodies do",
  "Rotational, rigid-body and articulated-body inertias represent the mass properties given at construction: mass, centre of gravity and inertia about the reference point are returned as given, momentum is the inertia times the twist, "
  "sums are the combined bodies, and change of base, reference point or frame gives the same body seen from the new frame (equal kinetic energy for the same motion). Articulated inertias obey the same laws and agree with rigid ones.",
  ["inputs"], "all masses including zero and massless inertia, centres of gravity, inertia tensors, frames and twists",
  "The tests use one or two bodies with symmetric data and reuse the library's own formulas as expectation.",
  ["rigidbodyinertia.cpp", "rigidbodyinertia.hpp", "rotationalinertia.cpp", "articulatedbodyinertia.cpp", "articulatedbodyinertia.hpp"],
  [("parallel axis in constructor and frame change", "rigidbodyinertia.cpp"), ("6x6 transform", "articulatedbodyinertia.cpp")],
  MODEL, TRUST)

P("C14", "Inverse dynamics and dynamic parameters obey the equations of motion",
  "For every chain and tree with inertia, the torques returned by the recursive Newton-Euler solvers equal M(q)*qdd + C(q,qd)*qd + G(q) minus the generalised forces of the external wrenches (given in segment tip frames), and the dynamic-parameter solver returns exactly those M, C*qd and G. "
  "M is symmetric and positive semi-definite, includes rotor inertia, and G is the gradient of potential energy; the chain and tree solvers agree on unbranched trees.",
  ["inputs"], "all chains and trees with inertia, joint states, accelerations, gravity vectors and external wrenches",
  "The tests evaluate a few arms in a few states and compare solvers that share the same recursion.",
  ["chainidsolver_recursive_newton_euler.cpp", "treeidsolver_recursive_newton_euler.cpp", "chaindynparam.cpp"],
  [("outward/inward recursion", "chainidsolver_recursive_newton_euler.cpp"), ("tree recursion", "treeidsolver_recursive_newton_euler.cpp"), ("composite inertia for M", "chaindynparam.cpp")],
  MODEL, TRUST + "Reference dynamics is built from body energies (no recursion), derivatives by 4th-order differences in long double.")

P("C15", "Forward dynamics inverts inverse dynamics and integrates it to fourth order",
  "For every chain with non-singular mass matrix, the acceleration returned by forward dynamics reproduces the applied torques when fed to the equations of motion with the same external wrenches. "
  "The Runge-Kutta integrator advances position and velocity exactly by the classical four-stage rule for a time step. Inputs other than the documented outputs are unchanged.",
  ["inputs"], "all chains with well conditioned mass matrices, joint states, torques, wrenches, gravity vectors and time steps",
  "The tests check one arm round trip and one integration without an independent expectation.",
  ["chainfdsolver_recursive_newton_euler.cpp"],
  [("mass matrix solve", "chainfdsolver_recursive_newton_euler.cpp"), ("RK4 stages", "chainfdsolver_recursive_newton_euler.cpp")],
  MODEL, TRUST + "Tolerance scales with the condition number of the mass matrix; cases beyond 1e6 are counted as out of domain.")

P("C16", "The Vereshchagin hybrid dynamics solver obeys mechanics and its constraints",
  "For every chain of movable joints, joint state, feed-forward torque, external wrench and set of end-effector acceleration constraints, the returned accelerations satisfy the equations of motion with the returned constraint torques, the constraint torques are those of forces along the constraint directions with the returned magnitudes, "
  "and feasible constraints are met exactly (alpha' * X_dotdot = beta). Without active constraints the result is plain forward dynamics; switched-off constraints do not influence the rest; reported segment accelerations match the motion. Unsupported chains and wrong sizes are refused.",
  ["inputs"], "all chains without fixed joints, 1 to 6 constraint directions (axis-aligned, oblique, off), joint states and loads",
  "The tests check one arm with one constraint set against stored numbers and never check the constraint torques.",
  ["chainhdsolver_vereshchagin.cpp", "chainhdsolver_vereshchagin.hpp"],
  [("inward sweep: articulated inertia, E, M, G", "chainhdsolver_vereshchagin.cpp"), ("constraint magnitude solve", "chainhdsolver_vereshchagin.cpp"), ("final outward sweep", "chainhdsolver_vereshchagin.cpp")],
  MODEL, TRUST + "Tolerance scales with the condition number of the mass matrix; redundant or infeasible constraint sets are only checked for the equations of motion.")

P("C17", "Velocity inverse kinematics is the weighted minimum-norm least-squares motion",
  "For every chain, joint state and demanded twist, each velocity IK solver (pseudo-inverse, Givens, null-space optimising, weighted damped) returns joint velocities minimising the (weighted, damped) task error, of minimum (weighted) norm where that is not unique; the null-space part never disturbs the task. "
  "Singular configurations are reported with the documented code and stay finite, reported singular values are the true ones, results do not depend on earlier calls, and wrongly sized arguments are refused.",
  ["inputs", "histories"], "all chains with 1 to 9 joints (redundant, deficient, singular), joint states, feasible and infeasible twists, weights, damping values, call sequences incl. chain changes",
  "The tests check round trips on a few 6- and 7-joint arms in regular configurations; fewer joints, infeasible twists, repeated calls and weights are never checked.",
  ["chainiksolvervel_pinv.cpp", "chainiksolvervel_pinv_givens.cpp", "chainiksolvervel_pinv_nso.cpp", "chainiksolvervel_wdls.cpp"],
  [("truncated pseudo-inverse", "chainiksolvervel_pinv.cpp"), ("incremental Givens SVD state", "chainiksolvervel_pinv_givens.cpp"), ("damping and weights", "chainiksolvervel_wdls.cpp"), ("null-space step", "chainiksolvervel_pinv_nso.cpp")],
  MODEL, TRUST + "Cases with singular values between noise and 1e-3 or within 1% of the threshold are only checked for status and finiteness.")

P("C18", "Position inverse kinematics that reports success has reached the goal",
  "When a chain position IK solver reports success, forward kinematics of the returned joints (and the joint limits, for the limited solver) agrees with the goal within the requested tolerance; otherwise it reports the documented failure code and stays within iterations and limits. "
  "Goals close to a well conditioned initial guess are always reached. The Levenberg-Marquardt solver never ends farther from the goal than it started and its reported differences are the actual ones. Failures of child solvers are passed on.",
  ["inputs", "histories", "fault_sequences"], "all chains, initial guesses (at, near and far from the goal), reachable and unreachable goals, tolerances, iteration limits, joint limits, failing child solvers",
  "The tests run a few arms from guesses near the goal; no failure path, limit, tolerance or reported difference is examined.",
  ["chainiksolverpos_nr.cpp", "chainiksolverpos_nr_jl.cpp", "chainiksolverpos_lma.cpp"],
  [("Newton step and termination", "chainiksolverpos_nr.cpp"), ("joint limit clamp", "chainiksolverpos_nr_jl.cpp"), ("damping update and reports", "chainiksolverpos_lma.cpp")],
  MODEL, TRUST + "Rotations below the library's angle resolution (1e-6) are reported as none by KDL's diff; tolerances allow for it.")

P("C19", "Tree inverse kinematics meets its demands within its limits",
  "For every tree, endpoint set, weights and damping, the tree velocity solver returns the weighted damped least-squares joint velocities of all endpoints together and their weighted demand. The iterative position solver asks for exactly the remaining motion of the requested endpoints, reports success only within tolerance and stays within joint limits. "
  "The one-step solver never demands more than the Cartesian limits or moves faster than the joint limits, keeping directions. Endpoints not requested are left in place; unknown or missing endpoints and wrong sizes are refused.",
  ["inputs", "histories"], "all trees and endpoint sets (1 to 4, nested and fixed), goals for all or some endpoints, weights, damping, Cartesian, joint and speed limits, call sequences",
  "No test of the suite exercises any tree inverse kinematics solver.",
  ["treeiksolvervel_wdls.cpp", "treeiksolverpos_nr_jl.cpp", "treeiksolverpos_online.cpp"],
  [("stacked weighted Jacobian", "treeiksolvervel_wdls.cpp"), ("termination and limits", "treeiksolverpos_nr_jl.cpp"), ("velocity limits", "treeiksolverpos_online.cpp")],
  MODEL, TRUST + "With zero damping in a singular configuration only finiteness is claimed.")

P("C21", "Matrix decompositions reproduce their input",
  "For every matrix, each SVD routine returns orthonormal factors and non-negative ordered singular values whose product is the input (within rounding), or reports that it did not converge; the incremental Givens SVD does so for slowly changing sequences, and the LDL solver solves every symmetric positive definite system and rejects singular or wrongly sized ones.",
  ["inputs", "histories"], "all matrix shapes used by the library (tall, wide, square), ranks, scales, repeated and tiny singular values, zero rows and columns, slowly changing sequences, iteration limits",
  "No test examines the decompositions themselves; their errors surface only through solvers at benign configurations.",
  ["utilities/svd_HH.cpp", "utilities/svd_eigen_HH.cpp", "utilities/svd_eigen_Macie.hpp", "utilities/ldl_solver_eigen.cpp"],
  [("Householder and QR sweeps", "utilities/svd_eigen_HH.cpp"), ("Givens sweeps", "utilities/svd_eigen_Macie.hpp"), ("LDL factor", "utilities/ldl_solver_eigen.cpp")],
  MODEL, TRUST)

P("C20", "The external wrench estimator observes the load and nothing else",
  "Fed with joint positions, velocities and torques of a robot, the estimator's joint torques follow the first-order momentum observer with its gain and filter: they stay zero while nothing acts on the end effector, also when the robot moves and right after setting the initial momentum, and approach the torques of a constant load. "
  "The reported wrench is the (least-squares, smallest) wrench at the end effector, in its frame, that causes those torques. Refused calls do not disturb the observation.",
  ["inputs", "histories"], "all chains with inertia, trajectories (still and moving), loads, gains, filters, sample rates, singular value thresholds, call sequences incl. restarts and chain changes",
  "The single test runs one 7-joint arm to a loose tolerance after convergence, never checks the transient, other joint numbers or a restart.",
  ["chainexternalwrenchestimator.cpp"],
  [("momentum integral and filter", "chainexternalwrenchestimator.cpp"), ("initial momentum", "chainexternalwrenchestimator.cpp"), ("pseudo-inverse of the transposed Jacobian", "chainexternalwrenchestimator.cpp")],
  MODEL, TRUST + "Wrench comparison skips configurations with singular values near the threshold.")

P("C22", "Joint-space containers compute exactly, also in place and after resizing",
  "Joint arrays, their velocity and acceleration variants, Jacobians and joint-space inertia matrices hold what was stored, start and grow with zeros, and add, subtract, scale, divide and multiply element by element; with rates, by the product and quotient rules of first and second derivatives. "
  "Results are the same when the destination is one of the operands, operands are unchanged, and equality respects size, every element and the given precision.",
  ["inputs"], "all sizes from 0 to 12, values, scalar factors with rates and accelerations, operand/destination aliasing, resizing histories",
  "The tests use one size and a few values and never alias operands with rates or read newly grown elements.",
  ["jntarray.cpp", "jntarrayvel.cpp", "jntarrayacc.cpp", "jntspaceinertiamatrix.cpp", "jacobian.cpp"],
  [("element-wise arithmetic", "jntarray.cpp"), ("product and quotient rules", "jntarrayacc.cpp"), ("resize", "jntspaceinertiamatrix.cpp")],
  MODEL, TRUST)

P("C23", "Solvers check sizes, segments and chain changes and report what happened",
  "Every chain solver refuses arguments and settings of wrong size, segment numbers that do not exist and chains that changed since updateInternalDataStructures, with the documented code, before reading or writing them. Each call's code is also what getError reports and has an explanation of its own. "
  "After a refusal the solver works as before; after updateInternalDataStructures it works on the changed chain exactly as a new solver.",
  ["inputs", "histories"], "all 16 chain solvers and their operations, every argument and setting too short, too long and empty, segment numbers, chains growing, shrinking and replaced while solvers refer to them",
  "The tests try a few wrong sizes on some solvers and one chain growth; no test combines changes, refusals and later correct calls.",
  ["solveri.hpp", "chainiksolverpos_lma.cpp", "chainhdsolver_vereshchagin.cpp", "chainiksolvervel_wdls.cpp", "chaindynparam.cpp", "chainexternalwrenchestimator.cpp"],
  [("error codes", "solveri.hpp"), ("updateInternalDataStructures", "chainiksolverpos_lma.cpp"), ("size checks", "chaindynparam.cpp")],
  "runtime protocol monitor over call histories, compared with fresh solvers, under ASan/UBSan", TRUST + "Solvers that keep history by design (Givens, estimator) are compared only with themselves.")

P("C24", "Solvers are functions of their arguments and leave everything else alone",
  "What a solver returns depends only on its chain or tree, its settings and the arguments of the call: not on earlier calls, failures, settings since replaced, other solvers on the same robot, or what the outputs held before. "
  "Solvers never change the chain or tree they refer to, their input arguments, or another solver's state.",
  ["inputs", "histories"], "interleaved call histories of several solvers on one to three robots, with refused calls, changed settings, replaced chains and repeated questions; all chain and tree solvers",
  "The tests call each solver freshly set up; leftover state of an earlier or failed call does not show.",
  ["chaindynparam.cpp", "chainidsolver_recursive_newton_euler.cpp", "chainiksolverpos_nr.cpp", "chainiksolverpos_lma.cpp", "chainhdsolver_vereshchagin.cpp", "treeiksolverpos_online.cpp", "treeidsolver_recursive_newton_euler.cpp"],
  [("solver work space", "chainiksolverpos_lma.cpp"), ("per-segment state", "chainhdsolver_vereshchagin.cpp"), ("tree work maps", "treeidsolver_recursive_newton_euler.cpp")],
  "runtime monitor over recorded call histories: every answer replayed on a fresh and on an isolated solver, under ASan/UBSan", TRUST + "pinv_givens (warm start by design) and the estimator are compared with a twin that lived through the same accepted calls.")

P("C25", "Velocity profiles travel from start to end within their limits",
  "Every velocity profile starts at the start and ends at the end position, moves monotonously between them, stays within its velocity and acceleration limits, and takes the requested duration or, where the limits do not allow it, the shortest one. Position, velocity and acceleration are derivatives of each other; outside the duration the end positions are kept, at rest. "
  "Re-planning, changed limits and copies do not disturb each other, and nothing becomes NaN.",
  ["inputs", "histories"], "all profile kinds, forward, backward and zero displacements, limits, requested durations feasible or not, fractions of the maximum velocity, spline boundary conditions, re-use histories",
  "The tests check a few forward motions; backward and zero displacements, infeasible requests, re-use and copies are not covered for most kinds.",
  ["velocityprofile_trap.cpp", "velocityprofile_traphalf.cpp", "velocityprofile_rect.cpp", "velocityprofile_spline.cpp", "velocityprofile_dirac.cpp"],
  [("trapezoid planning", "velocityprofile_trap.cpp"), ("half trapezoid planning", "velocityprofile_traphalf.cpp"), ("constant velocity planning", "velocityprofile_rect.cpp"), ("spline coefficients", "velocityprofile_spline.cpp")],
  MODEL, TRUST + "Splines are judged inside their duration only.")

P("C26", "Paths follow the described curve at unit speed",
  "Every path starts and ends where it was told, follows the described line, arc or composition in between with rotation and translation in proportion, and has the documented equivalent length, so that the path variable advances at unit equivalent speed. Velocities and accelerations are the derivatives of the poses. "
  "Rounded composites follow the corner points with tangent arcs of the given radius or refuse them and stay usable; repetitions repeat, copies are equal and independent, and answers do not depend on earlier questions.",
  ["inputs", "histories"], "all lines, circles, points, nested composites, repetitions and rounded composites with any rotations (0 to half a turn), equivalent radii, scales, ownership choices and refused points",
  "Only a handful of poses of fixed paths are tested: arcs with rotation, composites of composites, accelerations, copies and refusals are not.",
  ["path_line.cpp", "path_circle.cpp", "path_composite.cpp", "path_roundedcomposite.cpp", "path_cyclic_closed.cpp", "rotational_interpolation_sa.cpp"],
  [("equivalent length", "path_line.cpp"), ("arc and rotation scaling", "path_circle.cpp"), ("segment lookup", "path_composite.cpp"), ("corner rounding", "path_roundedcomposite.cpp")],
  MODEL, TRUST + "The library treats displacements and angles below 1e-6 as none; pieces that small are judged with that tolerance. The axis of a half turn is the library's choice.")

P("C27", "Trajectories put the profile on the path, and stay put outside their time",
  "A trajectory's pose, twist and acceleration at any time are the path's at the profile's position, velocity and acceleration, with the duration of the profile; stretching to a duration keeps start and end. A stationary trajectory stands still. "
  "A composite runs its pieces one after the other, each for its duration, and stands still before the start and after the end. Written and re-read trajectories, clones and re-use after Destroy behave the same, and nothing is deleted twice or leaked.",
  ["inputs", "histories"], "all paths of C26 with all profiles of C25, stationary and composite trajectories incl. nested ones and empty pieces, times inside, at and outside every boundary, requested durations, text round trips, clones, Destroy and re-use",
  "No test takes the velocity or acceleration of a trajectory, a composite at its piece boundaries, or re-uses one.",
  ["trajectory_segment.cpp", "trajectory_composite.cpp", "trajectory_stationary.cpp", "trajectory.cpp"],
  [("profile on path", "trajectory_segment.cpp"), ("piece lookup and durations", "trajectory_composite.cpp"), ("text form", "trajectory.cpp")],
  MODEL, TRUST + "Path and profile values themselves are judged by C25 and C26.")

P("C28", "Threads that share nothing they write to do not disturb each other",
  "Any number of threads may use the library at the same time as long as they work on their own objects or only read the shared ones: chains, trees, segments, paths, profiles and trajectories. No data race occurs, however the threads are scheduled, and every answer is the one the thread would have got alone.",
  ["schedules", "inputs"], "2 to 8 threads of random workloads over all solvers, containers, trees, paths, trajectories, errors and text input, with shared constant models, random yields and delays; all interleavings reached",
  "The test suite is single-threaded.",
  ["chainfksolverpos_recursive.cpp", "chainiksolverpos_lma.cpp", "joint.cpp", "tree.cpp", "utilities/error_stack.cxx", "utilities/utility.cxx"],
  [("error stack", "utilities/error_stack.cxx"), ("shared joint and segment poses", "joint.cpp"), ("solver work space", "chainiksolverpos_lma.cpp")],
  "ThreadSanitizer on concurrent workloads, and every answer compared with that of a serial run", "ThreadSanitizer sees the races of the interleavings that ran; global numeric settings (epsilon, MAXLENFILENAME) are configuration and not written by the workload.")

P("C29", "PyKDL says what KDL says",
  "Every function, operator, method and attribute of the Python module has the meaning of its C++ namesake: the same value for every input, keyword names as documented, outputs written into the caller's objects, arguments unchanged, fresh results that share nothing with their sources, views where an attribute is one. "
  "Pickling, copying and text forms give back equal objects; wrong types are refused with a TypeError.",
  ["inputs", "programs"], "all classes and functions of the module with random and boundary values, keyword and positional calls, in-place operators, pickle protocols, copy and deepcopy, chains and trees built from Python",
  "The Python tests try a few values per class; swapped overloads, dropped fields of copies and outputs filled in a temporary do not show.",
  ["python_orocos_kdl/PyKDL/frames.cpp", "python_orocos_kdl/PyKDL/framevel.cpp", "python_orocos_kdl/PyKDL/kinfam.cpp", "python_orocos_kdl/PyKDL/dynamics.cpp"],
  [("frames binding", "python_orocos_kdl/PyKDL/frames.cpp"), ("solver binding", "python_orocos_kdl/PyKDL/kinfam.cpp"), ("inertia binding", "python_orocos_kdl/PyKDL/dynamics.cpp")],
  "runtime monitor over random Python calls, each compared with an independent numpy model, on the module built with ASan", TRUST + "Inverse kinematics is checked by applying the model's forward kinematics. pybind11's numpy header is adapted to the sandbox's numpy 2.",
  )

P("C30", "No Python program can make PyKDL touch freed or foreign memory",
  "Whatever order objects are made, shared, grown and dropped in, solvers keep what they were built from alive and go on answering the same, members and elements stay valid when their owner is gone, and things handed out are not changed behind the caller's back. "
  "Indices, sizes and arguments outside their range raise an exception and change nothing; no call with arbitrary arguments crashes the interpreter.",
  ["programs", "histories", "inputs"], "programs that build, share, drop and grow every kind of solver, chain, tree and array; every index of every container incl. negative, huge and wrongly typed; every callable with random arguments",
  "The tests keep everything alive in local variables and index inside the range.",
  ["python_orocos_kdl/PyKDL/kinfam.cpp", "python_orocos_kdl/PyKDL/dynamics.cpp", "python_orocos_kdl/PyKDL/frames.cpp"],
  [("keep-alive of constructor arguments", "python_orocos_kdl/PyKDL/kinfam.cpp"), ("index checks", "python_orocos_kdl/PyKDL/frames.cpp"), ("inertia matrices", "python_orocos_kdl/PyKDL/dynamics.cpp")],
  "AddressSanitizer on random Python programs, plus answers compared with those of objects kept alive", "Operands of different sizes in Add, Subtract, Multiply, Divide, MultiplyJacobian and JntArrayVel(q, qdot) are a stated precondition of the C++ functions and not passed. None for self is pybind11's own.",
  )

P("C31", "What owns a part deletes it exactly once, and nothing leaks",
  "Interpolations, paths, profiles and trajectories that are handed over with ownership are deleted exactly once, with their owner or when it is refused; parts lent to a user are never deleted by it, and clones own copies of all they need. "
  "Building, cloning, copying, assigning, updating and dropping chains, trees, solvers and motions, and reading or writing text over streams that end, are damaged or fail anywhere, gives all memory back and touches none that is released.",
  ["histories", "fault_sequences", "inputs"], "random scenes of all path, profile and trajectory types with and without ownership, clones, refused constructions and points; text cut or damaged anywhere and streams that fail or throw at any byte; histories of chains, trees and all solvers",
  "The tests build a few objects and never look at what remains allocated; refused constructions, lent parts and failing streams are not covered.",
  ["path_composite.cpp", "path_circle.cpp", "path_cyclic_closed.cpp", "path_roundedcomposite.cpp", "trajectory_segment.cpp", "path.cpp", "tree.cpp"],
  [("aggregate flags", "path_composite.cpp"), ("ownership on refusal", "path_circle.cpp"), ("scoped pointers while reading", "path.cpp"), ("clones", "path_roundedcomposite.cpp")],
  "AddressSanitizer with its allocation hooks as a live-block balance per scenario, and parts that count their own destruction", TRUST + "A scenario runs once unobserved (one-time initialisation) and once observed. Failing allocations are not injected: the library makes no promise about them.",
  )

P("C32", "Equality compares every component, and equal values hash equally",
  "Equal(a,b,eps), == and != of all geometric, derivative, joint and matrix types hold exactly if every component differs by less than the tolerance (by default the global one); they are symmetric, reflexive, false for NaN and for different sizes, and a plain value equals one with zero derivatives. "
  "std::hash gives equal values equal hashes, whatever the sign of their zeros, tells different values and orders of components apart, and the types work as keys of unordered containers.",
  ["inputs"], "all types with Equal or a hash, differences in any component just inside and outside the tolerance, NaN and infinite components, mixed plain and derivative types, changed global tolerance, sizes 0 to 12",
  "The tests compare a few equal and clearly different values; a component left out of a comparison or hash does not show.",
  ["frames.inl", "framevel.inl", "frameacc.inl", "frames.cpp", "jntarray.cpp", "jacobian.cpp", "utilities/hash_combine.h"],
  [("tolerance comparison", "utilities/utility.h"), ("derivative types", "framevel.inl"), ("hashes", "frames.hpp")],
  MODEL, TRUST + "== is Equal with the global tolerance (KDL_USE_EQUAL), as the library is configured.",
  )

P("C33", "After construction the computations never touch the heap",
  "Once built, and after an update to a changed chain, a solver answers every call without allocating or releasing memory: the first call and later ones, refused and failing ones, and changes of settings of the same size. "
  "The same holds for queries of chains, segments, joints and trees, arithmetic on frames, derivatives, inertias and joint arrays of matching size, and for evaluating paths, profiles and trajectories.",
  ["inputs", "histories"], "all chain and tree solvers on random robots through histories of calls, refusals, changed settings and changed chains; all geometry types, containers, decompositions, paths, profiles and trajectories",
  "Tests look at values; an allocation on the control path (a temporary, a resize, an Eigen product without noalias) only shows as jitter on a real-time system.",
  ["solveri.hpp", "chainiksolverpos_lma.cpp", "chainiksolvervel_pinv_nso.cpp", "chainhdsolver_vereshchagin.cpp", "chainexternalwrenchestimator.cpp", "treeiksolvervel_wdls.cpp"],
  [("single point of allocation", "solveri.hpp"), ("preallocated work space", "chainiksolverpos_lma.hpp"), ("products without temporaries", "chainhdsolver_vereshchagin.cpp"), ("fixed-size geometry", "frames.inl")],
  "runtime monitor on heap operations (malloc, free and operator new, also from Eigen and the standard library) armed around single library calls, optimised build", TRUST + "TreeFkSolverPos takes the segment name by value, so names too long for the string's own buffer are copied by the caller: trees with such names are left out for it and the two tree position solvers that call it. Outputs of the wrong size are resized by some calls and not passed.",
  )
