PROPS = []
def P(id, title, statement, quant, why, files, mech, **kw): PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, **kw))
UT = "The existing tests only exercise a handful of concrete string operations; "
P("P01", "Continuous collision detection finds the first contact of two moving balls",
  "For two balls moving along straight lines during a step, a collision is reported exactly when they touch or overlap at some time of the step. The reported time lies in the step, the balls touch or overlap at that time, and they are separated at every earlier time of the step.",
  "all start and end positions, all positive radii, including tangential, initially touching, co-moving and resting balls", UT + "this needs every pair of trajectories.",
  ["scisim/CollisionDetection/CollisionDetectionUtilities.cpp"], [("quadratic coefficients of the squared gap", "scisim/CollisionDetection/CollisionDetectionUtilities.cpp"), ("smallest root in the step", "scisim/CollisionDetection/CollisionDetectionUtilities.cpp")])
P("P02", "Serialised values read back identical and consume exactly their own bytes",
  "Every string, list of strings, scalar, flag, vector, dense matrix, sparse matrix and list of objects that is written to a checkpoint stream is read back with the same shape and bit-identical contents. Reading a value consumes exactly the bytes that were written for it, so values written one after another are read back one after another.",
  "all contents (including embedded zero bytes and high bytes, empty containers, any sparsity pattern) up to the size bound", UT + "they cannot enumerate byte contents or sparsity patterns.",
  ["scisim/StringUtilities.cpp", "scisim/Utilities.h", "scisim/Utilities.cpp", "scisim/Math/MathUtilities.h", "scisim/Math/MathUtilities.cpp"], [("length-prefixed binary encoding", "scisim/Utilities.h"), ("dense and sparse matrix encoding", "scisim/Math/MathUtilities.cpp")])
P("P03", "Text helpers split, trim and pad without losing or inventing characters",
  "Splitting a text at a delimiter yields the maximal delimiter-free pieces in order, so joining them with the delimiter restores the text. Trimming and whitespace removal delete exactly the whitespace (or given character) at the stated place and nothing else, and zero padding only prepends zeros up to the requested width.",
  "all texts up to the length bound over all byte values, all delimiters, all widths", "The 43 tests sample a few dozen literal strings; they never vary bytes, delimiters or positions systematically.",
  ["scisim/StringUtilities.cpp", "scisim/StringUtilities.h"], [("tokenize, trim, split and pad helpers", "scisim/StringUtilities.cpp")])
P("P04", "Contact gaps, penetration depths and activity tests match the geometry",
  "For round bodies against each other and against planes, drums and cylinders, the gap is the distance between the surfaces, the penetration depth is its negative part (zero when apart), and a contact is active exactly when the surfaces touch or overlap. The overlap volume of two spheres is zero when apart, the smaller ball's volume when nested, and the volume of the common lens otherwise, whichever sphere is named first.",
  "all positions, radii, plane and cylinder placements and orientations within the bounds", UT + "none of the contact geometry is tested at all.",
  ["ball2d/Constraints/*.cpp", "ball2d/StaticGeometry/*.cpp", "rigidbody2d/*Constraint.cpp", "rigidbody3d/Constraints/*.cpp", "rigidbody3d/StaticGeometry/*.cpp"], [("isActive, evaluateGapFunction, penetrationDepth, overlapVolume of each contact kind", "*/Constraints"), ])
P("P07", "Every contact reports a right-handed orthonormal frame led by its normal",
  "For every kind of contact in two and three dimensions the reported contact frame is orthonormal and right-handed and its first axis is the contact normal. In three dimensions the second axis opposes the tangential relative velocity whenever there is sliding.",
  "all normals, sliding directions and speeds (zero included), all contact kinds", UT + "orthonormality must hold for every normal and velocity.",
  ["ball2d/Constraints/*.cpp", "rigidbody2d/*Constraint.cpp", "rigidbody3d/Constraints/*.cpp", "scisim/Constraints/Constraint.cpp", "rigidbody3d/Constraints/FrictionUtilities.cpp"], [("contact basis construction", "*/Constraints"), ("orthogonal vector for sticking contacts", "rigidbody3d/Constraints/FrictionUtilities.cpp")])
P("P08", "Contact velocities and Jacobians agree with rigid-body kinematics",
  "For every contact kind the reported relative velocity is the velocity difference of the two material points at the contact, including spin and the motion of scripted boundaries. The normal and friction Jacobian columns and the contact-frame blocks, applied to the system velocity and combined with the scripted part, give exactly the normal and tangential parts of that relative velocity.",
  "all configurations, velocities, body indices, scripted motions and contact kinds", UT + "linear identities over all configurations and velocities are out of reach of samples.",
  ["ball2d/Constraints/*.cpp", "rigidbody2d/*Constraint.cpp", "rigidbody3d/Constraints/*.cpp"], [("gradient, friction columns, H blocks and relative velocities of each contact kind", "*/Constraints")])
P("P09", "Contact impulses conserve exactly the momenta the contact claims to conserve",
  "An impulse along the normal or along a friction direction of a contact between simulated bodies leaves the total linear momentum unchanged, and it leaves the total angular momentum unchanged whenever the contact declares that. Boundary contacts never declare linear momentum conservation.",
  "all configurations, normals, contact points, body indices and contact kinds", UT + "conservation must hold for each configuration.",
  ["ball2d/Constraints/*.cpp", "rigidbody2d/*Constraint.cpp", "rigidbody3d/Constraints/*.cpp"], [("equal and opposite Jacobian entries", "*/Constraints"), ("conservation declarations", "*/Constraints")])
P("P10", "Resolving one impact reverses the normal velocity by the restitution coefficient",
  "Resolving a single impact leaves the relative normal velocity equal to minus the restitution coefficient times its value before, and the velocity change is the reported impulse times the inverse mass along the contact normal. Kinetic energy never increases when the restitution coefficient is between zero and one.",
  "all approach velocities, masses, normals and restitution coefficients in [0,1]", UT + "no impact is ever resolved in a test.",
  ["ball2d/Constraints/*.cpp", "rigidbody3d/Constraints/*.cpp"], [("resolveImpact of each contact kind", "*/Constraints")])
P("P05", "The broad phase reports exactly the pairs of overlapping bounding boxes",
  "The candidate pairs are exactly the pairs of bounding boxes that intersect, touching boxes included, each listed once with the smaller body index first. This holds for the grid search of all three simulators, for queries with a single trial box, and for the exhaustive search.",
  "all box placements within the bounds, including touching, nested and differently sized boxes", UT + "a missed pair shows only for particular placements relative to the grid.",
  ["ball2d/SpatialGridDetector.cpp", "rigidbody2d/SpatialGrid.cpp", "rigidbody3d/SpatialGridDetector.cpp"], [("uniform grid rasterisation and pair collection", "*/SpatialGrid*.cpp")])

NT = "No simulation is ever constructed in a test; "
ALL = ["ball2d/*.cpp", "rigidbody2d/*.cpp", "rigidbody3d/*.cpp"]
P("P06", "Bounding boxes contain their bodies and are tight",
  "The axis-aligned box computed for a body contains the whole body (and, where a sweep is requested in 2D, a disc's whole straight motion) and every one of its sides is touched by the body. The bounding box of a simulation is the union of the boxes of its bodies, and in 3D a step ends the program under the exit treatment exactly when a body's box leaves the domain.",
  "all positions, orientations and sizes within the bounds", NT + "containment must hold for every pose.",
  ["rigidbody2d/CircleGeometry.cpp", "rigidbody2d/BoxGeometry.cpp", "ball2d/Ball2DState.cpp", "rigidbody2d/RigidBody2DState.cpp", "rigidbody3d/Geometry/*.cpp"], [("per-shape bounding boxes", "*/ *Geometry*.cpp"), ("bounding box of the simulation", "*/ *State.cpp")])
P("P14", "The impulse cache returns for each contact the impulse last stored for it",
  "After impulses have been stored for any set of distinct contacts, asking for a contact in the set returns its own impulse and asking for any other contact returns zero. The cache reports being empty exactly when nothing is stored, and clearing removes everything.",
  "all subsets of contacts of every cacheable kind, all impulses, different insertion orders", NT + "confusion between contacts shows only for particular combinations.",
  ["ball2d/ConstraintCache.cpp", "rigidbody2d/ConstraintCache.cpp", "rigidbody3d/ConstraintCache.cpp"], [("per-kind maps keyed by the touching bodies", "*/ConstraintCache.cpp")])
P("P15", "Portals are consistent: bodies leave through one side and enter at the other",
  "Sending a point through one plane of a portal places it at the same depth behind the other plane with the lateral offset prescribed by the portal, and sending it back restores it; bodies whose centre passed a portal plane at the end of a step are moved this way (and gain the speed of a moving portal) while all other bodies are left alone. Two discs or balls are in contact through a portal exactly when one touches the image of the other, each pair is listed once, and its normal and relative velocity are those of the body and the partner's image.",
  "all portal placements, speeds, times and body placements within the bounds", NT + "errors show only at particular offsets, signs or wrap-arounds.",
  ["ball2d/Portals/*.cpp", "rigidbody2d/PlanarPortal.cpp", "rigidbody3d/Portals/*.cpp"] + ALL, [("portal transforms", "*/PlanarPortal.cpp"), ("teleporting at the end of a step and contacts across the portal", "*Sim.cpp")])
P("P16", "Forces are the negative gradients of their potentials and add up",
  "Gravity pulls every body with its mass times the acceleration, without torque, and is the negative slope of the reported potential. The 2D penalty force pushes overlapping balls apart along their centre line with equal and opposite forces matching the slope of its potential, vanishes for balls that do not overlap, and forces add to what was already accumulated.",
  "all configurations, masses, stiffnesses and accelerations within the bounds", NT + "force-potential consistency must hold everywhere.",
  ["ball2d/Forces/*.cpp", "rigidbody2d/NearEarthGravityForce.cpp", "rigidbody3d/Forces/*.cpp"], [("force and potential evaluation", "*/*Force.cpp")])
P("P17", "One step of the 2D integrators follows their published update formulas",
  "A symplectic Euler step changes momentum by the step size times the force at the start and then moves with the new velocity; a velocity Verlet step moves with velocity and half the squared step times the initial acceleration, changes momentum by the mean of both forces, and is undone exactly by a step with reversed velocity. In the 2D rigid body simulator scripted bodies feel no force, and free flight under gravity with Verlet conserves energy.",
  "all states, masses, affine forces, step sizes and choices of scripted bodies", NT + "the formulas must hold for every state and force.",
  ["ball2d/SymplecticEulerMap.cpp", "ball2d/VerletMap.cpp", "rigidbody2d/SymplecticEulerMap.cpp", "rigidbody2d/VerletMap.cpp", "ball2d/Ball2DSim.cpp", "rigidbody2d/RigidBody2DSim.cpp"], [("integrators", "*/*Map.cpp"), ("stepping", "*Sim.cpp")])
P("P18", "3D integrators conserve momenta and keep orientations as rotations",
  "One step of the split-Hamiltonian and discrete Moser-Veselov integrators moves centres and changes linear and world angular momentum by the mean of the forces and torques at both ends of the step, and turns bodies by, respectively, the z-y-x-y-z splitting and the solution of the discrete Euler equation. Prediction with constant velocity turns each body about its spin axis by spin times step; the projected Euler step uses the force at the start and the closest rotation to the turned axes. Scripted bodies keep position and orientation, and forces are evaluated at the configuration asked for.",
  "all states, masses, inertias, orientations, affine forces and torques, step sizes and choices of scripted bodies", NT + "conservation must hold for every state and force.",
  ["rigidbody3d/UnconstrainedMaps/SplitHamMap.cpp", "rigidbody3d/UnconstrainedMaps/DMVMap.cpp", "rigidbody3d/UnconstrainedMaps/ExponentialEulerMap.cpp", "rigidbody3d/UnconstrainedMaps/IntegrationTools.cpp", "rigidbody3d/RigidBody3DSim.cpp"], [("integrators", "rigidbody3d/UnconstrainedMaps/*.cpp"), ("stepping", "RigidBody3DSim")])
P("P19", "Reported energies, momenta, masses and inertias are the physical ones",
  "Kinetic and potential energy, linear and angular momentum reported by a simulation equal the sums of the textbook expressions over its bodies. Mass matrices and their inverses match the bodies' masses and inertias, and masses and inertias derived from a density are those of the uniform solid.",
  "all states, masses, shapes and densities within the bounds", NT + "the sums must be right for every state.",
  ["ball2d/Ball2DSim.cpp", "ball2d/Ball2DState.cpp", "rigidbody2d/RigidBody2DSim.cpp", "rigidbody2d/RigidBody2DState.cpp", "rigidbody2d/CircleGeometry.cpp", "rigidbody2d/BoxGeometry.cpp", "rigidbody3d/RigidBody3DSim.cpp", "rigidbody3d/RigidBody3DState.cpp", "rigidbody3d/Geometry/*.cpp"], [("energy and momentum sums", "*Sim.cpp"), ("mass matrices", "*State.cpp"), ("shape moments", "*Geometry*.cpp")])
P("P23", "A restored checkpoint and a copied simulation equal the original",
  "Writing a simulation to a checkpoint and reading it back restores every body, shape, force, boundary, portal and cached impulse bit for bit, and copying a simulation yields an equal, independent one. Every integrator written to a checkpoint is restored as the same integrator, and a missing one as missing.",
  "all simulation contents within the bounds", NT + "a lost or swapped field shows only when that field is set.",
  ["ball2d/*.cpp", "ball2d/*/*.cpp", "rigidbody2d/*.cpp", "rigidbody3d/*.cpp", "rigidbody3d/*/*.cpp"], [("state and simulation serialisation", "*State.cpp, *Sim.cpp"), ("integrator restoration", "*Utilities.cpp")])
P("P24", "Exactly the touching bodies become contacts, once, with the right normal",
  "A body-body contact is listed exactly once for each pair that touches (in the 2D simulators at some time of the step, for moving discs) and never for pairs that stay apart or are both scripted; a boundary contact is listed exactly for each body, or each box corner, that touches a boundary plane, drum or cylinder at the end of the step. Each contact names its bodies, with a scripted partner second, and its normal points from the partner or boundary towards the first body.",
  "all placements and motions within the bounds, every choice of scripted bodies", NT + "missed, duplicated or reversed contacts show only for particular placements.",
  ALL, [("active set computation", "*Sim.cpp")])
P("P27", "Adding and removing bodies leaves every other body untouched",
  "Adding a body appends its position, velocity, mass, inertia, shape and scripting flag without changing any other body. Removing bodies or unused shapes removes exactly the named ones and every remaining body keeps its state, mass, flag, shape and relative order.",
  "all body counts, subsets and values within the bounds", NT + "index shifts show only for particular subsets.",
  ["ball2d/Ball2DState.cpp", "rigidbody2d/RigidBody2DState.cpp"], [("appending and removing bodies and shapes", "*State.cpp")])
P("P11", "Impact response follows the law of the chosen impact model",
  "A step with impacts detects contacts between start and prediction, gives each contact its (possibly scripted) restitution coefficient, pushes bodies apart only along contact normals by non-negative impulses, and continues with the velocity after the impulses; without contacts the prediction is the result, and only this step's impulses are remembered when warm starting is on. Newton, Gauss-Seidel, generalised reflection and its relaxed form turn an approaching contact velocity into minus restitution times it (including scripted boundary motion) and leave separating contacts alone.",
  "all velocities, masses, contact directions and restitution coefficients within the bounds", NT + "the law must hold for every collision.",
  ["scisim/ConstrainedMaps/ImpactMaps/*.cpp"], [("impact step", "ImpactMap.cpp"), ("impact operators", "*Operator*.cpp")])
P("P12", "The residual of a contact problem is zero exactly at its solutions",
  "The error measures that decide when an impact or friction solve has converged vanish exactly when the impulses solve the problem, and are positive for everything else. For impacts that is complementarity of impulse and separation velocity; for friction it is an impulse within the friction bound that, when below the bound, stops sliding and, at the bound, opposes it.",
  "all problem data and trial impulses within the bounds", NT + "accepting one kind of wrong answer is invisible on sampled solves.",
  ["scisim/ConstrainedMaps/ImpactMaps/MinMapImpact.cpp", "scisim/ConstrainedMaps/ImpactMaps/FischerBurmeisterImpact.cpp", "scisim/ConstrainedMaps/FrictionMaps/FischerBurmeister*.cpp"], [("termination measures", "QPTerminationOperator")])
P("P13", "The projected gradient solver reports honestly and always stops",
  "The solver returns a feasible point, whose reported residual is the residual of that point, no worse than any iterate including the start, and reports success exactly when it is within tolerance. It stops within the iteration limit for every start and problem, including contacts whose problem is singular or a limit of zero.",
  "all starts and right-hand sides within the bounds", NT + "wrong reports and endless loops appear only for particular problems.",
  ["scisim/Math/QPSolvers/*", "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorAPGD.cpp"], [("accelerated projected gradient descent", "ProjectionSolvers.h")])
P("P25", "Friction solves pose the contact geometry and friction bounds correctly",
  "Friction directions are the tangents of each contact frame in order, and scripted surface motion is projected onto the same normals and tangents. The friction problem handed to the solver has the response through the inverse mass and the sliding velocity as its data and bounds each contact's friction by its own coefficient times its own normal impulse; the returned impulses are the solver's.",
  "all contact frames, coefficients, impulses and velocities within the bounds", NT + "mixed-up contacts or bounds show only for several dissimilar contacts.",
  ["scisim/ConstrainedMaps/FrictionMaps/*.cpp", "scisim/Constraints/Constraint.cpp"], [("friction bases", "FrictionOperator.cpp, FrictionOperatorUtilities.cpp"), ("friction problems", "*MDPOperatorQL.cpp")])
P("P26", "Steps with friction pose, warm-start and apply the contact response correctly",
  "Each time-stepping scheme with friction seeks contacts between the right configurations, gives every contact its own (possibly scripted) restitution and friction coefficient, frame and cached impulse, and finishes from the velocity the contact solver returned; without contacts forces alone act, and exactly this step's impulses are cached if caching is on. The alternating solvers interleave impact and friction from the right velocities, stop as soon as the tolerance is met or at the iteration limit, and return impulses, velocity and error that belong together; a cached force turns with its contact normal.",
  "all contact data, solver answers and iteration counts within the bounds", NT + "mixed-up contacts, stale caches and mismatched results show only for particular histories.",
  ["scisim/ConstrainedMaps/*.cpp"], [("time-stepping schemes", "*ImpactFrictionMap.cpp"), ("alternating solvers", "StaggeredProjections.cpp, GRRFriction.cpp")])
P("P28", "The coupled friction solver gets the true contact problem; its answer is used",
  "The problem given to the third-party coupled friction solver has the masses, momenta, contact frames, lever arms, restitution and scripted motion of exactly the touching bodies, whatever other bodies exist, and the cached impulses as its start. Its answer is split into the normal and friction impulses of each contact and the new velocities of those bodies, all other bodies keep theirs, and the judged error is that of the given impulses on the same problem.",
  "all bodies, contacts and solver answers within the bounds", NT + "renumbering and frame errors show only when some bodies do not touch anything.",
  ["scisim/ConstrainedMaps/Sobogus.cpp"], [("problem set-up and read-back", "Sobogus.cpp")])
P("P20", "2D boxes touch other shapes exactly when they overlap, with true normals",
  "A disc and a box, and two boxes, are reported as contacts exactly when the solids overlap, however they are placed, sized and turned. The reported normal is a unit vector of least overlap pointing from the second body to the first, and contact points lie on the shape they are said to lie on.",
  "all positions and sizes, and several orientations, within the bounds", NT + "a missed separating axis shows only for particular placements.",
  ["rigidbody2d/BoxBoxTools.cpp", "rigidbody2d/CircleBoxTools.cpp", "rigidbody2d/RigidBody2DSim.cpp"], [("separating axis and clipping", "BoxBoxTools.cpp"), ("closest point on a box", "CircleBoxTools.cpp")])
P("P29", "Solver settings survive checkpoints and copies unchanged",
  "Each impact solver, friction solver and time-stepping scheme written to a checkpoint is read back as the same kind with the same tolerances, iteration limits, directions, caching mode and nested solvers, and reading consumes exactly what was written. A cloned solver equals its original.",
  "all solver kinds, nestings and parameter values within the bounds", NT + "a lost or swapped setting shows only for the kind and value that uses it.",
  ["scisim/ConstrainedMaps/*.cpp", "scisim/ConstrainedMaps/*/*.cpp"], [("naming, storing and restoring solvers", "ConstrainedMapUtilities.cpp"), ("solver state", "*Operator*.cpp, *Friction*.cpp")])
P("P21", "3D boxes touch exactly when they overlap, with true normals and contact points",
  "Two boxes are reported as contacts exactly when the solids overlap, with a unit normal of least overlap (up to a 5% bias towards faces) pointing from the second to the first, and contact points on the touching faces or halfway between the touching edges. The closest points of two segments, and of a sphere and a box, are truly the closest ones, and staples touch planes and each other exactly when one of their bars does.",
  "all relative positions, and several orientations, within the bounds", NT + "a missed separating axis or a wrong clip shows only for particular placements.",
  ["rigidbody3d/Constraints/BoxBoxUtilities.cpp", "rigidbody3d/Constraints/CollisionUtilities.cpp", "rigidbody3d/Constraints/StapleStapleUtilities.cpp", "rigidbody3d/RigidBody3DSim.cpp"], [("separating axes and clipping", "BoxBoxUtilities.cpp"), ("closest points", "CollisionUtilities.cpp")])
P("P22", "Triangle meshes collide where their distance field says; moments are the solid's",
  "A point collides with a mesh exactly when the interpolated signed distance there is not positive, with the normalised gradient as normal; every surface sample of either mesh inside the other is a contact with a normal towards the first, and hull corners touch planes and drums exactly when they reach them. Volume, centre of mass and inertia about it, computed from a closed mesh, are those of the enclosed solid, with right-handed principal axes.",
  "all field values, points, positions and vertices within the bounds", NT + "wrong cells, signs or terms show only for particular points and meshes.",
  ["rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp", "rigidbody3d/Constraints/MeshMeshUtilities.cpp", "rigidbody3d/Geometry/MomentTools.cpp"], [("distance field lookup", "RigidBodyTriangleMesh.cpp"), ("sample tests", "MeshMeshUtilities.cpp"), ("moment integrals", "MomentTools.cpp")])
P("P31", "A run saves what was asked for, stops on time and resumes exactly",
  "The command-line programs stop at the first step at or past the end time, write exactly the snapshots asked for (spacing, names, overwrite or numbered), and when resumed from any snapshot write byte for byte what the uninterrupted run wrote and end in the same state. Every setting and solver survives a snapshot. Snapshots of other programs or builds, missing files, save rates that are not whole numbers of steps, unreadable options and mixtures of solvers are refused without writing anything. The solver receives the right step number, step, restitution, friction coefficient and operators.",
  "every initial state, mass, gravity, end time, save rate and resumption point within the bounds", NT + "resumption must be exact for every state and point of interruption; no test runs the programs at all.",
  ["ball2dcli/ball2d_cli.cpp", "rigidbody2dcli/rigidbody2d_cli.cpp", "rigidbody3dcli/rigidbody3d_cli.cpp"], [("2D balls", "ball2d_cli.cpp"), ("2D bodies", "rigidbody2d_cli.cpp"), ("3D bodies", "rigidbody3d_cli.cpp")])
P("P32", "Time steps are exact reduced fractions, and their text means what it says",
  "A rational number is always stored in lowest terms with a positive denominator, zero as 0/1; sums, differences, products, quotients, integer multiples and comparisons are exact. The text of a decimal or a fraction, signed or with spaces, is read as exactly that value, and text that is not one number (several periods or slashes, a zero denominator, stray characters) is refused.",
  "all numerators, denominators and digits within the bounds", NT + "signs, common factors and malformed text interact in too many combinations.",
  ["scisim/Math/Rational.h"], [("arithmetic and reduction", "Rational.h"), ("reading text", "Rational.h:extractFromString")])
P("P33", "Matrix predicates, column extraction and digit counts answer correctly",
  "A sparse matrix is called the identity or symmetric exactly when every entry, stored or not, agrees within the tolerance; a set of vectors is called a right-handed orthonormal frame exactly when it is one. Extracting columns yields exactly the requested columns in order, also when none is requested, and the number of decimal digits of every unsigned integer is right.",
  "all entries, patterns, tolerances, columns and integers within the bounds", NT + "missing entries, empty selections and digit boundaries are easily skipped.",
  ["scisim/Math/MathUtilities.cpp", "scisim/Math/MathUtilities.h"], [("predicates", "MathUtilities.cpp"), ("column extraction", "MathUtilities.cpp:extractColumns")])
P("P34", "HDF5 state files hold the whole state, and are written for every saved frame",
  "A value, table, sparse matrix or text written to an HDF5 file is stored under its name with its type, shape and content, and reads back unchanged; wrong shapes, missing names, existing names and files that cannot be opened are errors, and no handle stays open. A state file holds the position, velocity, mass and shape of every body and, for rigid bodies, which are scripted, their orientations and the static planes, cylinders and portals; a mesh file gives exactly its vertices, triangles, samples, hull and moments. With an output directory, the programs write one state file per saved frame, stamped with step, iteration, time and version, also when resumed; a state that cannot be saved ends the run.",
  "all states, tables, texts, end times, save rates and points of interruption within the bounds", NT + "no test opens an HDF5 file; a dropped or transposed field shows only to whoever reads the output.",
  ["scisim/HDF5File.h", "scisim/HDF5File.cpp", "ball2d/Ball2DSim.cpp", "rigidbody2d/StateOutput.cpp", "rigidbody3d/StateOutput.cpp", "ball2dcli/ball2d_cli.cpp", "rigidbody2dcli/rigidbody2d_cli.cpp", "rigidbody3dcli/rigidbody3d_cli.cpp"], [("reading and writing", "HDF5File.h"), ("state records", "StateOutput.cpp"), ("frames", "*_cli.cpp:saveState")])
P("P35", "Force files hold every contact's bodies, point, normal and force, once per frame",
  "When forces of a step are asked for, every contact of that step, and of that step only, is recorded: its bodies or body and fixed object, its point and normal at the start of the step, and its force, which is the normal impulse along the normal plus the friction impulses along its tangents. Without contacts only their number, zero, is stored. The programs write one such file per saved state, one more step at the end included, and only when asked; forces without a directory are refused.",
  "all contacts, frames, impulses and save rates within the bounds", NT + "a wrong sign or a contact paired with another's impulse looks plausible in the output.",
  ["scisim/ConstrainedMaps/GeometricImpactFrictionMap.cpp", "scisim/ConstrainedMaps/StabilizedImpactFrictionMap.cpp", "scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.cpp", "scisim/ConstrainedMaps/ImpactMaps/ImpactSolution.cpp", "scisim/ConstrainedMaps/ImpactMaps/ImpactMap.cpp", "ball2dcli/ball2d_cli.cpp", "rigidbody2dcli/rigidbody2d_cli.cpp", "rigidbody3dcli/rigidbody3d_cli.cpp"], [("friction maps", "exportForcesNextStep, exportConstraintForcesToBinary*"), ("impacts", "ImpactSolution.cpp"), ("force files", "*_cli.cpp:stepSystem")])
P("P30", "A scene file becomes exactly the simulation it describes, or is refused",
  "For every scene of known elements, the parsed simulation has exactly the bodies, shapes, forces, boundaries, portals, integrator, step, end time, contact and friction solvers (with their parameters) and display settings written in the file, and nothing else. A scene is refused when a required value is missing or unreadable, when a number is outside its documented range, when an index names something that does not exist, when a plane is used by two portals, or when two ways of resolving contact are given.",
  "all values of all numbers, flags and indices in scenes within the bounds, and every single missing or unreadable attribute", NT + "tests run a handful of scene files and cannot try every value and every omission in every element.",
  ["ball2dutils/Ball2DSceneParser.cpp", "rigidbody2dutils/RigidBody2DSceneParser.cpp", "rigidbody3dutils/RigidBody3DSceneParser.cpp"], [("2D balls", "Ball2DSceneParser.cpp"), ("2D bodies", "RigidBody2DSceneParser.cpp"), ("3D bodies", "RigidBody3DSceneParser.cpp")])
P("P36", "The viewers show the state of the simulation they step",
  "The Qt/OpenGL viewers step the same simulation as the command-line programs, draw every body, plane, portal and cylinder at its current placement, and save images and states at the requested rate.",
  "all scenes, camera settings and sequences of user actions", UT + "they never start a viewer.",
  ["ball2dqt4", "rigidbody2dqt4", "rigidbody3dqt4"], [("drawing and stepping", "*GLWidget.cpp")],
  na="The viewers are Qt widgets drawing through OpenGL; neither library nor its headers are installed here, so their code cannot be compiled to an encodable form, and what they guarantee is what a driver puts on a screen. The simulations, parsers and solvers they call are decided by the other properties.")
P("P37", "Python scripts see and change exactly the state the callbacks promise",
  "Each scripting callback runs at its place in a step with the current step number, time, state and contacts, and values a script assigns to velocities, coefficients, portals or planes are those the step then uses.",
  "all scripts, steps and states", UT + "they run no script.",
  ["scisim/PythonTools.cpp", "ball2d/PythonScripting.cpp", "rigidbody2d/PythonScripting.cpp", "rigidbody3d/PythonScripting.cpp"], [("callbacks and accessors", "PythonScripting.cpp")],
  na="The code is a binding to the CPython and NumPy C interfaces, of Python 2 (Py_InitModule), of which only Python 3 headers are installed, and whose interpreter cannot be executed symbolically within reach. The native side of every callback (when it is called, with what, and that its answers are used) is decided with recording stand-ins in P11, P15, P26 and P31.")
P("P38", "The Ipopt and so-bogus solvers return solutions of the problems they are given",
  "The impact and friction operators built on Ipopt and the coupled so-bogus solver return impulses that satisfy the contact conditions of their problem to the requested tolerance, or report failure.",
  "all problems", UT + "they solve none.",
  ["scisim/ConstrainedMaps/ImpactMaps/LCPOperatorIpopt.cpp", "scisim/ConstrainedMaps/FrictionMaps/BoundConstrainedMDPOperatorIpopt.cpp", "scisim/ConstrainedMaps/FrictionMaps/SmoothMDPOperatorIpopt.cpp", "scisim/ConstrainedMaps/bogus"], [("problem set-up and solve", "*Ipopt.cpp, *SobogusInterface.cpp")],
  na="Ipopt and so-bogus are external libraries that are not part of the repository and not installed, so the operators do not compile here and their iterations cannot be encoded. The problem handed to so-bogus and the use of its answer are decided in P28, and the error measures by which a solution is judged in P12.")
