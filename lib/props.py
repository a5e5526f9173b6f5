"""The properties (written to properties.jsonl by bin/gen) and the claims (written to MANIFEST.json)."""


def P(id, title, statement, over, qtext, why, files, mech, observe=None, technique=None, note=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=None),
                technique=technique, note=note)


NOTEST = 'The tests that run here exercise only string utilities; the full suite compares a few fixed scenes. '

PROPS = [
    P('C01', 'A restored snapshot continues bit for bit like the original run',
      'For each of the three simulators, a snapshot of a simulation (state, forces, static geometry, portals, warm-start data, integrator, impact operator, friction solver, maps and their settings) taken after any step and restored into fresh or previously used objects continues bit-identically with the original run. Taking a snapshot changes nothing, restoring consumes exactly the bytes written, and snapshotting the restored simulation gives the same bytes.',
      ['inputs', 'histories', 'configurations', 'crash_points'], 'all scenes, all supported combinations of integrator, operator, solver, warm start and portals, and every step at which the snapshot may be taken',
      NOTEST + 'A snapshot that omits one field of one configuration only diverges in runs using that configuration, taken at that moment.',
      ['ball2d/Ball2DSim.cpp', 'ball2d/Ball2DState.cpp', 'ball2d/Ball2DUtilities.cpp', 'rigidbody2d/RigidBody2DState.cpp', 'rigidbody3d/RigidBody3DState.cpp', 'scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp', 'scisim/Utilities.h', 'scisim/Math/MathUtilities.h'],
      [('serialize/deserialize pairs of every component', 'Ball2DSim::serialize, RigidBody2DSim::serialize, RigidBody3DSim::serialize'), ('polymorphic factories', 'ConstrainedMapUtilities::deserialize*, Ball2DUtilities/RigidBody2DUtilities/RigidBody3DUtilities::deserializeUnconstrainedMap')],
      ['Sim::serialize/deserialize', 'Sim::flow'],
      'lock-step differential monitor of original and restored run under random scenes and configurations',
      'Exploration: bit comparison of q, v, energies and re-serialised bytes after every step. Trusts the shims for rapidxml, So-bogus and QL (see DESIGN.md).'),
    P('C02', 'The command-line simulators write the requested snapshots and resume exactly',
      'For every scene, rational time step, output rate and end time, the command-line simulators either reject the request or write one numbered snapshot for the initial state and for every output interval up to the end time, each holding the state at exactly that simulated time, and stop at the end time. Resuming from any snapshot reproduces the later snapshots of the uninterrupted run byte for byte, and the snapshot files are independent of where the run is started from and of the other outputs requested.',
      ['configurations', 'crash_points', 'inputs'], 'all scenes, time steps, output frequencies, end times, and every snapshot a run can be resumed from',
      NOTEST + 'The off-by-one cases depend on the ratio of time step, output rate and end time, and on which snapshot is resumed.',
      ['ball2dcli/ball2d_cli.cpp', 'rigidbody2dcli/rigidbody2d_cli.cpp', 'rigidbody3dcli/rigidbody3d_cli.cpp', 'scisim/Math/Rational.h'],
      [('main loop, output scheduling, serialization', 'stepSystem, serializeSystem, deserializeSystem, executeSimLoop in each *_cli.cpp')],
      ['the files a command-line run leaves behind'],
      'external monitor of command-line runs: snapshot files checked against an in-process reference run and against resumed runs',
      'Exploration over random scenes and output schedules, with resume from snapshots of each run.'),
    P('C03', 'Simulations are deterministic',
      'Running the same scene with the same settings twice produces bit-identical trajectories, whether in the same process, after other simulations have run in it, interleaved with them, in another process, or with different contents of uninitialised memory. Querying a simulation (energies, momenta, bounding boxes, collision statistics, active contacts, snapshots) between steps does not change its trajectory.',
      ['inputs', 'histories', 'configurations'], 'all scenes and settings, all histories of other simulations in the process, all memory contents',
      NOTEST + 'Hidden state, uninitialised reads and pointer-order dependence only show between runs with different histories.',
      ['ball2d/Ball2DSim.cpp', 'rigidbody2d/RigidBody2DSim.cpp', 'rigidbody3d/RigidBody3DSim.cpp', 'scisim/ConstrainedMaps'],
      [('per-object state only; value-ordered containers', 'Ball2DSim, RigidBody2DSim, RigidBody3DSim, ImpactMap, GeometricImpactFrictionMap')],
      ['Sim::flow trajectories'],
      'differential monitor: fresh, history-laden, interleaved and memory-perturbed executions compared bit for bit',
      'Exploration.'),
    P('C04', 'No memory error, undefined behaviour or failed internal check',
      'Running any supported simulation, including degenerate and extreme ones (no bodies, one body, resting, very fast, very small or large, heavily overlapping but not coincident), parsing any scene text, and using the string, number and serialization utilities never reads or writes outside an object, uses freed or uninitialised storage, invokes undefined behaviour, or fails an internal consistency check (other than one that compares a rounding error with a fixed tolerance). Loading a truncated scene file or a mistyped option fails cleanly instead.',
      ['inputs', 'configurations', 'histories'], 'all supported scenes, settings and texts',
      NOTEST + 'The suite runs without sanitizers and release builds compile the internal checks out.',
      ['ball2d', 'rigidbody2d', 'rigidbody3d', 'scisim', 'ball2dutils', 'rigidbody2dutils', 'rigidbody3dutils'],
      [('assertions, bounds', 'assert() throughout; SpatialGridDetector, RigidBodyTriangleMesh::detectCollision, StringUtilities')],
      ['process status, sanitizer reports, assertion failures'],
      'AddressSanitizer + UndefinedBehaviorSanitizer + libstdc++ and internal assertions over the stress workloads',
      'Exploration: whole library compiled with sanitizers and assertions on.'),
    P('C05', 'A valid scene file yields exactly the simulation it describes',
      'For every valid scene file of each simulator, the loaded simulation has exactly the bodies, geometry, masses and inertias, positions, orientations, velocities, fixed flags, static geometry, portals, forces, integrator and time step, end time, and impact and friction settings that the file states, in file order, with documented defaults where an optional item is absent. Integrators, impact operators, friction solvers and maps named in the file are the ones used, with the tolerances and options given.',
      ['inputs', 'configurations'], 'all valid scene files: any number and order of elements, any numeric values, every optional element present or absent',
      NOTEST + 'A swapped coordinate or ignored attribute is invisible unless that attribute has a distinctive value.',
      ['ball2dutils/Ball2DSceneParser.cpp', 'rigidbody2dutils/RigidBody2DSceneParser.cpp', 'rigidbody3dutils/RigidBody3DSceneParser.cpp', 'scisim/StringUtilities.h', 'scisim/Math/Rational.h'],
      [('XML scene parsers', 'Ball2DSceneParser/RigidBody2DSceneParser/RigidBody3DSceneParser::parseXMLSceneFile')],
      ['parseXMLSceneFile outputs'],
      'generated scene files; monitor compares the loaded simulation field by field with the generator\'s model',
      'Exploration. The XML reader itself is a stand-in for rapidxml.'),
    P('C06', 'Malformed scene files are rejected, never accepted or crashing',
      'A scene file that is not well-formed, lacks a required element or attribute, or gives an attribute a value that is not of the required form (wrong count or type of numbers, non-positive radius, mass, density or time step, unknown geometry, solver or integrator name, out-of-range index) is reported as an error. Loading never crashes, hangs, or returns a simulation with invented or partially filled values for such a file.',
      ['inputs'], 'every single-fault corruption of every valid scene file',
      NOTEST + 'There is one guard per attribute, and each guard only matters for files that break exactly it.',
      ['ball2dutils/Ball2DSceneParser.cpp', 'rigidbody2dutils/RigidBody2DSceneParser.cpp', 'rigidbody3dutils/RigidBody3DSceneParser.cpp'],
      [('validation in the scene parsers', 'load* functions of each SceneParser')],
      ['return value of parseXMLSceneFile; process status of the command-line simulators'],
      'fault injection into generated scene files with an accept/reject oracle',
      'Exploration over an enumerated catalogue of single faults per generated file.'),
    P('C07', 'Exactly the touching or overlapping pairs become contacts',
      'Every pair of simulated bodies, and every body and static plane, drum or cylinder, that touches or overlaps (for balls and discs without portals: at any time during the step\'s straight motion; otherwise at the end of the step; through portals: also with the image on the other side) yields a contact, unless both bodies are fixed. No contact is produced for a pair that does not touch, no pair is reported twice, and the broad phase never loses a pair, for any number, size ratio, position or speed of bodies; the reported collision statistics count exactly these contacts.',
      ['inputs', 'configurations'], 'all configurations of bodies and static geometry, at all scales and offsets',
      NOTEST + 'The broad phase only loses pairs for particular size ratios, cell alignments or portal crossings.',
      ['ball2d/Ball2DSim.cpp', 'ball2d/SpatialGridDetector.cpp', 'rigidbody2d/RigidBody2DSim.cpp', 'rigidbody2d/SpatialGrid.cpp', 'rigidbody3d/RigidBody3DSim.cpp', 'rigidbody3d/SpatialGridDetector.cpp', 'scisim/CollisionDetection/CollisionDetectionUtilities.cpp', 'rigidbody2d/BoxBoxTools.cpp', 'rigidbody2d/CircleBoxTools.cpp', 'rigidbody3d/Constraints/BoxBoxUtilities.cpp', 'rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp'],
      [('broad phase grid and narrow phase dispatch', 'computeActiveSet of each simulator; SpatialGridDetector::getPotentialOverlaps; CollisionDetectionUtilities::ballBallCCDCollisionHappens')],
      ['ConstrainedSystem::computeActiveSet', 'computeNumberOfCollisions'],
      'brute-force shadow oracle compared with the detected contact set on every configuration',
      'Exploration; pairs within rounding distance of the touching threshold are not judged.'),
    P('C08', 'Every contact has the right normal, point and depth',
      'Every contact\'s normal is a unit vector pointing from the second participant to the first: along the line of centres of round bodies (at the start of the step), the plane normal, inward from a drum or cylinder wall, from the closest point of a box to a circle centred outside it, along the face or edge axis of least overlap of two boxes (within 5% in three dimensions), or along the gradient of a mesh\'s distance field. Its point lies where the two surfaces meet, between them or in their overlap. Reported penetration depths (never positive), overlap volumes and gap values are those of the actual geometry, wherever a contact type reports them.',
      ['inputs', 'configurations'], 'all contact types, orientations, sizes and penetrations',
      NOTEST + 'Wrong normals in one face region or one sign of an angle need specific poses.',
      ['ball2d/Constraints', 'rigidbody2d/BoxBoxTools.cpp', 'rigidbody2d/CircleBoxTools.cpp', 'rigidbody2d/BodyBodyConstraint.cpp', 'rigidbody3d/Constraints', 'scisim/CollisionDetection'],
      [('contact geometry', 'getWorldSpaceContactPoint/Normal, penetrationDepth, overlapVolume, evaluateGapFunction of each constraint')],
      ['contacts produced by computeActiveSet'],
      'geometric oracle evaluated on every contact of every generated configuration',
      'Exploration.'),
    P('C09', 'Contacts conserve linear and angular momentum',
      'Impacts and friction between simulated bodies never change the total linear momentum, and never change the total angular momentum unless a portal, fixed body or static geometry is involved in the contact (for 2D balls, which have no spin, this is about frictionless impacts); contacts with static or fixed objects change the momentum only of the bodies that touch them. The total momenta the simulators report are those of the bodies\' masses, inertias, positions and velocities.',
      ['inputs', 'histories', 'configurations'], 'all scenes without external forces, all operators, solvers, coefficients of restitution and friction, over whole trajectories',
      NOTEST + 'A sign or lever-arm error in one contact type only shows in scenes where that contact type carries an oblique impulse.',
      ['scisim/ConstrainedMaps', 'ball2d/Constraints', 'rigidbody2d', 'rigidbody3d/Constraints', 'ball2d/Ball2DState.cpp'],
      [('equal and opposite generalized impulses', 'evalgradg, computeGeneralizedFriction*, evalH of each constraint; ImpactMap::flow; GeometricImpactFrictionMap::flow')],
      ['state before and after each step'],
      'conservation monitor on every simulation step', 'Exploration; relative tolerance 1e-9 of the momentum scale.'),
    P('C10', 'Impacts obey non-penetration, restitution and complementarity',
      'Contact impulses never pull. After every converged response no contact is left approaching faster than the restitution law allows: for the LCP operators and the friction solvers the outgoing normal velocity plus the coefficient of restitution times the incoming one (both relative to a moving wall) is never negative, and an impulse acts only where it is zero; Gauss-Seidel and the generalized reflection operators leave no contact approaching. In particular every collision in isolation rebounds with exactly the coefficient of restitution times the approach speed relative to the wall or body hit, and separating contacts and bodies without contacts are left alone. Where no velocity satisfies the law (a body crushed between approaching walls) nothing is promised',
      ['inputs', 'configurations'], 'all contact graphs, masses, velocities, coefficients of restitution and impact operators',
      NOTEST + 'Whether the solver satisfies the law depends on the contact graph and the velocities.',
      ['scisim/ConstrainedMaps/ImpactMaps', 'scisim/ConstrainedMaps/GeometricImpactFrictionMap.cpp', 'ball2d/Constraints', 'rigidbody3d/Constraints'],
      [('impact operators', 'GaussSeidelOperator, JacobiOperator, GROperator, GRROperator, LCPOperatorQL, LCPOperatorAPGD ::flow')],
      ['inputs and outputs of each impact solve'],
      'monitoring proxy around each impact operator: law checked on the inputs and outputs of every solve', 'Exploration.'),
    P('C11', 'Impacts and friction never create energy',
      'Resolving contacts against resting static geometry with one coefficient of restitution never increases the kinetic energy: frictionless impacts for every coefficient, friction for coefficient zero, and for every coefficient an isolated contact of round bodies and the grr_friction solver. Frictionless impacts with restitution one preserve it, and a single frictionless impact dissipates exactly (1 - e squared) of the relative normal kinetic energy. The kinetic energy the simulators report is that of the bodies\' masses, inertias and velocities',
      ['inputs', 'histories', 'configurations'], 'all scenes with non-moving static and fixed objects, all operators and coefficients in [0,1], over whole trajectories',
      NOTEST + 'Energy gain typically needs several simultaneous contacts.',
      ['scisim/ConstrainedMaps', 'ball2d/Ball2DState.cpp', 'rigidbody2d/RigidBody2DSim.cpp', 'rigidbody3d/RigidBody3DSim.cpp'],
      [('impact and friction laws', 'ImpactMap::flow, GeometricImpactFrictionMap::flow, Sobogus::solve, StaggeredProjections::solve')],
      ['kinetic energy before and after each contact resolution'],
      'energy monitor on every contact resolution and every step', 'Exploration; relative tolerance set from solver tolerances.'),
    P('C12', 'Friction obeys Coulomb\'s law',
      'In every solve a friction solver reports as converged, each friction impulse lies in the tangent plane of its contact, its magnitude never exceeds the friction coefficient times the normal impulse, and it opposes sliding: a contact that slides after the step has friction at the limit against the sliding direction (up to the resolution of the sampled disk for the linearised solver), and a contact with less than limiting friction sticks. With zero friction coefficient no tangential impulse acts. The impulses reported are the ones the velocities were changed by',
      ['inputs', 'configurations'], 'all contact graphs, velocities, friction coefficients and solvers',
      NOTEST + 'The law couples all contacts; each scene exercises one combination of sticking and sliding.',
      ['scisim/ConstrainedMaps/Sobogus.cpp', 'scisim/ConstrainedMaps/StaggeredProjections.cpp', 'scisim/ConstrainedMaps/GRRFriction.cpp', 'scisim/ConstrainedMaps/GeometricImpactFrictionMap.cpp', 'scisim/ConstrainedMaps/FrictionMaps'],
      [('friction solvers', 'Sobogus::solve, StaggeredProjections::solve, GRRFriction::solve')],
      ['inputs and outputs of each friction solve'],
      'monitoring proxy around each friction solver: Coulomb law checked on the inputs and outputs of every solve', 'Exploration.'),
    P('C13', 'All views of a contact agree with its relative velocity',
      'For every contact, the relative velocity at the contact point it reports, its normal velocity, its normal and friction Jacobians (sparse and dense forms), its orthonormal contact frame and the velocity contributed by moving static or scripted objects describe one and the same map: each Jacobian row applied to the bodies\' velocities, plus the scripted part, equals that component of the true relative velocity of the two surfaces.',
      ['inputs', 'configurations'], 'all contact types, poses and velocities, including moving planes, cylinders and scripted bodies',
      NOTEST + 'Each contact type has six independent implementations of the same map.',
      ['ball2d/Constraints', 'rigidbody2d', 'rigidbody3d/Constraints', 'scisim/Constraints/Constraint.cpp', 'scisim/ConstrainedMaps/Sobogus.cpp'],
      [('per-contact kinematics', 'evalNdotV, evalgradg, computeGeneralizedFrictionDisk, computeGeneralizedFrictionGivenTangentSample, evalH, computeBasis, evalKinematicNormalRelVel, computeRelativeVelocity of each constraint')],
      ['contacts produced by computeActiveSet'],
      'cross-consistency monitor against rigid-body kinematics on every generated contact', 'Exploration.'),
    P('C14', 'Integrators follow the equations of motion',
      'Without contacts, every step moves the bodies by the discrete map of the integrator\'s name under the forces acting: symplectic_euler v1 = v0 + h a(q0), q1 = q0 + h v1; verlet (and the translation of split_ham and dmv) velocity Verlet; exponential_euler q1 = q0 + h v0, v1 = v0 + h a(q0). Hence linear momentum is conserved and trajectories under uniform gravity match their closed form after any number of steps; planar bodies turn at a constant rate. In three dimensions orientations stay rotations over any run, split_ham and dmv conserve the angular momentum of free rotation, keep its energy within a bound of second order in h times the spin without drift, are time-reversible (flipping all velocities retraces the motion), and converge to the solution of Euler\'s equations at second order, and exponential_euler turns bodies at constant angular velocity. Fixed bodies are not accelerated.',
      ['inputs', 'histories', 'configurations'], 'all inertias, initial states, step sizes and horizons',
      NOTEST + 'Convergence order and long-run conservation are properties of families of runs.',
      ['ball2d/SymplecticEulerMap.cpp', 'ball2d/VerletMap.cpp', 'rigidbody2d/SymplecticEulerMap.cpp', 'rigidbody2d/VerletMap.cpp', 'rigidbody3d/UnconstrainedMaps'],
      [('unconstrained maps', 'SymplecticEulerMap, VerletMap, ExponentialEulerMap, SplitHamMap, DMVMap ::flow')],
      ['UnconstrainedMap::flow'],
      'trajectory monitors (conservation, orthonormality, convergence order against a reference solution)', 'Exploration.'),
    P('C15', 'Fixed and scripted bodies are immovable by contacts and forces',
      'In the two rigid-body simulators a fixed body keeps its prescribed velocity, and its prescribed motion, exactly, whatever forces act and whatever hits it; in three dimensions (where its velocity is zero) it does not move at all. Other bodies respond to it as to an infinitely heavy object moving with that velocity, so the fixed body\'s own mass plays no part, and two fixed bodies, or a fixed body and a static plane, never interact.',
      ['inputs', 'histories', 'configurations'], 'all scenes with fixed bodies, all maps, operators and solvers',
      NOTEST + 'Each map handles fixed bodies separately.',
      ['rigidbody2d/RigidBody2DSim.cpp', 'rigidbody2d/KinematicObjectCircleConstraint.cpp', 'rigidbody3d/RigidBody3DSim.cpp', 'rigidbody3d/Constraints/KinematicObjectSphereConstraint.cpp', 'rigidbody3d/Constraints/KinematicObjectBodyConstraint.cpp', 'rigidbody2d/SymplecticEulerMap.cpp', 'rigidbody2d/VerletMap.cpp', 'rigidbody3d/UnconstrainedMaps/IntegrationTools.cpp'],
      [('kinematic contacts, integrators skipping fixed bodies', 'isKinematicallyScripted, Kinematic*Constraint')],
      ['state before and after each step'],
      'state monitor on every step plus differential run against an equivalent moving wall', 'Exploration.'),
    P('C16', 'Periodic boundaries are seamless',
      'With planar portals, every body\'s centre is back inside the periodic domain after each step, teleporting is a distance-preserving bijection whose two directions are mutual inverses, a crossing changes the velocity only by the relative velocity of a sheared (Lees-Edwards) boundary, and the dynamics do not depend on where in the periodic domain the scene is placed. Sheared boundaries move with the prescribed velocity.',
      ['inputs', 'histories', 'configurations'], 'all portal layouts, crossings, shear velocities and translations',
      NOTEST + 'Crossing near corners, in the same step as a collision, or with wrapped shear offset needs specific histories.',
      ['ball2d/Portals/PlanarPortal.cpp', 'ball2d/Ball2DSim.cpp', 'rigidbody2d/PlanarPortal.cpp', 'rigidbody2d/RigidBody2DSim.cpp', 'rigidbody3d/Portals/PlanarPortal.cpp', 'rigidbody3d/RigidBody3DSim.cpp'],
      [('portals', 'PlanarPortal::teleport*, enforcePeriodicBoundaryConditions, updatePeriodicBoundaryConditionsStartOfStep')],
      ['state after each step', 'PlanarPortal API'],
      'metamorphic (translated scene) and invariant monitors on portal scenes', 'Exploration.'),
    P('C17', 'Warm starting does not change the physics',
      'Enabling or disabling warm starting leaves the post-step velocities unchanged up to solver tolerance wherever the solution is unique, and the impulse recalled for a contact is the one stored for that same pair of objects in the last step, or zero if it had none.',
      ['inputs', 'histories', 'configurations'], 'all scenes, all maps and solvers with warm starting, over whole trajectories',
      NOTEST + 'A wrong cache hit only matters when contacts appear, vanish or renumber.',
      ['ball2d/ConstraintCache.cpp', 'rigidbody2d/ConstraintCache.cpp', 'rigidbody3d/ConstraintCache.cpp', 'scisim/ConstrainedMaps/ImpactMaps/ImpactMap.cpp', 'scisim/ConstrainedMaps/GeometricImpactFrictionMap.cpp', 'scisim/ConstrainedMaps/StabilizedImpactFrictionMap.cpp', 'scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.cpp'],
      [('constraint cache', 'cacheConstraint, getCachedConstraintImpulse, clearConstraintCache')],
      ['ConstrainedSystem cache interface; trajectories'],
      'shadow-map monitor of the cache plus warm/cold differential runs', 'Exploration.'),
    P('C18', 'Mass, inertia and bounds match the geometry',
      'The mass, centre of mass and inertia computed for every shape are those of the solid at the given density, for primitives and closed meshes in any pose; mass and inverse mass matrices are mutually inverse, positive and consistent with the current orientation. Every bounding box of a body contains the body and is no larger than needed, and the scene\'s bounds are those of all its bodies; a run told to exit when a body leaves the simulation boundary stops at exactly such a step and no other.',
      ['inputs', 'histories'], 'all shapes, sizes, densities, poses and meshes',
      NOTEST + 'Errors are in single coefficients visible only for asymmetric shapes or rotated poses.',
      ['rigidbody2d/CircleGeometry.cpp', 'rigidbody2d/BoxGeometry.cpp', 'rigidbody3d/Geometry', 'rigidbody3d/RigidBody3DState.cpp', 'rigidbody2d/RigidBody2DState.cpp', 'ball2d/Ball2DState.cpp', 'ball2d/Ball2DSim.cpp'],
      [('mass properties', 'computeMassAndInertia, MomentTools, computeAABB, updateMandMinv')],
      ['geometry and state API'],
      'analytic and numerical-quadrature oracle over generated shapes and poses', 'Exploration.'),
    P('C19', 'Forces are the gradient of the reported potential energy',
      'For every force, the generalized force it applies equals minus the gradient of the potential energy it reports at every configuration, forces between bodies are equal and opposite, gravity is mass proportional, and the total potential energy and force of a simulation are the sums over its forces. Reported kinetic energy, momentum and angular momentum equal the sums over the bodies.',
      ['inputs', 'configurations'], 'all configurations, force parameters and combinations of forces',
      NOTEST + 'The relation must hold at every overlap depth, exponent and pose.',
      ['ball2d/Forces', 'rigidbody2d/NearEarthGravityForce.cpp', 'rigidbody3d/Forces', 'ball2d/Ball2DState.cpp', 'rigidbody2d/RigidBody2DSim.cpp', 'rigidbody3d/RigidBody3DSim.cpp'],
      [('forces', 'computeForce, computePotential of each force')],
      ['FlowableSystem::computeForce, computePotentialEnergy'],
      'finite-difference and summation oracle on random configurations', 'Exploration.'),
    P('C20', 'Editing a simulation keeps everything else intact',
      'Adding or removing bodies, planes, cylinders, geometry instances, portals or forces, and replacing the state, affects only the items named: every other body keeps its position, velocity, mass, geometry and fixed flag, indices stay consistent, moving or turning a wall changes only what was set (with unit normals and axes), and copying or assigning a simulation yields an independent, identical one.',
      ['inputs', 'histories'], 'all sequences of edits and copies interleaved with steps',
      NOTEST + 'Index shifts only go wrong for particular removal sets and orders.',
      ['ball2d/Ball2DState.cpp', 'rigidbody2d/RigidBody2DState.cpp', 'rigidbody3d/RigidBody3DState.cpp'],
      [('state editing', 'pushBallBack, removeBallsIndexedBy..., addBody, removeBodiesIntersectingPlanes, removeGeometry, setState, copy constructors and assignment')],
      ['state API'],
      'model-based monitor: random edit histories mirrored in a plain list model', 'Exploration.'),
    P('C21', 'Rational times are exact',
      'Rational numbers used for time steps and output rates are always reduced, compare and combine exactly, and parse integers, fractions and decimals to precisely the value written, rejecting everything else; a time computed as step count times time step is exact.',
      ['inputs'], 'all representable numerators and denominators and all strings',
      NOTEST + 'The tests sample a handful of values.',
      ['scisim/Math/Rational.h', 'scisim/Math/Rational.cpp'],
      [('Rational arithmetic and parsing', 'Rational<T>, RationalTools::extractFromString')],
      ['Rational API'],
      'exact big-integer oracle over random values and generated strings', 'Exploration.'),
    P('C22', 'Text and binary utilities round-trip',
      'Splitting, trimming, number extraction, conversion and formatting of strings return exactly what was written for every input and report failure for every malformed one, and every value, vector, matrix, sparse matrix and string written to a binary stream is read back bit for bit, leaving the stream just behind it. Zero-padded output names have the requested width and preserve numeric order.',
      ['inputs'], 'all strings, vectors, matrices and sparsity patterns',
      NOTEST + 'Empty, boundary-size and adversarial inputs are unbounded in number.',
      ['scisim/StringUtilities.cpp', 'scisim/StringUtilities.h', 'scisim/Utilities.h', 'scisim/Math/MathUtilities.h', 'scisim/Math/MathUtilities.cpp'],
      [('utilities', 'StringUtilities, Utilities::serialize, MathUtilities')],
      ['utility APIs'],
      'round-trip and reference-implementation oracle over generated inputs, also under sanitizers', 'Exploration.'),
    P('C23', 'A contact step is the scheme of its contact map',
      'Under every contact map the contact response is given exactly the contacts of the map\'s own predicted step, impulses are added to the velocities that map names (the velocities at the start of the step for the impact and geometric maps, those after the free step for the stabilized and symplectic Euler maps) and positions then move from the start of the step over exactly one time step at the velocities the map names, with orientations turning rigidly at the angular velocity. Under symplectic Euler with stabilisation, an overlap at least as deep as the penetration threshold is undone within the step and never over-corrected; without stabilisation, or below the threshold, no extra push acts.',
      ['inputs', 'histories', 'configurations'], 'all scenes, integrators, contact maps, solvers, thresholds and histories',
      NOTEST + 'Whether an impulse is added at the right place of the scheme only shows in steps with contacts, and differently for each map.',
      ['scisim/ConstrainedMaps/ImpactMaps/ImpactMap.cpp', 'scisim/ConstrainedMaps/GeometricImpactFrictionMap.cpp', 'scisim/ConstrainedMaps/StabilizedImpactFrictionMap.cpp', 'scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.cpp', 'ball2d/Ball2DSim.cpp', 'rigidbody2d/RigidBody2DSim.cpp', 'rigidbody3d/RigidBody3DSim.cpp', 'scisim/Math/MathUtilities.cpp'],
      [('contact maps', 'flow of each map, linearInertialConfigurationUpdate, computeActiveSet')],
      ['proxies around the impact operator and friction solver; state before and after each step'],
      'step-by-step re-computation of each map\'s scheme from the recorded solve, and a law monitor on remaining overlap', 'Exploration.'),
]
