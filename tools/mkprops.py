import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech]}}
    if state: d["anchors"]["state"]=[{"name":state,"meaning":"observable state the property speaks about","where":files[0]}]
    if observe: d["anchors"]["observe_at"]=[observe]
    d["anchors"]["hook_needed"]=hook
    P.append(d)
def resume(id,name,d,cls):
    p(id,"Resuming a %s run from any snapshot is bit-identical"%name,
      "A %s run that is killed at any moment and resumed from any snapshot it has completed goes on to produce exactly the files the uninterrupted run would have produced: every later snapshot, configuration file and contact force file is byte-for-byte the same, for every supported scene, integrator, contact solver, scripted callback and output option. A resumed process also writes the snapshot it was resumed from back unchanged, and ends successfully whenever the uninterrupted run does."%name,
      ["crash_points","histories","configurations","inputs"],
      "every supported scene and option set, every kill point (including several kills and resumes in one history) and every snapshot on disk at that point",
      "The unit tests never run a simulation; a field missed or reordered in one of the many serialisation pairs only shows for the scene features that use it, and only after a kill at a point where that field is non-default.",
      [d+"cli",d,"scisim/ConstrainedMaps","scisim/Utilities.h","scisim/StringUtilities.cpp","scisim/Math"],
      [("snapshot writer and loader",d+"cli/"+d+"_cli.cpp: serializeSystem, deserializeSystem"),
       ("state serialisation",d+"/"+cls+"State.cpp, "+d+"/"+cls+"Sim.cpp: serialize/deserialize"),
       ("solver and map serialisation","scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp and the (de)serialising constructors it dispatches to"),
       ("warm start cache",d+"/ConstraintCache.cpp")],
      "simulation state, solver parameters, warm start caches, script module, output options and frame counters",
      "files in the output directory and the working directory, exit status")
resume("C01","2D ball","ball2d","Ball2D")
resume("C02","2D rigid body","rigidbody2d","RigidBody2D")
resume("C03","3D rigid body","rigidbody3d","RigidBody3D")
CLI=["ball2dcli/ball2d_cli.cpp","rigidbody2dcli/rigidbody2d_cli.cpp","rigidbody3dcli/rigidbody3d_cli.cpp"]
p("C04","A kill never leaves the user without a resumable snapshot",
  "Once a run has completed its first snapshot, killing it at any later point, in the middle of any write or between any two operations, or a failing or incomplete write of a later snapshot, leaves on disk a complete snapshot from which a new process resumes and finishes. In overwriting mode that is the single snapshot file, which always holds either the previous or the new snapshot in full; in one-file-per-frame mode every snapshot completed earlier is still intact, including the one a resumed run started from.",
  ["crash_points","histories","configurations"],"every kill point inside and between disk operations, including during a resumed run, for all three simulators and both snapshot modes",
  "No unit test writes a snapshot, let alone dies half way through writing one.",
  CLI,[("snapshot writer","serializeSystem in each command line front end"),("snapshot mode option","-s 0|1")],
  "the snapshot file(s)","contents of snapshot files after the kill, exit status of the resumed run")
p("C05","A run never reports success with missing or damaged output",
  "If a write, file creation, rename or close needed for an output file fails (full disk, I/O error, denied or failing library call, failed allocation), the run does not exit successfully; it stops with a failure status before it produces any later frame. A run that does exit successfully has written every file that is due, each complete and identical to that of a fault-free run, and interrupted or partial system calls alone never change the output or the status.",
  ["fault_sequences","configurations"],"every disk and output-library operation of every supported run, for single faults, persistent faults and partial writes",
  "Unit tests run no I/O and cannot make a disk fill up at the n-th operation.",
  CLI+["scisim/HDF5File.h","scisim/HDF5File.cpp","scisim/ConstrainedMaps/ImpactFrictionMap.cpp","scisim/ConstrainedMaps/ImpactMaps/ImpactSolution.cpp"],
  [("configuration output","saveState"),("snapshot output","serializeSystem"),("force output","stepSystem and the friction maps' export"),("HDF5 wrapper","scisim/HDF5File")],
  "files being written","exit status, set and contents of output files")
p("C06","A damaged or foreign snapshot is refused",
  "Resuming from a file that is not a complete snapshot of the same simulator (missing, empty, cut off at any byte, unreadable part way, or written by one of the other simulators) ends with a failure status: no simulation step is run and no output file or snapshot is created, changed or removed. A complete snapshot is accepted however the system chops the reads.",
  ["fault_sequences","inputs"],"every truncation length of every snapshot, every failing or short read while loading it, every other simulator's snapshots",
  "It takes one run per byte of a real snapshot; unit tests have no snapshots.",
  CLI+["scisim/Utilities.h","scisim/StringUtilities.cpp","scisim/Math/MathUtilities.h"],
  [("snapshot loader","deserializeSystem"),("magic number","MAGIC_BINARY_NUMBER in each front end"),("primitive readers","scisim/Utilities.h, scisim/StringUtilities.cpp")],
  "snapshot file","exit status, callbacks run, files on disk")
p("C07","Output appears exactly on schedule and runs always finish",
  "A run writes a frame at time zero and then after every save interval until the end time, and nothing else: configuration and snapshot number k record iteration k times the interval with consecutive zero-padded numbers of one fixed width, force file k (when requested) describes the step that starts at that iteration, and the recorded iteration, time and timestep agree with the scene. This holds for every timestep, end time, output rate and option combination, and for any history of kills and resumes; once kills stop, the run ends successfully within the number of steps the schedule allows.",
  ["configurations","histories","crash_points"],"all timestep / end time / frequency / option combinations accepted by the front ends, with any sequence of kills and resumes",
  "The schedule lives in the front ends' main loops, which no test executes; off-by-one errors depend on the divisibility of end time, timestep and rate and on the frame a resume starts from.",
  CLI+["scisim/Math/Rational.h","scisim/Math/MathUtilities.cpp"],
  [("main loop","executeSimLoop"),("frame gate","exportConfigurationData, stepSystem"),("rate and width","main: steps per save, save number width")],
  "iteration and frame counters","names, numbers and recorded iteration/time of output files, exit status")
p("C08","Results do not depend on clock, memory contents or scheduling",
  "For a given scene, options and script, the files a run writes are byte-for-byte the same whatever the wall clock does (any start time, jumps forwards or backwards, frozen), whatever uninitialised heap and stack memory contains and wherever allocations land, however many worker threads there are and in whatever order they are interleaved, and whatever older files lie in the output directory.",
  ["schedules","configurations","inputs"],"every interleaving of the parallel regions at memory-access granularity, every thread count, every clock behaviour, every initial memory content",
  "A test run sees one schedule, one clock and mostly zeroed memory.",
  ["scisim/ConstrainedMaps/bogus","scisim/Timer","ball2d","rigidbody2d","rigidbody3d","scisim/ConstrainedMaps","scisim/CollisionDetection","scisim/UnconstrainedMaps"],
  [("parallel assembly","#pragma omp in scisim/ConstrainedMaps/bogus"),("time stamps","scisim/Timer/TimeUtils.cpp"),("state containers","simulation state and collision detection containers")],
  "environment seen by the process","bytes of all output files")
p("C09","Script callbacks run once each, in order, and failures stop the run",
  "The user's script sees one start-of-simulation call in a fresh run and none in a resumed one, then for every step exactly one start-of-step and one end-of-step call in order with consecutive iteration numbers and the scene's timestep, contact-coefficient calls only in between, and one end-of-simulation call when the run completes. The positions and velocities a script sees are those recorded in the configuration file of that iteration, and contact coefficients are requested once for exactly the contacts of the step. If any callback fails, the run ends at once with a failure status, running no further callback and writing no further output.",
  ["histories","fault_sequences","configurations"],"every scripted scene, every subset of callbacks defined, a failure at every callback invocation, every kill/resume history",
  "No unit test embeds a script.",
  ["ball2d/PythonScripting.cpp","rigidbody2d/PythonScripting.cpp","rigidbody3d/PythonScripting.cpp","scisim/ScriptingCallback.cpp","scisim/PythonTools.cpp","ball2d/Ball2DSim.cpp","rigidbody2d/RigidBody2DSim.cpp","rigidbody3d/RigidBody3DSim.cpp"]+CLI,
  [("callback dispatch","scisim/ScriptingCallback.cpp, */PythonScripting.cpp"),("step protocol","*Sim::flow")],
  "callback history","sequence of callbacks with their arguments, configuration files, exit status")
p("C10","Script edits take effect exactly, persist, and bad ones are refused",
  "An edit made by a script (adding or deleting bodies or geometry, moving, turning or deleting planes, turning cylinders, setting velocities of walls, setting gravity, setting contact coefficients) changes exactly what it names, is visible in the next recorded configuration and in what scripts see afterwards, and survives kill and resume. An edit that names an object that does not exist, or is otherwise invalid, ends the run with a failure status and writes no further output.",
  ["histories","inputs"],"every sequence of edits at any iterations, every index in and out of range, with kills and resumes between edits",
  "No unit test executes the script interface; index errors by one need an index equal to the object count.",
  ["ball2d/PythonScripting.cpp","rigidbody2d/PythonScripting.cpp","rigidbody3d/PythonScripting.cpp","ball2d/Ball2DState.cpp","rigidbody2d/RigidBody2DState.cpp","rigidbody3d/RigidBody3DState.cpp"],
  [("script functions","*/PythonScripting.cpp"),("body insertion and removal","Ball2DState::pushBallBack, RigidBody2DState::addBody/removeBodies/removeGeometry")],
  "bodies, geometry, planes, forces","configuration files and script-visible state, exit status")
p("C11","Bodies, mass and momentum are accounted for in every recorded step",
  "The first recorded frame shows the bodies, masses, shapes, walls and periodic boundaries of the scene as written. Between two recorded frames no body appears, disappears or changes its mass, size, shape or fixed flag unless a script did it, and fixed bodies never move unless scripted. Whenever contact forces are recorded, the change of each free body's linear momentum (and, for 2D rigid bodies and 3D spheres, angular momentum) over the step is exactly what gravity and the recorded contact forces on that body add up to, opposite bodies of a contact receive opposite forces, recorded normal forces only push, and recorded friction stays within its Coulomb bound; isolated systems keep their total momentum.",
  ["histories","inputs","configurations"],"every supported scene with gravity and contacts, every contact solver available, every step of every history including resumed ones",
  "It quantifies over all steps of all simulations; no unit test runs a simulation.",
  ["ball2d/Ball2DSim.cpp","rigidbody2d/RigidBody2DSim.cpp","rigidbody3d/RigidBody3DSim.cpp","scisim/ConstrainedMaps","scisim/UnconstrainedMaps","rigidbody3d/UnconstrainedMaps","ball2d/Constraints","rigidbody2d","rigidbody3d/Constraints"],
  [("contact response","scisim/ConstrainedMaps/ImpactMaps, scisim/ConstrainedMaps/*Friction*"),("force export","ImpactSolution::writeSolution, ImpactFrictionMap::exportConstraintForcesToFile"),("kinematic bodies","isKinematicallyScripted in each simulator")],
  "bodies and recorded contact forces","configuration and force files")
p("C12","An unreadable or broken scene never starts a simulation",
  "If the scene file, a mesh it refers to or its script cannot be opened or read to the end, or the scene is cut off, malformed, lacks a required value, has an unreadable value or one outside its documented range (timestep, densities, radii, tolerances, coefficients, names of solvers and integrators, ...), or names an object that does not exist, the run ends with a failure status before any step, callback of a step, or output file; so it does for command line options that are unknown, lack a value, have an unreadable or impossible one, or do not go together, while asking for help only prints it and succeeds. Interrupted or partial reads of an intact scene, the spelling of options and their order change nothing.",
  ["fault_sequences","inputs"],"every read and open operation of scene, mesh and script loading, every truncation length of a scene or mesh file, every value of every scene element and command line option",
  "Unit tests parse no scene and cannot fail the n-th read.",
  ["ball2dutils/Ball2DSceneParser.cpp","rigidbody2dutils/RigidBody2DSceneParser.cpp","rigidbody3dutils/RigidBody3DSceneParser.cpp","rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp","scisim/HDF5File.h","scisim/PythonTools.cpp"],
  [("scene parsers","*SceneParser.cpp: loadXMLFile, parseXMLSceneFile"),("mesh loading","RigidBodyTriangleMesh constructor"),("module loading","PythonTools::loadModule")],
  "scene files","exit status, output files, callbacks")
p("C13","Periodic boundaries keep bodies inside and move them without a trace",
  "In a scene bounded by periodic boundaries every free body's centre is inside the periodic domain in every recorded frame, and crossing a boundary changes nothing but the position (and, for shearing boundaries, the velocity by the shear): the same body re-enters at the matching place, with its mass and shape. Contacts across a boundary act as if the two bodies were side by side (apart from drift correction, which the program does not apply across boundaries), and the boundary's own motion is carried through kill and resume.",
  ["histories","inputs","configurations"],"every scene with planar or shearing boundaries, any crossing sequence, any kill/resume history",
  "It needs many steps of scenes with crossings and corner crossings; no unit test runs one.",
  ["ball2d/Portals","ball2d/Ball2DSim.cpp","rigidbody2d/PlanarPortal.cpp","rigidbody2d/RigidBody2DSim.cpp","rigidbody3d/Portals","rigidbody3d/RigidBody3DSim.cpp"],
  [("teleportation","enforcePeriodicBoundaryConditions in each simulator"),("portals","PlanarPortal, LeesEdwardsPortal")],
  "body positions, boundary state","configuration files")
p("C14","Every recorded contact is real and no touching pair is missed",
  "In every step for which contact forces are recorded, the recorded contacts are exactly the pairs of bodies, and body and wall pairs, that touch or overlap in the configuration the step is predicted to reach (for discs in 2D outside periodic domains: that meet anywhere along the predicted step), with at least one contact for each such pair and none for any other pair, whatever the number, sizes, arrangement and order of the bodies. In a periodic domain a body also touches the images of the others across the boundaries, with exactly one contact between two round bodies however many of their images coincide. Pairs of fixed bodies and fixed bodies and walls are not contacts. Each contact lies where the two surfaces meet (for round bodies and walls exactly on the surface), and its normal is of unit length, points towards the first body and is the direction the shapes prescribe: between centres for round bodies, from the nearest point of a box to a disc, the direction of least overlap for two boxes, the wall's normal for planes, radially inwards for drums and cylinders. The warning about collisions in the initial state counts exactly these pairs, with their depth and volume.",
  ["inputs","histories","configurations"],"every arrangement of bodies of all supported shapes, fixed or free, with planes, drums, cylinders and periodic boundaries, in every step of every history including resumed ones",
  "Which pairs the broad phase visits depends on all bodies at once (cell sizes, extents, order); tests call none of the detectors on a scene.",
  ["ball2d/SpatialGridDetector.cpp","rigidbody2d/SpatialGrid.cpp","rigidbody2d/RigidBody2DSim.cpp","rigidbody3d/SpatialGridDetector.cpp","rigidbody3d/RigidBody3DSim.cpp","ball2d/Ball2DSim.cpp","scisim/CollisionDetection/CollisionDetectionUtilities.cpp"],
  [("broad phase","*/SpatialGrid*.cpp, getPotentialOverlaps"),("narrow phase","*Sim::computeActiveSet and the constraint classes' isActive"),("box-box","rigidbody2d/BoxBoxTools.cpp, rigidbody3d/Constraints/BoxBoxUtilities"),("mesh","rigidbody3d/Constraints/MeshMeshUtilities.cpp")],
  "recorded contacts","contact force files and configuration files")
p("C15","Contact forces obey the contact law the scene asks for",
  "In every step in which the contact solver reports no failure to converge, the recorded impulses are a solution of the contact problem of the scene: after them no contact goes on approaching faster than the chosen operator allows, impulses act only on contacts that do not separate faster than restitution asks for, an isolated frictionless contact leaves with the coefficient of restitution times its approach velocity, friction below its bound holds a contact still and friction at its bound opposes sliding (So-bogus solver), penetration correction acts only beyond its threshold, and frictionless contacts never add kinetic energy. Impulses are finite, and the LCP and So-bogus solvers give up after the number of iterations the scene allows when no solution is found: such a step always ends.",
  ["inputs","histories","configurations"],"every impact operator and friction solver available, coefficient of restitution and friction, staggering and warm start setting, on every arrangement of bodies and walls, in every step of every history including resumed ones",
  "The law couples all simultaneous contacts; tests never run a contact solver on a scene, and warm starts carry errors from step to step.",
  ["scisim/ConstrainedMaps/ImpactMaps","scisim/ConstrainedMaps/ImpactFrictionMap.cpp","scisim/ConstrainedMaps/GeometricImpactFrictionMap.cpp","scisim/ConstrainedMaps/StabilizedImpactFrictionMap.cpp","scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.cpp","scisim/ConstrainedMaps/FrictionMaps","scisim/ConstrainedMaps/Sobogus.cpp","scisim/ConstrainedMaps/bogus","scisim/ConstrainedMaps/StaggeredProjections.cpp","ball2d/Constraints","rigidbody2d","rigidbody3d/Constraints"],
  [("impact operators","scisim/ConstrainedMaps/ImpactMaps/*Operator*.cpp"),("friction maps","scisim/ConstrainedMaps/*ImpactFrictionMap.cpp"),("constraint Jacobians","*/Constraints: evalgradg, evalH, computeContactBasis")],
  "velocities and recorded impulses","contact force files and configuration files")
p("C16","Each step moves every body as the chosen integrator prescribes",
  "From one recorded frame to the next every body moves as the scene's integrator prescribes for the velocity that gravity and the recorded contact impulses give it: positions advance by the full step of that velocity (with the half step of gravity for the second order integrators, the end velocity for symplectic Euler and the staggerings that end the step with it), 2D orientations advance by the spin, 3D orientations stay rotations and follow torque-free rotation to the order of the integrator while angular momentum about the centre is kept (the split integrator turns about the body's axes in the order z, y, x, y, z, the discrete Moser-Veselov integrator satisfies its discrete equation of motion), and fixed bodies stay or keep their own constant velocity. In 2D ball scenes with penalty forces the velocity changes by the forces of the overlaps the scene defines, equal and opposite on the two balls.",
  ["inputs","histories","configurations"],"every integrator, staggering, body shape, spin and timestep, in every step of every history including resumed ones",
  "No test advances a simulation by a step.",
  ["scisim/UnconstrainedMaps","ball2d/SymplecticEulerMap.cpp","ball2d/VerletMap.cpp","rigidbody2d","rigidbody3d/UnconstrainedMaps","scisim/ConstrainedMaps"],
  [("integrators","*Map::flow in ball2d, rigidbody2d, rigidbody3d/UnconstrainedMaps"),("constrained step","scisim/ConstrainedMaps/ImpactMaps/ImpactMap.cpp, *ImpactFrictionMap.cpp: flow")],
  "positions, orientations, velocities","configuration files")
p("C17","A 3D run stops exactly when something leaves the simulation boundary",
  "A 3D scene with a simulation boundary whose violation behavior is exit behaves in every way as the same scene without it up to and including the last step after which the bounding boxes of all bodies are inside the boundary; after the first step that leaves one of them outside, the run ends at once with a failure status, and no configuration, force file, snapshot or script callback of that state follows. With behavior none the boundary has no effect. This holds for resumed runs as well.",
  ["histories","inputs"],"every scene, shape and boundary, every step of every run, with any kill/resume history and script",
  "It needs whole runs with moving bodies; no unit test runs one.",
  ["rigidbody3d/RigidBody3DSim.cpp","rigidbody3d/RigidBody3DState.cpp","rigidbody3dutils/RigidBody3DSceneParser.cpp","rigidbody3d/Geometry"],
  [("boundary treatment","RigidBody3DSim::treatSimulationBoundary, runBoundaryExitTreatment"),("boundary in the state","RigidBody3DState::serialize, deserialize")],
  "bounding boxes, boundary","files written, callbacks, exit status")
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
