"""What each check builds and how its evidence describes it."""
STUBVIS = "visualisation (Coin3D/Qt): replaced by a factory producing plain triangle meshes"
KERNEL = "OS scheduler, clocks, random device: replaced by the simulator"
CHECKS = {
 "C01": dict(name="c01", comps=["vr", "pqp"], files=["c01.cpp"], quick_s=50, thorough_s=700,
    rule="a run = a generated robot, 2-4 client threads with random update/read operations under one seeded schedule; non-trivial if at least one update overlapped another operation in time",
    real=["VirtualRobot: robots, nodes, node sets, configs, trajectories, locks, XML loader", "boost.thread/pthread call sites"], stub=[STUBVIS, KERNEL],
    note="Linearizability of sampled histories against a sequential copy of the robot; seeded schedules, sequentially consistent memory, histories of at most ~24 operations."),
 "C09": dict(name="c09", comps=["vr", "pqp"], files=["c09.cpp"], quick_s=45, thorough_s=700,
    rule="a run = one or two addRandomTCPPoses calls with generated robot, map, thread count, collision settings and faults under one seeded schedule; non-trivial if more than one worker and more than one sample",
    real=["WorkspaceRepresentation, Reachability, Manipulability, WorkspaceDataArray, robots, PQP collision checks", "std::thread/std::mutex call sites"], stub=[STUBVIS, KERNEL, "quality measure: a probe which is a function of the configuration and records it"],
    note="Compared with adding the recorded samples one by one to a fresh map; 1-6 threads, up to 14 samples per call, worker exceptions, allocation failures and thread-creation failures; sequentially consistent memory."),
 "C10": dict(name="c10", comps=["vr", "pqp"], files=["c10.cpp"], quick_s=45, thorough_s=600,
    rule="a run = a generated map of one of three kinds saved under one fault plan, or an intact, legacy or damaged file loaded into an empty or filled object; every completed run is non-trivial",
    real=["WorkspaceRepresentation, Reachability, Manipulability, WorkspaceDataArray, FileIO, CompressionBZip2/RLE", "libstdc++ file streams on real files in a scratch directory"], stub=[STUBVIS, "storage faults injected at the read/write/close calls"],
    note="Generated maps up to ~6^3x4^3 cells, all file versions 1.0-2.9 through an independent writer, one fault plan per operation; death while saving is represented by the prefix it leaves (truncation) and by zeroed tails."),
 "C11": dict(name="c11", comps=["vr", "pqp"], files=["c11.cpp"], quick_s=45, thorough_s=600,
    rule="a run = one generated buffer compressed and read back in random chunks under one fault plan, or concurrent streams; non-trivial if the reading or writing side got to an end",
    real=["CompressionBZip2, CompressionRLE", "std::fstream on real files for a sixth of the runs"], stub=["stream buffers failing or delivering short data at chosen bytes"],
    note="Buffers up to ~1 MB (mostly below 40 kB), faults at chosen bytes of either side, single and multiple byte alterations; leaks by heap accounting with 60 kB tolerance."),
 "C05": dict(name="c05", comps=["vr", "pqp", "saba"], files=["c05.cpp"], quick_s=50, thorough_s=700,
    rule="a run = a history of start/goal/plan/reset calls on one planner, or on 2-3 planners sharing one robot, over a generated problem with one fault plan; non-trivial if a solution with more than three points was found",
    real=["Rrt, BiRrt, GraspIkRrt, CSpaceSampled, CSpaceTree, CSpacePath, robots, PQP collision checks"], stub=[STUBVIS, KERNEL, "inverse kinematics of the grasp planner: hands out configurations of a pool", "forbidden balls in joint space through the ConfigurationConstraint interface"],
    note="Solutions are judged by geometry alone on a private copy of robot and scene (2-3 joints, up to 14 forbidden balls, up to 3 boxes); sampling size at least 1.06 times the collision resolution."),
 "C06": dict(name="c06", comps=["vr", "pqp", "saba"], files=["c06.cpp"], quick_s=45, thorough_s=600,
    rule="a run = a history of planning calls ending in every possible way on one planner, or on 1-3 planners next to another user of the same robot; every run with at least one planning call is non-trivial",
    real=["Rrt, BiRrt, GraspIkRrt, CSpace, CSpaceSampled, robots, locks, PQP collision checks"], stub=[STUBVIS, KERNEL, "inverse kinematics of the grasp planner", "forbidden balls in joint space through the ConfigurationConstraint interface"],
    note="Status before and after each call is compared; locks are probed by another thread (a lock left behind deadlocks the run); reuse is shown by solving a free problem with the same planner."),
 "C07": dict(name="c07", comps=["vr", "pqp", "saba"], files=["c07.cpp"], quick_s=45, thorough_s=600,
    rule="a run = a history of planning calls with cycle limits, time budgets and stop requests under slow checks, clock jumps and stalls, alone or next to planners for other robots; non-trivial if a call ended without a solution",
    real=["Rrt, BiRrt, GraspIkRrt, ShortcutProcessor, CSpaceSampled, robots, PQP collision checks"], stub=[STUBVIS, KERNEL, "processor clock: simulated time", "inverse kinematics of the grasp planner"],
    note="Work is counted in validity checks; a cycle's need is bounded by the diameter of the space over the resolution. Simulated time passes in slow checks and stalls."),
 "C08": dict(name="c08", comps=["vr", "pqp", "saba"], files=["c08.cpp"], quick_s=45, thorough_s=600,
    rule="a run = valid generated paths optimised, pruned and optimised again under one fault plan, alone or by 2-3 threads sharing one robot; every run with at least one call is non-trivial",
    real=["ShortcutProcessor, PathProcessor, CSpacePath, CSpaceSampled, robots, PQP collision checks"], stub=[STUBVIS, KERNEL, "forbidden balls in joint space through the ConfigurationConstraint interface"],
    note="Inputs are valid at the collision resolution; results are judged on a private copy of the scene; length is the joint space length without metric weights."),
 "C03": dict(name="c03", comps=["vr", "pqp", "saba"], files=["c03.cpp"], quick_s=45, thorough_s=600,
    rule="a run = 1-3 threads issuing random start/stop/interrupt/poll calls on one PlanningThread, then reuse or destruction; every completed run is non-trivial",
    real=["PlanningThread, MotionPlanner, Rrt, BiRrt, CSpaceSampled, robots, PQP collision checks", "boost.thread/mutex/condition call sites"], stub=[STUBVIS, KERNEL, "forbidden balls in joint space through the ConfigurationConstraint interface"],
    note="Up to ~9 calls per thread; planners which can never succeed, throw, run out of memory or are slow; failing thread creation, failing allocations in start() and spurious wake-ups. Work after a stop request is counted in validity checks."),
 "C04": dict(name="c04", comps=["vr", "pqp", "saba"], files=["c04.cpp"], quick_s=45, thorough_s=600,
    rule="a run = 1-3 threads issuing random start/stop/interrupt/poll calls on one PathProcessingThread, then reuse or destruction; every completed run is non-trivial",
    real=["PathProcessingThread, ShortcutProcessor, ElasticBandProcessor, CSpaceSampled, robots, PQP collision checks", "boost.thread/mutex/condition call sites"], stub=[STUBVIS, KERNEL, "forbidden balls in joint space through the ConfigurationConstraint interface"],
    note="Same calls and faults as C03; handed-out paths are compared with what the processor returned, and shortcut results are judged on a private copy of the scene."),
 "C02": dict(name="c02", comps=["vr", "pqp", "saba"], files=["c02.cpp"], quick_s=45, thorough_s=600,
    rule="a run = 1-4 threads issuing random collision, distance, multi-body and configuration queries on private, protected shared or cloned scenes under one schedule; every completed run is non-trivial",
    real=["CollisionChecker, CollisionCheckerPQP, CollisionModel, CDManager, CSpace/CSpaceSampled, PQP, robots, locks"], stub=[STUBVIS, KERNEL],
    note="Oracle: brute force over all triangle pairs in double precision; poses closer than 0.1 mm to contact are not judged; query counters are not compared after failed allocations."),
 "C12": dict(name="c12", comps=["vr", "pqp"], files=["c12.cpp"], quick_s=45, thorough_s=600,
    rule="a run = a generated robot, scene, object or mesh saved on a healthy disk, loaded and compared, then saved 1-3 times under fault plans or next to another saving thread, then read back cut short or through a failing disk; every completed run is non-trivial",
    real=["RobotIO, SceneIO, ObjectIO, BaseIO, all toXML members, rapidxml, robots, objects, libstdc++ file streams on real files in a scratch directory"], stub=[STUBVIS, KERNEL, "model files: plain triangle lists written by the stub visualisation"],
    note="Success is compared byte for byte with the files a healthy disk got; loaded things are compared with the originals to 2e-5 (six printed digits). Names of robots, fractions lost to rounding and visualisation file names are not compared; completeness is not judged when memory ran out while printing."),
 "C13": dict(name="c13", comps=["vr", "pqp"], files=["c13.cpp"], quick_s=45, thorough_s=600,
    rule="a run = a generated mesh in a text or binary STL file, intact or damaged, read under one fault plan, alone or by several threads; every completed run is non-trivial",
    real=["STLReader, TriMeshModel, libc file access on real files in a scratch directory"], stub=[STUBVIS, "storage faults injected at the open/read calls"],
    note="Truncation and torn tails at any byte, read errors and short reads, altered bytes, wrong counts, allocation failures; an altered binary coordinate is judged by the mesh it describes."),
 "C14": dict(name="c14", comps=["vr", "pqp"], files=["c14.cpp"], quick_s=45, thorough_s=600,
    rule="a run = 2 to 4 threads that load, copy, take parts of and drop robots, objects and obstacles and use the global checker and data paths under one schedule; every completed run is non-trivial",
    real=["Robot, RobotFactory, RobotIO, ObjectIO, Obstacle, CollisionChecker, RuntimeEnvironment, factories"], stub=[STUBVIS],
    note="Every run is a fresh process image, so that the threads' use of the global checker and the data paths is the first one; allocation failures in a fifth of the runs. References are made by a lone caller before, or after where that would be the first use."),
 "C15": dict(name="c15", comps=["vr", "pqp", "grasp", "qhull"], files=["c15.cpp"], quick_s=45, thorough_s=600,
    rule="a run = 1 to 4 threads that compute hulls of generated point sets (3d, through meshes, and 6d) under one schedule and set of allocation failures; every completed run is non-trivial",
    real=["ConvexHullGenerator and the qhull library behind it"], stub=[STUBVIS],
    note="The reference of every input comes from a fresh process and is itself judged geometrically (contains all points, its vertices are points, closed, volume, distances); joggled 6d hulls within 2 % of the width. Allocations fail in the generator and inside qhull."),
"C17": dict(name="c17", comps=["vr", "pqp", "grasp", "qhull"], files=["c17.cpp"], quick_s=50, thorough_s=700,
    rule="a run = 1 or 2 threads, each with a grasp planner of its own over a generated hand, object, obstacles and quality measure, planning once or twice under one schedule, clock and fault plan, and in a third of the runs evaluating grasps under pose uncertainty; every completed run is non-trivial",
    real=["GenericGraspPlanner, ApproachMovementSurfaceNormal, GraspQualityMeasureWrenchSpace (and not normalized), GraspEvaluationPoseUncertainty, EndEffector, hands, PQP collision checks, qhull"], stub=[STUBVIS, KERNEL, "approach movement and quality measure: the real ones, recording the candidates they are asked for"],
    note="Every candidate that got contacts is judged again with a hand and a measure of the check's own: the set of stored grasps must be exactly those good enough. Time: 1 to 200 ms of simulated time with slow candidates, clock jumps and stalls; at most one candidate begins after the limit. Exceptions: from the approach movement and from failing allocations; the evaluation counters are not judged after one."),
"C18": dict(name="c18", comps=["vr", "pqp"], files=["c18.cpp"], quick_s=45, thorough_s=700,
    rule="a run = 1 to 3 threads, each solving generated inverse kinematics queries (Jacobian with restarts, grasps, gaze, constrained optimisation) on its own copy of a generated robot, under one schedule, random sequence, clock and set of allocation failures; every completed run is non-trivial",
    real=["GenericIKSolver, AdvancedIKSolver, DifferentialIK, JacobiProvider, GazeIK, ConstrainedOptimizationIK and its constraints, Reachability, CDManager, robots, PQP collision checks"], stub=[STUBVIS, KERNEL, "nlopt: the installed library, its clock is the simulated one"],
    note="Every claimed solution is judged on a robot of the check's own: pose within 0.1 % + 0.02 mm / 2 mrad of the tolerances, limits to 1e-5, collisions with 0.05 mm play; joints and update settings on failure."),
"C22": dict(name="c22", comps=["vr", "pqp", "grasp", "qhull"], files=["c22.cpp"], quick_s=45, thorough_s=600,
    rule="a run = 1 to 3 threads, each giving its own quality measure (object-normalised, not normalised, basic) a history of generated contact sets and querying it in any order, under one schedule and set of allocation failures; every completed run is non-trivial",
    real=["GraspQualityMeasureWrenchSpace, ...NotNormalized, BasicGraspQualityMeasure, ContactConeGenerator, ConvexHullGenerator and the qhull library"], stub=[STUBVIS],
    note="Verdicts are compared with those of a fresh measure, which are judged from the contacts alone (independent wrenches, distance of the origin from their hull by a Frank-Wolfe iteration, largest ball by support values of the hull's face normals); margin 2 % of the largest wrench, within it force closure is not judged. Object wrench spaces computed by random face order are compared within 5 %. Allocations fail in the C++ code only (inside qhull: see C15)."),
}
