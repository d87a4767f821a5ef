#!/usr/bin/env python3
"""The single source of properties.jsonl and MANIFEST.json: `python3 tools/props.py` rewrites both."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from checks import CHECKS
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None, na=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
              anchors=dict(files=files.split(), mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=hook)), na))

prop("C01", "A shared robot behaves like one atomic object",
 "When several threads update and read one robot whose thread-safe mode is on (joint values of single joints, joint sets, configurations, maps and trajectories; the global pose; poses and values read back; copies taken), every operation appears to take effect at a single instant between its call and its return: some order of the updates explains everything that was read, no update is lost, and no read or copy mixes two configurations. A thread holding the robot's read or write lock sees nothing change that it did not change itself, and once all threads are done every pose is the one the final joint values and global pose define.",
 "schedules histories", "all interleavings of 2-4 threads with mixed histories of updates, reads, locked sections and copies, on generated kinematic structures",
 "tests use robots from a single thread; a lost update or mixed read needs two threads to meet inside a few instructions",
 "VirtualRobot/Robot.cpp VirtualRobot/Robot.h VirtualRobot/RobotNodeSet.cpp VirtualRobot/RobotConfig.cpp VirtualRobot/Nodes/RobotNode.cpp VirtualRobot/Nodes/ConditionedLock.h",
 [("recursive robot mutex taken by updates and reads", "VirtualRobot/Robot.cpp: getReadLock/getWriteLock, setJointValues, applyJointValues"), ("conditional lock object", "VirtualRobot/Nodes/ConditionedLock.h"), ("node level locks", "VirtualRobot/Nodes/RobotNode.cpp: getGlobalPose, getJointValue, setJointValue")],
 [("jointValue/globalPose", "configuration of each node", "VirtualRobot/Nodes/RobotNode.h"), ("mutex/use_mutex", "guards all of it", "VirtualRobot/Robot.h")],
 ["Robot/RobotNode/RobotNodeSet/RobotConfig public API"])

prop("C02", "Collision answers do not depend on who else is querying",
 "Collision, distance and configuration-validity queries give, from whatever threads and in whatever order they are issued on private or lock-protected shared scenes, exactly the answers of the geometry at the poses of the moment, as a lone caller would get them; a configuration's validity is judged at that configuration even when several planners share one robot in protected mode. After the queries finish, nothing stays locked and every query counted is a query made.",
 "schedules histories inputs", "all interleavings of 2-4 threads querying pairs, groups and sampled configurations on random scenes",
 "tests query from one thread on fixed scenes; the answers of a shared checker depend on what other queries left behind in it",
 "VirtualRobot/CollisionDetection/CollisionChecker.cpp VirtualRobot/CollisionDetection/CDManager.cpp VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp VirtualRobot/CollisionDetection/PQP/CollisionModelPQP.cpp MotionPlanning/CSpace/CSpace.cpp MotionPlanning/CSpace/CSpaceSampled.cpp",
 [("per-space collision-check mutex", "MotionPlanning/CSpace/CSpace.cpp: lock/unlock, isCollisionFree"), ("private checker per space copy", "CSpace::clone, CollisionChecker"), ("global checker singleton", "CollisionChecker::getGlobalCollisionChecker")])

prop("C03", "A background planner can be started and stopped safely at any moment",
 "Whatever the order and timing of starting, stopping, interrupting, polling and destroying a background planning run, every call returns, a stop request is honoured (the planner ends within bounded work and never keeps running), and afterwards the run is reported as finished. A reported success always comes with a solution, a run never leaves the process waiting forever or ended by an exception raised in the planner, and the same object can be started again.",
 "schedules histories fault_sequences", "all interleavings of 1-3 controlling threads with the planning thread, with slow, failing and throwing planners and thread-creation failures",
 "tests never run planning in a thread, let alone stop it between two instructions of its start",
 "MotionPlanning/Planner/PlanningThread.cpp MotionPlanning/Planner/PlanningThread.h MotionPlanning/Planner/MotionPlanner.cpp MotionPlanning/Planner/Rrt.cpp MotionPlanning/Planner/BiRrt.cpp",
 [("mutex-guarded start/stop state", "PlanningThread::start/stop/interrupt/workingMethod"), ("stop flag polled by planners", "MotionPlanner::stopSearch")])

prop("C04", "Background path post-processing can be started and stopped safely",
 "Whatever the order and timing of starting, stopping, interrupting, polling and destroying a background path optimisation, every call returns, a stop is honoured within bounded work, and afterwards the run is reported as finished. The path it hands out is always a complete result of the optimiser or nothing, with the original start and goal, and the same object can be used again.",
 "schedules histories fault_sequences", "all interleavings of 1-3 controlling threads with the processing thread, with slow, failing and throwing processors",
 "tests do not exercise the threaded post-processing at all",
 "MotionPlanning/PostProcessing/PathProcessingThread.cpp MotionPlanning/PostProcessing/PathProcessor.cpp MotionPlanning/PostProcessing/ShortcutProcessor.cpp",
 [("mutex-guarded start/stop state", "PathProcessingThread::start/stop/workingMethod"), ("stop flag polled by processors", "PathProcessor::stopExecution")])

prop("C05", "Planner results are real, valid, connected paths",
 "When a sampling-based motion planner (Rrt, BiRrt, or GraspIkRrt towards grasps) reports success, its solution starts exactly at the start configuration, ends exactly at the goal (for GraspIkRrt: at one of the inverse kinematics solutions), stays within the joint limits, has no step longer than the path resolution allows, and every point on it is collision free at the promised resolution; this holds however planning was interleaved with other planners sharing the scene, and whatever was stopped or timed out before. When a planner reports failure or was stopped, no solution from this or any earlier run is handed out as if it were the answer.",
 "inputs schedules fault_sequences histories", "seeded random scenes, queries, planner modes, repeated plans, stops, timeouts and clock jumps, alone and next to other planners",
 "tests plan a few fixed problems and look at success only; validity must hold for every random sequence and every interruption",
 "MotionPlanning/Planner/Rrt.cpp MotionPlanning/Planner/BiRrt.cpp MotionPlanning/Planner/GraspIkRrt.cpp MotionPlanning/CSpace/CSpaceSampled.cpp MotionPlanning/CSpace/CSpaceTree.cpp MotionPlanning/CSpace/CSpacePath.cpp MotionPlanning/CSpace/CSpace.cpp",
 [("tree extension checks the path of every new edge", "Rrt::extend/connectComplete, CSpaceSampled::isPathValid"), ("solution assembled from the tree(s)", "Rrt::createSolution, BiRrt::createSolution")])

prop("C06", "Planning leaves the robot and scene as it found them",
 "Whatever the outcome of a planning call of Rrt, BiRrt or GraspIkRrt - success, failure, cycle limit, timeout, stop request from another thread or an exception - the robot's visualisation-update setting and the scene's settings are back to what they were, no lock stays held, and the planner can be used again. Thread-protected validity checks of other users of the same robot keep working afterwards.",
 "fault_sequences schedules histories", "every way a planning call can end, at every point at which it can be stopped, time out or have a callback or allocation fail",
 "tests look at the solution of successful plans, never at what a failed, stopped or timed-out one leaves behind",
 "MotionPlanning/Planner/Rrt.cpp MotionPlanning/Planner/BiRrt.cpp MotionPlanning/Planner/GraspIkRrt.cpp MotionPlanning/CSpace/CSpace.cpp",
 [("update-visualisation switched off for the search and restored", "Rrt::plan, BiRrt::plan")])

prop("C07", "Planning and post-processing respect their budgets",
 "A planner (Rrt, BiRrt, GraspIkRrt) or path processor ends within a bounded amount of work after its cycle limit is reached, its stop was requested or its time budget has passed, and it never reports a timeout that did not happen: jumps of the wall clock, slow or stalled collision checks and concurrent load neither make it run on nor end it early. Reported planning times are never negative and never exceed the time that really passed.",
 "schedules fault_sequences", "simulated clocks with jumps in both directions, stalls and arbitrary stop points over random planning problems",
 "tests run on a real clock which never jumps and with budgets that are never reached",
 "MotionPlanning/Planner/Rrt.cpp MotionPlanning/Planner/BiRrt.cpp MotionPlanning/Planner/MotionPlanner.cpp",
 [("cycle counter, stop flag and clock checked once per cycle", "Rrt::plan, BiRrt::plan, isTimeout")])

prop("C08", "Path post-processing only ever returns valid, no longer paths",
 "Whatever is sampled and whenever it is stopped, shortcutting (including its pruning of points) a valid path returns a path with the same start and goal that is collision free at the resolution of the search space, keeps its points ordered and connected, and is not longer in joint space than the input; the input path is left untouched. When post-processing is cut short the best valid path found so far is what is handed out.",
 "inputs schedules fault_sequences", "seeded random valid paths and scenes, random numbers of rounds, stop requests at every point",
 "tests smooth no paths; validity must hold for each random sequence and each stop point",
 "MotionPlanning/PostProcessing/ShortcutProcessor.cpp MotionPlanning/PostProcessing/PathProcessor.cpp MotionPlanning/PostProcessing/ElasticBandProcessor.cpp MotionPlanning/CSpace/CSpacePath.cpp",
 [("only collision-free, shorter shortcuts replace a segment", "ShortcutProcessor::optimize/validShortcut/doOptimize")])

prop("C09", "Parallel workspace sampling loses nothing",
 "Building a reachability or manipulability map with any number of threads accounts for every requested sample exactly once: the build-up statistics and the stored entries are those of the samples drawn, as if they had been added one after the other by a single caller, and every valid map entry is one a sample produced. Any number of threads including more threads than samples works, the robot is left at its original configuration and pose, and failures in one worker are reported to the caller.",
 "schedules inputs fault_sequences", "all interleavings of 1-6 worker threads adding samples to one map, any split of samples over threads, failing workers",
 "no test builds a map with more than one thread, and a lost update is invisible in a map of random samples unless the samples are known",
 "VirtualRobot/Workspace/WorkspaceRepresentation.cpp VirtualRobot/Workspace/WorkspaceDataArray.cpp VirtualRobot/Workspace/Reachability.cpp VirtualRobot/Workspace/Manipulability.cpp",
 [("worker threads on robot clones adding to the shared voxel data", "WorkspaceRepresentation::addRandomTCPPoses(loops,numThreads), addPose")])

prop("C10", "Workspace files are complete or reported as failed",
 "Saving a workspace map reports success only if a file was written from which loading reproduces the map exactly; out of space, write errors and failing closes are reported. Loading a file that is truncated, torn, unreadable part way or has altered voxel data ends with an error within bounded work; altered header fields, which have no checksum, end with an error or with exactly the map the file describes. Lack of memory is reported. After an error the map object is as it was before and can be used and loaded again - never a partly filled map, a crash or a hang. Files of all supported older versions load as the map they describe and can be saved again.",
 "fault_sequences crash_points inputs", "every byte position at which storage fails, fills up or the process dies while saving, and short reads, read errors, truncation and byte flips while loading",
 "tests never make storage fail and load intact files only",
 "VirtualRobot/Workspace/WorkspaceRepresentation.cpp VirtualRobot/XML/FileIO.cpp VirtualRobot/XML/FileIO.h VirtualRobot/Compression/CompressionBZip2.cpp VirtualRobot/Workspace/Manipulability.cpp",
 [("versioned binary format with bzip2 compressed voxel blocks", "WorkspaceRepresentation::save/load, WorkspaceDataArray, FileIO")])

prop("C11", "Compressed streams round-trip or fail loudly",
 "Data written in any chunking through the stream compressor and read back in any chunking is identical, also when the underlying streams deliver short reads or small buffers. When the underlying stream fails, ends early or its bytes were altered, some call reports failure: reading up to the end of the data never succeeds with other bytes than those written (what is read before the end mark is provisional, checksums follow the data), no call crashes, writes outside its buffer or loops forever, no call succeeds as if nothing had happened after a failed one, and nothing is leaked. Streams used by different threads do not disturb each other.",
 "fault_sequences inputs", "all chunkings, stream failures at every byte, truncations at every byte and byte flips",
 "tests cover one fixed text with intact streams",
 "VirtualRobot/Compression/CompressionBZip2.cpp VirtualRobot/Compression/CompressionBZip2.h",
 [("stream states checked around each bzip2 call", "CompressionBZip2::write/read/close")])

prop("C12", "A saved robot, scene or object file is complete or the save fails",
 "Saving a robot (with or without its model files), scene, object or STL mesh reports success only if everything is in the file: when storage fails or fills up at any byte, at opening or at close, failure is reported and saving again later gives the complete file. A file reported as saved loads again as the same thing to the precision of the printed numbers: structure, joint types, limits, offsets, propagation, physics data, node sets with root and TCP, end effectors and sensors as far as they were asked to be stored, poses, configurations, grasps, trajectories. Saving changes none of that in the saved object. A file cut short or unreadable part way is not loaded as something smaller.",
 "fault_sequences crash_points inputs", "storage failing at every byte position or at close while saving generated robots, scenes and objects",
 "tests only save to a healthy disk",
 "VirtualRobot/XML/BaseIO.cpp VirtualRobot/XML/RobotIO.cpp VirtualRobot/XML/SceneIO.cpp VirtualRobot/XML/ObjectIO.cpp",
 [("scene and object XML is written through one routine", "BaseIO::writeXMLFile"), ("robot files", "RobotIO::saveXML, SceneObject::saveModelFiles"), ("XML produced by each class, read by the loaders", "toXML members; RobotIO/SceneIO/ObjectIO::process*"), ("STL output", "ObjectIO::writeSTL")])

prop("C13", "Mesh import delivers the whole mesh or fails",
 "Importing an STL mesh, in text or binary form, succeeds only if every facet of the file (except facets with two equal corners, which are dropped) is in the model with its coordinates and normal, in order; a file that is truncated, has a damaged header, count or text structure, or becomes unreadable part way is rejected and never taken for a smaller mesh (binary coordinates carry no checksum: an altered one is another valid file). Import always terminates, leaks no file handles, and needs memory proportional to the file.",
 "fault_sequences inputs", "read errors and short reads at every byte, truncation at every byte and header damage over generated meshes in both formats",
 "the tests import two intact meshes; nothing is ever cut short or unreadable",
 "VirtualRobot/Import/MeshImport/STLReader.cpp VirtualRobot/Import/MeshImport/STLReader.h",
 [("sequential reader with line/record parsing", "STLReader::read, read_stla, read_stlb, check_stl_type")])

prop("C14", "Robots can be created and copied from many threads",
 "Robots loaded, copied and destroyed concurrently from several threads, also from one shared original, are each complete and identical to what a lone caller would get: same joints, links, sets, end effectors and poses, with names unique where the loader assigns them. Global registries stay consistent and survive first use from several threads at once.",
 "schedules inputs", "all interleavings of 2-4 threads loading, copying, extracting parts and destroying generated robots and scenes",
 "tests load and copy robots one after the other in one thread",
 "VirtualRobot/XML/RobotIO.cpp VirtualRobot/Robot.cpp VirtualRobot/CollisionDetection/CollisionChecker.cpp VirtualRobot/AbstractFactoryMethod.h",
 [("load counter under a mutex", "RobotIO::processRobotAttributes"), ("global checker created under a mutex", "CollisionChecker::getGlobalCollisionChecker"), ("factory registry", "VirtualRobot/AbstractFactoryMethod.h")])

prop("C15", "Convex hulls are right and reusable, whoever else computes one",
 "Convex hulls (of points and of contact wrenches) computed concurrently or after an earlier computation failed - for degenerate input, too few points or lack of memory - are the hulls a fresh lone computation gives, and contain all input points. A failed computation is reported, blocks no later one, and leaks no lock.",
 "schedules fault_sequences inputs", "all interleavings of 2-4 threads computing hulls, with allocation failures at every allocation and degenerate inputs",
 "tests compute one hull of good points; the library behind it keeps global state",
 "GraspPlanning/ConvexHullGenerator.cpp",
 [("one global mutex around the non-reentrant hull library", "ConvexHullGenerator::CreateConvexHull")])

prop("C16", "Physics stepping and its API may be used from several threads",
 "While one thread steps the simulation, other threads may add and remove objects and robots, read and set poses, velocities and joint targets and query contacts under the engine's lock: every call returns, each change takes effect as a whole between steps, poses read are poses of one step, removed objects never move again and the object lists stay consistent. Simulated time advances by exactly what was stepped.",
 "schedules histories", "all interleavings of a stepping thread and 1-3 API threads over random worlds",
 "the tests contain no physics at all",
 "SimDynamics/DynamicsWorld.cpp SimDynamics/DynamicsEngine/DynamicsEngine.cpp SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp",
 [("optional recursive engine mutex", "DynamicsEngine::setMutex, MutexLockPtr users")])

prop("C17", "Grasp planning honours its budget and returns only good grasps",
 "A grasp-planning run returns no more grasps than asked for, counts exactly the grasps it stored, and stores exactly those candidates which are good: evaluated again with the stored hand pose and finger values by any other hand and measure, they have the quality they are stored with, which reaches the one requested, force closure where required, contacts enough, and the hand penetrates neither object nor obstacles. It gives up early only when its time budget is over, and starts no further candidates then, whatever the wall clock does (a limit of zero is no limit); its evaluation accounts for every candidate; candidates are not influenced by earlier ones, by planners in other threads or by a run that ended with an exception; the caller's hand and object stay where they are. Evaluating grasps under pose uncertainty judges every given pose as a fresh hand does and leaves hand and object as they were.",
 "inputs fault_sequences", "seeded approach sampling over generated hands and objects, clock jumps and stalls at any point",
 "tests plan no grasps with limits; the outcome is random",
 "GraspPlanning/GraspPlanner/GenericGraspPlanner.cpp GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp GraspPlanning/ApproachMovementSurfaceNormal.cpp",
 [("time and quality test per candidate", "GenericGraspPlanner::plan/planGrasp/timeout")])

prop("C18", "Randomised inverse kinematics reports only real solutions",
 "Whenever an inverse-kinematics query with random restarts reports success, the robot (or the returned values) reaches the requested pose within the tolerances, stays within all joint limits and is free of the collisions it was told to avoid; when it reports failure the robot's joint values are what they were before, where documented. However the query ends (an exception included), the robot's update settings are as before and the poses of all its links belong to its joint values. This holds for every random sequence, for concurrent queries on separate copies of one robot, and for queries that run out of attempts.",
 "inputs schedules", "all random sequences over generated arms, reachable and unreachable targets, with and without obstacles, alone and concurrent",
 "tests check a couple of fixed poses with one random sequence each",
 "VirtualRobot/IK/GenericIKSolver.cpp VirtualRobot/IK/AdvancedIKSolver.cpp VirtualRobot/IK/DifferentialIK.cpp VirtualRobot/IK/GazeIK.cpp VirtualRobot/IK/ConstrainedOptimizationIK.cpp VirtualRobot/IK/constraints/PositionConstraint.cpp VirtualRobot/IK/constraints/TSRConstraint.cpp VirtualRobot/IK/constraints/CoMConstraint.cpp",
 [("random restarts around a differential solver", "GenericIKSolver::solve/_sampleSolution"), ("tolerance check before success", "DifferentialIK::checkTolerances")])

NOSCHED = "a pure function of its input: no schedule, clock, I/O, fault or second party for a simulator to decide, so generated inputs would be property testing under another name"
prop("C22", "Grasp quality judges exactly the given contacts",
 "A grasp quality measure judges the contacts it was given last and nothing else: whatever contact sets, queries in any order, failed (out of memory) or concurrent computations preceded, quality, force closure, validity, volume and contact center equal those of a fresh measure given the same contacts. No contacts, contacts that exert no force or contacts whose wrenches span no volume have quality 0 and are not force closure; a grasp whose wrenches keep clear of the origin is never force closure, one whose wrenches surround it is; and the quality is the radius of the largest ball around the center of the wrench hull (relative to the object's, where normalised).",
 "histories schedules fault_sequences inputs", "random histories of contact sets and queries on 1-3 measures in concurrent threads, allocation failures at any point, degenerate contact sets",
 "tests evaluate no grasp at all",
 "GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp GraspPlanning/GraspQuality/GraspQualityMeasure.cpp GraspPlanning/ContactConeGenerator.cpp VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp",
 [("contacts replace the ones before", "GraspQualityMeasureWrenchSpace::setContactPoints"), ("hull of the contact wrenches", "GraspQualityMeasureWrenchSpace::calculateGWS"), ("force closure", "GraspQualityMeasureWrenchSpace::isOriginInGWSHull"), ("ball radius", "GraspQualityMeasureWrenchSpaceNotNormalized::minOffset")])
prop("C19", "Kinematics and Jacobians are mathematically right",
 "Poses of all links follow from joint values by the chain of fixed and joint transformations, and Jacobians equal the derivative of the pose with respect to the joint values, for every robot and configuration.",
 "inputs", "all kinematic structures and configurations", "tests sample a few poses", "VirtualRobot/Nodes/RobotNodeRevolute.cpp VirtualRobot/IK/DifferentialIK.cpp VirtualRobot/KinematicChain.cpp",
 [("recursive pose update", "RobotNode::updatePose"), ("Jacobian assembly", "DifferentialIK::getJacobianMatrix")], na=NOSCHED)
prop("C20", "Time-optimal trajectories respect velocity and acceleration limits",
 "A generated time-optimal trajectory follows the given path within its deviation bound and never exceeds the velocity and acceleration limits.",
 "inputs", "all paths and limits", "tests sample a few paths", "VirtualRobot/TimeOptimalTrajectory/TimeOptimalTrajectory.cpp VirtualRobot/TimeOptimalTrajectory/Path.cpp",
 [("phase-plane integration", "TimeOptimalTrajectory")], na=NOSCHED)
prop("C21", "Unit and rotation conversions are consistent",
 "Conversions between rotation matrices, quaternions, axis-angle, Euler angles and between units are inverse to each other within rounding for every valid input.",
 "inputs", "all rotations and units", "tests sample a few rotations", "VirtualRobot/MathTools.cpp VirtualRobot/Units.h", [("conversion functions", "VirtualRobot/MathTools.cpp")], na=NOSCHED)

def main():
    with open(V + "/properties.jsonl", "w") as f:
        for p, na in P: f.write(json.dumps(p) + "\n")
    m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=[],
             notes="No hooks in /repo: the simulator interposes on the compiler's memory-access instrumentation and on libc/pthread calls. Genuine defects: known_findings.txt.")
    for p, na in P:
        if p["id"] in CHECKS:
            c = CHECKS[p["id"]]
            m["checks"].append(dict(property=p["id"], quick_cmd="python3 tools/check.py %s --tier quick" % p["id"], thorough_cmd="VERIF_TIER=thorough python3 tools/check.py %s --tier thorough" % p["id"],
                technique="deterministic simulation with fault injection: seeded schedule and fault search", level="exploration", level_note=c["note"]))
        else:
            m["not_applicable"].append(dict(property=p["id"], reason=na or "no check built (yet)"))
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
main()
