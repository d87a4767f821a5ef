VirtualRobot/CollisionDetection/CollisionChecker.cpp
VirtualRobot/CollisionDetection/CollisionModel.cpp
VirtualRobot/CollisionDetection/CDManager.cpp
VirtualRobot/EndEffector/EndEffector.cpp
VirtualRobot/EndEffector/EndEffectorActor.cpp
VirtualRobot/Nodes/RobotNode.cpp
VirtualRobot/Nodes/RobotNodePrismatic.cpp
VirtualRobot/Nodes/RobotNodePrismaticFactory.cpp
VirtualRobot/Nodes/RobotNodeRevolute.cpp
VirtualRobot/Nodes/RobotNodeRevoluteFactory.cpp
VirtualRobot/Nodes/RobotNodeFixed.cpp
VirtualRobot/Nodes/RobotNodeFixedFactory.cpp
VirtualRobot/Nodes/Sensor.cpp
VirtualRobot/Nodes/PositionSensor.cpp
VirtualRobot/Nodes/ForceTorqueSensor.cpp
VirtualRobot/Nodes/ContactSensor.cpp
VirtualRobot/Nodes/CameraSensor.cpp
VirtualRobot/Nodes/PositionSensorFactory.cpp
VirtualRobot/Nodes/ForceTorqueSensorFactory.cpp
VirtualRobot/Nodes/ContactSensorFactory.cpp
VirtualRobot/Nodes/CameraSensorFactory.cpp
VirtualRobot/Visualization/VisualizationNode.cpp
VirtualRobot/Visualization/TriMeshModel.cpp
VirtualRobot/XML/BaseIO.cpp
VirtualRobot/XML/RobotIO.cpp
VirtualRobot/XML/mjcf/MasslessBodySanitizer.cpp
VirtualRobot/XML/mjcf/MjcfDocument.cpp
VirtualRobot/XML/mjcf/MujocoIO.cpp
VirtualRobot/XML/mjcf/utils.cpp
VirtualRobot/IK/IKSolver.cpp
VirtualRobot/IK/AdvancedIKSolver.cpp
VirtualRobot/IK/DifferentialIK.cpp
VirtualRobot/IK/GenericIKSolver.cpp
VirtualRobot/IK/JacobiProvider.cpp
VirtualRobot/Workspace/WorkspaceDataArray.cpp
VirtualRobot/Workspace/WorkspaceRepresentation.cpp
VirtualRobot/Workspace/Reachability.cpp
VirtualRobot/Grasping/Grasp.cpp
VirtualRobot/Grasping/GraspSet.cpp
VirtualRobot/MathTools.cpp
VirtualRobot/Robot.cpp
VirtualRobot/RobotConfig.cpp
VirtualRobot/RobotNodeSet.cpp
VirtualRobot/Trajectory.cpp
VirtualRobot/RobotFactory.cpp
VirtualRobot/SceneObject.cpp
VirtualRobot/SceneObjectSet.cpp
VirtualRobot/Obstacle.cpp
VirtualRobot/Primitive.cpp
VirtualRobot/VirtualRobotException.cpp
VirtualRobot/ManipulationObject.cpp
VirtualRobot/BoundingBox.cpp
VirtualRobot/RuntimeEnvironment.cpp
VirtualRobot/Random.cpp
VirtualRobot/Compression/CompressionRLE.cpp
VirtualRobot/Compression/CompressionBZip2.cpp
VirtualRobot/Import/SimoxXMLFactory.cpp
VirtualRobot/math/Helpers.cpp
VirtualRobot/math/LinearInterpolatedOrientation.cpp
VirtualRobot/Util/xml/tinyxml2.cpp
VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp
VirtualRobot/CollisionDetection/PQP/CollisionModelPQP.cpp
VirtualRobot/CollisionDetection/PQP/PQP++/BV.cpp
VirtualRobot/CollisionDetection/PQP/PQP++/Build.cpp
VirtualRobot/CollisionDetection/PQP/PQP++/PQP.cpp
VirtualRobot/CollisionDetection/PQP/PQP++/TriDist.cpp
MotionPlanning/CSpace/CSpace.cpp
MotionPlanning/CSpace/CSpaceNode.cpp
MotionPlanning/CSpace/CSpacePath.cpp
MotionPlanning/CSpace/CSpaceSampled.cpp
MotionPlanning/CSpace/CSpaceTree.cpp
MotionPlanning/CSpace/ConfigurationConstraint.cpp
MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
MotionPlanning/PostProcessing/PathProcessingThread.cpp
MotionPlanning/PostProcessing/PathProcessor.cpp
MotionPlanning/PostProcessing/ShortcutProcessor.cpp
