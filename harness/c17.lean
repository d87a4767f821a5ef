VirtualRobot/CollisionDetection/CollisionChecker.cpp
VirtualRobot/CollisionDetection/CollisionModel.cpp
VirtualRobot/EndEffector/EndEffector.cpp
VirtualRobot/EndEffector/EndEffectorActor.cpp
VirtualRobot/Nodes/RobotNode.cpp
VirtualRobot/Nodes/RobotNodePrismatic.cpp
VirtualRobot/Nodes/RobotNodePrismaticFactory.cpp
VirtualRobot/Nodes/RobotNodeRevolute.cpp
VirtualRobot/Nodes/RobotNodeRevoluteFactory.cpp
VirtualRobot/Nodes/RobotNodeFixed.cpp
VirtualRobot/Nodes/RobotNodeFixedFactory.cpp
VirtualRobot/Nodes/Sensor.cpp
VirtualRobot/Nodes/PositionSensor.cpp
VirtualRobot/Nodes/ForceTorqueSensor.cpp
VirtualRobot/Nodes/ContactSensor.cpp
VirtualRobot/Nodes/CameraSensor.cpp
VirtualRobot/Nodes/PositionSensorFactory.cpp
VirtualRobot/Nodes/ForceTorqueSensorFactory.cpp
VirtualRobot/Nodes/ContactSensorFactory.cpp
VirtualRobot/Nodes/CameraSensorFactory.cpp
VirtualRobot/Visualization/VisualizationNode.cpp
VirtualRobot/Visualization/TriMeshModel.cpp
VirtualRobot/XML/BaseIO.cpp
VirtualRobot/XML/RobotIO.cpp
VirtualRobot/XML/mjcf/MasslessBodySanitizer.cpp
VirtualRobot/XML/mjcf/MjcfDocument.cpp
VirtualRobot/XML/mjcf/MujocoIO.cpp
VirtualRobot/XML/mjcf/utils.cpp
VirtualRobot/Grasping/Grasp.cpp
VirtualRobot/Grasping/GraspSet.cpp
VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp
VirtualRobot/MathTools.cpp
VirtualRobot/Robot.cpp
VirtualRobot/RobotConfig.cpp
VirtualRobot/RobotNodeSet.cpp
VirtualRobot/Trajectory.cpp
VirtualRobot/RobotFactory.cpp
VirtualRobot/SceneObject.cpp
VirtualRobot/SceneObjectSet.cpp
VirtualRobot/Obstacle.cpp
VirtualRobot/Primitive.cpp
VirtualRobot/VirtualRobotException.cpp
VirtualRobot/BoundingBox.cpp
VirtualRobot/RuntimeEnvironment.cpp
VirtualRobot/Random.cpp
VirtualRobot/Import/SimoxXMLFactory.cpp
VirtualRobot/math/Helpers.cpp
VirtualRobot/math/LinearInterpolatedOrientation.cpp
VirtualRobot/Util/xml/tinyxml2.cpp
VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp
VirtualRobot/CollisionDetection/PQP/CollisionModelPQP.cpp
VirtualRobot/CollisionDetection/PQP/PQP++/BV.cpp
VirtualRobot/CollisionDetection/PQP/PQP++/Build.cpp
VirtualRobot/CollisionDetection/PQP/PQP++/PQP.cpp
VirtualRobot/CollisionDetection/PQP/PQP++/TriDist.cpp
GraspPlanning/ApproachMovementGenerator.cpp
GraspPlanning/ApproachMovementSurfaceNormal.cpp
GraspPlanning/ContactConeGenerator.cpp
GraspPlanning/ConvexHullGenerator.cpp
GraspPlanning/GraspPlanner/GenericGraspPlanner.cpp
GraspPlanning/GraspPlanner/GraspPlanner.cpp
GraspPlanning/GraspPlanner/GraspPlannerEvaluation.cpp
GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp
GraspPlanning/GraspQuality/GraspQualityMeasure.cpp
GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
GraspPlanning/ExternalDependencies/qhull-2003.1/src/user.c
GraspPlanning/ExternalDependencies/qhull-2003.1/src/global.c
GraspPlanning/ExternalDependencies/qhull-2003.1/src/stat.c
GraspPlanning/ExternalDependencies/qhull-2003.1/src/io.c
GraspPlanning/ExternalDependencies/qhull-2003.1/src/geom2.c
GraspPlanning/ExternalDependencies/qhull-2003.1/src/poly2.c
GraspPlanning/ExternalDependencies/qhull-2003.1/src/merge.c
GraspPlanning/ExternalDependencies/qhull-2003.1/src/geom.c
GraspPlanning/ExternalDependencies/qhull-2003.1/src/poly.c
GraspPlanning/ExternalDependencies/qhull-2003.1/src/qset.c
GraspPlanning/ExternalDependencies/qhull-2003.1/src/mem.c
GraspPlanning/ExternalDependencies/qhull-2003.1/src/qhull.c
