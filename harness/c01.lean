VirtualRobot/CollisionDetection/CollisionChecker.cpp
VirtualRobot/CollisionDetection/CollisionModel.cpp
VirtualRobot/EndEffector/EndEffector.cpp
VirtualRobot/EndEffector/EndEffectorActor.cpp
VirtualRobot/Nodes/RobotNode.cpp
VirtualRobot/Nodes/RobotNodePrismatic.cpp
VirtualRobot/Nodes/RobotNodePrismaticFactory.cpp
VirtualRobot/Nodes/RobotNodeRevolute.cpp
VirtualRobot/Nodes/RobotNodeRevoluteFactory.cpp
VirtualRobot/Nodes/RobotNodeFixed.cpp
VirtualRobot/Nodes/RobotNodeFixedFactory.cpp
VirtualRobot/Nodes/Sensor.cpp
VirtualRobot/Nodes/PositionSensor.cpp
VirtualRobot/Nodes/ForceTorqueSensor.cpp
VirtualRobot/Nodes/ContactSensor.cpp
VirtualRobot/Nodes/CameraSensor.cpp
VirtualRobot/Nodes/PositionSensorFactory.cpp
VirtualRobot/Nodes/ForceTorqueSensorFactory.cpp
VirtualRobot/Nodes/ContactSensorFactory.cpp
VirtualRobot/Nodes/CameraSensorFactory.cpp
VirtualRobot/Visualization/VisualizationNode.cpp
VirtualRobot/Visualization/TriMeshModel.cpp
VirtualRobot/XML/BaseIO.cpp
VirtualRobot/XML/RobotIO.cpp
VirtualRobot/XML/mjcf/MasslessBodySanitizer.cpp
VirtualRobot/XML/mjcf/MjcfDocument.cpp
VirtualRobot/XML/mjcf/MujocoIO.cpp
VirtualRobot/XML/mjcf/utils.cpp
VirtualRobot/MathTools.cpp
VirtualRobot/Robot.cpp
VirtualRobot/RobotConfig.cpp
VirtualRobot/RobotNodeSet.cpp
VirtualRobot/Trajectory.cpp
VirtualRobot/RobotFactory.cpp
VirtualRobot/SceneObject.cpp
VirtualRobot/SceneObjectSet.cpp
VirtualRobot/Obstacle.cpp
VirtualRobot/Primitive.cpp
VirtualRobot/VirtualRobotException.cpp
VirtualRobot/BoundingBox.cpp
VirtualRobot/RuntimeEnvironment.cpp
VirtualRobot/Random.cpp
VirtualRobot/Import/SimoxXMLFactory.cpp
VirtualRobot/math/Helpers.cpp
VirtualRobot/math/LinearInterpolatedOrientation.cpp
VirtualRobot/Util/xml/tinyxml2.cpp
VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp
VirtualRobot/CollisionDetection/PQP/CollisionModelPQP.cpp
VirtualRobot/CollisionDetection/PQP/PQP++/BV.cpp
VirtualRobot/CollisionDetection/PQP/PQP++/Build.cpp
VirtualRobot/CollisionDetection/PQP/PQP++/PQP.cpp
VirtualRobot/CollisionDetection/PQP/PQP++/TriDist.cpp
