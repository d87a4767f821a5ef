From 63cef4971b856fee715a7e1ce9d6010ec0041432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 01/49] fix: hold the robot's lock for the whole update (locks
 were unnamed temporaries)

---
 VirtualRobot/Robot.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/VirtualRobot/Robot.cpp b/VirtualRobot/Robot.cpp
index b8e226a..d76cb1a 100644
--- a/VirtualRobot/Robot.cpp
+++ b/VirtualRobot/Robot.cpp
@@ -418,7 +418,7 @@ namespace VirtualRobot
      */
     void Robot::applyJointValues()
     {
-        WriteLock(mutex, use_mutex);
+        WriteLock lock(mutex, use_mutex);
         this->getRootNode()->updatePose(this->getGlobalPose());
     }
 
@@ -667,7 +667,7 @@ namespace VirtualRobot
 
     void LocalRobot::setGlobalPose(const Eigen::Matrix4f& globalPose, bool applyJointValues /*= true*/)
     {
-        WriteLock(mutex, use_mutex);
+        WriteLock lock(mutex, use_mutex);
         this->globalPose = globalPose;
 
         if (applyJointValues)
@@ -678,7 +678,7 @@ namespace VirtualRobot
 
     Eigen::Matrix4f LocalRobot::getGlobalPose() const
     {
-        ReadLock(mutex, use_mutex);
+        ReadLock lock(mutex, use_mutex);
         return globalPose;
     }
 
@@ -992,7 +992,7 @@ namespace VirtualRobot
 
     void Robot::setJointValues(const std::map< std::string, float >& jointValues)
     {
-        WriteLock(mutex, use_mutex);
+        WriteLock lock(mutex, use_mutex);
 
         std::map< std::string, float >::const_iterator it = jointValues.begin();
 
@@ -1014,7 +1014,7 @@ namespace VirtualRobot
 
     void Robot::setJointValues(const std::map<RobotNodePtr, float>& jointValues)
     {
-        WriteLock(mutex, use_mutex);
+        WriteLock lock(mutex, use_mutex);
 
         std::map< RobotNodePtr, float >::const_iterator it = jointValues.begin();
 
@@ -1064,7 +1064,7 @@ namespace VirtualRobot
     void Robot::setJointValues(const std::vector<RobotNodePtr> rn, const std::vector<float>& jointValues)
     {
         VR_ASSERT(rn.size() == jointValues.size());
-        WriteLock(mutex, use_mutex);
+        WriteLock lock(mutex, use_mutex);
 
         for (size_t i = 0; i < rn.size(); i++)
         {
-- 
2.43.0


From 43ac310088ac6d07c5b5546827378f7725584ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 02/49] fix: read joint values, configurations and copies of a
 robot under one lock

---
 VirtualRobot/Robot.cpp        |  4 ++++
 VirtualRobot/RobotNodeSet.cpp | 16 ++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/VirtualRobot/Robot.cpp b/VirtualRobot/Robot.cpp
index d76cb1a..e20726d 100644
--- a/VirtualRobot/Robot.cpp
+++ b/VirtualRobot/Robot.cpp
@@ -754,6 +754,8 @@ namespace VirtualRobot
         THROW_VR_EXCEPTION_IF(!hasRobotNode(startJoint), " StartJoint '" + startJoint->getName() + "' is not part of this robot '" + getName() + "'");
         THROW_VR_EXCEPTION_IF(scaling <= 0, " Scaling must be >0.");
 
+        // the copy has to show one state of this robot
+        ReadLockPtr lock = getReadLock();
         CollisionCheckerPtr colChecker = collisionChecker;
 
         if (!colChecker)
@@ -879,6 +881,7 @@ namespace VirtualRobot
 
     VirtualRobot::RobotPtr Robot::clone(const std::string& name, CollisionCheckerPtr collisionChecker, float scaling)
     {
+        ReadLockPtr lock = getReadLock();
         VirtualRobot::RobotPtr result = extractSubPart(this->getRootNode(), this->getType(), name, true, true, collisionChecker, scaling);
         result->setGlobalPose(getGlobalPose());
         result->filename = filename;
@@ -913,6 +916,7 @@ namespace VirtualRobot
 
     VirtualRobot::RobotConfigPtr Robot::getConfig()
     {
+        ReadLockPtr lock = getReadLock();
         RobotConfigPtr r(new RobotConfig(shared_from_this(), getName()));
 
         std::vector<RobotNodePtr> robotNodes = this->getRobotNodes();
diff --git a/VirtualRobot/RobotNodeSet.cpp b/VirtualRobot/RobotNodeSet.cpp
index 38cc155..9abcbf6 100644
--- a/VirtualRobot/RobotNodeSet.cpp
+++ b/VirtualRobot/RobotNodeSet.cpp
@@ -342,12 +342,20 @@ namespace VirtualRobot
 
     void RobotNodeSet::getJointValues(std::vector<float>& fillVector) const
     {
+        // all values have to belong to one state of the robot
+        RobotPtr rob = robot.lock();
+        ReadLockPtr lock = rob ? rob->getReadLock() : ReadLockPtr();
+
         fillVector.resize(robotNodes.size());
         std::transform(robotNodes.begin(), robotNodes.end(), fillVector.begin(), boost::mem_fn(&RobotNode::getJointValue));
     }
 
     void RobotNodeSet::getJointValues(Eigen::VectorXf& fillVector) const
     {
+        // all values have to belong to one state of the robot
+        RobotPtr rob = robot.lock();
+        ReadLockPtr lock = rob ? rob->getReadLock() : ReadLockPtr();
+
         fillVector.resize(robotNodes.size());
 
         for (size_t i = 0; i < robotNodes.size(); i++)
@@ -361,6 +369,10 @@ namespace VirtualRobot
     {
         THROW_VR_EXCEPTION_IF(!fillVector, "NULL data");
 
+        // all values have to belong to one state of the robot
+        RobotPtr rob = robot.lock();
+        ReadLockPtr lock = rob ? rob->getReadLock() : ReadLockPtr();
+
         for (const auto & robotNode : robotNodes)
         {
             fillVector->setConfig(robotNode->getName(), robotNode->getJointValue());
@@ -369,6 +381,10 @@ namespace VirtualRobot
 
     std::map<std::string, float> RobotNodeSet::getJointValueMap() const
     {
+        // all values have to belong to one state of the robot
+        RobotPtr rob = robot.lock();
+        ReadLockPtr lock = rob ? rob->getReadLock() : ReadLockPtr();
+
         std::map<std::string, float> res;
         for (auto n: robotNodes)
         {
-- 
2.43.0


From 0302de8aeedddc5d5316f75525233432dc161c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:37 +0000
Subject: [PATCH 03/49] fix: move a robot to a node pose under one lock

---
 VirtualRobot/Robot.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/VirtualRobot/Robot.cpp b/VirtualRobot/Robot.cpp
index e20726d..86f2683 100644
--- a/VirtualRobot/Robot.cpp
+++ b/VirtualRobot/Robot.cpp
@@ -832,6 +832,7 @@ namespace VirtualRobot
             const RobotNodePtr& node, const Eigen::Matrix4f& globalPoseNode) const
     {
         THROW_VR_EXCEPTION_IF(!node, "NULL node");
+        ReadLock lock(mutex, use_mutex);
         
         if (math::Helpers::Orientation(globalPoseNode).isIdentity())
         {
@@ -856,6 +857,7 @@ namespace VirtualRobot
             const RobotNodePtr& node, const Eigen::Matrix4f& globalPoseNode)
     {
         THROW_VR_EXCEPTION_IF(!node, "NULL node");
+        WriteLock lock(mutex, use_mutex);
         
         setGlobalPose(getGlobalPoseForRobotNode(node, globalPoseNode));
     }
@@ -863,6 +865,8 @@ namespace VirtualRobot
     Eigen::Matrix4f Robot::getGlobalPositionForRobotNode(
             const RobotNodePtr& node, const Eigen::Vector3f& globalPositionNode) const
     {
+        ReadLock lock(mutex, use_mutex);
+
         // get translation from current to wanted tcp pose
         const Eigen::Vector3f translation = globalPositionNode - node->getGlobalPosition();
 
@@ -875,6 +879,7 @@ namespace VirtualRobot
     void Robot::setGlobalPositionForRobotNode(
             const RobotNodePtr& node, const Eigen::Vector3f& globalPositionNode)
     {
+        WriteLock lock(mutex, use_mutex);
         setGlobalPose(getGlobalPositionForRobotNode(node, globalPositionNode));
     }
     
-- 
2.43.0


From 6d93e9e1bfe8eb30ed37ba634707cfd19c1d53b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:55 +0000
Subject: [PATCH 04/49] fix: add random workspace poses from several threads
 without losing any

addPose() updated the extents, counters and voxels of the shared map without
a lock, the remainder of loops / numThreads was dropped, more threads than
poses (or none) did nothing or divided by zero, and an exception in a worker
ended the process. Manipulability reloaded the robot from its file, ignoring
its current pose, and measured self distances on the shared robot.
---
 VirtualRobot/Workspace/Manipulability.cpp     | 56 ++++++---------
 .../Workspace/WorkspaceRepresentation.cpp     | 72 +++++++++++++++----
 .../Workspace/WorkspaceRepresentation.h       | 12 ++++
 3 files changed, 91 insertions(+), 49 deletions(-)

diff --git a/VirtualRobot/Workspace/Manipulability.cpp b/VirtualRobot/Workspace/Manipulability.cpp
index 721129f..410febf 100644
--- a/VirtualRobot/Workspace/Manipulability.cpp
+++ b/VirtualRobot/Workspace/Manipulability.cpp
@@ -52,6 +52,13 @@ namespace VirtualRobot
         matrix2Vector(p, x);
         //MathTools::eigen4f2rpy(p,x);
 
+        // get voxels
+        unsigned int v[6];
+        const bool covered = getVoxelFromPose(x, v);
+        const float m = covered ? getCurrentManipulability(qualMeasure, selfDistSt, selfDistDyn) : 0.0f;
+
+        std::lock_guard<std::mutex> lock(addPoseMutex);
+
         // check for achieved values
         for (int i = 0; i < 6; i++)
         {
@@ -66,12 +73,8 @@ namespace VirtualRobot
             }
         }
 
-        // get voxels
-        unsigned int v[6];
-
-        if (getVoxelFromPose(x, v))
+        if (covered)
         {
-            float m = getCurrentManipulability(qualMeasure, selfDistSt, selfDistDyn);
             float mSc = m / maxManip;
 
             if (mSc > 1)
@@ -127,22 +130,23 @@ namespace VirtualRobot
         if (!selfDistDyn)
             selfDistDyn = selfDistDynamic;
 
-        if (considerSelfDist && selfDistStatic && selfDistDynamic)
+        if (considerSelfDist && selfDistSt && selfDistDyn)
         {
             int id1;
             int id2;
             Eigen::Vector3f p1;
             Eigen::Vector3f p2;
-            /*float d =*/ selfDistStatic->getCollisionChecker()->calculateDistance(selfDistStatic, selfDistDynamic, p1, p2, &id1, &id2);
+            /*float d =*/ selfDistSt->getCollisionChecker()->calculateDistance(selfDistSt, selfDistDyn, p1, p2, &id1, &id2);
             //cout << "#### dist:" << d << ", ";
             Eigen::Matrix4f obstDistPos1 = Eigen::Matrix4f::Identity();
             Eigen::Matrix4f obstDistPos2 = Eigen::Matrix4f::Identity();
             obstDistPos1.block(0, 3, 3, 1) = p1;
             obstDistPos2.block(0, 3, 3, 1) = p2;
 
-            // transform to tcp
-            Eigen::Matrix4f p1_tcp = tcpNode->toLocalCoordinateSystem(obstDistPos1);
-            Eigen::Matrix4f p2_tcp = tcpNode->toLocalCoordinateSystem(obstDistPos2);
+            // transform to tcp (of the robot that is evaluated, which may be a copy)
+            RobotNodePtr tcp = selfDistDyn->getRobot()->getRobotNode(tcpNode->getName());
+            Eigen::Matrix4f p1_tcp = tcp->toLocalCoordinateSystem(obstDistPos1);
+            Eigen::Matrix4f p2_tcp = tcp->toLocalCoordinateSystem(obstDistPos2);
             Eigen::Vector3f minDistVector = p1_tcp.block(0, 3, 3, 1) - p2_tcp.block(0, 3, 3, 1);
 
             qualMeasure->setObstacleDistanceVector(minDistVector);
@@ -745,23 +749,11 @@ namespace VirtualRobot
     {
         THROW_VR_EXCEPTION_IF(!data || !nodeSet || !tcpNode || !measure, "Workspace data not initialized");
 
-        if (numThreads > loops)
-        {
-            VR_ERROR << "Number of threads can not be bigger then number of tcp poses to add.";
-            return;
-        }
-
-        std::vector<std::thread> threads(numThreads);
-        unsigned int numPosesPerThread = loops / numThreads; // todo
-
-        for (int i = 0; i < numThreads; i++)
-        {
-            // each thread gets a cloned robot
-            CollisionCheckerPtr cc(new CollisionChecker());
-            RobotPtr clonedRobot = VirtualRobot::RobotIO::loadRobot(this->robot->getFilename(), RobotIO::eCollisionModel);
-            threads[i] = std::thread([=] ()
+        runInThreads(loops, numThreads, [=] (unsigned int i, unsigned int numPosesPerThread)
             {
-
+                // each thread gets a cloned robot
+                CollisionCheckerPtr cc(new CollisionChecker());
+                RobotPtr clonedRobot = this->robot->clone("clonedRobot_" + std::to_string(i), cc);
                 clonedRobot->setUpdateVisualization(false);
                 RobotNodeSetPtr clonedNodeSet = clonedRobot->getRobotNodeSet(this->nodeSet->getName());
                 RobotNodePtr clonedTcpNode = clonedRobot->getRobotNode(this->tcpNode->getName());
@@ -829,7 +821,10 @@ namespace VirtualRobot
                             break;
                         }
 
-                        this->collisionConfigs++;
+                        {
+                            std::lock_guard<std::mutex> lock(addPoseMutex);
+                            this->collisionConfigs++;
+                        }
                     }
 
                     if (successfullyRandomized)
@@ -844,13 +839,6 @@ namespace VirtualRobot
                 }
                 VR_INFO << "Thread " << i << " finished" << std::endl;
             });
-        }
-
-        // wait for all threads to finish
-        for (int i = 0; i < numThreads; i++)
-        {
-            threads[i].join();
-        }
     }
 
 } // namespace VirtualRobot
diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index 99f3d32..5ca25cf 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -18,6 +18,8 @@
 #include <cmath>
 #include <cfloat>
 #include <climits>
+#include <algorithm>
+#include <exception>
 #include <thread>
 
 namespace VirtualRobot
@@ -944,6 +946,8 @@ namespace VirtualRobot
         matrix2Vector(p, x);
         //MathTools::eigen4f2rpy(p,x);
 
+        std::lock_guard<std::mutex> lock(addPoseMutex);
+
         // check for achieved values
         for (int i = 0; i < 6; i++)
         {
@@ -2174,18 +2178,7 @@ namespace VirtualRobot
     {
         THROW_VR_EXCEPTION_IF(!data || !nodeSet || !tcpNode, "Workspace data not initialized");
 
-        if (numThreads > loops)
-        {
-            VR_ERROR << "Number of threads can not be bigger then number of tcp poses to add.";
-            return;
-        }
-
-        std::vector<std::thread> threads(numThreads);
-        unsigned int numPosesPerThread = loops / numThreads; // todo
-
-        for (int i = 0; i < numThreads; i++)
-        {
-            threads[i] = std::thread([=] ()
+        runInThreads(loops, numThreads, [=] (unsigned int i, unsigned int numPosesPerThread)
             {
                 // each thread gets a cloned robot
                 CollisionCheckerPtr cc(new CollisionChecker());
@@ -2241,7 +2234,10 @@ namespace VirtualRobot
                             break;
                         }
 
-                        this->collisionConfigs++;
+                        {
+                            std::lock_guard<std::mutex> lock(addPoseMutex);
+                            this->collisionConfigs++;
+                        }
                     }
 
                     if (successfullyRandomized)
@@ -2255,12 +2251,58 @@ namespace VirtualRobot
                     }
                 }
             });
+    }
+
+    void WorkspaceRepresentation::runInThreads(unsigned int loops, unsigned int numThreads, const std::function<void(unsigned int, unsigned int)>& worker)
+    {
+        numThreads = std::max(1u, std::min(numThreads, loops));
+
+        std::vector<std::thread> threads(numThreads);
+        std::vector<std::exception_ptr> errors(numThreads);
+
+        for (unsigned int i = 0; i < numThreads; i++)
+        {
+            // the remainder is distributed among the first threads
+            const unsigned int numPoses = loops / numThreads + (i < loops % numThreads ? 1 : 0);
+
+            auto run = [&worker, &errors, i, numPoses]()
+            {
+                try
+                {
+                    worker(i, numPoses);
+                }
+                catch (...)
+                {
+                    errors[i] = std::current_exception();
+                }
+            };
+
+            try
+            {
+                threads[i] = std::thread(run);
+            }
+            catch (...)
+            {
+                // no (further) thread could be created
+                run();
+            }
         }
 
         // wait for all threads to finish
-        for (int i = 0; i < numThreads; i++)
+        for (auto& t : threads)
+        {
+            if (t.joinable())
+            {
+                t.join();
+            }
+        }
+
+        for (auto& e : errors)
         {
-            threads[i].join();
+            if (e)
+            {
+                std::rethrow_exception(e);
+            }
         }
     }
 
diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.h b/VirtualRobot/Workspace/WorkspaceRepresentation.h
index f486dc6..c92d2cc 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.h
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.h
@@ -29,6 +29,8 @@
 #include "../XML/FileIO.h"
 
 #include <vector>
+#include <functional>
+#include <mutex>
 
 #include <Eigen/Core>
 #include <Eigen/Geometry>
@@ -438,6 +440,13 @@ namespace VirtualRobot
             return true;
         }
 
+        /*!
+            Distributes the loops among numThreads threads and returns when all of them are done.
+            If a worker throws, the (first) exception is passed on to the caller after all threads finished.
+            \param worker Is called with the index of the thread and the number of poses it has to add.
+        */
+        void runInThreads(unsigned int loops, unsigned int numThreads, const std::function<void(unsigned int, unsigned int)>& worker);
+
         virtual void customInitialize() {}
         virtual void customPrint() {}
 
@@ -489,6 +498,9 @@ namespace VirtualRobot
         int versionMajor;
         int versionMinor;
 
+        //! Protects the data while poses are added by several threads
+        std::mutex addPoseMutex;
+
         //! Specifies how the rotation part (x[3],x[4],x[5]) of an 6D voxel entry is encoded.
         eOrientationType orientationType;
 
-- 
2.43.0


From 4f7e9cf2b4eadbac9eaa341cb2fcf2bf33503686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:23 +0000
Subject: [PATCH 05/49] fix: compressed streams: report failed (not only bad)
 streams, release the state after write errors, do not read past the selector
 table, reading at the end returns nothing

---
 VirtualRobot/Compression/CompressionBZip2.cpp | 54 +++++++++++++------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/VirtualRobot/Compression/CompressionBZip2.cpp b/VirtualRobot/Compression/CompressionBZip2.cpp
index 74a0604..81d59e8 100644
--- a/VirtualRobot/Compression/CompressionBZip2.cpp
+++ b/VirtualRobot/Compression/CompressionBZip2.cpp
@@ -3454,7 +3454,16 @@ case lll: s->state = lll;                      \
                         }
                     }
 
-                    s->selectorMtf[i] = j;
+                    // more selectors than there can be are ignored (as of bzip2 1.0.8)
+                    if (i < BZ_MAX_SELECTORS)
+                    {
+                        s->selectorMtf[i] = j;
+                    }
+                }
+
+                if (nSelectors > BZ_MAX_SELECTORS)
+                {
+                    nSelectors = BZ_MAX_SELECTORS;
                 }
 
                 /*--- Undo the MTF values for the selectors. ---*/
@@ -4247,7 +4256,7 @@ save_state_and_return:
             return;
         };
 
-        if (!bzf->handleOut || bzf->handleOut->bad())
+        if (!bzf->handleOut || bzf->handleOut->fail())
         {
             BZ_SETERR(BZ_IO_ERROR);
             return;
@@ -4283,7 +4292,7 @@ save_state_and_return:
                 //              n, bzf->handle );
                 bool ok = write(bzf->handleOut, (bzf->buf), n);
 
-                if (!ok || bzf->handleOut->bad())
+                if (!ok || bzf->handleOut->fail())
                 {
                     BZ_SETERR(BZ_IO_ERROR);
                     return;
@@ -4337,9 +4346,11 @@ save_state_and_return:
         };
 
         // if (ferror(bzf->handle))
-        if (!bzf->handleOut || bzf->handleOut->bad())
+        if (!bzf->handleOut || bzf->handleOut->fail())
         {
             BZ_SETERR(BZ_IO_ERROR);
+            BZ2_bzCompressEnd(&(bzf->strm));
+            free(bzf);
             return;
         };
 
@@ -4374,6 +4385,8 @@ save_state_and_return:
                 if (ret != BZ_FINISH_OK && ret != BZ_STREAM_END)
                 {
                     BZ_SETERR(ret);
+                    BZ2_bzCompressEnd(&(bzf->strm));
+                    free(bzf);
                     return;
                 };
 
@@ -4382,9 +4395,11 @@ save_state_and_return:
                     n = BZ_MAX_UNUSED - bzf->strm.avail_out;
                     bool ok = write(bzf->handleOut, (bzf->buf), n);
 
-                    if (!ok || bzf->handleOut->bad())
+                    if (!ok || bzf->handleOut->fail())
                     {
                         BZ_SETERR(BZ_IO_ERROR);
+                        BZ2_bzCompressEnd(&(bzf->strm));
+                        free(bzf);
                         return;
                     };
                 }
@@ -4396,14 +4411,16 @@ save_state_and_return:
             }
         }
 
-        if (!abandon && !bzf->handleOut->bad())
+        if (!abandon && !bzf->handleOut->fail())
         {
             //fflush ( bzf->handle );
             bzf->handleOut->flush();
 
-            if (bzf->handleOut->bad())
+            if (bzf->handleOut->fail())
             {
                 BZ_SETERR(BZ_IO_ERROR);
+                BZ2_bzCompressEnd(&(bzf->strm));
+                free(bzf);
                 return;
             };
         }
@@ -5043,7 +5060,7 @@ preswitch:
         while (BZ_True)
         {
 
-            if (!bzf->handleIn || bzf->handleIn->bad())
+            if (!bzf->handleIn || bzf->handleIn->bad() || (bzf->handleIn->fail() && !bzf->handleIn->eof()))
             {
                 BZ_SETERR(BZ_IO_ERROR);
                 return 0;
@@ -5057,7 +5074,7 @@ preswitch:
                         */
                 n = read(bzf->buf, BZ_MAX_UNUSED, bzf->handleIn);
 
-                if (bzf->handleIn->bad())
+                if (bzf->handleIn->bad() || (bzf->handleIn->fail() && !bzf->handleIn->eof()))
                 {
                     BZ_SETERR(BZ_IO_ERROR);
                     return 0;
@@ -5111,16 +5128,13 @@ preswitch:
             return BZ_True;
         }
 
-        char c;
-        f->get(c);
-
-        if (f->eof())
+        // note that the stream may not support putting back characters
+        if (f->good())
         {
-            return BZ_True;
+            f->peek();
         }
 
-        f->unget();
-        return BZ_False;
+        return f->eof() ? BZ_True : BZ_False;
     }
 
     /*---------------------------------------------------*/
@@ -5885,11 +5899,19 @@ return_notr:
             return false;
         }
 
+        storeLengthRead = 0;
+
         if (!bzFileData)
         {
             return false;
         }
 
+        if (currentError == BZ_STREAM_END)
+        {
+            // end of data was already reached
+            return true;
+        }
+
         storeLengthRead = BZ2_bzRead(&currentError, bzFileData, buf, maxLen);
 
         if (currentError < 0) //== BZ_IO_ERROR) {
-- 
2.43.0


From e9ff6de8a8485679a83c248853c6e10b2df5e4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:55 +0000
Subject: [PATCH 06/49] fix: workspace files: saving reports write errors,
 loading rejects truncated and damaged files and keeps the current contents
 then

---
 VirtualRobot/Compression/CompressionRLE.cpp   |  57 ++++++
 VirtualRobot/Compression/CompressionRLE.h     |   6 +
 VirtualRobot/Workspace/Manipulability.cpp     |  41 +++-
 VirtualRobot/Workspace/Manipulability.h       |   2 +
 VirtualRobot/Workspace/WorkspaceDataArray.cpp |  21 +-
 .../Workspace/WorkspaceRepresentation.cpp     | 186 ++++++++++++------
 .../Workspace/WorkspaceRepresentation.h       |  28 ++-
 VirtualRobot/XML/FileIO.h                     |  32 ++-
 8 files changed, 291 insertions(+), 82 deletions(-)

diff --git a/VirtualRobot/Compression/CompressionRLE.cpp b/VirtualRobot/Compression/CompressionRLE.cpp
index 5ac5151..c44be80 100644
--- a/VirtualRobot/Compression/CompressionRLE.cpp
+++ b/VirtualRobot/Compression/CompressionRLE.cpp
@@ -350,4 +350,61 @@ namespace VirtualRobot
         while (inpos < insize);
     }
 
+    bool CompressionRLE::RLE_Uncompress(const unsigned char* in, unsigned char* out,
+                                        unsigned int insize, unsigned int outsize)
+    {
+        // check the block without writing anything
+        unsigned int inpos = 1;
+        unsigned int outpos = 0;
+
+        while (inpos < insize && outpos <= outsize)
+        {
+            if (in[inpos++] != in[0])
+            {
+                outpos++;
+                continue;
+            }
+
+            if (inpos >= insize)
+            {
+                return false;
+            }
+
+            unsigned int count = in[inpos++];
+
+            if (count > 2)
+            {
+                // second byte of the count (if any), symbol
+                const unsigned int needed = (count & 0x80) ? 2 : 1;
+
+                if (insize - inpos < needed)
+                {
+                    return false;
+                }
+
+                if (count & 0x80)
+                {
+                    count = ((count & 0x7f) << 8) + in[inpos];
+                }
+
+                inpos += needed;
+            }
+
+            outpos += count + 1;
+        }
+
+        if (inpos < insize || outpos != outsize)
+        {
+            return false;
+        }
+
+        // a marker without data
+        if (insize >= 2)
+        {
+            RLE_Uncompress(in, out, insize);
+        }
+
+        return true;
+    }
+
 }
diff --git a/VirtualRobot/Compression/CompressionRLE.h b/VirtualRobot/Compression/CompressionRLE.h
index 936d983..a6e4e76 100644
--- a/VirtualRobot/Compression/CompressionRLE.h
+++ b/VirtualRobot/Compression/CompressionRLE.h
@@ -54,6 +54,12 @@ namespace VirtualRobot
         *************************************************************************/
         static void RLE_Uncompress(const unsigned char* in, unsigned char* out, unsigned int insize);
 
+        /*************************************************************************
+        * RLE_Uncompress() - Uncompress a block of data that must result in exactly
+        *  outsize bytes. Returns false (and stays within the buffers) otherwise.
+        *************************************************************************/
+        static bool RLE_Uncompress(const unsigned char* in, unsigned char* out, unsigned int insize, unsigned int outsize);
+
     protected:
         static void _RLE_WriteRep(unsigned char* out, unsigned int* outpos, unsigned char marker, unsigned char symbol, unsigned int count);
         static void _RLE_WriteNonRep(unsigned char* out, unsigned int* outpos, unsigned char marker, unsigned char symbol);
diff --git a/VirtualRobot/Workspace/Manipulability.cpp b/VirtualRobot/Workspace/Manipulability.cpp
index 410febf..edba0de 100644
--- a/VirtualRobot/Workspace/Manipulability.cpp
+++ b/VirtualRobot/Workspace/Manipulability.cpp
@@ -294,6 +294,40 @@ namespace VirtualRobot
             selfDistBeta = FileIO::read<float>(file);
         }
 
+        return true;
+    }
+
+    void Manipulability::load(const std::string& filename)
+    {
+        // if loading fails everything remains as it is
+        const PoseQualityMeasurementPtr oldMeasure = measure;
+        const float oldMaxManip = maxManip;
+        const std::string oldMeasureName = measureName;
+        const bool oldConsiderJL = considerJL;
+        const bool oldConsiderSelfDist = considerSelfDist;
+        const RobotNodeSetPtr oldSelfDistStatic = selfDistStatic;
+        const RobotNodeSetPtr oldSelfDistDynamic = selfDistDynamic;
+        const float oldSelfDistAlpha = selfDistAlpha;
+        const float oldSelfDistBeta = selfDistBeta;
+
+        try
+        {
+            WorkspaceRepresentation::load(filename);
+        }
+        catch (...)
+        {
+            measure = oldMeasure;
+            maxManip = oldMaxManip;
+            measureName = oldMeasureName;
+            considerJL = oldConsiderJL;
+            considerSelfDist = oldConsiderSelfDist;
+            selfDistStatic = oldSelfDistStatic;
+            selfDistDynamic = oldSelfDistDynamic;
+            selfDistAlpha = oldSelfDistAlpha;
+            selfDistBeta = oldSelfDistBeta;
+            throw;
+        }
+
         // init self dist
         if (considerSelfDist)
         {
@@ -304,8 +338,6 @@ namespace VirtualRobot
                 pqm->considerObstacles(true, selfDistAlpha, selfDistBeta);
             }
         }
-
-        return true;
     }
 
 
@@ -352,6 +384,11 @@ namespace VirtualRobot
 
         FileIO::writeString(file, selfDistRNS2);
 
+        if (versionMajor < 2 || (versionMajor == 2 && versionMinor < 9))
+        {
+            return true;
+        }
+
         // since 2.9: alpha and beta for self dist
         float selfDistA = 0.0f;
         float selfDistB = 0.0f;
diff --git a/VirtualRobot/Workspace/Manipulability.h b/VirtualRobot/Workspace/Manipulability.h
index f319258..926c3ff 100644
--- a/VirtualRobot/Workspace/Manipulability.h
+++ b/VirtualRobot/Workspace/Manipulability.h
@@ -54,6 +54,8 @@ namespace VirtualRobot
 
         Manipulability(RobotPtr robot);
 
+        void load(const std::string& filename) override;
+
 
         struct ManipulabiliyGrasp
         {
diff --git a/VirtualRobot/Workspace/WorkspaceDataArray.cpp b/VirtualRobot/Workspace/WorkspaceDataArray.cpp
index 5a888dc..67c7f3d 100644
--- a/VirtualRobot/Workspace/WorkspaceDataArray.cpp
+++ b/VirtualRobot/Workspace/WorkspaceDataArray.cpp
@@ -1,4 +1,5 @@
 #include "WorkspaceDataArray.h"
+#include "../VirtualRobotException.h"
 
 #include <fstream>
 #include <cmath>
@@ -24,10 +25,7 @@ namespace VirtualRobot
         sizeRot0 = sizes[4] * sizes[5];
         sizeRot1 = sizes[5];
 
-        if (sizeRot > UINT_MAX || sizeTr > UINT_MAX)
-        {
-            VR_ERROR << "Could not assign " << sizeRot << " bytes of memory (>UINT_MAX). Reduce size of reachability space..." << endl;
-        }
+        THROW_VR_EXCEPTION_IF(sizeRot > UINT_MAX || sizeTr > UINT_MAX, "Could not assign " << sizeRot << " bytes of memory (>UINT_MAX). Reduce size of reachability space...");
 
         try
         {
@@ -77,10 +75,7 @@ namespace VirtualRobot
         sizeRot0 = sizes[4] * sizes[5];
         sizeRot1 = sizes[5];
 
-        if (sizeRot > UINT_MAX || sizeTr > UINT_MAX)
-        {
-            VR_ERROR << "Could not assign " << sizeRot << " bytes of memory (>UINT_MAX). Reduce size of reachability space..." << endl;
-        }
+        THROW_VR_EXCEPTION_IF(sizeRot > UINT_MAX || sizeTr > UINT_MAX, "Could not assign " << sizeRot << " bytes of memory (>UINT_MAX). Reduce size of reachability space...");
 
         try
         {
@@ -538,8 +533,7 @@ namespace VirtualRobot
                 }
         delete []compressedData;*/
         CompressionBZip2Ptr bzip2(new CompressionBZip2(&file));
-        unsigned char* emptyData = new unsigned char[getSizeRot()];
-        memset(emptyData, 0, getSizeRot() * sizeof(unsigned char));
+        std::vector<unsigned char> emptyData(getSizeRot(), 0);
 
         for (unsigned int x = 0; x < sizes[0]; x++)
             for (unsigned int y = 0; y < sizes[1]; y++)
@@ -554,7 +548,7 @@ namespace VirtualRobot
                     }
                     else
                     {
-                        dataBlock = (void*) emptyData;
+                        dataBlock = (void*) emptyData.data();
                     }
 
                     if (!bzip2->write(dataBlock, getSizeRot() * sizeof(unsigned char)))
@@ -566,10 +560,7 @@ namespace VirtualRobot
                     }
                 }
 
-        delete [] emptyData;
-
-        bzip2->close();
-        return true;
+        return bzip2->close();
     }
 
 } // namespace VirtualRobot
diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index 5ca25cf..a560395 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -174,7 +174,10 @@ namespace VirtualRobot
     {
         std::ifstream file(filename.c_str(), std::ios::in | std::ios::binary);
         THROW_VR_EXCEPTION_IF(!file, "File could not be read.");
+        const Contents previous = getContents();
         reset();
+        // reading beyond the end of the file or read errors must not go unnoticed
+        file.exceptions(std::ios::failbit | std::ios::badbit);
 
         try
         {
@@ -334,56 +337,70 @@ namespace VirtualRobot
 
             if ((version[0] > 2) || (version[0] == 2 && version[1] >= 2))
             {
-                if (!customLoad(file))
-                {
-                    VR_ERROR << "Custom loading failed?!" << endl;
-                }
+                THROW_VR_EXCEPTION_IF(!customLoad(file), "Custom loading failed");
             }
 
             // Read Data
             FileIO::readString(tmpString, file);
             THROW_VR_EXCEPTION_IF(tmpString != "DATA_START", "Bad file format, expecting DATA_START.");
 
-            long size = numVoxels[0] * numVoxels[1] * numVoxels[2] * numVoxels[3] * numVoxels[4] * numVoxels[5];
+            // the sizes cannot be trusted
+            long long sizes[2] = {1, 1};
+
+            for (int i = 0; i < 6; i++)
+            {
+                long long& s = sizes[i / 3];
+                THROW_VR_EXCEPTION_IF(numVoxels[i] <= 0 || s * numVoxels[i] > (i < 3 ? (long long)UINT_MAX : (long long)INT_MAX), "Bad file format, invalid number of voxels");
+                s *= numVoxels[i];
+            }
+
+            const long long size = sizes[0] * sizes[1];
             data.reset(new WorkspaceDataArray(numVoxels[0], numVoxels[1], numVoxels[2], numVoxels[3], numVoxels[4], numVoxels[5], true));
 
             if (version[0] <= 1 || (version[0] == 2 && version[1] <= 3))
             {
                 // one data block
-                unsigned char* d = new unsigned char[size];
+                THROW_VR_EXCEPTION_IF(sizes[0] > INT_MAX / sizes[1], "Bad file format, invalid number of voxels");
+                std::vector<unsigned char> d(size);
 
                 if (version[0] == 1 && version[1] <= 2)
                 {
                     // Data is uncompressed
-                    FileIO::readArray<unsigned char>(d, size, file);
+                    FileIO::readArray<unsigned char>(d.data(), size, file);
                 }
                 else
                 {
                     // Data is compressed
                     int compressedSize = (int)(FileIO::read<ioIntTypeRead>(file));
-                    unsigned char* compressedData = new unsigned char[compressedSize];
-                    FileIO::readArray<unsigned char>(compressedData, compressedSize, file);
+                    THROW_VR_EXCEPTION_IF(compressedSize < 0 || compressedSize > 2 * size + 257, "Bad file format, invalid size of data");
+                    std::vector<unsigned char> compressedData(compressedSize);
+                    FileIO::readArray<unsigned char>(compressedData.data(), compressedSize, file);
 
                     if ((version[0] > 2) || (version[0] == 2 && version[1] >= 1))
                     {
-                        CompressionRLE::RLE_Uncompress(compressedData, d, compressedSize);
+                        THROW_VR_EXCEPTION_IF(!CompressionRLE::RLE_Uncompress(compressedData.data(), d.data(), compressedSize, size), "Bad file format, invalid data");
                     }
                     else
                     {
-                        uncompressData(compressedData, compressedSize, d);
-                    }
+                        long long uncompressedSize = 0;
+
+                        for (int i = 0; i + 1 < compressedSize; i += 2)
+                        {
+                            uncompressedSize += compressedData[i];
+                        }
 
-                    delete[] compressedData;
+                        THROW_VR_EXCEPTION_IF(uncompressedSize != size, "Bad file format, invalid data");
+                        uncompressData(compressedData.data(), compressedSize, d.data());
+                    }
                 }
 
                 // convert old data format
-                unsigned char* dRot;
                 unsigned int sizeX0 = numVoxels[1] * numVoxels[2] * numVoxels[3] * numVoxels[4] * numVoxels[5];
                 unsigned int sizeX1 = numVoxels[2] * numVoxels[3] * numVoxels[4] * numVoxels[5];
                 unsigned int sizeX2 = numVoxels[3] * numVoxels[4] * numVoxels[5];
                 unsigned int sizeX3 = numVoxels[4] * numVoxels[5];
                 unsigned int sizeX4 = numVoxels[5];
-                dRot = new unsigned char[numVoxels[3]*numVoxels[4]*numVoxels[5]];
+                std::vector<unsigned char> dRot(sizes[1]);
 
                 for (int x = 0; x < numVoxels[0]; x++)
                     for (int y = 0; y < numVoxels[1]; y++)
@@ -397,11 +414,9 @@ namespace VirtualRobot
                                             d[x * sizeX0 + y * sizeX1 + z * sizeX2 + a * sizeX3 + b * sizeX4 + c];
                                     }
 
-                            data->setDataRot(dRot, x, y, z);
+                            data->setDataRot(dRot.data(), x, y, z);
                         }
 
-                delete [] dRot;
-                delete[] d;
             }
             else
             {
@@ -418,28 +433,18 @@ namespace VirtualRobot
                 if (compressionBZIP2)
                 {
                     int dataSize = numVoxels[3] * numVoxels[4] * numVoxels[5];
-                    unsigned char* uncompressedData = new unsigned char[dataSize];
+                    std::vector<unsigned char> uncompressedData(dataSize);
+                    // the compression reads ahead and reports errors by itself
+                    file.exceptions(std::ios::goodbit);
                     CompressionBZip2Ptr bzip2(new CompressionBZip2(&file));
+                    int n;
 
                     for (int x = 0; x < numVoxels[0]; x++)
                         for (int y = 0; y < numVoxels[1]; y++)
                             for (int z = 0; z < numVoxels[2]; z++)
                             {
-                                int n;
-                                bool readOK = bzip2->read((void*)(uncompressedData), dataSize, n);
-
-                                if (!readOK || (n != dataSize && n != 0))
-                                {
-                                    VR_ERROR << "Invalid number of bytes?!" << endl;
-                                    bzip2->close();
-                                    file.close();
-                                    return;
-                                }
-
-                                if (n == 0) // no data in block
-                                {
-                                    continue;
-                                }
+                                bool readOK = bzip2->read((void*)(uncompressedData.data()), dataSize, n);
+                                THROW_VR_EXCEPTION_IF(!readOK || n != dataSize, "Bad file format, invalid number of bytes");
 
                                 // check if we need to set the data (avoid to allocate memory for empty data blocks)
                                 bool empty = true;
@@ -455,18 +460,21 @@ namespace VirtualRobot
 
                                 if (!empty)
                                 {
-                                    data->setDataRot(uncompressedData, x, y, z);
+                                    data->setDataRot(uncompressedData.data(), x, y, z);
                                 }
                             }
 
-                    delete[] uncompressedData;
+                    // there must not be any more data, its checksums are verified by this
+                    unsigned char end;
+                    THROW_VR_EXCEPTION_IF(!bzip2->read(&end, 1, n) || n != 0, "Bad file format, invalid end of data");
                     bzip2->close();
+                    file.exceptions(std::ios::failbit | std::ios::badbit);
                 }
                 else
                 {
-                    int maxCompressedSize = numVoxels[3] * numVoxels[4] * numVoxels[5] * 3;
-                    unsigned char* compressedData = new unsigned char[maxCompressedSize];
-                    unsigned char* uncompressedData = new unsigned char[numVoxels[3]*numVoxels[4]*numVoxels[5]];
+                    long long maxCompressedSize = sizes[1] * 3;
+                    std::vector<unsigned char> compressedData(maxCompressedSize);
+                    std::vector<unsigned char> uncompressedData(sizes[1]);
 
                     for (int x = 0; x < numVoxels[0]; x++)
                         for (int y = 0; y < numVoxels[1]; y++)
@@ -474,14 +482,12 @@ namespace VirtualRobot
                             {
                                 int compressedSize = (int)(FileIO::read<ioIntTypeRead>(file));
 
-                                FileIO::readArray<unsigned char>(compressedData, compressedSize, file);
+                                THROW_VR_EXCEPTION_IF(compressedSize < 0 || compressedSize > maxCompressedSize, "Bad file format, invalid size of data");
+                                FileIO::readArray<unsigned char>(compressedData.data(), compressedSize, file);
 
-                                CompressionRLE::RLE_Uncompress(compressedData, uncompressedData, compressedSize);
-                                data->setDataRot(uncompressedData, x, y, z);
+                                THROW_VR_EXCEPTION_IF(!CompressionRLE::RLE_Uncompress(compressedData.data(), uncompressedData.data(), compressedSize, sizes[1]), "Bad file format, invalid data");
+                                data->setDataRot(uncompressedData.data(), x, y, z);
                             }
-
-                    delete[] compressedData;
-                    delete[] uncompressedData;
                 }
             }
 
@@ -495,11 +501,77 @@ namespace VirtualRobot
         catch (VirtualRobotException& e)
         {
             VR_ERROR << e.what() << endl;
-            file.close();
+            setContents(previous);
             throw;
         }
+        catch (const std::ios_base::failure&)
+        {
+            setContents(previous);
+            THROW_VR_EXCEPTION("File could not be read completely: " << filename);
+        }
+        catch (...)
+        {
+            setContents(previous);
+            throw;
+        }
+    }
 
-        file.close();
+    WorkspaceRepresentation::Contents WorkspaceRepresentation::getContents() const
+    {
+        Contents c;
+        c.baseNode = baseNode;
+        c.tcpNode = tcpNode;
+        c.nodeSet = nodeSet;
+        c.staticCollisionModel = staticCollisionModel;
+        c.dynamicCollisionModel = dynamicCollisionModel;
+        c.buildUpLoops = buildUpLoops;
+        c.collisionConfigs = collisionConfigs;
+        c.discretizeStepTranslation = discretizeStepTranslation;
+        c.discretizeStepRotation = discretizeStepRotation;
+
+        for (int i = 0; i < 6; i++)
+        {
+            c.minBounds[i] = minBounds[i];
+            c.maxBounds[i] = maxBounds[i];
+            c.numVoxels[i] = numVoxels[i];
+            c.achievedMinValues[i] = achievedMinValues[i];
+            c.achievedMaxValues[i] = achievedMaxValues[i];
+            c.spaceSize[i] = spaceSize[i];
+        }
+
+        c.data = data;
+        c.versionMajor = versionMajor;
+        c.versionMinor = versionMinor;
+        c.orientationType = orientationType;
+        return c;
+    }
+
+    void WorkspaceRepresentation::setContents(const Contents& c)
+    {
+        baseNode = c.baseNode;
+        tcpNode = c.tcpNode;
+        nodeSet = c.nodeSet;
+        staticCollisionModel = c.staticCollisionModel;
+        dynamicCollisionModel = c.dynamicCollisionModel;
+        buildUpLoops = c.buildUpLoops;
+        collisionConfigs = c.collisionConfigs;
+        discretizeStepTranslation = c.discretizeStepTranslation;
+        discretizeStepRotation = c.discretizeStepRotation;
+
+        for (int i = 0; i < 6; i++)
+        {
+            minBounds[i] = c.minBounds[i];
+            maxBounds[i] = c.maxBounds[i];
+            numVoxels[i] = c.numVoxels[i];
+            achievedMinValues[i] = c.achievedMinValues[i];
+            achievedMaxValues[i] = c.achievedMaxValues[i];
+            spaceSize[i] = c.spaceSize[i];
+        }
+
+        data = c.data;
+        versionMajor = c.versionMajor;
+        versionMinor = c.versionMinor;
+        orientationType = c.orientationType;
     }
 
     void WorkspaceRepresentation::save(const std::string& filename)
@@ -518,6 +590,14 @@ namespace VirtualRobot
             FileIO::writeString(file, tmpStr);
 
             // Version
+            // If an old file was loaded, the encoding of the orientation, and hence the version, has to be kept.
+            // But the format of the data is always the one introduced with version 2.5.
+            if (versionMajor < 2 || (versionMajor == 2 && versionMinor < 5))
+            {
+                versionMajor = 2;
+                versionMinor = 5;
+            }
+
             FileIO::write<ioIntTypeWrite>(file, (ioIntTypeWrite)(versionMajor));
             FileIO::write<ioIntTypeWrite>(file, (ioIntTypeWrite)(versionMinor));
 
@@ -600,19 +680,12 @@ namespace VirtualRobot
                 FileIO::write<float>(file, achievedMaxValues[i]);
             }
 
-            if (!customSave(file))
-            {
-                VR_ERROR << "Custom saving failed?!" << endl;
-            }
+            THROW_VR_EXCEPTION_IF(!customSave(file), "Custom saving failed");
 
             // Data
             FileIO::writeString(file, "DATA_START");
 
-            if (!data->save(file))
-            {
-                VR_ERROR << "Unable to store data!" << endl;
-                return;
-            }
+            THROW_VR_EXCEPTION_IF(!data->save(file), "Unable to store data");
 
             FileIO::writeString(file, "DATA_END");
         }
@@ -624,6 +697,7 @@ namespace VirtualRobot
         }
 
         file.close();
+        THROW_VR_EXCEPTION_IF(!file, "Could not write file " << filename);
     }
 
     int WorkspaceRepresentation::getMaxEntry() const
diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.h b/VirtualRobot/Workspace/WorkspaceRepresentation.h
index c92d2cc..6545682 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.h
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.h
@@ -90,7 +90,7 @@ namespace VirtualRobot
 
         /*!
             Load the workspace data from a binary file.
-            Exceptions are thrown on case errors are detected.
+            Exceptions are thrown on case errors are detected. In this case the current contents are kept.
         */
         virtual void load(const std::string& filename);
 
@@ -455,6 +455,32 @@ namespace VirtualRobot
         //! Compress the data
         unsigned char* compressData(const unsigned char* source, int size, int& compressedSize);
 
+        //! The contents which are replaced when loading a file
+        struct Contents
+        {
+            RobotNodePtr baseNode;
+            RobotNodePtr tcpNode;
+            RobotNodeSetPtr nodeSet;
+            SceneObjectSetPtr staticCollisionModel;
+            SceneObjectSetPtr dynamicCollisionModel;
+            int buildUpLoops;
+            int collisionConfigs;
+            float discretizeStepTranslation;
+            float discretizeStepRotation;
+            float minBounds[6];
+            float maxBounds[6];
+            int numVoxels[6];
+            float achievedMinValues[6];
+            float achievedMaxValues[6];
+            float spaceSize[6];
+            WorkspaceDataPtr data;
+            int versionMajor;
+            int versionMinor;
+            eOrientationType orientationType;
+        };
+        Contents getContents() const;
+        void setContents(const Contents& c);
+
         virtual Eigen::Matrix4f getToLocalTransformation() const;
         virtual Eigen::Matrix4f getToGlobalTransformation() const;
 
diff --git a/VirtualRobot/XML/FileIO.h b/VirtualRobot/XML/FileIO.h
index 85489fa..218ec92 100644
--- a/VirtualRobot/XML/FileIO.h
+++ b/VirtualRobot/XML/FileIO.h
@@ -35,7 +35,7 @@ namespace VirtualRobot
 
         template<typename T> inline T read(std::ifstream& file)
         {
-            T t;
+            T t = T();
             file.read((char*)&t, sizeof(T));
             return t;
         }
@@ -57,19 +57,35 @@ namespace VirtualRobot
 
         inline bool readString(std::string& res, std::ifstream& file)
         {
-            int length = read<int32_t>(file);
+            int32_t length = -1;
+            res.clear();
 
-            if (length <= 0)
+            if (!file.read((char*)&length, sizeof(int32_t)) || length < 0)
             {
                 VR_WARNING << "Bad string length: " << length << std::endl;
                 return false;
             }
 
-            char* data = new char[length + 1];
-            file.read(data, length);
-            data[length] = '\0';
-            res = data;
-            delete[] data;
+            // the length cannot be trusted, so don't allocate more than there is in the file
+            char data[1024];
+
+            while (length > 0)
+            {
+                const int n = length < (int)sizeof(data) ? length : (int)sizeof(data);
+
+                if (!file.read(data, n))
+                {
+                    VR_WARNING << "Unexpected end of string" << std::endl;
+                    res.clear();
+                    return false;
+                }
+
+                res.append(data, n);
+                length -= n;
+            }
+
+            // strings end at the first 0
+            res = res.c_str();
             return true;
         }
 
-- 
2.43.0


From 001b269968d9b59904c93eb14d1c912aa373d69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:01 +0000
Subject: [PATCH 07/49] fix: PlanningThread: no stop request is lost,
 concurrent calls and exceptions in the planner are handled

---
 MotionPlanning/Planner/BiRrt.cpp          |  3 +-
 MotionPlanning/Planner/GraspIkRrt.cpp     |  3 +-
 MotionPlanning/Planner/GraspRrt.cpp       |  2 +-
 MotionPlanning/Planner/MotionPlanner.cpp  |  1 +
 MotionPlanning/Planner/MotionPlanner.h    | 25 ++++++++-
 MotionPlanning/Planner/PlanningThread.cpp | 62 ++++++++++++++++-------
 MotionPlanning/Planner/PlanningThread.h   |  4 +-
 MotionPlanning/Planner/Rrt.cpp            |  3 +-
 8 files changed, 80 insertions(+), 23 deletions(-)

diff --git a/MotionPlanning/Planner/BiRrt.cpp b/MotionPlanning/Planner/BiRrt.cpp
index aa666c2..035f96a 100644
--- a/MotionPlanning/Planner/BiRrt.cpp
+++ b/MotionPlanning/Planner/BiRrt.cpp
@@ -73,6 +73,8 @@ namespace Saba
             }
         }
 
+        initStopSearch();
+
         if (!isInitialized())
         {
             SABA_ERROR << " planner: not initialized..." << std::endl;
@@ -85,7 +87,6 @@ namespace Saba
         int colChecksStart = cspace->performaceVars_collisionCheck;
 
         bool found = false;
-        stopSearch = false;
 
         clock_t startClock = clock();
 
diff --git a/MotionPlanning/Planner/GraspIkRrt.cpp b/MotionPlanning/Planner/GraspIkRrt.cpp
index 2c6b1fd..28d50db 100644
--- a/MotionPlanning/Planner/GraspIkRrt.cpp
+++ b/MotionPlanning/Planner/GraspIkRrt.cpp
@@ -193,6 +193,8 @@ namespace Saba
             SABA_INFO << "Starting GraspIkRrt planner" << std::endl;
         }
 
+        initStopSearch();
+
         if (!isInitialized())
         {
             SABA_ERROR << " planner: not initialized..." << std::endl;
@@ -205,7 +207,6 @@ namespace Saba
         int colChecksStart = cspace->performaceVars_collisionCheck;
 
         found = false;
-        stopSearch = false;
 
         clock_t startClock = clock();
 
diff --git a/MotionPlanning/Planner/GraspRrt.cpp b/MotionPlanning/Planner/GraspRrt.cpp
index 48b6a1d..552cd01 100644
--- a/MotionPlanning/Planner/GraspRrt.cpp
+++ b/MotionPlanning/Planner/GraspRrt.cpp
@@ -129,7 +129,7 @@ namespace Saba
 
         cycles = 0;
 
-        stopSearch = false;
+        initStopSearch();
 
         workSpaceSamplingCount = 0;
 
diff --git a/MotionPlanning/Planner/MotionPlanner.cpp b/MotionPlanning/Planner/MotionPlanner.cpp
index 1ab9648..11df6a2 100644
--- a/MotionPlanning/Planner/MotionPlanner.cpp
+++ b/MotionPlanning/Planner/MotionPlanner.cpp
@@ -25,6 +25,7 @@ namespace Saba
         planningTimeout = std::numeric_limits<float>::max();
 
         stopSearch = false;
+        stopSearchPrepared = false;
         maxCycles = 50000;              // stop if cycles are exceeded
         cycles = 0;
 
diff --git a/MotionPlanning/Planner/MotionPlanner.h b/MotionPlanning/Planner/MotionPlanner.h
index 68c9359..1797eb2 100644
--- a/MotionPlanning/Planner/MotionPlanner.h
+++ b/MotionPlanning/Planner/MotionPlanner.h
@@ -27,6 +27,8 @@
 #include "../CSpace/CSpaceNode.h"
 #include "../CSpace/CSpaceTree.h"
 
+#include <atomic>
+
 namespace Saba
 {
     /*!
@@ -116,6 +118,17 @@ namespace Saba
             stopSearch = true;
         }
 
+        /*!
+            Resets the stop flag ahead of a call to plan(), so that all stop requests which are issued after this call are considered by plan().
+            (Otherwise plan() resets the flag on startup and an earlier stop request is lost.)
+            Only useful for threaded planners.
+        */
+        virtual void prepareExecution()
+        {
+            stopSearch = false;
+            stopSearchPrepared = true;
+        }
+
         //! Give the planner a name
         void setName(std::string sName);
 
@@ -137,12 +150,22 @@ namespace Saba
 
     protected:
 
+        //! To be called by plan(): resets the stop flag, if this has not already been done by prepareExecution()
+        void initStopSearch()
+        {
+            if (!stopSearchPrepared.exchange(false))
+            {
+                stopSearch = false;
+            }
+        }
+
         //! create the solution
         virtual bool createSolution(bool bQuiet = false) = 0;
         CSpacePtr cspace;                   //!< the cspace on which are operating
         CSpacePathPtr solution;             //!< the solution
 
-        bool stopSearch;                    //!< indicates that the search should be interrupted
+        std::atomic<bool> stopSearch;       //!< indicates that the search should be interrupted
+        std::atomic<bool> stopSearchPrepared;   //!< indicates that the stop flag has already been reset for the next call to plan()
 
         unsigned int dimension;             //!< dimension of c-space
 
diff --git a/MotionPlanning/Planner/PlanningThread.cpp b/MotionPlanning/Planner/PlanningThread.cpp
index 18365c3..3a76d7a 100644
--- a/MotionPlanning/Planner/PlanningThread.cpp
+++ b/MotionPlanning/Planner/PlanningThread.cpp
@@ -16,12 +16,19 @@ namespace Saba
         THROW_VR_EXCEPTION_IF(!planner, "NULL data");
         threadStarted = false;
         plannerFinished = false;
+        runCounter = 0;
     }
 
     //! destructor
     PlanningThread::~PlanningThread()
     {
         stop();
+
+        // the run is finished, but the thread may still be about to end
+        if (planningThread.joinable())
+        {
+            planningThread.join();
+        }
     }
 
     void PlanningThread::start()
@@ -34,33 +41,46 @@ namespace Saba
             return;
         }
 
+        // a former run is finished, its thread does not need the mutex any more
+        if (planningThread.joinable())
+        {
+            planningThread.join();
+        }
+
+        // stop requests which arrive from now on belong to this run
+        planner->prepareExecution();
+
+        planningThread = boost::thread(&PlanningThread::workingMethod, this);
+
         // since the start method is the only way to start the thread we can set the varaibles for indicating the state.
         threadStarted = true;
         plannerFinished = false;
-
-        planningThread = boost::thread(&PlanningThread::workingMethod, this);
+        runCounter++;
     }
 
     void PlanningThread::interrupt(bool waitUntilStopped)
     {
-        if (!isRunning())
+        boost::unique_lock<boost::mutex> lock(mutex);
+
+        if (!threadStarted)
         {
             // thread not started, nothing to do
             return;
         }
 
-        // this is not perfect: we are setting a bool without protecting it with a mutex. But it works...
-        if (planner)
-        {
-            planner->stopExecution();
-        }
+        planner->stopExecution();
 
         // todo: catch boost::thread_interrupted in MotionPlanners and be sure to call boost::threa::interrupt points during planning...
         //thread.interrupt();
 
         if (waitUntilStopped)
         {
-            planningThread.join();
+            const unsigned int currentRun = runCounter;
+
+            while (threadStarted && runCounter == currentRun)
+            {
+                runFinished.wait(lock);
+            }
         }
     }
 
@@ -83,19 +103,27 @@ namespace Saba
 
     void PlanningThread::workingMethod()
     {
-        if (!threadStarted)
-        {
-            VR_WARNING << "Thread should be in started mode?!" << endl;
-        }
-
         VR_ASSERT(planner);
 
-        bool res = planner->plan(true);
+        bool res = false;
 
-        mutex.lock();
+        try
+        {
+            res = planner->plan(true);
+        }
+        catch (const std::exception& e)
+        {
+            VR_ERROR << "Planning failed: " << e.what() << endl;
+        }
+        catch (...)
+        {
+            VR_ERROR << "Planning failed" << endl;
+        }
+
+        boost::lock_guard<boost::mutex> lock(mutex);
         threadStarted = false;
         plannerFinished = res;
-        mutex.unlock();
+        runFinished.notify_all();
     }
 
 }
diff --git a/MotionPlanning/Planner/PlanningThread.h b/MotionPlanning/Planner/PlanningThread.h
index d6ff3de..feda23e 100644
--- a/MotionPlanning/Planner/PlanningThread.h
+++ b/MotionPlanning/Planner/PlanningThread.h
@@ -85,9 +85,11 @@ namespace Saba
 
         bool threadStarted;
         bool plannerFinished;
+        unsigned int runCounter;                //!< number of runs started so far
         MotionPlannerPtr planner;
         boost::thread planningThread;
-        boost::mutex mutex;
+        boost::mutex mutex;                     //!< protects all members above
+        boost::condition_variable runFinished;  //!< signaled at the end of each run
 
     };
 
diff --git a/MotionPlanning/Planner/Rrt.cpp b/MotionPlanning/Planner/Rrt.cpp
index 1c5ab1e..1da0eff 100644
--- a/MotionPlanning/Planner/Rrt.cpp
+++ b/MotionPlanning/Planner/Rrt.cpp
@@ -74,6 +74,8 @@ namespace Saba
 
         float r;
 
+        initStopSearch();
+
         if (!isInitialized())
         {
             SABA_ERROR << " planner: not initialized..." << std::endl;
@@ -85,7 +87,6 @@ namespace Saba
         int colChecksStart = cspace->performaceVars_collisionCheck;
 
         bool found = false;
-        stopSearch = false;
 
         clock_t startClock = clock();
 
-- 
2.43.0


From 597a0ebc7faa7e0c3fe365dac35b23d1292aff50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:01 +0000
Subject: [PATCH 08/49] fix: PathProcessingThread: no stop request is lost,
 concurrent calls and exceptions in the processor are handled; elastic band
 processing can be stopped

---
 .../PostProcessing/ElasticBandProcessor.cpp   |  3 +-
 .../PostProcessing/PathProcessingThread.cpp   | 69 ++++++++++++++-----
 .../PostProcessing/PathProcessingThread.h     |  4 +-
 .../PostProcessing/PathProcessor.cpp          | 15 ++++
 MotionPlanning/PostProcessing/PathProcessor.h | 14 +++-
 .../PostProcessing/ShortcutProcessor.cpp      |  2 +-
 6 files changed, 84 insertions(+), 23 deletions(-)

diff --git a/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp b/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
index 1596a84..8dd6434 100644
--- a/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
+++ b/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
@@ -302,11 +302,12 @@ using namespace VirtualRobot;
 
     CSpacePathPtr ElasticBandProcessor::optimize(int optimizeSteps)
     {
+        initStopOptimization();
         initSolution();
 
         rns->getRobot()->setUpdateVisualization(false);
 
-        for (int i=0;i<optimizeSteps;i++)
+        for (int i=0;i<optimizeSteps && !stopOptimization;i++)
         {
             if (!elasticBandLoop())
             {
diff --git a/MotionPlanning/PostProcessing/PathProcessingThread.cpp b/MotionPlanning/PostProcessing/PathProcessingThread.cpp
index 2417168..fd6a48d 100644
--- a/MotionPlanning/PostProcessing/PathProcessingThread.cpp
+++ b/MotionPlanning/PostProcessing/PathProcessingThread.cpp
@@ -19,12 +19,20 @@ namespace Saba
         THROW_VR_EXCEPTION_IF(!processor, "NULL data");
         threadStarted = false;
         processingFinished = false;
+        runCounter = 0;
+        optimizeSteps = 0;
     }
 
     //! destructor
     PathProcessingThread::~PathProcessingThread()
     {
         stop();
+
+        // the run is finished, but the thread may still be about to end
+        if (processingThread.joinable())
+        {
+            processingThread.join();
+        }
     }
 
     void PathProcessingThread::start(int optimizeSteps)
@@ -37,35 +45,48 @@ namespace Saba
             return;
         }
 
-        // since the start method is the only way to start the thread we can set the variables for indicating the state.
-        threadStarted = true;
-        processingFinished = false;
+        // a former run is finished, its thread does not need the mutex any more
+        if (processingThread.joinable())
+        {
+            processingThread.join();
+        }
+
+        // stop requests which arrive from now on belong to this run
+        pathProcessor->prepareExecution();
         this->optimizeSteps = optimizeSteps;
         resultPath.reset();
 
         processingThread = boost::thread(&PathProcessingThread::workingMethod, this);
+
+        // since the start method is the only way to start the thread we can set the variables for indicating the state.
+        threadStarted = true;
+        processingFinished = false;
+        runCounter++;
     }
 
     void PathProcessingThread::interrupt(bool waitUntilStopped)
     {
-        if (!isRunning())
+        boost::unique_lock<boost::mutex> lock(mutex);
+
+        if (!threadStarted)
         {
             // thread not started, nothing to do
             return;
         }
 
-        // this is not perfect: we are setting a bool without protecting it with a mutex. But it works...
-        if (pathProcessor)
-        {
-            pathProcessor->stopExecution();
-        }
+        pathProcessor->stopExecution();
 
         // todo: catch boost::thread_interrupted in MotionPlanners and be sure to call boost::threa::interrupt points during planning...
         //thread.interrupt();
 
         if (waitUntilStopped)
         {
-            processingThread.join();
+            const unsigned int currentRun = runCounter;
+
+            while (threadStarted && runCounter == currentRun)
+            {
+                runFinished.wait(lock);
+            }
         }
     }
 
@@ -88,16 +109,24 @@ namespace Saba
 
     void PathProcessingThread::workingMethod()
     {
-        if (!threadStarted)
-        {
-            VR_WARNING << "Thread should be in started mode?!" << endl;
-        }
-
         VR_ASSERT(pathProcessor);
 
-        CSpacePathPtr res = pathProcessor->optimize(optimizeSteps);
+        CSpacePathPtr res;
+
+        try
+        {
+            res = pathProcessor->optimize(optimizeSteps);
+        }
+        catch (const std::exception& e)
+        {
+            VR_ERROR << "Path processing failed: " << e.what() << endl;
+        }
+        catch (...)
+        {
+            VR_ERROR << "Path processing failed" << endl;
+        }
 
-        mutex.lock();
+        boost::lock_guard<boost::mutex> lock(mutex);
 
         if (res)
         {
@@ -112,12 +141,14 @@ namespace Saba
 
         // the thread ends here
         threadStarted = false;
-        mutex.unlock();
+        runFinished.notify_all();
     }
 
     Saba::CSpacePathPtr PathProcessingThread::getProcessedPath()
     {
-        if (isRunning())
+        boost::lock_guard<boost::mutex> lock(mutex);
+
+        if (threadStarted)
         {
             return Saba::CSpacePathPtr();    // no results yet
         }
diff --git a/MotionPlanning/PostProcessing/PathProcessingThread.h b/MotionPlanning/PostProcessing/PathProcessingThread.h
index 61f127a..5ad3ff7 100644
--- a/MotionPlanning/PostProcessing/PathProcessingThread.h
+++ b/MotionPlanning/PostProcessing/PathProcessingThread.h
@@ -87,9 +87,11 @@ namespace Saba
 
         bool threadStarted;
         bool processingFinished;
+        unsigned int runCounter;                //!< number of runs started so far
         PathProcessorPtr pathProcessor;
         boost::thread processingThread;
-        boost::mutex mutex;
+        boost::mutex mutex;                     //!< protects all members
+        boost::condition_variable runFinished;  //!< signaled at the end of each run
 
         CSpacePathPtr resultPath;
         int optimizeSteps;
diff --git a/MotionPlanning/PostProcessing/PathProcessor.cpp b/MotionPlanning/PostProcessing/PathProcessor.cpp
index 56d911c..6422cbf 100644
--- a/MotionPlanning/PostProcessing/PathProcessor.cpp
+++ b/MotionPlanning/PostProcessing/PathProcessor.cpp
@@ -10,6 +10,7 @@ namespace Saba
     {
         THROW_VR_EXCEPTION_IF((!path), "NULl path...");
         stopOptimization = false;
+        stopOptimizationPrepared = false;
     }
 
     PathProcessor::~PathProcessor()
@@ -24,4 +25,18 @@ namespace Saba
     {
         stopOptimization = true;
     }
+
+    void PathProcessor::prepareExecution()
+    {
+        stopOptimization = false;
+        stopOptimizationPrepared = true;
+    }
+
+    void PathProcessor::initStopOptimization()
+    {
+        if (!stopOptimizationPrepared.exchange(false))
+        {
+            stopOptimization = false;
+        }
+    }
 }
diff --git a/MotionPlanning/PostProcessing/PathProcessor.h b/MotionPlanning/PostProcessing/PathProcessor.h
index 80494e0..af09ce7 100644
--- a/MotionPlanning/PostProcessing/PathProcessor.h
+++ b/MotionPlanning/PostProcessing/PathProcessor.h
@@ -24,6 +24,8 @@
 
 #include "../Saba.h"
 
+#include <atomic>
+
 namespace Saba
 {
     /*!
@@ -56,6 +58,12 @@ namespace Saba
         //! Stop the execution from outside.
         virtual void stopExecution();
 
+        /*!
+            Resets the stop flag ahead of a call to optimize(), so that all stop requests which are issued after this call are considered by optimize().
+            (Otherwise optimize() resets the flag on startup and an earlier stop request is lost.)
+        */
+        virtual void prepareExecution();
+
         CSpacePathPtr getOptimizedPath();
 
     protected:
@@ -65,7 +73,11 @@ namespace Saba
         unsigned int dim;
         bool verbose;
 
-        bool stopOptimization; // allows to stop a running optimization process
+        //! To be called on startup of the optimization: resets the stop flag, if this has not already been done by prepareExecution()
+        void initStopOptimization();
+
+        std::atomic<bool> stopOptimizationPrepared; // the stop flag has already been reset for the next optimization
+        std::atomic<bool> stopOptimization; // allows to stop a running optimization process
     };
 
 } // namespace
diff --git a/MotionPlanning/PostProcessing/ShortcutProcessor.cpp b/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
index 665932f..0cdb1aa 100644
--- a/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
+++ b/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
@@ -141,7 +141,7 @@ namespace Saba
 
     CSpacePathPtr ShortcutProcessor::shortenSolutionRandom(int shortenLoops /*=300*/, int maxSolutionPathDist)
     {
-        stopOptimization = false;
+        initStopOptimization();
         THROW_VR_EXCEPTION_IF((!cspace || !path), "NULL data");
         THROW_VR_EXCEPTION_IF(!initSolution(), "Could not init...");
         int counter = 0;
-- 
2.43.0


From 85c9749c6a37375be4bed0d26e61a11728d5c38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:28 +0000
Subject: [PATCH 09/49] fix: planners restore the robot's visualization status
 on every exit, report the time of timed out runs and never hand out a
 solution after a failed run

---
 MotionPlanning/Planner/BiRrt.cpp         | 30 ++++++---------------
 MotionPlanning/Planner/GraspIkRrt.cpp    | 28 ++++++-------------
 MotionPlanning/Planner/MotionPlanner.cpp | 34 +++++++++++++++++++++---
 MotionPlanning/Planner/MotionPlanner.h   | 18 ++++++++++++-
 MotionPlanning/Planner/Rrt.cpp           | 30 ++++++---------------
 5 files changed, 72 insertions(+), 68 deletions(-)

diff --git a/MotionPlanning/Planner/BiRrt.cpp b/MotionPlanning/Planner/BiRrt.cpp
index 035f96a..175316d 100644
--- a/MotionPlanning/Planner/BiRrt.cpp
+++ b/MotionPlanning/Planner/BiRrt.cpp
@@ -74,6 +74,8 @@ namespace Saba
         }
 
         initStopSearch();
+        solution.reset();
+        planningTime = 0.0f;
 
         if (!isInitialized())
         {
@@ -90,16 +92,8 @@ namespace Saba
 
         clock_t startClock = clock();
 
-        solution.reset();
-
         RobotPtr robot = cspace->getRobot();
-        bool bVisStatus = true;
-
-        if (robot)
-        {
-            bVisStatus = robot->getUpdateVisualizationStatus();
-            robot->setUpdateVisualization(false);
-        }
+        UpdateVisualizationGuard visGuard(robot);   // restores the status, however this method is left
 
         ExtensionResult extResultA;
         ExtensionResult extResultB;
@@ -219,11 +213,10 @@ namespace Saba
             cycles++;
             switched = !switched;
 
-            clock_t currentClock = clock();
-
-            long diffClock = (long)(((float)(currentClock - startClock) / (float)CLOCKS_PER_SEC) * 1000.0);
+            long diffClock = getElapsedMS(startClock);
             if(diffClock > planningTimeout)
             {
+                planningTime = (float)diffClock;
                 std::cout << "Encountered timeout of " << planningTimeout << " ms - aborting" << std::endl;
                 return false;
             }
@@ -231,9 +224,7 @@ namespace Saba
         }
         while (!stopSearch && cycles < maxCycles && !found);
 
-        clock_t endClock = clock();
-
-        long diffClock = (long)(((float)(endClock - startClock) / (float)CLOCKS_PER_SEC) * 1000.0);
+        long diffClock = getElapsedMS(startClock);
         planningTime = (float)diffClock;
 
         if (!bQuiet)
@@ -253,10 +244,7 @@ namespace Saba
             }
         }
 
-        if (robot && bVisStatus)
-        {
-            robot->setUpdateVisualization(bVisStatus);
-        }
+        visGuard.restore();
 
         if (found)
         {
@@ -265,9 +253,7 @@ namespace Saba
                 SABA_INFO << "Found RRT solution with " << cycles << " cycles." << std::endl;
             }
 
-            createSolution(bQuiet);
-
-            return true;
+            return createSolution(bQuiet);
         }
 
         // something went wrong...
diff --git a/MotionPlanning/Planner/GraspIkRrt.cpp b/MotionPlanning/Planner/GraspIkRrt.cpp
index 28d50db..0a2d101 100644
--- a/MotionPlanning/Planner/GraspIkRrt.cpp
+++ b/MotionPlanning/Planner/GraspIkRrt.cpp
@@ -194,6 +194,8 @@ namespace Saba
         }
 
         initStopSearch();
+        solution.reset();
+        planningTime = 0.0f;
 
         if (!isInitialized())
         {
@@ -210,14 +212,8 @@ namespace Saba
 
         clock_t startClock = clock();
 
-        solution.reset();
-
         RobotPtr robot = cspace->getRobot();
-        bool bVisStatus = true;
-        bVisStatus = robot->getUpdateVisualizationStatus();
-        robot->setUpdateVisualization(false);
-
-
+        UpdateVisualizationGuard visGuard(robot);   // restores the status, however this method is left
 
         // PLANNING LOOP
         do
@@ -228,20 +224,17 @@ namespace Saba
             }
 
             cycles++;
-            clock_t currentClock = clock();
-
-            long diffClock = (long)(((float)(currentClock - startClock) / (float)CLOCKS_PER_SEC) * 1000.0);
+            long diffClock = getElapsedMS(startClock);
             if(diffClock > planningTimeout)
             {
+                planningTime = (float)diffClock;
                 std::cout << "Encountered timeout of " << planningTimeout << " ms - aborting" << std::endl;
                 return false;
             }
         }
         while (!stopSearch && cycles < maxCycles && !found);
 
-        clock_t endClock = clock();
-
-        long diffClock = (long)(((float)(endClock - startClock) / (float)CLOCKS_PER_SEC) * 1000.0);
+        long diffClock = getElapsedMS(startClock);
         planningTime = (float)diffClock;
 
         if (!bQuiet)
@@ -262,10 +255,7 @@ namespace Saba
             }
         }
 
-        if (robot && bVisStatus)
-        {
-            robot->setUpdateVisualization(bVisStatus);
-        }
+        visGuard.restore();
 
         if (found)
         {
@@ -274,9 +264,7 @@ namespace Saba
                 SABA_INFO << "Found RRT solution with " << cycles << " cycles." << std::endl;
             }
 
-            createSolution(bQuiet);
-
-            return true;
+            return createSolution(bQuiet);
         }
 
         // something went wrong...
diff --git a/MotionPlanning/Planner/MotionPlanner.cpp b/MotionPlanning/Planner/MotionPlanner.cpp
index 11df6a2..d093341 100644
--- a/MotionPlanning/Planner/MotionPlanner.cpp
+++ b/MotionPlanning/Planner/MotionPlanner.cpp
@@ -1,5 +1,7 @@
 
 #include "MotionPlanner.h"
+#include "../CSpace/CSpacePath.h"
+#include <VirtualRobot/Robot.h>
 
 namespace Saba
 {
@@ -183,12 +185,37 @@ namespace Saba
 
     CSpacePathPtr MotionPlanner::getSolution()
     {
-        if (!solution)
+        return solution;
+    }
+
+    long MotionPlanner::getElapsedMS(clock_t startClock)
+    {
+        return (long)(((float)(clock() - startClock) / (float)CLOCKS_PER_SEC) * 1000.0);
+    }
+
+    MotionPlanner::UpdateVisualizationGuard::UpdateVisualizationGuard(VirtualRobot::RobotPtr robot)
+        : robot(robot), status(false)
+    {
+        if (robot)
+        {
+            status = robot->getUpdateVisualizationStatus();
+            robot->setUpdateVisualization(false);
+        }
+    }
+
+    MotionPlanner::UpdateVisualizationGuard::~UpdateVisualizationGuard()
+    {
+        restore();
+    }
+
+    void MotionPlanner::UpdateVisualizationGuard::restore()
+    {
+        if (robot && status)
         {
-            createSolution();
+            robot->setUpdateVisualization(status);
         }
 
-        return solution;
+        robot.reset();
     }
 
     void MotionPlanner::reset()
@@ -203,6 +230,7 @@ namespace Saba
             cspace->reset();
         }
 
+        solution.reset();
         planningTime = 0;
         cycles = 0;
     }
diff --git a/MotionPlanning/Planner/MotionPlanner.h b/MotionPlanning/Planner/MotionPlanner.h
index 1797eb2..bfff328 100644
--- a/MotionPlanning/Planner/MotionPlanner.h
+++ b/MotionPlanning/Planner/MotionPlanner.h
@@ -28,6 +28,7 @@
 #include "../CSpace/CSpaceTree.h"
 
 #include <atomic>
+#include <ctime>
 
 namespace Saba
 {
@@ -56,7 +57,7 @@ namespace Saba
         virtual bool plan(bool bQuiet = false) = 0;
 
         /*!
-            Returns the solution path.
+            Returns the solution path of the last call to plan(). NULL if no solution was found.
         */
         CSpacePathPtr getSolution();
 
@@ -159,6 +160,21 @@ namespace Saba
             }
         }
 
+        //! The processor time (in milliseconds) that passed since startClock
+        static long getElapsedMS(clock_t startClock);
+
+        //! Disables the visualization updates of a robot and restores the former status on destruction.
+        class UpdateVisualizationGuard
+        {
+        public:
+            UpdateVisualizationGuard(VirtualRobot::RobotPtr robot);
+            ~UpdateVisualizationGuard();
+            void restore();
+        private:
+            VirtualRobot::RobotPtr robot;
+            bool status;
+        };
+
         //! create the solution
         virtual bool createSolution(bool bQuiet = false) = 0;
         CSpacePtr cspace;                   //!< the cspace on which are operating
diff --git a/MotionPlanning/Planner/Rrt.cpp b/MotionPlanning/Planner/Rrt.cpp
index 1da0eff..18d12cf 100644
--- a/MotionPlanning/Planner/Rrt.cpp
+++ b/MotionPlanning/Planner/Rrt.cpp
@@ -75,6 +75,8 @@ namespace Saba
         float r;
 
         initStopSearch();
+        solution.reset();
+        planningTime = 0.0f;
 
         if (!isInitialized())
         {
@@ -90,16 +92,8 @@ namespace Saba
 
         clock_t startClock = clock();
 
-        solution.reset();
-
         RobotPtr robot = cspace->getRobot();
-        bool bVisStatus = true;
-
-        if (robot)
-        {
-            bVisStatus = robot->getUpdateVisualizationStatus();
-            robot->setUpdateVisualization(false);
-        }
+        UpdateVisualizationGuard visGuard(robot);   // restores the status, however this method is left
 
         ExtensionResult extResult = eError;
 
@@ -186,11 +180,10 @@ namespace Saba
             }
 
             cycles++;
-            clock_t currentClock = clock();
-
-            long diffClock = (long)(((float)(currentClock - startClock) / (float)CLOCKS_PER_SEC) * 1000.0);
+            long diffClock = getElapsedMS(startClock);
             if(diffClock > planningTimeout)
             {
+                planningTime = (float)diffClock;
                 std::cout << "Encountered timeout of " << planningTimeout << " ms - aborting" << std::endl;
                 return false;
             }
@@ -198,9 +191,7 @@ namespace Saba
         }
         while (!stopSearch && cycles < maxCycles && !found);
 
-        clock_t endClock = clock();
-
-        long diffClock = (long)(((float)(endClock - startClock) / (float)CLOCKS_PER_SEC) * 1000.0);
+        long diffClock = getElapsedMS(startClock);
         planningTime = (float)diffClock;
 
         if (!bQuiet)
@@ -220,10 +211,7 @@ namespace Saba
             }
         }
 
-        if (robot && bVisStatus)
-        {
-            robot->setUpdateVisualization(bVisStatus);
-        }
+        visGuard.restore();
 
         if (found)
         {
@@ -232,9 +220,7 @@ namespace Saba
                 SABA_INFO << "Found RRT solution with " << cycles << " cycles." << std::endl;
             }
 
-            createSolution(bQuiet);
-
-            return true;
+            return createSolution(bQuiet);
         }
 
         // something went wrong...
-- 
2.43.0


From a04bd8b1dd75290b5a0ba41857103a0a31bfdab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:28 +0000
Subject: [PATCH 10/49] fix: BiRrt: a new goal replaces the complete goal tree

---
 MotionPlanning/Planner/BiRrt.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MotionPlanning/Planner/BiRrt.cpp b/MotionPlanning/Planner/BiRrt.cpp
index 175316d..407a4d7 100644
--- a/MotionPlanning/Planner/BiRrt.cpp
+++ b/MotionPlanning/Planner/BiRrt.cpp
@@ -370,10 +370,10 @@ namespace Saba
             return false;
         }
 
-        // copy goal values
-        if (goalNode)
+        // goalNode may be any node of the trees after planning, all nodes of tree2 lead to a former goal
+        if (tree2->getNrOfNodes() > 0)
         {
-            tree2->removeNode(goalNode);
+            tree2->reset();
         }
 
         goalNode =  tree2->appendNode(c, -1);
-- 
2.43.0


From 0bb2aaed1184ead1ae879331609d6c93e655bb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:29 +0000
Subject: [PATCH 11/49] fix: bidirectional planners respect stop requests and
 timeouts while sampling valid configurations

---
 MotionPlanning/Planner/BiRrt.cpp      | 33 +++++++++++++++------------
 MotionPlanning/Planner/GraspIkRrt.cpp |  9 ++++++--
 MotionPlanning/Planner/Rrt.cpp        | 19 ++++++++++++++-
 MotionPlanning/Planner/Rrt.h          |  4 ++++
 4 files changed, 48 insertions(+), 17 deletions(-)

diff --git a/MotionPlanning/Planner/BiRrt.cpp b/MotionPlanning/Planner/BiRrt.cpp
index 407a4d7..d67086f 100644
--- a/MotionPlanning/Planner/BiRrt.cpp
+++ b/MotionPlanning/Planner/BiRrt.cpp
@@ -90,7 +90,7 @@ namespace Saba
 
         bool found = false;
 
-        clock_t startClock = clock();
+        startClock = clock();
 
         RobotPtr robot = cspace->getRobot();
         UpdateVisualizationGuard visGuard(robot);   // restores the status, however this method is left
@@ -110,7 +110,7 @@ namespace Saba
         do
         {
             // CHOOSE A RANDOM CONFIGURATION (NOT GOAL DIRECTED, ONLY RANDOMLY)
-            cspace->getRandomConfig(tmpConfig, true);
+            const bool sampled = getRandomValidConfig();
             LOCAL_DEBUG("----------------------------------------------------" << endl);
             LOCAL_DEBUG("Random Conf:" << endl << tmpConfig << endl);
 
@@ -134,22 +134,27 @@ namespace Saba
                 rrtModeB = rrtMode2;
             }
 
-            switch (rrtModeA)
+            extResultA = eFailed;
+
+            if (sampled)
             {
-                case eExtend:
-                    extResultA = extend(tmpConfig, treeA, *lastIDA);
-                    break;
+                switch (rrtModeA)
+                {
+                    case eExtend:
+                        extResultA = extend(tmpConfig, treeA, *lastIDA);
+                        break;
 
-                case eConnect:
-                    extResultA = connectUntilCollision(tmpConfig, treeA, *lastIDA);
-                    break;
+                    case eConnect:
+                        extResultA = connectUntilCollision(tmpConfig, treeA, *lastIDA);
+                        break;
 
-                case eConnectCompletePath:
-                    extResultA = connectComplete(tmpConfig, treeA, *lastIDA);
-                    break;
+                    case eConnectCompletePath:
+                        extResultA = connectComplete(tmpConfig, treeA, *lastIDA);
+                        break;
 
-                default:
-                    break;
+                    default:
+                        break;
+                }
             }
 
             LOCAL_DEBUG("ExtResultA:" << extResultA << endl);
diff --git a/MotionPlanning/Planner/GraspIkRrt.cpp b/MotionPlanning/Planner/GraspIkRrt.cpp
index 0a2d101..9bede9e 100644
--- a/MotionPlanning/Planner/GraspIkRrt.cpp
+++ b/MotionPlanning/Planner/GraspIkRrt.cpp
@@ -136,7 +136,12 @@ namespace Saba
         else
         {
             // do a normal extend/connect
-            cspace->getRandomConfig(tmpConfig, true);
+            if (!getRandomValidConfig())
+            {
+                // stopped or timed out
+                return !stopSearch;
+            }
+
             LOCAL_DEBUG("----------------------------------------------------" << endl);
             LOCAL_DEBUG("Random Conf:" << endl << tmpConfig << endl);
             resA = connectUntilCollision(tmpConfig, tree, lastAddedID);
@@ -210,7 +215,7 @@ namespace Saba
 
         found = false;
 
-        clock_t startClock = clock();
+        startClock = clock();
 
         RobotPtr robot = cspace->getRobot();
         UpdateVisualizationGuard visGuard(robot);   // restores the status, however this method is left
diff --git a/MotionPlanning/Planner/Rrt.cpp b/MotionPlanning/Planner/Rrt.cpp
index 18d12cf..7ff4f46 100644
--- a/MotionPlanning/Planner/Rrt.cpp
+++ b/MotionPlanning/Planner/Rrt.cpp
@@ -41,6 +41,7 @@ namespace Saba
         else SABA_ERROR << "Sampling size neither set from cspace nor from parameter";
         tmpConfig.setZero(dimension);
         lastAddedID = -1;
+        startClock = clock();
     }
 
     Rrt::~Rrt()
@@ -90,7 +91,7 @@ namespace Saba
 
         bool found = false;
 
-        clock_t startClock = clock();
+        startClock = clock();
 
         RobotPtr robot = cspace->getRobot();
         UpdateVisualizationGuard visGuard(robot);   // restores the status, however this method is left
@@ -237,6 +238,22 @@ namespace Saba
         return false;
     }
 
+    bool Rrt::getRandomValidConfig()
+    {
+        do
+        {
+            cspace->getRandomConfig(tmpConfig);
+
+            if (cspace->isConfigValid(tmpConfig, false, true, true))
+            {
+                return true;
+            }
+        }
+        while (!stopSearch && getElapsedMS(startClock) <= planningTimeout);
+
+        return false;
+    }
+
     Rrt::ExtensionResult Rrt::extend(Eigen::VectorXf& c, CSpaceTreePtr tree, int& storeLastAddedID)
     {
         // NEAREST NEIGHBOR OF RANDOM CONFIGURATION
diff --git a/MotionPlanning/Planner/Rrt.h b/MotionPlanning/Planner/Rrt.h
index 953e1e3..a6e0601 100644
--- a/MotionPlanning/Planner/Rrt.h
+++ b/MotionPlanning/Planner/Rrt.h
@@ -105,6 +105,9 @@ namespace Saba
         virtual ExtensionResult connectComplete(Eigen::VectorXf& c, CSpaceTreePtr tree, int& storeLastAddedID);
         virtual ExtensionResult connectUntilCollision(Eigen::VectorXf& c, CSpaceTreePtr tree, int& storeLastAddedID);
 
+        //! Store a random valid configuration in tmpConfig. Returns false if the search was stopped or timed out meanwhile.
+        bool getRandomValidConfig();
+
         CSpaceNodePtr startNode;        //!< start node (root of RRT)
         CSpaceNodePtr goalNode;         //!< goal node (set when RRT weas successfully connected to goalConfig)
 
@@ -112,6 +115,7 @@ namespace Saba
 
         float extendGoToGoal;           //!< the probability that the goal config is used instead of a randomly created configuration
 
+        clock_t startClock;             //!< processor time at which the planning was started
         float extendStepSize;           //!< step size for one rrt extend (copied from cspace)
         int lastAddedID;                //!< ID of last added node
 
-- 
2.43.0


From 670767052d01431a570afef9fab77be598c57765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:57 +0000
Subject: [PATCH 12/49] fix: release the collision check mutex when a check or
 the path evaluation throws, count checks under the mutex

---
 MotionPlanning/CSpace/CSpace.cpp     | 24 ++++++++----------------
 MotionPlanning/CSpace/CSpacePath.cpp | 19 +++++++++++--------
 2 files changed, 19 insertions(+), 24 deletions(-)

diff --git a/MotionPlanning/CSpace/CSpace.cpp b/MotionPlanning/CSpace/CSpace.cpp
index 40a496b..e8c7166 100644
--- a/MotionPlanning/CSpace/CSpace.cpp
+++ b/MotionPlanning/CSpace/CSpace.cpp
@@ -387,23 +387,18 @@ namespace Saba
     {
         SABA_ASSERT(config.rows() == dimension)
 
-        performaceVars_distanceCheck++;
+        boost::unique_lock<boost::mutex> lock(colCheckMutex, boost::defer_lock);
 
         if (multiThreaded)
         {
-            colCheckMutex.lock();
+            lock.lock();
         }
 
+        performaceVars_distanceCheck++;
+
         // set configuration (joint values)
         robo->setJointValues(robotNodes, config);
-        float d = cdm->getDistance();
-
-        if (multiThreaded)
-        {
-            colCheckMutex.unlock();
-        }
-
-        return d;
+        return cdm->getDistance();
     }
 
     float CSpace::getDirectedMaxMovement(const Eigen::VectorXf& config, const Eigen::VectorXf& nextConfig)
@@ -440,20 +435,17 @@ namespace Saba
     {
         SABA_ASSERT(config.rows() == dimension)
 
+        boost::unique_lock<boost::mutex> lock(colCheckMutex, boost::defer_lock);
+
         if (multiThreaded)
         {
-            colCheckMutex.lock();
+            lock.lock();
         }
 
         // set configuration (joint values)
         robo->setJointValues(robotNodes, config);
         bool res = cdm->isInCollision();
 
-        if (multiThreaded)
-        {
-            colCheckMutex.unlock();
-        }
-
         performaceVars_collisionCheck++;
         return !res;
     }
diff --git a/MotionPlanning/CSpace/CSpacePath.cpp b/MotionPlanning/CSpace/CSpacePath.cpp
index 411d947..45f6611 100644
--- a/MotionPlanning/CSpace/CSpacePath.cpp
+++ b/MotionPlanning/CSpace/CSpacePath.cpp
@@ -433,21 +433,24 @@ namespace Saba
     {
         VR_ASSERT(cspace);
 
-        std::vector<Eigen::Matrix4f > result;
-
-        if (cspace->hasExclusiveRobotAccess())
+        if (!cspace->hasExclusiveRobotAccess())
         {
-            CSpace::lock();
+            return VirtualRobot::Trajectory::createWorkspaceTrajectory(r);
         }
 
-        result = VirtualRobot::Trajectory::createWorkspaceTrajectory(r);
+        CSpace::lock();
 
-        if (cspace->hasExclusiveRobotAccess())
+        try
         {
+            std::vector<Eigen::Matrix4f > result = VirtualRobot::Trajectory::createWorkspaceTrajectory(r);
             CSpace::unlock();
+            return result;
+        }
+        catch (...)
+        {
+            CSpace::unlock();
+            throw;
         }
-
-        return result;
     }
 
 } // namespace Saba
-- 
2.43.0


From 0bd489731726d59ccf426ac9a0436121c79d7837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:07 +0000
Subject: [PATCH 13/49] fix: CSpaceSampled::clone uses the joints of the new
 robot and the size of the original (passed the random seed as size)

---
 MotionPlanning/CSpace/CSpaceSampled.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MotionPlanning/CSpace/CSpaceSampled.cpp b/MotionPlanning/CSpace/CSpaceSampled.cpp
index 3ec0733..5f6845e 100644
--- a/MotionPlanning/CSpace/CSpaceSampled.cpp
+++ b/MotionPlanning/CSpace/CSpaceSampled.cpp
@@ -51,7 +51,7 @@ namespace Saba
             return CSpaceSampledPtr();
         }
 
-        CSpaceSampledPtr result(new CSpaceSampled(newRobot, newCDM, robotNodes, newRandomSeed));
+        CSpaceSampledPtr result(new CSpaceSampled(newRobot, newCDM, newRobot->getRobotNodeSet(robotNodes->getName()), maxNodes, newRandomSeed));
         result->setBoundaries(boundaryMin, boundaryMax);
 
         if (useMetricWeights)
-- 
2.43.0


From cbd7d403f23dfff43aa92f1e445abcb90309bae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:19 +0000
Subject: [PATCH 14/49] fix: the visualization status of a robot is restored
 without needing memory, also when several planners share the robot

---
 MotionPlanning/Planner/MotionPlanner.cpp | 24 ++++++++++++++++++++++--
 MotionPlanning/Planner/MotionPlanner.h   |  3 +++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/MotionPlanning/Planner/MotionPlanner.cpp b/MotionPlanning/Planner/MotionPlanner.cpp
index d093341..c833dce 100644
--- a/MotionPlanning/Planner/MotionPlanner.cpp
+++ b/MotionPlanning/Planner/MotionPlanner.cpp
@@ -2,6 +2,8 @@
 #include "MotionPlanner.h"
 #include "../CSpace/CSpacePath.h"
 #include <VirtualRobot/Robot.h>
+#include <VirtualRobot/Nodes/RobotNode.h>
+#include <mutex>
 
 namespace Saba
 {
@@ -193,13 +195,20 @@ namespace Saba
         return (long)(((float)(clock() - startClock) / (float)CLOCKS_PER_SEC) * 1000.0);
     }
 
+    // several planners may share one robot: the status is read and changed at once
+    static std::mutex updateVisualizationMutex;
+
     MotionPlanner::UpdateVisualizationGuard::UpdateVisualizationGuard(VirtualRobot::RobotPtr robot)
         : robot(robot), status(false)
     {
         if (robot)
         {
+            // no memory is needed for restoring the status
+            robotNodes = robot->getRobotNodes();
+
+            std::lock_guard<std::mutex> lock(updateVisualizationMutex);
             status = robot->getUpdateVisualizationStatus();
-            robot->setUpdateVisualization(false);
+            setUpdateVisualization(false);
         }
     }
 
@@ -212,12 +221,23 @@ namespace Saba
     {
         if (robot && status)
         {
-            robot->setUpdateVisualization(status);
+            std::lock_guard<std::mutex> lock(updateVisualizationMutex);
+            setUpdateVisualization(true);
         }
 
         robot.reset();
     }
 
+    void MotionPlanner::UpdateVisualizationGuard::setUpdateVisualization(bool enable)
+    {
+        robot->SceneObject::setUpdateVisualization(enable);
+
+        for (auto & robotNode : robotNodes)
+        {
+            robotNode->setUpdateVisualization(enable);
+        }
+    }
+
     void MotionPlanner::reset()
     {
         startConfig.setZero(1);
diff --git a/MotionPlanning/Planner/MotionPlanner.h b/MotionPlanning/Planner/MotionPlanner.h
index bfff328..eebb064 100644
--- a/MotionPlanning/Planner/MotionPlanner.h
+++ b/MotionPlanning/Planner/MotionPlanner.h
@@ -29,6 +29,7 @@
 
 #include <atomic>
 #include <ctime>
+#include <vector>
 
 namespace Saba
 {
@@ -171,7 +172,9 @@ namespace Saba
             ~UpdateVisualizationGuard();
             void restore();
         private:
+            void setUpdateVisualization(bool enable);
             VirtualRobot::RobotPtr robot;
+            std::vector<VirtualRobot::RobotNodePtr> robotNodes;
             bool status;
         };
 
-- 
2.43.0


From 64151fd4e33bd37fd49eaaa8dc83d42c21dadbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:07 +0000
Subject: [PATCH 15/49] fix: planners stay consistent when memory or nodes run
 out while the start, the goal or a node is added

---
 MotionPlanning/CSpace/CSpaceTree.cpp | 8 ++++----
 MotionPlanning/Planner/BiRrt.cpp     | 5 ++++-
 MotionPlanning/Planner/Rrt.cpp       | 6 ++++--
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/MotionPlanning/CSpace/CSpaceTree.cpp b/MotionPlanning/CSpace/CSpaceTree.cpp
index 44b6fb5..bccb439 100644
--- a/MotionPlanning/CSpace/CSpaceTree.cpp
+++ b/MotionPlanning/CSpace/CSpaceTree.cpp
@@ -138,12 +138,14 @@ namespace Saba
             return newNode;
         }
 
-        nodes.push_back(newNode);
-        idNodeMapping[newNode->ID] = newNode;
+        // copy values (before the node is part of the tree, an incomplete node must not be found)
+        newNode->configuration = config;
 
         // parent of new CSpaceNode
         newNode->parentID = parentID;
 
+        idNodeMapping[newNode->ID] = newNode;
+        nodes.push_back(newNode);
 
 
         if (updateChildren && parentID >= 0)
@@ -160,8 +162,6 @@ namespace Saba
             }
         }
 
-        // copy values
-        newNode->configuration = config;
         // no distance information
         newNode->obstacleDistance = -1.0f;
 
diff --git a/MotionPlanning/Planner/BiRrt.cpp b/MotionPlanning/Planner/BiRrt.cpp
index d67086f..51a0520 100644
--- a/MotionPlanning/Planner/BiRrt.cpp
+++ b/MotionPlanning/Planner/BiRrt.cpp
@@ -381,9 +381,12 @@ namespace Saba
             tree2->reset();
         }
 
+        // there is no valid goal without its node
+        goalValid = false;
         goalNode =  tree2->appendNode(c, -1);
+        goalValid = (goalNode != nullptr);
 
-        return true;
+        return goalValid;
     }
 
     void BiRrt::reset()
diff --git a/MotionPlanning/Planner/Rrt.cpp b/MotionPlanning/Planner/Rrt.cpp
index 7ff4f46..85aa412 100644
--- a/MotionPlanning/Planner/Rrt.cpp
+++ b/MotionPlanning/Planner/Rrt.cpp
@@ -415,10 +415,12 @@ namespace Saba
             tree->reset();
         }
 
-        // init root node of RRT
+        // init root node of RRT (there is no valid start without it)
+        startValid = false;
         startNode = tree->appendNode(c, -1);
+        startValid = (startNode != nullptr);
 
-        return true;
+        return startValid;
     }
 
 
-- 
2.43.0


From 6eecddd081b0252bf695dbef5d5efb864a565530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:43 +0000
Subject: [PATCH 16/49] fix: pruning and smoothing of paths with less than two
 points ends (unsigned underflow)

---
 MotionPlanning/PostProcessing/ElasticBandProcessor.cpp | 4 ++--
 MotionPlanning/PostProcessing/ShortcutProcessor.cpp    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp b/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
index 8dd6434..c7ba1ed 100644
--- a/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
+++ b/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
@@ -174,7 +174,7 @@ using namespace VirtualRobot;
          Eigen::VectorXf fc;
 
 
-        for (unsigned int i=1;i<optimizedPath->getNrOfPoints()-1;i++)
+        for (unsigned int i=1;i+1<optimizedPath->getNrOfPoints();i++)
         {
 
             Eigen::VectorXf& before = optimizedPath->getPointRef(i-1);
@@ -222,7 +222,7 @@ using namespace VirtualRobot;
     {
         float ssd = 2 * cspace->getSamplingSize()*cspace->getSamplingSize();
 
-        for (unsigned int i=1;i<optimizedPath->getNrOfPoints()-2;i++)
+        for (unsigned int i=1;i+2<optimizedPath->getNrOfPoints();i++)
         {
             Eigen::VectorXf& before = optimizedPath->getPointRef(i-1);
             Eigen::VectorXf& act = optimizedPath->getPointRef(i);
diff --git a/MotionPlanning/PostProcessing/ShortcutProcessor.cpp b/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
index 0cdb1aa..04884ea 100644
--- a/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
+++ b/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
@@ -202,7 +202,7 @@ namespace Saba
 
         unsigned int i = 0;
 
-        while (i < optimizedPath->getNrOfPoints() - 2)
+        while (i + 2 < optimizedPath->getNrOfPoints())
         {
             Eigen::VectorXf startConfig = optimizedPath->getPoint(i);
             Eigen::VectorXf endConfig = optimizedPath->getPoint(i + 2);
-- 
2.43.0


From 9eb2ee3560840fcbfcd37e45b81dc8ca518a1889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 17/49] fix: STL import rejects truncated, damaged and
 unreadable files instead of returning a part of the mesh

An I/O error made the reader spin for ever, files shorter than a binary header threw and leaked
the handle, and truncated or damaged files were accepted as smaller meshes.
---
 VirtualRobot/Import/MeshImport/STLReader.cpp | 272 ++++++++++---------
 VirtualRobot/Import/MeshImport/STLReader.h   |   3 -
 2 files changed, 149 insertions(+), 126 deletions(-)

diff --git a/VirtualRobot/Import/MeshImport/STLReader.cpp b/VirtualRobot/Import/MeshImport/STLReader.cpp
index 39021a4..65e9fb3 100644
--- a/VirtualRobot/Import/MeshImport/STLReader.cpp
+++ b/VirtualRobot/Import/MeshImport/STLReader.cpp
@@ -43,7 +43,9 @@
 
 #include <cfloat>
 #include <fstream>
-#include <stdexcept>
+#include <limits>
+#include <locale>
+#include <sstream>
 #include <string>
 
 namespace VirtualRobot
@@ -191,6 +193,37 @@ namespace VirtualRobot
 
     //-----------------------------------------------------------------------------
 
+    // reads the three numbers at the end of a line (also "nan" and "inf", which some programs write for the normals of degenerated facets)
+    static bool read_vector(std::istream& _in, Eigen::Vector3f& _v)
+    {
+        std::string token;
+
+        for (int i = 0; i < 3; ++i)
+        {
+            if (!(_in >> token))
+            {
+                return false;
+            }
+
+            std::istringstream number(token);
+            number.imbue(std::locale::classic());
+
+            if (!(number >> _v[i]) || number.peek() != std::char_traits<char>::eof())
+            {
+                if (token.find("nan") == std::string::npos && token.find("inf") == std::string::npos)
+                {
+                    return false;
+                }
+
+                _v[i] = std::numeric_limits<float>::quiet_NaN();
+            }
+        }
+
+        return !(_in >> token);
+    }
+
+    //-----------------------------------------------------------------------------
+
     bool
     STLReader::
     read_stla(const std::string& _filename, TriMeshModelPtr t) const
@@ -227,7 +260,6 @@ namespace VirtualRobot
             return false;
         }
 
-        unsigned int               i;
         Eigen::Vector3f            v;
         Eigen::Vector3f            n;
         std::vector<unsigned int> vhandles;
@@ -236,86 +268,86 @@ namespace VirtualRobot
         std::map<Eigen::Vector3f, unsigned int, CmpVec>            vMap(comp);
         std::map<Eigen::Vector3f, unsigned int, CmpVec>::iterator  vMapIt;
 
-        std::string line;
+        // what has been read so far (everything but a complete sequence of solids is an error)
+        enum { OUTSIDE, SOLID, FACET, LOOP, LOOP_DONE } state = OUTSIDE;
+        bool solidFound = false;
+        bool facet_normal = false;
 
-        bool facet_normal(false);
+        std::string line;
 
-        while (_in && !_in.eof())
+        while (std::getline(_in, line))
         {
-
-            // Get one line
-            std::getline(_in, line);
-
-            if (_in.bad())
-            {
-                VR_ERROR << "  Warning! Could not read stream properly!\n";
-                return false;
-            }
-
-            // Trim Both leading and trailing spaces
             trimStdString(line);
+            BaseIO::getLowerCase(line);
 
-            // Normal found?
-            if (line.find("facet normal") != std::string::npos)
-            {
-                std::stringstream strstream(line);
-
-                std::string garbage;
+            std::stringstream strstream(line);
+            strstream.imbue(std::locale::classic());
 
-                // facet
-                strstream >> garbage;
+            std::string keyword;
+            strstream >> keyword;
 
-                // normal
-                strstream >> garbage;
+            bool ok = false;
 
-                strstream >> n[0];
-                strstream >> n[1];
-                strstream >> n[2];
-
-                facet_normal = true;
+            if (keyword.empty())
+            {
+                ok = true;
             }
-
-            // Detected a triangle
-            if ((line.find("outer") != std::string::npos) || (line.find("OUTER") != std::string::npos))
+            else if (keyword == "solid")
+            {
+                ok = (state == OUTSIDE);
+                state = SOLID;
+                solidFound = true;
+            }
+            else if (keyword == "endsolid")
+            {
+                ok = (state == SOLID);
+                state = OUTSIDE;
+            }
+            else if (keyword == "facet")
+            {
+                facet_normal = bool(strstream >> keyword);
+                ok = (state == SOLID) && (!facet_normal || (keyword == "normal" && read_vector(strstream, n)));
+                state = FACET;
+            }
+            else if (keyword == "outer")
             {
-
                 vhandles.clear();
+                ok = (state == FACET);
+                state = LOOP;
+            }
+            else if (keyword == "vertex")
+            {
+                ok = (state == LOOP) && vhandles.size() < 3 && read_vector(strstream, v);
+                v *= scaling;
+                ok = ok && v.allFinite();
 
-                for (i = 0; i < 3; ++i)
+                // has vector been referenced before?
+                if (ok && (vMapIt = vMap.find(v)) == vMap.end())
                 {
-                    // Get one vertex
-                    std::getline(_in, line);
-                    trimStdString(line);
-
-                    std::stringstream strstream(line);
-
-                    std::string garbage;
-                    strstream >> garbage;
-
-                    strstream >> v[0];
-                    strstream >> v[1];
-                    strstream >> v[2];
-
-                    v *= scaling;
-
-                    // has vector been referenced before?
-                    if ((vMapIt = vMap.find(v)) == vMap.end())
-                    {
-                        // No : add vertex and remember idx/vector mapping
-                        int handle = int (t->vertices.size());
-                        t->addVertex(v);//_bi.add_vertex(v);
-                        vhandles.push_back(handle);
-                        vMap[v] = handle;
-                    }
-                    else
-                        // Yes : get index from map
-                    {
-                        vhandles.push_back(vMapIt->second);
-                    }
+                    // No : add vertex and remember idx/vector mapping
+                    int handle = int (t->vertices.size());
+                    t->addVertex(v);//_bi.add_vertex(v);
+                    vhandles.push_back(handle);
+                    vMap[v] = handle;
+                }
+                else if (ok)
+                    // Yes : get index from map
+                {
+                    vhandles.push_back(vMapIt->second);
                 }
+            }
+            else if (keyword == "endloop")
+            {
+                ok = (state == LOOP) && vhandles.size() == 3;
+                state = LOOP_DONE;
+            }
+            else if (keyword == "endfacet")
+            {
+                ok = (state == LOOP_DONE);
+                state = SOLID;
 
                 // Add face only if it is not degenerated
-                if ((vhandles[0] != vhandles[1]) &&
+                if (ok && (vhandles[0] != vhandles[1]) &&
                     (vhandles[0] != vhandles[2]) &&
                     (vhandles[1] != vhandles[2]))
                 {
@@ -332,9 +364,26 @@ namespace VirtualRobot
                     //int fh = int(t->faces.size());
                     t->addFace(f);
                     //_bi.add_face(vhandles);
-                    facet_normal = false;
                 }
             }
+
+            if (!ok)
+            {
+                VR_ERROR << "[STLReader] : unexpected line '" << line.substr(0, 80) << "'" << std::endl;
+                return false;
+            }
+        }
+
+        if (_in.bad())
+        {
+            VR_ERROR << "  Warning! Could not read stream properly!\n";
+            return false;
+        }
+
+        if (!solidFound || state != OUTSIDE)
+        {
+            VR_ERROR << "[STLReader] : no or incomplete solid" << std::endl;
+            return false;
         }
 
         return true;
@@ -446,6 +495,12 @@ namespace VirtualRobot
         _in.read(dummy, 80);
         nT = read_int(_in, swapFlag);
 
+        if (!_in)
+        {
+            VR_ERROR << "[STLReader] : could not read header" << std::endl;
+            return false;
+        }
+
         // read triangles
         while (nT)
         {
@@ -465,6 +520,12 @@ namespace VirtualRobot
 
                 v *= scaling;
 
+                if (!_in || !v.allFinite())
+                {
+                    VR_ERROR << "[STLReader] : incomplete file or invalid vertex" << std::endl;
+                    return false;
+                }
+
                 // has vector been referenced before?
                 if ((vMapIt = vMap.find(v)) == vMap.end())
                 {
@@ -500,7 +561,12 @@ namespace VirtualRobot
                 //FaceHandle fh = _bi.add_face(vhandles);
             }
 
-            _in.read(dummy, 2);
+            if (!_in.read(dummy, 2))
+            {
+                VR_ERROR << "[STLReader] : incomplete file" << std::endl;
+                return false;
+            }
+
             --nT;
         }
 
@@ -509,48 +575,6 @@ namespace VirtualRobot
 
     //-----------------------------------------------------------------------------
 
-    int STLReader::read_int(FILE* _in, bool _swap) const
-    {
-        union u2
-        {
-            int i;
-            unsigned char c[4];
-        } ic;
-        if(4 != std::fread((char*)ic.c, 1, 4, _in))
-        {
-            throw std::runtime_error{__FILE__ " error in line " + std::to_string(__LINE__) + " failed to read 4 bytes."};
-        }
-
-        if (_swap)
-        {
-            std::swap(ic.c[0], ic.c[3]);
-            std::swap(ic.c[1], ic.c[2]);
-        }
-
-        return ic.i;
-    }
-
-    float STLReader::read_float(FILE* _in, bool _swap) const
-    {
-        union u3
-        {
-            float f;
-            unsigned char c[4];
-        } fc;
-        if(4 != std::fread((char*)fc.c, 1, 4, _in))
-        {
-            throw std::runtime_error{__FILE__ " error in line " + std::to_string(__LINE__) + " failed to read 4 bytes."};
-        }
-
-        if (_swap)
-        {
-            std::swap(fc.c[0], fc.c[3]);
-            std::swap(fc.c[1], fc.c[2]);
-        }
-
-        return fc.f;
-    }
-
     STLReader::STL_Type
     STLReader::
     check_stl_type(const std::string& _filename) const
@@ -559,7 +583,7 @@ namespace VirtualRobot
         // if size matches, it's really binary
 
         // open file
-        FILE* in = fopen(_filename.c_str(), "rb");
+        std::ifstream in(_filename.c_str(), std::ios_base::in | std::ios_base::binary);
 
         if (!in)
         {
@@ -577,28 +601,30 @@ namespace VirtualRobot
 
         // read number of triangles
         char dummy[100];
-        if(80 != std::fread(dummy, 1, 80, in))
+        in.read(dummy, 80);
+        unsigned int nT = read_int(in, swapFlag);
+
+        if (!in)
         {
-            throw std::runtime_error{__FILE__ " error in line " + std::to_string(__LINE__) + " failed to read 80 bytes."};
+            // too short for a binary file
+            return STLA;
         }
-        size_t nT = read_int(in, swapFlag);
-
 
         // compute file size from nT
-        size_t binary_size = 84 + nT * 50;
-
+        unsigned long long binary_size = 84 + nT * 50ull;
 
         // get actual file size
-        size_t file_size(0);
-        rewind(in);
+        unsigned long long file_size(84);
 
-        while (!feof(in))
+        while (in.read(dummy, 100) || in.gcount() > 0)
         {
-            file_size += fread(dummy, 1, 100, in);
+            file_size += in.gcount();
         }
 
-        fclose(in);
-
+        if (in.bad())
+        {
+            return NONE;
+        }
 
         // if sizes match -> it's STLB
         return (binary_size == file_size ? STLB : STLA);
diff --git a/VirtualRobot/Import/MeshImport/STLReader.h b/VirtualRobot/Import/MeshImport/STLReader.h
index 5f9ea91..6e9003c 100644
--- a/VirtualRobot/Import/MeshImport/STLReader.h
+++ b/VirtualRobot/Import/MeshImport/STLReader.h
@@ -62,9 +62,6 @@ namespace VirtualRobot
 
     private:
 
-        int read_int(FILE* _in, bool _swap) const;
-        float read_float(FILE* _in, bool _swap = false) const;
-
         float read_float(std::istream& _in, bool _swap = false) const;
         int read_int(std::istream& _in, bool _swap = false) const;
 
-- 
2.43.0


From fdae8564ca2885f52576829ab0f1fede96602bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 18/49] fix: saving a robot, scene, object, mesh or search tree
 reports a failed write

The result of writing and closing the file, and of writing the model files, was ignored.
---
 MotionPlanning/CSpace/CSpaceTree.cpp |  2 +-
 VirtualRobot/XML/BaseIO.cpp          |  7 +++++++
 VirtualRobot/XML/ObjectIO.cpp        |  7 +++++++
 VirtualRobot/XML/RobotIO.cpp         | 16 ++++++++++++++--
 4 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/MotionPlanning/CSpace/CSpaceTree.cpp b/MotionPlanning/CSpace/CSpaceTree.cpp
index bccb439..aad71d6 100644
--- a/MotionPlanning/CSpace/CSpaceTree.cpp
+++ b/MotionPlanning/CSpace/CSpaceTree.cpp
@@ -375,7 +375,7 @@ namespace Saba
         }
 
         file.close();
-        return true;
+        return file.good();
     }
 
     CSpaceNodePtr CSpaceTree::getLastAddedNode()
diff --git a/VirtualRobot/XML/BaseIO.cpp b/VirtualRobot/XML/BaseIO.cpp
index a15989e..31d06f1 100644
--- a/VirtualRobot/XML/BaseIO.cpp
+++ b/VirtualRobot/XML/BaseIO.cpp
@@ -1808,6 +1808,13 @@ namespace VirtualRobot
 
         out << content;
         out.close();
+
+        if (!out)
+        {
+            VR_ERROR << "Could not write file " << filename << endl;
+            return false;
+        }
+
         return true;
     }
 
diff --git a/VirtualRobot/XML/ObjectIO.cpp b/VirtualRobot/XML/ObjectIO.cpp
index 5cbbd92..0ec5923 100644
--- a/VirtualRobot/XML/ObjectIO.cpp
+++ b/VirtualRobot/XML/ObjectIO.cpp
@@ -190,6 +190,13 @@ namespace VirtualRobot
 
         of << "endsolid " << objectName << endl;
         of.close();
+
+        if (!of)
+        {
+            VR_ERROR << "Could not write " << filename << endl;
+            return false;
+        }
+
         return true;
     }
 
diff --git a/VirtualRobot/XML/RobotIO.cpp b/VirtualRobot/XML/RobotIO.cpp
index 825ce02..bfcdc97 100644
--- a/VirtualRobot/XML/RobotIO.cpp
+++ b/VirtualRobot/XML/RobotIO.cpp
@@ -1500,17 +1500,29 @@ namespace VirtualRobot
         f << xmlRob;
         f.close();
 
+        if (!f)
+        {
+            VR_ERROR << "Could not write file " << fnComplete.string() << endl;
+            return false;
+        }
+
+        bool res = true;
+
         if (storeModelFiles)
         {
             std::vector<RobotNodePtr> nodes = robot->getRobotNodes();
 
             for (auto & node : nodes)
             {
-                node->saveModelFiles(modelDirComplete.string(), true);
+                if (!node->saveModelFiles(modelDirComplete.string(), true))
+                {
+                    VR_ERROR << "Could not write the model files of " << node->getName() << endl;
+                    res = false;
+                }
             }
         }
 
-        return true;
+        return res;
     }
     
     void RobotIO::saveMJCF(RobotPtr robot, const std::string& filename, 
-- 
2.43.0


From 5aaaeb7fb8299438cc43d608964d8cee89d9ff4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 19/49] fix: saved robots keep limitless joints, offsets, node
 set root and tcp, ignored collisions and friction

The XML output left them out (or, for <IgnoreCollision>, used a tag the reader does not know), and
wrote a collision model both as file and as primitives, which the reader refuses to load.
---
 VirtualRobot/CollisionDetection/CollisionModel.cpp |  3 +--
 VirtualRobot/Nodes/RobotNodePrismatic.cpp          | 11 +++++++++--
 VirtualRobot/Nodes/RobotNodeRevolute.cpp           | 11 +++++++++--
 VirtualRobot/RobotNodeSet.cpp                      | 14 +++++++++++++-
 VirtualRobot/SceneObject.cpp                       |  9 +++++++--
 5 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/VirtualRobot/CollisionDetection/CollisionModel.cpp b/VirtualRobot/CollisionDetection/CollisionModel.cpp
index 762d47d..4dd7f19 100644
--- a/VirtualRobot/CollisionDetection/CollisionModel.cpp
+++ b/VirtualRobot/CollisionDetection/CollisionModel.cpp
@@ -309,8 +309,7 @@ namespace VirtualRobot
                << tmpFilename
                << "</File>\n";
         }
-
-        if (visualization && visualization->primitives.size() != 0)
+        else if (visualization && visualization->primitives.size() != 0)
         {
             ss << pre << "\t<Primitives>\n";
             std::vector<Primitive::PrimitivePtr>::const_iterator it;
diff --git a/VirtualRobot/Nodes/RobotNodePrismatic.cpp b/VirtualRobot/Nodes/RobotNodePrismatic.cpp
index b5b86fd..c8d87af 100644
--- a/VirtualRobot/Nodes/RobotNodePrismatic.cpp
+++ b/VirtualRobot/Nodes/RobotNodePrismatic.cpp
@@ -261,9 +261,16 @@ namespace VirtualRobot
     std::string RobotNodePrismatic::_toXML(const std::string& /*modelPath*/)
     {
         std::stringstream ss;
-        ss << "\t\t<Joint type='prismatic'>" << endl;
+        ss << "\t\t<Joint type='prismatic'";
+
+        if (jointValueOffset != 0.0f)
+        {
+            ss << " offset='" << jointValueOffset << "'";
+        }
+
+        ss << ">" << endl;
         ss << "\t\t\t<translationdirection x='" << jointTranslationDirection[0] << "' y='" << jointTranslationDirection[1] << "' z='" << jointTranslationDirection[2] << "'/>" << endl;
-        ss << "\t\t\t<limits lo='" << jointLimitLo << "' hi='" << jointLimitHi << "' units='mm'/>" << endl;
+        ss << "\t\t\t<limits lo='" << jointLimitLo << "' hi='" << jointLimitHi << "' units='mm'" << (isLimitless() ? " limitless='true'" : "") << "/>" << endl;
         ss << "\t\t\t<MaxAcceleration value='" << maxAcceleration << "'/>" << endl;
         ss << "\t\t\t<MaxVelocity value='" << maxVelocity << "'/>" << endl;
         ss << "\t\t\t<MaxTorque value='" << maxTorque << "'/>" << endl;
diff --git a/VirtualRobot/Nodes/RobotNodeRevolute.cpp b/VirtualRobot/Nodes/RobotNodeRevolute.cpp
index 4547b84..2149ce7 100644
--- a/VirtualRobot/Nodes/RobotNodeRevolute.cpp
+++ b/VirtualRobot/Nodes/RobotNodeRevolute.cpp
@@ -215,9 +215,16 @@ namespace VirtualRobot
     std::string RobotNodeRevolute::_toXML(const std::string& /*modelPath*/)
     {
         std::stringstream ss;
-        ss << "\t\t<Joint type='revolute'>" << endl;
+        ss << "\t\t<Joint type='revolute'";
+
+        if (jointValueOffset != 0.0f)
+        {
+            ss << " offset='" << jointValueOffset << "'";
+        }
+
+        ss << ">" << endl;
         ss << "\t\t\t<axis x='" << jointRotationAxis[0] << "' y='" << jointRotationAxis[1] << "' z='" << jointRotationAxis[2] << "'/>" << endl;
-        ss << "\t\t\t<limits lo='" << jointLimitLo << "' hi='" << jointLimitHi << "' units='radian'/>" << endl;
+        ss << "\t\t\t<limits lo='" << jointLimitLo << "' hi='" << jointLimitHi << "' units='radian'" << (isLimitless() ? " limitless='true'" : "") << "/>" << endl;
         ss << "\t\t\t<MaxAcceleration value='" << maxAcceleration << "'/>" << endl;
         ss << "\t\t\t<MaxVelocity value='" << maxVelocity << "'/>" << endl;
         ss << "\t\t\t<MaxTorque value='" << maxTorque << "'/>" << endl;
diff --git a/VirtualRobot/RobotNodeSet.cpp b/VirtualRobot/RobotNodeSet.cpp
index 9abcbf6..1cc7aa5 100644
--- a/VirtualRobot/RobotNodeSet.cpp
+++ b/VirtualRobot/RobotNodeSet.cpp
@@ -786,7 +786,19 @@ namespace VirtualRobot
             pre += "\t";
         }
 
-        ss << pre << "<RobotNodeSet name='" << name << "'>\n";
+        ss << pre << "<RobotNodeSet name='" << name << "'";
+
+        if (kinematicRoot)
+        {
+            ss << " kinematicroot='" << kinematicRoot->getName() << "'";
+        }
+
+        if (tcp)
+        {
+            ss << " tcp='" << tcp->getName() << "'";
+        }
+
+        ss << ">\n";
 
         for (auto & robotNode : robotNodes)
         {
diff --git a/VirtualRobot/SceneObject.cpp b/VirtualRobot/SceneObject.cpp
index 3e6ac76..c6c13d1 100644
--- a/VirtualRobot/SceneObject.cpp
+++ b/VirtualRobot/SceneObject.cpp
@@ -1378,7 +1378,7 @@ namespace VirtualRobot
 
     bool SceneObject::Physics::isSet()
     {
-        return (simType != eUnknown || massKg != 0.0f || comLocation != eVisuBBoxCenter || !inertiaMatrix.isIdentity() || ignoreCollisions.size() > 0);
+        return (simType != eUnknown || massKg != 0.0f || comLocation != eVisuBBoxCenter || !inertiaMatrix.isIdentity() || ignoreCollisions.size() > 0 || friction >= 0.0f);
     }
 
     std::string SceneObject::Physics::toXML(int tabs)
@@ -1416,7 +1416,12 @@ namespace VirtualRobot
 
         for (size_t i = 0; i < ignoreCollisions.size(); i++)
         {
-            ss << ta << "\t<IgnoreCollisions name='" << ignoreCollisions[i] << "'/>\n";
+            ss << ta << "\t<IgnoreCollision name='" << ignoreCollisions[i] << "'/>\n";
+        }
+
+        if (friction >= 0.0f)
+        {
+            ss << ta << "\t<Friction value='" << friction << "'/>\n";
         }
 
         ss << ta << "</Physics>\n";
-- 
2.43.0


From 771cb183be47a9efe1f72883b6f214393d119314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 20/49] fix: loading a scene or object keeps object poses,
 centres of mass and configuration TCPs

loadManipulationObject() reset the stored pose, objects read from a scene were never initialized
and the TCP of a scene's robot configuration was parsed but dropped.
---
 VirtualRobot/XML/ObjectIO.cpp | 5 ++++-
 VirtualRobot/XML/SceneIO.cpp  | 6 ++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/XML/ObjectIO.cpp b/VirtualRobot/XML/ObjectIO.cpp
index 0ec5923..a8bb2ec 100644
--- a/VirtualRobot/XML/ObjectIO.cpp
+++ b/VirtualRobot/XML/ObjectIO.cpp
@@ -82,7 +82,6 @@ namespace VirtualRobot
         std::string objectXML(buffer.str());
 
         VirtualRobot::ManipulationObjectPtr res = createManipulationObjectFromString(objectXML, basePath);
-        res->initialize();
         THROW_VR_EXCEPTION_IF(!res, "Error while parsing file.");
         return res;
     }
@@ -354,6 +353,8 @@ namespace VirtualRobot
             object->addGraspSet(graspSet);
         }
 
+        // this resets the pose
+        object->initialize();
         object->setGlobalPose(globalPose);
 
         return object;
@@ -456,6 +457,8 @@ namespace VirtualRobot
 
         // build object
         ObstaclePtr object(new Obstacle(objName, visualizationNode, collisionModel, physics));
+        // this resets the pose
+        object->initialize();
         object->setGlobalPose(globalPose);
         return object;
     }
diff --git a/VirtualRobot/XML/SceneIO.cpp b/VirtualRobot/XML/SceneIO.cpp
index bf3af0d..fe49fa1 100644
--- a/VirtualRobot/XML/SceneIO.cpp
+++ b/VirtualRobot/XML/SceneIO.cpp
@@ -134,6 +134,12 @@ namespace VirtualRobot
         for (size_t i = 0; i < configDefinitions.size(); i++)
         {
             RobotConfigPtr rc(new RobotConfig(robot, configNames[i], configDefinitions[i]));
+
+            if (!tcpNames[i].empty())
+            {
+                rc->setTCP(tcpNames[i]);
+            }
+
             scene->registerRobotConfig(robot, rc);
         }
 
-- 
2.43.0


From 5c839de180e1899938d54b154011ab4e71a52b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 21/49] fix: point collision check uses the requested tolerance
 instead of 50

---
 VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp b/VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp
index 23bd8cd..878ae15 100644
--- a/VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp
+++ b/VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp
@@ -132,7 +132,7 @@ namespace VirtualRobot
             pqpChecker->PQP_Tolerance(&result,
                                       R1, T1, m1.get(),
                                       R2, T2, pointModel.get(),
-                                      50);
+                                      tolerance);
 
 
 
-- 
2.43.0


From 36f65de582bb28811e61a96e62e465f702aa1397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:08 +0000
Subject: [PATCH 22/49] fix: robots loaded in parallel without a name get
 different names

---
 VirtualRobot/XML/RobotIO.cpp | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/VirtualRobot/XML/RobotIO.cpp b/VirtualRobot/XML/RobotIO.cpp
index bfcdc97..d9123de 100644
--- a/VirtualRobot/XML/RobotIO.cpp
+++ b/VirtualRobot/XML/RobotIO.cpp
@@ -925,17 +925,10 @@ namespace VirtualRobot
         }
 
         // check name counter
+        int robotCount = 0;
         {
             boost::lock_guard<boost::mutex> lock(mutex);
-
-            if (robot_name_counter.find(robotType) != robot_name_counter.end())
-            {
-                robot_name_counter[robotType] = robot_name_counter[robotType] + 1;
-            }
-            else
-            {
-                robot_name_counter[robotType] = 1;
-            }
+            robotCount = ++robot_name_counter[robotType];
         }
 
         // STANDARD NAME
@@ -944,18 +937,16 @@ namespace VirtualRobot
         if (!attr)
         {
             std::stringstream ss;
-            {
-                boost::lock_guard<boost::mutex> lock(mutex);
 
-                if (robot_name_counter[robotType] == 1)
-                {
-                    ss << robotType;    // first one
-                }
-                else
-                {
-                    ss << robotType << "_" << (robot_name_counter[robotType] - 1);
-                }
+            if (robotCount == 1)
+            {
+                ss << robotType;    // first one
             }
+            else
+            {
+                ss << robotType << "_" << (robotCount - 1);
+            }
+
             robotName = ss.str();
         }
         else
-- 
2.43.0


From 730f24612650d46c4188167ce502917f3a882f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:22 +0000
Subject: [PATCH 23/49] fix: obstacles created in parallel get different ids

---
 VirtualRobot/ManipulationObject.cpp |  3 +--
 VirtualRobot/Obstacle.cpp           | 14 +++++---------
 VirtualRobot/Obstacle.h             |  3 ++-
 3 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/VirtualRobot/ManipulationObject.cpp b/VirtualRobot/ManipulationObject.cpp
index 813efeb..9612555 100644
--- a/VirtualRobot/ManipulationObject.cpp
+++ b/VirtualRobot/ManipulationObject.cpp
@@ -247,8 +247,7 @@ namespace VirtualRobot
             return result;
         }
 
-        int id = idCounter;
-        idCounter++;
+        int id = idCounter++;
 
         std::stringstream ss;
         ss << "Mesh_" << id;
diff --git a/VirtualRobot/Obstacle.cpp b/VirtualRobot/Obstacle.cpp
index 1338b2c..0a51395 100644
--- a/VirtualRobot/Obstacle.cpp
+++ b/VirtualRobot/Obstacle.cpp
@@ -11,7 +11,7 @@ namespace VirtualRobot
 {
 
     // obstacle models start with 20000
-    int Obstacle::idCounter = 20000;
+    std::atomic<int> Obstacle::idCounter(20000);
 
 
     Obstacle::Obstacle(const std::string& name, VisualizationNodePtr visualization, CollisionModelPtr collisionModel, const SceneObject::Physics& p, CollisionCheckerPtr colChecker)
@@ -85,8 +85,7 @@ namespace VirtualRobot
 
         //TriMeshModelPtr trimesh = visu->getTriMeshModel();
 
-        int id = idCounter;
-        idCounter++;
+        int id = idCounter++;
 
         std::stringstream ss;
         ss << "Box_" << id;
@@ -136,8 +135,7 @@ namespace VirtualRobot
 
         //TriMeshModelPtr trimesh = visu->getTriMeshModel();
 
-        int id = idCounter;
-        idCounter++;
+        int id = idCounter++;
 
         std::stringstream ss;
         ss << "Sphere_" << id;
@@ -188,8 +186,7 @@ namespace VirtualRobot
 
         //TriMeshModelPtr trimesh = visu->getTriMeshModel();
 
-        int id = idCounter;
-        idCounter++;
+        int id = idCounter++;
 
         std::stringstream ss;
         ss << "Cylinder_" << id;
@@ -237,8 +234,7 @@ namespace VirtualRobot
             return result;
         }
 
-        int id = idCounter;
-        idCounter++;
+        int id = idCounter++;
 
         std::stringstream ss;
         ss << "Mesh_" << id;
diff --git a/VirtualRobot/Obstacle.h b/VirtualRobot/Obstacle.h
index bb50ed0..b4e800a 100644
--- a/VirtualRobot/Obstacle.h
+++ b/VirtualRobot/Obstacle.h
@@ -26,6 +26,7 @@
 #include "CollisionDetection/CollisionModel.h"
 #include "SceneObject.h"
 
+#include <atomic>
 #include <string>
 #include <vector>
 
@@ -117,7 +118,7 @@ namespace VirtualRobot
         std::string filename;
 
         // a counter for internal ids
-        static int idCounter;
+        static std::atomic<int> idCounter;
         // my id
         int id;
     };
-- 
2.43.0


From b8514293131ee7c006534544b645e575371d60d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:04 +0000
Subject: [PATCH 24/49] fix: the data paths can be looked up from several
 threads at first use

---
 VirtualRobot/RuntimeEnvironment.cpp | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/VirtualRobot/RuntimeEnvironment.cpp b/VirtualRobot/RuntimeEnvironment.cpp
index 7ffdb66..92f8c88 100644
--- a/VirtualRobot/RuntimeEnvironment.cpp
+++ b/VirtualRobot/RuntimeEnvironment.cpp
@@ -7,6 +7,8 @@
 #include "RuntimeEnvironment.h"
 #include "VirtualRobotException.h"
 #include "Visualization/VisualizationFactory.h"
+#include <boost/thread/lock_guard.hpp>
+#include <boost/thread/recursive_mutex.hpp>
 
 
 namespace VirtualRobot
@@ -17,8 +19,13 @@ namespace VirtualRobot
     std::map< std::string, std::string > RuntimeEnvironment::keyValues;
     bool RuntimeEnvironment::pathInitialized = false;
 
+    // protects dataPaths and pathInitialized
+    static boost::recursive_mutex dataPathMutex;
+
     void RuntimeEnvironment::init()
     {
+        boost::lock_guard<boost::recursive_mutex> lock(dataPathMutex);
+
         if (!pathInitialized)
         {
             pathInitialized = true;
@@ -103,10 +110,7 @@ namespace VirtualRobot
 
     bool RuntimeEnvironment::getDataFileAbsolute(std::string& fileName)
     {
-        if (!pathInitialized)
-        {
-            init();
-        }
+        const std::vector<std::string> paths = getDataPaths();
 
         boost::filesystem::path fn(fileName);
 
@@ -125,7 +129,7 @@ namespace VirtualRobot
             // silently skip this error (e.g. device not ready, permission denied etc)
         }
 
-        for (auto & dataPath : dataPaths)
+        for (auto & dataPath : paths)
         {
             boost::filesystem::path p(dataPath);
 
@@ -156,10 +160,7 @@ namespace VirtualRobot
 
     void RuntimeEnvironment::processCommandLine(int argc, char* argv[])
     {
-        if (!pathInitialized)
-        {
-            init();
-        }
+        init();
 
         // Declare the supported options.
         boost::program_options::options_description desc("Simox runtime options");
@@ -253,6 +254,8 @@ namespace VirtualRobot
 
     std::vector< std::string > RuntimeEnvironment::getDataPaths()
     {
+        boost::lock_guard<boost::recursive_mutex> lock(dataPathMutex);
+
         if (!pathInitialized)
         {
             init();
@@ -269,6 +272,7 @@ namespace VirtualRobot
 
             if (boost::filesystem::is_directory(p) || boost::filesystem::is_symlink(p))
             {
+                boost::lock_guard<boost::recursive_mutex> lock(dataPathMutex);
                 dataPaths.push_back(path);
                 return true;
             }
@@ -287,15 +291,12 @@ namespace VirtualRobot
 
     void RuntimeEnvironment::print()
     {
-        if (!pathInitialized)
-        {
-            init();
-        }
+        const std::vector<std::string> paths = getDataPaths();
 
         cout << " *********** Simox RuntimeEnvironment ************* " << endl;
         cout << "Data paths:"  << endl;
 
-        for (const auto & dataPath : dataPaths)
+        for (const auto & dataPath : paths)
         {
             cout << " * " << dataPath << endl;
         }
-- 
2.43.0


From 28d48902995157056b96fdb9c79ebf716ac8c9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 25/49] fix: convex hulls: failed computations release the
 lock, free memory and do not end the process

---
 GraspPlanning/ConvexHullGenerator.cpp | 137 ++++++++++++--------------
 1 file changed, 62 insertions(+), 75 deletions(-)

diff --git a/GraspPlanning/ConvexHullGenerator.cpp b/GraspPlanning/ConvexHullGenerator.cpp
index a6bfd1d..33334a8 100644
--- a/GraspPlanning/ConvexHullGenerator.cpp
+++ b/GraspPlanning/ConvexHullGenerator.cpp
@@ -25,6 +25,41 @@ namespace GraspStudio
 {
     boost::mutex ConvexHullGenerator::qhull_mutex;
 
+    namespace
+    {
+        //! Frees the memory of the last qhull call
+        struct QHullMemory
+        {
+            ~QHullMemory()
+            {
+                int curlong, totlong;       /* memory remaining after qh_memfreeshort */
+                qh_freeqhull(!qh_ALL);
+                qh_memfreeshort(&curlong, &totlong);
+
+                if (curlong || totlong)
+                    fprintf(stderr, "qhull internal warning (main): did not free %d bytes of long memory (%d pieces)\n",
+                            totlong, curlong);
+            }
+        };
+
+        //! Triangulates the current hull and computes its volume. Returns an error code of qhull (0 if no error).
+        int finishHull()
+        {
+            // qhull ends the process if it has no place to return to in case of an error
+            int exitcode = setjmp(qh errexit);
+
+            if (!exitcode)
+            {
+                qh NOerrexit = False;
+                qh_triangulate(); // need this for triangulated output!
+                qh_getarea(qh facet_list);
+            }
+
+            qh NOerrexit = True;
+            return exitcode;
+        }
+    }
+
     bool ConvexHullGenerator::ConvertPoints(std::vector<Eigen::Vector3f>& points, double* storePointsQHull, bool lockMutex)
     {
         if (lockMutex)
@@ -75,28 +110,25 @@ namespace GraspStudio
 
     VirtualRobot::MathTools::ConvexHull3DPtr ConvexHullGenerator::CreateConvexHull(VirtualRobot::TriMeshModelPtr pointsInput, bool lockMutex /*= true*/)
     {
-        if (lockMutex)
-        {
-            qhull_mutex.lock();
-        }
-
-        VirtualRobot::MathTools::ConvexHull3DPtr r = CreateConvexHull(pointsInput->vertices, false);
+        boost::unique_lock<boost::mutex> lock(qhull_mutex, boost::defer_lock);
 
         if (lockMutex)
         {
-            qhull_mutex.unlock();
+            lock.lock();
         }
 
-        return r;
+        return CreateConvexHull(pointsInput->vertices, false);
     }
 
 
 
     VirtualRobot::MathTools::ConvexHull3DPtr ConvexHullGenerator::CreateConvexHull(std::vector<Eigen::Vector3f>& pointsInput, bool lockMutex /*= true*/)
     {
+        boost::unique_lock<boost::mutex> lock(qhull_mutex, boost::defer_lock);
+
         if (lockMutex)
         {
-            qhull_mutex.lock();
+            lock.lock();
         }
 
         //clock_t startT = clock();
@@ -110,17 +142,12 @@ namespace GraspStudio
         {
             cout << __FUNCTION__ << "Error: Need at least 4 points (nr of points registered: " << nPoints << ")" << endl;
 
-            if (lockMutex)
-            {
-                qhull_mutex.unlock();
-            }
-
             return result;
         }
 
         int dim = 3;                /* dimension of points */
         int numpoints = nPoints;    /* number of points */
-        coordT* points = new coordT[(3)*nPoints];   /* array of coordinates for each point */
+        std::vector<coordT> points((3) * nPoints);   /* array of coordinates for each point */
         boolT ismalloc = False;     /* True if qhull should free points in qh_freeqhull() or reallocation */
         char flags[250];            /* option flags for qhull, see qh_opt.htm */
 #ifdef CONVEXHULL_DEBUG_OUTPUT
@@ -133,7 +160,6 @@ namespace GraspStudio
         FILE* errfile = stderr;     /* error messages from qhull code */
         int exitcode;               /* 0 if no error from qhull */
         facetT* facet;              /* set by FORALLfacets */
-        int curlong, totlong;       /* memory remaining after qh_memfreeshort */
         vertexT* vertex, **vertexp;
 
         // qhull options:
@@ -149,35 +175,26 @@ namespace GraspStudio
 #endif
 
         //cout << "QHULL input: nVertices: " << pointsInput.size() << endl;
-        ConvertPoints(pointsInput, points, false);
+        ConvertPoints(pointsInput, points.data(), false);
         /*for (i=numpoints; i--; )
         rows[i]= points+dim*i;
         qh_printmatrix (outfile, "input", rows, numpoints, dim);*/
-        exitcode = qh_new_qhull(dim, numpoints, points, ismalloc, flags, outfile, errfile);
+        exitcode = qh_new_qhull(dim, numpoints, points.data(), ismalloc, flags, outfile, errfile);
+        QHullMemory memory;         /* frees qhull's memory, also in case of an exception */
 
-        if (!exitcode)                    /* if no error */
+        if (!exitcode)
         {
-            facetT* facet_list = qh facet_list;
-            //int convexNumFaces = qh num_facets;
-            /*int convexNumVert =*/ qh_setsize(qh_facetvertices(facet_list, nullptr, false));
+            exitcode = finishHull();
+        }
 
-            qh_triangulate(); // need this for triangulated output!
-            //int convexNumFaces2 = qh num_facets;
-            /*int convexNumVert2 =*/ qh_setsize(qh_facetvertices(facet_list, nullptr, false));
-            /*
-            cout << "Numfacets1:" << convexNumFaces << endl;
-            cout << "Numvertices1:" << convexNumVert << endl;
-            cout << "Numfacets2:" << convexNumFaces2 << endl;
-            cout << "Numvertices2:" << convexNumVert2 << endl;*/
+        if (!exitcode)                    /* if no error */
+        {
             /* 'qh facet_list' contains the convex hull */
             Eigen::Vector3f v[3];
             int nIds[3];
             TriangleFace f;
 
             int nFacets = 0;
-            //cout << "Volume: " << qh totvol << endl;
-            qh_getarea(qh facet_list);
-            //cout << "Volume: " << qh totvol << endl;
             result->volume = qh totvol;
 
 
@@ -266,30 +283,20 @@ namespace GraspStudio
         }
 
 
-        qh_freeqhull(!qh_ALL);
-        qh_memfreeshort(&curlong, &totlong);
-
-        if (curlong || totlong)
-            fprintf(errfile, "qhull internal warning (main): did not free %d bytes of long memory (%d pieces)\n",
-                    totlong, curlong);
-
         //clock_t endT = clock();
         //long timeMS = (long)(((float)(endT - startT) / (float)CLOCKS_PER_SEC) * 1000.0);
 
         //cout << __FUNCTION__ << ": Created convex hull in " << timeMS << " ms" << endl;
-        if (lockMutex)
-        {
-            qhull_mutex.unlock();
-        }
-
         return result;
     }
 
     VirtualRobot::MathTools::ConvexHull6DPtr ConvexHullGenerator::CreateConvexHull(std::vector<ContactPoint>& pointsInput, bool lockMutex)
     {
+        boost::unique_lock<boost::mutex> lock(qhull_mutex, boost::defer_lock);
+
         if (lockMutex)
         {
-            qhull_mutex.lock();
+            lock.lock();
         }
 
         //clock_t startT = clock();
@@ -302,17 +309,12 @@ namespace GraspStudio
         {
             cout << __FUNCTION__ << "Error: Need at least 4 points (nr of points registered: " << nPoints << ")" << endl;
 
-            if (lockMutex)
-            {
-                qhull_mutex.unlock();
-            }
-
             return result;
         }
 
         int dim = 6;                /* dimension of points */
         int numpoints = nPoints;    /* number of points */
-        coordT* points = new coordT[(6)*nPoints];   /* array of coordinates for each point */
+        std::vector<coordT> points((6) * nPoints);   /* array of coordinates for each point */
         boolT ismalloc = False;     /* True if qhull should free points in qh_freeqhull() or reallocation */
         char flags[250];            /* option flags for qhull, see qh_opt.htm */
 #ifdef CONVEXHULL_DEBUG_OUTPUT
@@ -325,7 +327,6 @@ namespace GraspStudio
         FILE* errfile = stderr;     /* error messages from qhull code */
         int exitcode;               /* 0 if no error from qhull */
         facetT* facet;              /* set by FORALLfacets */
-        int curlong, totlong;       /* memory remaining after qh_memfreeshort */
         vertexT* vertex, **vertexp;
 
         // qhull options:
@@ -345,19 +346,18 @@ namespace GraspStudio
 
         //cout << "QHULL input: nVertices: " << pointsInput.size() << endl;
         //printVertices(pointsInput);
-        ConvertPoints(pointsInput, points, false);
-        exitcode = qh_new_qhull(dim, numpoints, points, ismalloc,
+        ConvertPoints(pointsInput, points.data(), false);
+        exitcode = qh_new_qhull(dim, numpoints, points.data(), ismalloc,
                                 flags, outfile, errfile);
+        QHullMemory memory;         /* frees qhull's memory, also in case of an exception */
 
-        if (!exitcode)                    /* if no error */
+        if (!exitcode)
         {
-            facetT* facet_list = qh facet_list;
-            //int convexNumFaces = qh num_facets;
-            /*int convexNumVert =*/ qh_setsize(qh_facetvertices(facet_list, nullptr, false));
+            exitcode = finishHull();
+        }
 
-            qh_triangulate(); // need this for triangulated output!
-            //int convexNumFaces2 = qh num_facets;
-            /*int convexNumVert2 =*/ qh_setsize(qh_facetvertices(facet_list, nullptr, false));
+        if (!exitcode)                    /* if no error */
+        {
             double pCenter[6];
 
             for (double & u : pCenter)
@@ -402,7 +402,6 @@ namespace GraspStudio
             MathTools::TriangleFace6D f;
 
             int nFacets = 0;
-            qh_getarea(qh facet_list);
             result->volume = qh totvol;
             double p[6];
             p[0] = p[1] = p[2] = p[3] = p[4] = p[5] = 0;
@@ -498,22 +497,10 @@ namespace GraspStudio
             cout << "QHULL result: nFactes: " << convexNumFaces2 << endl;*/
         }
 
-        qh_freeqhull(!qh_ALL);
-        qh_memfreeshort(&curlong, &totlong);
-
-        if (curlong || totlong)
-            fprintf(errfile, "qhull internal warning (main): did not free %d bytes of long memory (%d pieces)\n",
-                    totlong, curlong);
-
         //clock_t endT = clock();
         //long timeMS = (long)(((float)(endT - startT) / (float)CLOCKS_PER_SEC) * 1000.0);
 
         //cout << __FUNCTION__ << ": Created 6D convex hull in " << timeMS << " ms" << endl;
-        if (lockMutex)
-        {
-            qhull_mutex.unlock();
-        }
-
         return result;
     }
 
-- 
2.43.0


From 5b17373aa4b992121d46e13a051dd04cff0731a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:07 +0000
Subject: [PATCH 26/49] fix: grasp quality measures use the contact points they
 are given

---
 VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp b/VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp
index 8abfe98..6297085 100644
--- a/VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp
+++ b/VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp
@@ -70,13 +70,13 @@ namespace VirtualRobot
     BasicGraspQualityMeasure::~BasicGraspQualityMeasure()
     = default;
 
-    void BasicGraspQualityMeasure::setContactPoints(const std::vector<VirtualRobot::MathTools::ContactPoint>& /*contactPoints6d*/)
+    void BasicGraspQualityMeasure::setContactPoints(const std::vector<VirtualRobot::MathTools::ContactPoint>& contactPoints6d)
     {
         this->contactPoints.clear();
         this->contactPointsM.clear();
         std::vector<MathTools::ContactPoint>::const_iterator objPointsIter;
 
-        for (objPointsIter = contactPoints.begin(); objPointsIter != contactPoints.end(); objPointsIter++)
+        for (objPointsIter = contactPoints6d.begin(); objPointsIter != contactPoints6d.end(); objPointsIter++)
         {
             MathTools::ContactPoint point = (*objPointsIter);
             point.p -= centerOfModel;
-- 
2.43.0


From 1a046fdd76240d6f1942876f8b0e91263815852d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:07 +0000
Subject: [PATCH 27/49] fix: contacts without a wrench hull are not force
 closure

---
 GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp  | 3 ++-
 .../GraspQualityMeasureWrenchSpaceNotNormalized.cpp            | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
index 86f4408..86f734e 100644
--- a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
+++ b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
@@ -374,7 +374,8 @@ namespace GraspStudio
     }
     bool GraspQualityMeasureWrenchSpace::isOriginInGWSHull()
     {
-        if (!GWSCalculated || !convexHullGWS)
+        // without contacts, or if their wrenches span no volume, there is no hull
+        if (!GWSCalculated || !convexHullGWS || convexHullGWS->faces.empty())
         {
             return false;
         }
diff --git a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
index 7433974..f163f33 100644
--- a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
+++ b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
@@ -256,7 +256,8 @@ namespace GraspStudio
     }
     bool GraspQualityMeasureWrenchSpaceNotNormalized::isOriginInGWSHull()
     {
-        if (!GWSCalculated || !convexHullGWS)
+        // without contacts, or if their wrenches span no volume, there is no hull
+        if (!GWSCalculated || !convexHullGWS || convexHullGWS->faces.empty())
         {
             return false;
         }
-- 
2.43.0


From 8348203d442d15d3a45f3b12616647e6266d67e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:07 +0000
Subject: [PATCH 28/49] fix: grasp quality without contacts is not the one of
 the contacts before

---
 .../GraspQuality/GraspQualityMeasureWrenchSpace.cpp       | 8 ++++++--
 .../GraspQualityMeasureWrenchSpaceNotNormalized.cpp       | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
index 86f734e..2fcc97c 100644
--- a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
+++ b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
@@ -44,14 +44,18 @@ namespace GraspStudio
 
     void GraspQualityMeasureWrenchSpace::setContactPoints(const std::vector<VirtualRobot::MathTools::ContactPoint>& contactPoints)
     {
-        GraspQualityMeasure::setContactPoints(contactPoints);
+        // the hull belongs to the old contacts
         GWSCalculated = false;
+        convexHullGWS.reset();
+        GraspQualityMeasure::setContactPoints(contactPoints);
     }
 
     void GraspQualityMeasureWrenchSpace::setContactPoints(const VirtualRobot::EndEffector::ContactInfoVector& contactPoints)
     {
-        GraspQualityMeasure::setContactPoints(contactPoints);
+        // the hull belongs to the old contacts
         GWSCalculated = false;
+        convexHullGWS.reset();
+        GraspQualityMeasure::setContactPoints(contactPoints);
     }
 
 
diff --git a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
index f163f33..dbbcd0f 100644
--- a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
+++ b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
@@ -29,14 +29,18 @@ namespace GraspStudio
 
     void GraspQualityMeasureWrenchSpaceNotNormalized::setContactPoints(const std::vector<VirtualRobot::MathTools::ContactPoint>& contactPoints)
     {
-        GraspQualityMeasure::setContactPoints(contactPoints);
+        // the hull belongs to the old contacts
         GWSCalculated = false;
+        convexHullGWS.reset();
+        GraspQualityMeasure::setContactPoints(contactPoints);
     }
 
     void GraspQualityMeasureWrenchSpaceNotNormalized::setContactPoints(const VirtualRobot::EndEffector::ContactInfoVector& contactPoints)
     {
-        GraspQualityMeasure::setContactPoints(contactPoints);
+        // the hull belongs to the old contacts
         GWSCalculated = false;
+        convexHullGWS.reset();
+        GraspQualityMeasure::setContactPoints(contactPoints);
     }
 
 
-- 
2.43.0


From aa18cfa78c893249d0fc685806b3fdc97b7226fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:07 +0000
Subject: [PATCH 29/49] fix: not normalized grasp quality is the smallest
 offset of the hull

---
 .../GraspQualityMeasureWrenchSpaceNotNormalized.cpp             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
index dbbcd0f..07e409b 100644
--- a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
+++ b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
@@ -299,7 +299,7 @@ namespace GraspStudio
                 nWrongFacets++;
                 continue;
             }
-            fRes = std::max(fRes, -dist);
+            fRes = std::min(fRes, static_cast<float>(-dist));
         }
 
         if (nWrongFacets > 0)
-- 
2.43.0


From f3705eefd17f134d810706ce9f357d9a626547f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:28 +0000
Subject: [PATCH 30/49] fix: contacts that exert no force do not make a grasp
 force closure

---
 .../GraspQuality/GraspQualityMeasureWrenchSpace.cpp         | 6 ++++++
 .../GraspQualityMeasureWrenchSpaceNotNormalized.cpp         | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
index 2fcc97c..6f61f6e 100644
--- a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
+++ b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
@@ -150,6 +150,12 @@ namespace GraspStudio
 
         for (objPointsIter = contactPointsM.begin(); objPointsIter != contactPointsM.end(); objPointsIter++)
         {
+            // without a force there is no wrench (a zero wrench would put the origin into the hull)
+            if (objPointsIter->force == 0.0f)
+            {
+                continue;
+            }
+
             if (verbose && printAll)
             {
                 MathTools::print((*objPointsIter));
diff --git a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
index 07e409b..4b88f2f 100644
--- a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
+++ b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
@@ -82,6 +82,12 @@ namespace GraspStudio
 
         for (objPointsIter = contactPointsM.begin(); objPointsIter != contactPointsM.end(); objPointsIter++)
         {
+            // without a force there is no wrench (a zero wrench would put the origin into the hull)
+            if (objPointsIter->force == 0.0f)
+            {
+                continue;
+            }
+
             if (verbose && printAll)
             {
                 MathTools::print((*objPointsIter));
-- 
2.43.0


From a8f4999c83906553e658f61027af4a2f5ab1c09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 31/49] fix: a time out of zero disables the time limit of the
 grasp planner

---
 GraspPlanning/GraspPlanner/GenericGraspPlanner.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/GraspPlanning/GraspPlanner/GenericGraspPlanner.cpp b/GraspPlanning/GraspPlanner/GenericGraspPlanner.cpp
index 2ef3d9d..a7c106f 100644
--- a/GraspPlanning/GraspPlanner/GenericGraspPlanner.cpp
+++ b/GraspPlanning/GraspPlanner/GenericGraspPlanner.cpp
@@ -306,8 +306,9 @@ namespace GraspStudio
 
     bool GenericGraspPlanner::timeout()
     {
-        return timeOutDuration.count() <= 0
-               || std::chrono::system_clock::now() > (startTime + timeOutDuration);
+        // (zero disables the time out)
+        return timeOutDuration.count() > 0
+               && std::chrono::system_clock::now() > (startTime + timeOutDuration);
     }
 
 } // namespace
-- 
2.43.0


From 0710e1b70f33a1b5f645b72a1ab993f5e924b956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 32/49] fix: the time limit of the grasp planner does not
 follow the wall clock

---
 GraspPlanning/GraspPlanner/GenericGraspPlanner.cpp | 8 ++++----
 GraspPlanning/GraspPlanner/GenericGraspPlanner.h   | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/GraspPlanning/GraspPlanner/GenericGraspPlanner.cpp b/GraspPlanning/GraspPlanner/GenericGraspPlanner.cpp
index a7c106f..dde32a1 100644
--- a/GraspPlanning/GraspPlanner/GenericGraspPlanner.cpp
+++ b/GraspPlanning/GraspPlanner/GenericGraspPlanner.cpp
@@ -40,7 +40,7 @@ namespace GraspStudio
 
     int GenericGraspPlanner::plan(int nrGrasps, int timeOutMS, VirtualRobot::SceneObjectSetPtr obstacles)
     {
-        startTime = std::chrono::system_clock::now();
+        startTime = std::chrono::steady_clock::now();
         this->timeOutDuration = std::chrono::milliseconds(timeOutMS);
 
         int nLoop = 0;
@@ -121,7 +121,7 @@ namespace GraspStudio
 
     VirtualRobot::GraspPtr GenericGraspPlanner::planGrasp(VirtualRobot::SceneObjectSetPtr obstacles)
     {
-        auto start_time = chrono::high_resolution_clock::now();
+        auto start_time = chrono::steady_clock::now();
         std::string graspPlannerName = "Simox - GraspStudio - " + graspQuality->getName();
         std::string graspNameBase = "Grasp ";
 
@@ -209,7 +209,7 @@ namespace GraspStudio
 
         auto getTimeMS = [&start_time]()
         {
-            auto end_time = chrono::high_resolution_clock::now();
+            auto end_time = chrono::steady_clock::now();
             float ms = chrono::duration_cast<chrono::milliseconds>(end_time - start_time).count();
             return ms;
         };
@@ -308,7 +308,7 @@ namespace GraspStudio
     {
         // (zero disables the time out)
         return timeOutDuration.count() > 0
-               && std::chrono::system_clock::now() > (startTime + timeOutDuration);
+               && std::chrono::steady_clock::now() > (startTime + timeOutDuration);
     }
 
 } // namespace
diff --git a/GraspPlanning/GraspPlanner/GenericGraspPlanner.h b/GraspPlanning/GraspPlanner/GenericGraspPlanner.h
index 7e426ab..d12b20a 100644
--- a/GraspPlanning/GraspPlanner/GenericGraspPlanner.h
+++ b/GraspPlanning/GraspPlanner/GenericGraspPlanner.h
@@ -90,7 +90,7 @@ namespace GraspStudio
         VirtualRobot::SceneObjectPtr object;
         VirtualRobot::EndEffectorPtr eef;
 
-        std::chrono::system_clock::time_point startTime;
+        std::chrono::steady_clock::time_point startTime;
         std::chrono::milliseconds timeOutDuration;
         
         VirtualRobot::EndEffector::ContactInfoVector contacts;
-- 
2.43.0


From c77adfc56cad766febcea5813854a97c6d08474a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 33/49] fix: random retreats of approach poses are checked with
 the moved hand

---
 GraspPlanning/ApproachMovementSurfaceNormal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GraspPlanning/ApproachMovementSurfaceNormal.cpp b/GraspPlanning/ApproachMovementSurfaceNormal.cpp
index d5264e9..ab01d99 100644
--- a/GraspPlanning/ApproachMovementSurfaceNormal.cpp
+++ b/GraspPlanning/ApproachMovementSurfaceNormal.cpp
@@ -103,7 +103,7 @@ namespace GraspStudio
             Eigen::Vector3f delta = approachDir * distance;
             updateEEFPose(delta);
 
-            if (!eef_cloned->getCollisionChecker()->checkCollision(object, eef->createSceneObjectSet()))
+            if (!eef_cloned->getCollisionChecker()->checkCollision(object, eef_cloned->createSceneObjectSet()))
             {
                 poseB = getEEFPose();
             } // else remain at original pose
-- 
2.43.0


From 2e76aac4b928a2e134da74059a6a1972f39f36e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 34/49] fix: approach poses are moved with the coordinate
 system they are set with

---
 GraspPlanning/ApproachMovementGenerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GraspPlanning/ApproachMovementGenerator.cpp b/GraspPlanning/ApproachMovementGenerator.cpp
index 3d5093a..b744c68 100644
--- a/GraspPlanning/ApproachMovementGenerator.cpp
+++ b/GraspPlanning/ApproachMovementGenerator.cpp
@@ -67,14 +67,14 @@ namespace GraspStudio
 
     bool ApproachMovementGenerator::updateEEFPose(const Eigen::Vector3f& deltaPosition)
     {
-        Eigen::Matrix4f pose = eef_cloned->getGCP()->getGlobalPose();
+        Eigen::Matrix4f pose = getEEFPose();
         math::Helpers::Position(pose) += deltaPosition;
         return setEEFPose(pose);
     }
 
     bool ApproachMovementGenerator::updateEEFPose(const Eigen::Matrix4f& deltaPose)
     {
-        Eigen::Matrix4f pose = eef_cloned->getGCP()->getGlobalPose();
+        Eigen::Matrix4f pose = getEEFPose();
         pose = deltaPose * pose;
         return setEEFPose(pose);
     }
-- 
2.43.0


From 8bfa0d24b974d705df16bd5ed841e26a51f250ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:17 +0000
Subject: [PATCH 35/49] fix: faces are selected by their area when asked for

---
 GraspPlanning/ApproachMovementSurfaceNormal.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GraspPlanning/ApproachMovementSurfaceNormal.cpp b/GraspPlanning/ApproachMovementSurfaceNormal.cpp
index ab01d99..b02f598 100644
--- a/GraspPlanning/ApproachMovementSurfaceNormal.cpp
+++ b/GraspPlanning/ApproachMovementSurfaceNormal.cpp
@@ -22,6 +22,7 @@ namespace GraspStudio
             const std::string& graspPreshape, float maxRetreatDist, bool useFaceAreaDistribution)
         : ApproachMovementGenerator(object, eef, graspPreshape),
           distribUniform(0, objectModel->faces.size() - 1),
+          useFaceAreasDistrib(useFaceAreaDistribution),
           distribRetreatDistance(0, maxRetreatDist)
     {
         name = "ApproachMovementSurfaceNormal";
-- 
2.43.0


From 9dba14bf9b4711bcab45efe028af9a0f0604526c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:17 +0000
Subject: [PATCH 36/49] fix: evaluating grasps without contacts restores hand
 and object

---
 .../GraspEvaluationPoseUncertainty.cpp        | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp b/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp
index 5d960bc..8fc609a 100644
--- a/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp
+++ b/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp
@@ -194,14 +194,14 @@ GraspEvaluationPoseUncertainty::PoseEvalResult GraspEvaluationPoseUncertainty::e
     result.quality = 0.0f;
     result.initialCollision = false;
 
-     SceneObjectSetPtr eefColModel = eef->createSceneObjectSet();
-
     if (!eef || !qm)
     {
         VR_ERROR << "Missing parameters" << endl;
         return result;
     }
 
+    SceneObjectSetPtr eefColModel = eef->createSceneObjectSet();
+
     if (preshape)
     {
         eef->getRobot()->setJointValues(preshape);
@@ -333,6 +333,13 @@ GraspEvaluationPoseUncertainty::PoseEvalResults GraspEvaluationPoseUncertainty::
     Eigen::Matrix4f objectPoseInit = object->getGlobalPose();
     VirtualRobot::RobotConfigPtr initialConf = eef->getConfiguration();
 
+    auto restoreSetup = [&]()
+    {
+        eef->getRobot()->setGlobalPose(eefRobotPoseInit);
+        object->setGlobalPose(objectPoseInit);
+        eef->getRobot()->setConfig(initialConf);
+    };
+
     std::string graspPreshapeName = grasp->getPreshapeName();
     VirtualRobot::RobotConfigPtr graspPS;
     if (eef->hasPreshape(graspPreshapeName))
@@ -358,6 +365,7 @@ GraspEvaluationPoseUncertainty::PoseEvalResults GraspEvaluationPoseUncertainty::
     if (contacts.empty())
     {
         VR_INFO << "No contacts for grasp " << grasp->getName() << " found" << std::endl;
+        restoreSetup();
         return res;
     }
     
@@ -365,15 +373,12 @@ GraspEvaluationPoseUncertainty::PoseEvalResults GraspEvaluationPoseUncertainty::
     if (poses.empty())
     {
         VR_INFO << "No poses for grasp found" << std::endl;
+        restoreSetup();
         return res;
     }
     res = evaluatePoses(eef, object, poses, qm, graspPS);
 
-    // restore setup
-    eef->getRobot()->setGlobalPose(eefRobotPoseInit);
-    object->setGlobalPose(objectPoseInit);
-    eef->getRobot()->setConfig(initialConf);
-
+    restoreSetup();
     return res;
 }
 
-- 
2.43.0


From 9c99420984a38b118c07f0a4e6935ea6a48af87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:34 +0000
Subject: [PATCH 37/49] fix: poses on a grid around the grasp center are poses
 of the object

---
 GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp b/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp
index 8fc609a..4238306 100644
--- a/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp
+++ b/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp
@@ -28,7 +28,7 @@ std::vector<Eigen::Matrix4f> GraspEvaluationPoseUncertainty::generatePoses(
         const Eigen::Matrix4f &objectGP, const Eigen::Matrix4f &graspCenterGP)
 {
 	std::vector<Eigen::Matrix4f> result;
-	Eigen::Matrix4f trafoGraspCenterToObjectCenter = objectGP * graspCenterGP.inverse();
+	Eigen::Matrix4f trafoGraspCenterToObjectCenter = math::Helpers::InvertedPose(graspCenterGP) * objectGP;
 	Eigen::Matrix4f initPose = graspCenterGP;
 	Eigen::Vector3f rpy;
 	MathTools::eigen4f2rpy(initPose, rpy);
-- 
2.43.0


From a03acaddb1411fe750f5a064599453680e9d0278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:04 +0000
Subject: [PATCH 38/49] fix: the hand approaches the object where the object is

---
 GraspPlanning/ApproachMovementSurfaceNormal.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/GraspPlanning/ApproachMovementSurfaceNormal.cpp b/GraspPlanning/ApproachMovementSurfaceNormal.cpp
index b02f598..c1925ba 100644
--- a/GraspPlanning/ApproachMovementSurfaceNormal.cpp
+++ b/GraspPlanning/ApproachMovementSurfaceNormal.cpp
@@ -9,6 +9,7 @@
 #include <VirtualRobot/EndEffector/EndEffector.h>
 #include <VirtualRobot/Nodes/RobotNode.h>
 #include <VirtualRobot/Visualization/TriMeshModel.h>
+#include <VirtualRobot/math/Helpers.h>
 
 
 using namespace std;
@@ -66,7 +67,12 @@ namespace GraspStudio
             std::cout << "Normal in trimesh not normalized!";
             storeApproachDir.normalize();
         }
-        
+
+        // (the model is given in the coordinate system of the object)
+        const Eigen::Matrix4f objectPose = object->getGlobalPose();
+        storePos = math::Helpers::TransformPosition(objectPose, storePos);
+        storeApproachDir = objectPose.block<3, 3>(0, 0) * storeApproachDir;
+
         return true;
     }
 
-- 
2.43.0


From 6cc01d730caf55605e377af35d3a3b30c9c7035f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:08 +0000
Subject: [PATCH 39/49] fix: a node is put to a pose whatever pose the robot
 has

---
 VirtualRobot/Robot.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Robot.cpp b/VirtualRobot/Robot.cpp
index 86f2683..0a32091 100644
--- a/VirtualRobot/Robot.cpp
+++ b/VirtualRobot/Robot.cpp
@@ -834,7 +834,8 @@ namespace VirtualRobot
         THROW_VR_EXCEPTION_IF(!node, "NULL node");
         ReadLock lock(mutex, use_mutex);
         
-        if (math::Helpers::Orientation(globalPoseNode).isIdentity())
+        if (math::Helpers::Orientation(globalPoseNode).isIdentity()
+            && math::Helpers::Orientation(node->getGlobalPose()).isIdentity())
         {
             // set position to avoid accumulating rounding errors when using rotation
             return getGlobalPositionForRobotNode(node, math::Helpers::Position(globalPoseNode));
@@ -873,7 +874,10 @@ namespace VirtualRobot
         // apply translation to current global position of robot
         const Eigen::Vector3f robotPosition = getGlobalPosition() + translation;
         
-        return math::Helpers::Pose(robotPosition);
+        // (the orientation of the robot is kept)
+        Eigen::Matrix4f robotPose = getGlobalPose();
+        math::Helpers::Position(robotPose) = robotPosition;
+        return robotPose;
     }
     
     void Robot::setGlobalPositionForRobotNode(
-- 
2.43.0


From 212732fb0187795c6ef2562d1536dc6a78faa941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:14 +0000
Subject: [PATCH 40/49] fix: every pose of a grasp is evaluated with the same
 initial hand

---
 GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp b/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp
index 4238306..b43d5bf 100644
--- a/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp
+++ b/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp
@@ -261,6 +261,8 @@ GraspEvaluationPoseUncertainty::PoseEvalResults GraspEvaluationPoseUncertainty::
     std::vector<PoseEvalResult> results;
     for (const auto& objectPose : objectPoses)
     {
+        // (joints that the preshape leaves open must not depend on the pose before)
+        eef->getRobot()->setConfig(initialConf);
         results.push_back(evaluatePose(eef, object, objectPose, qm, preshape));
     }
 
-- 
2.43.0


From 630ac5d3147e5b6be724bb967eb1946529f0d984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:48 +0000
Subject: [PATCH 41/49] fix: an object without grasps for the hand is no reason
 to crash

---
 VirtualRobot/IK/AdvancedIKSolver.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/IK/AdvancedIKSolver.cpp b/VirtualRobot/IK/AdvancedIKSolver.cpp
index a91953e..28cc451 100644
--- a/VirtualRobot/IK/AdvancedIKSolver.cpp
+++ b/VirtualRobot/IK/AdvancedIKSolver.cpp
@@ -128,7 +128,12 @@ namespace VirtualRobot
             return GraspPtr();
         }
 
-        GraspSetPtr gs = object->getGraspSet(eef)->clone();
+        GraspSetPtr gs = object->getGraspSet(eef);
+
+        if (gs)
+        {
+            gs = gs->clone();
+        }
 
         if (!gs || gs->getSize() == 0)
         {
-- 
2.43.0


From 4f2adc9cb4fc4988c756218280ddc14e35dc18b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:12 +0000
Subject: [PATCH 42/49] fix: inverse kinematics that ends with an exception
 leaves the robot's update settings and joints as they were

---
 VirtualRobot/IK/AdvancedIKSolver.cpp          | 61 ++++++++++------
 VirtualRobot/IK/ConstrainedOptimizationIK.cpp | 10 ++-
 VirtualRobot/IK/UpdateStatusGuard.h           | 72 +++++++++++++++++++
 3 files changed, 117 insertions(+), 26 deletions(-)
 create mode 100644 VirtualRobot/IK/UpdateStatusGuard.h

diff --git a/VirtualRobot/IK/AdvancedIKSolver.cpp b/VirtualRobot/IK/AdvancedIKSolver.cpp
index 28cc451..bfd3cfb 100644
--- a/VirtualRobot/IK/AdvancedIKSolver.cpp
+++ b/VirtualRobot/IK/AdvancedIKSolver.cpp
@@ -14,6 +14,7 @@
 #include "../RobotConfig.h"
 #include "../CollisionDetection/CollisionChecker.h"
 #include "../CollisionDetection/CDManager.h"
+#include "UpdateStatusGuard.h"
 
 
 
@@ -24,6 +25,36 @@ using namespace Eigen;
 namespace VirtualRobot
 {
 
+    namespace
+    {
+        // puts the joints back to where they were, unless the result is accepted
+        struct JointValuesGuard
+        {
+            JointValuesGuard(RobotNodeSetPtr rns) : rns(rns), accepted(false)
+            {
+                rns->getJointValues(v);
+            }
+
+            ~JointValuesGuard()
+            {
+                if (!accepted)
+                {
+                    try
+                    {
+                        rns->getRobot()->setJointValues(rns, v);
+                    }
+                    catch (...)
+                    {
+                    }
+                }
+            }
+
+            RobotNodeSetPtr rns;
+            std::vector<float> v;
+            bool accepted;
+        };
+    }
+
     AdvancedIKSolver::AdvancedIKSolver(RobotNodeSetPtr rns) :
         IKSolver(), rns(rns)
     {
@@ -74,16 +105,13 @@ namespace VirtualRobot
     std::vector<float> AdvancedIKSolver::solveNoRNSUpdate(const Eigen::Matrix4f& globalPose, CartesianSelection selection)
     {
         std::vector<float> result;
-        std::vector<float> v;
-        rns->getJointValues(v);
+        JointValuesGuard joints(rns);
 
         if (solve(globalPose, selection))
         {
             rns->getJointValues(result);
         }
 
-        RobotPtr rob = rns->getRobot();
-        rob->setJointValues(rns, v);
         return result;
     }
 
@@ -141,7 +169,7 @@ namespace VirtualRobot
             return GraspPtr();
         }
 
-        bool updateStatus = robot->getUpdateVisualizationStatus();
+        UpdateStatusGuard updates(robot);
         robot->setUpdateVisualization(false);
 
         // check all grasps if there is an IK solution
@@ -151,14 +179,12 @@ namespace VirtualRobot
 
             if (g)
             {
-                robot->setUpdateVisualization(updateStatus);
+                updates.restore();
                 robot->applyJointValues();
                 return g;
             }
         }
 
-        robot->setUpdateVisualization(updateStatus);
-
         // when here, no grasp was successful
         return GraspPtr();
     }
@@ -169,22 +195,20 @@ namespace VirtualRobot
         THROW_VR_EXCEPTION_IF(!grasp, "NULL grasp");
         RobotPtr robot = rns->getRobot();
         THROW_VR_EXCEPTION_IF(!robot, "NULL robot");
-        bool updateStatus = robot->getUpdateVisualizationStatus();
+        UpdateStatusGuard updates(robot);
         robot->setUpdateVisualization(false);
 
-        std::vector<float> v;
-        rns->getJointValues(v);
+        JointValuesGuard joints(rns);
         Eigen::Matrix4f m = grasp->getTcpPoseGlobal(object->getGlobalPose());
 
         if (_sampleSolution(m, selection, maxLoops))
         {
-            robot->setUpdateVisualization(updateStatus);
+            joints.accepted = true;
+            updates.restore();
             robot->applyJointValues();
             return true;
         }
 
-        robot->setJointValues(rns, v);
-        robot->setUpdateVisualization(updateStatus);
         return false;
     }
 
@@ -200,8 +224,7 @@ namespace VirtualRobot
             return GraspPtr();
         }
 
-        std::vector<float> v;
-        rns->getJointValues(v);
+        JointValuesGuard joints(rns);
 
         int pos = rand() % graspSet->getSize();
         GraspPtr g = graspSet->getGrasp(pos);
@@ -214,13 +237,11 @@ namespace VirtualRobot
 #endif
             if (_sampleSolution(m, selection, maxLoops))
             {
+                joints.accepted = true;
                 return g;
             }
 
-        // did not succeed, reset joint values and remove grasp from temporary set
-        RobotPtr rob = rns->getRobot();
-        rob->setJointValues(rns, v);
-
+        // did not succeed, reset joint values (by the guard) and remove grasp from temporary set
         if (removeGraspFromSet)
         {
             graspSet->removeGrasp(g);
diff --git a/VirtualRobot/IK/ConstrainedOptimizationIK.cpp b/VirtualRobot/IK/ConstrainedOptimizationIK.cpp
index a04bbcc..633a847 100644
--- a/VirtualRobot/IK/ConstrainedOptimizationIK.cpp
+++ b/VirtualRobot/IK/ConstrainedOptimizationIK.cpp
@@ -23,6 +23,7 @@
 */
 
 #include "ConstrainedOptimizationIK.h"
+#include "UpdateStatusGuard.h"
 
 #include <nlopt.hpp>
 
@@ -97,8 +98,7 @@ bool ConstrainedOptimizationIK::solve(bool stepwise)
     THROW_VR_EXCEPTION_IF(stepwise, "Stepwise solving not possible with optimization IK");
     THROW_VR_EXCEPTION_IF(!optimizer, "IK not initialized, did you forget to call initialize()?");
 
-    bool updateVisualization = robot->getUpdateVisualizationStatus();
-    bool updateCollisionModel = robot->getUpdateCollisionModelStatus();
+    UpdateStatusGuard updates(robot);
 
     robot->setUpdateVisualization(false);
     bool collisionModelUsed = false;
@@ -199,8 +199,7 @@ bool ConstrainedOptimizationIK::solve(bool stepwise)
         if(success)
         {
             // Success
-            robot->setUpdateVisualization(updateVisualization);
-            robot->setUpdateCollisionModel(updateCollisionModel);
+            updates.restore();
             robot->updatePose(true);
             nodeSet->setJointValues(std::vector<float>(x.begin(), x.end()));
             return true;
@@ -217,8 +216,7 @@ bool ConstrainedOptimizationIK::solve(bool stepwise)
         nodeSet->setJointValues(std::vector<float>(bestJointValues.begin(), bestJointValues.end()));
     }
     // Failure
-    robot->setUpdateVisualization(updateVisualization);
-    robot->setUpdateCollisionModel(updateCollisionModel);
+    updates.restore();
     robot->updatePose(true);
 
     std::cout << "FAILURE, miminal error: " << currentMinError << std::endl;
diff --git a/VirtualRobot/IK/UpdateStatusGuard.h b/VirtualRobot/IK/UpdateStatusGuard.h
new file mode 100644
index 0000000..ff527c1
--- /dev/null
+++ b/VirtualRobot/IK/UpdateStatusGuard.h
@@ -0,0 +1,72 @@
+/**
+* This file is part of Simox.
+*
+* Simox is free software; you can redistribute it and/or modify
+* it under the terms of the GNU Lesser General Public License as
+* published by the Free Software Foundation; either version 2 of
+* the License, or (at your option) any later version.
+*
+* Simox is distributed in the hope that it will be useful, but
+* WITHOUT ANY WARRANTY; without even the implied warranty of
+* MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+* GNU Lesser General Public License for more details.
+*
+* You should have received a copy of the GNU Lesser General Public License
+* along with this program. If not, see <http://www.gnu.org/licenses/>.
+*
+*/
+#ifndef _VirtualRobot_UpdateStatusGuard_h_
+#define _VirtualRobot_UpdateStatusGuard_h_
+
+#include "../Robot.h"
+#include "../Nodes/RobotNode.h"
+
+#include <vector>
+
+namespace VirtualRobot
+{
+    /*!
+        Restores a robot's visualization and collision model update status when it goes out of scope,
+        also if that is due to an exception.
+    */
+    class UpdateStatusGuard
+    {
+    public:
+        UpdateStatusGuard(RobotPtr robot) :
+            robot(robot),
+            nodes(robot->getRobotNodes()),
+            visualization(robot->getUpdateVisualizationStatus()),
+            collisionModel(robot->getUpdateCollisionModelStatus())
+        {
+        }
+
+        ~UpdateStatusGuard()
+        {
+            restore();
+        }
+
+        void restore()
+        {
+            // enabling the visualization updates enables those of the collision model too: the order matters
+            robot->SceneObject::setUpdateVisualization(visualization);
+            robot->SceneObject::setUpdateCollisionModel(collisionModel);
+
+            for (auto & n : nodes)
+            {
+                n->setUpdateVisualization(visualization);
+                n->setUpdateCollisionModel(collisionModel);
+            }
+        }
+
+    private:
+        UpdateStatusGuard(const UpdateStatusGuard&);
+        UpdateStatusGuard& operator=(const UpdateStatusGuard&);
+
+        RobotPtr robot;
+        std::vector<RobotNodePtr> nodes;
+        bool visualization;
+        bool collisionModel;
+    };
+}
+
+#endif
-- 
2.43.0


From 2d07dea66b976b747c8ddf52a8937bd252a75ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:03 +0000
Subject: [PATCH 43/49] fix: an updated center of mass target is the one that
 is optimized and checked

---
 VirtualRobot/IK/constraints/CoMConstraint.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VirtualRobot/IK/constraints/CoMConstraint.cpp b/VirtualRobot/IK/constraints/CoMConstraint.cpp
index debe401..63ac70e 100644
--- a/VirtualRobot/IK/constraints/CoMConstraint.cpp
+++ b/VirtualRobot/IK/constraints/CoMConstraint.cpp
@@ -59,11 +59,13 @@ CoMConstraint::CoMConstraint(const RobotPtr &robot, const RobotNodeSetPtr &joint
 
 void CoMConstraint::updateTarget(const Eigen::Vector3f &target)
 {
+    this->target = target;
     ik->setGoal(target);
 }
 
 void CoMConstraint::updateTarget(const Eigen::Vector2f &target)
 {
+    this->target = target;
     ik->setGoal(target);
 }
 
-- 
2.43.0


From 3e57752edaf3a2dc0dfa58833281f486d2cfb81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:09 +0000
Subject: [PATCH 44/49] fix: a position short of the target is as far off as
 one beyond it

---
 VirtualRobot/IK/constraints/PositionConstraint.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/IK/constraints/PositionConstraint.cpp b/VirtualRobot/IK/constraints/PositionConstraint.cpp
index 12d1e7e..50538e1 100644
--- a/VirtualRobot/IK/constraints/PositionConstraint.cpp
+++ b/VirtualRobot/IK/constraints/PositionConstraint.cpp
@@ -25,6 +25,8 @@
 
 #include <VirtualRobot/Robot.h>
 
+#include <cmath>
+
 using namespace VirtualRobot;
 
 PositionConstraint::PositionConstraint(const VirtualRobot::RobotPtr &robot, const VirtualRobot::RobotNodeSetPtr &nodeSet, const VirtualRobot::SceneObjectPtr &eef,
@@ -105,13 +107,13 @@ bool PositionConstraint::checkTolerances()
     switch(cartesianSelection)
     {
         case IKSolver::CartesianSelection::X:
-            return d.x() <= tolerance;
+            return std::abs(d.x()) <= tolerance;
 
         case IKSolver::CartesianSelection::Y:
-            return d.y() <= tolerance;
+            return std::abs(d.y()) <= tolerance;
 
         case IKSolver::CartesianSelection::Z:
-            return d.z() <= tolerance;
+            return std::abs(d.z()) <= tolerance;
 
         case IKSolver::CartesianSelection::Position:
         case IKSolver::CartesianSelection::All:
-- 
2.43.0


From 6f71a3f98a8afc84a9eaae309c6c4bc069eb699c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:49 +0000
Subject: [PATCH 45/49] fix: the tolerances of a task space region are the ones
 given

---
 VirtualRobot/IK/constraints/TSRConstraint.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/IK/constraints/TSRConstraint.cpp b/VirtualRobot/IK/constraints/TSRConstraint.cpp
index c8d3a5b..0238709 100644
--- a/VirtualRobot/IK/constraints/TSRConstraint.cpp
+++ b/VirtualRobot/IK/constraints/TSRConstraint.cpp
@@ -40,8 +40,8 @@ TSRConstraint::TSRConstraint(const RobotPtr& robot, const RobotNodeSetPtr& nodeS
     transformation(transformation),
     eefOffset(eefOffset),
     bounds(bounds),
-    toleranceTranslation(1.0f),
-    toleranceRotation(0.1f),
+    toleranceTranslation(tolerancePosition),
+    toleranceRotation(toleranceRotation),
     posRotTradeoff(0.1f)
 {
     ik.reset(new DifferentialIK(nodeSet));
-- 
2.43.0


From 6aa0005b4a0736bf4abe149f8965f6c009131087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:56 +0000
Subject: [PATCH 46/49] fix: transformations between nodes and centers of mass
 come from one state of the robot

---
 VirtualRobot/Nodes/RobotNode.cpp | 25 +++++++++++++++++++++++++
 VirtualRobot/Nodes/RobotNode.h   |  7 +++++++
 VirtualRobot/Robot.cpp           | 18 ++++++++++++++++++
 VirtualRobot/Robot.h             |  6 ++++++
 VirtualRobot/RobotNodeSet.cpp    |  4 ++++
 VirtualRobot/SceneObject.h       |  4 ++--
 6 files changed, 62 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Nodes/RobotNode.cpp b/VirtualRobot/Nodes/RobotNode.cpp
index 4287337..1ecc45e 100644
--- a/VirtualRobot/Nodes/RobotNode.cpp
+++ b/VirtualRobot/Nodes/RobotNode.cpp
@@ -895,6 +895,31 @@ namespace VirtualRobot
         return globalPose;
     }
 
+    // The lock of the robot, if both objects belong to it (locks of two robots are never held at the same time)
+    static ReadLockPtr lockCommonRobot(const RobotPtr& robot, const SceneObjectPtr& otherObject)
+    {
+        RobotNodePtr otherNode = boost::dynamic_pointer_cast<RobotNode>(otherObject);
+
+        if (otherObject == robot || (otherNode && otherNode->getRobot() == robot))
+        {
+            return robot->getReadLock();
+        }
+
+        return ReadLockPtr();
+    }
+
+    Eigen::Matrix4f RobotNode::getTransformationTo(const SceneObjectPtr otherObject)
+    {
+        ReadLockPtr lock = lockCommonRobot(getRobot(), otherObject);
+        return SceneObject::getTransformationTo(otherObject);
+    }
+
+    Eigen::Matrix4f RobotNode::getTransformationFrom(const SceneObjectPtr otherObject)
+    {
+        ReadLockPtr lock = lockCommonRobot(getRobot(), otherObject);
+        return SceneObject::getTransformationFrom(otherObject);
+    }
+
     Eigen::Matrix4f RobotNode::getPoseInRootFrame() const
     {
         RobotPtr r = getRobot();
diff --git a/VirtualRobot/Nodes/RobotNode.h b/VirtualRobot/Nodes/RobotNode.h
index 76403e8..e92dc39 100644
--- a/VirtualRobot/Nodes/RobotNode.h
+++ b/VirtualRobot/Nodes/RobotNode.h
@@ -151,6 +151,13 @@ namespace VirtualRobot
         */
         virtual Eigen::Matrix4f getGlobalPose() const override;
 
+        /*!
+            If the other object belongs to the same robot both poses are taken from one state of the robot.
+            This call locks the robot's mutex.
+        */
+        Eigen::Matrix4f getTransformationTo(const SceneObjectPtr otherObject) override;
+        Eigen::Matrix4f getTransformationFrom(const SceneObjectPtr otherObject) override;
+
         /*!
             The pose of this node in the root coordinate system of the robot.
             \return The pose in root frame
diff --git a/VirtualRobot/Robot.cpp b/VirtualRobot/Robot.cpp
index 0a32091..050303f 100644
--- a/VirtualRobot/Robot.cpp
+++ b/VirtualRobot/Robot.cpp
@@ -683,14 +683,32 @@ namespace VirtualRobot
     }
 
 
+    Eigen::Matrix4f Robot::getTransformationTo(const SceneObjectPtr otherObject)
+    {
+        RobotNodePtr otherNode = boost::dynamic_pointer_cast<RobotNode>(otherObject);
+        ReadLockPtr lock = otherNode && otherNode->getRobot().get() == this ? getReadLock() : ReadLockPtr();
+        return SceneObject::getTransformationTo(otherObject);
+    }
+
+    Eigen::Matrix4f Robot::getTransformationFrom(const SceneObjectPtr otherObject)
+    {
+        RobotNodePtr otherNode = boost::dynamic_pointer_cast<RobotNode>(otherObject);
+        ReadLockPtr lock = otherNode && otherNode->getRobot().get() == this ? getReadLock() : ReadLockPtr();
+        return SceneObject::getTransformationFrom(otherObject);
+    }
+
     Eigen::Vector3f Robot::getCoMLocal()
     {
+        ReadLockPtr lock = getReadLock();
         Eigen::Vector3f com = getCoMGlobal();
         return toLocalCoordinateSystemVec(com);
     }
 
     Eigen::Vector3f Robot::getCoMGlobal()
     {
+        // all poses have to belong to one state of the robot
+        ReadLockPtr lock = getReadLock();
+
         Eigen::Vector3f res;
         res.setZero();
 
diff --git a/VirtualRobot/Robot.h b/VirtualRobot/Robot.h
index d206189..720bc85 100644
--- a/VirtualRobot/Robot.h
+++ b/VirtualRobot/Robot.h
@@ -213,6 +213,12 @@ namespace VirtualRobot
 
         //virtual Eigen::Matrix4f getGlobalPose() = 0;
 
+        /*!
+            If the other object is a node of this robot both poses are taken from one state of the robot.
+        */
+        Eigen::Matrix4f getTransformationTo(const SceneObjectPtr otherObject) override;
+        Eigen::Matrix4f getTransformationFrom(const SceneObjectPtr otherObject) override;
+
         
         //! Return center of mass of this robot in local coordinate frame. All RobotNodes of this robot are considered according to their mass.
         Eigen::Vector3f getCoMLocal() override;
diff --git a/VirtualRobot/RobotNodeSet.cpp b/VirtualRobot/RobotNodeSet.cpp
index 1cc7aa5..15b75d6 100644
--- a/VirtualRobot/RobotNodeSet.cpp
+++ b/VirtualRobot/RobotNodeSet.cpp
@@ -595,6 +595,10 @@ namespace VirtualRobot
 
     Eigen::Vector3f RobotNodeSet::getCoM()
     {
+        // all poses have to belong to one state of the robot
+        RobotPtr rob = robot.lock();
+        ReadLockPtr lock = rob ? rob->getReadLock() : ReadLockPtr();
+
         Eigen::Vector3f res;
         res.setZero();
 
diff --git a/VirtualRobot/SceneObject.h b/VirtualRobot/SceneObject.h
index e0187af..827af41 100644
--- a/VirtualRobot/SceneObject.h
+++ b/VirtualRobot/SceneObject.h
@@ -225,13 +225,13 @@ namespace VirtualRobot
         /*!
             Returns the transformation matrix from this object to otherObject
         */
-        Eigen::Matrix4f getTransformationTo(const SceneObjectPtr otherObject);
+        virtual Eigen::Matrix4f getTransformationTo(const SceneObjectPtr otherObject);
 
 
         /*!
             Returns the transformation matrix from otherObject to this object
         */
-        Eigen::Matrix4f getTransformationFrom(const SceneObjectPtr otherObject);
+        virtual Eigen::Matrix4f getTransformationFrom(const SceneObjectPtr otherObject);
 
         /*!
             Transform pose to local coordinate system of this object
-- 
2.43.0


From 4aa7e0593a7dcd7c3bd9b5d37a5c95471b6f14a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:57 +0000
Subject: [PATCH 47/49] fix: a collision model that is given another margin
 stays where it is

---
 VirtualRobot/CollisionDetection/CollisionModel.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VirtualRobot/CollisionDetection/CollisionModel.cpp b/VirtualRobot/CollisionDetection/CollisionModel.cpp
index 4dd7f19..c5f9666 100644
--- a/VirtualRobot/CollisionDetection/CollisionModel.cpp
+++ b/VirtualRobot/CollisionDetection/CollisionModel.cpp
@@ -97,6 +97,8 @@ namespace VirtualRobot
 #else
             collisionModelImplementation.reset(new CollisionModelDummy(colChecker));
 #endif
+            // the new model is where the old one was
+            collisionModelImplementation->setGlobalPose(globalPose);
         }
         if(!origVisualization)
             margin = 0.0;
-- 
2.43.0


From 48c8b21a52fb6fe332b9abf5d88c9254459d0671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:17 +0000
Subject: [PATCH 48/49] fix: a shallow copy of a collision model keeps the
 safety margin

---
 VirtualRobot/CollisionDetection/CollisionModel.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/VirtualRobot/CollisionDetection/CollisionModel.cpp b/VirtualRobot/CollisionDetection/CollisionModel.cpp
index c5f9666..189aac6 100644
--- a/VirtualRobot/CollisionDetection/CollisionModel.cpp
+++ b/VirtualRobot/CollisionDetection/CollisionModel.cpp
@@ -141,16 +141,8 @@ namespace VirtualRobot
         else
         {
             p.reset(new CollisionModel(visuOrigNew, nameNew, colChecker, idNew, this->collisionModelImplementation));
-            if(visualization)
-            {
-                p->visualization = visualization->clone(false, scaling);
-                p->margin = margin;
-            }
-            else
-            {                
-                p->inflateModel(margin);
-            }
-
+            // (the new model is made of the original geometry)
+            p->inflateModel(margin);
         }
         p->setGlobalPose(getGlobalPose());
         p->setUpdateVisualization(getUpdateVisualizationStatus());
-- 
2.43.0


From acabed8088c43f74c85cda54044e5b835e6443c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:52 +0000
Subject: [PATCH 49/49] fix: planning again towards a goal which the tree
 contains already succeeds

---
 MotionPlanning/Planner/Rrt.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/MotionPlanning/Planner/Rrt.cpp b/MotionPlanning/Planner/Rrt.cpp
index 85aa412..42ff16c 100644
--- a/MotionPlanning/Planner/Rrt.cpp
+++ b/MotionPlanning/Planner/Rrt.cpp
@@ -261,6 +261,13 @@ namespace Saba
 
         SABA_ASSERT(nn);
 
+        // already part of the tree (e.g. the goal of an earlier search)
+        if (nn->configuration == c)
+        {
+            storeLastAddedID = nn->ID;
+            return eSuccess;
+        }
+
         CSpacePtr cspace = tree->getCSpace();
 
         // length of the new extension step
@@ -314,6 +321,13 @@ namespace Saba
 
         SABA_ASSERT(nn);
 
+        // already part of the tree (e.g. the goal of an earlier search)
+        if (nn->configuration == c)
+        {
+            storeLastAddedID = nn->ID;
+            return eSuccess;
+        }
+
         // CHECK PATH FOR COLLISIONS AND VALID NODES
         if (cspace->isPathValid(nn->configuration, c))
         {
@@ -334,6 +348,13 @@ namespace Saba
         // NEAREST NEIGHBOR OF RANDOM CONFIGURATION
         CSpaceNodePtr nn = tree->getNearestNeighbor(c);
 
+        // already part of the tree (e.g. the goal of an earlier search)
+        if (nn->configuration == c)
+        {
+            storeLastAddedID = nn->ID;
+            return eSuccess;
+        }
+
         int oldLastID = storeLastAddedID;
 
         // CHECK PATH FOR COLLISIONS AND VALID NODES
-- 
2.43.0

