From 81b30a2230ae54e0f699eae055f17c91f7cc39ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:01 +0000
Subject: [PATCH 01/13] fix: data loader admits only messages newer than every
 admitted one

The last time stamp was a function-local static: shared by all loaders, not
reset by Clear(), and lowered by a rejected message, so that a stale message
following a rejected one entered the queue out of order.
---
 .../include/data_manager/data_loader.hpp             |  3 +++
 eskf_vio_backend/src/data_manager/data_loader.cpp    | 12 ++++++------
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/eskf_vio_backend/include/data_manager/data_loader.hpp b/eskf_vio_backend/include/data_manager/data_loader.hpp
index d4b5622..91917e8 100644
--- a/eskf_vio_backend/include/data_manager/data_loader.hpp
+++ b/eskf_vio_backend/include/data_manager/data_loader.hpp
@@ -13,6 +13,9 @@ namespace ESKF_VIO_BACKEND {
         std::deque<std::shared_ptr<IMUMessage>> imuMeas;
         // 时间戳起点
         fp64 timeStampOffset = NAN;
+        // 最近一次被接受的特征点追踪数据和 IMU 量测数据的时间戳
+        fp64 lastFeatTimeStamp = -INFINITY;
+        fp64 lastImuTimeStamp = -INFINITY;
     public:
         // IMU 数据周期
         fp64 imuPeriod = 0.005;
diff --git a/eskf_vio_backend/src/data_manager/data_loader.cpp b/eskf_vio_backend/src/data_manager/data_loader.cpp
index ccc8391..079d859 100644
--- a/eskf_vio_backend/src/data_manager/data_loader.cpp
+++ b/eskf_vio_backend/src/data_manager/data_loader.cpp
@@ -9,6 +9,8 @@ namespace ESKF_VIO_BACKEND {
         this->featMeas.clear();
         this->imuMeas.clear();
         this->timeStampOffset = static_cast<fp64>(-1);
+        this->lastFeatTimeStamp = -INFINITY;
+        this->lastImuTimeStamp = -INFINITY;
     }
 
 
@@ -24,11 +26,10 @@ namespace ESKF_VIO_BACKEND {
         }
         newFeatMeas->timeStamp -= this->timeStampOffset;
         // 仅接受时间戳递增的输入
-        static fp64 lastTimeStamp = newFeatMeas->timeStamp - 1;
-        if (newFeatMeas->timeStamp > lastTimeStamp) {
+        if (newFeatMeas->timeStamp > this->lastFeatTimeStamp) {
             this->featMeas.emplace_back(newFeatMeas);
+            this->lastFeatTimeStamp = newFeatMeas->timeStamp;
         }
-        lastTimeStamp = newFeatMeas->timeStamp;
         return true;
     }
 
@@ -40,11 +41,10 @@ namespace ESKF_VIO_BACKEND {
             this->timeStampOffset = newImuMeas->timeStamp;
         }
         newImuMeas->timeStamp -= this->timeStampOffset;
-        static fp64 lastTimeStamp = newImuMeas->timeStamp - 1;
-        if (newImuMeas->timeStamp > lastTimeStamp) {
+        if (newImuMeas->timeStamp > this->lastImuTimeStamp) {
             this->imuMeas.emplace_back(newImuMeas);
+            this->lastImuTimeStamp = newImuMeas->timeStamp;
         }
-        lastTimeStamp = newImuMeas->timeStamp;
         return true;
     }
 
-- 
2.43.0


From 30df6dadf915821cb9bc98613aba7e0479219417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 02/13] fix: keep feature observations aligned with the frames
 they were made in

A feature's observations are indexed by frame id from its first frame on, but a
feature that was lost for some frames, given twice in one message or given
without any camera measurement shifted that index: later observations were
attributed to the wrong frames, or looked up out of range.
---
 .../data_manager/vision_data/feature_manager.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/eskf_vio_backend/src/data_manager/vision_data/feature_manager.cpp b/eskf_vio_backend/src/data_manager/vision_data/feature_manager.cpp
index ea81d8b..86a7867 100644
--- a/eskf_vio_backend/src/data_manager/vision_data/feature_manager.cpp
+++ b/eskf_vio_backend/src/data_manager/vision_data/feature_manager.cpp
@@ -56,8 +56,20 @@ namespace ESKF_VIO_BACKEND {
         }
         changedFeatures.reserve(ids.size());
         for (uint32_t i = 0; i < ids.size(); ++i) {
+            // 没有任何相机观测到的特征点，不与此帧关联
+            if (newObserves[i]->norms.empty()) {
+                continue;
+            }
             auto it = this->features.find(ids[i]);
             if (it != this->features.end()) {
+                // 同一帧内重复出现的特征点，仅保留首个观测
+                if (it->second->FinalFrameID() >= frameID) {
+                    continue;
+                }
+                // 追踪中断过的特征点，用空观测补齐中断的帧，保证观测与帧 ID 一一对应
+                while (it->second->FinalFrameID() + 1 < frameID) {
+                    it->second->observes.emplace_back(new FeatureObserve());
+                }
                 // 对应特征点已经存在时，直接添加观测
                 it->second->AddNewObserve(newObserves[i]);
                 changedFeatures.emplace_back(it->second);
@@ -90,7 +102,7 @@ namespace ESKF_VIO_BACKEND {
                 auto &feature = item.second;
                 if (feature->firstFrameID <= frameID && frameID <= feature->FinalFrameID()) {
                     // 如果此特征点只有这一个观测，则准备删除
-                    if (feature->observes.size()  == 1) {
+                    if (feature->observeNum == feature->observes[frameID - feature->firstFrameID]->norms.size()) {
                         feature->observes.clear();
                         needDelete.emplace_back(feature->id);
                         continue;
@@ -113,7 +125,7 @@ namespace ESKF_VIO_BACKEND {
                 auto &feature = item.second;
                 if (feature->firstFrameID == frameID) {
                     // 如果此特征点只有这一个观测，则准备删除
-                    if (feature->observes.size()  == 1) {
+                    if (feature->observeNum == feature->observes[0]->norms.size()) {
                         feature->observes.clear();
                         needDelete.emplace_back(feature->id);
                         continue;
-- 
2.43.0


From b20348388e45bc9fbf1a54192d41fa1fbd013186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 03/13] fix: initial attitude aligns the measured gravity with
 the world's at any tilt

The alignment was NaN for an exactly level (or upside-down) IMU, where the
rotation axis was a division of zero by zero, and fell short of the tilt
elsewhere, because a small-angle quaternion was used for the whole angle.
---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index bfdad83..b3155fc 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -19,12 +19,7 @@ namespace ESKF_VIO_BACKEND {
                 return false;
             }
             // 将重力加速度向量转化为旋转矩阵
-            Vector3 g_cross = g_imu.cross(g_word);
-            Scalar norm = g_cross.norm();
-            Vector3 u = g_cross / norm;
-            Scalar theta = std::atan2(norm, g_imu.transpose() * g_word);
-            Vector3 dq_v = u * theta;
-            Quaternion q_wb = Utility::DeltaQ(dq_v).normalized();
+            Quaternion q_wb = Quaternion::FromTwoVectors(g_imu, g_word);
             // 构造新的 item
             std::shared_ptr<AttitudeEstimateItem> newItem(new AttitudeEstimateItem());
             this->items.emplace_back(newItem);
-- 
2.43.0


From 8b7571197ed8a2ced4d147a68290d11947a64f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:01 +0000
Subject: [PATCH 04/13] fix: attitude estimator integrates the angular rate in
 its own direction

The corrected gyro was negated before the body-frame increment was appended, so
the attitude turned against the motion (40 degrees off after one second of
simulate/dynamic_scenes, 0.4 degrees now) and the gravity feedback diverged.
---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index b3155fc..1bda3a3 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -49,7 +49,7 @@ namespace ESKF_VIO_BACKEND {
             Vector3 gyrCorrect = gyrMid + err * this->Kp + this->errInt;
 
             // 更新姿态
-            Quaternion dq = Utility::DeltaQ(- gyrCorrect * static_cast<Scalar>(item_1->timeStamp - item_0->timeStamp));
+            Quaternion dq = Utility::DeltaQ(gyrCorrect * static_cast<Scalar>(item_1->timeStamp - item_0->timeStamp));
             item_1->q_wb = item_0->q_wb * dq;
             item_1->q_wb.normalize();
         }
-- 
2.43.0


From 62edc6e79b19840f7f1712960581f83461e5f4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:01 +0000
Subject: [PATCH 05/13] fix: cleaning the attitude history stops when nothing
 is left

With every item older than the threshold the loop read the front of an empty
queue.
---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index 1bda3a3..2002483 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -116,7 +116,7 @@ namespace ESKF_VIO_BACKEND {
         if (this->items.empty()) {
             return true;
         }
-        while (Scalar(timeStamp - this->items.front()->timeStamp) > threshold) {
+        while (!this->items.empty() && Scalar(timeStamp - this->items.front()->timeStamp) > threshold) {
             this->items.pop_front();
         }
         LogInfo(">> Attitude estimator reset at " << timeStamp << "s, " << this->items.size() <<
-- 
2.43.0


From cf1c7e2984438b0dff68fc5623a4358d3f31e795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:01 +0000
Subject: [PATCH 06/13] fix: attitude lookup also finds the only item when it
 is the later one

With a single item in the history, a time just before it was answered with a
failure, although the item was within the threshold.
---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index 2002483..66cb4d6 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -73,7 +73,7 @@ namespace ESKF_VIO_BACKEND {
         }
 
         // 最小的时间戳也大于目标时间戳
-        if (this->items.size() > 1 && this->items.front()->timeStamp >= timeStamp) {
+        if (this->items.front()->timeStamp >= timeStamp) {
             if (this->items.front()->timeStamp - timeStamp < threshold) {
                 atti = this->items.front()->q_wb;
                 return true;
-- 
2.43.0


From cc43ae32e02e21df8af08192f654c50b21d6d8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:01 +0000
Subject: [PATCH 07/13] fix: initialization starts the propagator from the
 initial state

After a failed update or a Reset() the old propagate queue was kept: the new
initial state was ignored, the covariance kept the old window's dimensions, and
every following update failed on them, so the backend never recovered.
---
 eskf_vio_backend/src/backend/backend_initialize.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eskf_vio_backend/src/backend/backend_initialize.cpp b/eskf_vio_backend/src/backend/backend_initialize.cpp
index 6254046..272ad4e 100644
--- a/eskf_vio_backend/src/backend/backend_initialize.cpp
+++ b/eskf_vio_backend/src/backend/backend_initialize.cpp
@@ -129,6 +129,8 @@ namespace ESKF_VIO_BACKEND {
     /* 初始化序列化 propagator */
     bool Backend::InitializePropagator(const IMUMotionState &initState,
                                        const fp64 startTime) {
+        // 重新初始化时，丢弃此前的递推序列，否则 initState 不会生效
+        this->propagator.items.clear();
         // 首帧位置设置为原点，将首帧位姿和速度赋值给 propagator 的 initState
         this->propagator.initState.p_wb = initState.p_wb;
         this->propagator.initState.v_wb = initState.v_wb;
-- 
2.43.0


From 36f16f1b987a539ee66ebc22590ab8125dc61209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:45 +0000
Subject: [PATCH 08/13] fix: configured IMU bias also reaches the attitude
 estimator

Only the propagator got it, so with a configured accelerometer bias the gravity
check of the attitude estimator ran on biased samples and could never pass.
---
 eskf_vio_backend/src/backend/backend_config.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eskf_vio_backend/src/backend/backend_config.cpp b/eskf_vio_backend/src/backend/backend_config.cpp
index eff0d7e..ad6d4d8 100644
--- a/eskf_vio_backend/src/backend/backend_config.cpp
+++ b/eskf_vio_backend/src/backend/backend_config.cpp
@@ -19,6 +19,7 @@ namespace ESKF_VIO_BACKEND {
                                                       this->config->imu.sigmaBiasGyroRandomWalk);
         this->propagator.bias_a = this->config->imu.defaultBiasAccel;
         this->propagator.bias_g = this->config->imu.defaultBiasGyro;
+        this->attitudeEstimator.SetBias(this->config->imu.defaultBiasAccel, this->config->imu.defaultBiasGyro);
         IMUFullState::gravity_w << 0.0, 0.0, this->config->imu.gravityNorm;
 
         this->frameManager.extrinsics.clear();
-- 
2.43.0


From 2ea0a34f398b534944a872447133706b57ab9ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:45 +0000
Subject: [PATCH 09/13] fix: subtract the IMU bias once from each buffered
 sample

The attitude history held bias-corrected samples, which a re-initialization
feeds to the propagator as raw ones, to be corrected a second time; the gravity
feedback used the uncorrected acceleration, and an all-zero sample made it NaN
for good.
---
 .../src/propagate/attitude_estimate.cpp         | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index 66cb4d6..568a18f 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -23,8 +23,8 @@ namespace ESKF_VIO_BACKEND {
             // 构造新的 item
             std::shared_ptr<AttitudeEstimateItem> newItem(new AttitudeEstimateItem());
             this->items.emplace_back(newItem);
-            newItem->accel = accel - this->bias_a;
-            newItem->gyro = gyro - this->bias_g;
+            newItem->accel = accel;
+            newItem->gyro = gyro;
             newItem->q_wb = q_wb.normalized();
             newItem->timeStamp = timeStamp;
             LogInfo(">> Attitude estimator init successfully.");
@@ -36,15 +36,18 @@ namespace ESKF_VIO_BACKEND {
             }
             std::shared_ptr<AttitudeEstimateItem> item_1(new AttitudeEstimateItem());
             this->items.emplace_back(item_1);
-            item_1->accel = accel - this->bias_a;
-            item_1->gyro = gyro - this->bias_g;
+            item_1->accel = accel;
+            item_1->gyro = gyro;
             item_1->timeStamp = timeStamp;
             
             // 利用加速度观测，修正角速度中值
-            Vector3 acc_b_measure = accel / accel.norm();
+            Vector3 acc_b_measure = accel - this->bias_a;
             Vector3 acc_b_target = item_0->q_wb.inverse() * IMUFullState::gravity_w / IMUFullState::gravity_w.norm();
-            Vector3 err = acc_b_measure.cross(acc_b_target);
-            Vector3 gyrMid = Scalar(0.5) * (item_0->gyro + item_1->gyro);
+            Vector3 err = Vector3::Zero();
+            if (acc_b_measure.norm() > ZERO) {
+                err = acc_b_measure.normalized().cross(acc_b_target);
+            }
+            Vector3 gyrMid = Scalar(0.5) * (item_0->gyro + item_1->gyro) - this->bias_g;
             this->errInt += err * this->Ki;
             Vector3 gyrCorrect = gyrMid + err * this->Kp + this->errInt;
 
-- 
2.43.0


From ceab5180603648b99ef87fb0ec62b1ef1131ca75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 10/13] fix: RANSAC PnP returns its best model, and returns at
 all

The pose of the last sample was returned instead of the best-scoring one, one
or two matches made the sampling loop run for ever, and a reused inlier mask
kept its old outliers.
---
 eskf_vio_backend/src/geometry/perspective_n_point.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/eskf_vio_backend/src/geometry/perspective_n_point.cpp b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
index b71aec0..ab2963d 100644
--- a/eskf_vio_backend/src/geometry/perspective_n_point.cpp
+++ b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
@@ -88,7 +88,8 @@ namespace ESKF_VIO_BACKEND {
                                        const std::vector<Vector2> &pts_2d,
                                        Quaternion &q_wc,
                                        Vector3 &p_wc) {
-        if (pts_3d.size() != pts_2d.size() || pts_3d.empty()) {
+        // 至少需要三对 3D-2D 才能进行随机采样
+        if (pts_3d.size() != pts_2d.size() || pts_3d.size() < 3) {
             return false;
         }
         uint32_t iter = this->ransacParam.maxIterateTimes;
@@ -140,6 +141,9 @@ namespace ESKF_VIO_BACKEND {
             }
             --iter;
         }
+        // 输出得分最高的模型
+        q_wc = best_q_wc;
+        p_wc = best_p_wc;
         return true;
     }
 
@@ -152,7 +156,7 @@ namespace ESKF_VIO_BACKEND {
                                        Vector3 &p_wc,
                                        std::vector<bool> &isInlier) {
         RETURN_FALSE_IF_FALSE(this->EstimatePoseRANSAC(pts_3d, pts_2d, q_wc, p_wc));
-        isInlier.resize(pts_3d.size(), true);
+        isInlier.assign(pts_3d.size(), true);
         for (uint32_t i = 0; i < pts_3d.size(); ++i) {
             Vector3 p_c = q_wc.inverse() * (pts_3d[i] - p_wc);
             Vector2 r = Vector2(p_c(0) / p_c(2), p_c(1) / p_c(2)) - pts_2d[i];
-- 
2.43.0


From 2547d811f3620c613e61eb5ecea20bc30e7af1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 11/13] fix: an incomplete config file is not loaded

A file with too few numbers set its parameters from the previously read file or
from uninitialized memory, and one with too many rows was written past the end
of the matrix.
---
 eskf_vio_backend/src/config/config.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/eskf_vio_backend/src/config/config.cpp b/eskf_vio_backend/src/config/config.cpp
index 3a6b28e..53cca5f 100644
--- a/eskf_vio_backend/src/config/config.cpp
+++ b/eskf_vio_backend/src/config/config.cpp
@@ -114,15 +114,22 @@ namespace ESKF_VIO_BACKEND {
             return false;
         }
         std::string oneLine;
-        mat.resize(rows, cols);
+        Matrix loadedMat(rows, cols);
         uint32_t row = 0;
-        while (std::getline(fsMatrix, oneLine) && !oneLine.empty()) {
+        while (row < rows && std::getline(fsMatrix, oneLine) && !oneLine.empty()) {
             std::istringstream matData(oneLine);
             for (uint32_t col = 0; col < cols; ++col) {
-                matData >> mat(row, col);
+                if (!(matData >> loadedMat(row, col))) {
+                    return false;
+                }
             }
             ++row;
         }
+        // 内容不完整的文件等同于不存在
+        if (row < rows) {
+            return false;
+        }
+        mat = loadedMat;
         return true;
     }
 }
\ No newline at end of file
-- 
2.43.0


From 50b7d087ce90b6c98097b7dead2983d259e7a4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 12/13] fix: RANSAC PnP never returns a pose that fewer points
 agree with than with the given one

The best score started at zero, so a sampled pose with a lower score than
the given pose replaced it.
---
 eskf_vio_backend/src/geometry/perspective_n_point.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/eskf_vio_backend/src/geometry/perspective_n_point.cpp b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
index ab2963d..ec2e844 100644
--- a/eskf_vio_backend/src/geometry/perspective_n_point.cpp
+++ b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
@@ -95,7 +95,15 @@ namespace ESKF_VIO_BACKEND {
         uint32_t iter = this->ransacParam.maxIterateTimes;
         Quaternion best_q_wc = q_wc;
         Vector3 best_p_wc = p_wc;
+        // 初值本身的内点数量，是挑选结果的下限
         uint32_t best_score = 0;
+        for (uint32_t i = 0; i < pts_3d.size(); ++i) {
+            Vector3 p_c = q_wc.inverse() * (pts_3d[i] - p_wc);
+            Vector2 r = Vector2(p_c(0) / p_c(2), p_c(1) / p_c(2)) - pts_2d[i];
+            if (r.squaredNorm() < this->ransacParam.inlierThres) {
+                ++best_score;
+            }
+        }
         uint32_t score = 0;
 
         // RANSAC 循环
-- 
2.43.0


From e7b48a2b94a7721cdca45d9e79f78790c7df5dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:11 +0000
Subject: [PATCH 13/13] fix: rotation magnitude of half turns could be NaN

---
 eskf_vio_backend/include/utility/math_lib.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eskf_vio_backend/include/utility/math_lib.hpp b/eskf_vio_backend/include/utility/math_lib.hpp
index 26bd13f..564b5b8 100644
--- a/eskf_vio_backend/include/utility/math_lib.hpp
+++ b/eskf_vio_backend/include/utility/math_lib.hpp
@@ -92,9 +92,9 @@ namespace ESKF_VIO_BACKEND {
 
         /* 计算旋转误差的量级，输出单位为 rad 的误差角 */
         static Scalar ComputeRotationMagnitude(Matrix33 &delta_R) {
-            Scalar magnitude = std::fabs(std::acos(
-                (delta_R.trace() - Scalar(1.0)) / Scalar(2.0)
-            ));
+            // 舍入误差可能使余弦值略微超出 [-1, 1]
+            const Scalar cosine = (delta_R.trace() - Scalar(1.0)) / Scalar(2.0);
+            Scalar magnitude = std::fabs(std::acos(std::max(Scalar(-1.0), std::min(Scalar(1.0), cosine))));
             return magnitude;
         }
         static Scalar ComputeRotationMagnitude(Quaternion &delta_q) {
-- 
2.43.0

