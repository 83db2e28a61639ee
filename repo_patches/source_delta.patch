From 7d64630daa5c394729c08af240224dd8cf75bd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:08 +0000
Subject: [PATCH 01/31] fix: isRotation/isTransform accepted matrices with NaN
 entries

---
 src/types/alrotation.cpp  | 2 +-
 src/types/altransform.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/alrotation.cpp b/src/types/alrotation.cpp
index ef0a0d7..052d50f 100644
--- a/src/types/alrotation.cpp
+++ b/src/types/alrotation.cpp
@@ -192,7 +192,7 @@ namespace AL {
 
       const float det = Math::determinant(*this);
 
-      if (std::abs(det-1.0f) > pEpsilon)
+      if (!(std::abs(det-1.0f) <= pEpsilon)) // NaN must not be accepted
       {
         return false;
       }
diff --git a/src/types/altransform.cpp b/src/types/altransform.cpp
index 4e6608f..c1cf9af 100644
--- a/src/types/altransform.cpp
+++ b/src/types/altransform.cpp
@@ -235,7 +235,7 @@ namespace AL {
 
       const float det = Math::determinant(*this);
 
-      if (std::abs(det-1.0f) > pEpsilon)
+      if (!(std::abs(det-1.0f) <= pEpsilon)) // NaN must not be accepted
       {
         return false;
       }
-- 
2.43.0


From 6e6334beed83afe2c000dad2a5416f3e5de9c7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 02/31] fix: axis-angle of a quaternion lost accuracy (or was
 NaN) near null and full turns

---
 src/types/alquaternion.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/types/alquaternion.cpp b/src/types/alquaternion.cpp
index 2e4c739..8f542ee 100644
--- a/src/types/alquaternion.cpp
+++ b/src/types/alquaternion.cpp
@@ -242,12 +242,16 @@ namespace AL {
       float& pAxisY,
       float& pAxisZ)
     {
-      Quaternion copy = pQuaternion;
-      copy.normalize();
-      pAngle          = 2.0f*std::acos(copy.w); // * AL::Math::_2_PI_;
-      float sin_angle = std::sqrt(1.0f - std::pow(copy.w, 2));
-
-      if (std::abs(sin_angle) < 0.0005f)
+      const Quaternion copy = pQuaternion.normalize();
+      // the norm of the vector part is accurate for small angles, and does
+      // not leave the domain of acos and sqrt when |w| exceeds 1 by rounding
+      float sin_angle =
+          std::sqrt(std::pow(copy.x, 2) +
+                    std::pow(copy.y, 2) +
+                    std::pow(copy.z, 2));
+      pAngle = 2.0f*std::atan2(sin_angle, copy.w);
+
+      if (sin_angle == 0.0f)
       {
         sin_angle = 1.0f;
       }
-- 
2.43.0


From 7df070810e0b66f334c41567f500e5f0c34bc642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 03/31] fix: axisRotationProjection returned NaN when the
 projected directions vanish

---
 src/tools/altransformhelpers.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/altransformhelpers.cpp b/src/tools/altransformhelpers.cpp
index 77a17eb..12a19f4 100644
--- a/src/tools/altransformhelpers.cpp
+++ b/src/tools/altransformhelpers.cpp
@@ -830,7 +830,7 @@ namespace AL {
       }
 
       const float alpha  = std::atan2(b, a);
-      const float beta   = std::acos( c / std::sqrt( a*a + b*b ) );
+      const float beta   = std::atan2( std::sqrt( d2 ), c );
 
       const float cos_1 = 1.0f - std::cos( alpha + beta );
       const float cos_2 = 1.0f - std::cos( alpha - beta );
@@ -933,7 +933,7 @@ namespace AL {
       }
 
       const float alpha  = std::atan2(b, a);
-      const float beta   = std::acos(c / std::sqrt(a*a + b*b));
+      const float beta   = std::atan2(std::sqrt(d2), c);
 
       const float cos_1 = 1.0f - std::cos(alpha + beta);
       const float cos_2 = 1.0f - std::cos(alpha - beta);
-- 
2.43.0


From 80d0e9e44cb42e307ee24e8223b79b6ba3074a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:18 +0000
Subject: [PATCH 04/31] fix: transformLogarithm shrank rotations smaller than
 1e-3 rad

---
 src/tools/altransformhelpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/altransformhelpers.cpp b/src/tools/altransformhelpers.cpp
index 12a19f4..a826a12 100644
--- a/src/tools/altransformhelpers.cpp
+++ b/src/tools/altransformhelpers.cpp
@@ -88,7 +88,7 @@ namespace AL {
       {
         if (co > 1.0f - epsilon)
         {
-          coeff = angle/( 2.0f*si + epsilon );
+          coeff = 0.5f; // limit of angle/(2*sin(angle))
           pVOut.wxd = coeff * (pH.r3_c2 - pH.r2_c3);
           pVOut.wyd = coeff * (pH.r1_c3 - pH.r3_c1);
           pVOut.wzd = coeff * (pH.r2_c1 - pH.r1_c2);
-- 
2.43.0


From 129c2083f7869d291e6cbd03be45a1eef6664765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:13 +0000
Subject: [PATCH 05/31] fix: modulo2PI returned -PI, outside of ]-PI, PI]

---
 src/tools/almath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/almath.cpp b/src/tools/almath.cpp
index 9febabb..0729b15 100644
--- a/src/tools/almath.cpp
+++ b/src/tools/almath.cpp
@@ -24,7 +24,7 @@ namespace AL
       {
         pAngle = pAngle - AL::Math::_2_PI_;
       }
-      else if (pAngle<-AL::Math::PI)
+      else if (pAngle<=-AL::Math::PI)
       {
         pAngle = pAngle + AL::Math::_2_PI_;
       }
-- 
2.43.0


From 3b5501d37ab815041cff6f715d748bae8e52eb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:38 +0000
Subject: [PATCH 06/31] fix: the angular mean did not depend on relative
 weights only

---
 src/tools/almath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/almath.cpp b/src/tools/almath.cpp
index 0729b15..a012910 100644
--- a/src/tools/almath.cpp
+++ b/src/tools/almath.cpp
@@ -58,7 +58,7 @@ namespace AL
         weightSum += *w;
         sumPosition += *w * Math::Position2D(std::cos(*a), std::sin(*a));
       }
-      if (sumPosition.norm() < 1e-3f) {
+      if (sumPosition.norm() <= 1e-3f * weightSum) {
         throw std::runtime_error("No defined mean.");
       }
       return Math::modulo2PI(std::atan2(sumPosition.y, sumPosition.x));
-- 
2.43.0


From fd5bab9a154ab655301cde92ab6d8432f7fcedcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:05 +0000
Subject: [PATCH 07/31] fix: a default constructed DigitalFilter read out of
 its empty buffer

---
 src/dsp/digitalfilter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsp/digitalfilter.cpp b/src/dsp/digitalfilter.cpp
index d29e3a7..8b5d95a 100644
--- a/src/dsp/digitalfilter.cpp
+++ b/src/dsp/digitalfilter.cpp
@@ -14,7 +14,8 @@ namespace DSP
 {
 
 DigitalFilter::DigitalFilter(void)
-  :fFilterDcGain(1.0f)
+  :fFilterBufferIn(1u)
+  ,fFilterDcGain(1.0f)
   ,fFilterWeightsIn(1u, 1.0f)
 {}
 
-- 
2.43.0


From c3aa31f85b2912fde66a56abcb86d9ae459eedac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:05 +0000
Subject: [PATCH 08/31] fix: PIDController::computeFeedback ignored the given
 period

---
 src/dsp/pidcontroller.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/pidcontroller.cpp b/src/dsp/pidcontroller.cpp
index 7e6dced..21d6948 100644
--- a/src/dsp/pidcontroller.cpp
+++ b/src/dsp/pidcontroller.cpp
@@ -128,7 +128,7 @@ float PIDController::computeFeedback(const float pCommand,
   float period = fPeriod;
   if (pPeriod > 0.0)
   {
-    period = fPeriod;
+    period = pPeriod;
   }
 
   fPreviousErr = fErr;
-- 
2.43.0


From 78b41426ec45784a1f4e532d9989ba785d13fdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 09/31] fix: Dubins headings were unwrapped against the turning
 direction in half of the cases

---
 src/tools/aldubinscurve.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/aldubinscurve.cpp b/src/tools/aldubinscurve.cpp
index 1438927..262088a 100644
--- a/src/tools/aldubinscurve.cpp
+++ b/src/tools/aldubinscurve.cpp
@@ -344,13 +344,13 @@ namespace AL {
       }
       if (!bestTangent.at(0).isLeft && angle1 > 0.0f)
       {
-        solutions.at(0).theta = 2.0f * PI + angle1;
+        solutions.at(0).theta = angle1 - 2.0f * PI;
       }
       // second tangent
       float angle2 = solutions.at(2).theta - solutions.at(1).theta;
       if (bestTangent.at(1).isLeft && angle2 < 0.0f)
       {
-        solutions.at(1).theta = 2.0f * PI - angle2 + solutions.at(2).theta;
+        solutions.at(1).theta = solutions.at(2).theta - angle2 - 2.0f * PI;
       }
       if (!bestTangent.at(1).isLeft && angle2 > 0.0f)
       {
-- 
2.43.0


From 54bbe9b119f4634f7241d8ac94c28283f8bb6585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 10/31] fix: box collision missed a box inside of a
 counter-clockwise one, and reported empty boxes

---
 src/tools/avoidfootcollision.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/tools/avoidfootcollision.cpp b/src/tools/avoidfootcollision.cpp
index efc73e6..187d2ee 100644
--- a/src/tools/avoidfootcollision.cpp
+++ b/src/tools/avoidfootcollision.cpp
@@ -110,14 +110,16 @@ namespace AL
       const std::vector<Position2D>&  pBoxA,
       const Position2D&               pPointB)
     {
-      // the main idea is to follow by the right side
-      // the box A.
+      // the main idea is to follow the sides of the box A.
       // Then with cross produc and his determinant
       // we know if the points is on the left or on the right of
       // the actual segment
-      // If always on theright the points is inside the boxes
+      // If always on the right (clockwise box) or always on the left
+      // (counter-clockwise box), the points is inside the boxes
       unsigned int length = pBoxA.size();
       unsigned int iPlusOne = 0;
+      bool hasLeft = false;
+      bool hasRight = false;
 
       float Dx, Dy;
       float Tx, Ty;
@@ -136,13 +138,15 @@ namespace AL
         Tx = pPointB.x - pBoxA[i].x;
         Ty = pPointB.y - pBoxA[i].y;
         Det = Dx*Ty - Dy*Tx;
-        if(Det >= 0.0f)
+        if(Det == 0.0f)
         {
-          // on the left so NO INSIDE
+          // on the side so NO INSIDE
           return false;
         }
+        hasLeft = hasLeft || Det > 0.0f;
+        hasRight = hasRight || Det < 0.0f;
       }
-      return true;
+      return hasLeft != hasRight;
     } // end xPointsInsideBox()
 
 
-- 
2.43.0


From cbfe538adfc0b48205caa3a6a3cc2c4d357b3455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 11/31] fix: COLLADA vertex indexes were printed as floats
 (1e+06)

---
 src/scenegraph/colladabuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scenegraph/colladabuilder.cpp b/src/scenegraph/colladabuilder.cpp
index 7ca42b2..b37e083 100644
--- a/src/scenegraph/colladabuilder.cpp
+++ b/src/scenegraph/colladabuilder.cpp
@@ -12,7 +12,7 @@ namespace {
 template <typename T>
 std::string toString(const std::vector<T> &data) {
   std::ostringstream ss;
-  std::copy(data.begin(), data.end(), std::ostream_iterator<float>(ss, " "));
+  std::copy(data.begin(), data.end(), std::ostream_iterator<T>(ss, " "));
   return ss.str();
 }
 }
-- 
2.43.0


From 037e83a13ca1eccff67aa39985ca1e6c842cb8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 12/31] fix: SceneBuilder::add(Mesh, Math::Transform) did not
 refuse texture coordinates

---
 src/scenegraph/scenebuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scenegraph/scenebuilder.cpp b/src/scenegraph/scenebuilder.cpp
index d9070f4..b60365c 100644
--- a/src/scenegraph/scenebuilder.cpp
+++ b/src/scenegraph/scenebuilder.cpp
@@ -44,7 +44,7 @@ void SceneBuilder::add(const Mesh &mesh, const Eigen::Affine3f &tf) {
 
 void SceneBuilder::add(const Mesh &mesh, const Math::Transform &tf) {
   Eigen::Map<const Eigen::Matrix<float, 3, 4, Eigen::RowMajor> > m(&tf.r1_c1);
-  xAddMesh(mesh, Eigen::Affine3f(m));
+  add(mesh, Eigen::Affine3f(m));
 }
 
 void SceneBuilder::add(const Math::Sphere &shape, const Math::Transform &tf) {
-- 
2.43.0


From c82845be5566d818ba525b1ba003519ffcb8eac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 13/31] fix: chains of mimic joints were refused depending on
 the order of the joints

---
 src/scenegraph/urdf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index 7ab87a8..2530d96 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -397,7 +397,7 @@ bool RobotTreeP::transitively_mimics(const Joints &joints,
   BOOST_FOREACH(ptree::const_iterator joint,
                 joints.get<Mimic>().equal_range(rhs_joint_name)) {
     if ((joint == lhs_joint_it) ||
-        transitively_mimics(joints, joint, rhs_joint_name))
+        transitively_mimics(joints, lhs_joint_it, ::name_it(joint)))
       return true;
   }
   return false;
-- 
2.43.0


From d60425da35314fa4f71b6caa4badd64aa86b8884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:02 +0000
Subject: [PATCH 14/31] fix: URDF documents with a loop detached from the root
 were accepted

---
 src/scenegraph/urdf.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index 2530d96..f7d619f 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -471,6 +471,18 @@ RobotTreeP::RobotTreeP(ptree &robot) : robot(robot) {
   assert(!root_links.empty());
   if (root_links.size() != 1)
     throw std::runtime_error("kinematic tree has several roots");
+  // Each link but the root has a single parent. If some are not descendants
+  // of the root, then they belong to a loop which is detached from it.
+  std::vector<std::string> reached(1, *root_links.begin());
+  for (size_t i = 0; i < reached.size(); ++i) {
+    for (ptree::const_iterator joint_it :
+         boost::make_iterator_range(
+             joints.get<ParentLink>().equal_range(reached[i]))) {
+      reached.push_back(::child_link_it(joint_it));
+    }
+  }
+  if (reached.size() != links.size())
+    throw std::runtime_error("there is a loop in the kinematic tree");
   // Now that all the joints have been added, let check that there is not any
   // mimicking a non-existent joint.
   for(auto joint_it: joints.get<Name>()) {
-- 
2.43.0


From 083a864ae360421296d14cfb046a9e61cd478d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:03 +0000
Subject: [PATCH 15/31] fix: re-rooting an URDF tree aborted when the product
 of two poses is exactly the identity

---
 src/scenegraph/urdf.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index f7d619f..f8cd5a2 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -544,7 +544,11 @@ void premul(const Pose &lhs, const Pose &ilhs, ptree *rhs_parent,
   auto const_rhs_parent = const_cast<const ptree *>(rhs_parent);
 
   Pose rhs = Pose::from_ptree(const_rhs_parent->get_child_optional("origin"));
-  if (rhs == ilhs) {
+  boost::optional<ptree> new_origin;
+  if (rhs != ilhs) new_origin = (lhs * rhs).to_ptree();
+  // Note: the product may be the identity although rhs != ilhs, because
+  // several roll, pitch, yaw triples describe the same rotation.
+  if (!new_origin) {
     if (noprune) {
       // instead of removing the element, empty it.
       // Wrt to URDF, this has the same meaning (identity transform)
@@ -557,8 +561,6 @@ void premul(const Pose &lhs, const Pose &ilhs, ptree *rhs_parent,
       rhs_parent->erase("origin");
     }
   } else {
-    boost::optional<ptree> new_origin = (lhs * rhs).to_ptree();
-    assert(new_origin);
     rhs_parent->put_child("origin", *new_origin);
   }
 }
-- 
2.43.0


From 46ad8cf774c0f171abd1847edc87329561cec515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:20 +0000
Subject: [PATCH 16/31] fix: siblings were not visited in the order of the URDF
 file after a change of root

---
 src/scenegraph/urdf.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index f8cd5a2..2e65a5b 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -701,8 +701,10 @@ void RobotTreeP::define_as_root_link(const std::string &link_name) {
 
 void RobotTreeP::walk_joint(RobotTree::JointConstVisitor &vis,
                             const std::string &link) const {
-  BOOST_FOREACH (ptree::const_iterator joint,
-                 joints.get<ParentLink>().equal_range(link)) {
+  // walk the sequenced index and not the ParentLink one, since the latter does
+  // not keep the siblings ordering when a joint is flipped.
+  for (ptree::const_iterator joint : joints) {
+    if (::parent_link_it(joint) != link) continue;
     if (vis.discover(joint->second))
       walk_joint(vis, ::child_link_it(joint));
     vis.finish(joint->second);
@@ -711,8 +713,10 @@ void RobotTreeP::walk_joint(RobotTree::JointConstVisitor &vis,
 
 void RobotTreeP::walk_joint(RobotTree::JointVisitor &vis,
                             const std::string &link) {
-  BOOST_FOREACH (ptree::iterator joint,
-                 joints.get<ParentLink>().equal_range(link)) {
+  // walk the sequenced index and not the ParentLink one, since the latter does
+  // not keep the siblings ordering when a joint is flipped.
+  for (ptree::iterator joint : joints) {
+    if (::parent_link_it(joint) != link) continue;
     if (vis.discover(joint->second))
       walk_joint(vis, ::child_link_it(joint));
     vis.finish(joint->second);
-- 
2.43.0


From def00942976ad1b77d565ca12e6a7c1a53c4bfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:20 +0000
Subject: [PATCH 17/31] fix: is_mimic_tree_flat aborted when a mimicked joint
 had been removed

---
 src/scenegraph/urdf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index 2e65a5b..7df0cdf 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -727,8 +727,8 @@ bool RobotTreeP::is_mimic_tree_flat() const {
   BOOST_FOREACH (auto joint_it, joints.get<Name>()) {
     if (auto opt_mimic = ::mimic_it(joint_it)) {
       auto it = joints.get<Name>().find(*opt_mimic);
-      assert(it != joints.get<Name>().end());
-      if (::mimic_it(*it)) {
+      // the mimic source may have been removed
+      if (it != joints.get<Name>().end() && ::mimic_it(*it)) {
         // the mimic source is itself a mimic target, we should flatten the
         // tree.
         return false;
-- 
2.43.0


From 131324cd8ebd56a1fde52b19da83d07bf8818003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:46 +0000
Subject: [PATCH 18/31] fix: inertias were rotated the wrong way when changing
 of basis

---
 almath/scenegraph/urdfeigen.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/almath/scenegraph/urdfeigen.h b/almath/scenegraph/urdfeigen.h
index 37ea7ee..0c49c01 100644
--- a/almath/scenegraph/urdfeigen.h
+++ b/almath/scenegraph/urdfeigen.h
@@ -109,7 +109,7 @@ void squashInertial(Scalar mass_a, const EPose &pose_a,
 
   // add inertia from b
   Matrix3 rot_cb = pose_c.linear().transpose() * pose_b.linear();
-  inertia_c += rot_cb.transpose() * inertia_b * rot_cb;
+  inertia_c += rot_cb * inertia_b * rot_cb.transpose();
   displ = pose_c.translation() - pose_b.translation();
   addPointMassInertia(mass_b, pose_c.linear().transpose() * displ, inertia_c);
 }
@@ -133,7 +133,7 @@ void urdfInertialToEigen(const AL::urdf::Inertial &inertial, Scalar &mass,
   T t_ab = toEigenTransform(inertial.origin()).cast<Scalar>();
   com_a = t_ab.translation();
   Matrix3 inertia_b = toEigenMatrix3(inertial).cast<Scalar>();
-  inertia_a = t_ab.linear().transpose() * inertia_b * t_ab.linear();
+  inertia_a = t_ab.linear() * inertia_b * t_ab.linear().transpose();
 }
 }
 }
-- 
2.43.0


From e9341799aad86903fc60935a383c4bc2e6ebdbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:16 +0000
Subject: [PATCH 19/31] fix: squashJointMass kept the origin of the child
 inertial when the new one is null

---
 src/scenegraph/urdf.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index 7df0cdf..bcb121b 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -858,6 +858,7 @@ void squashJointMass(RobotTree &parser, ptree &joint_pt) {
     // we can copy the child inertial as-is, except for the pose which
     // needs to get updated.
     new_inertial = child_inertial->pt;
+    new_inertial.erase("origin");
     new_inertial_pose = child_inertial_pose;
   } else {
     const EPose parent_inertial_pose =
-- 
2.43.0


From 0e0e1e74ceae3c652f77da1b9a620498dfc770da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:50 +0000
Subject: [PATCH 20/31] fix: transform_filenames did not transform the meshes
 of collisions

---
 src/scenegraph/urdf.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/scenegraph/urdf.cpp b/src/scenegraph/urdf.cpp
index bcb121b..b91cf69 100644
--- a/src/scenegraph/urdf.cpp
+++ b/src/scenegraph/urdf.cpp
@@ -1028,6 +1028,17 @@ void transform_filenames(
           apply_op(*texture);
       }
     }
+    auto collisions = link.equal_range("collision");
+    for (ptree &collision: boost::adaptors::values(collisions)) {
+      boost::optional<ptree &> geometry =
+          collision.get_child_optional("geometry");
+      if (!geometry)
+        continue;
+      auto meshes = geometry->equal_range("mesh");
+      for (ptree &mesh: boost::adaptors::values(meshes)) {
+        apply_op(mesh);
+      }
+    }
   }
 }
 }
-- 
2.43.0


From b30d8ca2f104cdfa49daa1c6e32d16adb3e80c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:04 +0000
Subject: [PATCH 21/31] fix: keys and labels were misplaced or not found when
 other elements follow them

---
 src/scenegraph/qianim.cpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/scenegraph/qianim.cpp b/src/scenegraph/qianim.cpp
index 23f3697..64ef6ee 100644
--- a/src/scenegraph/qianim.cpp
+++ b/src/scenegraph/qianim.cpp
@@ -7,6 +7,7 @@
 #include <almath/scenegraph/qianim.h>
 #include <boost/property_tree/ptree.hpp>
 #include <boost/range/adaptor/map.hpp>
+#include <algorithm>
 #include <sstream>
 
 namespace AL {
@@ -165,26 +166,33 @@ void put_unit(ptree &pt, Unit unit) {
 }
 
 // private
-bool key_comp(const ptree::value_type &key, int frame) {
-  return (key.first != "Key") || (Key::get_frame(key.second) < frame);
+// Search for the first Key whose frame is not less than the given one.
+// The other children (<xmlattr>, comments...) can be anywhere among the keys,
+// hence this is not a binary search.
+template <typename ptree_ref>
+auto find_key(ptree_ref &pt, int frame) -> decltype(pt.begin()) {
+  return std::find_if(pt.begin(), pt.end(),
+                      [frame](const ptree::value_type &key) {
+    return Key::is_key(key) && (Key::get_frame(key.second) >= frame);
+  });
 }
 
 optional<ptree &> get_key_optional(ptree &pt, int frame) {
-  auto it = std::lower_bound(pt.begin(), pt.end(), frame, key_comp);
+  auto it = find_key(pt, frame);
   if ((it != pt.end()) && (Key::get_frame(it->second) == frame))
     return it->second;
   return optional<ptree &>();
 }
 
 optional<const ptree &> get_key_optional(const ptree &pt, int frame) {
-  auto it = std::lower_bound(pt.begin(), pt.end(), frame, key_comp);
+  auto it = find_key(pt, frame);
   if ((it != pt.end()) && (Key::get_frame(it->second) == frame))
     return it->second;
   return optional<const ptree &>();
 }
 
 ptree &require_key(ptree &pt, int frame) {
-  auto it = std::lower_bound(pt.begin(), pt.end(), frame, key_comp);
+  auto it = find_key(pt, frame);
   if ((it != pt.end()) && (Key::get_frame(it->second) == frame))
     return it->second;
   ptree &newkey = pt.insert(it, std::make_pair("Key", ptree{}))->second;
@@ -195,12 +203,6 @@ ptree &require_key(ptree &pt, int frame) {
 
 namespace Label {
 
-// private
-bool label_comp(int frame, const ptree::value_type &label) {
-  return (label.first == "Label") && (frame < Label::get_frame(label.second));
-}
-
-
 bool is_label(const ptree::value_type &val) {
   return val.first == "Label";
 }
@@ -217,7 +219,12 @@ bool is_labels(const ptree::value_type &val) {
 }
 
 ptree &add_label(ptree &pt, int frame, const std::string value) {
-  auto it = std::upper_bound(pt.begin(), pt.end(), frame, Label::label_comp);
+  // insert before the first Label with a greater frame. The other children
+  // (<xmlattr>, comments...) can be anywhere among the labels.
+  auto it = std::find_if(pt.begin(), pt.end(),
+                         [frame](const ptree::value_type &label) {
+    return Label::is_label(label) && (frame < Label::get_frame(label.second));
+  });
   ptree &newkey = pt.insert(it, std::make_pair("Label", ptree{value}))->second;
   Key::put_frame(newkey, frame);
   return newkey;
-- 
2.43.0


From b0293819faeae46a9a20df8a2d64f861d36489f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:04 +0000
Subject: [PATCH 22/31] fix: a key or label refused for its negative frame was
 left in the document

---
 src/scenegraph/qianim.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/scenegraph/qianim.cpp b/src/scenegraph/qianim.cpp
index 64ef6ee..b0c1e89 100644
--- a/src/scenegraph/qianim.cpp
+++ b/src/scenegraph/qianim.cpp
@@ -195,9 +195,9 @@ ptree &require_key(ptree &pt, int frame) {
   auto it = find_key(pt, frame);
   if ((it != pt.end()) && (Key::get_frame(it->second) == frame))
     return it->second;
-  ptree &newkey = pt.insert(it, std::make_pair("Key", ptree{}))->second;
-  Key::put_frame(newkey, frame);
-  return newkey;
+  ptree newkey;
+  Key::put_frame(newkey, frame);  // may throw
+  return pt.insert(it, std::make_pair("Key", newkey))->second;
 }
 } // namespace ActuatorCurve
 
@@ -225,9 +225,9 @@ ptree &add_label(ptree &pt, int frame, const std::string value) {
                          [frame](const ptree::value_type &label) {
     return Label::is_label(label) && (frame < Label::get_frame(label.second));
   });
-  ptree &newkey = pt.insert(it, std::make_pair("Label", ptree{value}))->second;
-  Key::put_frame(newkey, frame);
-  return newkey;
+  ptree newlabel{value};
+  Label::put_frame(newlabel, frame);  // may throw
+  return pt.insert(it, std::make_pair("Label", newlabel))->second;
 }
 } // namespace Labels
 
-- 
2.43.0


From edab0ddd5104d5032ed9eceb7a4ee9db70a7af29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 23/31] fix: the root of a rigid body system built from URDF
 ignored the configured galilean frame

---
 src/scenegraph/urdfrigidbodysystemtraverser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scenegraph/urdfrigidbodysystemtraverser.cpp b/src/scenegraph/urdfrigidbodysystemtraverser.cpp
index 70a673a..3fea889 100644
--- a/src/scenegraph/urdfrigidbodysystemtraverser.cpp
+++ b/src/scenegraph/urdfrigidbodysystemtraverser.cpp
@@ -102,8 +102,8 @@ void buildRigidBodySystemFromUrdf(
   if (make_continuous_joints_fixed) makeContinuousJointsFixed(parser);
   makeMasslessJointsFixed(parser);
   UrdfRigidBodySystemTraverser visitor(builder, parser);
-  visitor._discover("", parser.root_link(), Pose::Identity(),
-                    Builder::JointType::FreeFlyer,
+  visitor._discover(builder.config().galilean_frame, parser.root_link(),
+                    Pose::Identity(), Builder::JointType::FreeFlyer,
                     parser.link(parser.root_link()));
   parser.traverse_joints(visitor);
 }
-- 
2.43.0


From 3ed2e07f78b396b0e0dde2b8300d7fb15f9e7de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 24/31] fix: orthogonalSpace was not orthogonal for directions
 close to the z axis

---
 src/tools/altransformhelpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/altransformhelpers.cpp b/src/tools/altransformhelpers.cpp
index a826a12..68a37b5 100644
--- a/src/tools/altransformhelpers.cpp
+++ b/src/tools/altransformhelpers.cpp
@@ -1102,7 +1102,7 @@ namespace AL {
       }
       else
       {
-        axis = AL::Math::Position3D(axis3.z, 0.0f, 0.0f);
+        axis = AL::Math::Position3D(axis3.z, 0.0f, -axis3.x);
       }
 
       axis1 = AL::Math::normalize(axis);
-- 
2.43.0


From 5d1f3c21a3a9a37ff749990d1215fcb47146f28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 25/31] fix: quaternionFromTransform was NaN or inaccurate for
 small rotations and half turns

---
 src/tools/altransformhelpers.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/tools/altransformhelpers.cpp b/src/tools/altransformhelpers.cpp
index 68a37b5..8874987 100644
--- a/src/tools/altransformhelpers.cpp
+++ b/src/tools/altransformhelpers.cpp
@@ -1166,6 +1166,8 @@ namespace AL {
       float kx = pT.r3_c2 - pT.r2_c3; // Oz - Ay
       float ky = pT.r1_c3 - pT.r3_c1; // Ax - Nz
       float kz = pT.r2_c1 - pT.r1_c2; // Ny - Ox
+      // four times the product of the norms of scalar and vector parts
+      const float nk = std::sqrt(std::pow(kx, 2) + std::pow(ky, 2) + std::pow(kz, 2));
 
       float kx1 = 0.0f;
       float ky1 = 0.0f;
@@ -1221,8 +1223,20 @@ namespace AL {
           trace = 0.0f;
         }
 
-        const float qs = 0.5f*std::sqrt(trace);
-        const float s = std::sqrt(1.0f - std::pow(qs, 2)) / nm;
+        // compute the largest part first: the smallest one would suffer from
+        // cancellation (or be the square root of a negative number)
+        float qs = 0.5f*std::sqrt(trace);
+        float vs = 0.0f;
+        if (qs > 0.5f)
+        {
+          vs = 0.25f*nk / qs;
+        }
+        else
+        {
+          vs = std::sqrt(1.0f - std::pow(qs, 2));
+          qs = 0.25f*nk / vs;
+        }
+        const float s = vs / nm;
         return Quaternion(qs, s*kx, s*ky, s*kz);
       }
     } // end quaternionFromTransform
-- 
2.43.0


From 2942c33f461b3ad45e2c16e99a8853ae66361e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:20 +0000
Subject: [PATCH 26/31] fix: decide segment intersections relatively to the
 lengths of the segments

---
 src/tools/avoidfootcollision.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/tools/avoidfootcollision.cpp b/src/tools/avoidfootcollision.cpp
index 187d2ee..44d76a8 100644
--- a/src/tools/avoidfootcollision.cpp
+++ b/src/tools/avoidfootcollision.cpp
@@ -42,9 +42,13 @@ namespace AL
       const float gxB = pxB2 - pxB1;
       const float gyB = pyB2 - pyB1;
 
+      // den is the product of the lengths by the sine of the angle between
+      // the segments: compare it to the lengths, whatever their unit.
       const float lTol = 1e-5f;
       const float den  = gxB*gyA - gxA*gyB;
-      if (std::abs(den) < lTol) //Parallel lines or infinitesimal segments
+      const float lengthA = std::sqrt(gxA*gxA + gyA*gyA);
+      const float lengthB = std::sqrt(gxB*gxB + gyB*gyB);
+      if (std::abs(den) <= lTol*lengthA*lengthB) //Parallel lines or null segments
       {
         return false;
       }
@@ -55,16 +59,9 @@ namespace AL
         return false;
       }
       float rA = 0.0f;
-      if (std::abs(gxA) <lTol)
+      if (std::abs(gxA) < std::abs(gyA))
       {
-        if(std::abs(gyA) <lTol)
-        {
-          return false;
-        }
-        else
-        {
-          rA = (pyB1 - pyA1 + rB*gyB)/gyA;
-        }
+        rA = (pyB1 - pyA1 + rB*gyB)/gyA;
       }
       else
       {
-- 
2.43.0


From 8126f0d2ccceac8698133512fd83b3ddbb836cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:26 +0000
Subject: [PATCH 27/31] fix: give Dubins paths the heading of their circles

At the smallest accepted distance the straight line may have no length, and
its two ends cannot tell the heading there: it was returned as 0 instead of
the one of the circles. Rounding errors could also give a not-a-number
tangent when the circles touch each other.
---
 src/tools/aldubinscurve.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/tools/aldubinscurve.cpp b/src/tools/aldubinscurve.cpp
index 262088a..b63be28 100644
--- a/src/tools/aldubinscurve.cpp
+++ b/src/tools/aldubinscurve.cpp
@@ -12,6 +12,7 @@
 #include "float.h" // for FLT_MAX
 #include <stdexcept>
 
+#include <algorithm>
 #include <cmath>
 
 namespace AL {
@@ -19,7 +20,7 @@ namespace AL {
 
     struct dubinsTangent
     {
-      float x, y;
+      float x, y, theta;
       bool isLeft;
 
       dubinsTangent(
@@ -28,6 +29,7 @@ namespace AL {
           const bool  pIsLeft = false) :
           x(pX),
           y(pY),
+          theta(0.0f),
           isLeft(pIsLeft) {}
     };
 
@@ -138,7 +140,8 @@ namespace AL {
       if (!pLLorRR)
       {
         cos_theta = pCircleRadius*2.0f/dist;
-        sin_theta = std::sqrt(1.0f - cos_theta*cos_theta);
+        // the circles may touch each other: keep rounding errors out of sqrt
+        sin_theta = std::sqrt(std::max(0.0f, 1.0f - cos_theta*cos_theta));
       }
 
       AL::Math::Position2D slope;
@@ -165,6 +168,11 @@ namespace AL {
         point2.y = pCircle2.y - rd*slope.y;
       }
 
+      // The heading is the one of the circles at these points, since the
+      // tangent has no direction of its own when both points are the same.
+      point1.theta = std::atan2(pSens*slope.x, -pSens*slope.y);
+      point2.theta = point1.theta;
+
       // tangent
       pTangent[0] = point1;
       pTangent[1] = point2;
@@ -314,8 +322,7 @@ namespace AL {
       //// First CheckPoint of this Dubins Curve
       tmpSolution.x = bestTangent.at(0).x;
       tmpSolution.y = bestTangent.at(0).y;
-      tmpSolution.theta = std::atan2(bestTangent.at(1).y - bestTangent.at(0).y,
-                                     bestTangent.at(1).x - bestTangent.at(0).x);
+      tmpSolution.theta = bestTangent.at(0).theta;
       solutions.push_back(tmpSolution);
 
       //// Second CheckPoint of this Dubins Curve
-- 
2.43.0


From 7df126b5c264655c2abe124a0b580355bf98c1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:26 +0000
Subject: [PATCH 28/31] fix: round positions to the nearest pixel

---
 almath/types/occupancymapparams.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/almath/types/occupancymapparams.h b/almath/types/occupancymapparams.h
index e28b59b..a5e1fdc 100644
--- a/almath/types/occupancymapparams.h
+++ b/almath/types/occupancymapparams.h
@@ -3,6 +3,7 @@
 
 #include <almath/tools/almath.h>
 #include <almath/api.h>
+#include <cmath>
 
 namespace AL {
 namespace Math {
@@ -50,10 +51,8 @@ namespace Math {
   typedef std::vector<Pose2Di> Pose2DiVect;
 
   static inline int roundToInt(float x) {
-    if (x >= 0.0f) {
-      return static_cast<int>(x + 0.5f);
-    }
-    return static_cast<int>(x - 0.5f);
+    // do not add 0.5f: the sum is rounded (0.49999997f + 0.5f == 1.0f)
+    return static_cast<int>(std::round(x));
   }
 
   /// <summary>
-- 
2.43.0


From fd044d11dfaa97581b5aa32e14c72ee8543b71c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:08 +0000
Subject: [PATCH 29/31] fix: squash inertials whose total mass is null

---
 almath/scenegraph/urdfeigen.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/almath/scenegraph/urdfeigen.h b/almath/scenegraph/urdfeigen.h
index 0c49c01..f9c1526 100644
--- a/almath/scenegraph/urdfeigen.h
+++ b/almath/scenegraph/urdfeigen.h
@@ -98,8 +98,13 @@ void squashInertial(Scalar mass_a, const EPose &pose_a,
   mass_c = mass_a + mass_b;
 
   // define the new frame
-  pose_c.translation() =
-      (mass_a * pose_a.translation() + mass_b * pose_b.translation()) / mass_c;
+  // (the center of mass of massless inertials is undefined, stay at pose_a)
+  if (mass_c == Scalar(0))
+    pose_c.translation() = pose_a.translation();
+  else
+    pose_c.translation() =
+        (mass_a * pose_a.translation() + mass_b * pose_b.translation()) /
+        mass_c;
   pose_c.linear() = pose_a.linear();
 
   // add inertia from a
-- 
2.43.0


From 6fd9c0d1dd011e743a9885302c77bd01277bbbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:30 +0000
Subject: [PATCH 30/31] fix: boxes whose sides meet at vertices only, nearly
 equal boxes and flat boxes

areTwoBoxesInCollision looked for crossing sides, and rounding may miss all of
them where boxes share vertices or sides: deep overlaps were not reported,
while points aligned with a flat box were found inside it. Look for a
separating line instead.
---
 src/tools/avoidfootcollision.cpp | 116 +++++++++++--------------------
 1 file changed, 42 insertions(+), 74 deletions(-)

diff --git a/src/tools/avoidfootcollision.cpp b/src/tools/avoidfootcollision.cpp
index 44d76a8..c3fdbde 100644
--- a/src/tools/avoidfootcollision.cpp
+++ b/src/tools/avoidfootcollision.cpp
@@ -6,6 +6,7 @@
 
 #include <almath/tools/avoidfootcollision.h>
 #include <almath/tools/almath.h>
+#include <algorithm>
 #include <cmath>
 
 namespace AL
@@ -94,98 +95,65 @@ namespace AL
     /****************************
     PRIVATE FUNCTION
     ****************************/
-    // <summary> Query if the points B is inside the box A. </summary>
-    // <param name="pBoxA">  vector<Position2D> of the box A. </param>
-    // <param name="pPointB"> Position2D of the point B. </param>
-    // <returns> true if point B is inside Box A. </returns>
-    const bool xPointsInsideBox(
+    // <summary> Query if two boxes are apart along a direction. </summary>
+    // <param name="pOrigin"> Position2D of a point of the direction. </param>
+    // <param name="pDx"> x component of the direction. </param>
+    // <param name="pDy"> y component of the direction. </param>
+    // <param name="pBoxA"> vector<Position2D> of the box A. </param>
+    // <param name="pBoxB"> vector<Position2D> of the box B. </param>
+    // <returns> true if a line along the direction separates them. </returns>
+    const bool xAreBoxesApart(
+        const Position2D              &pOrigin,
+        const float                    pDx,
+        const float                    pDy,
         const std::vector<Position2D> &pBoxA,
-        const Position2D              &pPointB);
-
-
-    const bool xPointsInsideBox(
-      const std::vector<Position2D>&  pBoxA,
-      const Position2D&               pPointB)
+        const std::vector<Position2D> &pBoxB)
     {
-      // the main idea is to follow the sides of the box A.
-      // Then with cross produc and his determinant
-      // we know if the points is on the left or on the right of
-      // the actual segment
-      // If always on the right (clockwise box) or always on the left
-      // (counter-clockwise box), the points is inside the boxes
-      unsigned int length = pBoxA.size();
-      unsigned int iPlusOne = 0;
-      bool hasLeft = false;
-      bool hasRight = false;
-
-      float Dx, Dy;
-      float Tx, Ty;
-      float Det;
-
-      for(unsigned int i=0; i<length; ++i)
+      // signed distances of the vertices to the line, up to a factor
+      float lMin[2] = {0.0f, 0.0f};
+      float lMax[2] = {0.0f, 0.0f};
+      for (int lBox = 0; lBox < 2; ++lBox)
       {
-        iPlusOne = i+1;
-        if(iPlusOne == length)
+        const std::vector<Position2D> &box = (lBox == 0) ? pBoxA : pBoxB;
+        for (std::size_t i = 0u; i < box.size(); ++i)
         {
-          iPlusOne = 0;
+          const float det =
+              pDx*(box[i].y - pOrigin.y) - pDy*(box[i].x - pOrigin.x);
+          lMin[lBox] = (i == 0u) ? det : std::min(lMin[lBox], det);
+          lMax[lBox] = (i == 0u) ? det : std::max(lMax[lBox], det);
         }
-        // Now just a cross product
-        Dx = pBoxA[iPlusOne].x - pBoxA[i].x;
-        Dy = pBoxA[iPlusOne].y - pBoxA[i].y;
-        Tx = pPointB.x - pBoxA[i].x;
-        Ty = pPointB.y - pBoxA[i].y;
-        Det = Dx*Ty - Dy*Tx;
-        if(Det == 0.0f)
-        {
-          // on the side so NO INSIDE
-          return false;
-        }
-        hasLeft = hasLeft || Det > 0.0f;
-        hasRight = hasRight || Det < 0.0f;
       }
-      return hasLeft != hasRight;
-    } // end xPointsInsideBox()
+      return lMax[0] < lMin[1] || lMax[1] < lMin[0];
+    } // end xAreBoxesApart()
 
 
     const bool areTwoBoxesInCollision(
         const std::vector<Position2D> &pBoxA,
         const std::vector<Position2D> &pBoxB)
     {
-      Position2D intersection;
-      const std::size_t sizeA = pBoxA.size();
-      const std::size_t sizeB = pBoxB.size();
-
-      //Check intersection between the sides of the boxes
-      for (std::size_t ia = 0u; ia < sizeA; ++ia)
-      {
-        for (std::size_t ib = 0u; ib < sizeB; ++ib)
-        {
-          if (intersectionSegment2D(
-                pBoxA[ia], pBoxA[(ia+1) % sizeA],
-                pBoxB[ib], pBoxB[(ib+1) % sizeB],
-                intersection))
-          {
-            return true;
-          }
-        }
-      }
-      //Check if one box is inside the other
-      if (sizeA > 0)
+      if (pBoxA.empty() || pBoxB.empty())
       {
-        if (xPointsInsideBox(pBoxB, pBoxA[0]))
-        {
-          return true;
-        }
+        return false;
       }
-      if (sizeB > 0)
+      // Convex boxes collide unless a line separates them. If there is one,
+      // there is one along a side of a box or, for boxes without area,
+      // along an axis. Looking for crossing sides instead would miss boxes
+      // whose sides meet at vertices only, or which are nearly the same.
+      for (int lBox = 0; lBox < 2; ++lBox)
       {
-        if (xPointsInsideBox(pBoxA,pBoxB[0]))
+        const std::vector<Position2D> &box = (lBox == 0) ? pBoxA : pBoxB;
+        for (std::size_t i = 0u; i < box.size(); ++i)
         {
-          return true;
+          const Position2D &p1 = box[i];
+          const Position2D &p2 = box[(i+1u) % box.size()];
+          if (xAreBoxesApart(p1, p2.x - p1.x, p2.y - p1.y, pBoxA, pBoxB))
+          {
+            return false;
+          }
         }
       }
-
-      return false;
+      return !xAreBoxesApart(pBoxA[0], 1.0f, 0.0f, pBoxA, pBoxB)
+          && !xAreBoxesApart(pBoxA[0], 0.0f, 1.0f, pBoxA, pBoxB);
     } // end xIsTwoBoxesAreInCollision()
 
 
-- 
2.43.0


From 2bb09c75c8d7acde2983d0ad0508dea7fc188390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:22 +0000
Subject: [PATCH 31/31] fix: segments touching at an end which rounding moved
 out of the segment

---
 src/tools/avoidfootcollision.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/tools/avoidfootcollision.cpp b/src/tools/avoidfootcollision.cpp
index c3fdbde..f17702e 100644
--- a/src/tools/avoidfootcollision.cpp
+++ b/src/tools/avoidfootcollision.cpp
@@ -59,15 +59,9 @@ namespace AL
       {
         return false;
       }
-      float rA = 0.0f;
-      if (std::abs(gxA) < std::abs(gyA))
-      {
-        rA = (pyB1 - pyA1 + rB*gyB)/gyA;
-      }
-      else
-      {
-         rA = (pxB1 - pxA1 + rB*gxB)/gxA;
-      }
+      // same form as rB, and not from it: the rounding of rB would move the
+      // intersection out of A when it is an end of A
+      const float rA = (gyB*(pxA1 - pxB1) + gxB*(pyB1 - pyA1))/den;
       if (rA < 0.0f || rA > 1.0f) //Intersection out of the segment A
       {
         return false;
-- 
2.43.0

