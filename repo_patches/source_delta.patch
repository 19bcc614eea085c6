From 9efd2111a581178f68b42c187316cf9114bd0742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:24 +0000
Subject: [PATCH 01/85] fix: Rotation2 element access returned the transposed
 rotation

operator()(i,j) gave +sin for (0,1) and -sin for (1,0), the opposite of what
operator*(Vector2) applies; Frame2::operator()(i,j) inherited the error.
---
 orocos_kdl/src/frames.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/frames.inl b/orocos_kdl/src/frames.inl
index 8349ff1..40ed5e5 100644
--- a/orocos_kdl/src/frames.inl
+++ b/orocos_kdl/src/frames.inl
@@ -861,9 +861,9 @@ IMETHOD double Rotation2::operator()(int i,int j) const {
     FRAMES_CHECKI((0<=i)&&(i<=1)&&(0<=j)&&(j<=1));
     if (i==j) return c;
     if (i==0) 
-        return s;
-    else
         return -s;
+    else
+        return s;
 }
 
 
-- 
2.43.0


From 49d12bb998c4eed199b3bd924746bb8f03fa2980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:24 +0000
Subject: [PATCH 02/85] fix: Vector::Set2DPlane computed the vector and then
 discarded it

---
 orocos_kdl/src/frames.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/frames.inl b/orocos_kdl/src/frames.inl
index 40ed5e5..d2d15e9 100644
--- a/orocos_kdl/src/frames.inl
+++ b/orocos_kdl/src/frames.inl
@@ -710,7 +710,7 @@ void Vector::Set2DPlane(const Frame& F_someframe_XY,const Vector2& v_XY)
 {
 Vector tmp_XY;
 tmp_XY.Set2DXY(v_XY);
-tmp_XY = F_someframe_XY*(tmp_XY);
+*this = F_someframe_XY*(tmp_XY);
 }
 
 
-- 
2.43.0


From edc9df1ddebe75b9217da673b163d994052f5331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:24 +0000
Subject: [PATCH 03/85] fix: Rotation::Rot returns identity for a zero axis, as
 documented

It rotated about the X axis, which Normalize() substitutes for a zero vector.
---
 orocos_kdl/src/frames.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/frames.cpp b/orocos_kdl/src/frames.cpp
index 4d478de..985dfc2 100644
--- a/orocos_kdl/src/frames.cpp
+++ b/orocos_kdl/src/frames.cpp
@@ -296,7 +296,8 @@ Rotation Rotation::Rot(const Vector& rotaxis,double angle) {
     // can be found by multiplying it with an arbitrary vector p
     // and noting that this vector is rotated.
     Vector rotvec = rotaxis;
-	rotvec.Normalize();
+    if (rotvec.Normalize() == 0.0)
+        return Rotation::Identity(); // the axis is too small to be used
 	return Rotation::Rot2(rotvec,angle);
 }
 
-- 
2.43.0


From f8df1b1fabb35e7bd774836a6cdc7be89c3429d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 04/85] fix: GetRotAngle returns the axis with positive
 Z-component for half turns

The documentation promises that choice; the code took the sign that makes the
largest component positive.
---
 orocos_kdl/src/frames.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orocos_kdl/src/frames.cpp b/orocos_kdl/src/frames.cpp
index 985dfc2..b49a8aa 100644
--- a/orocos_kdl/src/frames.cpp
+++ b/orocos_kdl/src/frames.cpp
@@ -414,6 +414,8 @@ double Rotation::GetRotAngle(Vector& axis,double eps) const {
             y = yz/z;
         }
         axis = KDL::Vector(x, y, z);
+        if (z < -epsilon)
+            axis.ReverseSign(); // of both solutions, the one with positive Z-component
         return angle; // return 180 deg rotation
     }
 
-- 
2.43.0


From 11ad70e22f0342ae1f4a5274027e6227cea2b840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:26 +0000
Subject: [PATCH 05/85] fix: Rall2d::operator*= overwrote the value before
 using it in the derivatives

---
 orocos_kdl/src/utilities/rall2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/utilities/rall2d.h b/orocos_kdl/src/utilities/rall2d.h
index fd6f6f9..fdd9c87 100644
--- a/orocos_kdl/src/utilities/rall2d.h
+++ b/orocos_kdl/src/utilities/rall2d.h
@@ -114,9 +114,9 @@ class Rall2d
 
         INLINE Rall2d<T,V,S>& operator *=(const Rall2d<T,V,S>& rhs)
             {
-            t *= rhs.t;
-            d  = (d*rhs.t+t*rhs.d);
             dd = (dd*rhs.t+S(2)*d*rhs.d+t*rhs.dd);
+            d  = (d*rhs.t+t*rhs.d);
+            t *= rhs.t;
             return *this;
             }
 
-- 
2.43.0


From 895f6d5350de02643465e5ceb065cb0d1dba1495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:26 +0000
Subject: [PATCH 06/85] fix: RotationVel::RotY rotated about X

---
 orocos_kdl/src/framevel.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/framevel.inl b/orocos_kdl/src/framevel.inl
index 05aceb0..f43195b 100644
--- a/orocos_kdl/src/framevel.inl
+++ b/orocos_kdl/src/framevel.inl
@@ -214,7 +214,7 @@ void RotationVel::DoRotY(const doubleVel& angle) {
     R.DoRotY(angle.t);
 }
 RotationVel RotationVel::RotY(const doubleVel& angle) {
-    return RotationVel(Rotation::RotX(angle.t),Vector(0,angle.grad,0));
+    return RotationVel(Rotation::RotY(angle.t),Vector(0,angle.grad,0));
 }
 
 void RotationVel::DoRotZ(const doubleVel& angle) {
-- 
2.43.0


From b4c48229e3717b9ca49f5c69aaed6a82d6ad0bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:26 +0000
Subject: [PATCH 07/85] fix: diff(FrameVel,FrameVel) swapped the translational
 and rotational part

---
 orocos_kdl/src/framevel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/framevel.hpp b/orocos_kdl/src/framevel.hpp
index b84e69c..92ec580 100644
--- a/orocos_kdl/src/framevel.hpp
+++ b/orocos_kdl/src/framevel.hpp
@@ -359,7 +359,7 @@ IMETHOD RotationVel addDelta(const RotationVel& a,const VectorVel&da,double dt=1
 }
 
 IMETHOD TwistVel diff(const FrameVel& a,const FrameVel& b,double dt=1.0) {
-	return TwistVel(diff(a.M,b.M,dt),diff(a.p,b.p,dt));
+	return TwistVel(diff(a.p,b.p,dt),diff(a.M,b.M,dt));
 }
 
 IMETHOD FrameVel addDelta(const FrameVel& a,const TwistVel& da,double dt=1.0) {
-- 
2.43.0


From 71ffc4cc22ef8e21bbbeadb501cb2eaf9eae191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:48 +0000
Subject: [PATCH 08/85] fix: EatWord wrote past the end of the caller's buffer

---
 orocos_kdl/src/utilities/utility_io.cxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/orocos_kdl/src/utilities/utility_io.cxx b/orocos_kdl/src/utilities/utility_io.cxx
index eacf6cb..0a5be1b 100644
--- a/orocos_kdl/src/utilities/utility_io.cxx
+++ b/orocos_kdl/src/utilities/utility_io.cxx
@@ -190,11 +190,12 @@ void EatWord(std::istream& is,const char* delim,char* storage,int maxsize)
     size=0;
     int count = 0;
     while ((count==0)&&(strchr(delim,ch)==NULL)) {
-        *p = (char) toupper(ch);
-        ++p;
-        if (size==maxsize) {
+        // keep room for the terminating zero
+        if (size+1>=maxsize) {
            throw Error_BasicIO_ToBig();
         }
+        *p = (char) toupper(ch);
+        ++p;
         _check_istream(is);
         ++size;
         //ch = is.get();
-- 
2.43.0


From d4590e03867ff9380bd046f7d09804f8efed4cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:48 +0000
Subject: [PATCH 09/85] fix: operator>>(Rotation2) discarded the angle it read

---
 orocos_kdl/src/frames_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/frames_io.cpp b/orocos_kdl/src/frames_io.cpp
index 0af50bb..e5daa4a 100644
--- a/orocos_kdl/src/frames_io.cpp
+++ b/orocos_kdl/src/frames_io.cpp
@@ -294,7 +294,7 @@ std::istream& operator >> (std::istream& is,Rotation2& r)
     Eat(is,'[');
     double val;
     is >> val;
-    r.Rot(val*deg2rad);
+    r = Rotation2::Rot(val*deg2rad);
     EatEnd(is,']');
     IOTracePop();
     return is;
-- 
2.43.0


From 848123892e2d2c8016243dc7abca5abc656dd1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:46 +0000
Subject: [PATCH 10/85] fix: Path_Circle::Write wrote the direction of the
 circle's Y axis where the reader expects a point

---
 orocos_kdl/src/path_circle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/path_circle.cpp b/orocos_kdl/src/path_circle.cpp
index 53261e8..bbcf5dc 100644
--- a/orocos_kdl/src/path_circle.cpp
+++ b/orocos_kdl/src/path_circle.cpp
@@ -159,7 +159,7 @@ void Path_Circle::Write(std::ostream& os) {
 	os << "CIRCLE[ ";
 	os << "  " << Pos(0) << std::endl;
 	os << "  " << F_base_center.p << std::endl;
-	os << "  " << F_base_center.M.UnitY() << std::endl;
+	os << "  " << F_base_center*Vector(0,1,0) << std::endl;
 	os << "  " << orient->Pos(pathlength*scalerot) << std::endl;
 	os << "  " << pathlength*scalelin/radius/deg2rad << std::endl;
 	os << "  ";orient->Write(os);
-- 
2.43.0


From 14a8264bd7400cca0838417a2c7f4ba51f0873fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:46 +0000
Subject: [PATCH 11/85] fix: Path_Circle::Clone returned a different circle and
 leaked its interpolation

---
 orocos_kdl/src/path_circle.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/orocos_kdl/src/path_circle.cpp b/orocos_kdl/src/path_circle.cpp
index bbcf5dc..557662c 100644
--- a/orocos_kdl/src/path_circle.cpp
+++ b/orocos_kdl/src/path_circle.cpp
@@ -138,13 +138,14 @@ Twist Path_Circle::Acc(double s,double sd,double sdd) const {
 }
 
 Path* Path_Circle::Clone() {
+	// a path that does not own its interpolation shares it with its clone
 	return new Path_Circle(
 		Pos(0),
 		F_base_center.p,
-		F_base_center.M.UnitY(),
+		F_base_center*Vector(0,1,0),
 		orient->Pos(pathlength*scalerot),
-		pathlength*scalelin/radius/deg2rad,
-		orient->Clone(),
+		pathlength*scalelin/radius,
+		aggregate ? orient->Clone() : orient,
 		eqradius,
         aggregate
 	);
-- 
2.43.0


From 490fc209eba57094a372dadf8bdd102b7a889667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:04 +0000
Subject: [PATCH 12/85] fix: Tree::getSubTree read freed segments when
 extracting into the tree itself

---
 orocos_kdl/src/tree.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/tree.cpp b/orocos_kdl/src/tree.cpp
index 70151e6..87520f8 100644
--- a/orocos_kdl/src/tree.cpp
+++ b/orocos_kdl/src/tree.cpp
@@ -169,8 +169,11 @@ bool Tree::getSubTree(const std::string& segment_name, Tree& tree) const
   if (root == segments.end())
     return false;
   //init the tree, segment_name is the new root.
-  tree = Tree(root->first);
-  return tree.addTreeRecursive(root, segment_name);
+  //build it apart: the resulting tree may be this tree itself.
+  Tree sub_tree(root->first);
+  bool result = sub_tree.addTreeRecursive(root, root->first);
+  tree = sub_tree;
+  return result;
 }
 
 }//end of namespace
-- 
2.43.0


From 01f4cbea74b47921e218b21707f064a5502ef83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:04 +0000
Subject: [PATCH 13/85] fix: assigning a Chain or Tree to itself emptied it

---
 orocos_kdl/src/chain.cpp | 2 ++
 orocos_kdl/src/tree.cpp  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/orocos_kdl/src/chain.cpp b/orocos_kdl/src/chain.cpp
index 43eb4f1..8fe3f1e 100644
--- a/orocos_kdl/src/chain.cpp
+++ b/orocos_kdl/src/chain.cpp
@@ -41,6 +41,8 @@ namespace KDL {
 
     Chain& Chain::operator=(const Chain& arg)
     {
+        if(this==&arg)
+            return *this;
         nrOfJoints=0;
         nrOfSegments=0;
         segments.resize(0);
diff --git a/orocos_kdl/src/tree.cpp b/orocos_kdl/src/tree.cpp
index 87520f8..cab08fa 100644
--- a/orocos_kdl/src/tree.cpp
+++ b/orocos_kdl/src/tree.cpp
@@ -41,6 +41,8 @@ Tree::Tree(const Tree& in) {
 }
 
 Tree& Tree::operator=(const Tree& in) {
+    if (this == &in)
+        return *this;
     segments.clear();
     nrOfSegments = 0;
     nrOfJoints = 0;
-- 
2.43.0


From 86ee9aae85400bd5d996d744a395ac9a10abc00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:28 +0000
Subject: [PATCH 14/85] fix: appending a Chain's own segments to itself used
 freed memory and never ended

---
 orocos_kdl/src/chain.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chain.cpp b/orocos_kdl/src/chain.cpp
index 8fe3f1e..476feed 100644
--- a/orocos_kdl/src/chain.cpp
+++ b/orocos_kdl/src/chain.cpp
@@ -54,15 +54,18 @@ namespace KDL {
 
     void Chain::addSegment(const Segment& segment)
     {
+        // the segment may be one of our own, which push_back invalidates
+        const bool has_joint = segment.getJoint().getType()!=Joint::Fixed;
         segments.push_back(segment);
         nrOfSegments++;
-        if(segment.getJoint().getType()!=Joint::Fixed)
+        if(has_joint)
             nrOfJoints++;
     }
 
     void Chain::addChain(const Chain& chain)
     {
-        for(unsigned int i=0;i<chain.getNrOfSegments();i++)
+        const unsigned int nr = chain.getNrOfSegments(); // chain may be this chain
+        for(unsigned int i=0;i<nr;i++)
             this->addSegment(chain.getSegment(i));
     }
 
-- 
2.43.0


From cb1b8b2df6495c44623b9cd7572cfe877c3254cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:55 +0000
Subject: [PATCH 15/85] fix: copying a Tree renumbered its joints

---
 orocos_kdl/src/tree.cpp | 9 +++++++++
 orocos_kdl/src/tree.hpp | 1 +
 2 files changed, 10 insertions(+)

diff --git a/orocos_kdl/src/tree.cpp b/orocos_kdl/src/tree.cpp
index cab08fa..6d69c6b 100644
--- a/orocos_kdl/src/tree.cpp
+++ b/orocos_kdl/src/tree.cpp
@@ -38,6 +38,7 @@ Tree::Tree(const Tree& in) {
 
     segments.insert(make_pair(root_name, TreeElement::Root(root_name)));
     addTree(in, root_name);
+    copyJointNumbers(in);
 }
 
 Tree& Tree::operator=(const Tree& in) {
@@ -50,9 +51,17 @@ Tree& Tree::operator=(const Tree& in) {
 
     segments.insert(make_pair(in.root_name, TreeElement::Root(root_name)));
     this->addTree(in, root_name);
+    copyJointNumbers(in);
     return *this;
 }
 
+void Tree::copyJointNumbers(const Tree& in) {
+    // addTree numbers the joints in the order it visits them, which need not be
+    // the order in which they were added to the original
+    for (SegmentMap::const_iterator it = in.segments.begin(); it != in.segments.end(); ++it)
+        GetTreeElementQNr(segments.find(it->first)->second) = GetTreeElementQNr(it->second);
+}
+
 bool Tree::addSegment(const Segment& segment, const std::string& hook_name) {
     SegmentMap::iterator parent = segments.find(hook_name);
     //check if parent exists
diff --git a/orocos_kdl/src/tree.hpp b/orocos_kdl/src/tree.hpp
index fd664e8..90b96b6 100644
--- a/orocos_kdl/src/tree.hpp
+++ b/orocos_kdl/src/tree.hpp
@@ -106,6 +106,7 @@ namespace KDL
         std::string root_name;
 
         bool addTreeRecursive(SegmentMap::const_iterator root, const std::string& hook_name);
+        void copyJointNumbers(const Tree& in);
 
     public:
         /**
-- 
2.43.0


From 0b1816866cd65f07e2290eea4cbcaf5ca8428891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:06 +0000
Subject: [PATCH 16/85] fix: tree position and Jacobian solvers read past the
 joint array of a tree without movable joints

---
 orocos_kdl/src/treefksolverpos_recursive.cpp | 5 ++++-
 orocos_kdl/src/treejnttojacsolver.cpp        | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/orocos_kdl/src/treefksolverpos_recursive.cpp b/orocos_kdl/src/treefksolverpos_recursive.cpp
index b919b95..8428edf 100644
--- a/orocos_kdl/src/treefksolverpos_recursive.cpp
+++ b/orocos_kdl/src/treefksolverpos_recursive.cpp
@@ -49,7 +49,10 @@ namespace KDL {
 	{
 		//gets the frame for the current element (segment)
         const TreeElementType& currentElement = it->second;
-        Frame currentFrame = GetTreeElementSegment(currentElement).pose(q_in(GetTreeElementQNr(currentElement)));
+        const Segment& segment = GetTreeElementSegment(currentElement);
+        //a fixed joint has no entry in q_in
+        const double q = segment.getJoint().getType() != Joint::Fixed ? q_in(GetTreeElementQNr(currentElement)) : 0.0;
+        Frame currentFrame = segment.pose(q);
 
 		SegmentMap::const_iterator rootIterator = tree.getRootSegment();
 		if(it == rootIterator){
diff --git a/orocos_kdl/src/treejnttojacsolver.cpp b/orocos_kdl/src/treejnttojacsolver.cpp
index 0afb4d1..2171a93 100644
--- a/orocos_kdl/src/treejnttojacsolver.cpp
+++ b/orocos_kdl/src/treejnttojacsolver.cpp
@@ -42,12 +42,14 @@ int TreeJntToJacSolver::JntToJac(const JntArray& q_in, Jacobian& jac, const std:
         unsigned int q_nr = GetTreeElementQNr(it->second);
         
         //get the pose of the segment:
-        Frame T_local = GetTreeElementSegment(it->second).pose(q_in(q_nr));
+        //(a fixed joint has no entry in q_in)
+        const bool has_joint = GetTreeElementSegment(it->second).getJoint().getType() != Joint::Fixed;
+        Frame T_local = GetTreeElementSegment(it->second).pose(has_joint ? q_in(q_nr) : 0.0);
         //calculate new T_end:
         T_total = T_local * T_total;
         
         //get the twist of the segment:
-        if (GetTreeElementSegment(it->second).getJoint().getType() != Joint::Fixed) {
+        if (has_joint) {
             Twist t_local = GetTreeElementSegment(it->second).twist(q_in(q_nr), 1.0);
             //transform the endpoint of the local twist to the global endpoint:
             t_local = t_local.RefPoint(T_total.p - T_local.p);
-- 
2.43.0


From d65fd53855346ee2bfa2a94cd80a5b6f6679476a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:17 +0000
Subject: [PATCH 17/85] fix: Tree::getChain dropped the scale, offset, inertia,
 damping and stiffness of reversed joints

---
 orocos_kdl/src/tree.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/tree.cpp b/orocos_kdl/src/tree.cpp
index 6d69c6b..ef2e4d9 100644
--- a/orocos_kdl/src/tree.cpp
+++ b/orocos_kdl/src/tree.cpp
@@ -159,9 +159,11 @@ bool Tree::getChain(const std::string& chain_root, const std::string& chain_tip,
         Frame f_tip = seg.pose(0.0).Inverse();
         Joint jnt = seg.getJoint();
         if (jnt.getType() == Joint::RotX || jnt.getType() == Joint::RotY || jnt.getType() == Joint::RotZ || jnt.getType() == Joint::RotAxis)
-            jnt = Joint(jnt.getName(), f_tip*jnt.JointOrigin(), f_tip.M*(-jnt.JointAxis()), Joint::RotAxis);
+            jnt = Joint(jnt.getName(), f_tip*jnt.JointOrigin(), f_tip.M*(-jnt.JointAxis()), Joint::RotAxis,
+                        jnt.getScale(), jnt.getOffset(), jnt.getInertia(), jnt.getDamping(), jnt.getStiffness());
         else if (jnt.getType() == Joint::TransX || jnt.getType() == Joint::TransY || jnt.getType() == Joint::TransZ || jnt.getType() == Joint::TransAxis)
-            jnt = Joint(jnt.getName(),f_tip*jnt.JointOrigin(), f_tip.M*(-jnt.JointAxis()), Joint::TransAxis);
+            jnt = Joint(jnt.getName(),f_tip*jnt.JointOrigin(), f_tip.M*(-jnt.JointAxis()), Joint::TransAxis,
+                        jnt.getScale(), jnt.getOffset(), jnt.getInertia(), jnt.getDamping(), jnt.getStiffness());
         chain.addSegment(Segment(GetTreeElementSegment(getSegment(parents_chain_root[s+1])->second).getName(),
                                  jnt, f_tip, GetTreeElementSegment(getSegment(parents_chain_root[s+1])->second).getInertia()));
     }
-- 
2.43.0


From 73fd9b841e97ee46b2779a3483183c9dd6205d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:07 +0000
Subject: [PATCH 18/85] fix: Jacobian derivative solver wrote past the result
 with locked joints and mixed up their columns

---
 orocos_kdl/src/chainjnttojacdotsolver.cpp | 34 +++++++++++++++--------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/orocos_kdl/src/chainjnttojacdotsolver.cpp b/orocos_kdl/src/chainjnttojacdotsolver.cpp
index 9bb7e11..0fc8ca7 100644
--- a/orocos_kdl/src/chainjnttojacdotsolver.cpp
+++ b/orocos_kdl/src/chainjnttojacdotsolver.cpp
@@ -48,7 +48,6 @@ void ChainJntToJacDotSolver::updateInternalDataStructures() {
     this->setLockedJoints(locked_joints_);
     jac_solver_.updateInternalDataStructures();
     jac_.resize(chain.getNrOfJoints());
-    jac_dot_.resize(chain.getNrOfJoints());
     fk_solver_.updateInternalDataStructures();
 }
 
@@ -58,7 +57,14 @@ int ChainJntToJacDotSolver::JntToJacDot(const JntArrayVel& q_in, Twist& jac_dot_
     if (error != E_NOERROR) {
         return error;
     }
-    MultiplyJacobian(jac_dot_,q_in.qdot,jac_dot_q_dot);
+    // jac_dot_ only has columns for the unlocked joints
+    SetToZero(jac_dot_q_dot);
+    unsigned int k=0;
+    for(unsigned int j=0;j<chain.getNrOfJoints();++j)
+    {
+        if(!locked_joints_[j])
+            jac_dot_q_dot += jac_dot_.getColumn(k++) * q_in.qdot(j);
+    }
     return (error = E_NOERROR);
 }
 
@@ -76,7 +82,7 @@ int ChainJntToJacDotSolver::JntToJacDot(const JntArrayVel& q_in, Jacobian& jdot,
     //Initialize Jacobian to zero since only segmentNr columns are computed
     SetToZero(jdot) ;
 
-    if(q_in.q.rows()!=chain.getNrOfJoints() || nr_of_unlocked_joints_!=jdot.columns())
+    if(q_in.q.rows()!=chain.getNrOfJoints() || q_in.qdot.rows()!=chain.getNrOfJoints() || nr_of_unlocked_joints_!=jdot.columns())
         return (error = E_SIZE_MISMATCH);
     else if(segmentNr>chain.getNrOfSegments())
         return (error = E_OUT_OF_RANGE);
@@ -103,19 +109,24 @@ int ChainJntToJacDotSolver::JntToJacDot(const JntArrayVel& q_in, Jacobian& jdot,
 
     // Let's compute Jdot in the corresponding representation
     int k=0;
+    unsigned int joint=0;
     for(unsigned int i=0;i<segmentNr;++i)
     {
         //Only increase joint nr if the segment has a joint
         if(chain.getSegment(i).getJoint().getType()!=Joint::Fixed) {
 
-            for(unsigned int j=0;j<chain.getNrOfJoints();++j)
-            {
-                // Column J is the sum of all partial derivatives  ref (41)
-                if(!locked_joints_[j])
-                    jac_dot_k_ += getPartialDerivative(jac_,j,k,representation_) * q_in.qdot(j);
+            //Only put the column inside if the joint is not locked
+            if(!locked_joints_[joint]) {
+                for(unsigned int j=0;j<chain.getNrOfJoints();++j)
+                {
+                    // Column J is the sum of all partial derivatives  ref (41)
+                    if(!locked_joints_[j])
+                        jac_dot_k_ += getPartialDerivative(jac_,j,joint,representation_) * q_in.qdot(j);
+                }
+                jdot.setColumn(k++,jac_dot_k_);
+                SetToZero(jac_dot_k_);
             }
-            jdot.setColumn(k++,jac_dot_k_);
-            SetToZero(jac_dot_k_);
+            joint++;
         }
     }
 
@@ -227,13 +238,14 @@ void ChainJntToJacDotSolver::setRepresentation(const int& representation)
 int ChainJntToJacDotSolver::setLockedJoints(const std::vector<bool>& locked_joints)
 {
     if(locked_joints.size()!=locked_joints_.size())
-        return E_SIZE_MISMATCH;
+        return (error = E_SIZE_MISMATCH);
     locked_joints_=locked_joints;
     nr_of_unlocked_joints_=0;
     for(unsigned int i=0;i<locked_joints_.size();i++){
         if(!locked_joints_[i])
             nr_of_unlocked_joints_++;
     }
+    jac_dot_.resize(nr_of_unlocked_joints_);
 
     return (error = E_NOERROR);
 }
-- 
2.43.0


From e5a1249e743e7dae820e8cbc134c293d5a05ba18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:18 +0000
Subject: [PATCH 19/85] fix: the all-segments forward kinematics did not record
 their error codes

---
 orocos_kdl/src/chainfksolverpos_recursive.cpp | 10 +++++-----
 orocos_kdl/src/chainfksolvervel_recursive.cpp | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/orocos_kdl/src/chainfksolverpos_recursive.cpp b/orocos_kdl/src/chainfksolverpos_recursive.cpp
index 487569c..c0e016d 100644
--- a/orocos_kdl/src/chainfksolverpos_recursive.cpp
+++ b/orocos_kdl/src/chainfksolverpos_recursive.cpp
@@ -65,13 +65,13 @@ namespace KDL {
             segmentNr = seg_nr;
 
         if(q_in.rows()!=chain.getNrOfJoints())
-            return -1;
+            return (error = E_SIZE_MISMATCH);
         else if(segmentNr>chain.getNrOfSegments())
-            return -1;
+            return (error = E_OUT_OF_RANGE);
         else if(p_out.size() != segmentNr)
-            return -1;
+            return (error = E_SIZE_MISMATCH);
         else if(segmentNr == 0)
-            return -1;
+            return (error = E_OUT_OF_RANGE);
         else{
             int j=0;
             // Initialization
@@ -89,7 +89,7 @@ namespace KDL {
                     p_out[i] = p_out[i-1]*chain.getSegment(i).pose(0.0);
                 }
             }
-            return 0;
+            return (error = E_NOERROR);
         }
     }
 
diff --git a/orocos_kdl/src/chainfksolvervel_recursive.cpp b/orocos_kdl/src/chainfksolvervel_recursive.cpp
index 8957db0..ec485f1 100644
--- a/orocos_kdl/src/chainfksolvervel_recursive.cpp
+++ b/orocos_kdl/src/chainfksolvervel_recursive.cpp
@@ -76,13 +76,13 @@ namespace KDL
 
 
         if(!(in.q.rows()==chain.getNrOfJoints()&&in.qdot.rows()==chain.getNrOfJoints()))
-            return -1;
+            return (error = E_SIZE_MISMATCH);
         else if(segmentNr>chain.getNrOfSegments())
-            return -1;
+            return (error = E_OUT_OF_RANGE);
         else if(out.size()!=segmentNr)
-            return -1;
+            return (error = E_SIZE_MISMATCH);
         else if(segmentNr == 0)
-            return -1;
+            return (error = E_OUT_OF_RANGE);
         else{
             int j=0;
             // Initialization
@@ -105,7 +105,7 @@ namespace KDL
                                      chain.getSegment(i).twist(0.0,0.0));
                 }
             }
-            return 0;
+            return (error = E_NOERROR);
         }
     }
 }
-- 
2.43.0


From 8d9d46cebe6178726de78824c71b20e5d97b6153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:12 +0000
Subject: [PATCH 20/85] fix: sum and difference of an articulated and a rigid
 body inertia were declared but defined with swapped arguments

---
 orocos_kdl/src/articulatedbodyinertia.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/orocos_kdl/src/articulatedbodyinertia.cpp b/orocos_kdl/src/articulatedbodyinertia.cpp
index 709096d..2d0167c 100644
--- a/orocos_kdl/src/articulatedbodyinertia.cpp
+++ b/orocos_kdl/src/articulatedbodyinertia.cpp
@@ -54,15 +54,15 @@ namespace KDL{
         return ArticulatedBodyInertia(Ia.M+Ib.M,Ia.H+Ib.H,Ia.I+Ib.I);
     }
 
-    ArticulatedBodyInertia operator+(const RigidBodyInertia& Ia, const ArticulatedBodyInertia& Ib){
-        return ArticulatedBodyInertia(Ia)+Ib;
+    ArticulatedBodyInertia operator+(const ArticulatedBodyInertia& Ia, const RigidBodyInertia& Ib){
+        return Ia+ArticulatedBodyInertia(Ib);
     }
     ArticulatedBodyInertia operator-(const ArticulatedBodyInertia& Ia, const ArticulatedBodyInertia& Ib){
         return ArticulatedBodyInertia(Ia.M-Ib.M,Ia.H-Ib.H,Ia.I-Ib.I);
     }
 
-    ArticulatedBodyInertia operator-(const RigidBodyInertia& Ia, const ArticulatedBodyInertia& Ib){
-        return ArticulatedBodyInertia(Ia)-Ib;
+    ArticulatedBodyInertia operator-(const ArticulatedBodyInertia& Ia, const RigidBodyInertia& Ib){
+        return Ia-ArticulatedBodyInertia(Ib);
     }
     
     Wrench operator*(const ArticulatedBodyInertia& I,const Twist& t){
-- 
2.43.0


From 827560eca51997b3baef346a2db5b25e033fca00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:58 +0000
Subject: [PATCH 21/85] fix: ChainDynParam did not record the error code of its
 Coriolis and gravity calls

---
 orocos_kdl/src/chaindynparam.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chaindynparam.cpp b/orocos_kdl/src/chaindynparam.cpp
index f9f9fb9..4a3b63e 100644
--- a/orocos_kdl/src/chaindynparam.cpp
+++ b/orocos_kdl/src/chaindynparam.cpp
@@ -131,7 +131,7 @@ namespace KDL {
 
 
 	//the calculation of coriolis matrix C
-	return chainidsolver_coriolis.CartToJnt(q, q_dot, jntarraynull, wrenchnull, coriolis);
+	return (error = chainidsolver_coriolis.CartToJnt(q, q_dot, jntarraynull, wrenchnull, coriolis));
 
     }
 
@@ -143,7 +143,7 @@ namespace KDL {
 
 	SetToZero(jntarraynull);
 	//the calculation of coriolis matrix C
-	return chainidsolver_gravity.CartToJnt(q, jntarraynull, jntarraynull, wrenchnull, gravity);
+	return (error = chainidsolver_gravity.CartToJnt(q, jntarraynull, jntarraynull, wrenchnull, gravity));
     }
 
     ChainDynParam::~ChainDynParam()
-- 
2.43.0


From 1c39088d9162a9ed8d03d71a9c8379ef2826c77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:03 +0000
Subject: [PATCH 22/85] fix: TreeIdSolver_RNE dereferenced the parent iterator
 of the root segment

---
 orocos_kdl/src/treeidsolver_recursive_newton_euler.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/orocos_kdl/src/treeidsolver_recursive_newton_euler.cpp b/orocos_kdl/src/treeidsolver_recursive_newton_euler.cpp
index b26fb32..13849d0 100644
--- a/orocos_kdl/src/treeidsolver_recursive_newton_euler.cpp
+++ b/orocos_kdl/src/treeidsolver_recursive_newton_euler.cpp
@@ -78,7 +78,9 @@ namespace KDL{
     void TreeIdSolver_RNE::rne_step(SegmentMap::const_iterator segment, const JntArray &q, const JntArray &q_dot, const JntArray &q_dotdot, const WrenchMap& f_ext, JntArray& torques) {
       const Segment& seg = GetTreeElementSegment(segment->second);
       const std::string& segname = segment->first;
-      const std::string& parname = GetTreeElementParent(segment->second)->first;
+      //The root segment has no parent
+      const bool is_root = segment == tree.getRootSegment();
+      const std::string& parname = is_root ? segname : GetTreeElementParent(segment->second)->first;
 
       //Do forward calculations involving velocity & acceleration of this segment
       double q_, qdot_, qdotdot_;
@@ -101,7 +103,7 @@ namespace KDL{
       S.at(segname) = X.at(segname).M.Inverse( seg.twist(q_,1.0) );
 
       //calculate velocity and acceleration of the segment (in segment coordinates)
-      if(segment == tree.getRootSegment()) {
+      if(is_root) {
         v.at(segname) = vj;
         a.at(segname) = X.at(segname).Inverse(ag) + S.at(segname)*qdotdot_+ v.at(segname)*vj;
       }
@@ -133,7 +135,7 @@ namespace KDL{
       }
 
       //add reaction forces to parent segment
-      if(segment != tree.getRootSegment())
+      if(!is_root)
         f.at(parname) = f.at(parname) + X.at(segname)*f.at(segname);
     }
 }//namespace
-- 
2.43.0


From 4e347bd727e6ae5e1ec0061447665ad894da96bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:06 +0000
Subject: [PATCH 23/85] fix: ChainFdSolver_RNE could not be used again after
 the chain was extended

---
 .../src/chainfdsolver_recursive_newton_euler.cpp       | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp b/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
index 6e01c49..cb611c2 100644
--- a/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
+++ b/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
@@ -46,6 +46,16 @@ namespace KDL{
     void ChainFdSolver_RNE::updateInternalDataStructures() {
         nj = chain.getNrOfJoints();
         ns = chain.getNrOfSegments();
+        DynSolver.updateInternalDataStructures();
+        IdSolver.updateInternalDataStructures();
+        H.resize(nj);
+        Tzeroacc.resize(nj);
+        H_eig.resize(nj,nj);
+        Tzeroacc_eig.resize(nj);
+        L_eig.resize(nj,nj);
+        D_eig.resize(nj);
+        r_eig.resize(nj);
+        acc_eig.resize(nj);
     }
 
     int ChainFdSolver_RNE::CartToJnt(const JntArray &q, const JntArray &q_dot, const JntArray &torques, const Wrenches& f_ext, JntArray &q_dotdot)
-- 
2.43.0


From 7e0f1e9874863d44c9e938512d4194673e0de5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:35 +0000
Subject: [PATCH 24/85] fix: the Vereshchagin solver read past the joint arrays
 of a chain with fixed joints, which it does not support

---
 orocos_kdl/src/chainhdsolver_vereshchagin.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
index 75f58e9..20981f0 100644
--- a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
+++ b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
@@ -59,6 +59,9 @@ int ChainHdSolver_Vereshchagin::CartToJnt(const JntArray &q, const JntArray &q_d
     nj = chain.getNrOfJoints();
     if(ns != chain.getNrOfSegments())
         return (error = E_NOT_UP_TO_DATE);
+    //Segments with a fixed joint are not supported
+    if(nj != ns)
+        return (error = E_NOT_IMPLEMENTED);
     if (q.rows() != nj || q_dot.rows() != nj || q_dotdot.rows() != nj || ff_torques.rows() != nj || constraint_torques.rows() != nj || f_ext.size() != ns)
         return (error = E_SIZE_MISMATCH);
     if (alfa.columns() != nc || beta.rows() != nc)
-- 
2.43.0


From 1e4c3530b21761909b06c620f970a071571065db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:42 +0000
Subject: [PATCH 25/85] fix: ChainFdSolver_RNE::RK4Integrator summed the wrong
 stage velocities into the position increment

---
 orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp b/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
index cb611c2..8595361 100644
--- a/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
+++ b/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
@@ -118,17 +118,17 @@ namespace KDL{
         fdsolver.CartToJnt(q_temp, q_dot_temp, torques, f_ext, q_dotdot);
         for (unsigned int i=0; i<nj; ++i)
         {
+            dq(i) += 2.0*q_dot_temp(i);
             q_temp(i) = q(i) + q_dot_temp(i)*dt/2.0;
             q_dot_temp(i) = q_dot(i) + q_dotdot(i)*dt/2.0;
-            dq(i) += 2.0*q_dot_temp(i);
             dq_dot(i) += 2.0*q_dotdot(i);
         }
         fdsolver.CartToJnt(q_temp, q_dot_temp, torques, f_ext, q_dotdot);
         for (unsigned int i=0; i<nj; ++i)
         {
+            dq(i) += 2.0*q_dot_temp(i);
             q_temp(i) = q(i) + q_dot_temp(i)*dt;
             q_dot_temp(i) = q_dot(i) + q_dotdot(i)*dt;
-            dq(i) += 2.0*q_dot_temp(i);
             dq_dot(i) += 2.0*q_dotdot(i);
         }
         fdsolver.CartToJnt(q_temp, q_dot_temp, torques, f_ext, q_dotdot);
-- 
2.43.0


From 57b25deb265392f3ac5d44c403c43506828c17d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:02 +0000
Subject: [PATCH 26/85] fix: Vereshchagin's constraint torques lacked the part
 of the constraint force carried by free joints

---
 orocos_kdl/src/chainhdsolver_vereshchagin.cpp | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
index 20981f0..971904d 100644
--- a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
+++ b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
@@ -332,14 +332,13 @@ void ChainHdSolver_Vereshchagin::final_upwards_sweep(JntArray &q_dotdot, JntArra
         double parentAccComp = parent_forceProjection / s.D;
 
         //The constraint force and acceleration force projected on the joint axes -> axis torque/force
-        constraint_torques(j) = -dot(s.Z, constraint_force);
-        //The result should be the torque originating from the end-effector constraints
+        double constraint_forceProjection = -dot(s.Z, constraint_force);
 
         // Total torque on the joint resulting from the parent forces, constraint forces and nullspace forces.
-        total_torques(j) = s.u + parent_forceProjection + constraint_torques(j);
+        total_torques(j) = s.u + parent_forceProjection + constraint_forceProjection;
         // q_dotdot(j) is also equal to: total_torques(j) / s.D
 
-        s.constAccComp = constraint_torques(j) / s.D;
+        s.constAccComp = constraint_forceProjection / s.D;
         s.nullspaceAccComp = s.u / s.D;
 
         // Total joint space acceleration resulting from accelerations of parent joints, constraint forces and nullspace forces.
@@ -349,6 +348,19 @@ void ChainHdSolver_Vereshchagin::final_upwards_sweep(JntArray &q_dotdot, JntArra
         if (chain.getSegment(i - 1).getJoint().getType() != Joint::Fixed)
             j++;
     }
+
+    //The joint torques originating from the end-effector constraints: the complete constraint force, as it acts on
+    //the end-effector, is projected on each joint axis. (s.E only holds what the joints in between transmit of it.)
+    Vector6d tmp = results[ns].E_tilde*nu;
+    Wrench constraint_force = Wrench(Vector(tmp(3), tmp(4), tmp(5)),
+                                     Vector(tmp(0), tmp(1), tmp(2)));
+    for (unsigned int i = ns; i > 0; i--)
+    {
+        segment_info& s = results[i];
+        constraint_force = s.F * constraint_force;
+        if (chain.getSegment(i - 1).getJoint().getType() != Joint::Fixed)
+            constraint_torques(--j) = -dot(s.Z, constraint_force);
+    }
 }
 
 // Returns Cartesian acceleration of links in robot base coordinates
-- 
2.43.0


From 74e839dfc401b1c775afee1b19652b7b5d17a680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:25 +0000
Subject: [PATCH 27/85] fix: the SVD convergence test compared with a boolean
 instead of the matrix norm

---
 orocos_kdl/src/utilities/svd_HH.cpp       | 6 +++---
 orocos_kdl/src/utilities/svd_eigen_HH.cpp | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/orocos_kdl/src/utilities/svd_HH.cpp b/orocos_kdl/src/utilities/svd_HH.cpp
index b82467c..c27ae7d 100644
--- a/orocos_kdl/src/utilities/svd_HH.cpp
+++ b/orocos_kdl/src/utilities/svd_HH.cpp
@@ -66,8 +66,8 @@ namespace KDL
 
         int i(-1),its(-1),j(-1),jj(-1),k(-1),nm=0;
         int ppi(0);
-        bool flag,maxarg1,maxarg2;
-        double anorm(0),c(0),f(0),h(0),s(0),scale(0),x(0),y(0),z(0),g(0);
+        bool flag;
+        double maxarg1,maxarg2,anorm(0),c(0),f(0),h(0),s(0),scale(0),x(0),y(0),z(0),g(0);
 
         for(i=0;i<rows;i++)
             for(j=0;j<cols;j++)
@@ -173,7 +173,7 @@ namespace KDL
                 flag=true;
                 for (ppi=k;ppi>=0;ppi--) {  /* Test for splitting. */
                     nm=ppi-1;             /* Note that tmp[1] is always zero. */
-                    if ((fabs(tmp(ppi))+anorm) == anorm) {
+                    if (ppi == 0 || (fabs(tmp(ppi))+anorm) == anorm) {
                         flag=false;
                         break;
                     }
diff --git a/orocos_kdl/src/utilities/svd_eigen_HH.cpp b/orocos_kdl/src/utilities/svd_eigen_HH.cpp
index 7c7bd37..164c84e 100644
--- a/orocos_kdl/src/utilities/svd_eigen_HH.cpp
+++ b/orocos_kdl/src/utilities/svd_eigen_HH.cpp
@@ -34,8 +34,8 @@ namespace KDL{
 
         int i(-1),its(-1),j(-1),jj(-1),k(-1),nm=0;
         int ppi(0);
-        bool flag,maxarg1,maxarg2;
-        double anorm(0),c(0),f(0),h(0),s(0),scale(0),x(0),y(0),z(0),g(0);
+        bool flag;
+        double maxarg1,maxarg2,anorm(0),c(0),f(0),h(0),s(0),scale(0),x(0),y(0),z(0),g(0);
 
         /* Householder reduction to bidiagonal form. */
         for (i=0;i<cols;i++) {
@@ -140,7 +140,7 @@ namespace KDL{
                 flag=true;
                 for (ppi=k;ppi>=0;ppi--) {  /* Test for splitting. */
                     nm=ppi-1;             /* Note that tmp[1] is always zero. */
-                    if ((fabs(tmp(ppi))+anorm) == anorm) {
+                    if (ppi == 0 || (fabs(tmp(ppi))+anorm) == anorm) {
                         flag=false;
                         break;
                     }
@@ -260,7 +260,7 @@ namespace KDL{
             }
         }
         
-        if (its == maxiter) 
+        if (its == maxiter)
             return (-2);
         else 
             return (0);
-- 
2.43.0


From 7b8eddb7bef18c0a8e69edd34c21a7753c208f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:29 +0000
Subject: [PATCH 28/85] fix: the SVDs reported success after exceeding maxiter

---
 orocos_kdl/src/utilities/svd_HH.cpp       | 5 +++--
 orocos_kdl/src/utilities/svd_eigen_HH.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/orocos_kdl/src/utilities/svd_HH.cpp b/orocos_kdl/src/utilities/svd_HH.cpp
index c27ae7d..d2e440e 100644
--- a/orocos_kdl/src/utilities/svd_HH.cpp
+++ b/orocos_kdl/src/utilities/svd_HH.cpp
@@ -66,7 +66,7 @@ namespace KDL
 
         int i(-1),its(-1),j(-1),jj(-1),k(-1),nm=0;
         int ppi(0);
-        bool flag;
+        bool flag,maxiter_exceeded(false);
         double maxarg1,maxarg2,anorm(0),c(0),f(0),h(0),s(0),scale(0),x(0),y(0),z(0),g(0);
 
         for(i=0;i<rows;i++)
@@ -261,8 +261,9 @@ namespace KDL
                 tmp(k)=f;
                 w(k)=x;
             }
+            if (its > maxiter) maxiter_exceeded = true;
         }
-        if (its == maxiter)
+        if (maxiter_exceeded)
             return (-2);
         else
             return (0);
diff --git a/orocos_kdl/src/utilities/svd_eigen_HH.cpp b/orocos_kdl/src/utilities/svd_eigen_HH.cpp
index 164c84e..abd238a 100644
--- a/orocos_kdl/src/utilities/svd_eigen_HH.cpp
+++ b/orocos_kdl/src/utilities/svd_eigen_HH.cpp
@@ -34,7 +34,7 @@ namespace KDL{
 
         int i(-1),its(-1),j(-1),jj(-1),k(-1),nm=0;
         int ppi(0);
-        bool flag;
+        bool flag,maxiter_exceeded(false);
         double maxarg1,maxarg2,anorm(0),c(0),f(0),h(0),s(0),scale(0),x(0),y(0),z(0),g(0);
 
         /* Householder reduction to bidiagonal form. */
@@ -234,6 +234,7 @@ namespace KDL{
                 tmp(k)=f;
                 S(k)=x;
             }
+            if (its > maxiter) maxiter_exceeded = true;
         }
 
         //Sort eigen values:
@@ -260,7 +261,7 @@ namespace KDL{
             }
         }
         
-        if (its == maxiter)
+        if (maxiter_exceeded)
             return (-2);
         else 
             return (0);
-- 
2.43.0


From 7ab0c13f92e2c3fc2ddcebc8a34c6a64427c63bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:18 +0000
Subject: [PATCH 29/85] fix: svd_eigen_Macie never ended on matrices with a
 zero column or row and kept stale results when no rotation was needed

---
 orocos_kdl/src/utilities/svd_eigen_Macie.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/orocos_kdl/src/utilities/svd_eigen_Macie.cpp b/orocos_kdl/src/utilities/svd_eigen_Macie.cpp
index c0fce47..9a494e7 100644
--- a/orocos_kdl/src/utilities/svd_eigen_Macie.cpp
+++ b/orocos_kdl/src/utilities/svd_eigen_Macie.cpp
@@ -46,7 +46,8 @@ namespace KDL{
                         double alpha = pow(p,2.0)/(qi*qj);
                         //if columns are orthogonal with precision
                         //threshold, don't perform rotation and continue
-                        if(alpha<threshold)
+                        //(neither if one of them is zero, alpha is NaN then)
+                        if(!(alpha>=threshold))
                             continue;
                         rotations++;
                         double c = sqrt(4*pow(p,2.0)+pow(q,2.0));
@@ -75,8 +76,9 @@ namespace KDL{
                         rotate=true;
                     }
                 }
-                //Only calculate new U and S if there were any rotations
-                if(rotations!=0){
+                //Only calculate new U and S if there were any rotations,
+                //but at least once: they still belong to the previous A
+                if(rotations!=0 || sweeps==0){
                     for(unsigned int i=0;i<U.rows();i++) {
                         if(i<B.cols()){
                             double si=sqrt(B.col(i).dot(B.col(i)));
@@ -111,8 +113,9 @@ namespace KDL{
                         double alpha = pow(p,2.0)/(qi*qj);
                         //if columns are orthogonal with precision
                         //threshold, don't perform rotation and
-                        //continue
-                        if(alpha<threshold)
+                        //continue (neither if one of them is zero, alpha
+                        //is NaN then)
+                        if(!(alpha>=threshold))
                             continue;
                         rotations++;
                         double c = sqrt(4*pow(p,2.0)+pow(q,2.0));
@@ -143,8 +146,9 @@ namespace KDL{
                     }
                 }
 
-                //Only calculate new U and S if there were any rotations
-                if(rotations!=0){
+                //Only calculate new U and S if there were any rotations,
+                //but at least once: they still belong to the previous A
+                if(rotations!=0 || sweeps==0){
                     for(unsigned int i=0;i<V.rows();i++) {
                         double si=sqrt(B.row(i).dot(B.row(i)));
                         if(si==0)
-- 
2.43.0


From 524e95e86d3475832586d741bce2d315e538aa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:39 +0000
Subject: [PATCH 30/85] fix: ChainIkSolverVel_pinv_givens returned non-minimal
 joint velocities on every other call for redundant chains and wrong ones
 after the chain shrank

---
 orocos_kdl/src/chainiksolvervel_pinv_givens.cpp | 13 +++++++------
 orocos_kdl/src/chainiksolvervel_pinv_givens.hpp |  2 +-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/orocos_kdl/src/chainiksolvervel_pinv_givens.cpp b/orocos_kdl/src/chainiksolvervel_pinv_givens.cpp
index fbf102b..701cb99 100644
--- a/orocos_kdl/src/chainiksolvervel_pinv_givens.cpp
+++ b/orocos_kdl/src/chainiksolvervel_pinv_givens.cpp
@@ -29,7 +29,7 @@ namespace KDL
         nj(chain.getNrOfJoints()),
         jnt2jac(chain),
         jac(nj),
-        transpose(nj>6),toggle(true),
+        transpose(nj>6),
         m(static_cast<unsigned int>(max(6,nj))),
         n(static_cast<unsigned int>(min(6,nj))),
         jac_eigen(m,n),
@@ -53,8 +53,8 @@ namespace KDL
         m = static_cast<unsigned int>(max(6,nj));
         n = static_cast<unsigned int>(min(6,nj));
         jac_eigen.conservativeResize(m,n);
-        U.conservativeResizeLike(Eigen::MatrixXd::Identity(m,m));
-        V.conservativeResizeLike(Eigen::MatrixXd::Identity(n,n));
+        U = Eigen::MatrixXd::Identity(m,m);
+        V = Eigen::MatrixXd::Identity(n,n);
         B.conservativeResize(m,n);
         S.conservativeResize(n);
         tempi.conservativeResize(m);
@@ -75,8 +75,6 @@ namespace KDL
         if (nj != q_in.rows() || nj != qdot_out.rows())
             return (error = E_SIZE_MISMATCH);
 
-        toggle=!toggle;
-
         error = jnt2jac.JntToJac(q_in,jac);
         if (E_NOERROR > error )
             return error;
@@ -91,7 +89,10 @@ namespace KDL
                 else
                     jac_eigen(i,j)=jac(i,j);
         }
-        svd_eigen_Macie(jac_eigen,U,S,V,B,tempi,1e-15,toggle);
+        //Always start from V, the n x n factor: the columns of U only span the
+        //range of the previous jacobian, starting from them is no decomposition
+        //of the current one if m > n or if the previous one was singular.
+        svd_eigen_Macie(jac_eigen,U,S,V,B,tempi,1e-15,true);
 
         if(transpose)
             UY.noalias() = V.transpose() * v_in_eigen;
diff --git a/orocos_kdl/src/chainiksolvervel_pinv_givens.hpp b/orocos_kdl/src/chainiksolvervel_pinv_givens.hpp
index 8fdf159..8d00861 100644
--- a/orocos_kdl/src/chainiksolvervel_pinv_givens.hpp
+++ b/orocos_kdl/src/chainiksolvervel_pinv_givens.hpp
@@ -48,7 +48,7 @@ namespace KDL
         unsigned int nj;
         ChainJntToJacSolver jnt2jac;
         Jacobian jac;
-        bool transpose,toggle;
+        bool transpose;
         unsigned int m,n;
         Eigen::MatrixXd jac_eigen,U,V,B;
         Eigen::VectorXd S,tempi,UY,SUY,qdot_eigen,v_in_eigen;
-- 
2.43.0


From 42309fe7684175929577ac2eb88971f7338395e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:45 +0000
Subject: [PATCH 31/85] fix: singularities of chains with fewer than six joints
 were never reported by the pinv and wdls solvers

---
 orocos_kdl/src/chainiksolvervel_pinv.cpp | 2 +-
 orocos_kdl/src/chainiksolvervel_wdls.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainiksolvervel_pinv.cpp b/orocos_kdl/src/chainiksolvervel_pinv.cpp
index 4ecc0cc..fb54dd7 100644
--- a/orocos_kdl/src/chainiksolvervel_pinv.cpp
+++ b/orocos_kdl/src/chainiksolvervel_pinv.cpp
@@ -122,7 +122,7 @@ namespace KDL
 
         // Note if the solution is singular, i.e. if number of near zero
         // singular values is greater than the full rank of jac
-        if ( nrZeroSigmas > (jac.columns()-jac.rows()) ) {
+        if ( nrZeroSigmas > (jac.columns()>jac.rows() ? jac.columns()-jac.rows() : 0) ) {
             return (error = E_CONVERGE_PINV_SINGULAR);   // converged but pinv singular
         } else {
             return (error = E_NOERROR);                 // have converged
diff --git a/orocos_kdl/src/chainiksolvervel_wdls.cpp b/orocos_kdl/src/chainiksolvervel_wdls.cpp
index a2f37ae..d39468c 100644
--- a/orocos_kdl/src/chainiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/chainiksolvervel_wdls.cpp
@@ -208,7 +208,7 @@ namespace KDL
 
         // If number of near zero singular values is greater than the full rank
         // of jac, then wdls is active
-        if ( nrZeroSigmas > (jac.columns()-jac.rows()) ) {
+        if ( nrZeroSigmas > (jac.columns()>jac.rows() ? jac.columns()-jac.rows() : 0) ) {
             return (error = E_CONVERGE_PINV_SINGULAR);  // converged but pinv singular
         } else {
             return (error = E_NOERROR);                 // have converged
-- 
2.43.0


From 96cb6c7ee1d3fe7a6aa0c5ca052f485c1bc22082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:51 +0000
Subject: [PATCH 32/85] fix: ChainIkSolverVel_wdls read out of bounds for
 chains with fewer than six joints

---
 orocos_kdl/src/chainiksolvervel_wdls.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainiksolvervel_wdls.cpp b/orocos_kdl/src/chainiksolvervel_wdls.cpp
index d39468c..c589b67 100644
--- a/orocos_kdl/src/chainiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/chainiksolvervel_wdls.cpp
@@ -151,7 +151,8 @@ namespace KDL
         }
 
         //Pre-multiply U and V by the task space and joint space weighting matrix respectively
-        tmp_ts = weight_ts.lazyProduct(U.topLeftCorner(6,6));
+        const Eigen::Index nu = U.cols() < 6 ? U.cols() : 6;
+        tmp_ts.leftCols(nu) = weight_ts.lazyProduct(U.leftCols(nu));
         tmp_js = weight_js.lazyProduct(V);
 
         // Minimum of six largest singular values of J is S(5) if number of joints >=6 and 0 for <6
-- 
2.43.0


From 0ed8d7e0b6552c8a3c8efc5de31821aa5a28568a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:56 +0000
Subject: [PATCH 33/85] fix: ChainIkSolverVel_wdls accepted weight matrices of
 the wrong shape

---
 orocos_kdl/src/chainiksolvervel_wdls.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainiksolvervel_wdls.cpp b/orocos_kdl/src/chainiksolvervel_wdls.cpp
index c589b67..bfa65a8 100644
--- a/orocos_kdl/src/chainiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/chainiksolvervel_wdls.cpp
@@ -77,14 +77,14 @@ namespace KDL
         if(nj != chain.getNrOfJoints())
             return (error = E_NOT_UP_TO_DATE);
 
-        if (Mq.size() != weight_js.size())
+        if (Mq.rows() != weight_js.rows() || Mq.cols() != weight_js.cols())
             return (error = E_SIZE_MISMATCH);
         weight_js = Mq;
         return (error = E_NOERROR);
     }
     
     int ChainIkSolverVel_wdls::setWeightTS(const Eigen::MatrixXd& Mx){
-        if (Mx.size() != weight_ts.size())
+        if (Mx.rows() != weight_ts.rows() || Mx.cols() != weight_ts.cols())
             return (error = E_SIZE_MISMATCH);
         weight_ts = Mx;
         return (error = E_NOERROR);
-- 
2.43.0


From bcd463d3ebf95abae577bc337248736aabcd0615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:01 +0000
Subject: [PATCH 34/85] fix: ChainIkSolverVel_wdls divided zero by zero for a
 zero singular value without damping

---
 orocos_kdl/src/chainiksolvervel_wdls.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainiksolvervel_wdls.cpp b/orocos_kdl/src/chainiksolvervel_wdls.cpp
index bfa65a8..0da9720 100644
--- a/orocos_kdl/src/chainiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/chainiksolvervel_wdls.cpp
@@ -182,7 +182,8 @@ namespace KDL
             if(fabs(S(i))<eps) {
                 if (i<6) {
                     // Scale lambda to size of singular value sigmaMin
-                    tmp(i) = sum*((S(i)/(S(i)*S(i)+lambda_scaled*lambda_scaled)));
+                    const double denominator = S(i)*S(i)+lambda_scaled*lambda_scaled;
+                    tmp(i) = denominator > 0.0 ? sum*(S(i)/denominator) : 0.0;
                 }
                 else {
                     tmp(i)=0.0;  // S(i)=0 for i>=6 due to cols>rows
-- 
2.43.0


From c356d749c56ae44ee956158a58a08b3a2eec4a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:12 +0000
Subject: [PATCH 35/85] fix: ChainIkSolverVel_pinv_nso wrote out of bounds for
 chains with fewer than six joints

---
 orocos_kdl/src/chainiksolvervel_pinv_nso.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp b/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
index 1b04795..7d0b43d 100644
--- a/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
+++ b/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
@@ -113,11 +113,12 @@ namespace KDL
         for (i = 0; i < nj; ++i) {
             Sinv(i) = fabs(S(i))<eps ? 0.0 : 1.0/S(i);
         }
+        Eigen::Matrix<double,6,1> v;
         for (i = 0; i < 6; ++i) {
-            tmp(i) = v_in(i);
+            v(i) = v_in(i);
         }
 
-        qdot_out.data = V * Sinv.asDiagonal() * U.transpose() * tmp.head(6);
+        qdot_out.data = V * Sinv.asDiagonal() * U.transpose() * v;
 
         // Now onto NULL space
         // Given the cost function g, and the current joints q, desired joints qd, and weights w:
-- 
2.43.0


From c3ff38810d22c313d5c291633dc666978dec0511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:33 +0000
Subject: [PATCH 36/85] fix: two velocity inverse kinematics calls did not
 record their error code

---
 orocos_kdl/src/chainiksolvervel_pinv_nso.cpp | 2 +-
 orocos_kdl/src/chainiksolvervel_wdls.hpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp b/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
index 7d0b43d..56c7413 100644
--- a/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
+++ b/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
@@ -183,7 +183,7 @@ namespace KDL
     int ChainIkSolverVel_pinv_nso::setAlpha(const double _alpha)
     {
       alpha = _alpha;
-      return 0;
+      return (error = E_NOERROR);
     }
 
 
diff --git a/orocos_kdl/src/chainiksolvervel_wdls.hpp b/orocos_kdl/src/chainiksolvervel_wdls.hpp
index dbba19b..006f004 100644
--- a/orocos_kdl/src/chainiksolvervel_wdls.hpp
+++ b/orocos_kdl/src/chainiksolvervel_wdls.hpp
@@ -102,7 +102,7 @@ namespace KDL
          * not (yet) implemented.
          *
          */
-        virtual int CartToJnt(const JntArray& /*q_init*/, const FrameVel& /*v_in*/, JntArrayVel& /*q_out*/){return -1;};
+        virtual int CartToJnt(const JntArray& /*q_init*/, const FrameVel& /*v_in*/, JntArrayVel& /*q_out*/){return (error = E_NOT_IMPLEMENTED);};
 
         /**
          * Set the joint space weighting matrix
-- 
2.43.0


From aa8d7aa75006285436bcd61818c6414a99185c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:44 +0000
Subject: [PATCH 37/85] fix: ChainIkSolverPos_NR did not record its success,
 getError kept an earlier failure

---
 orocos_kdl/src/chainiksolverpos_nr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainiksolverpos_nr.cpp b/orocos_kdl/src/chainiksolverpos_nr.cpp
index 79747bf..8d7f12d 100644
--- a/orocos_kdl/src/chainiksolverpos_nr.cpp
+++ b/orocos_kdl/src/chainiksolverpos_nr.cpp
@@ -62,7 +62,7 @@ namespace KDL
             Add(q_out,delta_q,q_out);
             if(Equal(delta_twist,Twist::Zero(),eps))
                 // converged, but possibly with a degraded solution
-                return (rc > E_NOERROR ? E_DEGRADED : E_NOERROR);
+                return (error = (rc > E_NOERROR ? E_DEGRADED : E_NOERROR));
         }
         return (error = E_MAX_ITERATIONS_EXCEEDED);        // failed to converge
     }
-- 
2.43.0


From 24096491a4fb865783378807ec7cfc7a33210235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:47 +0000
Subject: [PATCH 38/85] fix: the default lower joint limits of
 ChainIkSolverPos_NR_JL were the smallest positive number

---
 orocos_kdl/src/chainiksolverpos_nr_jl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainiksolverpos_nr_jl.cpp b/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
index bb30c45..95166ce 100644
--- a/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
+++ b/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
@@ -46,13 +46,13 @@ namespace KDL
          delta_q(nj),
          maxiter(_maxiter),eps(_eps)
     {
-        q_min.data.setConstant(std::numeric_limits<double>::min());
+        q_min.data.setConstant(-std::numeric_limits<double>::max());
         q_max.data.setConstant(std::numeric_limits<double>::max());
     }
 
     void ChainIkSolverPos_NR_JL::updateInternalDataStructures() {
        nj = chain.getNrOfJoints();
-       q_min.data.conservativeResizeLike(Eigen::VectorXd::Constant(nj,std::numeric_limits<double>::min()));
+       q_min.data.conservativeResizeLike(Eigen::VectorXd::Constant(nj,-std::numeric_limits<double>::max()));
        q_max.data.conservativeResizeLike(Eigen::VectorXd::Constant(nj,std::numeric_limits<double>::max()));
        iksolver.updateInternalDataStructures();
        fksolver.updateInternalDataStructures();
-- 
2.43.0


From fef9d3eb625fd3c25d18412028f11c9df3ac2e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:52 +0000
Subject: [PATCH 39/85] fix: ChainIkSolverPos_NR_JL returned joint positions
 outside the limits if the initial guess outside of them reached the goal

---
 orocos_kdl/src/chainiksolverpos_nr_jl.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/orocos_kdl/src/chainiksolverpos_nr_jl.cpp b/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
index 95166ce..df92096 100644
--- a/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
+++ b/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
@@ -69,6 +69,14 @@ namespace KDL
 
         q_out = q_init;
 
+        // the initial guess itself has to respect the limits, it may be the solution
+        for(unsigned int j=0; j<nj; j++) {
+            if(q_out(j) < q_min(j))
+                q_out(j) = q_min(j);
+            if(q_out(j) > q_max(j))
+                q_out(j) = q_max(j);
+        }
+
         unsigned int i;
         for(i=0;i<maxiter;i++){
             if ( fksolver.JntToCart(q_out,f) < 0)
-- 
2.43.0


From d19cdff75c9ad8be531813c5466196f1f8a60c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:10 +0000
Subject: [PATCH 40/85] fix: ChainIkSolverPos_LMA decomposed an uninitialised
 Jacobian and reported wrong differences when the initial guess reached the
 goal or the iterations ran out

---
 orocos_kdl/src/chainiksolverpos_lma.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainiksolverpos_lma.cpp b/orocos_kdl/src/chainiksolverpos_lma.cpp
index 71d2ab5..1af16b1 100644
--- a/orocos_kdl/src/chainiksolverpos_lma.cpp
+++ b/orocos_kdl/src/chainiksolverpos_lma.cpp
@@ -209,10 +209,12 @@ int ChainIkSolverPos_LMA::CartToJnt(const KDL::JntArray& q_init, const KDL::Fram
 	delta_pos_norm = delta_pos.norm();
 	if (delta_pos_norm<eps) {
 		lastNrOfIter    =0 ;
+		lastDifference  = delta_pos_norm;
 		Twist_to_Eigen( diff( T_base_head, T_base_goal), delta_pos );
-		lastDifference  = delta_pos.norm();
 		lastTransDiff   = delta_pos.topRows(3).norm();
 		lastRotDiff     = delta_pos.bottomRows(3).norm();
+		compute_jacobian(q);
+		jac = L.asDiagonal()*jac;
 		svd.compute(jac);
 		original_Aii    = svd.singularValues();
 		lastSV          = svd.singularValues();
@@ -305,6 +307,8 @@ int ChainIkSolverPos_LMA::CartToJnt(const KDL::JntArray& q_init, const KDL::Fram
 		}
 	}
 	lastDifference = delta_pos_norm;
+	compute_fwdpos(q);
+	Twist_to_Eigen( diff( T_base_head, T_base_goal), delta_pos );
 	lastTransDiff  = delta_pos.topRows(3).norm();
 	lastRotDiff    = delta_pos.bottomRows(3).norm();
 	lastSV         = svd.singularValues();
-- 
2.43.0


From 5925c2fb436fdf9930e9e58b155a0df88984989c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:39 +0000
Subject: [PATCH 41/85] fix: TreeIkSolverVel_wdls dereferenced a missing
 endpoint twist

---
 orocos_kdl/src/treeiksolvervel_wdls.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orocos_kdl/src/treeiksolvervel_wdls.cpp b/orocos_kdl/src/treeiksolvervel_wdls.cpp
index 87665db..78a473e 100644
--- a/orocos_kdl/src/treeiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/treeiksolvervel_wdls.cpp
@@ -52,6 +52,9 @@ namespace KDL {
             if (jacobians.find(v_it->first) == jacobians.end())
                 return -2;
         }
+        //And that there is a Twist for each of the endpoints:
+        if (v_in.size() != jacobians.size())
+            return -2;
         //Check if q_in has the right size
         if (q_in.rows() != tree.getNrOfJoints())
             return -1;
-- 
2.43.0


From 812f6ca170a425f048dc26f5d7597bcaa74a64b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:02 +0000
Subject: [PATCH 42/85] fix: TreeIkSolverPos_NR_JL indexed past joint limits of
 another size

---
 orocos_kdl/src/treeiksolverpos_nr_jl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/orocos_kdl/src/treeiksolverpos_nr_jl.cpp b/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
index 2b0b1a3..613db97 100644
--- a/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
+++ b/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
@@ -47,6 +47,10 @@ namespace KDL {
             if(frames.find(f_des_it->first)==frames.end())
                 return -2;
         
+        //The joint limits should have the right size
+        if (q_out.rows() != q_min.rows() || q_out.rows() != q_max.rows())
+            return -1;
+        
         unsigned int k=0;
         while(++k <= maxiter) {
             for (Frames::const_iterator f_des_it=p_in.begin();f_des_it!=p_in.end();++f_des_it){
-- 
2.43.0


From d131c982faf547073828e433d6f11f4a04632b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:02 +0000
Subject: [PATCH 43/85] fix: TreeIkSolverVel_wdls returned NaN for a zero
 singular value without damping

---
 orocos_kdl/src/treeiksolvervel_wdls.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/treeiksolvervel_wdls.cpp b/orocos_kdl/src/treeiksolvervel_wdls.cpp
index 78a473e..411080a 100644
--- a/orocos_kdl/src/treeiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/treeiksolvervel_wdls.cpp
@@ -98,7 +98,8 @@ namespace KDL {
                 else
                     sum += 0.0;
             }
-            tmp( i) = sum * ((S(i) / (S(i) * S(i) + lambda * lambda)));
+            const double denominator = S(i) * S(i) + lambda * lambda;
+            tmp( i) = denominator > 0.0 ? sum * (S(i) / denominator) : 0.0;
         }
         
         // x = Lx^-1*V*tmp + x
-- 
2.43.0


From 7843e87b83663c74ab542170a92213d353f39253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:02 +0000
Subject: [PATCH 44/85] fix: TreeIkSolverPos_Online scaled by the larger
 velocity instead of the larger overshoot

---
 orocos_kdl/src/treeiksolverpos_online.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/orocos_kdl/src/treeiksolverpos_online.cpp b/orocos_kdl/src/treeiksolverpos_online.cpp
index 594c3a0..5ed06b4 100644
--- a/orocos_kdl/src/treeiksolverpos_online.cpp
+++ b/orocos_kdl/src/treeiksolverpos_online.cpp
@@ -155,16 +155,18 @@ void TreeIkSolverPos_Online::enforceCartVelLimits()
 
   if ( x_dot_trans > x_dot_trans_max_ || x_dot_rot > x_dot_rot_max_ )
   {
-    if ( x_dot_trans > x_dot_rot )
+    // the biggest overshoot decides, both parts are scaled alike
+    double scale = 1.0;
+    if ( x_dot_trans > x_dot_trans_max_ )
     {
-      twist_.vel = twist_.vel * ( x_dot_trans_max_ / x_dot_trans );
-      twist_.rot = twist_.rot * ( x_dot_trans_max_ / x_dot_trans );
+      scale = x_dot_trans_max_ / x_dot_trans;
     }
-    else if ( x_dot_rot > x_dot_trans )
+    if ( x_dot_rot > x_dot_rot_max_ && x_dot_rot_max_ / x_dot_rot < scale )
     {
-      twist_.vel = twist_.vel * ( x_dot_rot_max_ / x_dot_rot );
-      twist_.rot = twist_.rot * ( x_dot_rot_max_ / x_dot_rot );
+      scale = x_dot_rot_max_ / x_dot_rot;
     }
+    twist_.vel = twist_.vel * scale;
+    twist_.rot = twist_.rot * scale;
   }
 }
 
-- 
2.43.0


From 3075197c0fe201c4c0c7d57a81ba026993613e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:02 +0000
Subject: [PATCH 45/85] fix: tree position solvers kept steering endpoints of
 an earlier call that the current call does not ask for

---
 orocos_kdl/src/treeiksolverpos_nr_jl.cpp  | 4 ++++
 orocos_kdl/src/treeiksolverpos_online.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/orocos_kdl/src/treeiksolverpos_nr_jl.cpp b/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
index 613db97..001e793 100644
--- a/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
+++ b/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
@@ -51,6 +51,10 @@ namespace KDL {
         if (q_out.rows() != q_min.rows() || q_out.rows() != q_max.rows())
             return -1;
         
+        //Endpoints without a desired frame keep their pose
+        for (Twists::iterator delta_twist = delta_twists.begin(); delta_twist != delta_twists.end(); ++delta_twist)
+            SetToZero(delta_twist->second);
+        
         unsigned int k=0;
         while(++k <= maxiter) {
             for (Frames::const_iterator f_des_it=p_in.begin();f_des_it!=p_in.end();++f_des_it){
diff --git a/orocos_kdl/src/treeiksolverpos_online.cpp b/orocos_kdl/src/treeiksolverpos_online.cpp
index 5ed06b4..d09ab51 100644
--- a/orocos_kdl/src/treeiksolverpos_online.cpp
+++ b/orocos_kdl/src/treeiksolverpos_online.cpp
@@ -66,6 +66,10 @@ double TreeIkSolverPos_Online::CartToJnt(const JntArray& q_in, const Frames& p_i
     if(frames_.find(f_des_it->first)==frames_.end())
       return -2;
 
+  // Endpoints without a desired frame keep their pose
+  for (Twists::iterator delta_twists_it=delta_twists_.begin();delta_twists_it!=delta_twists_.end();++delta_twists_it)
+    SetToZero(delta_twists_it->second);
+
   for (Frames::const_iterator f_des_it=p_in.begin();f_des_it!=p_in.end();++f_des_it)
   {
     // Get all iterators for this endpoint
-- 
2.43.0


From 03c21d1ac40d5f35093fb1f37d4decd002f76bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:02 +0000
Subject: [PATCH 46/85] fix: TreeIkSolverPos_NR_JL returned an initial guess
 outside the joint limits

---
 orocos_kdl/src/treeiksolverpos_nr_jl.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/orocos_kdl/src/treeiksolverpos_nr_jl.cpp b/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
index 001e793..82bee20 100644
--- a/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
+++ b/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
@@ -55,6 +55,14 @@ namespace KDL {
         for (Twists::iterator delta_twist = delta_twists.begin(); delta_twist != delta_twists.end(); ++delta_twist)
             SetToZero(delta_twist->second);
         
+        //The initial guess itself has to respect the limits, it may be the solution
+        for (unsigned int j = 0; j < q_min.rows(); j++) {
+            if (q_out(j) < q_min(j))
+                q_out(j) = q_min(j);
+            else if (q_out(j) > q_max(j))
+                q_out(j) = q_max(j);
+        }
+        
         unsigned int k=0;
         while(++k <= maxiter) {
             for (Frames::const_iterator f_des_it=p_in.begin();f_des_it!=p_in.end();++f_des_it){
-- 
2.43.0


From 68bf9133538148ab2cfa32481247d55d3402b7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:33 +0000
Subject: [PATCH 47/85] fix: ChainExternalWrenchEstimator saw a jump of the
 mass matrix in the first step after setInitialMomentum

---
 orocos_kdl/src/chainexternalwrenchestimator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orocos_kdl/src/chainexternalwrenchestimator.cpp b/orocos_kdl/src/chainexternalwrenchestimator.cpp
index 8c9d752..cc4de0b 100644
--- a/orocos_kdl/src/chainexternalwrenchestimator.cpp
+++ b/orocos_kdl/src/chainexternalwrenchestimator.cpp
@@ -83,6 +83,9 @@ int ChainExternalWrenchEstimator::setInitialMomentum(const JntArray &joint_posit
 
     initial_jnt_momentum.data = jnt_mass_matrix.data * joint_velocity.data;
 
+    // The change of inertia is counted from here on as well
+    previous_jnt_mass_matrix.data = jnt_mass_matrix.data;
+
     // Reset data because of the new momentum offset
     SetToZero(estimated_momentum_integral);
     SetToZero(filtered_estimated_ext_torque);
-- 
2.43.0


From c43204129d2bb585cd5897c921a2cd4f126505c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:57 +0000
Subject: [PATCH 48/85] fix: MultiplyJacobian with an empty joint array read
 past it instead of returning zero

---
 orocos_kdl/src/jntarray.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/orocos_kdl/src/jntarray.cpp b/orocos_kdl/src/jntarray.cpp
index 32c875d..fe8c44c 100644
--- a/orocos_kdl/src/jntarray.cpp
+++ b/orocos_kdl/src/jntarray.cpp
@@ -99,6 +99,10 @@ namespace KDL
 
     void MultiplyJacobian(const Jacobian& jac, const JntArray& src, Twist& dest)
     {
+        if(0==src.rows()){
+            SetToZero(dest);
+            return;
+        }
         Eigen::Matrix<double,6,1> t=jac.data.lazyProduct(src.data);
         dest=Twist(Vector(t(0),t(1),t(2)),Vector(t(3),t(4),t(5)));
     }
-- 
2.43.0


From f42643cf038c415d3431ad4020a46a516b6bd040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:38 +0000
Subject: [PATCH 49/85] fix: JntSpaceInertiaMatrix::resize left the elements
 uninitialised instead of zero

---
 orocos_kdl/src/jntspaceinertiamatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/jntspaceinertiamatrix.cpp b/orocos_kdl/src/jntspaceinertiamatrix.cpp
index fb8a4fe..2969c3f 100644
--- a/orocos_kdl/src/jntspaceinertiamatrix.cpp
+++ b/orocos_kdl/src/jntspaceinertiamatrix.cpp
@@ -52,7 +52,7 @@ namespace KDL
 
     void JntSpaceInertiaMatrix::resize(unsigned int newSize)
     {
-        data.resize(newSize,newSize);
+        data.setZero(newSize,newSize);
     }
 
     double JntSpaceInertiaMatrix::operator()(unsigned int i,unsigned int j)const
-- 
2.43.0


From c1f30130c208b332007ffec1733fe7b77fe89d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:38 +0000
Subject: [PATCH 50/85] fix: Jacobian::resize left added columns uninitialised

---
 orocos_kdl/src/jacobian.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/jacobian.cpp b/orocos_kdl/src/jacobian.cpp
index 21d3d64..d0e1af7 100644
--- a/orocos_kdl/src/jacobian.cpp
+++ b/orocos_kdl/src/jacobian.cpp
@@ -53,7 +53,7 @@ namespace KDL
 
     void Jacobian::resize(unsigned int new_nr_of_columns)
     {
-        data.conservativeResize(Eigen::NoChange,new_nr_of_columns);
+        data.conservativeResizeLike(Eigen::Matrix<double,6,Eigen::Dynamic>::Zero(6,new_nr_of_columns));
     }
 
     double Jacobian::operator()(unsigned int i,unsigned int j)const
-- 
2.43.0


From abf70912d5686ba153ddc29a92d58296f61eccc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:03 +0000
Subject: [PATCH 51/85] fix: Multiply and Divide of joint arrays with rates
 computed wrong results when the destination is the source

---
 orocos_kdl/src/jntarrayacc.cpp | 44 +++++++++++-----------------------
 orocos_kdl/src/jntarrayvel.cpp | 10 ++++----
 2 files changed, 18 insertions(+), 36 deletions(-)

diff --git a/orocos_kdl/src/jntarrayacc.cpp b/orocos_kdl/src/jntarrayacc.cpp
index 2d0949a..0b660cb 100644
--- a/orocos_kdl/src/jntarrayacc.cpp
+++ b/orocos_kdl/src/jntarrayacc.cpp
@@ -109,24 +109,16 @@ namespace KDL
     }
     void Multiply(const JntArrayAcc& src,const doubleVel& factor,JntArrayAcc& dest)
     {
-        Multiply(src.qdot,factor.grad*2,dest.qdot);
-        Multiply(src.qdotdot,factor.t,dest.qdotdot);
-        Add(dest.qdot,dest.qdotdot,dest.qdotdot);
-        Multiply(src.q,factor.grad,dest.q);
-        Multiply(src.qdot,factor.t,dest.qdot);
-        Add(dest.qdot,dest.q,dest.qdot);
+        // highest derivative first, dest can be the same array as src
+        dest.qdotdot.data=src.qdotdot.data*factor.t+src.qdot.data*(factor.grad*2);
+        dest.qdot.data=src.qdot.data*factor.t+src.q.data*factor.grad;
         Multiply(src.q,factor.t,dest.q);
     }
     void Multiply(const JntArrayAcc& src,const doubleAcc& factor,JntArrayAcc& dest)
     {
-        Multiply(src.q,factor.dd,dest.q);
-        Multiply(src.qdot,factor.d*2,dest.qdot);
-        Multiply(src.qdotdot,factor.t,dest.qdotdot);
-        Add(dest.qdotdot,dest.qdot,dest.qdotdot);
-        Add(dest.qdotdot,dest.q,dest.qdotdot);
-        Multiply(src.q,factor.d,dest.q);
-        Multiply(src.qdot,factor.t,dest.qdot);
-        Add(dest.qdot,dest.q,dest.qdot);
+        // highest derivative first, dest can be the same array as src
+        dest.qdotdot.data=src.qdotdot.data*factor.t+src.qdot.data*(factor.d*2)+src.q.data*factor.dd;
+        dest.qdot.data=src.qdot.data*factor.t+src.q.data*factor.d;
         Multiply(src.q,factor.t,dest.q);
     }
 
@@ -138,26 +130,18 @@ namespace KDL
     }
     void Divide(const JntArrayAcc& src,const doubleVel& factor,JntArrayAcc& dest)
     {
-        Multiply(src.q,(2*factor.grad*factor.grad)/(factor.t*factor.t*factor.t),dest.q);
-        Multiply(src.qdot,(2*factor.grad)/(factor.t*factor.t),dest.qdot);
-        Divide(src.qdotdot,factor.t,dest.qdotdot);
-        Subtract(dest.qdotdot,dest.qdot,dest.qdotdot);
-        Add(dest.qdotdot,dest.q,dest.qdotdot);
-        Multiply(src.q,factor.grad/(factor.t*factor.t),dest.q);
-        Divide(src.qdot,factor.t,dest.qdot);
-        Subtract(dest.qdot,dest.q,dest.qdot);
+        // highest derivative first, dest can be the same array as src
+        dest.qdotdot.data=src.qdotdot.data/factor.t-src.qdot.data*((2*factor.grad)/(factor.t*factor.t))
+            +src.q.data*((2*factor.grad*factor.grad)/(factor.t*factor.t*factor.t));
+        dest.qdot.data=src.qdot.data/factor.t-src.q.data*(factor.grad/(factor.t*factor.t));
         Divide(src.q,factor.t,dest.q);
     }
     void Divide(const JntArrayAcc& src,const doubleAcc& factor,JntArrayAcc& dest)
     {
-        Multiply(src.q,(2*factor.d*factor.d)/(factor.t*factor.t*factor.t)-factor.dd/(factor.t*factor.t),dest.q);
-        Multiply(src.qdot,(2*factor.d)/(factor.t*factor.t),dest.qdot);
-        Divide(src.qdotdot,factor.t,dest.qdotdot);
-        Subtract(dest.qdotdot,dest.qdot,dest.qdotdot);
-        Add(dest.qdotdot,dest.q,dest.qdotdot);
-        Multiply(src.q,factor.d/(factor.t*factor.t),dest.q);
-        Divide(src.qdot,factor.t,dest.qdot);
-        Subtract(dest.qdot,dest.q,dest.qdot);
+        // highest derivative first, dest can be the same array as src
+        dest.qdotdot.data=src.qdotdot.data/factor.t-src.qdot.data*((2*factor.d)/(factor.t*factor.t))
+            +src.q.data*((2*factor.d*factor.d)/(factor.t*factor.t*factor.t)-factor.dd/(factor.t*factor.t));
+        dest.qdot.data=src.qdot.data/factor.t-src.q.data*(factor.d/(factor.t*factor.t));
         Divide(src.q,factor.t,dest.q);
     }
 
diff --git a/orocos_kdl/src/jntarrayvel.cpp b/orocos_kdl/src/jntarrayvel.cpp
index 2a14250..fc1f7c9 100644
--- a/orocos_kdl/src/jntarrayvel.cpp
+++ b/orocos_kdl/src/jntarrayvel.cpp
@@ -83,9 +83,8 @@ namespace KDL
     }
     void Multiply(const JntArrayVel& src,const doubleVel& factor,JntArrayVel& dest)
     {
-        Multiply(src.q,factor.grad,dest.q);
-        Multiply(src.qdot,factor.t,dest.qdot);
-        Add(dest.qdot,dest.q,dest.qdot);
+        // highest derivative first, dest can be the same array as src
+        dest.qdot.data=src.qdot.data*factor.t+src.q.data*factor.grad;
         Multiply(src.q,factor.t,dest.q);
     }
 
@@ -96,9 +95,8 @@ namespace KDL
     }
     void Divide(const JntArrayVel& src,const doubleVel& factor,JntArrayVel& dest)
     {
-        Multiply(src.q,(factor.grad/factor.t/factor.t),dest.q);
-        Divide(src.qdot,factor.t,dest.qdot);
-        Subtract(dest.qdot,dest.q,dest.qdot);
+        // highest derivative first, dest can be the same array as src
+        dest.qdot.data=src.qdot.data/factor.t-src.q.data*(factor.grad/factor.t/factor.t);
         Divide(src.q,factor.t,dest.q);
     }
 
-- 
2.43.0


From 1456cbd807a583f6066c3a6aa026ed7f34492161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:23 +0000
Subject: [PATCH 52/85] fix: ChainHdSolver_Vereshchagin did not notice joints
 added without segments and wrote out of bounds

---
 orocos_kdl/src/chainhdsolver_vereshchagin.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
index 971904d..741187f 100644
--- a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
+++ b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
@@ -56,8 +56,7 @@ void ChainHdSolver_Vereshchagin::updateInternalDataStructures() {
 int ChainHdSolver_Vereshchagin::CartToJnt(const JntArray &q, const JntArray &q_dot, JntArray &q_dotdot, const Jacobian& alfa, const JntArray& beta, const Wrenches& f_ext, const JntArray &ff_torques, JntArray &constraint_torques)
 {
     //Check sizes always
-    nj = chain.getNrOfJoints();
-    if(ns != chain.getNrOfSegments())
+    if(nj != chain.getNrOfJoints() || ns != chain.getNrOfSegments())
         return (error = E_NOT_UP_TO_DATE);
     //Segments with a fixed joint are not supported
     if(nj != ns)
-- 
2.43.0


From 50e8bd3239e2ccc02dc039e5fc69d7c462d543a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:31 +0000
Subject: [PATCH 53/85] fix: ChainExternalWrenchEstimator::setInitialMomentum
 accepted a chain it had not been updated to

---
 orocos_kdl/src/chainexternalwrenchestimator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orocos_kdl/src/chainexternalwrenchestimator.cpp b/orocos_kdl/src/chainexternalwrenchestimator.cpp
index cc4de0b..1fb767e 100644
--- a/orocos_kdl/src/chainexternalwrenchestimator.cpp
+++ b/orocos_kdl/src/chainexternalwrenchestimator.cpp
@@ -74,6 +74,8 @@ void ChainExternalWrenchEstimator::updateInternalDataStructures()
 int ChainExternalWrenchEstimator::setInitialMomentum(const JntArray &joint_position, const JntArray &joint_velocity)
 {
     // Check sizes first
+    if (nj != CHAIN.getNrOfJoints() || ns != CHAIN.getNrOfSegments())
+        return (error = E_NOT_UP_TO_DATE);
     if (joint_position.rows() != nj || joint_velocity.rows() != nj)
         return (error = E_SIZE_MISMATCH);
 
-- 
2.43.0


From 795adf6d3092f3c695e83d6bb528c7cdf90b3d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:31 +0000
Subject: [PATCH 54/85] fix: VelocityProfile_Rectangular::SetProfileDuration
 did not limit the velocity of backward motions and planned negative durations

---
 orocos_kdl/src/velocityprofile_rect.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/velocityprofile_rect.cpp b/orocos_kdl/src/velocityprofile_rect.cpp
index 7992c1e..7428bc4 100644
--- a/orocos_kdl/src/velocityprofile_rect.cpp
+++ b/orocos_kdl/src/velocityprofile_rect.cpp
@@ -81,8 +81,8 @@ void VelocityProfile_Rectangular::
     if ( diff != 0 )
         {
             v    = diff/duration;
-            if (v > maxvel || duration==0 ) // safety.
-                v=maxvel;
+            if (fabs(v) > maxvel || duration==0 ) // safety.
+                v = (diff>0)?maxvel:-maxvel;
             p    = pos1;               // start pos
             d    = diff/v;
         }
-- 
2.43.0


From 1ca108dcda62ff4b0b255f0dabf248e98db9a8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:31 +0000
Subject: [PATCH 55/85] fix: VelocityProfile_Trap computed NaN for motions
 without displacement

---
 orocos_kdl/src/velocityprofile_trap.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/velocityprofile_trap.cpp b/orocos_kdl/src/velocityprofile_trap.cpp
index 1bee674..a3e1f7c 100644
--- a/orocos_kdl/src/velocityprofile_trap.cpp
+++ b/orocos_kdl/src/velocityprofile_trap.cpp
@@ -61,6 +61,13 @@ VelocityProfile_Trap::VelocityProfile_Trap(double _maxvel,double _maxacc):
 void VelocityProfile_Trap::SetProfile(double pos1,double pos2) {
 	startpos = pos1;
 	endpos   = pos2;
+	if (endpos == startpos) {
+		// nothing to plan :
+		duration = t1 = t2 = 0;
+		a1 = b1 = c1 = startpos;
+		a2 = a3 = b2 = b3 = c2 = c3 = 0;
+		return;
+	}
 	t1 = maxvel/maxacc;
 	double s       = sign(endpos-startpos);
 	double deltax1 = s*maxacc*sqr(t1)/2.0;
@@ -94,9 +101,13 @@ void VelocityProfile_Trap::SetProfileDuration(
 	// Fastest :
 	SetProfile(pos1,pos2);
 	// Must be Slower  :
-	double factor = duration/newduration;
-	if (factor > 1)
+	if (newduration <= duration)
 		return; // do not exceed max
+	if (duration == 0) {
+		duration = newduration; // stand still
+		return;
+	}
+	double factor = duration/newduration;
 	a2*=factor;
 	a3*=factor*factor;
 	b2*=factor;
-- 
2.43.0


From 3e2d48e08b7eec6e4644fd8111e8ae62d36d9074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:31 +0000
Subject: [PATCH 56/85] fix: VelocityProfile_TrapHalf computed NaN for motions
 without displacement

---
 orocos_kdl/src/velocityprofile_traphalf.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/orocos_kdl/src/velocityprofile_traphalf.cpp b/orocos_kdl/src/velocityprofile_traphalf.cpp
index 05ff180..3b85e3e 100644
--- a/orocos_kdl/src/velocityprofile_traphalf.cpp
+++ b/orocos_kdl/src/velocityprofile_traphalf.cpp
@@ -85,7 +85,7 @@ void VelocityProfile_TrapHalf::SetProfile(double pos1,double pos2) {
 	double s        = sign(endpos-startpos);
 	// check that the maxvel is obtainable
 	double vel = std::min(maxvel, sqrt(2.0*s*(endpos-startpos)*maxacc));
-	duration		= s*(endpos-startpos)/vel+vel/maxacc/2.0;
+	duration		= (vel > 0) ? s*(endpos-startpos)/vel+vel/maxacc/2.0 : 0.0;
 	if (starting) {
 		t1 = 0;
 		t2 = vel/maxacc;
@@ -101,10 +101,12 @@ void VelocityProfile_TrapHalf::SetProfileDuration(
 	double pos1,double pos2,double newduration)
 {
 	SetProfile(pos1,pos2);
-	double factor = duration/newduration;
-
-	if ( factor > 1 )
+	if ( newduration <= duration )
+		return;
+	if ( duration == 0 ) {
+		duration = newduration; // stand still
 		return;
+	}
 
 	double s        = sign(endpos-startpos);
 	double tmp      = 2.0*s*(endpos-startpos)/maxvel;
-- 
2.43.0


From 4497227e9d55e9daf95a802dca9f539b0aa4da7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:31 +0000
Subject: [PATCH 57/85] fix: VelocityProfile_TrapHalf::SetProfileDuration
 exceeded the maximum acceleration when the maximum velocity is not obtainable

---
 orocos_kdl/src/velocityprofile_traphalf.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/velocityprofile_traphalf.cpp b/orocos_kdl/src/velocityprofile_traphalf.cpp
index 3b85e3e..cf7370a 100644
--- a/orocos_kdl/src/velocityprofile_traphalf.cpp
+++ b/orocos_kdl/src/velocityprofile_traphalf.cpp
@@ -109,8 +109,10 @@ void VelocityProfile_TrapHalf::SetProfileDuration(
 	}
 
 	double s        = sign(endpos-startpos);
-	double tmp      = 2.0*s*(endpos-startpos)/maxvel;
-	double v        = s*maxvel;
+	// maxvel is not always obtainable
+	double vel      = std::min(maxvel, sqrt(2.0*s*(endpos-startpos)*maxacc));
+	double tmp      = 2.0*s*(endpos-startpos)/vel;
+	double v        = s*vel;
 	duration        = newduration;
 	if (starting) {
 		if (tmp > duration) {
-- 
2.43.0


From ff95b2ed557931b3a2d78fc511ebc9d7e1b18c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:18 +0000
Subject: [PATCH 58/85] fix: clones of velocity profiles were planned again
 with changed limits instead of copied

---
 orocos_kdl/src/velocityprofile_rect.hpp     | 4 +---
 orocos_kdl/src/velocityprofile_trap.cpp     | 4 +---
 orocos_kdl/src/velocityprofile_traphalf.cpp | 4 +---
 3 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/orocos_kdl/src/velocityprofile_rect.hpp b/orocos_kdl/src/velocityprofile_rect.hpp
index 4482779..4f049b9 100644
--- a/orocos_kdl/src/velocityprofile_rect.hpp
+++ b/orocos_kdl/src/velocityprofile_rect.hpp
@@ -76,9 +76,7 @@ namespace KDL {
 		virtual double Acc(double time) const;
 		virtual void Write(std::ostream& os) const;
 		virtual VelocityProfile* Clone() const{
-			VelocityProfile_Rectangular* res =  new VelocityProfile_Rectangular(maxvel);
-			res->SetProfileDuration( p, p+v*d, d );
-			return res;
+			return new VelocityProfile_Rectangular(*this);
 		}
 		// returns copy of current VelocityProfile object. (virtual constructor)
 		virtual ~VelocityProfile_Rectangular() {}
diff --git a/orocos_kdl/src/velocityprofile_trap.cpp b/orocos_kdl/src/velocityprofile_trap.cpp
index a3e1f7c..958ce46 100644
--- a/orocos_kdl/src/velocityprofile_trap.cpp
+++ b/orocos_kdl/src/velocityprofile_trap.cpp
@@ -189,9 +189,7 @@ double VelocityProfile_Trap::Acc(double time) const {
 }
 
 VelocityProfile* VelocityProfile_Trap::Clone() const {
-	VelocityProfile_Trap* res =  new VelocityProfile_Trap(maxvel,maxacc);
-	res->SetProfileDuration( this->startpos, this->endpos, this->duration );
-	return res;
+	return new VelocityProfile_Trap(*this);
 }
 
 VelocityProfile_Trap::~VelocityProfile_Trap() {}
diff --git a/orocos_kdl/src/velocityprofile_traphalf.cpp b/orocos_kdl/src/velocityprofile_traphalf.cpp
index cf7370a..32c0346 100644
--- a/orocos_kdl/src/velocityprofile_traphalf.cpp
+++ b/orocos_kdl/src/velocityprofile_traphalf.cpp
@@ -187,9 +187,7 @@ double VelocityProfile_TrapHalf::Acc(double time) const {
 }
 
 VelocityProfile* VelocityProfile_TrapHalf::Clone() const {
-	VelocityProfile_TrapHalf* res =  new VelocityProfile_TrapHalf(maxvel,maxacc, starting);
-	res->SetProfileDuration( this->startpos, this->endpos, this->duration );
-	return res;
+	return new VelocityProfile_TrapHalf(*this);
 }
 
 VelocityProfile_TrapHalf::~VelocityProfile_TrapHalf() {}
-- 
2.43.0


From d4dbd130387bfc5a659274b9544e9f0b9a758ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:18 +0000
Subject: [PATCH 59/85] fix: velocity profiles that have not been set were left
 uninitialised

---
 orocos_kdl/src/velocityprofile_dirac.hpp    | 2 ++
 orocos_kdl/src/velocityprofile_rect.hpp     | 2 +-
 orocos_kdl/src/velocityprofile_traphalf.cpp | 5 +++++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/velocityprofile_dirac.hpp b/orocos_kdl/src/velocityprofile_dirac.hpp
index 07aa62b..f586c44 100644
--- a/orocos_kdl/src/velocityprofile_dirac.hpp
+++ b/orocos_kdl/src/velocityprofile_dirac.hpp
@@ -49,6 +49,8 @@ namespace KDL {
     {
         double p1,p2,t;
     public:
+        VelocityProfile_Dirac() : p1(0), p2(0), t(0) {}
+
         void SetProfile(double pos1,double pos2);
         virtual void SetProfileDuration(double pos1,double pos2,double duration);
         virtual double Duration() const;
diff --git a/orocos_kdl/src/velocityprofile_rect.hpp b/orocos_kdl/src/velocityprofile_rect.hpp
index 4f049b9..e70206c 100644
--- a/orocos_kdl/src/velocityprofile_rect.hpp
+++ b/orocos_kdl/src/velocityprofile_rect.hpp
@@ -62,7 +62,7 @@ namespace KDL {
 		double maxvel;
 
 		VelocityProfile_Rectangular(double _maxvel=0):
-		  maxvel(_maxvel) {}
+		  d(0),p(0),v(0),maxvel(_maxvel) {}
 		// constructs motion profile class with <maxvel> as parameter of the
 		// trajectory.
 
diff --git a/orocos_kdl/src/velocityprofile_traphalf.cpp b/orocos_kdl/src/velocityprofile_traphalf.cpp
index 32c0346..e106337 100644
--- a/orocos_kdl/src/velocityprofile_traphalf.cpp
+++ b/orocos_kdl/src/velocityprofile_traphalf.cpp
@@ -48,6 +48,11 @@ namespace KDL {
 
 
 VelocityProfile_TrapHalf::VelocityProfile_TrapHalf(double _maxvel,double _maxacc,bool _starting):
+		  a1(0), a2(0), a3(0),
+		  b1(0), b2(0), b3(0),
+		  c1(0), c2(0), c3(0),
+		  duration(0), t1(0), t2(0),
+		  startpos(0), endpos(0),
 		  maxvel(_maxvel),maxacc(_maxacc),starting(_starting) {}
 
 void VelocityProfile_TrapHalf::SetMax(double _maxvel,double _maxacc, bool _starting)
-- 
2.43.0


From ed411b94b0dfee56459ed39fe11c3765a1e6ddb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:48 +0000
Subject: [PATCH 60/85] fix: answers of Path_Composite depended on the question
 before and aborted on rounding errors of long paths

---
 orocos_kdl/src/path_composite.cpp | 55 +++++++++++++------------------
 orocos_kdl/src/path_composite.hpp | 10 ++----
 2 files changed, 24 insertions(+), 41 deletions(-)

diff --git a/orocos_kdl/src/path_composite.cpp b/orocos_kdl/src/path_composite.cpp
index c93f5a2..a8ce31e 100644
--- a/orocos_kdl/src/path_composite.cpp
+++ b/orocos_kdl/src/path_composite.cpp
@@ -41,42 +41,29 @@
 
 
 #include "path_composite.hpp"
+#include <algorithm>
 #include "utilities/error.h"
 #include "utilities/scoped_ptr.hpp"
 #include <memory>
 
 namespace KDL {
 
-// s should be in allowable limits, this is not checked
-// simple linear search : TODO : make it binary search
-// uses cached_... variables
-// returns the relative path length within the segment
-// you probably want to use the cached_index variable
-double Path_Composite::Lookup(double s) const
+// s should be in allowable limits (up to rounding errors), this is not checked
+// returns the relative path length within the segment and the index of the segment
+double Path_Composite::Lookup(double s, int& index) const
 {
-	assert(s>=-1e-12);
-	assert(s<=pathlength+1e-12);
-	if ( (cached_starts <=s) && ( s <= cached_ends) ) {
-		return s - cached_starts;
-	}
-	double previous_s=0;
-	for (unsigned int i=0;i<dv.size();++i) {
-		if ((s <= dv[i])||(i == (dv.size()-1) )) {
-			cached_index = i;
-			cached_starts = previous_s;
-			cached_ends   = dv[i];
-			return s - previous_s;
-		}
-		previous_s = dv[i];
-	}
-	return 0;
+	assert(s>=-1e-6*(1+pathlength));
+	assert(s<=pathlength+1e-6*(1+pathlength));
+	// the first segment that ends at or after s
+	DoubleVector::const_iterator it = std::lower_bound(dv.begin(), dv.end(), s);
+	index = static_cast<int>(it - dv.begin());
+	if (index > 0 && it == dv.end())
+		--index;
+	return index > 0 ? s - dv[index-1] : s;
 }
 
 Path_Composite::Path_Composite() {
 	pathlength    = 0;
-	cached_starts = 0;
-	cached_ends   = 0;
-	cached_index  = 0;
 }
 
 void Path_Composite::Add(Path* geom, bool aggregate ) {
@@ -96,18 +83,21 @@ double Path_Composite::PathLength() {
 
 
 Frame Path_Composite::Pos(double s) const {
-	s = Lookup(s);
-	return gv[cached_index].first->Pos(s);
+	int index;
+	s = Lookup(s, index);
+	return gv[index].first->Pos(s);
 }
 
 Twist Path_Composite::Vel(double s,double sd) const {
-	s = Lookup(s);
-	return gv[cached_index].first->Vel(s,sd);
+	int index;
+	s = Lookup(s, index);
+	return gv[index].first->Vel(s,sd);
 }
 
 Twist Path_Composite::Acc(double s,double sd,double sdd) const {
-	s = Lookup(s);
-	return gv[cached_index].first->Acc(s,sd,sdd);
+	int index;
+	s = Lookup(s, index);
+	return gv[index].first->Acc(s,sd,sdd);
 }
 
 Path* Path_Composite::Clone()  {
@@ -146,8 +136,7 @@ double Path_Composite::GetLengthToEndOfSegment(int i) {
 void Path_Composite::GetCurrentSegmentLocation(double s, int& segment_number,
 		double& inner_s)
 {
-	inner_s = Lookup(s);
-	segment_number= cached_index;
+	inner_s = Lookup(s, segment_number);
 }
 
 Path_Composite::~Path_Composite() {
diff --git a/orocos_kdl/src/path_composite.hpp b/orocos_kdl/src/path_composite.hpp
index 25466eb..f0b7905 100644
--- a/orocos_kdl/src/path_composite.hpp
+++ b/orocos_kdl/src/path_composite.hpp
@@ -55,10 +55,7 @@ namespace KDL {
 	  * A Path being the composition of other Path objects.
 	  *
 	  * For several of its methods, this class needs to lookup the segment corresponding to a value
-	  * of the path variable s.  To increase efficiency, this value is cached.
-	  *
-	  * \TODO Currently a linear search is used to look up the segment. A binary search is more efficient.  Can STL be used for this ?
-	  * \TODO Increase the efficiency for caching for the common case of a fine grained monotonously increasing path variable s.
+	  * of the path variable s.
 	  *
 	  * \TODO For all Path.., VelocityProfile.., Trajectory... check the bounds on the inputs with asserts.
 	  *
@@ -76,10 +73,7 @@ namespace KDL {
 		double pathlength;
 
 		// lookup mechanism :
-		mutable double cached_starts;
-		mutable double cached_ends;
-		mutable int    cached_index;
-		double Lookup(double s) const;
+		double Lookup(double s, int& index) const;
 	public:
 
 
-- 
2.43.0


From 7588660eb9cdcdaaf915a1be0768a4f58f21b1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:48 +0000
Subject: [PATCH 61/85] fix: clones of composite and cyclic paths leaked the
 cloned segments of paths they do not own

---
 orocos_kdl/src/path_composite.cpp     | 2 +-
 orocos_kdl/src/path_cyclic_closed.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/path_composite.cpp b/orocos_kdl/src/path_composite.cpp
index a8ce31e..7b7aa0c 100644
--- a/orocos_kdl/src/path_composite.cpp
+++ b/orocos_kdl/src/path_composite.cpp
@@ -103,7 +103,7 @@ Twist Path_Composite::Acc(double s,double sd,double sdd) const {
 Path* Path_Composite::Clone()  {
 	scoped_ptr<Path_Composite> comp( new Path_Composite() );
 	for (unsigned int i = 0; i < dv.size(); ++i) {
-		comp->Add(gv[i].first->Clone(), gv[i].second);
+		comp->Add(gv[i].first->Clone()); // the clone owns the cloned segments
 	}
 	return comp.release();
 }
diff --git a/orocos_kdl/src/path_cyclic_closed.cpp b/orocos_kdl/src/path_cyclic_closed.cpp
index fa5c65f..6aa940a 100644
--- a/orocos_kdl/src/path_cyclic_closed.cpp
+++ b/orocos_kdl/src/path_cyclic_closed.cpp
@@ -76,7 +76,7 @@ Path_Cyclic_Closed::~Path_Cyclic_Closed() {
 }
 
 Path* Path_Cyclic_Closed::Clone() {
-	return new Path_Cyclic_Closed(geom->Clone(),times, aggregate);
+	return new Path_Cyclic_Closed(geom->Clone(),times); // the clone owns the cloned path
 }
 
 void Path_Cyclic_Closed::Write(std::ostream& os)  {
-- 
2.43.0


From 22f6d9306231459a79d33e8ef8ea214fb7813587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:21 +0000
Subject: [PATCH 62/85] fix: Path_RoundedComposite::Finish added a line to the
 origin for a path of one point

---
 orocos_kdl/src/path_roundedcomposite.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/path_roundedcomposite.cpp b/orocos_kdl/src/path_roundedcomposite.cpp
index 2916505..c6f2e75 100644
--- a/orocos_kdl/src/path_roundedcomposite.cpp
+++ b/orocos_kdl/src/path_roundedcomposite.cpp
@@ -43,6 +43,7 @@
 #include "path_roundedcomposite.hpp"
 #include "path_line.hpp"
 #include "path_circle.hpp"
+#include "path_point.hpp"
 #include "utilities/error.h"
 #include "utilities/scoped_ptr.hpp"
 #include <memory>
@@ -137,7 +138,9 @@ void Path_RoundedComposite::Add(const Frame& F_base_point) {
 }
 
 void Path_RoundedComposite::Finish() {
-	if (nrofpoints >= 1) {
+	if (nrofpoints == 1) {
+		comp->Add(new Path_Point(F_base_start));
+	} else if (nrofpoints >= 2) {
 		comp->Add(
 				new Path_Line(F_base_start, F_base_via, orient->Clone(),
 						eqradius));
-- 
2.43.0


From a38eada74939a860cb4a0c510bb75a9700f4339a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:21 +0000
Subject: [PATCH 63/85] fix: Path_RoundedComposite::Clone lost the points
 needed to add to the clone

---
 orocos_kdl/src/path_roundedcomposite.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/path_roundedcomposite.cpp b/orocos_kdl/src/path_roundedcomposite.cpp
index c6f2e75..5a50bc7 100644
--- a/orocos_kdl/src/path_roundedcomposite.cpp
+++ b/orocos_kdl/src/path_roundedcomposite.cpp
@@ -199,7 +199,10 @@ Path_RoundedComposite::~Path_RoundedComposite() {
 
 
 Path* Path_RoundedComposite::Clone() {
-	return new Path_RoundedComposite(static_cast<Path_Composite*>(comp->Clone()),radius,eqradius,orient->Clone(), true, nrofpoints);
+	Path_RoundedComposite* res = new Path_RoundedComposite(static_cast<Path_Composite*>(comp->Clone()),radius,eqradius,orient->Clone(), true, nrofpoints);
+	res->F_base_start = F_base_start;
+	res->F_base_via   = F_base_via;
+	return res;
 }
 
 }
-- 
2.43.0


From c44290d6d2f4657de872875c33dee1fef1e24301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:21 +0000
Subject: [PATCH 64/85] fix: the constructor of Path_RoundedComposite leaked
 when it refused the equivalent radius

---
 orocos_kdl/src/path_roundedcomposite.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/path_roundedcomposite.cpp b/orocos_kdl/src/path_roundedcomposite.cpp
index 5a50bc7..bb91a30 100644
--- a/orocos_kdl/src/path_roundedcomposite.cpp
+++ b/orocos_kdl/src/path_roundedcomposite.cpp
@@ -60,12 +60,15 @@ Path_RoundedComposite::Path_RoundedComposite(Path_Composite* _comp,
 }
 
 Path_RoundedComposite::Path_RoundedComposite(double _radius,double _eqradius,RotationalInterpolation* _orient, bool _aggregate) :
-	comp( new Path_Composite()), radius(_radius),eqradius(_eqradius), orient(_orient), aggregate(_aggregate)
+	comp( NULL ), radius(_radius),eqradius(_eqradius), orient(_orient), aggregate(_aggregate)
 {
 		nrofpoints = 0;
 		if (eqradius<=0) {
+			if (aggregate)
+				delete orient;
 			throw Error_MotionPlanning_Not_Feasible(1);
 		}
+		comp = new Path_Composite();
 }
 
 void Path_RoundedComposite::Add(const Frame& F_base_point) {
-- 
2.43.0


From 99c8921aa5b3e95f7ab00a20c7edc6e5d951785b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:21 +0000
Subject: [PATCH 65/85] fix: Path_RoundedComposite::Add kept half of a rounding
 that it refused

---
 orocos_kdl/src/path_roundedcomposite.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/orocos_kdl/src/path_roundedcomposite.cpp b/orocos_kdl/src/path_roundedcomposite.cpp
index bb91a30..0c33136 100644
--- a/orocos_kdl/src/path_roundedcomposite.cpp
+++ b/orocos_kdl/src/path_roundedcomposite.cpp
@@ -123,14 +123,17 @@ void Path_RoundedComposite::Add(const Frame& F_base_point) {
 			// end of circle segment, beginning of next line
 			Vector V_base_t = ab * (ab * bc);
 			V_base_t.Normalize();
+			// can throw, in which case nothing may be added
+			scoped_ptr < Path
+					> circle(
+							new Path_Circle(F_base_circlestart,
+									F_base_circlestart.p - V_base_t * radius,
+									F_base_circleend.p, F_base_circleend.M, alpha,
+									orient->Clone(), eqradius));
 			comp->Add(
 					new Path_Line(F_base_start, F_base_circlestart,
 							orient->Clone(), eqradius));
-			comp->Add(
-					new Path_Circle(F_base_circlestart,
-							F_base_circlestart.p - V_base_t * radius,
-							F_base_circleend.p, F_base_circleend.M, alpha,
-							orient->Clone(), eqradius));
+			comp->Add(circle.release());
 			// shift for next line
 			F_base_start = F_base_circleend; // end of the circle segment
 			F_base_via = F_base_point;
-- 
2.43.0


From 892afe30c2d77b1375e55bae7510eb9a35827a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:21 +0000
Subject: [PATCH 66/85] fix: the twist of Path_Line was translated in the base
 frame but rotated in the start frame

---
 orocos_kdl/src/path_line.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/orocos_kdl/src/path_line.cpp b/orocos_kdl/src/path_line.cpp
index 789f542..4eadc58 100644
--- a/orocos_kdl/src/path_line.cpp
+++ b/orocos_kdl/src/path_line.cpp
@@ -97,11 +97,10 @@ Path_Line::Path_Line(const Frame& startpos,
        // startframe and starttwist are expressed in Wo.
        // after 1 time unit, startframe has translated over starttwist.vel
        // and rotated over starttwist.rot.Norm() (both vectors can be zero)
-       // Thus the frame on the path after 1 time unit is defined by
-       // startframe.Integrate(starttwist, 1);
+       // around the axis starttwist.rot of Wo.
 	   	V_start_end = V_base_end - V_base_start;
 	   	double dist = V_start_end.Normalize(); // distance traveled during 1 time unit
-		orient->SetStartEnd(startpos.M, (startpos*Frame( Rotation::Rot(starttwist.rot, starttwist.rot.Norm() ), starttwist.vel )).M);
+		orient->SetStartEnd(startpos.M, Rotation::Rot(starttwist.rot, starttwist.rot.Norm() )*startpos.M);
 		double alpha = orient->Angle();        // rotation during 1 time unit
 
 		// See what has the slowest eq. motion, and adapt
-- 
2.43.0


From 937b5970110f486ad573c1c6a0e5635d6de09980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:21 +0000
Subject: [PATCH 67/85] fix: Path_Circle divided by zero for circles without
 displacement and rotation

---
 orocos_kdl/src/path_circle.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/path_circle.cpp b/orocos_kdl/src/path_circle.cpp
index 557662c..17edf0f 100644
--- a/orocos_kdl/src/path_circle.cpp
+++ b/orocos_kdl/src/path_circle.cpp
@@ -83,16 +83,22 @@ Path_Circle::Path_Circle(const Frame& F_base_start,
     // the other to this slower motion
     // use eqradius to transform between rot and transl.
     // the same as for lineair motion
-    if (oalpha*eqradius > dist) {
+    // Only modify if non zero (prevent division by zero)
+    if (oalpha != 0 && oalpha*eqradius > dist) {
         // rotational_interpolation is the limitation
         pathlength = oalpha*eqradius;
         scalerot = 1/eqradius;
         scalelin = dist/pathlength;
-    } else {
+    } else if (dist != 0) {
         // translation is the limitation
         pathlength = dist;
         scalerot = oalpha/pathlength;
         scalelin = 1;
+    } else {
+        // both were zero
+        pathlength = 0;
+        scalerot   = 1;
+        scalelin   = 1;
     }
 }
 
-- 
2.43.0


From 0cdc9f75b665052054da3bdca70e62aee6af626e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:13 +0000
Subject: [PATCH 68/85] fix: Path_RoundedComposite placed the centre of
 roundings between short or nearly parallel segments wrongly

---
 orocos_kdl/src/path_roundedcomposite.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/path_roundedcomposite.cpp b/orocos_kdl/src/path_roundedcomposite.cpp
index 0c33136..2af6b29 100644
--- a/orocos_kdl/src/path_roundedcomposite.cpp
+++ b/orocos_kdl/src/path_roundedcomposite.cpp
@@ -121,7 +121,7 @@ void Path_RoundedComposite::Add(const Frame& F_base_point) {
 			Frame F_base_circlestart = line1->Pos(line1->LengthToS(abdist - d));
 			Frame F_base_circleend = line2->Pos(line2->LengthToS(d));
 			// end of circle segment, beginning of next line
-			Vector V_base_t = ab * (ab * bc);
+			Vector V_base_t = ab / abdist * (ab / abdist * (bc / bcdist));
 			V_base_t.Normalize();
 			// can throw, in which case nothing may be added
 			scoped_ptr < Path
-- 
2.43.0


From 866c3453b4a12731d111088b15c5a6b56ccb1261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:13 +0000
Subject: [PATCH 69/85] fix: Path_RoundedComposite refused nearly parallel
 segments

---
 orocos_kdl/src/path_roundedcomposite.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/path_roundedcomposite.cpp b/orocos_kdl/src/path_roundedcomposite.cpp
index 2af6b29..010078e 100644
--- a/orocos_kdl/src/path_roundedcomposite.cpp
+++ b/orocos_kdl/src/path_roundedcomposite.cpp
@@ -95,8 +95,9 @@ void Path_RoundedComposite::Add(const Frame& F_base_point) {
 		if ((PI - alpha) < eps) {
 			throw Error_MotionPlanning_Not_Feasible(4);
 		}
-		if (alpha < eps) {
+		if (alpha < 2*epsilon) {
 			// no rounding is done in the case of parallel line segments
+			// (a smaller angle does not determine the plane of a Path_Circle)
 			comp->Add(
 					new Path_Line(F_base_start, F_base_via, orient->Clone(),
 							eqradius));
-- 
2.43.0


From 90c130b5ec8463612fe899a0011b7de2d269d6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:41 +0000
Subject: [PATCH 70/85] fix: a composite trajectory reported a velocity and
 acceleration before its start and after its end, where its position stands
 still

---
 orocos_kdl/src/trajectory_composite.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/trajectory_composite.cpp b/orocos_kdl/src/trajectory_composite.cpp
index 1583608..95f27f5 100644
--- a/orocos_kdl/src/trajectory_composite.cpp
+++ b/orocos_kdl/src/trajectory_composite.cpp
@@ -53,7 +53,7 @@ namespace KDL {
         Trajectory* traj;
         double previoustime;
         if (time < 0) {
-            return vt[0]->Vel(0);
+            return Twist::Zero(); // still at the start
         }
         previoustime = 0;
         for (i=0;i<vt.size();i++) {
@@ -62,6 +62,9 @@ namespace KDL {
             }
             previoustime = vd[i];
         }
+        if (time > duration) {
+            return Twist::Zero(); // still at the end
+        }
         traj = vt[vt.size()-1];
         return traj->Vel(traj->Duration());
     }
@@ -72,7 +75,7 @@ namespace KDL {
         Trajectory* traj;
         double previoustime;
         if (time < 0) {
-            return vt[0]->Acc(0);
+            return Twist::Zero(); // still at the start
         }
         previoustime = 0;
         for (i=0;i<vt.size();i++) {
@@ -81,6 +84,9 @@ namespace KDL {
 		}
 		previoustime = vd[i];
         }
+        if (time > duration) {
+            return Twist::Zero(); // still at the end
+        }
         traj = vt[vt.size()-1];
         return traj->Acc(traj->Duration());
     }
-- 
2.43.0


From 45070ac5925a7e8d686c89693a254c2adcd0423d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:41 +0000
Subject: [PATCH 71/85] fix: Trajectory_Composite::Destroy kept the old
 duration, so segments added afterwards started late

---
 orocos_kdl/src/trajectory_composite.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/orocos_kdl/src/trajectory_composite.cpp b/orocos_kdl/src/trajectory_composite.cpp
index 95f27f5..cb0e4e3 100644
--- a/orocos_kdl/src/trajectory_composite.cpp
+++ b/orocos_kdl/src/trajectory_composite.cpp
@@ -104,6 +104,7 @@ namespace KDL {
         }
         vt.erase(vt.begin(),vt.end());
         vd.erase(vd.begin(),vd.end());
+        duration = 0.0;
     }
 
     Trajectory_Composite::~Trajectory_Composite() {
-- 
2.43.0


From d25a2621d46ee6d0fc20b66cfbd7e129fcb2fa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:41 +0000
Subject: [PATCH 72/85] fix: Trajectory::Read of a SEGMENT left the velocity
 profile unset (zero duration)

---
 orocos_kdl/src/trajectory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orocos_kdl/src/trajectory.cpp b/orocos_kdl/src/trajectory.cpp
index 914af5f..18728e7 100644
--- a/orocos_kdl/src/trajectory.cpp
+++ b/orocos_kdl/src/trajectory.cpp
@@ -65,6 +65,8 @@ Trajectory* Trajectory::Read(std::istream& is) {
 		EatEnd(is,']');
 		IOTracePop();
 		IOTracePop();
+		// the limits of the profile are written, its motion follows from the path
+		motprof->SetProfile(0,geom->PathLength());
 		return new  Trajectory_Segment(geom.release(),motprof.release());
 	} else {
 		throw Error_MotionIO_Unexpected_Traj();
-- 
2.43.0


From d631de8d7149ce7a8edc893a43286b8bd638708e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:41 +0000
Subject: [PATCH 73/85] fix: reading text from two threads raced on one global
 error stack

---
 orocos_kdl/src/utilities/error_stack.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/utilities/error_stack.cxx b/orocos_kdl/src/utilities/error_stack.cxx
index c4837e6..9341f71 100644
--- a/orocos_kdl/src/utilities/error_stack.cxx
+++ b/orocos_kdl/src/utilities/error_stack.cxx
@@ -26,8 +26,8 @@ namespace KDL {
 // interpret error messages from I/O
 typedef std::stack<std::string>  ErrorStack;
 
-// should be in Thread Local Storage if this gets multithreaded one day...
-static ErrorStack errorstack;
+// every thread has its own trace
+static thread_local ErrorStack errorstack;
 
 
 void IOTrace(const std::string& description) {
-- 
2.43.0


From 723717242670496795b49436f34bf2c731fd1466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:02 +0000
Subject: [PATCH 74/85] fix: a pickled Rotation lost precision (and any matrix
 that is not a rotation) by going through roll, pitch, yaw

---
 python_orocos_kdl/PyKDL/frames.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/python_orocos_kdl/PyKDL/frames.cpp b/python_orocos_kdl/PyKDL/frames.cpp
index 9cbee1b..dc6c613 100644
--- a/python_orocos_kdl/PyKDL/frames.cpp
+++ b/python_orocos_kdl/PyKDL/frames.cpp
@@ -377,17 +377,23 @@ void init_frames(py::module &m)
             [](const Rotation &rot)
             { // __getstate__
                 /* Return a tuple that fully encodes the state of the object */
-                double roll{0}, pitch{0}, yaw{0};
-                rot.GetRPY(roll, pitch, yaw);
-                return py::make_tuple(roll, pitch, yaw);
+                return py::make_tuple(rot(0, 0), rot(0, 1), rot(0, 2),
+                                      rot(1, 0), rot(1, 1), rot(1, 2),
+                                      rot(2, 0), rot(2, 1), rot(2, 2));
             },
             [](py::tuple t)
             { // __setstate__
-                if (t.size() != 3)
+                /* State written by earlier versions: roll, pitch, yaw */
+                if (t.size() == 3)
+                    return Rotation::RPY(t[0].cast<double>(), t[1].cast<double>(), t[2].cast<double>());
+
+                if (t.size() != 9)
                     throw std::runtime_error("Invalid state!");
 
                 /* Create a new C++ instance */
-                return Rotation::RPY(t[0].cast<double>(), t[1].cast<double>(), t[2].cast<double>());
+                return Rotation(t[0].cast<double>(), t[1].cast<double>(), t[2].cast<double>(),
+                                t[3].cast<double>(), t[4].cast<double>(), t[5].cast<double>(),
+                                t[6].cast<double>(), t[7].cast<double>(), t[8].cast<double>());
             }));
 
     m.def("Equal", (bool (*)(const Rotation&, const Rotation&, double eps)) &KDL::Equal,
-- 
2.43.0


From 48cf3ea18ec1a8c9b317cbb50d3f6b05d093541c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:02 +0000
Subject: [PATCH 75/85] fix: ChainIkSolverVel_wdls.getSigma filled a copy and
 left the caller's array untouched

---
 python_orocos_kdl/PyKDL/kinfam.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python_orocos_kdl/PyKDL/kinfam.cpp b/python_orocos_kdl/PyKDL/kinfam.cpp
index fec7eda..4f5d3f9 100644
--- a/python_orocos_kdl/PyKDL/kinfam.cpp
+++ b/python_orocos_kdl/PyKDL/kinfam.cpp
@@ -424,7 +424,15 @@ void init_kinfam(pybind11::module &m)
     chain_ik_solver_vel_wdls.def("setMaxIter", &ChainIkSolverVel_wdls::setMaxIter, py::arg("max_iter"));
     chain_ik_solver_vel_wdls.def("getNrZeroSigmas", &ChainIkSolverVel_wdls::getNrZeroSigmas);
     chain_ik_solver_vel_wdls.def("getSigmaMin", &ChainIkSolverVel_wdls::getSigmaMin);
-    chain_ik_solver_vel_wdls.def("getSigma", &ChainIkSolverVel_wdls::getSigma, py::arg("sigma_out"));
+    chain_ik_solver_vel_wdls.def("getSigma", [](ChainIkSolverVel_wdls &solver, Eigen::Ref<Eigen::VectorXd> sigma_out)
+    {
+        // Write into the array of the caller instead of into a converted copy
+        Eigen::VectorXd sigma(sigma_out);
+        const int ret = solver.getSigma(sigma);
+        if (ret == SolverI::E_NOERROR)
+            sigma_out = sigma;
+        return ret;
+    }, py::arg("sigma_out"));
     chain_ik_solver_vel_wdls.def("getEps", &ChainIkSolverVel_wdls::getEps);
     chain_ik_solver_vel_wdls.def("getLambda", &ChainIkSolverVel_wdls::getLambda);
     chain_ik_solver_vel_wdls.def("getLambdaScaled", &ChainIkSolverVel_wdls::getLambdaScaled);
-- 
2.43.0


From ce1da367eecb2c81a8d5edf126bf88cdac4476b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:09 +0000
Subject: [PATCH 76/85] fix: PyKDL solvers did not keep their chain and inner
 solvers alive (use after free)

---
 python_orocos_kdl/PyKDL/dynamics.cpp |  2 +-
 python_orocos_kdl/PyKDL/kinfam.cpp   | 39 ++++++++++++++++++----------
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/python_orocos_kdl/PyKDL/dynamics.cpp b/python_orocos_kdl/PyKDL/dynamics.cpp
index 46d0f50..6e81a3b 100644
--- a/python_orocos_kdl/PyKDL/dynamics.cpp
+++ b/python_orocos_kdl/PyKDL/dynamics.cpp
@@ -86,7 +86,7 @@ void init_dynamics(pybind11::module &m)
     // ChainDynParam
     // --------------------
     py::class_<ChainDynParam> chain_dyn_param(m, "ChainDynParam");
-    chain_dyn_param.def(py::init<const Chain&, Vector>());
+    chain_dyn_param.def(py::init<const Chain&, Vector>(), py::keep_alive<1, 2>());
     chain_dyn_param.def("JntToCoriolis", &ChainDynParam::JntToCoriolis, py::arg("q"), py::arg("q_dot"), py::arg("coriolis"));
     chain_dyn_param.def("JntToMass", &ChainDynParam::JntToMass, py::arg("q"), py::arg("H"));
     chain_dyn_param.def("JntToGravity", &ChainDynParam::JntToGravity, py::arg("q"), py::arg("gravity"));
diff --git a/python_orocos_kdl/PyKDL/kinfam.cpp b/python_orocos_kdl/PyKDL/kinfam.cpp
index 4f5d3f9..b5fdef3 100644
--- a/python_orocos_kdl/PyKDL/kinfam.cpp
+++ b/python_orocos_kdl/PyKDL/kinfam.cpp
@@ -355,14 +355,16 @@ void init_kinfam(pybind11::module &m)
     // ChainFkSolverPos_recursive
     // ------------------------------
     py::class_<ChainFkSolverPos_recursive, ChainFkSolverPos> chain_fk_solver_pos_recursive(m, "ChainFkSolverPos_recursive");
-    chain_fk_solver_pos_recursive.def(py::init<const Chain&>(), py::arg("chain"));
+    chain_fk_solver_pos_recursive.def(py::init<const Chain&>(), py::arg("chain"),
+                                      py::keep_alive<1, 2>());
 
 
     // ------------------------------
     // ChainFkSolverVel_recursive
     // ------------------------------
     py::class_<ChainFkSolverVel_recursive, ChainFkSolverVel> chain_fk_solver_vel_recursive(m, "ChainFkSolverVel_recursive");
-    chain_fk_solver_vel_recursive.def(py::init<const Chain&>(), py::arg("chain"));
+    chain_fk_solver_vel_recursive.def(py::init<const Chain&>(), py::arg("chain"),
+                                      py::keep_alive<1, 2>());
 
 
     // --------------------
@@ -390,7 +392,8 @@ void init_kinfam(pybind11::module &m)
     py::class_<ChainIkSolverPos_NR, ChainIkSolverPos> chain_ik_solver_pos_NR(m, "ChainIkSolverPos_NR");
     chain_ik_solver_pos_NR.def(py::init<const Chain&, ChainFkSolverPos&, ChainIkSolverVel&, unsigned int, double>(),
                                py::arg("chain"), py::arg("fksolver"), py::arg("iksolver"),
-                               py::arg("maxiter")=100, py::arg("eps")=epsilon);
+                               py::arg("maxiter")=100, py::arg("eps")=epsilon,
+                               py::keep_alive<1, 2>(), py::keep_alive<1, 3>(), py::keep_alive<1, 4>());
 
 
     // ---------------------------
@@ -400,7 +403,8 @@ void init_kinfam(pybind11::module &m)
     chain_ik_solver_pos_NR_JL.def(py::init<const Chain&, const JntArray&, const JntArray&, ChainFkSolverPos&,
                                   ChainIkSolverVel&, unsigned int, double>(),
                                   py::arg("chain"), py::arg("q_min"), py::arg("q_max"), py::arg("fksolver"),
-                                  py::arg("iksolver"), py::arg("maxiter")=100, py::arg("eps")=epsilon);
+                                  py::arg("iksolver"), py::arg("maxiter")=100, py::arg("eps")=epsilon,
+                                  py::keep_alive<1, 2>(), py::keep_alive<1, 5>(), py::keep_alive<1, 6>());
 
 
     // -------------------------
@@ -408,7 +412,8 @@ void init_kinfam(pybind11::module &m)
     // -------------------------
     py::class_<ChainIkSolverVel_pinv, ChainIkSolverVel> chain_ik_solver_vel_pinv(m, "ChainIkSolverVel_pinv");
     chain_ik_solver_vel_pinv.def(py::init<const Chain&, double, int>(),
-                                 py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150);
+                                 py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150,
+                                 py::keep_alive<1, 2>());
 
 
     // -------------------------
@@ -416,7 +421,8 @@ void init_kinfam(pybind11::module &m)
     // -------------------------
     py::class_<ChainIkSolverVel_wdls, ChainIkSolverVel> chain_ik_solver_vel_wdls(m, "ChainIkSolverVel_wdls");
     chain_ik_solver_vel_wdls.def(py::init<const Chain&, double, int>(),
-                                 py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150);
+                                 py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150,
+                                 py::keep_alive<1, 2>());
     chain_ik_solver_vel_wdls.def("setWeightTS", &ChainIkSolverVel_wdls::setWeightTS, py::arg("matrix"));
     chain_ik_solver_vel_wdls.def("setWeightJS", &ChainIkSolverVel_wdls::setWeightJS, py::arg("matrix"));
     chain_ik_solver_vel_wdls.def("setLambda", &ChainIkSolverVel_wdls::setLambda, py::arg("lambda"));
@@ -445,10 +451,12 @@ void init_kinfam(pybind11::module &m)
     py::class_<ChainIkSolverPos_LMA, ChainIkSolverPos> chain_ik_solver_pos_LMA(m, "ChainIkSolverPos_LMA");
     chain_ik_solver_pos_LMA.def(py::init<const Chain&, const Eigen::Matrix<double,6,1>&, double, int, double>(),
                                 py::arg("chain"), py::arg("L"), py::arg("eps")=1e-5, py::arg("maxiter")=500,
-                                py::arg("eps_joints")=1e-15);
+                                py::arg("eps_joints")=1e-15,
+                                py::keep_alive<1, 2>());
     chain_ik_solver_pos_LMA.def(py::init<const Chain&, double, int, double>(),
                                 py::arg("chain"), py::arg("eps")=1e-5, py::arg("maxiter")=500,
-                                py::arg("eps_joints")=1e-15);
+                                py::arg("eps_joints")=1e-15,
+                                py::keep_alive<1, 2>());
 
 
     // ----------------------------
@@ -456,7 +464,8 @@ void init_kinfam(pybind11::module &m)
     // ----------------------------
     py::class_<ChainIkSolverVel_pinv_nso, ChainIkSolverVel> chain_ik_solver_vel_pinv_nso(m, "ChainIkSolverVel_pinv_nso");
     chain_ik_solver_vel_pinv_nso.def(py::init<const Chain&, double, int, double>(),
-                                     py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150, py::arg("alpha")=0.25);
+                                     py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150, py::arg("alpha")=0.25,
+                                     py::keep_alive<1, 2>());
     chain_ik_solver_vel_pinv_nso.def("setWeights", &ChainIkSolverVel_pinv_nso::setWeights, py::arg("weights"));
     chain_ik_solver_vel_pinv_nso.def("setOptPos", &ChainIkSolverVel_pinv_nso::setOptPos, py::arg("opt_pos"));
     chain_ik_solver_vel_pinv_nso.def("setAlpha", &ChainIkSolverVel_pinv_nso::setAlpha, py::arg("alpha"));
@@ -469,14 +478,16 @@ void init_kinfam(pybind11::module &m)
     // ChainIkSolverVel_pinv_givens
     // -------------------------------
     py::class_<ChainIkSolverVel_pinv_givens, ChainIkSolverVel> chain_ik_solver_vel_pinv_givens(m, "ChainIkSolverVel_pinv_givens");
-    chain_ik_solver_vel_pinv_givens.def(py::init<const Chain&>(), py::arg("chain"));
+    chain_ik_solver_vel_pinv_givens.def(py::init<const Chain&>(), py::arg("chain"),
+                                        py::keep_alive<1, 2>());
 
 
     // ------------------------------
     // ChainJntToJacSolver
     // ------------------------------
     py::class_<ChainJntToJacSolver, SolverI> chain_jnt_to_jac_solver(m, "ChainJntToJacSolver");
-    chain_jnt_to_jac_solver.def(py::init<const Chain&>(), py::arg("chain"));
+    chain_jnt_to_jac_solver.def(py::init<const Chain&>(), py::arg("chain"),
+                                py::keep_alive<1, 2>());
     chain_jnt_to_jac_solver.def("JntToJac", &ChainJntToJacSolver::JntToJac,
                                 py::arg("q_in"), py::arg("jac"), py::arg("seg_nr")=-1);
     chain_jnt_to_jac_solver.def("setLockedJoints", &ChainJntToJacSolver::setLockedJoints, py::arg("locked_joints"));
@@ -486,7 +497,8 @@ void init_kinfam(pybind11::module &m)
     // ChainJntToJacDotSolver
     // ------------------------------
     py::class_<ChainJntToJacDotSolver, SolverI> chain_jnt_to_jac_dot_solver(m, "ChainJntToJacDotSolver");
-    chain_jnt_to_jac_dot_solver.def(py::init<const Chain&>(), py::arg("chain"));
+    chain_jnt_to_jac_dot_solver.def(py::init<const Chain&>(), py::arg("chain"),
+                                    py::keep_alive<1, 2>());
     chain_jnt_to_jac_dot_solver.def("JntToJacDot", (int (ChainJntToJacDotSolver::*)(const JntArrayVel&, Jacobian&, int)) &ChainJntToJacDotSolver::JntToJacDot,
                                     py::arg("q_in"), py::arg("jdot"), py::arg("seg_nr")=-1);
     chain_jnt_to_jac_dot_solver.def("JntToJacDot", (int (ChainJntToJacDotSolver::*)(const JntArrayVel&, Twist&, int)) &ChainJntToJacDotSolver::JntToJacDot,
@@ -520,5 +532,6 @@ void init_kinfam(pybind11::module &m)
     // ChainIdSolver_RNE
     // ------------------------------
     py::class_<ChainIdSolver_RNE, ChainIdSolver> chain_id_solver_RNE(m, "ChainIdSolver_RNE");
-    chain_id_solver_RNE.def(py::init<const Chain&, Vector>(), py::arg("chain"), py::arg("grav"));
+    chain_id_solver_RNE.def(py::init<const Chain&, Vector>(), py::arg("chain"), py::arg("grav"),
+                            py::keep_alive<1, 2>());
 }
-- 
2.43.0


From 81444558efb5c8ac3146c3e5195d09d59de10249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:09 +0000
Subject: [PATCH 77/85] fix: Chain.getSegment, Jacobian.getColumn and
 Jacobian.setColumn read and wrote out of bounds

---
 python_orocos_kdl/PyKDL/kinfam.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/python_orocos_kdl/PyKDL/kinfam.cpp b/python_orocos_kdl/PyKDL/kinfam.cpp
index b5fdef3..42d9629 100644
--- a/python_orocos_kdl/PyKDL/kinfam.cpp
+++ b/python_orocos_kdl/PyKDL/kinfam.cpp
@@ -173,8 +173,13 @@ void init_kinfam(pybind11::module &m)
     chain.def("addChain", &Chain::addChain, py::arg("chain"));
     chain.def("getNrOfJoints", &Chain::getNrOfJoints);
     chain.def("getNrOfSegments", &Chain::getNrOfSegments);
-    chain.def("getSegment", (Segment& (Chain::*)(unsigned int)) &Chain::getSegment, py::arg("index"));
-    chain.def("getSegment", (const Segment& (Chain::*)(unsigned int) const) &Chain::getSegment, py::arg("index"));
+    chain.def("getSegment", [](const Chain &chain, unsigned int index)
+    {
+        if (index >= chain.getNrOfSegments())
+            throw py::index_error("Chain segment index out of range");
+
+        return Segment(chain.getSegment(index));
+    }, py::arg("index"));
     chain.def("__repr__", [](const Chain &c)
     {
         std::ostringstream oss;
@@ -217,8 +222,20 @@ void init_kinfam(pybind11::module &m)
     jacobian.def("rows", &Jacobian::rows);
     jacobian.def("columns", &Jacobian::columns);
     jacobian.def("resize", &Jacobian::resize, py::arg("nr_columns"));
-    jacobian.def("getColumn", &Jacobian::getColumn, py::arg("index"));
-    jacobian.def("setColumn", &Jacobian::setColumn, py::arg("index"), py::arg("t"));
+    jacobian.def("getColumn", [](const Jacobian &jac, unsigned int index)
+    {
+        if (index >= jac.columns())
+            throw py::index_error("Jacobian column index out of range");
+
+        return jac.getColumn(index);
+    }, py::arg("index"));
+    jacobian.def("setColumn", [](Jacobian &jac, unsigned int index, const Twist &t)
+    {
+        if (index >= jac.columns())
+            throw py::index_error("Jacobian column index out of range");
+
+        jac.setColumn(index, t);
+    }, py::arg("index"), py::arg("t"));
     jacobian.def("changeRefPoint", &Jacobian::changeRefPoint, py::arg("base"));
     jacobian.def("changeBase", &Jacobian::changeBase, py::arg("rot"));
     jacobian.def("changeRefFrame", &Jacobian::changeRefFrame, py::arg("frame"));
-- 
2.43.0


From bdd794e7e98a16b2c1d1f1a2db8ce512850f0ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:52 +0000
Subject: [PATCH 78/85] fix: JntSpaceInertiaMatrix accepted a negative size
 from Python and built an invalid matrix

---
 python_orocos_kdl/PyKDL/dynamics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python_orocos_kdl/PyKDL/dynamics.cpp b/python_orocos_kdl/PyKDL/dynamics.cpp
index 6e81a3b..0d64388 100644
--- a/python_orocos_kdl/PyKDL/dynamics.cpp
+++ b/python_orocos_kdl/PyKDL/dynamics.cpp
@@ -41,7 +41,7 @@ void init_dynamics(pybind11::module &m)
     // --------------------
     py::class_<JntSpaceInertiaMatrix> jnt_space_inertia_matrix(m, "JntSpaceInertiaMatrix");
     jnt_space_inertia_matrix.def(py::init<>());
-    jnt_space_inertia_matrix.def(py::init<int>());
+    jnt_space_inertia_matrix.def(py::init<unsigned int>());
     jnt_space_inertia_matrix.def(py::init<const JntSpaceInertiaMatrix&>());
     jnt_space_inertia_matrix.def("resize", &JntSpaceInertiaMatrix::resize, py::arg("new_size"));
     jnt_space_inertia_matrix.def("rows", &JntSpaceInertiaMatrix::rows);
-- 
2.43.0


From 4945f7f571da26e559f99fd44953ec3a3f5d5a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:05 +0000
Subject: [PATCH 79/85] fix: ChainIkSolverVel_pinv_nso::CartToJnt allocated
 memory on every call

---
 orocos_kdl/src/chainiksolvervel_pinv_nso.cpp | 23 +++++++++++++++-----
 orocos_kdl/src/chainiksolvervel_pinv_nso.hpp |  1 +
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp b/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
index 56c7413..4a5b999 100644
--- a/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
+++ b/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
@@ -29,6 +29,7 @@ namespace KDL
         jnt2jac(chain),
         nj(chain.getNrOfJoints()),
         jac(nj),
+        jac_eigen(Eigen::MatrixXd::Zero(6,nj)),
         U(Eigen::MatrixXd::Zero(6,nj)),
         S(Eigen::VectorXd::Zero(nj)),
         Sinv(Eigen::VectorXd::Zero(nj)),
@@ -49,6 +50,7 @@ namespace KDL
         jnt2jac(chain),
         nj(chain.getNrOfJoints()),
         jac(nj),
+        jac_eigen(Eigen::MatrixXd::Zero(6,nj)),
         U(Eigen::MatrixXd::Zero(6,nj)),
         S(Eigen::VectorXd::Zero(nj)),
         Sinv(Eigen::VectorXd::Zero(nj)),
@@ -66,6 +68,7 @@ namespace KDL
         jnt2jac.updateInternalDataStructures();
         nj = chain.getNrOfJoints();
         jac.resize(nj);
+        jac_eigen.conservativeResizeLike(Eigen::MatrixXd::Zero(6,nj));
         U.conservativeResizeLike(Eigen::MatrixXd::Zero(6,nj));
         S.conservativeResizeLike(Eigen::VectorXd::Zero(nj));
         Sinv.conservativeResizeLike(Eigen::VectorXd::Zero(nj));
@@ -96,7 +99,8 @@ namespace KDL
         //Do a singular value decomposition of "jac" with maximum
         //iterations "maxiter", put the results in "U", "S" and "V"
         //jac = U*S*Vt
-        svdResult = svd_eigen_HH(jac.data,U,S,V,tmp,maxiter);
+        jac_eigen = jac.data;
+        svdResult = svd_eigen_HH(jac_eigen,U,S,V,tmp,maxiter);
         if (0 != svdResult)
         {
             qdot_out.data.setZero() ;
@@ -118,7 +122,9 @@ namespace KDL
             v(i) = v_in(i);
         }
 
-        qdot_out.data = V * Sinv.asDiagonal() * U.transpose() * v;
+        tmp.noalias() = U.transpose() * v;
+        tmp = Sinv.cwiseProduct(tmp);
+        qdot_out.data.noalias() = V * tmp;
 
         // Now onto NULL space
         // Given the cost function g, and the current joints q, desired joints qd, and weights w:
@@ -152,12 +158,17 @@ namespace KDL
               tmp(i) = weights(i)*(q_in(i) - opt_pos(i)) / A;
           }
 
-          // Calculate J^-1 * J * Jc^-1 = V*S^-1*U' * U*S*V' * tmp
-          tmp2 = V * Sinv.asDiagonal() * U.transpose() * U * S.asDiagonal() * V.transpose() * tmp;
+          // Calculate J^-1 * J * Jc^-1 = V*S^-1*U' * U*S*V' * tmp, without temporaries
+          tmp2.noalias() = V.transpose() * tmp;
+          tmp2 = S.cwiseProduct(tmp2);
+          v.noalias() = U * tmp2;
+          tmp2.noalias() = U.transpose() * v;
+          tmp2 = Sinv.cwiseProduct(tmp2);
+          tmp.noalias() -= V * tmp2;
 
           for (i = 0; i < nj; ++i) {
-              //std::cerr << i <<": "<< qdot_out(i) <<", "<< -2*alpha*g * (tmp(i) - tmp2(i)) << std::endl;
-              qdot_out(i) += -2*alpha*g * (tmp(i) - tmp2(i));
+              //std::cerr << i <<": "<< qdot_out(i) <<", "<< -2*alpha*g * tmp(i) << std::endl;
+              qdot_out(i) += -2*alpha*g * tmp(i);
           }
         }
         //return the return value of the svd decomposition
diff --git a/orocos_kdl/src/chainiksolvervel_pinv_nso.hpp b/orocos_kdl/src/chainiksolvervel_pinv_nso.hpp
index 97cd570..98084cd 100644
--- a/orocos_kdl/src/chainiksolvervel_pinv_nso.hpp
+++ b/orocos_kdl/src/chainiksolvervel_pinv_nso.hpp
@@ -142,6 +142,7 @@ namespace KDL
         ChainJntToJacSolver jnt2jac;
         unsigned int nj;
         Jacobian jac;
+        Eigen::MatrixXd jac_eigen; // copy of jac for the svd
         Eigen::MatrixXd U;
         Eigen::VectorXd S;
         Eigen::VectorXd Sinv;
-- 
2.43.0


From bcc84e3209a417e3592a5ad6e8ed9aa6b11efac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:05 +0000
Subject: [PATCH 80/85] fix: ChainIkSolverPos_LMA::CartToJnt allocated memory
 on every call, and sized its work vectors wrongly

---
 orocos_kdl/src/chainiksolverpos_lma.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/orocos_kdl/src/chainiksolverpos_lma.cpp b/orocos_kdl/src/chainiksolverpos_lma.cpp
index 1af16b1..fb116c3 100644
--- a/orocos_kdl/src/chainiksolverpos_lma.cpp
+++ b/orocos_kdl/src/chainiksolverpos_lma.cpp
@@ -61,7 +61,7 @@ ChainIkSolverPos_LMA::ChainIkSolverPos_LMA(
 	lastDifference(0),
 	lastTransDiff(0),
 	lastRotDiff(0),
-	lastSV(nj),
+	lastSV(nj>6?6:nj),
 	jac(6, nj),
 	grad(nj),
 	display_information(false),
@@ -73,12 +73,12 @@ ChainIkSolverPos_LMA::ChainIkSolverPos_LMA(
 	T_base_jointtip(nj),
 	q(nj),
 	A(nj, nj),
-	tmp(nj),
+	tmp(nj>6?6:nj),
 	ldlt(nj),
 	svd(6, nj,Eigen::ComputeThinU | Eigen::ComputeThinV),
 	diffq(nj),
 	q_new(nj),
-	original_Aii(nj)
+	original_Aii(nj>6?6:nj)
 {}
 
 ChainIkSolverPos_LMA::ChainIkSolverPos_LMA(
@@ -105,11 +105,12 @@ ChainIkSolverPos_LMA::ChainIkSolverPos_LMA(
 	T_base_jointtip(nj),
 	q(nj),
 	A(nj, nj),
+	tmp(nj>6?6:nj),
 	ldlt(nj),
 	svd(6, nj,Eigen::ComputeThinU | Eigen::ComputeThinV),
 	diffq(nj),
 	q_new(nj),
-	original_Aii(nj)
+	original_Aii(nj>6?6:nj)
 {
 	L(0)=1;
 	L(1)=1;
@@ -133,7 +134,8 @@ void ChainIkSolverPos_LMA::updateInternalDataStructures() {
     svd = Eigen::JacobiSVD<MatrixXq>(6, nj,Eigen::ComputeThinU | Eigen::ComputeThinV);
     diffq.conservativeResize(nj);
     q_new.conservativeResize(nj);
-    original_Aii.conservativeResize(nj);
+    original_Aii.conservativeResize(nj>6?6:nj);
+    tmp.conservativeResize(nj>6?6:nj);
 }
 
 ChainIkSolverPos_LMA::~ChainIkSolverPos_LMA() {}
@@ -234,10 +236,10 @@ int ChainIkSolverPos_LMA::CartToJnt(const KDL::JntArray& q_init, const KDL::Fram
 			original_Aii(j) = original_Aii(j)/( original_Aii(j)*original_Aii(j)+lambda);
 
 		}
-		tmp = svd.matrixU().transpose()*delta_pos;
+		tmp.noalias() = svd.matrixU().transpose()*delta_pos;
 		tmp = original_Aii.cwiseProduct(tmp);
-		diffq = svd.matrixV()*tmp;
-		grad = jac.transpose()*delta_pos;
+		diffq.noalias() = svd.matrixV()*tmp;
+		grad.noalias() = jac.transpose()*delta_pos;
 		if (display_information) {
 			std::cout << "------- iteration " << i << " ----------------\n"
 					  << "  q              = " << q.transpose() << "\n"
-- 
2.43.0


From c32990a141d61aa57ac8bd1be77a592bcf33fdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:05 +0000
Subject: [PATCH 81/85] fix: ChainHdSolver_Vereshchagin::CartToJnt allocated
 memory on every call

---
 orocos_kdl/src/chainhdsolver_vereshchagin.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
index 741187f..7fd32c9 100644
--- a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
+++ b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
@@ -35,6 +35,7 @@ ChainHdSolver_Vereshchagin::ChainHdSolver_Vereshchagin(const Chain& chain_, cons
     acc_root = root_acc;
 
     //Provide the necessary memory for computing the inverse of M0
+    nu = Eigen::VectorXd::Zero(nc);
     nu_sum.resize(nc);
     M_0_inverse.resize(nc, nc);
     Um = Eigen::MatrixXd::Identity(nc, nc);
@@ -199,12 +200,12 @@ void ChainHdSolver_Vereshchagin::downwards_sweep(const Jacobian& alfa, const Jnt
             s.E_tilde = child.E;
 
             //Azamat: equation (c) right side term
-            s.E_tilde.noalias() -= (vPZ * child.EZ.transpose()) / child.D;
+            s.E_tilde.noalias() -= (vPZ / child.D) * child.EZ.transpose();
 
             //equation d) (see Vereshchagin89)
             s.M = child.M;
             //Azamat: equation (d) right side term
-            s.M.noalias() -= (child.EZ * child.EZ.transpose()) / child.D;
+            s.M.noalias() -= (child.EZ / child.D) * child.EZ.transpose();
 
             //equation e) (see Vereshchagin89)
             s.G = child.G;
@@ -289,7 +290,8 @@ void ChainHdSolver_Vereshchagin::constraint_calculation(const JntArray& beta)
     //results[0].M.computeInverse(&M_0_inverse);
     Vector6d acc;
     acc << Eigen::Vector3d::Map(acc_root.rot.data), Eigen::Vector3d::Map(acc_root.vel.data);
-    nu_sum.noalias() = -(results[0].E_tilde.transpose() * acc);
+    nu_sum.noalias() = results[0].E_tilde.transpose() * acc;
+    nu_sum = -nu_sum;
     //nu_sum.setZero();
     nu_sum += beta.data;
     nu_sum -= results[0].G;
-- 
2.43.0


From c6449a4568c0eb83290f0630e09eb762f5af4a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:05 +0000
Subject: [PATCH 82/85] fix: ChainExternalWrenchEstimator allocated memory in
 its update calls

---
 orocos_kdl/src/chainexternalwrenchestimator.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/orocos_kdl/src/chainexternalwrenchestimator.cpp b/orocos_kdl/src/chainexternalwrenchestimator.cpp
index 1fb767e..901cfb6 100644
--- a/orocos_kdl/src/chainexternalwrenchestimator.cpp
+++ b/orocos_kdl/src/chainexternalwrenchestimator.cpp
@@ -83,7 +83,7 @@ int ChainExternalWrenchEstimator::setInitialMomentum(const JntArray &joint_posit
     if (E_NOERROR != dynparam_solver.JntToMass(joint_position, jnt_mass_matrix))
         return (error = E_DYNPARAMSOLVERMASS_FAILED);
 
-    initial_jnt_momentum.data = jnt_mass_matrix.data * joint_velocity.data;
+    initial_jnt_momentum.data.noalias() = jnt_mass_matrix.data * joint_velocity.data;
 
     // The change of inertia is counted from here on as well
     previous_jnt_mass_matrix.data = jnt_mass_matrix.data;
@@ -148,13 +148,15 @@ int ChainExternalWrenchEstimator::JntToExtWrench(const JntArray &joint_position,
     previous_jnt_mass_matrix.data = jnt_mass_matrix.data;
 
     // Calculate total torque exerted on the joint
-    total_torque.data = joint_torque.data - gravity_torque.data - coriolis_torque.data + jnt_mass_matrix_dot.data * joint_velocity.data;
+    total_torque.data = joint_torque.data - gravity_torque.data - coriolis_torque.data;
+    total_torque.data.noalias() += jnt_mass_matrix_dot.data * joint_velocity.data;
 
     // Accumulate main integral
     estimated_momentum_integral.data += (total_torque.data + filtered_estimated_ext_torque.data) * DT_SEC;
 
     // Estimate external joint torque
-    estimated_ext_torque.data = ESTIMATION_GAIN.asDiagonal() * (jnt_mass_matrix.data * joint_velocity.data - estimated_momentum_integral.data - initial_jnt_momentum.data);
+    estimated_ext_torque.data.noalias() = jnt_mass_matrix.data * joint_velocity.data;
+    estimated_ext_torque.data = ESTIMATION_GAIN.cwiseProduct(estimated_ext_torque.data - estimated_momentum_integral.data - initial_jnt_momentum.data);
 
     // First order low-pass filter: filter out the noise from the estimated signal
     // This filter can be turned off by setting FILTER_CONST value to 0
@@ -189,10 +191,12 @@ int ChainExternalWrenchEstimator::JntToExtWrench(const JntArray &joint_position,
         S_inv(i) = (std::fabs(S(i)) < svd_eps) ? 0.0 : 1.0 / S(i);
 
     // Compose the inverse: (Jac^T)^-1 = V * S^-1 * U^T
-    jacobian_end_eff_transpose_inv = V * S_inv.asDiagonal() * U.adjoint();
+    V = V * S_inv.asDiagonal();
+    jacobian_end_eff_transpose_inv.noalias() = V * U.adjoint();
 
     // Compute end-effector's Cartesian wrench from the estimated joint torques: (Jac^T)^-1 * ext_tau
-    Vector6d estimated_wrench = jacobian_end_eff_transpose_inv * filtered_estimated_ext_torque.data;
+    Vector6d estimated_wrench;
+    estimated_wrench.noalias() = jacobian_end_eff_transpose_inv * filtered_estimated_ext_torque.data;
     for (int i = 0; i < 6; i++) 
         external_wrench(i) = estimated_wrench(i);
 
-- 
2.43.0


From 8787ccfa2b4d200af429c7433e62fa2eb9fe1300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:35 +0000
Subject: [PATCH 83/85] fix: std::hash of Rotation2 and Frame2 depended on the
 sign of a zero

---
 orocos_kdl/src/frames.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/frames.hpp b/orocos_kdl/src/frames.hpp
index d816f0d..cc4ede3 100644
--- a/orocos_kdl/src/frames.hpp
+++ b/orocos_kdl/src/frames.hpp
@@ -1335,7 +1335,8 @@ template<> struct std::hash<KDL::Rotation2>
     std::size_t operator()(KDL::Rotation2 const& r) const noexcept
     {
         size_t seed = 0;
-        KDL::hash_combine(seed, r.GetRot());
+        KDL::hash_combine(seed, r(0,0));
+        KDL::hash_combine(seed, r(1,0));
         return seed;
     }
 };
-- 
2.43.0


From b0ab36baab36f77dd833b7319a5aa5782675f66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:57 +0000
Subject: [PATCH 84/85] fix: Trajectory::Read rejected the composite and
 stationary trajectories that Trajectory writes

---
 orocos_kdl/src/trajectory.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/orocos_kdl/src/trajectory.cpp b/orocos_kdl/src/trajectory.cpp
index 18728e7..e1602e8 100644
--- a/orocos_kdl/src/trajectory.cpp
+++ b/orocos_kdl/src/trajectory.cpp
@@ -46,6 +46,8 @@
 #include "trajectory.hpp"
 #include "path.hpp"
 #include "trajectory_segment.hpp"
+#include "trajectory_composite.hpp"
+#include "trajectory_stationary.hpp"
 
 #include <memory>
 #include <cstring>
@@ -68,6 +70,28 @@ Trajectory* Trajectory::Read(std::istream& is) {
 		// the limits of the profile are written, its motion follows from the path
 		motprof->SetProfile(0,geom->PathLength());
 		return new  Trajectory_Segment(geom.release(),motprof.release());
+	} else if (strcmp(storage,"COMPOSITE")==0) {
+		IOTrace("COMPOSITE");
+		int size;
+		scoped_ptr<Trajectory_Composite> tr( new Trajectory_Composite() );
+		is >> size;
+		for (int i=0;i<size;i++) {
+			tr->Add(Trajectory::Read(is));
+		}
+		EatEnd(is,']');
+		IOTracePop();
+		IOTracePop();
+		return tr.release();
+	} else if (strcmp(storage,"STATIONARY")==0) {
+		IOTrace("STATIONARY");
+		double duration;
+		Frame pos;
+		is >> duration;
+		is >> pos;
+		EatEnd(is,']');
+		IOTracePop();
+		IOTracePop();
+		return new Trajectory_Stationary(duration,pos);
 	} else {
 		throw Error_MotionIO_Unexpected_Traj();
 	}
-- 
2.43.0


From a0c407ce01b401744ce1b50a9e72d85c26923d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:11 +0000
Subject: [PATCH 85/85] fix: the Vereshchagin solver inverted rounding noise of
 redundant constraints on light robots

---
 orocos_kdl/src/chainhdsolver_vereshchagin.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
index 7fd32c9..9377be4 100644
--- a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
+++ b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
@@ -278,8 +278,10 @@ void ChainHdSolver_Vereshchagin::constraint_calculation(const JntArray& beta)
     //M_0_inverse=results[0].M.inverse();
     svd_eigen_HH(results[0].M, Um, Sm, Vm, tmpm);
     //truncated svd, what would sdls, dls physically mean?
+    //the rounding errors grow with the largest singular value
+    const double threshold = std::max(1e-14, 1e-12 * Sm.lpNorm<Eigen::Infinity>());
     for (unsigned int i = 0; i < nc; i++)
-        if (Sm(i) < 1e-14)
+        if (Sm(i) < threshold)
             Sm(i) = 0.0;
         else
             Sm(i) = 1 / Sm(i);
-- 
2.43.0

