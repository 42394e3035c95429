From 7c2f5dad0d8512400fb1e6ac61baa5fa471bcd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:55 +0000
Subject: [PATCH 01/43] fix: R2rot half turn about an axis in the y-z plane
 used the wrong matrix entry for the sign of z

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index bea5303..fec60de 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -116,7 +116,7 @@ def R2rot(R):
                 k[1] = k[1] * np.sign(B[0,1] / k[0])
                 k[2] = k[2] * np.sign(B[0,2] / k[0])
             elif np.abs(k[1]) > 1e-6:
-                k[2] = k[2] * np.sign(B[0,2] / k[1])
+                k[2] = k[2] * np.sign(B[1,2] / k[1])
             return k, np.pi
     
     k = invhat(R1)/(2.0*sin_theta)    
-- 
2.43.0


From b0cbc62b4a3cbee8eb5a8a2d3c8d5fb096905614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:55 +0000
Subject: [PATCH 02/43] fix: R2rot returned NaN axis components when rounding
 made a diagonal entry slightly negative at a half turn

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index fec60de..9d246e5 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -111,7 +111,7 @@ def R2rot(R):
             return [0,0,1], 0
         else:
             B = (1.0/2.0) *(R + np.eye(3))
-            k = np.sqrt([B[0,0], B[1,1], B[2,2]])
+            k = np.sqrt(np.maximum([B[0,0], B[1,1], B[2,2]], 0.0))
             if np.abs(k[0]) > 1e-6:
                 k[1] = k[1] * np.sign(B[0,1] / k[0])
                 k[2] = k[2] * np.sign(B[0,2] / k[0])
-- 
2.43.0


From 18f115a589cd06cbd170f5537b9d43decccb99dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:55 +0000
Subject: [PATCH 03/43] fix: slerp returned NaN when rounding made the dot
 product of equal quaternions exceed one

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 9d246e5..542b27f 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -321,7 +321,7 @@ def slerp(q0, q1, t):
     if (np.dot(q0,q1) < 0):
         q0 = -q0
     
-    theta = np.arccos(np.dot(q0,q1))
+    theta = np.arccos(np.clip(np.dot(q0,q1), -1.0, 1.0))
     
     if (np.abs(theta) < 1e-6):
         return q0
-- 
2.43.0


From 4ce50202c32088c839d3c68c02fbafe57bc362a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:05 +0000
Subject: [PATCH 04/43] fix: q2rot returned a zero axis for q = [-1,0,0,0] and
 NaN when rounding made |q0| exceed one

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 542b27f..74e8527 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -207,8 +207,8 @@ def q2rot(q):
     :rtype:  (numpy.array, number)
     :return: the 3x1 rotation vector and theta    
     """
-    theta = 2 * np.arccos(q[0])
-    if np.abs(theta) < 1e-6:
+    theta = 2 * np.arccos(np.clip(q[0], -1.0, 1.0))
+    if np.linalg.norm(q[1:4]) < 0.5e-6:
         return np.array([0,0,1]), 0.0
     k = q[1:4]/np.sin(theta/2.0)
     return k, theta
-- 
2.43.0


From a01db05eba9c25812d3c55f640bb95378714b158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:26 +0000
Subject: [PATCH 05/43] fix: subproblem0 rejected valid vectors because of
 rounding and accepted non-perpendicular ones on the negative side

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 74e8527..270d507 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -656,12 +656,12 @@ def subproblem0(p, q, k):
     :return: theta angle as scalar in radians
     """
     
-    eps = np.finfo(np.float64).eps    
-    assert (np.dot(k,p) < eps) and (np.dot(k,q) < eps), \
-           "k must be perpendicular to p and q"
-    
     norm = np.linalg.norm
     
+    tol = 1e-6
+    assert (np.abs(np.dot(k,p)) < tol*norm(p)) and (np.abs(np.dot(k,q)) < tol*norm(q)), \
+           "k must be perpendicular to p and q"
+    
     ep = p / norm(p)
     eq = q / norm(q)
     
-- 
2.43.0


From 80a4ff0c360a43b8400568e3ff20268b3c3e36ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:26 +0000
Subject: [PATCH 06/43] fix: subproblem1 raised an error or returned NaN when
 the vectors lie on the rotation axis

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 270d507..93d319f 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -700,6 +700,10 @@ def subproblem1(p, q, k):
     pp = np.subtract(p,np.dot(p, k)*k)
     qp = np.subtract(q,np.dot(q, k)*k)
     
+    #Any angle solves the problem if p and q are on the axis
+    if norm(pp) < np.sqrt(eps) or norm(qp) < np.sqrt(eps):
+        return 0.0
+    
     epp = np.divide(pp, norm(pp))    
     eqp = np.divide(qp, norm(qp))
     
-- 
2.43.0


From 89e90397843c3c7045ff8590d73c28ce9dfdcb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:26 +0000
Subject: [PATCH 07/43] fix: subproblem2 passed its arguments in the wrong
 order when the cones are tangent

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 93d319f..25a9820 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -766,8 +766,8 @@ def subproblem2(p, q, k1, k2):
     if (np.abs(gamma) < eps):
         cm=np.array([k1, k2, np.cross(k1,k2)]).T
         c1 = np.dot(cm, np.hstack((a, gamma)))
-        theta2 = subproblem1(k2, p, c1)
-        theta1 = -subproblem1(k1, q, c1)
+        theta2 = subproblem1(p, c1, k2)
+        theta1 = -subproblem1(q, c1, k1)
         return [(theta1, theta2)]
     
     cm=np.array([k1, k2, np.cross(k1,k2)]).T
-- 
2.43.0


From db4fb5fcbe2fb2048aebfa4c8db5d5bb12fd7af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:26 +0000
Subject: [PATCH 08/43] fix: subproblem2 found no solution for tangent cones
 because of rounding

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 25a9820..1dcef12 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -756,7 +756,7 @@ def subproblem2(p, q, k1, k2):
     a = np.matmul([[k12, -1], [-1, k12]],[pk, qk]) / (k12**2 - 1)
     
     bb = (np.dot(p,p) - np.dot(a,a) - 2*a[0]*a[1]*k12)
-    if (np.abs(bb) < eps): bb=0
+    if (np.abs(bb) < 10*eps*max(1.0, np.dot(p,p))/(1 - k12**2)): bb=0
     
     if (bb < 0):
         warnings.warn("No solution - no intersection found between cones")
-- 
2.43.0


From 327f981c19e76e39328da95b89024bab555425fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:26 +0000
Subject: [PATCH 09/43] fix: subproblem4 returned NaN instead of no solution
 for an unreachable negative displacement

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 1dcef12..6363566 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -851,7 +851,7 @@ def subproblem4(p, q, k, d):
     
     d = c / np.linalg.norm([a,b])
     
-    if d > 1:
+    if np.abs(d) > 1:
         return []
     
     psi = np.arcsin(d)
-- 
2.43.0


From cd4bbd46793f2dbad35b095e9f6f33b1a96f09d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:41 +0000
Subject: [PATCH 10/43] fix: subproblem3 found no solution for a fully
 stretched or folded configuration because of rounding

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 6363566..d8d9f8e 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -810,9 +810,11 @@ def subproblem3(p, q, k, d):
     
     bb=-(np.dot(pp,pp) + np.dot(qp,qp) - dpsq)/(2*norm(pp)*norm(qp))
     
-    if dpsq < 0 or np.abs(bb) > 1:
+    #Allow for rounding when the distance is exactly at the end of the range
+    if dpsq < 0 or np.abs(bb) > 1 + 1e-10:
         warnings.warn("No solution - no rotation can achieve specified distance")
         return []
+    bb = np.clip(bb, -1, 1)
     
     theta = subproblem1(pp/norm(pp), qp/norm(qp), k)
     
-- 
2.43.0


From 10df4a2379ad07489b44d0ef95c56fd4520585a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:41 +0000
Subject: [PATCH 11/43] fix: subproblem4 found no solution for a displacement
 at the end of the range because of rounding

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index d8d9f8e..f19021e 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -853,10 +853,11 @@ def subproblem4(p, q, k, d):
     
     d = c / np.linalg.norm([a,b])
     
-    if np.abs(d) > 1:
+    #Allow for rounding when the displacement is exactly at the end of the range
+    if np.abs(d) > 1 + 1e-10:
         return []
     
-    psi = np.arcsin(d)
+    psi = np.arcsin(np.clip(d, -1, 1))
     
     return [-phi+psi, -phi-psi+np.pi]
 
-- 
2.43.0


From f642d0283fa6ca696d6ab136b616e666bc1607ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:36 +0000
Subject: [PATCH 12/43] fix: inverse kinematics raised ValueError instead of
 returning an empty list when last_joints was given

---
 .../general_robotics_toolbox_invkin.py                      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 8606696..48df896 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -220,7 +220,7 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
                 q6 = q6[0]
                 
                 theta_v.append(np.array([q1, q2, q3, q4, q5, q6]))                        
-    if last_joints is not None:
+    if last_joints is not None and len(theta_v) > 0:
         theta_dist = np.linalg.norm(np.subtract(theta_v,last_joints), axis=1)
         return [theta_v[i] for i in list(np.argsort(theta_dist))]
     else:
@@ -319,7 +319,7 @@ def ur_invkin(robot, desired_pose, last_joints = None):
                 
                 theta_v.append(np.array([q1, q2, q3, q4, q5, q6]))   
 
-    if last_joints is not None:
+    if last_joints is not None and len(theta_v) > 0:
         theta_dist = np.linalg.norm(np.subtract(theta_v,last_joints), axis=1)
         return [theta_v[i] for i in list(np.argsort(theta_dist))]
     else:
@@ -384,7 +384,7 @@ def equivalent_configurations(robot, theta_v, last_joints = None):
                 continue
         theta_ret.append(eq_theta)
     
-    if last_joints is not None:
+    if last_joints is not None and len(theta_ret) > 0:
         theta_dist = np.linalg.norm(np.subtract(theta_ret,last_joints), axis=1)
         return [theta_ret[i] for i in list(np.argsort(theta_dist))]
     else:
-- 
2.43.0


From ea48242cd98f6539afa22d5ebaa96bd503462203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:36 +0000
Subject: [PATCH 13/43] fix: robot6_sphericalwrist_invkin modified the P matrix
 of the robot passed in

---
 src/general_robotics_toolbox/general_robotics_toolbox_invkin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 48df896..2a533ee 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -143,7 +143,7 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
     p0T = desired_pose2.p
     
     H = robot.H
-    P = robot.P
+    P = np.array(robot.P)
     
     theta_v = []
     
-- 
2.43.0


From 8119699aa1830bc44544a885702d5b88845527ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:36 +0000
Subject: [PATCH 14/43] fix: ur_invkin ignored the limits and the last position
 of joint 5

---
 .../general_robotics_toolbox_invkin.py                       | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 2a533ee..bdfdc70 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -278,6 +278,11 @@ def ur_invkin(robot, desired_pose, last_joints = None):
         Q24_Q5 = rox.subproblem2(p4, v4, H[:,3], H[:,4])
 
         for q24, q5 in Q24_Q5:
+            q5 = normalize(4, [q5])
+            if len(q5) == 0:
+                continue
+            q5 = q5[0]
+
             R04 = np.matmul(rox.rot(H[:,0],q1),rox.rot(H[:,3],q24))
             
             p23p = p04 - P[:,0] - np.matmul(R01,P[:,1]) - np.matmul(R04,P[:,4])
-- 
2.43.0


From 185b2faeef3a5abe61659a64f6d7566ca71be7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:36 +0000
Subject: [PATCH 15/43] fix: equivalent_configurations returned configurations
 that were already in its input

---
 .../general_robotics_toolbox_invkin.py                       | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index bdfdc70..1bd3ab5 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -384,9 +384,8 @@ def equivalent_configurations(robot, theta_v, last_joints = None):
     theta_ret =[]
 
     for eq_theta in equiv_theta:
-        for theta1 in theta_v:
-            if np.allclose(theta1, eq_theta):
-                continue
+        if any(np.allclose(theta1, eq_theta) for theta1 in theta_v):
+            continue
         theta_ret.append(eq_theta)
     
     if last_joints is not None and len(theta_ret) > 0:
-- 
2.43.0


From 3dac9bbaa9247b26b65c878ab3e4656b6554db55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:53 +0000
Subject: [PATCH 16/43] fix: joint normalization shifted prismatic joints by
 multiples of 2*pi

---
 .../general_robotics_toolbox_invkin.py                     | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 1bd3ab5..659a1e5 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -51,8 +51,15 @@ class normalize_joints(object):
                   
         self._last_joints = last_joints
         self._use_last_joints = last_joints is not None
+        self._joint_type = robot.joint_type
             
     def normalize(self, joint, theta):
+        if self._joint_type[joint] not in (0, 2):
+            #Prismatic joints are not periodic
+            if self._check_limits and not (self._lower_limit[joint] < theta and theta < self._upper_limit[joint]):
+                return None
+            return theta
+
         if self._check_limits:
             l = self._lower_limit[joint]
             u = self._upper_limit[joint]
-- 
2.43.0


From 7a304621eb0d66d65e812f589fdedad04f29156c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:53 +0000
Subject: [PATCH 17/43] fix: iterative_invkin failed for q_current given as a
 list and for robots with one joint

---
 .../general_robotics_toolbox_invkin.py                        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 659a1e5..2590743 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -440,7 +440,7 @@ def iterative_invkin(robot, desired_pose, q_current, max_steps = 200, Kp = 0.3*n
     normalize = normalize_joints(robot, q_current, _ignore_limits = True)
     
     q_cur = d_q # initial guess on the current joint angles
-    q_cur = q_cur.reshape((num_joints,1)) 
+    q_cur = np.reshape(q_cur,(num_joints,1))
     
     # hist_b = []
     
@@ -502,6 +502,6 @@ def iterative_invkin(robot, desired_pose, q_current, max_steps = 200, Kp = 0.3*n
         itr += 1 # Increase the iteration
 
 
-    q_normed = normalize(np.arange(num_joints), [np.squeeze(q_cur)])
+    q_normed = normalize(np.arange(num_joints), [q_cur.flatten()])
     
     return converged, q_normed
\ No newline at end of file
-- 
2.43.0


From 9254213765bba39a36538a4fddb115da422c8e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:35 +0000
Subject: [PATCH 18/43] fix: YAML loader took the joint information of the
 first joints instead of the joints of the chain

---
 src/general_robotics_toolbox/robotraconteur.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/general_robotics_toolbox/robotraconteur.py b/src/general_robotics_toolbox/robotraconteur.py
index 216b01b..7b1f20e 100644
--- a/src/general_robotics_toolbox/robotraconteur.py
+++ b/src/general_robotics_toolbox/robotraconteur.py
@@ -92,8 +92,8 @@ def load_robot_info_yaml_to_robot(robot_info_file, chain_number=0):
 
     chain = robot_yml["chains"][chain_number]
     joint_count = len(chain["joint_numbers"])
-    for i in range(1, joint_count):
-        if chain["joint_numbers"][i-1] >= chain["joint_numbers"][i]:
+    for i in range(joint_count):
+        if i > 0 and chain["joint_numbers"][i-1] >= chain["joint_numbers"][i]:
             raise ValueError(
                 "joint numbers must be increasing in chain number " + str(chain_number))
 
@@ -122,7 +122,7 @@ def load_robot_info_yaml_to_robot(robot_info_file, chain_number=0):
     joint_names = [None]*joint_count
 
     for i in range(joint_count):
-        j = robot_yml["joint_info"][i]
+        j = robot_yml["joint_info"][chain["joint_numbers"][i]]
         if j["joint_type"] == "revolute":
             # Revolute joint
             joint_type[i] = 0
-- 
2.43.0


From e8da9785fce2085bfff7353865375499ae908eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:58 +0000
Subject: [PATCH 19/43] fix: use the default axis for URDF joints without an
 axis element

---
 src/general_robotics_toolbox/urdf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/urdf.py b/src/general_robotics_toolbox/urdf.py
index b5fa7b3..f3dca87 100644
--- a/src/general_robotics_toolbox/urdf.py
+++ b/src/general_robotics_toolbox/urdf.py
@@ -136,7 +136,9 @@ def _robot_from_urdf_robot(urdf_robot, root_link = None, tip_link = None):
         if j.joint_type == 'fixed':
             pass            
         elif j.joint_type == 'revolute' or j.joint_type == 'prismatic':            
-            H[:,i] = np.matmul(R,j.axis)
+            # The URDF axis element is optional and defaults to the x axis of the joint frame
+            axis = j.axis if j.axis is not None else [1.0, 0.0, 0.0]
+            H[:,i] = np.matmul(R,axis)
             joint_type[i] = 0 if j.joint_type == 'revolute' else 1
             if j.limit is not None:
                 joint_lower_limit[i] = j.limit.lower
-- 
2.43.0


From 39c7e591f348f0589aeee1fc0d1f99ee95aef9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:06 +0000
Subject: [PATCH 20/43] fix: OPW parameters of robots with the last joint along
 z were accepted only with a flange that does not match them

---
 src/general_robotics_toolbox/tesseract.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index 6725650..7b6d97a 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -635,7 +635,6 @@ def robot_to_opw_inv_kin_parameters(robot):
     ez = np.array([0.,0.,1.])
 
     assert robot.T_flange
-    assert np.allclose(robot.T_flange.R, rox.rot([0,1,0], np.pi/2.0))
     assert np.allclose(robot.T_flange.p.flatten(), np.array([0.,0.,0.]))
 
     assert len(robot.joint_type) == 6
@@ -655,6 +654,13 @@ def robot_to_opw_inv_kin_parameters(robot):
     assert axis_sign(robot.H[:,3], robot.H[:,5]) != 0
     assert axis_sign(robot.H[:,5], ez) != 0 or axis_sign(robot.H[:,5], ex) != 0
 
+    # The OPW tool z axis is along the last joint. The flange must rotate the tip frame to match
+    # if the home position is outstretched along x.
+    if axis_sign(robot.H[:,5], ex) != 0:
+        assert np.allclose(robot.T_flange.R, rox.rot([0,1,0], np.pi/2.0))
+    else:
+        assert np.allclose(robot.T_flange.R, np.eye(3))
+
     H2 = np.copy(robot.H)
     P2 = np.copy(robot.P)
 
-- 
2.43.0


From 799b33e4e1333b4eeb417d0532ce01a1d387e8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:06 +0000
Subject: [PATCH 21/43] fix: UR parameters lost the last link offset when it is
 in the tip column

---
 src/general_robotics_toolbox/tesseract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index 7b6d97a..3fdf248 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -1010,7 +1010,7 @@ def robot_to_ur_inv_kin_parameters(robot):
     d5 = -np.sum(P2[2,4:5]).item()
     assert np.allclose(P2[2,5:], 0.0)
     assert np.allclose(P2[0,5:], 0.0)
-    d6 = -np.sum(P2[1,5:6]).item()
+    d6 = -np.sum(P2[1,5:7]).item()
 
     ret = URInvKinParameters(d1,a2,a3,d4,d5,d6)
 
-- 
2.43.0


From dbbdbf452c176e8704050a4d157e5725bb572b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:24 +0000
Subject: [PATCH 22/43] fix: UR parameters of robots aligned with +x used axes
 that are not those of the rotated arm

---
 src/general_robotics_toolbox/tesseract.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index 3fdf248..6083c06 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -979,24 +979,23 @@ def robot_to_ur_inv_kin_parameters(robot):
     ey = np.array([0.,1.,0.])
     ez = np.array([0.,0.,1.])
 
+    minus_x = np.allclose(robot.H, np.array([ez,-ey,-ey,-ey,-ez,-ey]).T)
+    plus_x = np.allclose(robot.H, np.array([ez,ey,ey,ey,-ez,ey]).T)
+
+    assert minus_x or plus_x
+
+    # Rotation from the robot as specified to the factory definition
+    R = rox.rot(ez,np.pi) if plus_x else np.eye(3)
+
     assert robot.T_flange
-    assert np.allclose(robot.T_flange.R, np.array([ex, ez, -ey]).T, atol=1e-6)
+    assert np.allclose(np.matmul(R, robot.T_flange.R), np.array([ex, ez, -ey]).T, atol=1e-6)
     assert np.allclose(robot.T_flange.p.flatten(), np.array([0.,0.,0.]))
 
     assert robot.T_base
-    assert np.allclose(robot.T_base.R, rox.rot([0,0,1], np.pi), atol=1e-6)
+    assert np.allclose(np.matmul(robot.T_base.R, R.T), rox.rot([0,0,1], np.pi), atol=1e-6)
     assert np.allclose(robot.T_base.p.flatten(), np.array([0.,0.,0.]))
 
-    minus_x = np.allclose(robot.H, np.array([ez,-ey,-ey,-ey,-ez,-ey]).T)
-    plus_x = np.allclose(robot.H, -np.array([ez,-ey,-ey,-ey,-ez,-ey]).T)
-
-    P2 = robot.P
-
-    assert minus_x or plus_x
-
-    if plus_x:
-        R = rox.rot(ez,np.pi)
-        P2 = np.matmul(R, P2)
+    P2 = np.matmul(R, robot.P)
 
     assert np.allclose(P2[0:2,0], 0.0)
     d1 = P2[2,0].item()
-- 
2.43.0


From 896ac351d52559352c70022a303adb8f04fd2821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:46 +0000
Subject: [PATCH 23/43] fix: UR solver was configured for the tool instead of
 the flange its parameters describe

---
 src/general_robotics_toolbox/tesseract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index 6083c06..948a589 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -543,7 +543,7 @@ def kinematics_plugin_info_dict(robot, robot_name, link_names, joint_names, chai
         elif invkin_solver == "URInvKin":
             ur_params = robot_to_ur_inv_kin_parameters(robot)
             invkin_plugin_info, invkin_libs = kinematics_plugin_invkin_ur_plugin_info_dict(robot_name, base_link,
-                tip_link, ur_params)
+                robot_name + "_flange", ur_params)
         else:
             assert False, "Unknown inverse kinematics solver"
 
-- 
2.43.0


From 30580d23f00461374afee7112c80f9d77402461f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:30 +0000
Subject: [PATCH 24/43] fix: Tesseract export and wrapper failed for integer
 arrays and lists

---
 src/general_robotics_toolbox/tesseract.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index 948a589..fd07530 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -101,7 +101,7 @@ def transform_to_isometry3d(T):
     :return : The converted transform
     """
     # TODO: Use better Isometry3d constructor
-    return Translation3d(T.p) * AngleAxisd(T.R)
+    return Translation3d(np.asarray(T.p, dtype=np.float64)) * AngleAxisd(np.asarray(T.R, dtype=np.float64))
 
 def isometry3d_to_transform(eig_iso):
     """
@@ -159,11 +159,11 @@ def get_link_and_joint(h, p, joint_type, joint_lower_limit, joint_upper_limit, j
     else:
         assert False, "Unsupported Tesseract joint type: " + str(joint.type)
     joint.parent_to_joint_origin_transform = transform_to_isometry3d(rox.Transform(np.eye(3), p))
-    joint.axis = h
+    joint.axis = np.asarray(h, dtype=np.float64)
     joint.parent_link_name = parent_link_name
     joint.child_link_name = link_name
-    joint.limits = JointLimits(joint_lower_limit, joint_upper_limit, joint_effort_limit,
-         joint_vel_limit, joint_acc_limit)
+    joint.limits = JointLimits(float(joint_lower_limit), float(joint_upper_limit), float(joint_effort_limit),
+         float(joint_vel_limit), float(joint_acc_limit))
     return link,joint
 
 def get_fixed_link_and_joint(T, link_name, joint_name, parent_link_name):
@@ -863,7 +863,7 @@ class TesseractRobot:
         :return: The pose of tip link in base frame
         """
         kin_group = self.tesseract_env.getKinematicGroup(self.robot_name)
-        frames = kin_group.calcFwdKin(theta)
+        frames = kin_group.calcFwdKin(np.asarray(theta, dtype=np.float64))
 
         if tip_link_name is None:
             tip_link_name = self.tip_link_name
@@ -897,7 +897,7 @@ class TesseractRobot:
         if link_name is None:
             link_name = self.tip_link_name
 
-        J_kdl =  kin_group.calcJacobian(theta, base_link_name, link_name)
+        J_kdl =  kin_group.calcJacobian(np.asarray(theta, dtype=np.float64), base_link_name, link_name)
 
         # KDL has vel on top, SOA has ang on top
         J = np.vstack((J_kdl[3:6,:],J_kdl[0:3,:]))
@@ -931,7 +931,7 @@ class TesseractRobot:
         iks = KinGroupIKInputs()
         iks.append(ik)
 
-        invkin1= kin_group.calcInvKin(iks,theta_seed)
+        invkin1= kin_group.calcInvKin(iks,np.asarray(theta_seed, dtype=np.float64))
 
         ret = []
         for i in range(len(invkin1)):
@@ -1073,6 +1073,6 @@ def redundant_solutions(tesseract_kin_group, theta):
     limits = tesseract_kin_group.getLimits()
     redundancy_indices = list(tesseract_kin_group.getRedundancyCapableJointIndices())
 
-    redun_sol = getRedundantSolutions(theta, limits.joint_limits, redundancy_indices)
+    redun_sol = getRedundantSolutions(np.asarray(theta, dtype=np.float64), limits.joint_limits, redundancy_indices)
 
     return [x.flatten() for x in redun_sol]
-- 
2.43.0


From 133b8d2ed709099dbbd0972ea3e566e1da29b96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:59 +0000
Subject: [PATCH 25/43] fix: UR inverse kinematics lost solutions whose joint 4
 is two turns from q24 - q2 - q3

---
 .../general_robotics_toolbox_invkin.py                         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 2590743..56eed5e 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -310,7 +310,8 @@ def ur_invkin(robot, desired_pose, last_joints = None):
                     continue
                 q2 = q2[0]        
                 
-                q4 = q24 - q2 - q3
+                # q2 and q3 may be more than one turn from the principal angles
+                q4 = np.remainder(q24 - q2 - q3 + np.pi, 2*np.pi) - np.pi
                 q4 = normalize(3, [q4])
                 if len(q4) == 0:
                     continue
-- 
2.43.0


From 40a19fe18d4fdf34dbd25a9b80a0d35ad850e99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:50 +0000
Subject: [PATCH 26/43] fix: joint limits were compared crosswise for N x 1
 joint vectors

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index f19021e..0584a3a 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -543,8 +543,8 @@ def fwdkin(robot, theta, _ignore_limits = False):
     if not _ignore_limits:
 
         if (robot.joint_lower_limit is not None and robot.joint_upper_limit is not None):
-            assert np.greater_equal(theta, robot.joint_lower_limit).all(), "Specified joints out of range"
-            assert np.less_equal(theta, robot.joint_upper_limit).all(), "Specified joints out of range"
+            assert np.greater_equal(np.ravel(theta), robot.joint_lower_limit).all(), "Specified joints out of range"
+            assert np.less_equal(np.ravel(theta), robot.joint_upper_limit).all(), "Specified joints out of range"
     
     p = robot.P[:,[0]]
     R = np.identity(3)
@@ -575,8 +575,8 @@ def robotjacobian(robot, theta, _ignore_limits = False):
     
     if not _ignore_limits:
         if (robot.joint_lower_limit is not None and robot.joint_upper_limit is not None):
-            assert np.greater_equal(theta, robot.joint_lower_limit).all(), "Specified joints out of range"
-            assert np.less_equal(theta, robot.joint_upper_limit).all(), "Specified joints out of range"
+            assert np.greater_equal(np.ravel(theta), robot.joint_lower_limit).all(), "Specified joints out of range"
+            assert np.less_equal(np.ravel(theta), robot.joint_upper_limit).all(), "Specified joints out of range"
     
     
     hi = np.zeros(robot.H.shape)
-- 
2.43.0


From 0f89b3ac6f869e32b5bc8c8c532bee393ae7a72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:45 +0000
Subject: [PATCH 27/43] fix: inverse kinematics of arms whose first joint is
 displaced sideways from the base

Both closed form solvers assumed that the offset before the first joint lies on its axis and returned configurations of another pose otherwise.
---
 .../general_robotics_toolbox_invkin.py                      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 56eed5e..cade8f4 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -168,7 +168,7 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
         P[:,5] = np.zeros(3)       
     
     d1 = np.dot(ey, P[:,1] + P[:,2] + P[:,3])
-    v1 = p0T - R06.dot(P[:,6])    
+    v1 = p0T - P[:,0] - R06.dot(P[:,6])    
     p1 = ey
     
     Q1 = rox.subproblem4(p1, v1, -H[:,0], d1)
@@ -179,7 +179,7 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
                 
         R01=rox.rot(H[:,0], q1)
         
-        p26_q1 = R01.T.dot(p0T - R06.dot(P[:,6])) - (P[:,0] + P[:,1])
+        p26_q1 = R01.T.dot(v1) - P[:,1]
         
         d3 = np.linalg.norm(p26_q1)
         v3 = P[:,2]        
@@ -267,7 +267,7 @@ def ur_invkin(robot, desired_pose, last_joints = None):
 
     d1 = np.dot(ey, P[:,1] + P[:,2] + P[:,3] + P[:,4])
     p04 = p0T - np.matmul(R06,P[:,6] + P[:,5])
-    v1 = p04
+    v1 = p04 - P[:,0]
     p1 = ey
     
     Q1 = rox.subproblem4(p1, v1, -H[:,0], d1)
-- 
2.43.0


From eb308548db7c6f6b8727e1806c950da730df6271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:45 +0000
Subject: [PATCH 28/43] fix: ur_invkin with an offset between joints 5 and 6
 along the axis of joint 5

Such an offset was rotated with the tool, which gave configurations of another pose. Arms whose last two axes do not meet are refused.
---
 .../general_robotics_toolbox_invkin.py                    | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index cade8f4..74140f3 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -257,7 +257,7 @@ def ur_invkin(robot, desired_pose, last_joints = None):
     p0T = desired_pose2.p
     
     H = robot.H
-    P = robot.P
+    P = np.array(robot.P, dtype=np.float64)
 
     assert np.allclose((np.array([ez,-ey,-ey,-ey,-ez,-ey]).T), H) or \
            np.allclose((np.array([ez,ey,ey,ey,-ez,ey]).T), H), \
@@ -265,6 +265,12 @@ def ur_invkin(robot, desired_pose, last_joints = None):
     
     theta_v = []
 
+    #Correct for offset between joints 5 and 6 along the axis of joint 5
+    P5_d = P[:,5].dot(H[:,4])
+    P[:,4] += P5_d*H[:,4]
+    P[:,5] -= P5_d*H[:,4]
+    assert np.allclose(np.cross(P[:,5], H[:,5]), 0), "Axes of joints 5 and 6 must intersect"
+
     d1 = np.dot(ey, P[:,1] + P[:,2] + P[:,3] + P[:,4])
     p04 = p0T - np.matmul(R06,P[:,6] + P[:,5])
     v1 = p04 - P[:,0]
-- 
2.43.0


From f9bd1be0aba76177563937914a147894d03aba36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:06 +0000
Subject: [PATCH 29/43] fix: the Jacobian included a tool of which only the
 position is set

Forward kinematics ignores a tool without orientation.
---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 0584a3a..f5700d1 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -606,7 +606,7 @@ def robotjacobian(robot, theta, _ignore_limits = False):
 
     if robot.T_flange is not None:
         pOT += np.matmul(R,np.reshape(robot.T_flange.p,(3,1)))
-    if robot.p_tool is not None:
+    if robot.R_tool is not None and robot.p_tool is not None:
         pOT += np.matmul(np.matmul(R,R_flange),np.reshape(robot.p_tool,(3,1)))
     
     J = np.zeros([6,len(joint_type)])
-- 
2.43.0


From e836fd179762c909e1719af57e9dd4de8b0c26b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:58 +0000
Subject: [PATCH 30/43] fix: inverse kinematics dropped solutions when a joint
 needed two full turns to reach its limits

---
 .../general_robotics_toolbox_invkin.py              | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 74140f3..aebc135 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -65,12 +65,13 @@ class normalize_joints(object):
             u = self._upper_limit[joint]
             
             if not (l < theta and theta < u ):
-                a = 2*np.pi*np.array([-1,1])
-                b = a + theta
-                c = np.argwhere(np.logical_and(l < b,  b < u))
-                if len(c) == 0:
-                    return None                
-                theta += (a[c[0]]).item()
+                #Add the full turns that bring the joint past the violated limit
+                if theta <= l:
+                    theta += 2*np.pi*(np.floor((l - theta)/(2*np.pi)) + 1)
+                else:
+                    theta -= 2*np.pi*(np.floor((theta - u)/(2*np.pi)) + 1)
+                if not (l < theta and theta < u):
+                    return None
         
         if self._use_last_joints:
             diff = self._last_joints[joint] - theta                               
-- 
2.43.0


From ea372dbbd5036572a4ca2137e7a082204dc8931d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:24 +0000
Subject: [PATCH 31/43] fix: equivalent_configurations returned configurations
 outside the limits for a configuration given outside them

---
 .../general_robotics_toolbox_invkin.py                         | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index aebc135..9fbf31c 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -401,6 +401,9 @@ def equivalent_configurations(robot, theta_v, last_joints = None):
     for eq_theta in equiv_theta:
         if any(np.allclose(theta1, eq_theta) for theta1 in theta_v):
             continue
+        if np.any(eq_theta > robot.joint_upper_limit) or np.any(eq_theta < robot.joint_lower_limit):
+            # Another joint of the desired pose is out of range
+            continue
         theta_ret.append(eq_theta)
     
     if last_joints is not None and len(theta_ret) > 0:
-- 
2.43.0


From 04f1f005a8b6d1a4f9c032da65a42ba9e47ac1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:33 +0000
Subject: [PATCH 32/43] fix: subproblems 3 and 4 returned NaN for vectors on
 the axis

---
 .../general_robotics_toolbox.py                 | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index f5700d1..4a268bd 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -808,6 +808,13 @@ def subproblem3(p, q, k, d):
     qp = np.subtract(q,np.dot(np.dot(q, k),k))
     dpsq = d**2 - ((np.dot(k, np.add(p,q)))**2)
     
+    #The distance is the same for every angle if p or q is on the axis
+    if norm(pp)*norm(qp) <= 1e-12*norm(p)*norm(q):
+        if np.abs(np.dot(pp,pp) + np.dot(qp,qp) - dpsq) > 1e-10*(np.dot(p,p) + np.dot(q,q)):
+            warnings.warn("No solution - no rotation can achieve specified distance")
+            return []
+        return [0.0]
+    
     bb=-(np.dot(pp,pp) + np.dot(qp,qp) - dpsq)/(2*norm(pp)*norm(qp))
     
     #Allow for rounding when the distance is exactly at the end of the range
@@ -849,9 +856,17 @@ def subproblem4(p, q, k, d):
     b = -np.matmul(p, np.matmul(hat(k),hat(k).dot(q)))
     c = np.subtract(d, (np.dot(p,q) -b))
     
+    norm = np.linalg.norm
+    
+    #The displacement is the same for every angle if p or q is on the axis
+    if norm([a,b]) <= 1e-12*norm(p)*norm(q):
+        if np.abs(c) > 1e-10*norm(p)*norm(q):
+            return []
+        return [0.0]
+    
     phi = np.arctan2(b, a)
     
-    d = c / np.linalg.norm([a,b])
+    d = c / norm([a,b])
     
     #Allow for rounding when the displacement is exactly at the end of the range
     if np.abs(d) > 1 + 1e-10:
-- 
2.43.0


From b7e38089053ba2325dd0558c607ea3988d4a95ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:01 +0000
Subject: [PATCH 33/43] fix: subproblem3 lost the folded solution of two
 equally long vectors to rounding

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 4a268bd..e4ec128 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -818,7 +818,7 @@ def subproblem3(p, q, k, d):
     bb=-(np.dot(pp,pp) + np.dot(qp,qp) - dpsq)/(2*norm(pp)*norm(qp))
     
     #Allow for rounding when the distance is exactly at the end of the range
-    if dpsq < 0 or np.abs(bb) > 1 + 1e-10:
+    if np.abs(bb) > 1 + 1e-10:
         warnings.warn("No solution - no rotation can achieve specified distance")
         return []
     bb = np.clip(bb, -1, 1)
-- 
2.43.0


From faec2420cb1666771b05c4236fd503fc2213d748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:33 +0000
Subject: [PATCH 34/43] fix: q2rot axis was not a unit vector for small
 rotations

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index e4ec128..54a376b 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -207,10 +207,12 @@ def q2rot(q):
     :rtype:  (numpy.array, number)
     :return: the 3x1 rotation vector and theta    
     """
-    theta = 2 * np.arccos(np.clip(q[0], -1.0, 1.0))
-    if np.linalg.norm(q[1:4]) < 0.5e-6:
+    #arccos(q[0]) is inaccurate for small rotations
+    sin_half_theta = np.linalg.norm(q[1:4])
+    if sin_half_theta < 0.5e-6:
         return np.array([0,0,1]), 0.0
-    k = q[1:4]/np.sin(theta/2.0)
+    theta = 2 * np.arctan2(sin_half_theta, q[0])
+    k = q[1:4]/sin_half_theta
     return k, theta
 
 def rot2q(k, theta):
-- 
2.43.0


From 801069965ebdcd025e1874ee9ace7d8d8ad8031b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:45 +0000
Subject: [PATCH 35/43] fix: link inertia was dropped when the next link of the
 chain has none

---
 src/general_robotics_toolbox/urdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/urdf.py b/src/general_robotics_toolbox/urdf.py
index f3dca87..18678d6 100644
--- a/src/general_robotics_toolbox/urdf.py
+++ b/src/general_robotics_toolbox/urdf.py
@@ -131,7 +131,7 @@ def _robot_from_urdf_robot(urdf_robot, root_link = None, tip_link = None):
                 P[:,i] += np.matmul(R,j.origin.xyz)
             if j.origin.rpy is not None:
                 R = np.matmul(R,_rpy_to_rot(j.origin.rpy))
-        if urdf_robot.link_map[j.child].inertial is not None:
+        if urdf_robot.link_map[j.parent].inertial is not None:
             M[i] = _append_inertia(M[i], _convert_inertial(urdf_robot.link_map[j.parent].inertial,R))
         if j.joint_type == 'fixed':
             pass            
-- 
2.43.0


From ed74ee68dad4f0e06d6be4384ae8e6641aaa48f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:45 +0000
Subject: [PATCH 36/43] fix: negative joint numbers in a robot info file were
 accepted

---
 src/general_robotics_toolbox/robotraconteur.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/robotraconteur.py b/src/general_robotics_toolbox/robotraconteur.py
index 7b1f20e..450e599 100644
--- a/src/general_robotics_toolbox/robotraconteur.py
+++ b/src/general_robotics_toolbox/robotraconteur.py
@@ -97,7 +97,7 @@ def load_robot_info_yaml_to_robot(robot_info_file, chain_number=0):
             raise ValueError(
                 "joint numbers must be increasing in chain number " + str(chain_number))
 
-        if chain["joint_numbers"][i] >= len(robot_yml["joint_info"]):
+        if chain["joint_numbers"][i] < 0 or chain["joint_numbers"][i] >= len(robot_yml["joint_info"]):
             raise ValueError(
                 "joint number out of bounds in chain number " + str(chain_number))
 
-- 
2.43.0


From d1e74d59e68b88e3d6637731cb325e3fd7cdeba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:45 +0000
Subject: [PATCH 37/43] fix: Transform shared its position with the array of
 the caller

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 54a376b..4115ea0 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -481,7 +481,7 @@ class Transform(object):
         assert (np.shape(p) == (3,) or np.shape(p) ==(3,1))
         
         self.R=np.array(R)
-        self.p=np.reshape(p,(3,))
+        self.p=np.reshape(np.array(p),(3,))
         self.parent_frame_id=parent_frame_id
         self.child_frame_id=child_frame_id
         
-- 
2.43.0


From 80bf67a530526d99410e83c0ffab11e746b31b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:45 +0000
Subject: [PATCH 38/43] fix: UR parameters were taken from robots with
 prismatic joints

---
 src/general_robotics_toolbox/tesseract.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index fd07530..d8397de 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -983,6 +983,7 @@ def robot_to_ur_inv_kin_parameters(robot):
     plus_x = np.allclose(robot.H, np.array([ez,ey,ey,ey,-ez,ey]).T)
 
     assert minus_x or plus_x
+    assert np.allclose(robot.joint_type, 0)
 
     # Rotation from the robot as specified to the factory definition
     R = rox.rot(ez,np.pi) if plus_x else np.eye(3)
-- 
2.43.0


From bd84703f2988cc7812a2e820c4f0ab290e90504f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:45 +0000
Subject: [PATCH 39/43] fix: OPW parameters were taken from robots with
 prismatic joints

---
 src/general_robotics_toolbox/tesseract.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index d8397de..1875a52 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -638,6 +638,7 @@ def robot_to_opw_inv_kin_parameters(robot):
     assert np.allclose(robot.T_flange.p.flatten(), np.array([0.,0.,0.]))
 
     assert len(robot.joint_type) == 6
+    assert np.allclose(robot.joint_type, 0)
 
     def axis_sign(_h, _e):
         if np.allclose(_h, _e):
-- 
2.43.0


From 12d0303fdf01d3289ad28433a5822424a4f56875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:02 +0000
Subject: [PATCH 40/43] fix: R2rot gave a wrong axis near half turns when its
 first component is tiny

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 4115ea0..b3939ae 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -111,12 +111,9 @@ def R2rot(R):
             return [0,0,1], 0
         else:
             B = (1.0/2.0) *(R + np.eye(3))
-            k = np.sqrt(np.maximum([B[0,0], B[1,1], B[2,2]], 0.0))
-            if np.abs(k[0]) > 1e-6:
-                k[1] = k[1] * np.sign(B[0,1] / k[0])
-                k[2] = k[2] * np.sign(B[0,2] / k[0])
-            elif np.abs(k[1]) > 1e-6:
-                k[2] = k[2] * np.sign(B[1,2] / k[1])
+            #The signs follow from the column of the largest component, those of small components are lost in the angle
+            i = np.argmax([B[0,0], B[1,1], B[2,2]])
+            k = B[:,i] / np.sqrt(B[i,i])
             return k, np.pi
     
     k = invhat(R1)/(2.0*sin_theta)    
-- 
2.43.0


From 2e05953252341cd230e9bde9b9f4b92fb87cc922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:25 +0000
Subject: [PATCH 41/43] fix: ur_invkin did not answer reachable poses with a
 singular wrist

Joint 4 is free there, and the one angle that was tried may be out of the
elbow's reach.
---
 .../general_robotics_toolbox_invkin.py                   | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 9fbf31c..9bd9d0e 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -291,6 +291,15 @@ def ur_invkin(robot, desired_pose, last_joints = None):
 
         Q24_Q5 = rox.subproblem2(p4, v4, H[:,3], H[:,4])
 
+        if np.linalg.norm(np.cross(v4, H[:,3])) < 1e-7:
+            # The wrist is singular and joint 4 is free. Add angles of joint 4 which the elbow can reach.
+            p14 = np.matmul(R01.T, p04 - P[:,0]) - P[:,1]
+            l14, l4, l2, l3 = [np.linalg.norm(np.cross(p, H[:,3])) for p in (p14, P[:,4], P[:,2], P[:,3])]
+            d24 = 0.5*(max(abs(l14 - l4), abs(l2 - l3)) + min(l14 + l4, l2 + l3))
+            d24 = np.hypot(d24, np.dot(H[:,3], p14 - P[:,4]))
+            Q24 = rox.subproblem3(P[:,4], -p14, H[:,3], d24)
+            Q24_Q5 = Q24_Q5 + [(q24, q5) for _, q5 in Q24_Q5 for q24 in Q24]
+
         for q24, q5 in Q24_Q5:
             q5 = normalize(4, [q5])
             if len(q5) == 0:
-- 
2.43.0


From 13ae9f7c37af7c4d82f29de686192f5bde14aae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:48 +0000
Subject: [PATCH 42/43] fix: equivalent_configurations truncated turns of
 integer configurations

---
 src/general_robotics_toolbox/general_robotics_toolbox_invkin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 9bd9d0e..6e6440e 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -375,6 +375,7 @@ def equivalent_configurations(robot, theta_v, last_joints = None):
     
     equiv_theta = []
     for theta1 in theta_v:
+        theta1 = np.array(theta1, dtype=np.float64)
         equiv_theta1 = []
         upper_div, _ = np.divmod(robot.joint_upper_limit - theta1, 2*np.pi)
         lower_div, _ = np.divmod(theta1 - robot.joint_lower_limit, 2*np.pi)
-- 
2.43.0


From 8463a988da7d75c9c1503f8c649a6bebe6556195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:48 +0000
Subject: [PATCH 43/43] fix: OPW parameters of robots with integer link vectors
 were truncated

---
 src/general_robotics_toolbox/tesseract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index 1875a52..3a623d9 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -662,8 +662,8 @@ def robot_to_opw_inv_kin_parameters(robot):
     else:
         assert np.allclose(robot.T_flange.R, np.eye(3))
 
-    H2 = np.copy(robot.H)
-    P2 = np.copy(robot.P)
+    H2 = np.array(robot.H, dtype=np.float64)
+    P2 = np.array(robot.P, dtype=np.float64)
 
     offset = np.zeros((6,))
     
-- 
2.43.0

