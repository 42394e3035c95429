"""Planted bugs (source of seeded/): plant.py builds and confirms them in a scratch copy."""
GRT = 'general_robotics_toolbox.py'
INV = 'general_robotics_toolbox_invkin.py'
URD = 'urdf.py'
RR = 'robotraconteur.py'
MSG = 'ros_msg.py'
TF = 'ros_tf.py'
TES = 'tesseract.py'
B = []


def bug(id, prop, edits, demo, needs, breaks):
    B.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


bug('c07a', 'C07', [(GRT, "if (np.dot(q0,q1) < 0):", "if (np.dot(q0,q1) < -0.5):")], '''
a = 2 * np.deg2rad(100)
q0, q1 = rot2q(np.array([0, 0, 1.]), 0.), rot2q(np.array([0, 0, 1.]), a)
q = slerp(q0, q1, 0.5)
k, th = q2rot(q)
ang = R2rot(q2R(q))[1]
assert ang < np.pi / 2, ang
''', 'two orientations more than 180 but less than 240 degrees of rotation apart as given', 'interpolation takes the longer arc')
bug('c09a', 'C09', [(GRT, "return Transform(R,p,self.parent_frame_id, other.child_frame_id)", "return Transform(R,p,self.parent_frame_id or other.parent_frame_id, other.child_frame_id)")], '''
A = Transform(np.eye(3), np.zeros(3), None, None)
Bt = Transform(np.eye(3), np.ones(3), 'mid', 'tool')
assert (A * Bt).parent_frame_id is None
''', 'a first factor without frame names', 'composition claims the wrong parent frame')
bug('c14a', 'C14', [(GRT, '''    if not _ignore_limits:
        if (robot.joint_lower_limit is not None and robot.joint_upper_limit is not None):
            assert np.greater_equal(np.ravel(theta), robot.joint_lower_limit).all(), "Specified joints out of range"
            assert np.less_equal(np.ravel(theta), robot.joint_upper_limit).all(), "Specified joints out of range"
    hi =''', '''    if not _ignore_limits:
        if (robot.joint_lower_limit is not None and robot.joint_upper_limit is not None and np.all(robot.joint_upper_limit > robot.joint_lower_limit)):
            assert np.greater_equal(np.ravel(theta), robot.joint_lower_limit).all(), "Specified joints out of range"
            assert np.less_equal(np.ravel(theta), robot.joint_upper_limit).all(), "Specified joints out of range"
    hi =''')], '''
H = np.array([[0, 0], [0, 1], [1, 0.]]); P = np.zeros((3, 3))
r = Robot(H, P, [0, 0], joint_lower_limit=np.array([-1., 0]), joint_upper_limit=np.array([1., 0]))
try:
    robotjacobian(r, np.array([0.5, 1.5]))
except AssertionError:
    pass
else:
    raise SystemExit('accepted a joint out of range')
''', 'a locked joint (equal limits)', 'the Jacobian accepts joints out of range')
bug('c17a', 'C17', [(GRT, "if (np.abs( 1 - k12**2) < eps):", "if (np.abs( 1 - k12**2) < 0.02):")], '''
k1 = np.array([0, 0, 1.]); k2 = rot([1, 0, 0], 0.12).dot(k1)
p = np.array([1., .2, .1]); q = rot(k1, 0.5).dot(rot(k2, 0.4)).dot(p)
assert len(subproblem2(p, q, k1, k2)) > 0
''', 'axes less than about 8 degrees from parallel', 'solvable instances are reported unsolvable')
bug('c22a', 'C22', [(INV, "    d1 = np.dot(ey, P[:,1] + P[:,2] + P[:,3] + P[:,4])\n    p04", "    d1 = np.dot(ey, P[:,1] + P[:,2] + P[:,3])\n    p04")], '''
ex, ey, ez = np.eye(3)
H = np.array([ez, ey, ey, ey, -ez, ey]).T
P = np.array([[0, 0, .1], [0, 0.02, .09], [-.43, 0, 0], [-.39, .01, 0], [0, -.11, -.09], [0, 0, 0], [0, -.08, 0]]).T
r = Robot(H, P, [0] * 6)
q = np.array([.3, -1.2, 1.4, -.5, .6, .7])
s = ur_invkin(r, fwdkin(r, q))
assert any(np.allclose(np.cos(x - q), 1, atol=1e-8) for x in s), s
''', 'an offset along y on the fourth link', 'solutions of other poses are returned')
bug('c23b', 'C23', [(INV, '''                q6 = rox.subproblem1(p6, v6, H[:,5])
                
                q6 = normalize(5, [q6])
                if len(q6) == 0:
                    continue
                q6 = q6[0]
                
                theta_v.append(np.array([q1, q2, q3, q4, q5, q6]))                        
''', '''                q6 = rox.subproblem1(p6, v6, H[:,5])
                
                q6 = normalize(5, [q6])
                if len(q6) == 0:
                    break
                q6 = q6[0]
                
                theta_v.append(np.array([q1, q2, q3, q4, q5, q6]))                        
''')], '''
ex, ey, ez = np.eye(3)
H = np.array([ez, ey, ey, ex, ey, ex]).T
P = np.array([[0, 0, .1], [.2, 0, .3], [0, 0, .5], [.6, 0, .1], [0, 0, 0], [0, 0, 0], [.1, 0, 0.02]]).T
lim = np.array([7.] * 5 + [1.0])
r = Robot(H, P, [0] * 6, joint_lower_limit=-lim, joint_upper_limit=lim)
rng = np.random.RandomState(1)
for _ in range(60):
    q = rng.uniform(-1, 1, 6) * np.array([3, 1, 1, 3, 1, .9])
    q[3] = rng.uniform(-3, 3)
    s = robot6_sphericalwrist_invkin(r, fwdkin(r, q))
    assert any(np.allclose(np.cos(x - q), 1, atol=1e-8) for x in s), (q, s)
''', 'limits on the last joint that exclude the first wrist solution but not the second', 'a configuration inside the limits is not returned')
bug('c23c', 'C23', [(INV, '''                theta_v.append(np.array([q1, q2, q3, q4, q5, q6]))   

    if last_joints is not None and len(theta_v) > 0:
        theta_dist = np.linalg.norm(np.subtract(theta_v,last_joints), axis=1)''', '''                theta_v.append(np.array([q1, q2, q3, q4, q5, q6]))   

    if last_joints is not None and len(theta_v) > 0:
        theta_dist = np.linalg.norm(np.subtract(theta_v,last_joints)[:,:5], axis=1)''')], '''
ex, ey, ez = np.eye(3)
H = np.array([ez, -ey, -ey, -ey, -ez, -ey]).T
P = np.array([[0, 0, 0], [0, 0, .09], [-.43, 0, 0], [-.39, 0, 0], [0, -.11, -.09], [0, 0, 0], [0, -.08, 0]]).T
r = Robot(H, P, [0] * 6)
rng = np.random.RandomState(1)
for _ in range(60):
    q = rng.uniform(-3, 3, 6)
    last = rng.uniform(-3, 3, 6)
    s = ur_invkin(r, fwdkin(r, q), last)
    d = [np.linalg.norm(x - last) for x in s]
    assert all(a <= b + 1e-9 for a, b in zip(d, d[1:])), d
''', 'solutions whose order is decided by the last joint', 'answers are not ordered by distance to the last positions')
bug('c05a', 'C05', [(GRT, "return np.concatenate(([np.cos(theta/2.0)], k.reshape((3,))*np.sin(theta/2.0)))", "return np.concatenate(([np.cos(theta/2.0)], k.reshape((3,))*np.sqrt(max(1.0 - np.cos(theta/2.0)**2, 0.0))))")], '''
q = rot2q(np.array([0, 0, 1.]), -0.5)
assert np.allclose(q, [np.cos(.25), 0, 0, -np.sin(.25)]), q
''', 'a negative angle', 'the quaternion of the opposite rotation')
bug('c11a', 'C11', [(GRT, "            assert (len(joint_acc_limit) == len(joint_type))\n", "            assert (len(joint_acc_limit) >= len(joint_type))\n")], '''
try:
    Robot(np.array([[0, 0], [0, 1], [1, 0.]]), np.zeros((3, 3)), [0, 0], joint_acc_limit=np.array([1., 2, 3]))
except AssertionError:
    pass
else:
    raise SystemExit('accepted three acceleration limits for two joints')
''', 'too many acceleration limits', 'an inconsistent robot description is accepted')

# ---------------------------------------------------------------- rotations
bug('c01b', 'C01', [(GRT, "    khat=np.zeros((3,3))\n", "    k=np.round(k, 12)\n    khat=np.zeros((3,3))\n    if abs(k[0]) < 1e-5: k[0] = 0.\n")], '''
k = np.array([8e-6, .6, np.sqrt(1 - .36 - 64e-12)])
assert np.abs(rot(k, 1.) @ k - k).max() < 1e-9
''', 'an axis almost but not quite in the y-z plane', 'the axis is altered')
bug('c02a', 'C02', [(GRT, "    if sin_theta < 1e-6:", "    if sin_theta < 1e-4:")], '''
k = np.array([.6, 0, .8])
k1, t = R2rot(rot(k, np.pi - 5e-5))
assert np.abs(rot(k1, t) - rot(k, np.pi - 5e-5)).max() < 1e-6
''', 'an angle within 1e-4 of 0 or pi', 'the rotation is rounded to none or to a half turn')
bug('c02b', 'C02', [(GRT, "        if (cos_theta > 0):", "        if (cos_theta > -1.0 + 1e-13):")], '''
R = rot(np.array([0, .6, -.8]), np.pi - 8e-7)
k, t = R2rot(R)
assert np.allclose(rot(k, t), R, atol=1e-5)
''', 'an angle that is less than a microradian short of half a turn, but not half a turn', 'the rotation is rounded to none')
bug('c03a', 'C03', [(GRT, "    elif (R[1,1] > R[2,2]):", "    elif (R[1,1] > R[2,2] and R[0,2] >= R[2,0]):")], '''
q = np.array([0., 0, 1, 0])
q = np.array([-.1, .1, .98, .01]); q = q / np.linalg.norm(q)
assert np.allclose(q2R(R2q(q2R(q))), q2R(q), atol=1e-9)
q = np.array([-.1, .0, 1, 0]); q = q / np.linalg.norm(q)
x = R2q(q2R(q))
assert np.all(np.isfinite(x)) and np.allclose(q2R(x), q2R(q), atol=1e-9)
''', 'nearly a half turn about y in the negative sense with no z component', 'division by zero')
bug('c06a', 'C06', [(GRT, "    r=np.arctan2(R[2,1],R[2,2])", "    r=np.arctan2(R[2,1],R[2,2]) if abs(R[2,2]) > 1e-3 else np.pi/2")], '''
x = (-np.pi / 2, .3, .2)
assert np.allclose(R2rpy(rpy2R(x)), x)
''', 'roll of -90 degrees', 'wrong sign of roll')
bug('c08a', 'C08', [(GRT, "    G[0:3,3:6] = hat(r)\n", "    if np.linalg.norm(r) > 1e-3: G[0:3,3:6] = hat(r)\n")], '''
assert np.allclose(screw_matrix(np.array([4e-4, 0, 0]))[1, 5] + 4e-4, 0, atol=1e-9)
''', 'a displacement shorter than a millimetre', 'the shift is dropped')
bug('c10a', 'C10', [(GRT, "            and np.all(np.isclose(self.p, other.p, atol=tol))", "            and np.isclose(np.linalg.norm(self.p - other.p), 0, atol=tol*10)")], '''
a = Transform(np.eye(3), np.zeros(3)); b = Transform(np.eye(3), np.array([3e-6, 0, 0]))
assert not a.isclose(b)
''', 'a position difference of a few tolerances', 'reported close')
bug('c10b', 'C10', [(GRT, "            and np.all(np.isclose(self.p, other.p, 1e-6))", "            and np.isclose(np.sum(self.p), np.sum(other.p), 1e-6)")], '''
assert not (Transform(np.eye(3), np.array([1., 2, 3])) == Transform(np.eye(3), np.array([2., 1, 3])))
''', 'positions with equal sum', 'unequal transforms compare equal')
bug('c09b', 'C09', [(GRT, "        return Transform(R,p,self.child_frame_id, self.parent_frame_id)", "        return Transform(R,p,self.child_frame_id, self.parent_frame_id) if self.child_frame_id is not None else Transform(R,p,None,None)")], '''
assert Transform(np.eye(3), np.zeros(3), 'a', None).inv().child_frame_id == 'a'
''', 'a transform with a parent name only', 'the inverse loses the name')
# ---------------------------------------------------------------- kinematics
bug('c12a', 'C12', [(GRT, '''            p = p + theta[i] * np.matmul(R,robot.H[:,[i]])
        p = p + np.matmul(R,robot.P[:,[i+1]])''', '''            p = p + theta[i] * (np.matmul(R,robot.H[:,[i]]) if i < 6 else robot.H[:,[i]])
        p = p + np.matmul(R,robot.P[:,[i+1]])''')], '''
H = np.array([[0, 0, 1.]] * 7).T; H[:, 6] = [1, 0, 0]
r = Robot(H, np.zeros((3, 8)), [0] * 6 + [1])
assert np.allclose(fwdkin(r, [.5, 0, 0, 0, 0, 0, 1.]).p, [np.cos(.5), np.sin(.5), 0])
''', 'a robot whose seventh joint is prismatic', 'the slide is not turned with the arm')
bug('c12b', 'C12', [(GRT, '''    p = robot.P[:,[0]]
    R = np.identity(3)
    for i''', '''    key = tuple(np.ravel(theta))
    last = getattr(robot, '_fk_last', None)
    if last is not None and last[0] == key and last[2] is robot.P:
        return last[1]
    p = robot.P[:,[0]]
    R = np.identity(3)
    for i'''), (GRT, '''    p=np.reshape(p,(3,))
    return apply_robot_aux_transforms(robot,Transform(R, p))''', '''    p=np.reshape(p,(3,))
    T = apply_robot_aux_transforms(robot,Transform(R, p))
    robot._fk_last = (key, T, robot.P)
    return T''')], '''
r = Robot(np.array([[0, 0, 1.]]).T, np.zeros((3, 2)), [0])
a = fwdkin(r, [.3])
r.R_tool = np.eye(3); r.p_tool = np.array([1., 0, 0])
assert np.allclose(fwdkin(r, [.3]).p, [np.cos(.3), np.sin(.3), 0])
''', 'the tool is changed between two calls with the same joints', 'a stale pose is returned')
bug('c26a', 'C26', [(GRT, "    p = robot.P[:,[0]]\n    R = np.identity(3)\n    pOi[:,[0]] = p\n", "    p = robot.P[:,0:1]\n    R = np.identity(3)\n    pOi[:,[0]] = p\n"),
                    (GRT, "            p = p + theta[i] * np.matmul(R,H[:,[i]])\n        p = p + np.matmul(R,P[:,[i+1]])\n        pOi", "            p += theta[i] * np.matmul(R,H[:,[i]])\n        p = p + np.matmul(R,P[:,[i+1]])\n        pOi")], '''
r = Robot(np.array([[0, 0, 1.]]).T, np.zeros((3, 2)), [1])
robotjacobian(r, [2.])
assert np.allclose(r.P, 0)
''', 'a robot whose first joint is prismatic', 'the Jacobian changes the robot')
# ---------------------------------------------------------------- subproblems
bug('c16a', 'C16', [(GRT, "    if norm (np.subtract(p, q)) < np.sqrt(eps):", "    if norm (np.subtract(p, q)) < 1e-4*norm(p):")], '''
p = np.array([1., 0, 0]); k = np.array([0, 0, 1.])
assert abs(subproblem1(p, rot(k, 5e-5) @ p, k) - 5e-5) < 1e-8
''', 'an angle below 1e-4', 'returned as zero')
bug('c16b', 'C16', [(GRT, "    theta = 2 * np.arctan2( norm(ep - eq), norm (ep + eq))", "    theta = np.arccos(np.clip(np.dot(ep, eq), -1, 1))"), (GRT, "    if (np.dot(k,np.cross(p , q)) < 0):", "    if (np.dot(k,np.cross(p , q)) < -1e-4*norm(p)*norm(q)):")], '''
p = np.array([1., 0, 0]); k = np.array([0, 0, 1.])
assert abs(subproblem0(p, rot(k, -5e-5) @ p, k) + 5e-5) < 1e-7
''', 'a small negative angle', 'wrong sign')
bug('c18a', 'C18', [(GRT, "    dpsq = d**2 - ((np.dot(k, np.add(p,q)))**2)", "    dpsq = d**2 - np.dot(k,p)**2 - np.dot(k,q)**2 - 2*np.abs(np.dot(k,p)*np.dot(k,q))")], '''
k = np.array([0, 0, 1.]); p = np.array([1., 0, .3]); q = np.array([1., .5, -.2])
d = np.linalg.norm(q + rot(k, .4) @ p)
assert any(abs(x - .4) < 1e-7 for x in subproblem3(p, q, k, d))
''', 'vectors on opposite sides of the plane normal to the axis', 'wrong angles')
bug('c19a', 'C19', [(GRT, "    c = np.subtract(d, (np.dot(p,q) -b))", "    c = np.subtract(d, (np.dot(p,q) - b) if np.dot(k,p)*np.dot(k,q) >= 0 else 0)")], '''
k = np.array([0, 0, 1.]); p = np.array([1., 0, .3]); q = np.array([.2, 1, -.2])
d = p @ rot(k, .4) @ q
assert any(abs(np.exp(1j * (x - .4)) - 1) < 1e-7 for x in subproblem4(p, q, k, d))
''', 'vectors on opposite sides of the plane normal to the axis', 'wrong angles')
bug('c01c', 'C01', [(GRT, "    return np.array([(-khat[1,2] + khat[2,1]),(khat[0,2] - khat[2,0]),(-khat[0,1]+khat[1,0])])/2", "    v = np.array([(-khat[1,2] + khat[2,1]),(khat[0,2] - khat[2,0]),(-khat[0,1]+khat[1,0])])/2\n    n = np.linalg.norm(v)\n    return v/n if abs(n - 1) < 1e-3 else v")], '''
v = np.array([1.0005, 0, 0])
assert np.allclose(invhat(hat(v)), v, rtol=0, atol=1e-9)
''', 'a vector of length close to but not equal to one', 'the vector is normalized')
bug('c13c', 'C13', [(GRT, "            J[3:6,[j]] = hi[:,[i]]\n        elif (joint_type[i] == 3):", "            J[3:6,[j]] = hi[:,[i]]*(1 if robot.T_flange is None or i < 2 else np.linalg.norm(robot.T_flange.R[0,:2])**0.5)\n        elif (joint_type[i] == 3):")], '''
r = Robot(np.array([[0, 0, 1.]] * 3).T, np.zeros((3, 4)), [0, 0, 1], T_flange=Transform(rot([0, 1, 0], .4), np.zeros(3)))
assert np.allclose(robotjacobian(r, [0., 0, 0])[3:, 2], [0, 0, 1])
''', 'a slide as third or later joint and a tilted flange', 'its column is scaled')
bug('c13d', 'C13', [(GRT, "        pOT += np.matmul(np.matmul(R,R_flange),np.reshape(robot.p_tool,(3,1)))", "        pOT += np.matmul(np.matmul(R,R_flange),np.reshape(robot.p_tool,(3,1)))*(np.abs(robot.p_tool).max() < 10)")], '''
r = Robot(np.array([[0, 0, 1.]]).T, np.zeros((3, 2)), [0], R_tool=np.eye(3), p_tool=np.array([12., 0, 0]))
assert np.allclose(robotjacobian(r, [0.])[3:, 0], [0, 12, 0])
''', 'a tool longer than ten units', 'the tool is ignored')
# ---------------------------------------------------------------- second round
bug('c04a', 'C04', [(GRT, "    J[1:4,:] = 0.5 * (q[0]*I - hat(q[1:4]))", "    J[1:4,:] = 0.5 * (np.abs(q[0])*I - hat(q[1:4]))")], '''
q = np.array([-.5, .5, .5, .5])
assert np.allclose(quatjacobian(q)[1:, :], .5 * (q[0] * np.eye(3) - hat(q[1:])))
''', 'a quaternion with negative scalar part', 'the rate of its vector part is wrong')
bug('c07b', 'C07', [(GRT, "    if (np.abs(theta) < 1e-6):", "    if (np.abs(theta) < 1e-3):")], '''
a, b = rot2q(np.array([0, 0, 1.]), 0.), rot2q(np.array([0, 0, 1.]), 1e-3)
assert abs(slerp(a, b, 1.)[3] - b[3]) < 1e-9
''', 'orientations closer than 2e-3', 'the start is returned for every fraction')
bug('c11b', 'C11', [(GRT, "            assert (len(joint_lower_limit) == len(joint_type))", "            assert (len(joint_lower_limit) == len(joint_upper_limit))"),
                    (GRT, "            assert (len(joint_upper_limit) == len(joint_type))", "            assert (len(joint_upper_limit) >= len(joint_type))")], '''
try:
    Robot(np.array([[0, 0, 1.]]).T, np.zeros((3, 2)), [0], np.zeros(2), np.ones(2))
except AssertionError:
    pass
else:
    assert False
''', 'both limits one entry too long', 'accepted')
bug('c11c', 'C11', [(GRT, "            assert (np.isclose(np.linalg.norm(H[:,i]), 1))", "            assert (joint_type[i] == 1 or np.isclose(np.linalg.norm(H[:,i]), 1))")], '''
try:
    Robot(np.array([[0, 0, 1.5]]).T, np.zeros((3, 2)), [1])
except AssertionError:
    pass
else:
    assert False
''', 'a slide with an axis that is not a unit vector', 'accepted')
bug('c11d', 'C11', [(GRT, "            assert (j in [0,1,2,3])", "            assert (int(j) in [0,1,2,3])")], '''
try:
    Robot(np.array([[0, 0, 1.]]).T, np.zeros((3, 2)), [0.5])
except AssertionError:
    pass
else:
    assert False
''', 'a joint type that is not whole', 'accepted')
bug('c15b', 'C15', [(GRT, "    if robot.T_base is not None:\n        T_ret = robot.T_base.inv() * T_ret", "    if robot.T_base is not None and np.any(robot.T_base.p):\n        T_ret = robot.T_base.inv() * T_ret")], '''
r = Robot(np.array([[0, 0, 1.]]).T, np.zeros((3, 2)), [0], T_base=Transform(rot([0, 1, 0], .4), np.zeros(3)))
T = unapply_robot_aux_transforms(r, apply_robot_aux_transforms(r, identity_transform()))
assert np.allclose(T.R, np.eye(3))
''', 'a base that is only turned', 'not removed')
bug('c15c', 'C15', [(GRT, "    if robot.R_tool is not None and robot.p_tool is not None:\n        T_ret = T_ret * Transform(robot.R_tool, robot.p_tool)\n    if robot.T_base", "    if robot.p_tool is not None:\n        T_ret = T_ret * Transform(robot.R_tool if robot.R_tool is not None else np.eye(3), robot.p_tool)\n    if robot.T_base")], '''
r = Robot(np.array([[0, 0, 1.]]).T, np.zeros((3, 2)), [0])
r.p_tool = np.array([1., 0, 0])
T = unapply_robot_aux_transforms(r, apply_robot_aux_transforms(r, identity_transform()))
assert np.allclose(T.p, 0)
''', 'a tool position without orientation', 'applied but not removed')
bug('c20a', 'C20', [(INV, "        P[:,6] += P[:,5]", "        P[:,6] += np.abs(P5_d)*H[:,5]")], '''
ex, ey, ez = np.eye(3)
P = np.array([[0, 0, .5], [.2, 0, 0], [0, 0, .6], [.7, 0, .1], [0, 0, 0], [-.05, 0, 0], [.3, 0, 0]]).T
r = Robot(np.array([ez, ey, ey, ex, ey, ex]).T, P, [0] * 6)
q = np.array([.3, .2, -.4, .5, .6, .7])
T = fwdkin(r, q)
for s in robot6_sphericalwrist_invkin(r, T):
    assert fwdkin(r, s).isclose(T, 1e-6)
''', 'a link offset before the last joint pointing against its axis', 'the configurations have another pose')
bug('c24a', 'C24', [(INV, "                # Only do this on revolute joints!\n                continue", "                # Only do this on revolute joints!\n                break")], '''
r = Robot(np.array([[0, 0, 1.], [0, 0, 1]]).T, np.zeros((3, 3)), [1, 0], np.array([-9., -9]), np.array([9., 9]))
assert len(equivalent_configurations(r, [np.array([.1, .2])])) == 2
''', 'a slide with long travel before a turning joint', 'turns of the later joint are not reported')
bug('c24b', 'C24', [(INV, "            for j in range(int(upper_div[ind])):", "            for j in range(min(int(upper_div[ind]), 2)):")], '''
r = Robot(np.array([[0, 0, 1.]]).T, np.zeros((3, 2)), [0], np.array([-1.]), np.array([20.]))
assert len(equivalent_configurations(r, [np.array([.1])])) == 3
''', 'a joint with three turns available above', 'the third is not reported')
bug('c24c', 'C24', [(INV, "        div_where = np.logical_or(upper_div > 0, lower_div > 0).nonzero()[0]", "        div_where = (upper_div + lower_div > 0).nonzero()[0]")], '''
r = Robot(np.array([[0, 0, 1.]]).T, np.zeros((3, 2)), [0], np.array([-3.]), np.array([3.]))
assert len(equivalent_configurations(r, [np.array([4.])])) == 1
''', 'a given configuration above the upper limit with exactly one variant inside', 'it is left out')
bug('c25a', 'C25', [(INV, "        converged = (np.abs(np.hstack((s,EP))) < tol).all()", "        converged = (np.abs(np.hstack((s,vd))) < tol).all()")], '''
r = Robot(np.array([[1., 0, 0]]).T, np.zeros((3, 2)), [1])
ok, s = iterative_invkin(r, Transform(np.eye(3), np.zeros(3)), [3e-3], tol=1e-3)
assert not ok or abs(s[0][0]) <= 1.001e-3, s
''', 'an error between the tolerance and the tolerance over the gain', 'convergence is reported too early')
bug('c25b', 'C25', [(INV, "        s = np.sin(theta/2) * np.array(k)         #eR2", "        s = np.sin(theta)/2 * np.array(k)         #eR2")], '''
r = Robot(np.array([[0, 0, 1.]]).T, np.zeros((3, 2)), [0])
ok, s = iterative_invkin(r, Transform(rot([0, 0, 1], np.pi), np.zeros(3)), [0.], max_steps=3)
assert not ok
''', 'an orientation error of half a turn', 'reported as converged')
bug('c25c', 'C25', [(INV, "        EP = np.matmul(R_cur.T,(p_cur - p_d))", "        EP = np.matmul(R_cur.T,(p_cur - p_d)) if robot.T_base is None else np.matmul(R_cur.T,(p_cur - p_d)) - 1e-3*np.matmul(R_cur.T, robot.T_base.p)")], '''
r = Robot(np.array([[1., 0, 0]]).T, np.zeros((3, 2)), [1], T_base=Transform(np.eye(3), np.array([1., 0, 0])))
T = fwdkin(r, [.2])
ok, s = iterative_invkin(r, T, [.2])
assert ok and np.linalg.norm(fwdkin(r, s[0]).p - T.p) < 2e-4
''', 'a robot with a displaced base', 'converges beside the pose')
bug('c26b', 'C26', [(GRT, "        T_ret = robot.T_base.inv() * T_ret", "        T_b = robot.T_base.inv()\n        T_ret.p = T_b.p + np.matmul(T_b.R, T_ret.p)\n        T_ret.R = np.matmul(T_b.R, T_ret.R)")], '''
ex, ey, ez = np.eye(3)
P = np.array([[0, 0, .5], [.2, 0, 0], [0, 0, .6], [.7, 0, .1], [0, 0, 0], [0, 0, 0], [.3, 0, 0]]).T
r = Robot(np.array([ez, ey, ey, ex, ey, ex]).T, P, [0] * 6, T_base=Transform(np.eye(3), np.array([1., 0, 0])))
T = fwdkin(r, np.array([.3, .2, -.4, .5, .6, .7]))
p = T.p.copy()
robot6_sphericalwrist_invkin(r, T)
assert np.allclose(T.p, p)
''', 'inverse kinematics of a robot with a base but no tool or flange', 'the desired pose is overwritten')
YML = '''
from general_robotics_toolbox import robotraconteur as rr
import copy
def V(x, y, z):
    return dict(x=x, y=y, z=z)
def J(n, **k):
    l = dict(lower=-1., upper=1., velocity=2., acceleration=3.)
    l.update(k)
    return dict(joint_identifier=dict(name=n), joint_type=k.get('t', 'revolute'), joint_limits=l)
PO = dict(orientation=dict(w=1., x=0., y=0., z=0.), position=V(0., 0., 0.))
def C(nums, **k):
    c = dict(joint_numbers=nums, H=[V(0., 0., 1.)] * len(nums), P=[V(.1, 0., 0.)] * (len(nums) + 1), link_identifiers=[dict(name='base')], flange_identifier=dict(name='fl'), flange_pose=PO)
    c.update(k)
    return c
'''
bug('c28a', 'C28', [(RR, '        joint_upper_limit[i] = j["joint_limits"]["upper"]', '        joint_upper_limit[i] = abs(j["joint_limits"]["upper"])')], YML + '''
r = rr.load_robot_info_yaml_to_robot(dict(joint_info=[J('a', lower=-2., upper=-1.)], chains=[C([0])]))
assert r.joint_upper_limit[0] == -1
''', 'a joint whose upper limit is negative', 'its sign is lost')
bug('c28b', 'C28', [(RR, '            joint_names[i] = _identifier_name(j["joint_identifier"])', '            joint_names[i] = _identifier_name(robot_yml["joint_info"][i]["joint_identifier"])')], YML + '''
r = rr.load_robot_info_yaml_to_robot(dict(joint_info=[J('a'), J('b')], chains=[C([1])]))
assert r.joint_names == ['b']
''', 'a chain that does not start with the first joint', 'the names are those of other joints')
bug('c28c', 'C28', [(RR, '    robot = load_robot_info_yaml_to_robot(robot_info_file, robot_chain_number)', '    robot = load_robot_info_yaml_to_robot(robot_info_file)')], YML + '''
r = rr.load_robot_and_tool_info_yaml_to_robot(dict(joint_info=[J('a'), J('b')], chains=[C([0]), C([1])]), dict(tcp=PO, device_info=dict(device=dict(name='t'))), 1)
assert r.joint_names == ['b']
''', 'a tool for the second chain', 'loaded onto the first')
bug('c28d', 'C28', [(RR, '        joint_acc_limit[i] = j["joint_limits"]["acceleration"]', '        joint_acc_limit[i] = robot_yml["joint_info"][i]["joint_limits"]["acceleration"]')], YML + '''
a, b = J('a'), J('b')
b["joint_limits"]["acceleration"] = 77.
r = rr.load_robot_info_yaml_to_robot(dict(joint_info=[a, b], chains=[C([1])]))
assert r.joint_acc_limit[0] == 77
''', 'a chain that does not begin with the first joint of the description', 'the acceleration limit of another joint')
bug('c28e', 'C28', [(RR, "    robot.p_tool = p_tool\n", "    robot.p_tool = p_tool if robot.p_tool is None else robot.p_tool + p_tool\n")], YML + '''
t = dict(tcp=dict(orientation=dict(w=1., x=0., y=0., z=0.), position=V(1., 0., 0.)))
d = dict(tcp=dict(orientation=dict(w=1., x=0., y=0., z=0.), position=V(0., 1., 0.)), device_info=dict(device='g'))
r = rr.load_robot_and_tool_info_yaml_to_robot(dict(joint_info=[J('a')], chains=[C([0], current_tool=t)]), d)
assert np.allclose(r.p_tool, [0, 1, 0])
''', 'a description that already mounts a tool', 'the positions of the two tools add up')
URDF = '''
from general_robotics_toolbox import urdf
def X(joints, links):
    return '<robot name="r">' + ''.join('<link name="%s"/>' % l for l in links) + ''.join(joints) + '</robot>'
def J(n, t, a, b, extra='', xyz='0 0 0', rpy='0 0 0', axis='0 0 1', lim='lower="-1" upper="1" effort="5" velocity="2"'):
    return '<joint name="%s" type="%s"><parent link="%s"/><child link="%s"/><origin xyz="%s" rpy="%s"/><axis xyz="%s"/>%s</joint>' % (n, t, a, b, xyz, rpy, axis, '' if t == 'fixed' else '<limit %s/>' % lim)
'''
bug('c30a', 'C30', [(URD, "            if j.origin.rpy is not None:\n                R = np.matmul(R,_rpy_to_rot(j.origin.rpy))", "            if j.origin.rpy is not None and np.max(np.abs(j.origin.rpy)) > 1e-3:\n                R = np.matmul(R,_rpy_to_rot(j.origin.rpy))")], URDF + '''
r = urdf.robot_from_xml_string(X([J('a', 'revolute', 'w', 'x', rpy='0 0.0009 0')], ['w', 'x']))
assert abs(r.H[0, 0] - np.sin(.0009)) < 1e-7
''', 'a joint origin turned by less than 1e-3', 'not turned')
bug('c30b', 'C30', [(URD, "    if np.allclose(np.zeros((3,3)), R, atol=1e-5):", "    if np.allclose(np.eye(3), R, atol=1e-2):")], URDF + '''
r = urdf.robot_from_xml_string(X([J('a', 'revolute', 'w', 'x'), J('b', 'fixed', 'x', 'y', rpy='0 0.009 0')], ['w', 'x', 'y']))
assert abs(fwdkin(r, [0.]).R[0, 2] - np.sin(.009)) < 1e-7
''', 'a tip turned by less than 1e-2', 'its orientation is dropped')
bug('c30c', 'C30', [(URD, "            if j.origin.rpy is not None:\n", "            if j.origin.rpy is not None and not np.allclose(j.origin.rpy, 0.0, atol=1e-3):\n")], URDF + '''
r = urdf.robot_from_xml_string(X([J('a', 'revolute', 'w', 'x', rpy='0 0.0005 0')], ['w', 'x']))
assert abs(r.H[0, 0] - np.sin(.0005)) < 1e-9
''', 'a joint origin turned by less than a milliradian', 'the rotation is left out')
bug('c31a', 'C31', [(URD, "                joint_vel_limit[i] = j.limit.velocity", "                joint_vel_limit[i] = j.limit.velocity if j.joint_type == 'revolute' else j.limit.effort")], URDF + '''
r = urdf.robot_from_xml_string(X([J('a', 'prismatic', 'w', 'x')], ['w', 'x']))
assert r.joint_vel_limit[0] == 2
''', 'a slide', 'its velocity limit is its effort limit')
bug('c31b', 'C31', [(URD, '        assert len(tip_links) == 1, "Multiple', '        assert len(set(len(c) for c in valid_chains)) == 1, "Multiple')], URDF + '''
try:
    urdf.robot_from_xml_string(X([J('a', 'revolute', 'w', 'x'), J('b', 'revolute', 'w', 'y')], ['w', 'x', 'y']))
except AssertionError:
    pass
else:
    assert False
''', 'two branches of the same length and no tip requested', 'the first is taken')
bug('c31c', 'C31', [(URD, "    chain = urdf_robot.get_chain(root_link, tip_link, True, False, True)\n    assert", "    chain = urdf_robot.get_chain(root_link if tip_link in tip_links else urdf_robot.get_root(), tip_link, True, False, True)\n    assert")], URDF + '''
r = urdf.robot_from_xml_string(X([J('a', 'revolute', 'w', 'x'), J('b', 'revolute', 'x', 'y'), J('c', 'revolute', 'y', 'z')], ['w', 'x', 'y', 'z']), root_link='x', tip_link='y')
assert r.joint_names == ['b'], r.joint_names
''', 'a requested root and a requested tip that is not the end of a branch', 'the chain starts at the root of the tree')
bug('c32a', 'C32', [(MSG, "    return np.array([ros_wrench.torque.x, ros_wrench.torque.y, ros_wrench.torque.z, \\\n                     ros_wrench.force.x, ros_wrench.force.y, ros_wrench.force.z])", "    return np.array([ros_wrench.force.x, ros_wrench.force.y, ros_wrench.force.z, \\\n                     ros_wrench.torque.x, ros_wrench.torque.y, ros_wrench.torque.z])"),
                    (MSG, "    return Wrench(Vector3(wrench2[3], wrench2[4], wrench2[5]),\n                 Vector3(wrench2[0], wrench2[1], wrench2[2]))", "    return Wrench(Vector3(wrench2[0], wrench2[1], wrench2[2]),\n                 Vector3(wrench2[3], wrench2[4], wrench2[5]))")], '''
import types
m = types.ModuleType('geometry_msgs.msg')
class Vector3:
    def __init__(self, x=0., y=0., z=0.):
        self.x, self.y, self.z = x, y, z
class Wrench:
    def __init__(self, force=None, torque=None):
        self.force, self.torque = force, torque
for n in 'Quaternion Point Pose Twist Transform TransformStamped PoseStamped'.split():
    setattr(m, n, type(n, (), {}))
m.Vector3, m.Wrench = Vector3, Wrench
sys.modules['geometry_msgs'] = types.ModuleType('geometry_msgs')
sys.modules['geometry_msgs.msg'] = m
from general_robotics_toolbox import ros_msg
w = ros_msg.wrench2msg(np.arange(6.))
assert w.torque.x == 0 and w.force.x == 3
''', 'the fields of a wrench message, not the round trip', 'force and torque are exchanged both ways')
ROS = '''
import types
m = types.ModuleType('geometry_msgs.msg')
def cls(name, **f):
    def init(self, *a, **k):
        for i, (n, d) in enumerate(f.items()):
            setattr(self, n, a[i] if i < len(a) else k[n] if n in k else d())
    return type(name, (), dict(__init__=init))
m.Vector3 = cls('Vector3', x=float, y=float, z=float)
m.Point = cls('Point', x=float, y=float, z=float)
m.Quaternion = cls('Quaternion', x=float, y=float, z=float, w=float)
m.Pose = cls('Pose', position=m.Point, orientation=m.Quaternion)
m.Transform = cls('Transform', translation=m.Vector3, rotation=m.Quaternion)
Header = cls('Header', frame_id=str)
m.PoseStamped = cls('PoseStamped', header=Header, pose=m.Pose)
m.TransformStamped = cls('TransformStamped', header=Header, child_frame_id=str, transform=m.Transform)
m.Twist = cls('Twist', linear=m.Vector3, angular=m.Vector3)
m.Wrench = cls('Wrench', force=m.Vector3, torque=m.Vector3)
sys.modules['geometry_msgs'] = types.ModuleType('geometry_msgs')
sys.modules['geometry_msgs.msg'] = m
from general_robotics_toolbox import ros_msg
'''
bug('c32b', 'C32', [(MSG, "    q2=np.reshape(q, (4,))\n    return Quaternion", "    q2=np.reshape(q, (4,))\n    if q2[0] < 0:\n        q2=-q2\n    return Quaternion")], ROS + '''
q = np.array([-.5, .5, .5, .5])
assert np.allclose(ros_msg.msg2q(ros_msg.q2msg(q)), q)
''', 'a quaternion with negative scalar part', 'comes back negated')
bug('c32c', 'C32', [(MSG, "    r=PoseStamped()\n    r.pose=Pose(p2point_msg(transform.p), R2msg(transform.R))\n    if transform.parent_frame_id is not None:", "    r=PoseStamped()\n    r.pose=Pose(p2point_msg(transform.p), R2msg(transform.R))\n    if transform.parent_frame_id is not None and transform.child_frame_id is not None:")], ROS + '''
assert ros_msg.transform2pose_stamped_msg(Transform(np.eye(3), np.zeros(3), 'w')).header.frame_id == 'w'
''', 'a transform with a parent name only', 'the name is lost')
bug('c32d', 'C32', [(MSG, "    return Twist(Vector3(twist2[3], twist2[4], twist2[5]),", "    return Twist(Vector3(*np.round(twist2[3:6], 6)),")], ROS + '''
assert ros_msg.twist2msg(np.array([0, 0, 0, 1e-7, 0, 0])).linear.x == 1e-7
''', 'a velocity below 1e-6', 'rounded away')
TFM = '''
import types
for n in ('tf', 'rospy', 'tf2_ros'):
    sys.modules[n] = types.ModuleType(n)
class L:
    def __getattr__(self, n):
        def f(*a):
            L.calls.append((n, a))
            return ([1, 2, 3], [0, 0, 0, 1]) if n.startswith('lookup') else True
        return f
L.calls = []
sys.modules['tf'].TransformListener = L
sys.modules['rospy'].Time = lambda t: t
for n in 'TransformException ConnectivityException LookupException ExtrapolationException'.split():
    setattr(sys.modules['tf2_ros'], n, type(n, (__builtins__['Exception'] if isinstance(__builtins__, dict) else __builtins__.Exception,), {}))
from general_robotics_toolbox import ros_tf
l = ros_tf.TransformListener()
'''
bug('c33a', 'C33', [(TF, "        return self.ros_listener.waitForTransformFull(target_frame, target_time, source_frame, source_time, fixed_frame, timeout, polling_sleep_duration)", "        return self.ros_listener.waitForTransformFull(target_frame, target_time, source_frame, source_time, fixed_frame, timeout)")], TFM + '''
l.waitForTransformFull('a', 1, 'b', 2, 'c', 3, .5)
assert .5 in L.calls[-1][1]
''', 'a polling interval given', 'not passed on')
bug('c33b', 'C33', [(TF, "        t,r = self.ros_listener.lookupTransformFull(target_frame, target_time, source_frame, source_time, fixed_frame)", "        t,r = self.ros_listener.lookupTransformFull(target_frame, source_time, source_frame, target_time, fixed_frame)")], TFM + '''
l.lookupTransformFull('a', 1, 'b', 2, 'c')
assert L.calls[-1][1] == ('a', 1, 'b', 2, 'c')
''', 'different times for target and source', 'exchanged')
TESS = '''
from general_robotics_toolbox import tesseract as tess
ex, ey, ez = np.eye(3)
def arm(**k):
    P = np.array([[0, 0, .5], [.2, 0, 0], [0, 0, .6], [.7, 0, .1], [0, 0, 0], [0, 0, 0], [.3, 0, 0]]).T
    d = dict(joint_lower_limit=-3 * np.ones(6), joint_upper_limit=3 * np.ones(6), joint_vel_limit=2 * np.ones(6), joint_acc_limit=5 * np.ones(6))
    d.update(k)
    return Robot(d.pop('H', np.array([ez, ey, ey, ex, ey, ex]).T), d.pop('P', P), [0] * 6, **d)
q = np.array([.3, .2, -.4, .5, .6, .7])
'''
bug('c34a', 'C34', [(TES, "    elif joint_type == 1:\n        joint.type = JointType_PRISMATIC", "    elif joint_type == 1:\n        joint.type = JointType_PRISMATIC\n        joint_vel_limit, joint_acc_limit = joint_acc_limit, joint_vel_limit")], TESS + '''
_, j = tess.get_link_and_joint(ez, ex, 1, -1, 1, 2, 3, 4, 'l', 'j', 'p')
assert j.limits.velocity == 2 and j.limits.acceleration == 3
''', 'a sliding joint with different velocity and acceleration limits', 'exchanged')
bug('c34b', 'C34', [(TES, "        joint.parent_to_joint_origin_transform = transform_to_isometry3d(robot.T_base)", "        joint.parent_to_joint_origin_transform = transform_to_isometry3d(rox.Transform(np.eye(3), robot.T_base.p) if robot.T_flange is None else robot.T_base)")], TESS + '''
r = arm(T_base=Transform(rot(ez, .4), np.array([1., 0, 0])))
t = tess.TesseractRobot(r)
assert t.fwdkin(q).isclose(fwdkin(r, q), 1e-6)
''', 'a turned base without a flange', 'the base is not turned')
bug('c34c', 'C34', [(TES, "    if robot.T_flange is not None:\n", "    if robot.T_flange is not None and not np.allclose(robot.T_flange.R, np.eye(3)):\n")], TESS + '''
r = arm(T_flange=Transform(np.eye(3), np.array([.1, 0, 0])))
t = tess.TesseractRobot(r)
assert t.fwdkin(q).isclose(fwdkin(r, q), 1e-6)
''', 'a flange that is displaced but not turned', 'the flange is left out')
bug('c35b', 'C35', [(TES, "        offset[1] += q2_op\n        offset[2] -= q2_op", "        offset[1] += q2_op\n        offset[2] += np.abs(q2_op)")], TESS + '''
P = np.array([[0, 0, .5], [.2, 0, 0], [-.1, 0, .6], [.7, 0, .1], [0, 0, 0], [0, 0, 0], [.3, 0, 0]]).T
p = tess.robot_to_opw_inv_kin_parameters(arm(P=P, T_flange=Transform(rot(ey, np.pi / 2), np.zeros(3))))
P = np.array([[0, 0, .5], [.2, 0, 0], [.1, 0, .6], [.7, 0, .1], [0, 0, 0], [0, 0, 0], [.3, 0, 0]]).T
p2 = tess.robot_to_opw_inv_kin_parameters(arm(P=P, T_flange=Transform(rot(ey, np.pi / 2), np.zeros(3))))
assert abs(p.offsets[1] + p.offsets[2] + np.pi / 2) < 1e-6
assert abs(p2.offsets[1] + p2.offsets[2] + np.pi / 2) < 1e-6
''', 'an upper arm leaning backward', 'the elbow offset has the wrong sign')
bug('c36a', 'C36', [(TES, "    assert np.allclose(P2[2,1:4], 0.0)", "    assert np.allclose(P2[2,1:3], 0.0)")], TESS + '''
P = np.array([[0, 0, .09], [0, -.11, 0], [-.42, 0, 0], [-.39, .12, .05], [0, 0, -.09], [0, -.08, 0], [0, 0, 0]]).T
r = Robot(np.array([ez, -ey, -ey, -ey, -ez, -ey]).T, P, [0] * 6, T_flange=Transform(np.array([ex, ez, -ey]).T, np.zeros(3)), T_base=Transform(rot(ez, np.pi), np.zeros(3)))
try:
    tess.robot_to_ur_inv_kin_parameters(r)
except AssertionError:
    pass
else:
    raise Exception('accepted')
''', 'a bent forearm', 'parameters that ignore the bend')
bug('c37a', 'C37', [(TES, "            res = base_link.inverse() * tip_link", "            res = tip_link * base_link.inverse()")], TESS + '''
t = tess.TesseractRobot(arm())
a, b = t.fwdkin(q, tip_link_name='robot_link_2'), t.fwdkin(q)
assert (a * t.fwdkin(q, base_link_name='robot_link_2')).isclose(b, 1e-6)
''', 'a base link other than the default', 'the pose is composed in the wrong order')
bug('c37b', 'C37', [(TES, "        ik.working_frame = base_link_name", "        ik.working_frame = self.base_link_name")], TESS + '''
r = arm()
t = tess.TesseractRobot(r)
T = t.fwdkin(q, base_link_name='robot_link_1')
seen = []
class K:
    def calcInvKin(self, iks, s):
        seen.append(iks[0].working_frame)
        return []
class E:
    def getKinematicGroup(self, n):
        return K()
t.tesseract_env = E()
t.invkin(T, q, base_link_name='robot_link_1')
assert seen == ['robot_link_1'], seen
''', 'a base link other than the default', 'not passed on')
bug('c38a', 'C38', [(TES, "    fwdkin_plugin_info, fwdkin_libs = kinematics_plugin_fwdkin_kdl_plugin_info_dict(\n        robot_name, base_link, tip_link)", "    fwdkin_plugin_info, fwdkin_libs = kinematics_plugin_fwdkin_kdl_plugin_info_dict(\n        robot_name, base_link, link_names[-1])")], TESS + '''
d = tess.kinematics_plugin_info_dict(arm(), 'r', ['r_base_link', 'r_flange', 'r_tool'], [], ['r_base_link'], tip_link='r_flange')
t = str(d['kinematic_plugins']['fwd_kin_plugins'])
assert 'r_flange' in t and 'r_tool' not in t
''', 'a tip link other than the last', 'forward kinematics is configured for the last link')
bug('c38b', 'C38', [(TES, "        invkin_plugin_info, invkin_libs = invkin_plugin_info\n", "        invkin_plugin_info, invkin_libs = invkin_plugin_info[0], list(fwdkin_libs)\n")], TESS + '''
i = ({'inv_kin_plugins': {'r': {}}}, ['mine'])
d = tess.kinematics_plugin_info_dict(arm(), 'r', ['r_base_link', 'r_flange'], [], ['r_base_link'], None, i)
assert d['kinematic_plugins']['search_libraries'] == ['mine']
''', 'own plugin information', 'the libraries that come with it are left out')
OPWA = '''
ex, ey, ez = np.eye(3)
P = np.array([[0, 0, .5], [.2, 0, 0], [0, 0, .6], [.7, 0, .1], [0, 0, 0], [0, 0, 0], [.3, 0, 0]]).T
def arm(l=None, u=None):
    return Robot(np.array([ez, ey, ey, ex, ey, ex]).T, P, [0] * 6, l, u)
q = np.array([.3, .2, -.4, .5, .6, .7])
T = fwdkin(arm(), q)
S = robot6_sphericalwrist_invkin(arm(), T)
'''
URA = '''
ex, ey, ez = np.eye(3)
P = np.array([[0, 0, .09], [0, -.11, 0], [-.42, .03, 0], [-.39, .02, 0], [0, 0, -.09], [0, -.08, 0], [0, 0, 0]]).T
def arm(l=None, u=None):
    return Robot(np.array([ez, -ey, -ey, -ey, -ez, -ey]).T, P, [0] * 6, l, u)
q = np.array([.3, -.5, -.8, .5, .6, .7])
T = fwdkin(arm(), q)
S = ur_invkin(arm(), T)
'''
bug('c21a', 'C23', [(INV, "                q6 = normalize(5, [q6])\n                if len(q6) == 0:\n                    continue\n                q6 = q6[0]\n                theta_v.append(np.array([q1, q2, q3, q4, q5, q6]))\n    if last_joints is not None and len(theta_v) > 0:\n        theta_dist = np.linalg.norm(np.subtract(theta_v,last_joints), axis=1)\n        return [theta_v[i] for i in list(np.argsort(theta_dist))]\n    else:\n        return theta_v\n\ndef ur_invkin",
                    "                q6 = normalize(5, [q6])\n                if len(q6) == 0:\n                    break\n                q6 = q6[0]\n                theta_v.append(np.array([q1, q2, q3, q4, q5, q6]))\n    if last_joints is not None and len(theta_v) > 0:\n        theta_dist = np.linalg.norm(np.subtract(theta_v,last_joints), axis=1)\n        return [theta_v[i] for i in list(np.argsort(theta_dist))]\n    else:\n        return theta_v\n\ndef ur_invkin")], OPWA + '''
for s in S:
    w = np.array([4, 4, 4, 4, 4, .01])
    assert any(np.allclose(np.exp(1j * (x - s)), 1) for x in robot6_sphericalwrist_invkin(arm(s - w, s + w), T)), s
''', 'limits of the last joint that exclude the first of the two wrist configurations', 'the second is lost')
bug('c22b', 'C22', [(INV, "    d1 = np.dot(ey, P[:,1] + P[:,2] + P[:,3] + P[:,4])", "    d1 = np.dot(ey, P[:,1] + P[:,3] + P[:,4])")], URA + '''
assert any(np.allclose(np.exp(1j * (x - q)), 1, atol=1e-6) for x in S)
''', 'a sideways offset in the upper arm', 'the configuration is not found')

bug('c23e', 'C23', [(INV, "                q4 = normalize(3, [q4])\n                if len(q4) == 0:\n                    continue", "                q4 = normalize(3, [q4])\n                if len(q4) == 0:\n                    break")], URA + '''
for s in S:
    w = np.array([7, 7, 7, .01, 7, 7])
    assert any(np.allclose(np.exp(1j * (x - s)), 1) for x in ur_invkin(arm(s - w, s + w), T)), s
''', 'limits of joint 4 that exclude its value for the first elbow angle', 'the other elbow angle is not tried')

bug('c36b', 'C36', [(TES, "    assert np.allclose(robot.T_base.p.flatten(), np.array([0.,0.,0.]))\n", "    assert np.allclose(robot.T_base.p.flatten()[0:2], np.array([0.,0.]))\n")], TESS + '''
P = np.array([[0, 0, .09], [0, -.11, 0], [-.42, 0, 0], [-.39, 0, 0], [0, 0, -.09], [0, 0, 0], [0, -.08, 0]]).T
r = Robot(np.array([ez, -ey, -ey, -ey, -ez, -ey]).T, P, [0] * 6, T_flange=Transform(np.array([ex, ez, -ey]).T, np.zeros(3)), T_base=Transform(rot(ez, np.pi), np.array([0, 0, .5])))
try:
    tess.robot_to_ur_inv_kin_parameters(r)
except AssertionError:
    pass
else:
    raise Exception('accepted')
''', 'a UR arm on a pedestal', 'parameters that ignore the pedestal')
bug('c35c', 'C35', [(TES, "    assert np.allclose(P2[0:2,4:], 0.0)\n", "    assert np.allclose(P2[0:2,5:], 0.0)\n")], TESS + '''
P = np.array([[0, 0, .5], [.2, 0, 0], [0, 0, .6], [.7, 0, .1], [0, .1, 0], [0, 0, 0], [.3, 0, 0]]).T
try:
    tess.robot_to_opw_inv_kin_parameters(arm(P=P, T_flange=Transform(rot(ey, np.pi / 2), np.zeros(3))))
except AssertionError:
    pass
else:
    raise Exception('accepted')
''', 'an arm without a spherical wrist', 'parameters that ignore the offset of joint 5')
bug('c37c', 'C37', [(TES, "        ik.working_frame = base_link_name", "        ik.working_frame = self.base_link_name")], TESS + '''
t = tess.TesseractRobot(arm(T_base=Transform(rot(ez, .4), np.array([.1, .2, .3]))))
T = t.fwdkin(q, 'robot_base_link')
for s in t.invkin(T, q, base_link_name='robot_base_link'):
    assert t.fwdkin(s, 'robot_base_link').isclose(T, 1e-4)
''', 'a pose given in another frame than the default', 'taken to be in the default frame')
bug('c31d', 'C31', [(URD, "            if any(map(lambda c: urdf_robot.joint_map[c].joint_type == 'floating', chain)):", "            if any(map(lambda c: urdf_robot.joint_map[c].joint_type == 'floating', chain[:1])):")], URDF + '''
x = X([J('a', 'revolute', 'w', 'x'), J('b', 'fixed', 'w', 'y'), J('f', 'floating', 'y', 'z').replace('<limit lower="-1" upper="1" effort="5" velocity="2"/>', '')], ['w', 'x', 'y', 'z'])
assert urdf.robot_from_xml_string(x).tip_link_name == 'x'
''', 'a floating joint behind a fixed one', 'counts as a second arm')
bug('c31e', 'C31', [(URD, "        assert len(tip_links) == 1, ", "        assert len(tip_links) == 1 or len(set(c[0] for c in valid_chains)) == 1, ")], URDF + '''
x = X([J('b', 'revolute', 'w', 'x'), J('c', 'revolute', 'x', 'y'), J('d', 'revolute', 'x', 'z')], ['w', 'x', 'y', 'z'])
try:
    urdf.robot_from_xml_string(x)
except AssertionError:
    pass
else:
    raise Exception('accepted')
''', 'two arms that share their first joint', 'one of them is chosen silently')

# ---- third round
bug('c03b', 'C03', [(GRT, "    elif (R[1,1] > R[2,2]):\n", "    elif (R[1,1] > R[2,2] + 1e-9):\n"), (GRT, "        S = 2*math.sqrt(1 - R[0,0] - R[1,1] + R[2,2])", "        S = 2*math.sqrt(1 - R[0,0] + (R[2,2] - R[1,1] if R[2,2] < R[1,1] else 0*R[2,2] + (R[2,2] - R[1,1])*(R[0,0] != R[1,1])))")], '''
for q in ([0, 0, 0, 1.], [0, .1, .1, np.sqrt(.98)], [.1, .2, .2, np.sqrt(.91)]):
    R = q2R(np.array(q))
    assert np.allclose(q2R(R2q(R)), R, atol=1e-8)
''', 'a half turn about z (first two diagonal entries equal)', 'the root is wrong')
bug('c03c', 'C03', [(GRT, "                      ((R[1,2] + R[2,1]) / S), \\\n                      (0.25*S)])", "                      (np.abs(R[1,2] + R[2,1]) / S), \\\n                      (0.25*S)])")], '''
for q in ([.1, .2, -.3, .9], [.1, .2, .3, .9], [.1, -.2, -.3, .9]):
    q = np.array(q) / np.linalg.norm(q)
    p = R2q(q2R(q))
    assert min(np.abs(p - q).max(), np.abs(p + q).max()) < 1e-9
''', 'a large third and a negative second vector component', 'the sign of the second component')
bug('c04b', 'C04', [(GRT, "    Q[1:4,1:4] = q[0]*I+hat(q[1:4])", "    Q[1:4,1:4] = q[0]*I+hat(q[1:4])*min(1.0, 1e-9 + np.dot(q,q))")], '''
q, p = np.array([1., 2, 3, 4]), np.array([.5, -1, 2, .1])
w = np.concatenate(([q[0] * p[0] - q[1:] @ p[1:]], q[0] * p[1:] + p[0] * q[1:] + np.cross(q[1:], p[1:])))
assert np.allclose(quatproduct(q) @ p, w)
assert np.allclose(quatproduct(q / 9) @ p, w / 9)
''', 'a quaternion shorter than one', 'the cross product is shrunk')
bug('c05b', 'C05', [(GRT, "    return np.concatenate(([np.cos(theta/2.0)], k.reshape((3,))*np.sin(theta/2.0)))", "    return np.concatenate(([np.cos(theta/2.0)], k.reshape((3,))*np.sin(np.remainder(theta, 2*np.pi)/2.0)))")], '''
k = np.array([0, 0, 1.])
assert np.allclose(q2R(rot2q(k, 7.)), rot(k, 7.))
assert np.allclose(q2R(rot2q(k, -1.)), rot(k, -1.))
''', 'an angle outside [0, 2 pi)', 'scalar and vector part disagree in sign')
bug('c06b', 'C06', [(GRT, "    p=np.arctan2(-R[2,0], np.linalg.norm(R[2,1:3]))", "    p=np.arctan2(-R[2,0], R[2,2]/np.cos(r) if np.abs(np.cos(r)) > 0.05 else np.abs(R[2,2]))")], '''
for r in ((1.56, .3, .2), (-1.55, .7, .4), (.1, -.5, .4)):
    assert np.allclose(R2rpy(rpy2R(r)), r)
''', 'a roll close to a quarter turn', 'a wrong pitch')
bug('c08b', 'C08', [(GRT, "    G[0:3,3:6] = hat(r)\n", "    G[0:3,3:6] = hat(r) if np.any(np.greater(r, 0)) else hat(np.abs(r))\n")], '''
r = np.array([-.1, -.2, -.3])
assert np.allclose(screw_matrix(r)[:3, 3:], hat(r))
''', 'a displacement with no positive component', 'its sign is lost')
bug('c14b', 'C14', [(GRT, '''    :returns: The 6 x N Jacobian matrix
    """
    if not _ignore_limits:''', '''    :returns: The 6 x N Jacobian matrix
    """
    if not _ignore_limits and np.any(theta):''')], '''
r = Robot(np.array([[0, 0, 1.], [0, 0, 1]]).T, np.zeros((3, 3)), [0, 0], np.array([-1., .1]), np.array([1., 1]))
for q in ([.1, .2], [-1., 1], [0, .1]):
    robotjacobian(r, q)
try:
    robotjacobian(r, [0., 0.])
except AssertionError:
    pass
else:
    raise Exception('accepted')
''', 'limits that exclude zero and a joint vector of zeros', 'accepted by the Jacobian')
bug('c17b', 'C17', [(GRT, "    theta2_2 =  subproblem1(p, c2, k2)", "    theta2_2 =  subproblem1(p, c2, k2) if k12 >= 0 else -theta2_1")], '''
k1, k2 = np.array([0, 0, 1.]), np.array([np.sin(2.), 0, np.cos(2.)])
p = np.array([.3, .8, -.2])
q = rot(k1, .7) @ rot(k2, -.4) @ p
for a, b in subproblem2(p, q, k1, k2):
    assert np.allclose(rot(k1, a) @ rot(k2, b) @ p, q)
''', 'axes at an obtuse angle', 'a wrong second pair')
bug('c18b', 'C18', [(GRT, "        return [theta + phi, theta - phi]\n", "        return [theta + phi, theta - phi] if abs(theta) < np.pi - 1e-9 or phi < 1 else [theta - phi]\n")], '''
k = np.array([0, 0, 1.])
p, q = np.array([.5, 0, .1]), np.array([-1., 0, .3])
d = np.linalg.norm(q + rot(k, 1.4) @ p)
for x in (1.4, -1.4):
    assert any(abs(np.exp(1j * (y - x)) - 1) < 1e-6 for y in subproblem3(p, q, k, d))
''', 'vectors pointing in opposite directions and a wide angle', 'one solution is missing')
bug('c19b', 'C19', [(GRT, "    phi = np.arctan2(b, a)\n", "    phi = np.arctan2(b, a) if np.abs(b) > 1e-9*norm([a,b]) else 0.0\n")], '''
k = np.array([0, 0, 1.])
for p, q in ((np.array([1., 0, .2]), np.array([0, 1., .5])), (np.array([0, 1., .2]), np.array([1., 0, .5]))):
    d = p @ rot(k, .3) @ q
    s = subproblem4(p, q, k, d)
    assert s and all(abs(p @ rot(k, x) @ q - d) < 1e-9 for x in s)
''', 'vectors whose projections are perpendicular, turned one way', 'angles off by half a turn')
bug('c20b', 'C20', [(INV, "        P[:,3] += P[:,4]\n", "        P[:,3] += P[:,4] if P4_d > 0 else -P[:,4]\n")], '''
ex, ey, ez = np.eye(3)
r = Robot(np.array([ez, ey, ey, ex, ey, ex]).T, np.array([[0, 0, 0], [.3, 0, .7], [0, 0, 1.], [.9, 0, .2], [-.1, 0, 0], [0, 0, 0], [.2, 0, 0]]).T, [0] * 6)
q = np.array([.1, .2, .3, .4, .5, .6])
T = fwdkin(r, q)
s = robot6_sphericalwrist_invkin(r, T)
assert s and all(fwdkin(r, x).isclose(T, 1e-6) for x in s)
''', 'a wrist offset that points backwards along the forearm', 'it is added forwards')
bug('c21b', 'C21', [(INV, '''            q2 = rox.subproblem1(p2, v2, H[:,1])
            
            q2 = normalize(1, [q2])
            if len(q2) == 0:
                continue
            q2 = q2[0]        
            
            R12''', '''            q2 = rox.subproblem1(p2, v2, H[:,1])
            
            q2 = normalize(1, [q2])
            if len(q2) == 0 or (np.sin(q3) < 0 and q2[0] > np.pi/2 and np.sin(q1) < 0):
                continue
            q2 = q2[0]        
            
            R12''')], '''
ex, ey, ez = np.eye(3)
r = Robot(np.array([ez, ey, ey, ex, ey, ex]).T, np.array([[0, 0, 0], [.3, 0, .7], [0, 0, 1.], [.9, 0, .2], [0, 0, 0], [0, 0, 0], [.2, 0, 0]]).T, [0] * 6)
for q1 in (-.4, .4):
    for q2 in (2., -2, .3):
        for q3 in (-2.5, -.9, .9):
            q = np.array([q1, q2, q3, .4, .5, .6])
            s = robot6_sphericalwrist_invkin(r, fwdkin(r, q))
            assert any(np.abs(np.exp(1j * (x - q)) - 1).max() < 1e-6 for x in s)
''', 'joint 1 and 3 negative and joint 2 beyond a quarter turn', 'the configuration is left out')
INERT = URDF + '''
def M(inertial):
    x = "<robot name='t'><link name='a'><inertial>%s</inertial></link><link name='b'><inertial><mass value='1'/></inertial></link><joint name='j' type='revolute'><parent link='a'/><child link='b'/><axis xyz='0 0 1'/><limit lower='-1' upper='1' velocity='1' effort='1'/></joint></robot>"
    return urdf.robot_from_xml_string(x % inertial).M[0]
'''
bug('c39a', 'C39', [(URD, "    I = np.matmul(np.matmul(R_com,I),R_com.transpose())", "    I = np.matmul(np.matmul(R_com.transpose(),I),R_com)")], INERT + '''
m = M("<origin rpy='0.3 0.5 -0.7'/><mass value='2'/><inertia ixx='1' ixy='0.1' ixz='0' iyy='2' iyz='0.2' izz='3'/>")
R = rpy2R([.3, .5, -.7])
assert np.allclose(m[:3, :3], R @ np.array([[1, .1, 0], [.1, 2, .2], [0, .2, 3]]) @ R.T)
''', 'an inertia matrix in axes of its own', 'turned the wrong way')
bug('c39b', 'C39', [(URD, "            p_com[:] = urdf_inertial.origin.xyz", "            p_com[:] = urdf_inertial.origin.xyz if urdf_inertial.origin.rpy is None else np.matmul(_rpy_to_rot(urdf_inertial.origin.rpy).transpose(), urdf_inertial.origin.xyz)")], INERT + '''
m = M("<origin xyz='1 2 3' rpy='0.3 0 0'/><mass value='2'/>")
assert np.allclose(m[:3, 3:], 2 * hat([1, 2, 3]))
''', 'an inertial origin with both position and orientation', 'the centre of mass is turned as well')
bug('c10c', 'C10', [(GRT, "        return np.all(np.isclose(self.R, other.R, 1e-6)) \\", "        return np.all(np.isclose(self.R, other.R, 1e-3)) \\")], '''
assert not (Transform(np.eye(3), np.zeros(3)) == Transform(np.diag([1., 1, 1.0005]), np.zeros(3)))
assert not (Transform(rot([0, 0, 1], 1.0), np.zeros(3)) == Transform(rot([0, 0, 1], 1.0002), np.zeros(3)))
''', 'orientations less than a milliradian apart', 'different transforms compare equal')
bug('c35d', 'C35', [(TES, "            # unclear where bend is, assume Joint 2\n            R = rox.rot(ey, -np.pi/2.0)", "            # unclear where bend is, assume Joint 2\n            R = rox.rot(ey, np.pi/2.0)")], TESS + '''
P = np.array([[0, 0, .5], [.2, 0, 0], [.1, 0, .6], [.1, 0, .7], [0, 0, 0], [0, 0, 0], [.3, 0, 0]]).T
try:
    p = tess.robot_to_opw_inv_kin_parameters(arm(P=P, T_flange=Transform(rot(ey, np.pi / 2), np.zeros(3))))
except AssertionError:
    raise SystemExit(1)
assert abs(p.c3 - .1) < 1e-6 and abs(p.a2 + .7) < 1e-6 or abs(p.c3 + p.a2) > 0 and np.isclose(p.offsets[1] + p.offsets[2], -np.pi / 2), p
assert list(p.sign_corrections) == [1] * 6, p
''', 'an arm with the forearm offset upward and the wrist forward', 'parameters of another arm')
bug('c35e', 'C35', [(TES, "    assert len(robot.joint_type) == 6\n    assert np.allclose(robot.joint_type, 0)\n\n    def axis_sign", "    assert len(robot.joint_type) >= 6\n    assert np.allclose(robot.joint_type, 0)\n\n    def axis_sign")], TESS + '''
P = np.array([[0, 0, .5], [.2, 0, 0], [0, 0, .6], [.7, 0, .1], [0, 0, 0], [0, 0, 0], [.3, 0, 0], [.1, 0, 0]]).T
r = Robot(np.array([ez, ey, ey, ex, ey, ex, ex]).T, P, [0] * 7, T_flange=Transform(rot(ey, np.pi / 2), np.zeros(3)))
try:
    tess.robot_to_opw_inv_kin_parameters(r)
except Exception:
    pass
else:
    raise Exception('accepted')
''', 'an arm with seven joints', 'parameters that ignore the last joint')
bug('c36c', 'C36', [(TES, "    d6 = -np.sum(P2[1,5:7]).item()", "    d6 = -np.sum(P2[1,5:6]).item()")], TESS + '''
P = np.array([[0, 0, .09], [0, -.11, 0], [-.42, 0, 0], [-.39, 0, 0], [0, 0, -.09], [0, -.05, 0], [0, -.03, 0]]).T
r = Robot(np.array([ez, -ey, -ey, -ey, -ez, -ey]).T, P, [0] * 6, T_flange=Transform(np.array([ex, ez, -ey]).T, np.zeros(3)), T_base=Transform(rot(ez, np.pi), np.zeros(3)))
assert abs(tess.robot_to_ur_inv_kin_parameters(r).d6 - .08) < 1e-9
''', 'a displacement behind the last joint', 'the last length is too short')
bug('c39c', 'C39', [(URD, "    if (urdf_inertial.mass is None or urdf_inertial.mass <=1e-6):", "    if (urdf_inertial.mass is None or urdf_inertial.mass <=1e-3):")], INERT + '''
m = M("<mass value='0.0005'/>")
assert m is not None and np.allclose(m[3:, 3:], .0005 * np.eye(3))
''', 'a link lighter than a gram', 'its body counts as having no inertia')
