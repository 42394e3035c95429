"""The properties: one entry each.  tools/mkdocs.py writes properties.jsonl and MANIFEST.json from this table."""
G = 'src/general_robotics_toolbox/general_robotics_toolbox.py'
I = 'src/general_robotics_toolbox/general_robotics_toolbox_invkin.py'
U = 'src/general_robotics_toolbox/urdf.py'
Y = 'src/general_robotics_toolbox/robotraconteur.py'
M = 'src/general_robotics_toolbox/ros_msg.py'
L = 'src/general_robotics_toolbox/ros_tf.py'
T = 'src/general_robotics_toolbox/tesseract.py'

P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=(), note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, state=state, note=note))


p('C01', 'Axis-angle rotations form the rotation group',
  'For every unit axis and every angle, the rotation matrix built from them is orthogonal with determinant one, leaves the axis fixed and turns every perpendicular vector by the angle in the right-handed sense; angles about one axis add up. '
  'The skew-symmetric matrix of a vector acts as the cross product, and extracting the vector from it gives the vector back.',
  ['inputs'], 'every unit axis, every angle, every vector, every accepted container and shape of the axis',
  'the tests evaluate three axis/angle pairs; a wrong term that vanishes at those (a right-angle turn about a coordinate axis) is invisible to them',
  [G], [('rotation matrix from axis and angle', G + ': rot'), ('cross-product matrix and its inverse', G + ': hat, invhat')], ['return values'])
p('C02', 'Every rotation matrix converts to an axis and angle that rebuild it',
  'For every rotation matrix, including the identity, half turns about any axis and everything close to those, the conversion to axis and angle yields a finite unit axis and an angle in [0, pi] that reproduce the matrix. '
  'Rounding errors in the matrix entries never make the result non-finite.',
  ['inputs'], 'every rotation matrix (all axes, all angles), split over the branches of the conversion; half turns and angles up to 4e-7 from them, also about axes with components of about 1e-6; entries perturbed by up to 1e-15 at half turns',
  'tests try a handful of matrices; the half-turn branch depends on which axis components vanish and on their signs, a case split the samples do not cover',
  [G], [('axis-angle extraction with half-turn branch', G + ': R2rot')], ['return values'])
p('C03', 'Quaternion and matrix conversions are mutually inverse for all rotations',
  'Every unit quaternion converts to a rotation matrix with the conventional meaning, and every rotation matrix converts to a unit quaternion that represents it, whichever quaternion component is largest or zero. '
  'Going from quaternion to matrix and back gives the same quaternion up to sign. Orientations produced at random are rotation matrices whatever the generator draws.',
  ['inputs'], 'every unit quaternion, including each combination of zero components; every draw of the generator whose norm exceeds 0.1',
  'tests use single quaternions; each of the four extraction branches has its own signs, and only particular orientations reach them',
  [G], [('quaternion to matrix', G + ': q2R'), ('matrix to quaternion', G + ': R2q'), ('random orientations', G + ': random_R, random_transform')], ['return values'])
p('C04', 'Quaternion algebra agrees with rotation composition and rates',
  'The quaternion product matrix implements the Hamilton product and corresponds to composition of the rotations, for unit and non-unit quaternions; the complement reverses the rotation. '
  'The quaternion Jacobian maps an angular velocity to the rate of change of the quaternion of the turning body.',
  ['inputs'], 'every pair of quaternions, every angular velocity',
  'tests check one random pair; sign errors in single matrix entries cancel or vanish at sampled values',
  [G], [('product, complement and rate matrices', G + ': quatproduct, quatcomplement, quatjacobian')], ['return values'])
p('C05', 'Quaternion and axis-angle conversions agree for every rotation',
  'A quaternion built from axis and angle has scalar part cos(angle/2) and vector part sin(angle/2) times the axis, and converting any unit quaternion to axis and angle yields a unit axis and angle describing the same rotation. '
  'Both quaternions of the identity give a usable, finite axis.',
  ['inputs'], 'every unit quaternion, every axis and angle with |sin(angle/2)| >= 1e-6, and the two identity quaternions; scalar part perturbed by 1e-15',
  'tests convert one quaternion; negative scalar parts, the second identity quaternion and rounding beyond one are not reached',
  [G], [('quaternion/axis-angle conversions', G + ': q2rot, rot2q')], ['return values'])
p('C06', 'Roll-pitch-yaw conversions are inverse away from gimbal lock and refuse it',
  'A matrix built from roll, pitch and yaw is Rz(yaw) Ry(pitch) Rx(roll), and extracting the angles from any rotation matrix away from gimbal lock returns angles that rebuild it, equal to the original ones when the pitch lies within a quarter turn. '
  'At gimbal lock the extraction reports an error instead of returning wrong angles.',
  ['inputs'], 'all roll, pitch, yaw with |cos(pitch)| >= 1e-5; all roll, yaw at pitch = +-90 degrees',
  'tests check one triple of angles; quadrant errors and order errors need particular signs of several angles together',
  [G], [('roll-pitch-yaw conversions', G + ': rpy2R, R2rpy')], ['return values', 'exceptions'])
p('C07', 'Spherical interpolation moves uniformly along the shorter arc',
  'For all unit orientations and every fraction t in [0, 1], the interpolated quaternion is of unit length, lies in the plane of the end points and is turned from the start by t times the angle between them, along the shorter of the two arcs. '
  'It does not depend on the lengths of the arguments, refuses fractions outside [0, 1] and never becomes non-finite because of rounding.',
  ['inputs'], 'all pairs of quaternions, near and far (the sign flip), at t in {0, 1/4, 1/2, 3/4, 1}; any t in [0, 1] for quaternions less than a quarter turn apart; length factors in [1e-3, 1e3]; dot products perturbed by 1e-15',
  'tests interpolate one pair; the sign flip to the shorter arc and equal or opposite arguments are separate branches',
  [G], [('spherical linear interpolation', G + ': slerp')], ['return values', 'exceptions'])
p('C08', 'Screw transformation shifts twists and wrenches between points exactly',
  'For every displacement, the screw matrix shifts a twist to the displaced point and its transpose shifts a wrench back, power is preserved, and shifting by a sum of displacements is the product of the shifts.',
  ['inputs'], 'every displacement, twist and wrench; accepted containers of the displacement',
  'the test compares one matrix with itself for one vector',
  [G], [('6x6 rigid-body shift', G + ': screw_matrix')], ['return values'])
p('C09', 'Rigid transforms form a group and keep track of their frames',
  'Composition of rigid transforms multiplies rotations and maps positions accordingly, is associative, has the identity as neutral element, and every transform composed with its inverse is the identity. '
  'Frame names follow: a composition goes from the parent of the first to the child of the second and an inverse swaps them; building a transform from wrongly shaped parts is refused. A transform owns its values: reusing the arrays it was built from does not change it.',
  ['inputs'], 'all rotations (by unit quaternion) and translations, named and unnamed frames, position as flat, list or column; six malformed shapes; any entry of the arrays overwritten afterwards',
  'tests compose one pair of fixed transforms; an error in a cross term or in a frame name needs particular combinations',
  [G], [('transform class: composition, inverse, identity', G + ': Transform, identity_transform')], ['return values', 'exceptions'])
p('C10', 'Transform comparison means what its tolerance says',
  'Two transforms are reported close when every entry of rotation and position agrees within the tolerance, and not close when any entry differs by more than the tolerance and a small relative allowance. Equality holds for copies, whatever their frame names, and fails whichever entry clearly differs.',
  ['inputs'], 'all matrices with entries in [-1, 1], positions in [-100, 100], tolerances in the stated range, any single entry different',
  'tests compare a transform with itself and with one other',
  [G], [('isclose and == of transforms', G + ': Transform.isclose, Transform.__eq__')], ['return values'])
p('C11', 'Malformed robot descriptions are refused, well-formed ones kept as given',
  'A robot description is accepted exactly when its axes are unit vectors, its joint types are known, and its link vectors, limits, inertias and joint names have sizes that fit the number of joints. '
  'What is accepted is stored unchanged.',
  ['inputs', 'configurations'], 'arbitrary axis matrices (1 and 2 joints), joint type codes -1..7, for 3 joints every per-joint quantity and every pair of them too short or too long, each optional quantity absent, one of the two limits alone',
  'tests construct valid robots only; they cannot see a missing or swapped size check',
  [G], [('validation in the robot constructor', G + ': Robot.__init__')], ['exceptions', 'robot attributes'])
p('C12', 'Forward kinematics equals the product of joint motions',
  'The pose of every robot is the base transform, followed by each link offset and joint motion in order (rotation about the axis for revolute, translation along it for prismatic joints), the flange transform and the tool transform. '
  'It holds for every mix of joint types, every joint vector, every container the joint vector may come in, and always reflects the current tool, base and flange.',
  ['inputs', 'configurations', 'histories'], 'all link vectors, joint values, tool/flange/base transforms; 1 and 2 joints (thorough: 3) with arbitrary unit axes and all type mixes, 4 to 7 joints (thorough: 9) with coordinate axes',
  'tests evaluate two robots at a handful of configurations; prismatic joints, tool and base in combination are never exercised together',
  [G], [('product of exponentials', G + ': fwdkin'), ('auxiliary transforms', G + ': apply_robot_aux_transforms')], ['return values'])
p('C13', 'The Jacobian is the derivative of forward kinematics',
  'For every robot and joint vector, each column of the Jacobian is the angular and linear velocity of the tool point, in the base frame, for unit speed of that joint, including the effect of tool, flange and base transforms. '
  'For a vehicle (two slides and a turn) in front, the first columns are driving ahead and turning. Computing the Jacobian changes neither the robot nor the joint vector.',
  ['inputs', 'configurations'], 'all link vectors, joint values and transforms; 1 and 2 joints (thorough: 3) with arbitrary axes, 6 and 7 with coordinate axes; vehicles with up to 2 further joints (thorough: 6); derivative identity with respect to each joint',
  'tests compare the Jacobian of two robots in two configurations with tabulated numbers, without tool and base',
  [G], [('geometric Jacobian', G + ': robotjacobian')], ['return values'])
p('C14', 'Joint limits decide exactly which joint vectors are accepted',
  'With both limits given, forward kinematics and the Jacobian accept a joint vector exactly when every joint lies in its closed interval, and otherwise report an error; without complete limits every joint vector is accepted.',
  ['inputs', 'configurations'], 'all limits and joint values, 1 and 2 joints, revolute and prismatic',
  'tests check one violation; a check that looks at some joints or one side only passes them',
  [G], [('limit checks', G + ': fwdkin, robotjacobian')], ['exceptions'])
p('C15', 'Adding and removing base, flange and tool transforms are inverse',
  'The auxiliary transforms are applied as base, chain, flange, tool in this order, removing them undoes applying them for every combination of the three, and a tool of which only the rotation or only the position is given is treated consistently as none, by the pose, the Jacobian and the removal.',
  ['inputs', 'configurations'], 'all transforms and poses, all eight subsets of base, flange and tool; half tools from the start or set later',
  'tests use one robot with one combination',
  [G], [('apply and remove auxiliary transforms', G + ': apply_robot_aux_transforms, unapply_robot_aux_transforms')], ['return values'])
p('C16', 'Rotation about one axis: the angle found maps one vector to the other',
  'For every axis and every vector obtained by turning another about it, the angle found turns the first into the second, with its sign; for vectors along the axis the answer is finite. '
  'Vectors not perpendicular to the axis are refused where perpendicular ones are required, on either side, and rounding does not make perpendicular ones refused.',
  ['inputs'], 'all axes (arbitrary orthonormal frame), radii in [1e-3, 1e3], offsets along the axis, all angles; inner products perturbed by rounding',
  'tests solve two instances',
  [G], [('subproblems 0 and 1', G + ': subproblem0, subproblem1')], ['return values', 'exceptions'])
p('C17', 'Rotation about two axes: all and only the solving angle pairs are returned',
  'For every pair of non-parallel axes and every vector reachable by turning about both, the angle pair that produced it is returned, every returned pair reproduces the target, there is one pair when the cones touch and none when it is out of reach; parallel axes give no pair.',
  ['inputs'], 'families of axis pairs (coordinate, slanted, and in thorough arbitrary at 0.1 to 3.04 rad), all vectors and angles, tangent and on-axis cases',
  'tests solve a few instances; the tangent, on-axis and unreachable cases are separate branches with their own formulas',
  [G], [('subproblem 2', G + ': subproblem2')], ['return values'])
p('C18', 'Rotation to a distance: all and only the angles reaching it are returned',
  'For all vectors, axes and a distance attained at some angle, that angle is returned and every returned angle attains the distance; distances that are too large or too small give an empty list.',
  ['inputs'], 'arbitrary axis frames, vectors, angles; stretched and folded limits (the latter also with rounding); vectors on the axis; out of reach on both sides',
  'tests solve a few instances',
  [G], [('subproblem 3', G + ': subproblem3')], ['return values'])
p('C19', 'Rotation to a displacement: all and only the angles reaching it are found',
  'For all vectors, axes and a displacement along a direction attained at some angle, that angle is returned and every returned angle attains it; displacements outside the range on either side give an empty list, and the ends of the range are still solved.',
  ['inputs'], 'arbitrary axis frames, vectors, angles; both ends of the range; vectors on the axis; out of range on both sides',
  'tests solve a few instances',
  [G], [('subproblem 4', G + ': subproblem4')], ['return values'])
p('C20', 'Spherical-wrist inverse kinematics returns only configurations of that pose',
  'For every six-joint arm with a spherical wrist of the supported kinds, every link geometry, tool, flange and base, each returned configuration has exactly the requested pose. '
  'A pose out of reach gives an empty list, arms whose wrist axes do not meet are refused, and the robot description is left unchanged.',
  ['inputs', 'configurations'], 'arms with axis patterns zyyxyx, zyyzyz, zyyzyx and mixed signs of them, arbitrary link vectors (any base displacement), with and without wrist offsets, tool, flange and base; all configurations away from singularities, and the wrist centre on the axis of joint 1; geometric subproblems by their specification (C16-C19)',
  'tests solve one or two robots at a few poses; wrong combinations of branches, or a tool applied on one side only, need other geometry to show',
  [I], [('closed-form solution', I + ': robot6_sphericalwrist_invkin')], ['return values', 'robot attributes'])
p('C21', 'Spherical-wrist inverse kinematics finds the configuration behind the pose',
  'For the pose of any non-singular configuration, that configuration, up to full turns, is among the solutions, also when some root of an intermediate step leads nowhere.',
  ['inputs', 'configurations'], 'as C20; in addition second roots at any angle in either order',
  'tests check that some solution has the pose, at a few poses; a lost branch shows only where that branch is the needed one',
  [I], [('closed-form solution', I + ': robot6_sphericalwrist_invkin')], ['return values'])
p('C22', 'Parallel-axis (UR) inverse kinematics is sound and complete',
  'For every arm with the three-parallel-axes geometry, any link offsets, tool and base, a non-singular configuration that produced a pose is among the solutions up to full turns, and every returned configuration has the requested pose. '
  'Reachable poses with a singular wrist are answered too. Arms with other axes, or whose last two axes do not meet, are refused; the robot description is left unchanged.',
  ['inputs', 'configurations'], 'both sign patterns of the axes, arbitrary link vectors, tool, flange and base; all configurations away from singularities, and the wrist centre on the axis of joint 1; singular wrists with the arm straight or folded and joint 4 at a right angle, all link lengths in [0.1, 1]; subproblems by specification; spurious second roots in either order',
  'tests solve one robot at a few poses',
  [I], [('closed-form solution', I + ': ur_invkin')], ['return values', 'robot attributes'])
p('C23', 'Inverse kinematics respects limits, turns and the last joint positions',
  'Every configuration returned lies within the joint limits, a configuration that full turns bring inside the limits is returned, and a pose out of reach gives an empty list. '
  'With last joint positions, every joint is reported in the turn nearest to its last position when no limits apply, answers are ordered by distance to the last positions, and the first answer is no farther than a nearby reachable configuration.',
  ['inputs', 'histories'], 'two arms (one per solver) with fixed link lengths; limits of one joint anywhere in [-7, 7], or +-7 and +-6.2831 on all; all configurations in [-3.1, 3.1]; roots of subproblems 3 and 4 in other turns; last positions up to 0.3 rad away plus -1, 0 or 1 turn on each joint (two joints at once with tight limits); second roots anywhere, also with limits',
  'tests track one trajectory; wrong turn arithmetic needs particular quadrants, turns and limits at once',
  [I], [('joint normalization and ordering', I + ': normalize_joints'), ('closed-form solvers', I + ': robot6_sphericalwrist_invkin, ur_invkin')], ['return values'])
p('C24', 'Equivalent configurations are all the full-turn variants within the limits',
  'The configurations reported as equivalent are exactly those that differ from a given one by full turns of revolute joints and lie within the limits, excluding the given ones and without changing prismatic joints; with last joint positions they come sorted by distance to them.',
  ['inputs', 'configurations'], 'limits anywhere in [-10, 10], 1 to 3 joints of mixed types, one or two given configurations whose joints are each equal, a turn apart or unrelated, up to two turns either way; configurations given as floats, integers or lists; empty input',
  'the test compares one robot at one configuration; missing combinations of several turned joints need wide limits on several joints',
  [I], [('enumeration of turns', I + ': equivalent_configurations')], ['return values'])
p('C25', 'Iterative inverse kinematics reports convergence only at the requested pose',
  'Whenever the iterative solver reports convergence, the configuration it returns has the requested pose within the tolerance, differs from its final iterate by full turns of revolute joints only, and prismatic joints are reported as computed; without convergence it says so. '
  'Starting configuration and robot are not modified and may be any list or array.',
  ['inputs'], 'convergence test: any arm of up to three joints, any pose and start, and any orientation error about one axis up to and beyond a half turn; steps: arms of up to three sliding joints for up to three steps (thorough: six) with several gains and tolerances, a turning joint with a slide for one step (thorough: two); other arms after a step are outside',
  'tests run the solver to convergence on two robots from one start',
  [I], [('gradient iteration and convergence test', I + ': iterative_invkin')], ['return values'])
p('C26', 'Computations leave arguments and robot untouched and keep no hidden state',
  'No conversion, kinematics or inverse kinematics call changes the arrays it is given or the robot, and results do not depend on which calls were made before.',
  ['inputs', 'histories'], 'every public conversion, transform operation, kinematics and inverse kinematics function on symbolic arguments, evaluated twice with other calls in between and compared with a freshly loaded library; shared memory between answers and arguments',
  'tests do not look at their arguments after a call',
  [G, I], [('public functions', G), ('solvers', I)], ['arguments after the call', 'return values'])
p('C28', 'Robot and tool descriptions load to the robot they describe',
  'Loading a robot description file yields a robot whose axes, link vectors, joint types, limits, names, base and tool transforms are those of the described chain, in the order of the chain, for every permitted form of the values and for each chain of the file; a separately given tool becomes the tool of that robot. '
  'Descriptions with missing or wrongly sized parts are refused.',
  ['inputs', 'configurations'], 'all numeric contents symbolic (limits of any sign); up to 4 joints (thorough: 7), any joint type mix, chains of any increasing selection of the joints, up to three chains with their own flange and tool, optional parts present or absent; 21 kinds of missing or wrong parts at any joint',
  'tests load two complete files; optional parts and chain selection are not varied',
  [Y], [('YAML loader', Y + ': load_robot_info_yaml_to_robot, load_robot_and_tool_info_yaml_to_robot')], ['robot attributes', 'exceptions'])
p('C30', 'A robot loaded from a description tree moves as the description says',
  'For every chain in a URDF description, the loaded robot has at every joint vector the pose obtained by composing the joint origins and motions of the description from root to tip, including fixed joints anywhere in the chain.',
  ['inputs', 'configurations'], 'chains of up to 4 joints of every type mix, arbitrary origins (position and roll-pitch-yaw) and axes, any joint values, with or without origin elements; given as text, file, xacro file, file of a ROS package, or parameter',
  'tests load two files and compare numbers for these',
  [U], [('conversion of the joint tree', U + ': _robot_from_urdf_robot')], ['forward kinematics of the loaded robot'])
p('C31', 'Loaded limits, names and chain selection follow the description',
  'Joint limits, velocity limits, joint types and names of the loaded robot belong to the joints of the selected chain in order, the chain runs from the requested root to the requested tip among several branches, and ambiguous or unsupported descriptions are refused.',
  ['inputs', 'configurations'], 'all limit values symbolic; nine trees with fixed, loose, continuous and moving branches, every combination of requested root and tip listed in the check, joints declared in either order',
  'tests load two files without branches',
  [U], [('chain selection and joint properties', U + ': _robot_from_urdf_robot')], ['robot attributes', 'exceptions'])
p('C39', 'Inertias of a loaded robot follow the description',
  'Where the link frames of a URDF description are parallel and rigidly joined links share an origin, each rigid body of the loaded robot has the 6 x 6 spatial inertia of its links about the origin of the link: the mass, the first moment and the inertia matrix turned and shifted from the centre of mass as the description says. A robot with a body of unknown mass has no inertias.',
  ['inputs', 'configurations'], 'all masses, centres of mass, orientations and inertia matrices; chains of up to 5 joints (thorough: 7) whose link frames are parallel and whose welded links share an origin (the documentation leaves inertias of other chains open), any link without inertia, elements in either order',
  'tests load files with inertias and do not look at them',
  [U], [('conversion of inertias', U + ': _convert_inertial, _append_inertia, _robot_from_urdf_robot')], ['robot attributes'])
p('C32', 'Conversions to and from ROS messages preserve the value',
  'Converting quaternions, rotations, vectors, points, transforms, poses, twists and wrenches to a ROS message and back gives the same value, every field of the message carries its conventional component, and frame names survive in stamped messages.',
  ['inputs'], 'all values; every message type the package converts',
  'ROS is absent where the tests run, so these functions are not exercised at all',
  [M], [('message conversions', M)], ['message fields', 'return values'])
p('C33', 'The transform listener answers with the transform it was asked for',
  'A lookup returns the rotation and position of the child frame in the parent frame with the two names, and waiting and querying forward frames, time and timeout unchanged.',
  ['inputs'], 'all transforms, frame names, times and time limits',
  'ROS is absent where the tests run, so this class is not exercised at all',
  [L], [('transform listener', L + ': TransformListener')], ['return values', 'calls to the tf library'])
p('C34', 'The exported scene graph moves as the robot does',
  'The Tesseract links and joints generated for a robot, composed from base to tip at any joint vector, give the same pose as its forward kinematics, with the limits, types and names of the robot and unique names under the requested prefix.',
  ['inputs', 'configurations'], 'robots of 1 to 7 joints with every type mix, arbitrary geometry, with and without tool, flange and base',
  'tests compare a few robots at one configuration',
  [T], [('scene graph generation', T + ': robot_to_scene_graph, get_link_and_joint, get_fixed_link_and_joint, get_robot_world_to_base_joint')], ['recorded links and joints'])
p('C35', 'OPW solver parameters describe the same arm',
  'Whenever a robot is accepted for the OPW analytic solver, the parameters extracted (lengths, offsets, signs) give, in the OPW forward kinematics, the pose of the robot at every joint vector; other robots are refused.',
  ['inputs', 'configurations'], 'all link lengths and supported axis sign patterns (quick: a covering selection); any joint vector; arms that differ in one link component of either sign, one axis, one joint type, or the flange; link vectors and axes as floats or whole numbers (integer arrays)',
  'tests extract parameters of a few robots and compare numbers',
  [T], [('parameter extraction', T + ': robot_to_opw_inv_kin_parameters')], ['return values', 'exceptions'])
p('C36', 'UR solver parameters describe the same arm',
  'Whenever a robot is accepted for the UR analytic solver, the Denavit-Hartenberg lengths extracted give the pose of the robot at every joint vector; other robots are refused.',
  ['inputs', 'configurations'], 'both arrangements (+x and -x), all link lengths, offsets distributed over neighbouring links in any way; any joint vector; arms that differ in one link component, one axis, one joint type, the flange or the base',
  'tests extract parameters of one robot',
  [T], [('parameter extraction', T + ': robot_to_ur_inv_kin_parameters')], ['return values', 'exceptions'])
p('C37', 'The Tesseract robot wrapper answers in the toolbox conventions',
  'Pose, Jacobian and inverse kinematics obtained through the wrapper are those of the kinematics group for the tip link in the base link, with angular rows of the Jacobian first, and seed, pose and solutions passed on unchanged.',
  ['inputs'], 'all poses, Jacobians, seeds and solutions of the underlying group, 1 to 7 joints',
  'tests compare a few configurations of a few robots',
  [T], [('wrapper class', T + ': TesseractRobot')], ['return values', 'calls to the kinematics group'])
p('C38', 'Solver configuration written for Tesseract names the right chain and values',
  'The solver configuration produced for a robot names its base and tip link, the requested default solver and all parameters with their values, survives the conversion to text, and unsupported combinations are refused.',
  ['inputs', 'configurations'], 'all parameter values, solver choices and names',
  'tests load the produced text for a few robots',
  [T], [('plugin descriptions', T + ': kinematics_plugin_info_dict, kinematics_plugin_info_string and the solver specific ones')], ['return values', 'exceptions'])

NOTES = {}
NOT_APPLICABLE = {}
