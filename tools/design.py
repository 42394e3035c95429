#!/opt/venv/bin/python
"""Writes the generated part of DESIGN.md (after the marker) from tools/table.py, the scenarios, the evidence of the last run and seeded/."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
import run
from tools import table
run.load_checks()
from symx import reg

ORACLE = {
    'C01': 'matrix identities (R Rᵀ = 1, det, R k = k, the turned perpendicular vector c·u + s·k×u), written independently of Rodrigues\' formula.',
    'C02': 'the harness\'s own Rodrigues formula applied to the returned axis and angle.',
    'C03': 'the textbook matrix of a unit quaternion.',
    'C04': 'the Hamilton product written out; rates by differentiating the quaternion of the turning body.',
    'C05': 'half-angle formula; rotation matrix of the quaternion against that of the returned axis and angle.',
    'C06': 'product of three elementary rotations.',
    'C07': 'the great-circle point cos(tθ)·q0 + sin(tθ)·m for an orthonormal pair (q0, m), compared up to the sign of the quaternion.',
    'C08': 'definition of the twist at a displaced point and invariance of power.',
    'C09': 'homogeneous-matrix algebra; frame-name bookkeeping spelled out.',
    'C10': 'entrywise comparison with the stated tolerance.',
    'C11': 'the list of documented sizes.',
    'C12': 'product of exponentials in the harness (`poe`), with the harness\'s own Rodrigues formula.',
    'C13': 'geometric columns; and, separately, the difference of the library\'s own forward kinematics when one joint moves by d, an exact identity (a revolute joint turns the tip about its axis).',
    'C14': 'closed-interval membership.',
    'C15': 'base · chain · flange · tool, and the inverse of it.',
    'C16': 'the angle the harness turned by.',
    'C17': 'the pair the harness turned by; residual of every returned pair.',
    'C18': 'the angle the harness measured the distance at; residual of every returned angle.',
    'C19': 'the angle the harness measured the displacement at; residual of every returned angle.',
    'C20': '`poe` of every returned configuration against the requested pose.',
    'C21': 'membership of the generating configuration, up to full turns.',
    'C22': 'as C20 and C21.',
    'C23': 'intervals, distances and turns stated over the returned values.',
    'C24': 'all combinations of whole turns, decided one by one with symbolic limits: reported exactly when inside.',
    'C25': '`poe` of the answer against the pose, with the tolerance.',
    'C26': 'the answers of a freshly loaded copy of the library, and copies of the arguments.',
    'C28': 'the description itself, from which the harness composes the expected robot.',
    'C30': 'composition of the joint origins and motions in the harness.',
    'C31': 'the tree known to the harness.',
    'C32': 'field by field, and the round trip.',
    'C33': 'a stand-in tf library that records what it is asked and answers symbolic transforms.',
    'C34': 'composition of the recorded links and joints; `poe` of the robot.',
    'C35': 'the published OPW forward kinematics (Brandstötter, Angerer, Hofbaur 2014) with offsets and signs.',
    'C36': 'the published Denavit-Hartenberg table of the manufacturer.',
    'C37': 'geometric Jacobian and `poe`; calls recorded by the stand-in group.',
    'C38': 'the documented structure of the solver description, read back from the text where one is produced.',
    'C39': 'the 6 x 6 inertia written out from mass, centre of mass and inertia matrix (parallel-axis theorem), summed over welded links.',
}
OUT = {
    'C02': 'angles within 1e-5 of 0 and π other than the listed ones (exactly 0 and π, and a few distances below 1e-6 from π), where the result is a rounded neighbour.',
    'C39': 'chains whose link frames are turned or whose welded links are displaced (the documentation leaves them open).',
    'C05': 'rotations by less than 2e-5 other than the identity.',
    'C06': 'pitch within 1e-5 of ±90° but not there.',
    'C07': 't other than the listed ones for quaternions more than a quarter turn apart.',
    'C10': 'entries within the relative allowance of the tolerance.',
    'C17': 'axes closer than 0.001 rad to parallel; completeness for arbitrary axis angle only in thorough.',
    'C20': 'singular configurations; axis patterns outside the three families (refused or not is not decided there).',
    'C21': 'singular configurations; roots the real subproblems return in other turns are covered in C23.',
    'C22': 'singular arms (stretched elbow) other than with a singular wrist; singular wrists with joint 4 elsewhere than at a right angle.',
    'C23': 'other link lengths than those of the two arms; limits closer than 1e-3 to the joint value; a few paths of arms with roots of subproblem 3 are left by the time budget (printed as INCONCLUSIVE).',
    'C25': 'convergence itself (a liveness question of a nonlinear iteration, outside); steps of general arms, where the least-squares step is not rational.',
    'C26': 'visualisation-like or file-system functions; functions that return random values.',
    'C28': 'other file systems; YAML syntax errors.',
    'C30': 'xacro expressions in general (the installed xacro runs; numbers pass through it as text), inertias (see C39).',
    'C31': 'mimic joints, planar joints in side branches.',
    'C32': 'ROS itself: message classes are stand-ins with the fields of the ROS definitions.',
    'C33': 'ROS itself: tf is a stand-in.',
    'C34': 'the C++ environment: in the symbolic run a stand-in with reference semantics of links and joints; the concrete runs use the installed tesseract library.',
    'C35': 'the C++ OPW solver.',
    'C36': 'the C++ UR solver.',
    'C37': 'numerical solvers of the kinematics group (C++), represented by a stand-in that returns arbitrary solutions.',
    'C38': 'loading of the plug-ins by the C++ side.',
}

bugs = {}
sd = os.path.join(HERE, 'seeded')
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, 'meta.json')))
    bugs.setdefault(m['property'], []).append((d, m['needs'], m['what_it_breaks']))

L = []
L.append('## The properties one by one\n')
L.append('Generated by `tools/design.py` from the scenarios and the last runs.  "Configurations" counts quick (+ additional thorough) instances of a scenario; each is explored path by path.  Costs are wall-clock on 8 cores, quick tier.\n')
for p in table.P:
    i = p['id']
    L.append('### %s %s\n' % (i, p['title']))
    L.append('*Within:* %s.' % p['text'].rstrip('.'))
    L.append('*Against:* %s' % ORACLE[i])
    if i in OUT:
        L.append('*Outside:* %s' % OUT[i])
    f = os.path.join(HERE, 'evidence', i + '.json')
    if os.path.exists(f):
        e = json.load(open(f))
        c = e['coverage']
        L.append('*Cost:* %.0f s, %s paths, %s obligations, %s queries, %.0f s of solver time (%s tier).' % (
            e['wall_s'], c.get('states'), c.get('obligations_raised'), c.get('queries', c.get('solver_queries', '?')), float(c.get("solver_time_s") or 0), e["tier"]))
    L.append('')
    L.append('| scenario | configurations | decides |\n|---|---|---|')
    seen = {}
    for s in reg.SCENARIOS:
        if s.prop == i:
            L.append('| %s | %s%s | %s |' % (s.name, len(s.over or [1]), ' + %d' % len(s.thorough_over) if s.thorough_over else '', ' '.join((s.fn.__doc__ or '').split())))
    L.append('')
    if bugs.get(i):
        L.append('Planted: ' + '; '.join('`%s` (%s: %s)' % b for b in bugs[i]) + '.\n')
f = os.path.join(HERE, 'DESIGN.md')
s = open(f).read()
mark = '<!-- generated below -->'
s = s.split(mark)[0].rstrip() + '\n\n' + mark + '\n\n' + '\n'.join(L)
open(f, 'w').write(s)
print(len(L), 'lines')
