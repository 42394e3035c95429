"""Measures the checks with mutants of the source: tools/mutate.py FILES PATTERN PER_FUNCTION LANES LOG
(e.g. urdf.py . 10 8 /tmp/mut.log; SYMX_JOBS=1). Each mutant is put into a copy of the repository and run through the checks of its function."""
import ast, sys, os, re, random, json, subprocess, shutil, copy, tempfile
from concurrent.futures import ThreadPoolExecutor
REPO=os.environ.get('SYMX_REPO','/repo')
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC=REPO+'/src/general_robotics_toolbox/'
G='general_robotics_toolbox.py'; I='general_robotics_toolbox_invkin.py'
MAP={
G:{'hat':['C01'],'invhat':['C01'],'rot':['C01'],'R2rot':['C02'],'screw_matrix':['C08'],'q2R':['C03'],'R2q':['C03'],'q2rot':['C05'],'rot2q':['C05'],'quatcomplement':['C04'],'quatproduct':['C04'],'quatjacobian':['C04'],'rpy2R':['C06'],'R2rpy':['C06'],'slerp':['C07'],
 'Robot.__init__':['C11','C12','C14','C26'],'Transform.__init__':['C09'],'Transform.__mul__':['C09'],'Transform.__eq__':['C10'],'Transform.__neq__':['C10'],'Transform.inv':['C09'],'Transform.__repr__':['C10'],'Transform.__str__':['C10'],'Transform.isclose':['C10'],
 'fwdkin':['C12','C14'],'robotjacobian':['C13','C14'],'subproblem0':['C16'],'subproblem1':['C16'],'subproblem2':['C17'],'subproblem3':['C18'],'subproblem4':['C19'],'apply_robot_aux_transforms':['C15'],'unapply_robot_aux_transforms':['C15'],'identity_transform':['C09'],'random_R':['C01'],'random_p':['C09'],'random_transform':['C09']},
I:{'normalize_joints.__init__':['C21','C20','C23'],'normalize_joints.normalize':['C21','C20','C25','C23'],'normalize_joints.__call__':['C21','C23'],'robot6_sphericalwrist_invkin':['C20','C21','C23'],'ur_invkin':['C22','C23'],'equivalent_configurations':['C24'],'iterative_invkin':['C25']},
'robotraconteur.py':{'*':['C28']},
'ros_msg.py':{'*':['C32']},'ros_tf.py':{'*':['C33']},
'urdf.py':{'_convert_inertial':['C39'],'_append_inertia':['C39'],'*':['C30','C31','C39']},
'tesseract.py':{'robot_to_opw_inv_kin_parameters':['C35'],'robot_to_ur_inv_kin_parameters':['C36'],'TesseractRobot':['C37','C38'],'*':['C34','C38','C37']},
}
CMP={ast.Lt:ast.LtE,ast.LtE:ast.Lt,ast.Gt:ast.GtE,ast.GtE:ast.Gt,ast.Eq:ast.NotEq,ast.NotEq:ast.Eq,ast.Is:ast.IsNot,ast.IsNot:ast.Is,ast.In:ast.NotIn,ast.NotIn:ast.In}
CMP2={ast.Lt:ast.Gt,ast.Gt:ast.Lt,ast.LtE:ast.GtE,ast.GtE:ast.LtE}
BIN={ast.Add:ast.Sub,ast.Sub:ast.Add,ast.Mult:ast.Div,ast.Div:ast.Mult}
ATT={'R':None,'p':None,'x':'y','y':'z','z':'x','joint_lower_limit':'joint_upper_limit','joint_upper_limit':'joint_lower_limit','parent_frame_id':'child_frame_id','child_frame_id':'parent_frame_id','linear':'angular','angular':'linear','force':'torque','torque':'force','R_tool':'p_tool','joint_vel_limit':'joint_acc_limit','joint_acc_limit':'joint_vel_limit','sin':'cos','cos':'sin','argmin':'argmax','floor':'ceil','logical_and':'logical_or','logical_or':'logical_and','any':'all','all':'any','lower':'upper','upper':'lower','parent':'child','child':'parent'}
def muts(tree):
    "yield (qualname, lineno, desc, apply(tree copy))"
    out=[]
    parents={}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n): parents[c]=n
    idx={n:i for i,n in enumerate(ast.walk(tree))}
    def qual(n):
        q=[]
        while n in parents:
            n=parents[n]
            if isinstance(n,(ast.FunctionDef,ast.ClassDef)): q.append(n.name)
        return '.'.join(reversed(q))
    def add(n,desc,f):
        q=qual(n)
        if not q: return
        out.append((q,getattr(n,'lineno',0),desc,idx[n],f))
    for n in ast.walk(tree):
        if isinstance(n,ast.Compare):
            for k,o in enumerate(n.ops):
                for M in (CMP,CMP2):
                    if type(o) in M:
                        def f(m,k=k,t=M[type(o)]): m.ops[k]=t()
                        add(n,f'cmp {ast.unparse(n)} -> {M[type(o)].__name__}',f)
        elif isinstance(n,ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.left,ast.Constant) and isinstance(n.left.value,str): continue
            def f(m,t=BIN[type(n.op)]): m.op=t()
            add(n,f'bin {ast.unparse(n)[:60]} -> {BIN[type(n.op)].__name__}',f)
        elif isinstance(n,ast.BoolOp):
            def f(m): m.op=ast.Or() if isinstance(m.op,ast.And) else ast.And()
            add(n,f'bool {ast.unparse(n)[:60]}',f)
        elif isinstance(n,ast.UnaryOp) and isinstance(n.op,(ast.USub,ast.Not)):
            def f(m):
                m.op=ast.UAdd() if isinstance(m.op,ast.USub) else None
                if m.op is None: m.op=ast.Not(); m.operand=ast.UnaryOp(ast.Not(),m.operand)
            add(n,f'un {ast.unparse(n)[:60]}',f)
        elif isinstance(n,ast.Constant) and isinstance(n.value,(int,float)):
            v=n.value
            if isinstance(v,bool): new=[not v]
            elif isinstance(v,int): new=[v+1] + ([v-1] if v>0 else [])
            else: new=[v*1000 if 0<abs(v)<1e-2 else v*1.5 if v else 0.5]
            for w in new:
                def f(m,w=w): m.value=w
                add(n,f'const {v} -> {w} in {ast.unparse(parents[n])[:60]}',f)
        elif isinstance(n,ast.Attribute) and ATT.get(n.attr):
            def f(m): m.attr=ATT[m.attr]
            add(n,f'attr {ast.unparse(n)} -> {ATT[n.attr]} in {ast.unparse(parents[n])[:50]}',f)
        elif isinstance(n,ast.If):
            for w in (True,False):
                def f(m,w=w): m.test=ast.Constant(w)
                add(n,f'if {ast.unparse(n.test)[:60]} -> {w}',f)
        elif isinstance(n,(ast.Assign,ast.AugAssign,ast.Expr,ast.Raise,ast.Assert,ast.Continue,ast.Return)) and not (isinstance(n,ast.Expr) and isinstance(n.value,ast.Constant)):
            p=parents[n]
            for fld in ('body','orelse'):
                L=getattr(p,fld,None)
                if isinstance(L,list) and n in L:
                    if isinstance(n,ast.Assign) and not (isinstance(n.targets[0],(ast.Subscript,ast.Attribute)) ): 
                        # deletion of a name's assignment only when assigned before
                        continue
                    if isinstance(n,ast.Return) and not isinstance(p,ast.If): continue
                    def f(m): 
                        m.__class__=ast.Pass; m._fields=()
                    add(n,f'del {ast.unparse(n)[:70]}',f)
    return out
def gen(file):
    src=open(SRC+file).read(); tree=ast.parse(src); res=[]
    for q,l,d,i,f in muts(tree):
        M=MAP[file]; props=M.get(q) or M.get(q.split('.')[0]) or M.get('*')
        if not props: continue
        if q.split('.')[-1]=='__repr__': pass
        t=copy.deepcopy(tree); n=list(ast.walk(t))[i]; f(n)
        ast.fix_missing_locations(t)
        try: code=ast.unparse(t); compile(code,file,'exec')
        except Exception as e: continue
        res.append(dict(file=file,q=q,line=l,desc=d,props=props,code=code))
    return res
def lane(k, work, log):
    root = tempfile.mkdtemp(prefix='mutate')
    subprocess.check_call(['cp', '-a', REPO + '/.', root])
    env = dict(os.environ, SYMX_REPO=root, OMP_NUM_THREADS='1')
    while True:
        try:
            m = work.pop(0)
        except IndexError:
            break
        p = root + '/src/general_robotics_toolbox/' + m['file']
        with open(p, 'w') as f:
            f.write(m['code'])
        st, by = 'SURVIVED', ''
        for c in m['props']:
            r = subprocess.run([HERE + '/check', c, '--noevidence'], env=env, capture_output=True, text=True)
            if r.returncode:
                st, by = ('killed' if r.returncode == 1 else 'rc%d' % r.returncode), c
                break
            if 'UNDECIDED' in r.stdout or 'INCONCLUSIVE' in r.stdout:
                by += ' undecided ' + c
        shutil.copy(SRC + m['file'], p)
        log.write(json.dumps(dict(st=st, by=by, file=m['file'], q=m['q'], line=m['line'], desc=m['desc'])) + '\n')
        log.flush()
    shutil.rmtree(root)


if __name__ == '__main__':
    files, pat, n, lanes, out = sys.argv[1].split(','), sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    ms = [m for f in files for m in gen(f) if re.search(pat, m['q'])]
    random.Random(7).shuffle(ms)
    cap, sel = {}, []
    for m in ms:
        k = m['file'], m['q']
        if cap.setdefault(k, 0) < n:
            cap[k] += 1
            sel.append(m)
    print(len(ms), 'mutants', len(sel), 'selected', flush=True)
    with open(out, 'a') as log, ThreadPoolExecutor(lanes) as ex:
        list(ex.map(lambda k: lane(k, sel, log), range(lanes)))
