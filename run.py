#!/opt/venv/bin/python
"""./check C01 [--tier quick|thorough] [--only scenario] [-v]      decide a property
./check --replay FILE                                              run one recorded counterexample against the real code"""
import argparse
import glob
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import resource
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
REPO = os.environ.get('SYMX_REPO', '/repo')
NPROC = int(os.environ.get('SYMX_JOBS', '8'))
PY = '/opt/venv/bin/python'


def load_checks():
    for f in sorted(glob.glob(os.path.join(HERE, 'checks', 'c*.py'))):
        importlib.import_module('checks.' + os.path.basename(f)[:-3])


# ----------------------------------------------------------------- symbolic phase (one process per scenario configuration)
def worker(conn, module, name, params, tier, seed):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try:
        from symx import reg, solve
        from symx.explore import Explorer
        sc = reg.find(module, name)
        funcs = set()
        src = os.path.join(REPO, 'src') + '/'
        mon = sys.monitoring
        mon.use_tool_id(3, 'symx')

        def start(code, off):
            if code.co_filename.startswith(src):
                funcs.add('%s:%s' % (os.path.basename(code.co_filename), code.co_qualname))
            return mon.DISABLE
        mon.register_callback(3, mon.events.PY_START, start)
        mon.set_events(3, mon.events.PY_START)
        o = options(sc, tier)
        ex = Explorer('%s/%s' % (name, json.dumps(params, sort_keys=True, default=str)), sc.fn, params, seed=seed, tier=tier,
                      npts=o.get('npts', 20), max_paths=o.get('max_paths', 4000), budget_s=o['budget'], goal_ms=o['goal_ms'],
                      fork_ms=o.get('fork_ms'), noise=o.get('noise', 0))
        ex.on_path = lambda r: conn.send(('path', r))
        ex.on_restart = lambda: conn.send(('restart', None))
        t = time.time()
        ex.run()
        conn.send(('done', {'unexplored': ex.unexplored, 'funcs': sorted(f for f in funcs if not f.endswith('<module>')),
                            'stats': dict(solve.STATS), 'secs': time.time() - t}))
    except BaseException as e:
        import traceback
        conn.send(('crash', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])))
    conn.close()


def options(sc, tier):
    o = {'budget': 40, 'goal_ms': 3000}
    if tier == 'thorough':
        o = {'budget': 300, 'goal_ms': 15000}
    o.update({k: v for k, v in sc.opts.items() if not k.startswith('t_')})
    if tier == 'thorough':
        o['budget'] = max(o['budget'], 300)
        o['goal_ms'] = max(o['goal_ms'], 15000)
        o['npts'] = max(o.get('npts', 20), 40)
        o.update({k[2:]: v for k, v in sc.opts.items() if k.startswith('t_')})
    return o


class Job:
    pass


def symbolic_phase(jobs, tier, seed, deadline):
    ctx = mp.get_context('fork')
    todo = list(jobs)
    live = {}
    while todo or live:
        while todo and len(live) < NPROC:
            j = todo.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(w, j.sc.module, j.sc.name, j.params, tier, seed), daemon=True)
            p.start()
            w.close()
            j.paths, j.status, j.info = [], 'running', {}
            j.proc, j.t0 = p, time.time()
            j.kill = j.t0 + options(j.sc, tier)['budget'] * 1.5 + 15
            live[r] = j
        for c in multiprocessing.connection.wait(list(live), timeout=1.0):
            j = live[c]
            try:
                while c.poll():
                    kind, x = c.recv()
                    if kind == 'path':
                        j.paths.append(x)
                    elif kind == 'restart':
                        j.paths = []
                    elif kind == 'done':
                        j.status, j.info = 'done', x
                    else:
                        j.status, j.info = 'crash', {'error': x}
            except EOFError:
                if j.status == 'running':
                    j.status = 'died'
                j.proc.join()
                j.secs = time.time() - j.t0
                del live[c]
        now = time.time()
        for c, j in list(live.items()):
            if now > min(j.kill, deadline):
                os.kill(j.proc.pid, signal.SIGKILL)
                j.proc.join()
                j.status = 'timeout' if j.status == 'running' else j.status
                j.secs = time.time() - j.t0
                c.close()
                del live[c]
        if now > deadline:
            for j in todo:
                j.paths, j.status, j.info, j.secs = [], 'notrun', {}, 0
            todo = []


# ----------------------------------------------------------------- concrete phase (real modules, real numpy)
def replay_phase(reqs):
    """reqs: list of dicts with id, module, scenario, params, inputs."""
    if not reqs:
        return {}
    n = min(NPROC, (len(reqs) + 3) // 4)
    env = dict(os.environ)
    env['PYTHONPATH'] = HERE + (':' + os.path.join(REPO, 'src'))
    env['OMP_NUM_THREADS'] = env['OPENBLAS_NUM_THREADS'] = '1'
    boot = ("import sys; sys.dont_write_bytecode=True; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages');"
            "import glob,importlib,os; import symx.replay as r; r.main()")
    out = {}
    procs = []
    for k in range(n):
        p = subprocess.Popen([PY, '-B', '-c', boot], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=HERE)
        procs.append((p, reqs[k::n]))
    import threading

    def drive(p, rs):
        so, se = p.communicate(''.join(json.dumps(r, default=str) + '\n' for r in rs).encode())
        for l in so.decode().splitlines():
            try:
                x = json.loads(l)
                out[x['id']] = x
            except ValueError:
                pass
        for r in rs:
            out.setdefault(r['id'], {'status': 'error', 'fails': ['replay worker: ' + se.decode()[-400:]]})
    ts = [threading.Thread(target=drive, args=a) for a in procs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return out


def known_findings(prop):
    """lines 'finding: property=<id> scenario=<name> [params=<json>] match=<substring of the failure> :: <what fails>'"""
    res = []
    try:
        with open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')) as f:
            for l in f:
                l = l.strip()
                if l.startswith('finding: property=%s ' % prop):
                    head, what = l.split(' :: ', 1)
                    d = dict(x.split('=', 1) for x in head.split(' ')[1:] if '=' in x)
                    d['what'] = what
                    res.append(d)
    except FileNotFoundError:
        pass
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--noevidence', action='store_true')
    ap.add_argument('--selftest', action='store_true')
    a = ap.parse_args()
    if a.selftest:
        import numpy
        import z3
        load_checks()
        from symx import loader, reg
        from symx.core import Ctx
        assert len({s.prop for s in reg.SCENARIOS}) > 10
        s = z3.Solver()
        s.add(z3.Real('x') * z3.Real('x') == 2)
        assert s.check() == z3.sat
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        print('ready: numpy', numpy.__version__, 'z3', z3.get_version_string(), len(reg.SCENARIOS), 'scenarios')
        return 0
    if a.replay:
        with open(a.replay) as f:
            d = json.load(f)
        d['id'] = 0
        r = replay_phase([d])[0]
        print(json.dumps(r, indent=1))
        return 1 if r['status'] == 'fail' else 0
    t0 = time.time()
    load_checks()
    from symx import reg
    tier = a.tier
    limit = 840 if tier == 'quick' else 3 * 3600
    deadline = t0 + limit - 90
    jobs = []
    for sc in reg.SCENARIOS:
        if sc.prop == a.prop and (not a.only or a.only == sc.name):
            for p in sc.configs(tier):
                j = Job()
                j.sc, j.params = sc, p
                jobs.append(j)
    if not jobs:
        print('no scenario for', a.prop)
        return 2
    jobs.sort(key=lambda j: -options(j.sc, tier)['budget'])
    symbolic_phase(jobs, tier, a.seed, deadline)
    t1 = time.time()

    # concrete runs: every candidate counterexample; every path's witness
    reqs, meta = [], {}
    for j in jobs:
        for k, p in enumerate(j.paths):
            cand = {}
            for label, inputs, kind in p.candidates:
                key = json.dumps(inputs, sort_keys=True, default=str)
                if key not in cand and len(cand) < 6:
                    cand[key] = (label, inputs, kind)
            for label, inputs, kind in cand.values():
                i = len(reqs)
                reqs.append({'id': i, 'module': j.sc.module, 'scenario': j.sc.name, 'params': j.params, 'inputs': inputs, 'tier': tier, 'fill': True})
                meta[i] = (j, p, label, kind)
    ncand = len(reqs)
    cap = 120 if tier == 'quick' else 2000
    for j in jobs:
        if j.sc.opts.get('nowitness'):
            continue
        n = 0
        for p in j.paths:
            if p.witness is not None and n < cap:
                n += 1
                i = len(reqs)
                reqs.append({'id': i, 'module': j.sc.module, 'scenario': j.sc.name, 'params': j.params, 'inputs': p.witness, 'tier': tier,
                             'fill': p.outcome in ('unsupported', 'limit')})
                meta[i] = (j, p, 'path witness', 'path')
    res = replay_phase(reqs)

    known = known_findings(a.prop)
    violations, kf, unrep, problems = [], {}, [], []
    validated = skipped = 0
    impls = set()
    for i, (j, p, label, kind) in meta.items():
        r = res[i]
        if r.get('impl'):
            impls.add(r['impl'])
        if r['status'] == 'fail':
            hit = None
            for k in known:
                if k['scenario'] == j.sc.name and ('params' not in k or json.loads(k['params']) == j.params) and \
                        all(k['match'].replace('_', ' ') in f.replace('_', ' ') for f in r['fails']):
                    hit = k
            if hit:
                kf.setdefault(hit['what'], []).append(i)
            else:
                violations.append(i)
        elif kind == 'path':
            if r['status'] == 'ok':
                validated += 1
            else:
                skipped += 1
                if r['status'] in ('error', 'missing'):
                    problems.append('%s: replay %s %s' % (j.sc.name, r['status'], r['fails']))
        else:
            unrep.append(i)
    bad_impl = [m for m in impls if not os.path.realpath(m).startswith(os.path.realpath(os.path.join(REPO, 'src')) + '/')]
    if bad_impl:
        print('ERROR: concrete runs used', bad_impl)
        return 2
    # a path whose failure reproduced on some candidate is explained; candidates that did not reproduce on the same path are not counted
    expl = {(id(meta[i][0]), id(meta[i][1])) for i in violations} | {(id(meta[i][0]), id(meta[i][1])) for l in kf.values() for i in l}
    unrep = [i for i in unrep if (id(meta[i][0]), id(meta[i][1])) not in expl and not meta[i][0].sc.opts.get('noise')]

    goals = disch = npaths = feas = trans = 0
    inconcl = {}
    # a solver model outside the exact semantics (transcendental functions are abstracted) decides nothing when it does not reproduce
    for i in [i for i in unrep if meta[i][3] == 'model']:
        x = '%s: %s (solver model not reproduced)' % (meta[i][0].sc.name, meta[i][2][:120])
        inconcl[x] = inconcl.get(x, 0) + 1
    unrep = [i for i in unrep if meta[i][3] != 'model']
    funcs = set()
    queries = {'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'time': 0.0}
    samples = []
    rows = []
    notes = set()
    for j in jobs:
        g = d = f = 0
        for p in j.paths:
            if p.outcome == 'infeasible':
                continue
            f += 1
            g += p.goals
            d += p.discharged
            trans += p.decisions
            notes |= p.notes
            for x in p.inconclusive:
                inconcl.setdefault('%s: %s' % (j.sc.name, str(x)[:150]), 0)
                inconcl['%s: %s' % (j.sc.name, str(x)[:150])] += 1
        npaths += len(j.paths)
        feas += f
        goals += g
        disch += d
        if j.status == 'crash':
            problems.append('%s %s: crash: %s' % (j.sc.name, j.params, j.info['error']))
        elif j.status in ('died', 'timeout', 'notrun'):
            inconcl['%s %s: %s after %.0f s' % (j.sc.name, j.params, j.status, j.secs)] = 1
        un = j.info.get('unexplored', 0)
        if un:
            inconcl['%s %s: %d paths not explored (budget)' % (j.sc.name, j.params, un)] = 1
        funcs |= set(j.info.get('funcs', ()))
        for k, v in j.info.get('stats', {}).items():
            if k in queries:
                queries[k] += v
        wit = [p for p in j.paths if p.witness is not None]
        if wit and len(samples) < 12:
            samples.append({'scenario': j.sc.name, 'params': j.params, 'path_decisions': wit[0].decisions, 'witness_inputs': wit[0].witness,
                            'obligations': wit[0].goals, 'discharged': wit[0].discharged})
        rows.append({'scenario': j.sc.name, 'params': j.params, 'status': j.status, 'paths': f, 'infeasible': len(j.paths) - f, 'obligations': g,
                     'discharged': d, 'unexplored': un, 'witnessed_paths': len(wit), 'secs': round(j.secs, 2),
                     'undecided': sum(len(p.inconclusive) for p in j.paths)})
        if j.status == 'done' and not un and g == 0 and not any(p.candidates or p.inconclusive for p in j.paths):
            problems.append('%s %s: vacuous (no feasible path reaches an obligation)' % (j.sc.name, j.params))
    if a.v:
        for r in rows:
            print(r)
        for x, n in sorted(inconcl.items()):
            print('  inconclusive x%d: %s' % (n, x))
        for i in unrep:
            print('  not reproduced:', meta[i][0].sc.name, meta[i][0].params, meta[i][2], reqs[i]['inputs'], res[i])
    for what, l in kf.items():
        print('KNOWN-FINDING: property=%s %s' % (a.prop, what))
    shown = {}
    for i in violations:
        j, p, label, kind = meta[i]
        key = j.sc.name
        if shown.get(key, 0) >= 2 or sum(shown.values()) >= 8:
            continue
        shown[key] = shown.get(key, 0) + 1
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        d = dict(reqs[i], property=a.prop, obligation=label, found_by=kind, failures=res[i]['fails'])
        h = hashlib.sha1(json.dumps(d, sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(HERE, 'replays', '%s-%s.json' % (a.prop, h))
        with open(path, 'w') as f:
            json.dump(d, f, indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
        print('   %s %s: %s' % (j.sc.name, json.dumps(j.params, default=str), '; '.join(res[i]['fails'])[:600]))
        print('   inputs: %s' % json.dumps(reqs[i]['inputs'], default=str)[:800])
    wall = time.time() - t0
    ev = {'property': a.prop, 'tier': tier, 'seed': a.seed, 'level': 'model_checking', 'violations': len(violations), 'wall_s': round(wall, 2),
          'coverage': {'states': feas, 'transitions': trans, 'traces_validated_against_impl': validated, 'samples': samples,
                       'symbolic_paths_explored': npaths, 'obligations_raised': goals, 'obligations_discharged_by_solver': disch,
                       'inconclusive': inconcl, 'solver_queries': queries['queries'], 'solver_unsat': queries['unsat'], 'solver_sat': queries['sat'],
                       'solver_unknown': queries['unknown'], 'solver_time_s': round(queries['time'], 2), 'functions_encoded': sorted(funcs),
                       'candidates_replayed': ncand, 'candidates_not_reproduced': len(unrep), 'witness_replays_skipped': skipped,
                       'scenarios': rows, 'symbolic_phase_s': round(t1 - t0, 2),
                       'known_findings_seen': sorted(kf)},
          'assumptions': sorted(notes) + ['float arithmetic is modelled as exact real arithmetic; see DESIGN.md for the bounds of each scenario']}
    if not a.noevidence:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    for x, n in sorted(inconcl.items()):
        print('INCONCLUSIVE x%d %s' % (n, x))
    print('%s %s: %d paths, %d/%d obligations discharged, %d witness runs agree, %d queries, %.1f s solver, %.1f s wall' % (
        a.prop, tier, feas, disch, goals, validated, queries['queries'], queries['time'], wall))
    if violations:
        return 1
    for x in problems:
        print('ERROR', x)
    for i in unrep[:5]:
        print('UNDECIDED: counterexample did not reproduce on the real code: %s %s %s inputs=%s -> %s' % (
            meta[i][0].sc.name, meta[i][0].params, meta[i][2], json.dumps(reqs[i]['inputs'], default=str)[:600], res[i]))
    # an unreproduced counterexample is undecided (e.g. a border case that rounding moves); strict mode, used in development, insists
    if problems or (unrep and os.environ.get('SYMX_STRICT')):
        return 2
    if not kf and disch == 0:
        print('ERROR nothing was decided')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
