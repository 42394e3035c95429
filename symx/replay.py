"""Runs harness bodies on floats against the real, unpatched modules (real numpy). stdin: JSON jobs, one per line; stdout: JSON results."""
import importlib
import json
import os
import signal
import sys
import traceback
import warnings


def run_job(job):
    import importlib
    from symx import reg
    from symx.env import ConcreteEnv, Skip
    importlib.import_module(job['module'])
    sc = reg.find(job['module'], job['scenario'])
    env = ConcreteEnv(job['inputs'], job.get('tier', 'quick'), fill=job.get('fill', False))
    out = {'status': 'ok', 'fails': []}
    warnings.simplefilter('ignore')
    try:
        sc.fn(env, **job['params'])
    except Skip:
        out['status'] = 'skip'
        if env.fails:
            out['status'] = 'fail'
    except KeyError as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        last = [f for f in tb][-1].filename
        if '/symx/env.py' in last:
            out['status'] = 'missing'
            out['fails'] = [repr(e)]
            return out
        env.fails.append('unexpected ' + _exc(e))
    except Exception as e:
        env.fails.append('unexpected ' + _exc(e))
    out['ngoals'] = env.ngoals
    if env.fails:
        out['status'] = 'fail'
        out['fails'] = env.fails[:8]
    m = sys.modules.get('general_robotics_toolbox')
    out['impl'] = getattr(m, '__file__', None)
    return out


def _text(e):
    try:
        return str(e)
    except Exception:
        return '(no text)'


def _exc(e):
    tb = traceback.extract_tb(sys.exc_info()[2])
    w = ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-3:]))
    return '%s: %s @ %s' % (type(e).__name__, _text(e), w)


class _TO(Exception):
    pass


def main():
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    sys.stdout = sys.stderr
    import numpy
    import general_robotics_toolbox
    for line in sys.stdin:
        job = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            signal.alarm(60)
            try:
                res = run_job(job)
            except BaseException as e:
                res = {'status': 'error', 'fails': [_exc(e)]}
            with os.fdopen(w, 'w') as f:
                f.write(json.dumps(res, default=str))
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            txt = f.read()
        _, st = os.waitpid(pid, 0)
        res = json.loads(txt) if txt else {'status': 'error', 'fails': ['replay process died (%s)' % st]}
        if not txt and os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE):
            # the code under test took the interpreter down (native libraries)
            res = {'status': 'fail', 'fails': ['the process crashed (signal %d)' % os.WTERMSIG(st)]}
        res['id'] = job['id']
        out.write(json.dumps(res) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
