"""Runs one case of a helper module (its own PRELOAD) inside a case of a check."""
import json
import os
import signal
import subprocess
import sys

from . import core


def run(cx, check, i, timeout=400):
    mod = core.module(check)
    builds = {k: v for k, v in cx.builds.items()}
    env = core.worker_env(mod, builds)
    log = os.path.join(cx.scratch, 'sub.log')
    scratch = cx.tmp('sub')
    if os.path.exists(log):
        os.unlink(log)
    p = subprocess.Popen([sys.executable, '-m', 'vlib.worker', check, cx.tier, str(cx.seed), str(i),
                          str(i + 1), '1', log, scratch], env=env, cwd=core.VERIF,
                         stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise core.Inconclusive('helper process took too long')
    rec = None
    if os.path.exists(log):
        for line in open(log, 'rb'):
            r = json.loads(line)
            if 'i' in r:
                rec = r
    err = err.decode('utf-8', 'replace')
    if rec is None:
        key = core.san_summary(err)
        if key:
            raise core.Violation(key, err[-4000:])
        if p.returncode in (-signal.SIGPROF, -signal.SIGXCPU):
            raise core.Violation('hang:cpu', err[-2000:])
        if p.returncode == -signal.SIGKILL:
            raise core.Inconclusive('helper process was killed')
        if p.returncode < 0:
            raise core.Violation('signal:%d' % -p.returncode, err[-3000:])
        raise core.Inconclusive('helper process: %s %s' % (p.returncode, err[-600:]))
    cx.evals += rec['n']
    cx.marks.update(rec['m'])
    for k, v in rec['c'].items():
        cx.count(k, v)
    for s in rec['p']:
        cx.sample(s)
    for k, d in rec['v']:
        cx.violation(k, d)
    if rec.get('x'):
        raise core.Inconclusive(rec['x'])
