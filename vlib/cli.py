"""Runs the command line tool of the tree under test in scratch directories."""
import os
import signal
import subprocess

from . import core


class Res:
    __slots__ = ('rc', 'out', 'err', 'args')

    def __init__(self, rc, out, err, args):
        self.rc, self.out, self.err, self.args = rc, out, err, args

    @property
    def ok(self):
        return self.rc == 0

    def text(self):
        return self.out.decode('utf-8', 'replace')

    def brief(self):
        return '%s -> %s\n%s\n%s' % (' '.join(str(a) for a in self.args), self.rc,
                                     self.out[-600:].decode('utf-8', 'replace'),
                                     self.err[-1800:].decode('utf-8', 'replace'))


def env_for(flavour, leaks=0, extra=None):
    env = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C', 'HOME': '/nonexistent', 'TZ': 'UTC'}
    if flavour == 'asan':
        env.update(core.asan_env(leaks=leaks))
    if extra:
        env.update(extra)
    return env


def run(cx, args, cwd, flavour='asan', fsize=512 << 20, cpu=30, wall=120, leaks=0,
        env=None, judge=True, keep_xfsz=False, out_limit=32 << 20, stdin=None):
    """one tool run.  With judge, crashes, sanitizer reports and hangs become
    violations of the running check."""
    tool = cx.builds[flavour]['tool']
    lim = ['prlimit', '--cpu=%d' % cpu, '--fsize=%d' % fsize]
    if flavour != 'asan' and flavour != 'tsan':
        lim.append('--as=%d' % (6 << 30))
    argv = lim + ['--', tool] + [os.fsencode(a) if isinstance(a, str) else a for a in args]
    shown = ['bpak'] + [a if isinstance(a, str) else os.fsdecode(a) for a in args]
    for attempt in (0, 1):
        p = subprocess.Popen(argv, cwd=cwd, env=env_for(flavour, leaks, env),
                             stdin=subprocess.DEVNULL if stdin is None else stdin,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             restore_signals=not keep_xfsz)
        try:
            out, err = p.communicate(timeout=wall * (attempt + 1))
            rc = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            rc = 'timeout'
        if rc in ('timeout', -signal.SIGXCPU, -signal.SIGKILL) and attempt == 0:
            lim[1] = '--cpu=%d' % (cpu * 2)
            argv[1] = lim[1]
            continue
        break
    r = Res(rc, out, err, shown)
    cx.count('tool runs')
    if judge:
        judge_end(cx, r, out_limit)
    return r


def judge_end(cx, r, out_limit=32 << 20):
    """the run must end by itself, without sanitizer report or signal"""
    sub = r.args[1] if len(r.args) > 1 else ''
    key = core.san_summary(r.err.decode('utf-8', 'replace'))
    if key:
        raise core.Violation(key, r.brief())
    if r.rc == 'timeout' or r.rc == -signal.SIGXCPU:
        raise core.Violation('hang:%s' % sub, r.brief())
    if r.rc == -signal.SIGXFSZ:
        raise core.Violation('unbounded-output:%s' % sub, r.brief())
    if r.rc == -signal.SIGKILL:
        raise core.Inconclusive('tool was killed')
    if isinstance(r.rc, int) and r.rc < 0:
        raise core.Violation('signal:%d:%s' % (-r.rc, sub), r.brief())
    if len(r.out) > out_limit:
        raise core.Violation('unbounded-stdout:%s' % sub, r.brief())
