"""Runs a check: shards the cases over worker processes, attributes crashes and
hangs to cases, confirms them by running the case again alone, matches them with
the known findings, prints VIOLATION lines and writes the evidence file."""
import fnmatch
import hashlib
import importlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import build

VERIF = build.VERIF
REPO = build.REPO
PY = sys.executable or 'python3'
NPROC = int(os.environ.get('BPAK_JOBS', '8'))
DEADLINE = 600          # safety stop, not the normal bound
STALL = 150             # wall seconds without progress of a worker
HANGS = 150             # a run that saw a hang is ended after this many seconds
CONFIRM = 240           # no further confirmations after this, if one was made


class Inconclusive(Exception):
    """the case could not be judged (resource limits, environment)"""


class Violation(Exception):
    def __init__(self, key, detail=''):
        Exception.__init__(self, key, detail)
        self.key, self.detail = key, detail


def module(check):
    return importlib.import_module('checks.' + check.lower())


def rng_for(seed, check, i):
    return random.Random('%s:%s:%s' % (seed, check, i))


class Cx:
    """what a case sees"""

    def __init__(self, check, tier, seed, builds, scratch, verbose=False):
        self.check, self.tier, self.seed = check, tier, seed
        self.builds, self.scratch, self.verbose = builds, scratch, verbose
        self.state = {}
        self.reset()

    def reset(self):
        self.evals = 0
        self.marks = set()
        self.counts = {}
        self.samples = []
        self.viol = []

    def eval(self, mark=None, n=1):
        """one judged execution; mark: what makes it distinct, None: trivial"""
        self.evals += n
        if mark is not None:
            if not isinstance(mark, (bytes, str)):
                mark = repr(mark)
            if isinstance(mark, str):
                mark = mark.encode('utf-8', 'surrogateescape')
            self.marks.add(hashlib.sha1(mark).hexdigest()[:12])

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(str(text)[:300])

    def violation(self, key, detail=''):
        if len(self.viol) < 20:
            self.viol.append((str(key), str(detail)[:4000]))
        if self.verbose:
            print('   violation:', key, detail, file=sys.stderr)

    def check_that(self, cond, key, detail=''):
        if not cond:
            self.violation(key, detail() if callable(detail) else detail)
        return cond

    def tmp(self, prefix='c'):
        return tempfile.mkdtemp(prefix=prefix, dir=self.scratch)

    def drop(self, path):
        shutil.rmtree(path, ignore_errors=True)


# ---------------------------------------------------------------- sanitizer logs
def san_summary(text):
    """short stable key for a sanitizer report, or None"""
    m = re.search(r'runtime error: (.*)', text)
    kind = None
    if m and 'AddressSanitizer: ' not in text:
        msg = re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m.group(1))[:80]
        loc = re.search(r'(\w+\.[ch]):\d+:\d+: runtime error', text)
        return 'ubsan:%s:%s' % (loc.group(1) if loc else '?', msg)
    m = re.search(r'ERROR: (AddressSanitizer|LeakSanitizer|ThreadSanitizer): ([\w-]+)', text)
    if not m:
        m = re.search(r'WARNING: (ThreadSanitizer): ([\w ]+)', text)
    if m:
        kind = m.group(2).strip()
        fr = re.findall(r'#\d+ 0x[0-9a-f]+ in (\w+) (?:/\S*?/)?(lib|src|python|ext|include)/\S+', text)
        if not fr:
            fr = re.findall(r'#\d+ (\w+) (?:/\S*?/)?(lib|src|python|ext|include)/\S+', text)
        return 'asan:%s:%s' % (kind, fr[0][0] if fr else '?')
    return None


ASAN_OPTIONS = ('detect_leaks=%d:abort_on_error=1:allocator_may_return_null=1:'
                'malloc_fill_byte=%d:max_malloc_fill_size=65536:detect_stack_use_after_return=1:'
                'handle_segv=1:handle_abort=1:disable_coredump=1:symbolize=%d:'
                'max_allocation_size_mb=3000:quarantine_size_mb=32')


def asan_env(leaks=0, fill=0xbe, symbolize=1):
    return {'ASAN_OPTIONS': ASAN_OPTIONS % (leaks, fill, symbolize),
            'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:abort_on_error=1',
            'LSAN_OPTIONS': 'print_suppressions=0'}


def worker_env(mod, builds):
    env = dict(os.environ)
    env['PYTHONPATH'] = VERIF
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONHASHSEED'] = '0'
    env['LC_ALL'] = 'C.UTF-8'
    env.pop('LD_PRELOAD', None)
    pre = getattr(mod, 'PRELOAD', None)
    env['BPAK_CHECK_BUILDS'] = json.dumps(builds)
    if pre == 'asan':
        env.update(asan_env())
        env['LD_PRELOAD'] = build.sanlib('libasan.so')
        env['PYTHONMALLOC'] = 'malloc'
    elif pre == 'mtrace':
        env['LD_PRELOAD'] = builds['plain']['mtrace']
        env['PYTHONMALLOC'] = 'malloc'
    return env


class Worker:
    def __init__(self, run, idx, lo, hi, step):
        self.run, self.idx, self.lo, self.hi, self.step = run, idx, lo, hi, step
        self.log = os.path.join(run.scratch, 'w%d.jsonl' % idx)
        self.err = os.path.join(run.scratch, 'w%d.err' % idx)
        self.start()

    def start(self):
        for f in (self.log, self.err):
            open(f, 'w').close()
        self.read = 0
        self.cur = None
        self.partial = b''
        self.progress = time.time()
        self.errf = open(self.err, 'wb')
        self.p = subprocess.Popen(
            [PY, '-X', 'faulthandler', '-m', 'vlib.worker', self.run.check, self.run.tier,
             str(self.run.seed), str(self.lo), str(self.hi), str(self.step), self.log,
             self.run.scratch],
            cwd=VERIF, env=self.run.env, stdout=self.errf, stderr=self.errf,
            stdin=subprocess.DEVNULL, start_new_session=True)

    def pump(self):
        with open(self.log, 'rb') as f:
            f.seek(self.read)
            d = f.read()
        if not d:
            return
        self.read += len(d)
        self.progress = time.time()
        lines = (self.partial + d).split(b'\n')
        self.partial = lines.pop()
        for ln in lines:
            r = json.loads(ln)
            if 's' in r:
                self.cur = r['s']
            else:
                self.cur = None
                self.lo = r['i'] + self.step
                self.run.result(r)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def errtext(self):
        self.errf.flush()
        with open(self.err, 'rb') as f:
            d = f.read()
        return d[-60000:].decode('utf-8', 'replace')


class Run:
    def __init__(self, check, tier, seed, only=None, ncases=None, verbose=False):
        self.check, self.tier, self.seed = check, tier, seed
        self.mod = module(check)
        self.only, self.verbose = only, verbose
        self.t0 = time.time()
        self.evals = 0
        self.marks = set()
        self.counts = {}
        self.samples = []
        self.viol = {}
        self.pending = {}
        self.inconclusive = []
        self.done = 0
        self.ncases = ncases
        base = os.environ.get('TMPDIR', '/tmp')
        self.scratch = tempfile.mkdtemp(prefix='bpakchk-%s-' % check, dir=base)

    def result(self, r):
        self.done += 1
        self.evals += r['n']
        self.marks.update(r['m'])
        for k, v in r['c'].items():
            if k.startswith('max:'):
                self.counts[k] = max(self.counts.get(k, 0), v)
            else:
                self.counts[k] = self.counts.get(k, 0) + v
        for s in r['p']:
            if len(self.samples) < 12:
                self.samples.append(s)
        for k, d in r['v']:
            self.pending.setdefault(k, (r['i'], d))
        if r.get('x'):
            self.inconclusive.append((r['i'], r['x']))

    def builds(self):
        b = {}
        for fl, what in self.mod.BUILD.items():
            b[fl] = build.get(fl, what)
        return b

    def single(self, i, mult=2):
        """run one case alone; returns list of (key, detail)"""
        log = os.path.join(self.scratch, 'one.jsonl')
        err = os.path.join(self.scratch, 'one.err')
        open(log, 'w').close()
        env = dict(self.env)
        env['BPAK_CPU_MULT'] = str(mult)
        with open(err, 'wb') as ef:
            p = subprocess.Popen(
                [PY, '-X', 'faulthandler', '-m', 'vlib.worker', self.check, self.tier,
                 str(self.seed), str(i), str(i + 1), '1', log, self.scratch],
                cwd=VERIF, env=env, stdout=ef, stderr=ef, stdin=subprocess.DEVNULL,
                start_new_session=True)
            try:
                rc = p.wait(STALL * 1.5)
            except subprocess.TimeoutExpired:
                rc = 'stall'
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        text = open(err, 'rb').read()[-60000:].decode('utf-8', 'replace')
        lines = [json.loads(x) for x in open(log) if x.endswith('\n')]
        res = [x for x in lines if 'i' in x]
        if res:
            r = res[0]
            return [(k, d) for k, d in r['v']], r.get('x'), text
        return [self.death(rc, text)], None, text

    def death(self, rc, text):
        key = san_summary(text)
        if key:
            return (key, text[-3500:])
        if rc == 'stall':
            return ('hang:blocked', 'no progress for %d s' % STALL)
        if rc is not None and rc < 0:
            s = -rc
            if s in (signal.SIGPROF, signal.SIGXCPU, signal.SIGVTALRM):
                return ('hang:cpu', 'exceeded the CPU limit of a case\n' + text[-1500:])
            if s == signal.SIGKILL:
                return ('killed', 'the worker was killed (memory?)')
            return ('signal:%d' % s, text[-3500:])
        return ('exit:%s' % rc, text[-3500:])

    def go(self):
        try:
            return self._go()
        finally:
            shutil.rmtree(self.scratch, ignore_errors=True)

    def _go(self):
        try:
            self.b = self.builds()
        except build.BuildError as e:
            print('ERROR: the tree does not build:\n%s' % str(e)[:3000])
            return 2
        self.env = worker_env(self.mod, self.b)
        n = self.ncases if self.ncases is not None else self.mod.cases(self.tier)
        if self.only is not None:
            v, x, text = self.single(self.only)
            print('case %d: %s' % (self.only, 'inconclusive: ' + x if x else
                                   'ok' if not v else ''))
            for k, d in v:
                print('  %s\n    %s' % (k, d.replace('\n', '\n    ')))
            if self.verbose:
                print(text[-6000:])
            return 1 if v else 0
        jobs = min(NPROC, getattr(self.mod, 'JOBS', NPROC), n)
        ws = [Worker(self, w, w, n, jobs) for w in range(jobs)]
        deaths = 0
        live = list(ws)
        stopped = False
        while live:
            time.sleep(0.05)
            for w in list(live):
                w.pump()
                rc = w.p.poll()
                if rc is None:
                    if time.time() - w.progress > STALL:
                        w.kill()
                        rc = 'stall'
                    else:
                        continue
                w.pump()
                if rc == 0:
                    live.remove(w)
                    continue
                deaths += 1
                text = w.errtext()
                key, detail = self.death(rc, text)
                cur = w.cur if w.cur is not None else w.lo
                if key == 'killed':
                    self.inconclusive.append((cur, key))
                elif w.cur is None and not (isinstance(rc, int) and rc < 0):
                    # died between cases without a signal: harness trouble
                    self.inconclusive.append((cur, 'worker exit %s: %s' % (rc, text[-600:])))
                    if deaths > 20:
                        live.remove(w)
                        continue
                else:
                    self.pending.setdefault(key, (cur, detail))
                w.lo = cur + w.step
                if deaths >= 12 or w.lo >= n:
                    live.remove(w)
                else:
                    w.start()
            t = time.time() - self.t0
            if not stopped and (len(self.pending) >= 6 or t > DEADLINE or
                                (t > HANGS and any('hang' in k for k in self.pending)
                                 and self.tier == 'quick')):
                stopped = True
                for w in live:
                    w.kill()
                    w.pump()
                live = []
        # confirm what was seen by running the case alone
        known = load_findings(self.check)
        confirmed = {}
        unconfirmed = []
        todo = sorted(self.pending.items(), key=lambda x: 'hang' in x[0])[:8]
        for key, (i, detail) in todo:
            if self.tier == 'quick' and time.time() - self.t0 > (
                    60 if getattr(self.mod, 'TRUST_FIRST', False) else CONFIRM) and \
                    any(not match_finding(known, k) for k in confirmed):
                if getattr(self.mod, 'TRUST_FIRST', False):
                    unconfirmed.append((key, i, detail, ''))
                    continue
                break
            v, x, text = self.single(i)
            keys = dict(v)
            if key in keys:
                confirmed[key] = (i, keys[key])
            elif v:
                for k, d in v:
                    confirmed.setdefault(k, (i, d))
            else:
                unconfirmed.append((key, i, detail, x))
        # races and scheduling dependent reports need not repeat
        if getattr(self.mod, 'TRUST_FIRST', False):
            for key, i, detail, x in unconfirmed:
                confirmed[key] = (i, detail)
            unconfirmed = []
        bad = 0
        for key, (i, detail) in sorted(confirmed.items()):
            f = match_finding(known, key)
            if f:
                print('KNOWN-FINDING: property=%s %s' % (self.check, f))
                continue
            bad += 1
            path = self.write_replay(key, i, detail)
            print('VIOLATION property=%s replay=%s' % (self.check, path))
            print('  %s (case %d)' % (key, i))
            print('    ' + detail[:1500].replace('\n', '\n    '))
        for key, i, detail, x in unconfirmed:
            print('note: not repeatable, not reported: %s (case %d) %s' % (key, i, x or ''))
        for i, x in self.inconclusive[:5]:
            print('note: inconclusive case %d: %s' % (i, x))
        wall = time.time() - self.t0
        self.evidence(n, bad, wall)
        print('%s %s seed=%d: %d/%d cases, %d judged executions, %d distinct non-trivial, '
              '%d violations, %.1f s' % (self.check, self.tier, self.seed, self.done, n,
                                         self.evals, len(self.marks), bad, wall))
        for k in sorted(self.counts):
            print('  observed %s: %d' % (k, self.counts[k]))
        if bad:
            return 1
        need = []
        if not stopped or time.time() - self.t0 <= DEADLINE:
            # REQUIRED says what a run usually exceeds.  How many writes, faults or
            # overlaps there are also depends on how the code is written, so only
            # a run far below that counts as one that did not observe anything
            for k, v in getattr(self.mod, 'REQUIRED', {}).items():
                v = -(-v // 5)
                if self.counts.get(k, 0) < v:
                    need.append('%s >= %d (saw %d)' % (k, v, self.counts.get(k, 0)))
        if self.evals == 0 or len(self.marks) == 0:
            need.append('any judged execution')
        if len(self.inconclusive) > max(3, n // 20):
            need.append('fewer inconclusive cases (%d)' % len(self.inconclusive))
        if need and self.ncases is None:
            print('ERROR: the run did not observe enough: ' + '; '.join(need))
            return 2
        return 0

    def write_replay(self, key, i, detail):
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (
            self.check, hashlib.sha1(key.encode('utf-8', 'replace')).hexdigest()[:10]))
        with open(path, 'w') as f:
            json.dump({'property': self.check, 'key': key, 'case': i, 'seed': self.seed,
                       'tier': self.tier, 'detail': detail,
                       'replay': 'VERIF_SEED=%d python3 run.py %s %s --case %d' % (
                           self.seed, self.check, self.tier, i)}, f, indent=1)
        return path

    def evidence(self, n, bad, wall):
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        cov = {'evaluations': self.evals, 'distinct_nontrivial': len(self.marks),
               'rule': self.mod.RULE, 'samples': self.samples or ['none'],
               'cases_run': self.done, 'cases_planned': n,
               'inconclusive': len(self.inconclusive),
               'observed': dict(sorted(self.counts.items()))}
        ev = {'property': self.check, 'tier': self.tier, 'seed': self.seed,
              'level': self.mod.LEVEL, 'coverage': cov,
              'assumptions': getattr(self.mod, 'ASSUMPTIONS', []),
              'wall_s': round(wall, 2), 'violations': bad}
        p = os.path.join(d, self.check + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.rename(p + '.tmp', p)


FINDINGS = os.path.join(VERIF, 'known_findings.txt')


def load_findings(check):
    """lines 'known: property=<id> key=<glob> <text>'; 'fixed:' lines suppress
    nothing"""
    out = []
    if os.path.exists(FINDINGS):
        for ln in open(FINDINGS):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', ln)
            if m and m.group(1) == check:
                out.append((m.group(2), m.group(3).strip()))
    return out


def match_finding(known, key):
    for pat, text in known:
        if fnmatch.fnmatchcase(key.replace(' ', '_'), pat):
            return text
    return None


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('check')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case', type=int)
    ap.add_argument('--n', type=int)
    ap.add_argument('--seed', type=int)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    seed = a.seed
    if seed is None:
        try:
            seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            seed = 1
    return Run(a.check.upper(), a.tier, seed, a.case, a.n, a.v).go()
