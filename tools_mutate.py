#!/usr/bin/env python3
"""Mutation testing of the checks (development only; no check uses this).

  tools_mutate.py OUT.jsonl COUNT [SEED] [JOBS] [FILE-GLOB]

Draws random one-line changes of /repo's sources, drops the ones that do not
build or fail the repository's tests, and runs the quick checks, with fewer
cases, until one reports a violation.  Survivors are what has to be looked at."""
import fnmatch
import json
import multiprocessing
import os
import random
import re
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
ALL = ['C17', 'C20', 'C08', 'C09', 'C12', 'C07', 'C04', 'C24', 'C13', 'C14',
       'C19', 'C10', 'C03', 'C01', 'C18', 'C06', 'C02', 'C15', 'C16', 'C05',
       'C25', 'C26', 'C23', 'C11', 'C27', 'C28', 'C29', 'C21', 'C22']
FIRST = [
    ('lib/bspatch*', 'C04 C05 C03 C15'), ('lib/bsdiff*', 'C04 C03 C15 C11'),
    ('lib/sais*', 'C04 C03'), ('lib/heatshrink/*', 'C04 C05 C03'),
    ('lib/transport*', 'C03 C19 C05 C15'), ('lib/merkle*', 'C09 C02 C03 C07 C28'),
    ('lib/pkg_create*', 'C07 C10 C01 C18 C11 C27'),
    ('lib/pkg_sign*', 'C01 C12 C10 C11 C27 C28'), ('lib/pkg_verify*', 'C02 C01 C11 C28'),
    ('lib/pkg.c', 'C07 C12 C03 C10 C19 C11'), ('lib/verify*', 'C12 C02 C01 C28'),
    ('lib/crypto*', 'C13 C01 C28 C15'), ('lib/mbedtls*', 'C13 C01 C02 C12 C15'),
    ('lib/keystore*', 'C13 C11 C15'), ('lib/mem*', 'C15'),
    ('lib/bpak.c', 'C08 C06 C20 C07'), ('lib/utils*', 'C20 C17'),
    ('lib/id*', 'C17 C20'), ('lib/bpakcrc*', 'C17'),
    ('ext/uuid/unpa*', 'C20 C14'), ('ext/*', 'C14'),
    ('src/add*', 'C14 C10 C07'), ('src/set*', 'C14 C10 C23'),
    ('src/show*', 'C25 C14 C12 C20 C17'), ('src/compare*', 'C24'),
    ('src/create*', 'C07 C10'), ('src/delete*', 'C07 C10'),
    ('src/extract*', 'C25 C07 C14 C16 C11'), ('src/generate*', 'C13 C17 C06'),
    ('src/sign*', 'C01 C02 C16 C11'), ('src/transport*', 'C03 C19 C16'),
    ('python/*', 'C18 C12 C27'),
]

MORE = {'lib': 'C07 C12 C03 C10 C15 C06 C18'.split(),
        'src': 'C26 C14 C10 C07 C20 C17 C12 C06 C16'.split(),
        'python': 'C18 C12 C01 C16 C03 C02 C17'.split(), 'ext': ['C20', 'C14']}


def sh(cmd, **k):
    return subprocess.run(cmd, stdin=subprocess.DEVNULL,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          **k)


def mask(src):
    """The source with comments and literals blanked."""
    def f(m):
        return re.sub(r'[^\n]', ' ', m.group(0))
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|'
                  r"'(?:\\.|[^'\\\n])*'", f, src, flags=re.S)


SWAP = {'<': ['<='], '<=': ['<'], '>': ['>='], '>=': ['>'], '==': ['!='],
        '!=': ['=='], '&&': ['||'], '||': ['&&'], '+': ['-'], '-': ['+'],
        '+=': ['-='], '-=': ['+='], '*': ['+'], '%': ['/'], '&': ['|'],
        '|': ['&'], '>>': ['<<'], '<<': ['>>'], '++': ['--']}


def candidates(name, src):
    m = mask(src)
    out = []
    lines, plain = m.split('\n'), src.split('\n')
    depth = 0
    for i, l in enumerate(lines):
        s = l.strip()
        before = depth
        depth += l.count('{') - l.count('}')
        if before == 0 or s.startswith('#') or not s:
            continue
        if re.search(r'printf|usage|verbosity|PyErr_|stderr|Py_RETURN', l):
            continue
        if re.match(r'(case|default)\b', s) and s.endswith(':'):
            continue
        for q in re.finditer(r' (<=|>=|==|!=|&&|\|\||\+=|-=|>>|<<|[<>+\-*%&|])'
                             r' ', l):
            for r in SWAP.get(q.group(1), []):
                out.append((i, plain[i][:q.start(1)] + r +
                            plain[i][q.end(1):], 'op'))
        for q in re.finditer(r'(?<![\w.\[])(\d+)(?![\w.])', l):
            v = int(q.group(1))
            for r in {0: [1], 1: [0, 2]}.get(v, [v + 1, v - 1]):
                out.append((i, plain[i][:q.start(1)] + str(r) +
                            plain[i][q.end(1):], 'const'))
        if re.match(r'[A-Za-z_][\w>.\-\[\]\(\)\*& ]*\(.*\);$', s) and \
                not re.match(r'(return|if|while|for|goto|sizeof)\b', s) and \
                not re.match(r'\w+ \**\w+ = ', s):
            out.append((i, '(void)0;', 'del-call'))
        elif re.match(r'[\w>.\-\[\]\(\)\*&]+ [|&+\-]?= .*;$', s):
            out.append((i, '(void)0;', 'del-assign'))
        if s in ('break;', 'continue;') or re.match(r'goto \w+;$', s):
            out.append((i, '(void)0;', 'del-jump'))
        q = re.match(r'(\s*(?:\} else )?if \()(.*)(\)(?: \{)?)$', l)
        if q and l.count('(') == l.count(')'):
            a, b = q.end(1), q.end(2)
            out.append((i, plain[i][:a] + '0 && (' + plain[i][a:b] + ')' +
                        plain[i][b:], 'never'))
            out.append((i, plain[i][:a] + '1 || (' + plain[i][a:b] + ')' +
                        plain[i][b:], 'always'))
        q = re.match(r'return (.+);$', s)
        if q and q.group(1) not in ('0', 'NULL', 'BPAK_OK'):
            out.append((i, 'return 0;', 'ret0'))
        if re.match(r'rc = -BPAK_\w+;$', s):
            out.append((i, 'rc = 0;', 'rc0'))
    return [(name, i, plain[i], t, k) for i, t, k in out if t != plain[i]]


class Slot:
    def __init__(self, k):
        self.d = '/tmp/mw/%d' % k
        self.repo = self.d + '/repo'
        if not os.path.isdir(self.repo):
            os.makedirs(self.d, exist_ok=True)
            sh(['cp', '-a', REPO, self.repo])
            shutil.rmtree(self.repo + '/_build', True)
            self.cmake()
        sh(['rsync', '-a', '--delete', '--exclude', '/seeded', '--exclude',
            '/build', '--exclude', '/.git', '--exclude', '/evidence',
            V + '/', self.d + '/verif/'])
        sh(['git', '-C', self.repo, 'checkout', '-q', '--', '.'])
        self.env = dict(os.environ, BPAK_REPO=self.repo,
                        BPAK_BUILD=self.d + '/b', BPAK_JOBS='1',
                        TMPDIR=self.d + '/t')
        os.makedirs(self.d + '/t', exist_ok=True)

    def cmake(self):
        env = dict(os.environ, CC='gcc', CXX='g++', LC_ALL='C.UTF-8')
        r = sh(['cmake', '-S', self.repo, '-B', self.repo + '/_build', '-G',
                'Ninja', '-DBPAK_BUILD_TESTS=ON',
                '-DBPAK_BUILD_PYTHON_WRAPPER=ON',
                '-DPython_EXECUTABLE=/usr/bin/python3'], env=env)
        assert r.returncode == 0, r.stdout

    def tests(self):
        b = self.repo + '/_build'
        if sh(['ninja', '-j2', '-C', b]).returncode:
            return 'build'
        for root, _, files in os.walk(b):
            for f in files:
                if f.endswith('.gcda') or (root == b + '/test' and
                                           f.endswith('.bpak')):
                    os.unlink(os.path.join(root, f))
        try:
            r = sh(['ctest', '--test-dir', b, '-j2', '--timeout', '60',
                    '--stop-on-failure'], timeout=300)
        except subprocess.TimeoutExpired:
            return 'tests'
        return 'tests' if r.returncode else None

    def run(self, m, n):
        name, i, old, new, kind = m
        path = os.path.join(self.repo, name)
        src = open(path).read()
        lines = src.split('\n')
        assert lines[i] == old
        lines[i] = new
        open(path, 'w').write('\n'.join(lines))
        t0 = time.time()
        res = dict(file=name, line=i + 1, old=old.strip(), new=new.strip(),
                   kind=kind)
        try:
            why = self.tests()
            if why:
                return dict(res, fate=why)
            order = []
            for g, c in FIRST:
                if fnmatch.fnmatch(name, g):
                    order += c.split()
            order = list(dict.fromkeys(order + MORE.get(name.split('/')[0], [])))
            tried = []
            for c in order:
                cmd = [sys.executable, 'run.py', c]
                k = n.get(c)
                if k:
                    cmd += ['--n', str(k)]
                try:
                    r = sh(cmd, cwd=self.d + '/verif', env=self.env,
                           timeout=1500)
                    out = r.stdout.decode('utf-8', 'replace')
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    out, rc = 'timeout', -1
                if 'VIOLATION property=' in out and rc == 1:
                    q = out[out.index('VIOLATION'):].splitlines()[0:2]
                    return dict(res, fate=c, key=' | '.join(q)[:300],
                                t=round(time.time() - t0))
                tried.append('%s:%d' % (c, rc))
            return dict(res, fate='SURVIVED', t=round(time.time() - t0),
                        odd=[x for x in tried if not x.endswith(':0')])
        finally:
            open(path, 'w').write(src)
            shutil.rmtree(self.d + '/verif/replays', True)
            shutil.rmtree(self.d + '/t', True)
            os.makedirs(self.d + '/t', exist_ok=True)


def worker(k, q, out, n):
    s = Slot(k)
    while True:
        m = q.get()
        if m is None:
            return
        try:
            out.put(s.run(m, n))
        except Exception as e:
            out.put(dict(fate='error', text=repr(e), m=m))


def main():
    dest, count = sys.argv[1], int(sys.argv[2])
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    jobs = int(sys.argv[4]) if len(sys.argv) > 4 else 8
    pat = sys.argv[5] if len(sys.argv) > 5 else '*'
    r = random.Random(seed)
    per = {}
    for d in ('lib', 'lib/heatshrink', 'src', 'python', 'ext/uuid'):
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            name = d + '/' + f
            if f.endswith('.c') and fnmatch.fnmatch(name, pat) and \
                    f not in ('python_wrapper.c', 'main.c', 'misc.c'):
                c = candidates(name, open(os.path.join(REPO, name)).read())
                if c:
                    per[name] = c
    # files weighted by the square root of their size
    names = sorted(per)
    w = [len(per[x]) ** 0.5 for x in names]
    chosen, seen = [], set()
    while len(chosen) < count and len(seen) < sum(map(len, per.values())):
        x = r.choice(per[r.choices(names, w)[0]])
        k = (x[0], x[1], x[3])
        if k not in seen:
            seen.add(k)
            chosen.append(x)
    sys.path.insert(0, V)
    import importlib
    n = {}
    for c in ALL:
        mod = importlib.import_module('checks.' + c.lower())
        n[c] = max(24, mod.cases('quick') // 3)
    print('candidates', sum(map(len, per.values())), 'cases', n, flush=True)
    q, out = multiprocessing.Queue(), multiprocessing.Queue()
    for x in chosen:
        q.put(x)
    ps = []
    for k in range(jobs):
        q.put(None)
        p = multiprocessing.Process(target=worker, args=(k, q, out, n))
        p.start()
        ps.append(p)
    with open(dest, 'a') as f:
        for i in range(count):
            x = out.get()
            f.write(json.dumps(x) + '\n')
            f.flush()
            if x['fate'] not in ('build', 'tests'):
                print(i, x['fate'], x.get('t'), x.get('file'), x.get('line'),
                      x.get('old'), '=>', x.get('new'), x.get('odd', ''),
                      x.get('text', ''), flush=True)
    for p in ps:
        p.join()


if __name__ == '__main__':
    main()
