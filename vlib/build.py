"""Builds of /repo's current working tree, made directly with the compiler.

Every flavour is compiled from a glob over the source directories, so helper
files that are added to the tree are picked up.  The result is cached under
/verif/build/<flavour>-<hash of all inputs>; a change of any source, header or
flag leads to a new directory, so a check never uses a stale build."""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BPAK_REPO', '/repo')     # override: development only
BUILD = os.environ.get('BPAK_BUILD', os.path.join(VERIF, 'build'))

SAN = ['-fsanitize=address,undefined',
       # packed/unaligned header accesses and memcpy(NULL, .., 0) are
       # deliberately not judged: they are not observable behaviour here
       '-fno-sanitize=alignment,nonnull-attribute,returns-nonnull-attribute',
       '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']

FLAVOURS = {
    # name: (compiler, compile flags, link flags)
    'asan': ('gcc', ['-O1', '-g'] + SAN, SAN),
    'plain': ('gcc', ['-O2', '-g'], []),
    'tsan': ('gcc', ['-O1', '-g', '-fsanitize=thread',
                     '-fno-omit-frame-pointer'], ['-fsanitize=thread']),
    'pattern': ('gcc', ['-O1', '-g', '-ftrivial-auto-var-init=pattern'], []),
    'zero': ('gcc', ['-O1', '-g', '-ftrivial-auto-var-init=zero'], []),
    'debug': ('gcc', ['-O0', '-g'], []),
    'nolzma': ('gcc', ['-O1', '-g'] + SAN, SAN),
    'nomerkle': ('gcc', ['-O1', '-g'] + SAN, SAN),
    'lean': ('gcc', ['-O1', '-g'] + SAN, SAN),
    'minimal': ('gcc', [], []),                 # made by the project's own build files
}

# features left out
WITHOUT = {'nolzma': ['LZMA'], 'nomerkle': ['MERKLE'], 'lean': ['LZMA', 'MERKLE', 'MBEDTLS']}

if os.environ.get('BPAK_COV'):                   # development only
    FLAVOURS = {k: (c, f + ['--coverage'], l + ['--coverage'])
                for k, (c, f, l) in FLAVOURS.items()}

COMMON = ['-w', '-std=gnu99', '-fPIC']


class BuildError(Exception):
    pass


def _files():
    pats = ['lib/*.c', 'lib/*.h', 'lib/*.in', 'lib/heatshrink/*',
            'src/*.c', 'src/*.h', 'python/*.c', 'python/*.h', 'ext/uuid/*.[ch]',
            'include/bpak/*.h', 'include/*.h', 'CMakeLists.txt']
    out = []
    for p in pats:
        out += glob.glob(os.path.join(REPO, p))
    return sorted(set(f for f in out if os.path.isfile(f)))


def _version():
    import re
    s = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    m = re.search(r'project\s*\(\s*bpak[^)]*VERSION\s+([0-9.]+)', s, re.I)
    return m.group(1) if m else '0.0.0'


def _config_header(dst, without=()):
    s = open(os.path.join(REPO, 'lib/build_config.h.in')).read()
    import re
    ver = _version().split('.') + ['0', '0']
    def sub(m):
        k = m.group(1)
        if 'CONFIG' in k:
            return '0' if k.split('_')[-1] in without else '1'
        if 'MAJOR' in k:
            return ver[0]
        if 'MINOR' in k:
            return ver[1]
        if 'PATCH' in k:
            return ver[2]
        if 'VERSION' in k:
            return _version()
        return '1'
    s = re.sub(r'@(\w+)@', sub, s)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    open(dst, 'w').write(s)


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout.decode('utf-8', 'replace'))


def _digest(extra):
    h = hashlib.sha256()
    for f in _files():
        h.update(os.path.relpath(f, REPO).encode() + b'\0')
        h.update(open(f, 'rb').read())
    for f in sorted(glob.glob(os.path.join(VERIF, 'vlib', '*.c')) +
                    glob.glob(os.path.join(VERIF, 'vlib', '*.h')) +
                    [os.path.abspath(__file__)]):
        h.update(open(f, 'rb').read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def _compile(cc, flags, srcs, objdir):
    os.makedirs(objdir, exist_ok=True)
    jobs = []
    for s in srcs:
        o = os.path.join(objdir, s.lstrip('/').replace('/', '_') + '.o')
        jobs.append((s, o))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: _run([cc] + flags + ['-c', j[0], '-o', j[1]]), jobs))
    return [o for _, o in jobs]


LIBS = ['-llzma', '-lmbedcrypto', '-lpthread', '-ldl']


def get(flavour, what):
    """Build and return a dict of paths.  what: subset of
    {'tool', 'lib', 'py', 'mtrace', <harness source name>...}"""
    cc, cflags, ldflags = FLAVOURS[flavour]
    dig = _digest((flavour, cflags, ldflags))
    without = WITHOUT.get(flavour, ())
    libs = [x for x in LIBS if not ('LZMA' in without and x == '-llzma' or
                                    'MBEDTLS' in without and x == '-lmbedcrypto')]
    d = os.path.join(BUILD, '%s-%s' % (flavour, dig))
    os.makedirs(BUILD, exist_ok=True)
    res = {'dir': d, 'flavour': flavour}
    with open(os.path.join(BUILD, '.lock-' + flavour), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        # drop builds of other source states of this flavour
        for o in glob.glob(os.path.join(BUILD, flavour + '-*')):
            if o != d and not os.environ.get('BPAK_KEEP_BUILDS'):
                shutil.rmtree(o, ignore_errors=True)
        inc = os.path.join(d, 'inc')
        if not os.path.exists(os.path.join(inc, 'bpak', 'build_config.h')):
            _config_header(os.path.join(inc, 'bpak', 'build_config.h'),
                           WITHOUT.get(flavour, ()))
        base = COMMON + ['-I' + os.path.join(REPO, 'include'), '-I' + inc,
                         '-I' + os.path.join(REPO, 'ext/uuid'),
                         '-I' + os.path.join(REPO, 'lib')] + cflags

        def libobjs():
            mark = os.path.join(d, 'libobjs.ok')
            srcs = sorted(glob.glob(os.path.join(REPO, 'lib/*.c')) +
                          glob.glob(os.path.join(REPO, 'lib/heatshrink/*.c')))
            srcs += [os.path.join(REPO, 'ext/uuid', x) for x in ('unpack.c', 'unparse.c')]
            if 'MBEDTLS' in without:
                srcs = [x for x in srcs if not os.path.basename(x).startswith('mbedtls')]
            od = os.path.join(d, 'libobj')
            objs = [os.path.join(od, s.lstrip('/').replace('/', '_') + '.o') for s in srcs]
            if not os.path.exists(mark):
                _compile(cc, base, srcs, od)
                open(mark, 'w').close()
            return objs

        for w in what:
            if w == 'lib':
                out = os.path.join(d, 'libbpakshim.so')
                if not os.path.exists(out):
                    o = _compile(cc, base, [os.path.join(VERIF, 'vlib', 'shim.c')],
                                 os.path.join(d, 'shim'))
                    _run([cc, '-shared', '-o', out + '.tmp'] + ldflags + o + libobjs() + libs)
                    os.rename(out + '.tmp', out)
            elif w == 'tool':
                out = os.path.join(d, 'bpak')
                if not os.path.exists(out):
                    srcs = sorted(glob.glob(os.path.join(REPO, 'src/*.c')))
                    srcs += [os.path.join(REPO, 'ext/uuid', x) for x in
                             ('clear.c', 'compare.c', 'pack.c', 'parse.c', 'isnull.c')
                             if os.path.exists(os.path.join(REPO, 'ext/uuid', x))]
                    o = _compile(cc, base, srcs, os.path.join(d, 'tool'))
                    _run([cc, '-o', out + '.tmp'] + ldflags + o + libobjs() + libs)
                    os.rename(out + '.tmp', out)
            elif w == 'py':
                pd = os.path.join(d, 'py')
                out = os.path.join(pd, 'bpak.so')
                if not os.path.exists(out):
                    srcs = sorted(glob.glob(os.path.join(REPO, 'python/*.c')))
                    import sysconfig
                    pinc = sysconfig.get_paths()['include']
                    o = _compile(cc, base + ['-I' + pinc], srcs, os.path.join(d, 'pyobj'))
                    os.makedirs(pd, exist_ok=True)
                    _run([cc, '-shared', '-o', out + '.tmp'] + ldflags + o + libobjs() + libs)
                    os.rename(out + '.tmp', out)
            elif w == 'minimal':
                out = os.path.join(d, 'cmake', 'lib', 'libbpak.so')
                if not os.path.exists(out):
                    cd = os.path.join(d, 'cmake')
                    _run(['cmake', '-S', REPO, '-B', cd, '-DBPAK_BUILD_MINIMAL=1'])
                    _run(['cmake', '--build', cd, '-j', '8'])
            elif w == 'mtrace':
                out = os.path.join(d, 'mtrace.so')
                if not os.path.exists(out):
                    _run(['gcc', '-O1', '-g', '-fPIC', '-shared', '-w', '-o', out + '.tmp',
                          os.path.join(VERIF, 'vlib', 'mtrace.c'), '-ldl', '-lpthread'])
                    os.rename(out + '.tmp', out)
            else:
                out = os.path.join(d, w)
                if not os.path.exists(out):
                    o = _compile(cc, base, [os.path.join(VERIF, 'vlib', w + '.c')],
                                 os.path.join(d, w + '.d'))
                    _run([cc, '-o', out + '.tmp'] + ldflags + o + libobjs() + libs)
                    os.rename(out + '.tmp', out)
            res[w] = out
    return res


def sanlib(name):
    p = subprocess.run(['gcc', '-print-file-name=' + name], stdout=subprocess.PIPE)
    return os.path.realpath(p.stdout.decode().strip())
