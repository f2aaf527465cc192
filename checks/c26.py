"""C26: every form of a command line means the same."""
import hashlib
import os
import re

from vlib import cli, clib, core, fmt, gen, ops

PROPERTY = 'C26'
LEVEL = 'exploration'
TECHNIQUE = ('metamorphic runs: each command is run in one plain form and in random equivalent '
             'forms (short, long, attached, clustered, reordered, verbose), in malformed forms and '
             'with --help; files, exit status and text are compared; ASan/UBSan')
LEVEL_NOTE = ('Seeded: over 70 commands that cover every option of every action, accepted and '
              'refused, on seeded archives, 6 forms each plus malformed ones.')
BUILD = {'plain': ['lib', 'tool'], 'asan': ['tool']}
RULE = ('One judged execution per command run in another form, with a malformed command line or '
        'asking for help. Distinct: by the arguments and the input digest.')
REQUIRED = {'forms': 2500, 'short': 800, 'attached': 400, 'long=': 700, 'clusters': 100,
            'reordered': 600, 'after --': 300, 'dash names': 150, 'verbose': 900,
            'refused commands': 400, 'malformed': 700, 'help': 150, 'odd values': 150,
            'options covered': 200, 'verbose data': 100}
ASSUMPTIONS = ['the action is the first argument', 'an option is given once',
               'abbreviated long options are not judged',
               'the order of parts or entries added by different commands is not part of a form']

# action: [(short, long, takes a value)]
OPTS = {
    'create': [('Y', 'force', 0), ('H', 'hash-kind', 1), ('S', 'signature-kind', 1)],
    'add': [('p', 'part', 1), ('m', 'meta', 1), ('f', 'from-file', 1), ('s', 'from-string', 1),
            ('e', 'encoder', 1), ('F', 'set-flag', 1), ('r', 'part-ref', 1)],
    'set': [('m', 'meta', 1), ('s', 'from-string', 1), ('e', 'encoder', 1), ('k', 'key-id', 1),
            ('i', 'keystore-id', 1)],
    'show': [('m', 'meta', 1), ('p', 'part', 1), ('P', 'part-hash', 1), ('H', 'hash', 0),
             ('B', 'binary-hash', 0)],
    'sign': [('k', 'key', 1), ('f', 'signature', 1)],
    'verify': [('k', 'key', 1), ('K', 'keystore', 1)],
    'transport': [('a', 'add', 0), ('E', 'encode', 0), ('D', 'decode', 0), ('p', 'part', 1),
                  ('e', 'encoder', 1), ('d', 'decoder', 1), ('O', 'origin', 1),
                  ('o', 'output', 1), ('r', 'part-ref', 1)],
    'extract': [('m', 'meta', 1), ('p', 'part', 1), ('o', 'output', 1), ('r', 'part-ref', 1)],
    'delete': [('p', 'part', 1), ('a', 'all', 0), ('k', 'keep-meta', 0)],
    'generate': [('n', 'name', 1), ('d', 'decorate', 0)],
    'compare': [],
}
UNLISTED = {('delete', 'keep-meta'), ('transport', 'part-ref')}    # not in the help text
ALIAS = {('transport', 'part-ref'): 'part', ('transport', 'part'): 'part-ref'}
SHORT = {(a, l): s for a, o in OPTS.items() for s, l, _ in o}
LONG = {(a, s): l for a, o in OPTS.items() for s, l, _ in o}
VALUE = {(a, l): v for a, o in OPTS.items() for s, l, v in o}


def cases(tier):
    return 64 if tier == 'quick' else 1400


class Cmd:
    """action, options [(long, value or None)], positional arguments"""

    def __init__(self, name, args, odd=False):
        self.name, self.odd = name, odd
        self.act, rest = args[0], list(args[1:])
        self.opts, self.pos = [], []
        while rest:
            a = rest.pop(0)
            if a == '-v':
                continue
            if a.startswith('--'):
                l = a[2:]
            elif a.startswith('-'):
                l = LONG[self.act, a[1:]]
            else:
                self.pos.append(a)
                continue
            self.opts.append((l, rest.pop(0) if VALUE[self.act, l] else None))

    def plain(self):
        r = [self.act] + self.pos
        for l, v in self.opts:
            r += ['--' + l] + ([] if v is None else [v])
        return r


def more(w, rng):
    """commands beside the common catalogue, to use every option"""
    names = [p.name for p in w.spec.parts]
    pn = rng.choice(names)
    a2 = gen.fmt.Archive()
    a2.meta('note', b'old value\0')
    a2.meta('of-part', b'text of one\0', fmt.bid('one'))
    a2.meta('of-part', b'another\0', fmt.bid('two'))
    a2.meta('num', bytes(8))
    a2.meta('bpak-version', b'1.0\0', fmt.bid('one'))
    a2.meta('bpak-version', b'2.0\0')
    a2.meta('bpak-version', b'3.0\0', fmt.bid('two'))
    a2.add('one', rng.randbytes(700))
    a2.add('two', rng.randbytes(rng.randint(1, 3000)), fmt.F_EXCLUDE)
    w.add_input('x.bpak', a2.finish().bytes())
    w.add_input('uu.txt', b'0888b0fa-9c48-4524-9845-06a641b61edd')
    w.add_input('num.txt', b'%d' % rng.randint(-99, 1 << 40))
    A, X = 'a.bpak', 'x.bpak'
    r = []

    def c(name, *args, **k):
        r.append(Cmd(name, list(args), **k))
    for s in gen.SOPT.values():
        c('create-' + s, 'create', 'c.bpak', '-S', s, '-H', rng.choice(list(gen.HOPT.values())))
    c('create-default', 'create', 'c.bpak')
    c('create-bad-hash', 'create', 'c.bpak', '-H', rng.choice(['md5', 'SHA256', '']))
    c('create-bad-sign', 'create', 'c.bpak', '-S', rng.choice(['none', 'PRIME256V1', '']))
    c('create-existing', 'create', A)
    c('add-part-meta-ref', 'add', X, '--meta', 'mm', '--from-string', 'v', '--part-ref', 'two')
    c('add-uuid-file', 'add', X, '--meta', 'mm', '--from-file', 'uu.txt', '-e', 'uuid')
    c('add-num-file', 'add', X, '--meta', 'mm', '--from-file', 'num.txt', '-e', 'integer')
    c('add-id-file', 'add', X, '--meta', 'mm', '--from-file', 'num.txt', '-e', 'id')
    c('add-id', 'add', X, '--meta', 'mm', '--from-string', 'name', '--encoder', 'id')
    c('add-duplicate', 'add', X, '--part', 'one', '--from-file', 'f.bin')
    c('add-nothing', 'add', X, '--part', 'three')
    c('add-bad-encoder', 'add', X, '--part', 'three', '--from-file', 'f.bin', '-e', 'nonsense')
    c('add-bad-flag', 'add', X, '--part', 'three', '--from-file', 'f.bin', '-F', 'nonsense')
    c('add-meta-duplicate', 'add', X, '--meta', 'note', '--from-string', 'x')
    c('add-bad-uuid', 'add', X, '--meta', 'u', '--from-string', 'zz', '--encoder', 'uuid')
    c('add-none', 'add', X)
    # values that look like something else
    for v in ('-v', '--', '--part', '-p', '=', 'a=b', ' ', 'x y', '-', '--from-string=q', '',
              '-5', '\u00fc'):
        k = rng.randrange(4)
        if k == 0:
            c('add-odd', 'add', X, '--meta', 'mm', '--from-string', v, odd=True)
        elif k == 1:
            c('set-odd', 'set', X, '--meta', 'note', '--from-string', v, odd=True)
        elif k == 2:
            c('add-odd-name', 'add', X, '--meta', v, '--from-string', 'v', odd=True)
        else:
            c('add-odd-part', 'add', X, '--part', v, '--from-file', 'f.bin', odd=True)
    c('set-id', 'set', X, '--meta', 'num', '--from-string', 'a-name', '-e', 'id')
    c('set-keystore-id', 'set', X, '-i', '0x0012ff34')
    c('set-key', 'set', X, '-k', 'a-key')
    c('set-missing', 'set', X, '--meta', 'absent', '--from-string', 'q')
    c('set-nothing', 'set', X)
    c('show-x', 'show', X)
    c('show-meta-part', 'show', X, '-m', 'of-part', '-p', 'two')
    c('show-meta-text', 'show', X, '-m', 'bpak-version', '-p', 'two')
    c('show-missing', 'show', X, '-m', 'absent')
    c('show-missing-part', 'show', X, '-p', 'absent')
    c('show-hash-x', 'show', X, '-H')
    c('show-part-hash-x', 'show', X, '-P', 'one')
    c('extract-ref', 'extract', X, '-m', 'of-part', '-r', 'two', '-o', 'x.out')
    c('extract-ref-stdout', 'extract', X, '-m', 'of-part', '-r', 'one')
    c('extract-both', 'extract', X, '-m', 'note', '-p', 'one', '-o', 'x.out')
    c('delete-x', 'delete', X, '-p', 'one')
    c('delete-x-keep', 'delete', X, '-p', 'two', '-k')
    c('delete-all-keep', 'delete', X, '-a', '-k')
    c('delete-missing', 'delete', X, '-p', 'absent')
    c('delete-nothing', 'delete', X)
    c('sign-nothing', 'sign', X)
    c('sign-no-file', 'sign', X, '-k', 'absent.pem')
    c('verify-nothing', 'verify', 's.bpak')
    c('verify-foreign', 'verify', 's.bpak', '-K', X)
    c('transport-x', 'transport', X, '-a', '-p', 'one', '-e', 'bsdiff-lzma', '-d', 'bspatch-lzma')
    c('transport-two', 'transport', X, '-a', '-E', '-o', 't.out')
    c('transport-nothing', 'transport', X)
    c('encode-no-output', 'transport', 'n.bpak', '-E', '-O', 'o.bpak')
    c('encode-no-origin', 'transport', 'n.bpak', '-E', '-o', 't.out')
    c('decode-no-origin', 'transport', 'e.bpak', '-D', '-o', 't.out')
    c('transport-part', 'transport', A, '-a', '-p', pn, '-e', 'bsdiff', '-d', 'bspatch')
    c('generate-decorated', 'generate', 'keystore', 'ks.bpak', '-n', 'some-store', '-d')
    c('generate-no-name', 'generate', 'keystore', 'ks.bpak')
    c('generate-bad', 'generate', 'nonsense', 'ks.bpak', '-n', 'q')
    c('compare-x', 'compare', X, A)
    c('compare-missing', 'compare', X, 'absent.bpak')
    return r


def form(cx, rng, c, used):
    """another way to write the command; returns (args, names) where names maps
    renamed files to their usual names"""
    act = c.act
    opts = list(c.opts)
    names = {}
    pos = list(c.pos)
    dash = False
    if rng.random() < .15 and act != 'generate':
        dash = True
        for k, p in enumerate(pos):
            names['-' + p] = p
            pos[k] = '-' + p
        used.add('dash names')
    if len(opts) > 1 and rng.random() < .7:
        rng.shuffle(opts)
        if opts != c.opts:
            used.add('reordered')
    verbose = rng.choice([0, 0, 0, 1, 1, 2, 3])
    if verbose:
        used.add('verbose')
    items = []
    for l, v in opts:
        if (act, l) in ALIAS and rng.random() < .5:
            l = ALIAS[act, l]
        s = SHORT[act, l]
        if v is None:
            items.append(rng.choice([['--' + l], ['-' + s]]))
        else:
            k = rng.randrange(5)
            if k == 0:
                items.append(['--' + l, v])
            elif k == 1:
                items.append(['--%s=%s' % (l, v)])
                used.add('long=')
            elif k == 2 or not v:
                items.append(['-' + s, v])
            else:
                items.append(['-' + s + v])
                used.add('attached')
        if items[-1][0][1] != '-':
            used.add('short')
    for _ in range(verbose):
        k = rng.randrange(3)
        short = [x for x in items if x[0][1] != '-']
        if k == 0 and short:
            # -v joined with the following short option, or behind a flag
            x = rng.choice(short)
            x[0] = '-v' + x[0][1:]
            used.add('clusters')
        else:
            items.insert(rng.randint(0, len(items)), [rng.choice(['-v', '--verbose'])])
    # two flags without a value next to each other
    for j in range(len(items) - 1):
        if rng.random() < .4 and all(len(x) == 1 and re.fullmatch('-[YHBaEDkdv]', x[0])
                                     for x in items[j:j + 2]) and \
                all(flag(act, x[0][1]) for x in items[j:j + 2]):
            items[j:j + 2] = [[items[j][0] + items[j + 1][0][1]]]
            used.add('clusters')
            break
    keep = len(pos)         # how many stay behind a --
    if dash:
        keep = 0
    elif rng.random() < .2:
        keep = rng.randint(0, len(pos))
    head, tail = pos[:keep], pos[keep:]
    at = sorted(rng.randint(0, len(items)) for _ in head)
    for k, p in reversed(list(zip(at, head))):
        items.insert(k, [p])
    args = [x for it in items for x in it]
    if keep < len(pos) or rng.random() < .1:
        args += ['--'] + tail
        used.add('after --')
    return [act] + args, names, verbose


def flag(act, s):
    return s == 'v' or ((act, s) in LONG and not VALUE[act, LONG[act, s]])


def run(cx, w, args, flavour):
    r = cli.run(cx, args, w.d, flavour=flavour, cpu=20)
    return r


def state(w, names):
    st = w.state()
    return {names.get(n, n): v for n, v in st.items()}


def within(a, b):
    """every line of a is in b, in that order"""
    it = iter(b.split(b'\n'))
    return all(any(x == y for y in it) for x in a.split(b'\n') if x)


def run_case(cx, i, rng):
    d = os.path.join(cx.tmp(), 'w')
    os.makedirs(d)
    L = clib.load(cx, 'plain')
    w = ops.World(cx, rng, d, big=4000)
    ops.add_encoded(cx, L, w)
    cat = [Cmd(o.name, o.args) for o in ops.tool_catalogue(w)]
    cat += more(w, rng)
    w.reset()
    dig = hashlib.sha1(w.inputs['a.bpak']).hexdigest()[:8]
    n = -(-len(cat) // 8)
    mine = [cat[(i * n + k) % len(cat)] for k in range(n)]
    for c in mine:
        forms(cx, rng, w, c, dig)
        malformed(cx, rng, w, c, dig)
    for act in rng.sample(sorted(OPTS), 3):
        usage(cx, rng, w, act, dig)
    if i % 4 == 0:
        program(cx, rng, w)


def forms(cx, rng, w, c, dig):
    flavour = rng.choice(['plain', 'asan'])
    w.reset()
    r0 = run(cx, w, c.plain(), 'plain')
    ref = w.state()
    if r0.rc:
        cx.check_that(r0.err.strip(), 'silent-failure:' + c.act, r0.brief)
    for l, _ in c.opts:
        cx.count('options covered')
    for _ in range(6):
        used = set()
        args, names, verbose = form(cx, rng, c, used)
        w.reset()
        for new, old in names.items():
            if os.path.exists(w.path(old)):
                os.rename(w.path(old), w.path(new))
        r = run(cx, w, args, flavour)
        st = state(w, names)
        for new in names:
            if os.path.exists(w.path(new)):
                os.unlink(w.path(new))
        for u in used:
            cx.count(u)
        cx.count('forms')
        cx.count('refused commands', int(bool(r0.rc)))
        cx.count('odd values', int(c.odd))
        cx.eval((tuple(args), dig))

        def what():
            return '%s\ninstead of\n%s' % (r.brief(), r0.brief())
        if not cx.check_that(r.rc == r0.rc, 'status-differs:' + c.act, what):
            continue
        if not same(w, ref, st):
            from checks import c11
            cx.violation('files-differ:' + c.act, '%s\n%s' % (c11.diff(w, ref, st), what()))
        out = r.out
        for new, old in names.items():
            out = out.replace(new.encode(), old.encode())
        cx.check_that(b'(null)' not in r.out + r.err, 'null-text:' + c.act, what)
        if not verbose:
            cx.check_that(out == r0.out, 'text-differs:' + c.act, what)
        elif c.name.startswith(('extract', 'show-binary')):
            cx.count('verbose data')
            cx.check_that(r0.out in out, 'verbose-changes-data:' + c.act, what)
        else:
            cx.check_that(within(r0.out, out), 'verbose-changes-text:' + c.act, what)


def same(w, a, b):
    from checks import c11
    return c11.same(w, a, b)


def malformed(cx, rng, w, c, dig):
    act = c.act
    good = c.plain()
    letters = [x for x in 'abcdeghijklmnopqrstuwxyzABCDEFGHIJKLMNOPQRSTUWXYZ0123456789'
               if x not in 'hv' and (act, x) not in LONG]
    tries = []
    bad = rng.choice(['--no-such-option', '--no-such=1', '-' + rng.choice(letters),
                      '-v' + rng.choice(letters), '--verbose=1', '--help=1', '--Part'])
    k = rng.randint(1, len(good))
    # not between an option and its value
    while k > 1 and good[k - 1].startswith('--') and VALUE.get((act, good[k - 1][2:])) and \
            k <= len(good) and is_option(c, good, k - 1):
        k -= 1
    tries.append(('unknown-option', good[:k] + [bad] + good[k:]))
    vals = [l for l, v in c.opts if v is not None]
    if vals:
        # the option that is last on the line has no value
        l = rng.choice(vals)
        a = [act] + c.pos
        for x, v in c.opts:
            if x != l:
                a += ['--' + x] + ([] if v is None else [v])
        tries.append(('missing-value', a + [rng.choice(['--' + l, '-' + SHORT[act, l]])]))
    cut = rng.randrange(len(c.pos))
    if c.name != 'generate-id' or cut == 0:
        a = [act] + c.pos[:cut]
        for x, v in c.opts:
            a += ['--%s=%s' % (x, v) if v is not None else '--' + x]
        tries.append(('missing-file', a))
    tries.append(('unknown-action', [rng.choice([act.upper(), act + 's', act[:-1], '', ' ' + act,
                                                 '--' + act, 'help'])] + good[1:]))
    if act == 'generate':
        tries.append(('unknown-generator', [act, rng.choice(['nonsense', '', 'ID', 'keystores'])] +
                      good[2:]))
    for name, args in tries:
        w.reset()
        ref = w.state()
        r = run(cx, w, args, rng.choice(['plain', 'asan']))
        st = w.state()
        cx.count('malformed')
        cx.eval((tuple(args), dig))
        cx.check_that(r.rc != 0, name + '-accepted:' + act, r.brief)
        cx.check_that(st == ref, name + '-changed-files:' + act, r.brief)
        cx.check_that(r.err.strip(), name + '-not-reported:' + act, r.brief)


def is_option(c, good, k):
    """whether good[k] is an option of the plain form, and not a value"""
    j = 1 + len(c.pos)
    for l, v in c.opts:
        if j == k:
            return True
        j += 1 if v is None else 2
    return False


def usage(cx, rng, w, act, dig):
    cat = [c for c in [Cmd(o.name, o.args) for o in ops.tool_catalogue(w)] if c.act == act]
    more(w, rng)
    w.reset()
    c = rng.choice(cat)
    for a in ('-h', '--help', None):
        if a is None:
            a = rng.choice(['-h', '--help', '-vh', '-hv'])
            args = [act] + [x for l, v in c.opts for x in
                            (['--' + l] if v is None else ['--%s=%s' % (l, v)])] + c.pos
            args.insert(rng.randint(1, len(args)), a)
        else:
            args = [act, a]
        w.reset()
        ref = w.state()
        r = run(cx, w, args, rng.choice(['plain', 'asan']))
        cx.count('help')
        cx.eval((tuple(args), dig))
        cx.check_that(r.rc == 0, 'help-fails:' + act, r.brief)
        cx.check_that(w.state() == ref, 'help-changed-files:' + act, r.brief)
        for s, l, v in OPTS[act] + [('h', 'help', 0), ('v', 'verbose', 0)]:
            if (act, l) in UNLISTED:
                continue
            cx.check_that(re.search(r'-%s\b.*--%s\b' % (s, l), r.text()),
                          'help-lacks-option:%s:%s' % (act, l), r.brief)
        # and nothing else looks like an option
        for m in re.finditer(r'-(\w), +--([\w-]+)', r.text()):
            if m.group(2) in ('help', 'verbose', 'version'):
                continue
            cx.check_that(LONG.get((act, m.group(1))) == m.group(2),
                          'help-lists-unknown-option:%s:%s' % (act, m.group(2)), r.brief)


def program(cx, rng, w):
    text = open(os.path.join(core.REPO, 'include/bpak/version.h')).read()
    m = re.search(r'_MAJOR\s+(\d+)[^#]*#define\s+\w+_MINOR\s+(\d+)[^#]*#define\s+\w+_PATCH\s+(\d+)',
                  text)
    for args in (['--version'], ['-V']):
        r = run(cx, w, args, 'asan')
        cx.count('version')
        cx.eval((tuple(args), ''))
        cx.check_that(r.rc == 0 and (not m or '.'.join(m.groups()) in r.text()), 'version',
                      r.brief)
    for args in ([], ['-h'], ['--help']):
        r = run(cx, w, args, 'asan')
        cx.check_that(r.rc == 0 and all(a in r.text() for a in OPTS), 'main-help', r.brief)
        cx.count('help')
        cx.eval((tuple(args), ''))
    for args in (['-Z'], ['--nonsense'], ['']):
        r = run(cx, w, args, 'asan')
        cx.check_that(r.rc != 0 and r.err.strip(), 'main-option', r.brief)
        cx.count('malformed')
        cx.eval((tuple(args), ''))
