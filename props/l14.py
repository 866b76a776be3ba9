"""L14: lemon reads and writes the files it is asked to, and says so when it cannot."""
import os, re
from vlib import build
from vlib.engine import Violation, Discard, Resource

GRAM = """%%token_type {int}
%%include {
#include <stdlib.h>
#include <string.h>
#include <assert.h>
#define AT(n) _Static_assert(__LINE__ == n && __builtin_strcmp(__FILE__, %s) == 0, "line");
}
%%token A B%s.
s ::= r. { AT(9) }
r ::= B r. {
AT(11)
}
r ::= A.
%%code {
AT(15)
}
"""


def cstr(x):
    return '"' + x.replace('\\', '\\\\').replace('"', '\\"') + '"'


def lem(ctx, cmd, d, env=None, timeout=60):
    p = ctx.run(cmd, cwd=d, timeout=timeout, env=env)
    if p.timeout:
        p = ctx.run(cmd, cwd=d, timeout=timeout * 3, env=env)
        if p.timeout:
            raise Violation('lemon does not terminate: %s' % cmd, 'hang')
    if p.rc < 0 or p.rc in (99, 134):
        raise Violation('%s died with status %d\n%s' % (cmd, p.rc, p.errs[-1500:]), 'crash')
    return p


def tree(d):
    o = {}
    for b, ds, fs in os.walk(d):
        for f in fs:
            q = os.path.join(b, f)
            o[os.path.relpath(q, d)] = open(q, 'rb').read() if not os.path.islink(q) else None
    return o


def files(c, ctx):
    """where lemon reads and writes"""
    exe, lempar = build.lemon(True)
    d = ctx.dir()
    base = c.pick(['g.lem', 'g.lem', 'g', 'g.y', 'a.b.y', 'a.b', 'x y.y', 'q"q.y', 'g.', 'back\\slash.y', '\xe9.y', 'l' * 200 + '.y', '%d%s.y', 'g.lem.lem', '-.y', '.hid'])
    sub = c.pick(['', '', 'sub/', 'a.d/', 'a.d/e.f/', './', 'sub/../', 'sub//', './' * 700, 'a b/', '../w/', None])
    if sub is None:
        sub = d + '/w/'
    if sub == '' and base[0] == '-':
        sub = './'
    w = os.path.join(d, 'w')
    os.makedirs(w)
    for x in ('sub', 'a.d/e.f', 'a b', 'out', 'out.d', 'bin', 'other'):
        os.makedirs(os.path.join(w, x))
    path = sub + base
    real = lambda q: os.path.relpath(os.path.realpath(os.path.join(w, q)), w)
    outdir = c.pick([None, None, None, 'out', 'out.d', './out/', '.', 'a b', d + '/w/out'])
    toks = c.pick(['', ' C', ' LONG' + 'x' * 1500, ''.join(' T%d' % k for k in range(300))])
    text = GRAM % (cstr(path), toks)
    ctx.files['path'] = path[:200]
    ctx.files['g.lem'] = text
    ctx.write(w, real(path), text.encode())
    stem = base.rsplit('.', 1)[0] if '.' in base else base
    ostem = (outdir + '/' if outdir else sub) + stem
    # templates
    lp = open(lempar).read()
    cut = lp.index('\n', lp.index('\n%%')) + 1
    end = [(lp, '')]

    def template(q, mark, long=False):
        t = lp[:cut] + '/* MARK %s */\n' % mark + ('/*' + 'y' * c.pick([996, 997, 998, 999, 1997, 5000]) + '%%*/\n' if long else '') + lp[cut:]
        ctx.write(w, real(q), t)
    argv0 = c.pick(['bin/lemon', './bin/lemon', w + '/bin/lemon', 'PATH', 'PATH2', 'PATH3'])
    os.symlink(exe, w + '/bin/lemon')
    env = None
    if argv0 == 'PATH':
        env = {'PATH': w + '/bin:/usr/bin:/bin'}
    elif argv0 == 'PATH2':
        env = {'PATH': '/usr/bin:/bin:' + w + '/bin'}
    elif argv0 == 'PATH3':
        # the others have no lempar.c
        env = {'PATH': ':'.join(c.shuffle(['/usr/bin', '/bin', c.pick(['bin', './bin', w + '/bin'])] + c.sample(['out', 'a b', '/none/such', './sub', 'none', w + '/other'], c.draw(4))))}
    cand = []
    args = []
    tl = c.bool(1, 4)
    if c.bool(1, 3):
        q = c.pick(['other/t', 'out.d/lempar.c', w + '/other/my.tpl', 'sub/' + 'n' * 240])
        template(q, 'T', tl)
        args += ['-T' + q]
        cand.append('T')
    if c.bool(1, 3):
        q = sub + stem + '.lt'
        template(q, 'LT', tl)
        cand.append('LT')
    if c.bool(1, 3):
        template('lempar.c', 'CWD', tl)
        cand.append('CWD')
    if c.bool(4, 5):
        template('bin/lempar.c', 'EXE', tl)
        cand.append('EXE')
    if outdir:
        args.append('-d' + outdir)
    for o in ('-q', '-m', '-l', '-s', '-c', '-g', '-y', '-S', '-E', '-x'):
        if c.bool(1, 8 if o not in ('-E', '-x') else 30):
            args.append(o)
    args = c.shuffle(args)
    if c.bool(1, 2):
        args.append(path)
    else:
        args.insert(c.draw(len(args) + 1), path)
    ctx.files['args'] = ' '.join(args)[:600]
    ctx.files['template'] = ' '.join(cand)
    exts = ['.c'] + ([] if '-m' in args else ['.h']) + ([] if '-q' in args else ['.out']) + (['.sql'] if '-S' in args else [])
    if '-E' in args or '-x' in args:
        exts = []
    want = {real(ostem + e) for e in exts}
    if real(path) in want:
        raise Discard('the grammar would be overwritten')
    # something is there already
    for e in c.subset(['.c', '.h', '.out', '.sql', '.s', '.output'], 1, 3):
        if real(ostem + e) != real(path):
            ctx.write(w, real(ostem + e), 'old text\n' * c.pick([0, 1, 50000]))
    before = tree(w)
    if env:
        cmd = ['sh', '-c', 'exec lemon "$@"', 'sh'] + args
    else:
        cmd = [argv0 if argv0.startswith('/') else './' + argv0 if False else argv0] + args
        # (the shell resolves it in the directory w)
        cmd = ['sh', '-c', 'exec %s "$@"' % argv0.replace(' ', '\\ '), 'sh'] + args

    def V(m, k):
        raise Violation('lemon %s: %s' % (' '.join(args)[:400], m), k)
    p = lem(ctx, cmd, w, env)
    ctx.ev()
    after = tree(w)
    ctx.label('template ' + (cand[0] if cand else 'none'))
    if not cand and exts:
        if p.rc != 1 or "Can't" not in p.errs or 'template' not in p.errs:
            V('there is no template, status %d, %r' % (p.rc, p.errs[:300]), 'template')
        if real(ostem + '.c') in after and after[real(ostem + '.c')] != before.get(real(ostem + '.c')):
            V('there is no template, but a parser', 'template')
        ctx.nontrivial((path, ' '.join(args)))
        return
    if p.rc or p.err:
        V('status %d, %r' % (p.rc, p.errs[:300]), 'status')
    ch = {f for f in set(after) | set(before) if after.get(f, 0) != before.get(f, 0)}
    # (a header that was right is not written again)
    if ch != want:
        V('the files written are %s instead of %s' % (sorted(ch), sorted(want)), 'files')
    if '-x' in args and not re.fullmatch(r'Lemon version [\d.]+\n', p.outs):
        V('-x says %r' % p.outs, 'stdout')
    if '-x' not in args and not {'-E', '-g', '-y', '-s'} & set(args) and p.out:
        V('there is text on standard output: %r' % p.outs[:200], 'stdout')
    if '-x' not in args and {'-E', '-g', '-y', '-s'} & set(args) and not p.out:
        V('there is nothing on standard output', 'stdout')
    ctx.nontrivial((path, ' '.join(args)))
    ctx.sample('%s: %s' % (args, sorted(want)))
    if not exts:
        return
    out = after[real(ostem + '.c')].decode('utf-8', 'surrogateescape')
    ctx.files['g.c'] = out[:3000]
    m = re.findall(r'/\* MARK (\w+) \*/', out)
    if m != cand[:1]:
        V('the template is %s instead of %s' % (m, cand[0]), 'template')
    # line numbers
    own = ostem + '.c'
    if '-l' in args:
        if re.search(r'(?m)^#line ', out):
            V('#line in spite of -l', 'nolines')
    else:
        ls = out.split('\n')
        for k, l in enumerate(ls, 1):
            if l.startswith('#line'):
                m = re.match(r'#line (\d+) (".*")$', l)
                if not m or m.group(2) not in (cstr(own), cstr(path)):
                    V('line %d is %r, the files are %s and %s' % (k, l, cstr(own), cstr(path)), 'name')
                if m.group(2) == cstr(own) and int(m.group(1)) != k + 1:
                    V('line %d of %s is %r, but the next line is %d' % (k, own, l, k + 1), 'own-line')
        if '-m' not in args and len(path) < 1000:
            q = ctx.run(['gcc', '-w', '-fsyntax-only', '-x', 'c', './' + real(own)], cwd=w, timeout=120)
            if q.timeout or q.rc < 0:
                raise Resource('gcc')
            if q.rc:
                V('the parser does not compile: %s' % q.errs[:1000], 'mapping')
            ctx.label('compiled')
    # the same again, or with one more token: the header
    if '-m' in args:
        return
    h = os.path.join(w, real(ostem + '.h'))
    os.utime(h, ns=(10 ** 18, 10 ** 18))
    more = c.pick([0, 1, 2])
    if more:
        ctx.write(w, real(path), (GRAM % (cstr(path), toks + ' ZZ') if more == 1 else text.replace('%token A B', '%token B A')).encode())
    p = lem(ctx, cmd, w, env)
    if p.rc or p.err:
        V('again: status %d, %r' % (p.rc, p.errs[:300]), 'status')
    now = tree(w)
    kept = os.stat(h).st_mtime_ns == 10 ** 18
    if not more and (now != after or not kept):
        V('the same again: %s' % ('other files: %s' % sorted(f for f in now if now[f] != after.get(f)) if now != after else 'the header is written anew'), 'again')
    exp = (['B', 'A'] if more == 2 else ['A', 'B']) + toks.split() + (['ZZ'] if more == 1 else [])
    hd = re.findall(r'(\w+) = +(\d+),?\n', now[real(ostem + '.h')].decode())
    if hd != [(x, str(k)) for k, x in enumerate(exp + ['LEMON_LAST_TOKEN'], 1)]:
        V('the header of the changed grammar has %s' % hd[:10], 'header')
    ctx.label('again')


def fail(c, ctx):
    """an output that cannot be written: lemon says so and fails"""
    exe, lempar = build.lemon(True)
    d = ctx.dir()
    n = c.pick([0, 0, 5, 300])
    text = GRAM % ('"g.lem"', ''.join(' T%d' % k for k in range(n)))
    ctx.files['g.lem'] = text
    ctx.write(d, 'g.lem', text)
    args = [o for o in ('-l', '-s', '-c', '-g', '-y', '-S', '-p', '-r') if c.bool(1, 4)]
    out = c.pick(['.c', '.h', '.out', '.sql', 'stdout', '.c', '.h', 'input', 'dir'])
    how = c.pick(['full', 'directory', 'nowhere', 'size'])
    if out == '.sql' and '-S' not in args:
        args.append('-S')
    name = 'g' + out
    cmd = None
    pre = []
    if out == 'stdout':
        how = 'full'
        if not {'-g', '-y', '-s'} & set(args):
            args.append(c.pick(['-g', '-y', '-s', '-E']))
        pre, name = '>/dev/full', 'stdout'
    elif out == 'input':
        how = c.pick(['missing', 'directory', 'empty', 'two', 'none'])
        os.unlink(d + '/g.lem')
        name = 'g.lem'
        if how == 'directory':
            os.mkdir(d + '/g.lem')
        elif how == 'empty':
            ctx.write(d, 'g.lem', c.pick(['', '\n', '// x', '%token A.\n', '%include {\nint a;\n}\n']))
            name = 'grammar'
        elif how == 'two':
            ctx.write(d, 'g.lem', text)
            args.append(c.pick(['g.lem', 'h.lem']))
            name = 'one filename'
        elif how == 'none':
            name = 'one filename'
    elif out == 'dir':
        how = 'missing'
        args.append('-dmissing/x')
        name = 'missing/x/g.'
    elif how == 'full':
        os.symlink('/dev/full', os.path.join(d, name))
    elif how == 'directory':
        os.mkdir(os.path.join(d, name))
    elif how == 'nowhere':
        os.symlink(d + '/none/x', os.path.join(d, name))
    elif how == 'size':
        pre = 'trap "" XFSZ; ulimit -f %d;' % c.pick([0, 1, 2, 8, 16])
    args += ['-T' + lempar] + (['g.lem'] if how != 'none' else [])
    ctx.files['args'] = ' '.join(args)
    if pre == '>/dev/full':
        cmd = ['sh', '-c', 'exec "$@" >/dev/full', 'sh', exe] + args
    elif pre:
        cmd = ['bash', '-c', pre + ' exec "$@"', 'sh', exe] + args
    else:
        cmd = [exe] + args
    before = set(os.listdir(d))
    p = lem(ctx, cmd, d)
    ctx.ev()

    def V(m, k):
        raise Violation('lemon %s, %s %s: %s' % (' '.join(args), out, how, m), k)
    ctx.label('%s %s' % (out, how))
    ctx.nontrivial((text, out, how))
    ctx.sample('%s %s: %s' % (out, how, p.errs[:200]))
    if how == 'size':
        # every file complete, or an error naming one that is not
        ref = ctx.dir()
        ctx.write(ref, 'g.lem', text)
        q = lem(ctx, [exe] + args, ref)
        broken = [e for e in ('g.c', 'g.h', 'g.out', 'g.sql') if os.path.exists(ref + '/' + e) and (not os.path.exists(d + '/' + e) or open(ref + '/' + e, 'rb').read() != open(d + '/' + e, 'rb').read())]
        # standard output and error are files in this framework as well
        if '-g' in args or '-y' in args or '-s' in args:
            if broken and p.rc != 1:
                V('%s is not complete, but the status is %d' % (broken, p.rc), 'quiet')
            return
        if (p.rc == 1) != bool(broken):
            V('status %d, the broken files are %s' % (p.rc, broken), 'quiet')
        for b in broken:
            if 'ulimit -f 0' not in pre and b not in p.errs:
                V('%s is not complete, the messages are %r' % (b, p.errs[:300]), 'quiet')
        ctx.label('broken %d' % len(broken))
        return
    if p.rc != 1:
        V('status %d, %r' % (p.rc, p.errs[:300]), 'quiet')
    if name not in p.errs:
        V('the messages do not name %s: %r' % (name, p.errs[:300]), 'message')
    if out == 'input' and set(os.listdir(d)) != before:
        V('files are written: %s' % sorted(os.listdir(d)), 'files')


FLAGS = 'bcEgyYzumlpqrsSx'
STRINGS = 'dDfIOTW'
CMD = """%token_type {int}
%token A B.
%nonassoc LOW.
%nonassoc B.
s ::= e.
e ::= e B e.
e ::= A. { f(); }
%ifdef X
s ::= B B.
%endif
%ifdef YY
s ::= A A.
%endif
"""


def cmdline(c, ctx):
    """the ways of writing options: all mean the same as the plain way, or are refused"""
    exe, lempar = build.lemon(True)
    d = ctx.dir()
    cut = open(lempar).read().replace('%%', '/* T */\n%%', 1)
    dirs = []
    for k in range(2):
        w = os.path.join(d, 'w%d' % k)
        for x in ('o1', 'o2', 'I=x'):
            os.makedirs(os.path.join(w, x))
        ctx.write(w, 'g.lem', CMD)
        ctx.write(w, 't1.c', open(lempar).read())
        ctx.write(w, 't2.c', cut)
        dirs.append(w)
    # the command line
    args, flags, strs, errs, files = [], {}, {'D': []}, [], []
    n = 1 + c.geo(11, 4, 5)
    for k in range(n):
        how = c.weighted([(6, 0), (3, 1), (6, 2), (5, 3), (3, 4), (1, 5)])
        v = lambda o: c.pick({'d': ['o1', 'o2', '.', 'I=x'], 'T': ['t1.c', './t2.c', 't2.c'], 'D': ['X', 'YY', 'X=3', 'YYY', 'Z=', 'XY']}.get(o, ['', 'x', 'none/such', 'a=b', '-l', '=']))
        if how == 0:
            o = c.pick(FLAGS)
            s = c.pick('--++' if o in 'xEb' else '---+')
            if o == 'x' and not c.bool(1, 5):
                continue
            args.append(s + o + c.pick(['', '', '', 'q', 'zz', '=1', '-']))
            flags[o] = s == '-'
        elif how == 1:
            o = c.pick(FLAGS)
            args.append(o + '=' + c.pick(['', '1', 'x', 'a=b']))
            errs.append((len(args), 0, 'option requires an argument.'))
        elif how in (2, 3):
            o = c.pick(STRINGS)
            x = v(o)
            args.append((c.pick('---+') + o + x) if how == 2 else o + '=' + x)
            if o == 'D':
                strs['D'].append(x)
            else:
                strs[o] = x
        elif how == 4:
            o = c.pick(['k', 'h', '', '1', '=', '%s', ' ', '\xe9', 'Q' * 30, '?', 'A', 'B=1'])
            args.append(c.pick('-+') + o)
            errs.append((len(args), 1, 'undefined option.'))
        else:
            args.append(c.pick(['ll=1', '=', 'k=', 'g.lem=', 'DD=X', '%d=%s']))
            errs.append((len(args), 0, 'undefined option.'))
    if not c.bool(1, 3):
        # leave out what is refused
        bad = {i for i, *_ in errs}
        args = [a for i, a in enumerate(args, 1) if i not in bad]
        errs = []
    pos = c.draw(len(args) + 1)
    nf = c.weighted([(1, 0), (12, 1), (1, 2)])
    for k in range(nf):
        args.insert(pos, 'g.lem')
        errs = [(i + (i > pos), k, m) for i, k, m in errs]
    if nf == 1 and errs and c.bool(1, 4):
        pass
    ctx.files['args'] = '\n'.join(args)
    before = tree(dirs[0])
    p = lem(ctx, [exe] + args, dirs[0])
    ctx.ev()
    ctx.nontrivial(tuple(args))

    def V(m, k):
        raise Violation('lemon %s: %s' % (' '.join(args), m), k)
    after = tree(dirs[0])
    if errs:
        ctx.label('refused')
        exp = b''
        for i, k, m in errs:
            before_ = [os.fsencode(x) for x in [exe] + args]
            line = b' '.join(before_)
            col = len(b' '.join(before_[:i])) + 1 + k
            mark = b' ' * col + b'^-- here' if col < 20 else b' ' * (col - 7) + b'here --^'
            exp += b'Command line syntax error: ' + m.encode() + b'\n' + line + b'\n' + mark + b'\n'
        exp += b'Valid command line options for "' + exe.encode() + b'" are:\n'
        if p.rc != 1 or not p.err.startswith(exp):
            V('status %d, the messages are %r instead of %r' % (p.rc, p.err[:600], exp[:600]), 'message')
        rest = p.err[len(exp):].decode()
        if re.findall(r'(?m)^  -(\w)(?:<string>)?  ', rest) != list('bcdDEfgyYzuImlOpqrsSxTW'):
            V('the options listed are %r' % rest, 'message')
        if p.out or after != before:
            V('%r is printed, the files changed are %s' % (p.outs[:100], [f for f in after if after[f] != before.get(f)]), 'files')
        return
    if nf != 1 and not flags.get('x'):
        ctx.label('%d files' % nf)
        if p.rc != 1 or p.errs != 'Exactly one filename argument is required.\n' or p.out or after != before:
            V('status %d, %r' % (p.rc, p.errs[:300]), 'message')
        return
    # the plain way
    plain = ['-' + o for o in FLAGS if flags.get(o)] + ['-D' + x.split('=')[0] for x in strs['D']] + ['-%s%s' % (o, strs[o]) for o in 'dT' if o in strs] + ['g.lem'] * nf
    q = lem(ctx, [exe] + plain, dirs[1])
    if (p.rc, p.out, p.err) != (q.rc, q.out, q.err):
        V('status %d, %r, %r; but %s: %d, %r, %r' % (p.rc, p.outs[:200], p.errs[:200], ' '.join(plain), q.rc, q.outs[:200], q.errs[:200]), 'spelling')
    # (the file copied into the report and the SQL is not the command line)
    now = tree(dirs[1])
    if after != now:
        V('the files differ from those of %s: %s' % (' '.join(plain), sorted(f for f in set(after) | set(now) if after.get(f, 0) != now.get(f, 0))), 'spelling')
    ctx.label('x' if flags.get('x') else 'accepted')
    ctx.sample('%s = %s' % (args, plain))


SPEC = dict(
    tests={
        'cmdline': (cmdline, 2500, 20000),
        'files': (files, 2800, 30000),
        'fail': (fail, 2800, 20000),
    },
    setup=lambda tier: build.lemon(True),
    rule='files: a small grammar under a generated path (dots in directories, no extension, quotes, long names), with -d, templates in some of the four documented places, options, old files in the way and several ways of starting lemon: files written, template used, #line names (also as the compiler sees them), standard output, and what a second run with the same or another token list writes; fail: one output is a full device, a directory, in a missing directory or cut by a file size limit, or the input is missing, a directory, empty, or not one file: status 1, message naming the file, complete files otherwise. cmdline: options in all their spellings (-l, -lrest, +l, D=X), repeated, misspelt, missing values: refused with a message per option pointing at it and nothing written, or everything as with the plain spelling. Every case counts; distinct by path and options, by the fault, or by the command line',
    assumptions=['the name of the grammar contains no newline and no comment delimiter, and no output has the name of the grammar itself', 'write failures are those of /dev/full and of RLIMIT_FSIZE'],
)
