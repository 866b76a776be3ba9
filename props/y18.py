"""Y18: exit status, diagnostics and output files tell the truth about the run."""
import os, re, resource, signal, subprocess
from vlib import byacc, gen, ctext, build
from vlib.engine import Violation, Discard, Resource
from props.y09 import rich
from props import y03

FILES = {'-v': '.output', '-g': '.dot', '-e': '.ebnf', '-E': '.yl', '-n': '.yn', '-N': '.yn', '-C': '.ypar', '-c': '.ycbrt', '-S': '.sql', '-d': '.tab.h', '-i': '.tab.i', '-r': '.code.c'}
LONG = {'-g': '--graph', '-e': '--ebnf', '-E': '--lemon', '-n': '--naked', '-N': '--nakedq', '-S': '--sql', '-c': '--carburetta'}


def launch(cmd, cwd, tmp, fsize=None, preload=None, timeout=60):
    """like ctx.run, with the messages in a pipe and an optional limit on the size of files"""
    e = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C', 'TMPDIR': tmp, 'TEMP': tmp}
    if preload:
        e.update(preload)

    def pre():
        if fsize is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, capture_output=True, timeout=timeout, preexec_fn=pre, restore_signals=False)
    except subprocess.TimeoutExpired:
        raise Violation('%s does not terminate' % ' '.join(cmd), 'hang')
    p.errs = p.stderr.decode('latin-1')
    p.outs = p.stdout.decode('latin-1')
    return p


def read_all(d, skip=()):
    r = {}
    for root, _, names in os.walk(d):
        for n in names:
            q = os.path.join(root, n)
            k = os.path.relpath(q, d)
            if k not in skip and not os.path.islink(q):
                with open(q, 'rb') as f:
                    r[k] = f.read()
    return r


# ---------------------------------------------------------------- names of the files
def options(c, var):
    """(options, [files they ask for]) in one directory that has a directory sub"""
    o = [x for x in c.subset(sorted(FILES), 1, 4)]
    prefix, out = 'y', None
    k = c.draw(6)
    hdr = None
    if k == 0:
        prefix = c.pick(['q', 'sub/x', 'a.b', '-', 'p_1'])
    elif k == 1:
        out = c.pick(['o.c', 'sub/o.c', 'o.tab.c', 'out.cc', 'parser', 'x.y.c'])
    elif k == 2 and '-d' not in o:
        hdr = c.pick(['h.h', 'sub/h.hh', 'y.output.h'])
    ds, xs = '.tab.h', '.tab.i'
    if out:
        if out.endswith('.tab.c'):
            prefix = out[:-6]
        elif out.endswith('.c'):
            prefix, ds, xs = out[:-2], '.h', '.i'
    opts = []
    for x in o:
        if x in LONG and c.bool(1, 5):
            opts.append(LONG[x])
        elif opts and len(opts[-1]) < 5 and opts[-1][:2] != '--' and c.bool(1, 4):
            opts[-1] += x[1]
        else:
            opts.append(x)
    want = [out or prefix + '.tab.c'] + [prefix + (ds if x == '-d' else xs if x == '-i' else '.ynq' if x == '-N' and '-n' in o else FILES[x]) for x in o]
    if k == 0:
        opts += c.pick([['-b', prefix], ['-b' + prefix], ['--file-prefix=' + prefix]])
    elif out:
        opts += c.pick([['-o', out], ['-o' + out], ['--output=' + out]])
    elif hdr:
        opts += c.pick([['-H', hdr], ['-H' + hdr], ['--defines=' + hdr], ['--defines', hdr]])
        want.append(hdr)
    for x in c.subset(['-l', '-t', '-s', '-P', '-u', '-z', '-y'], 1, 6):
        opts.insert(c.draw(len(opts) + 1) if not any(y in ('-b', '-o', '-H', '--defines') for y in opts) else 0, x)
    if var == 'btyacc':
        opts = [x for x in ['-B', '-L'] if c.bool(1, 6)] + opts
    return opts, sorted(set(want))


def accepted(c, ctx, var, opts=()):
    """a specification that byacc accepts"""
    for _ in range(8):
        spec = rich(c)
        d = ctx.dir()
        ctx.write(d, 'in.y', spec)
        os.mkdir(os.path.join(d, 'sub'))
        os.mkdir(os.path.join(d, 'tmp'))
        p = launch([byacc.tool(var)] + list(opts) + ['in.y'], d, os.path.join(d, 'tmp'))
        if p.returncode == 0:
            ctx.files['in.y'] = spec
            return spec, p, d
        if p.returncode < 0:
            raise Violation('%s %s died with signal %d' % (var, opts, -p.returncode), 'crash')
    raise Discard('rejected')


def files(c, ctx):
    var = c.pick(['btyacc', 'yacc'])
    opts, want = options(c, var)
    spec, p, d = accepted(c, ctx, var, opts)
    got = read_all(d, ['in.y'])

    def V(m, k):
        raise Violation('%s %s: %s' % (var, ' '.join(opts), m), k)
    if sorted(got) != want:
        V('writes %s instead of %s' % (sorted(got), want), 'files')
    if p.outs:
        V('prints %r' % p.outs[:100], 'stdout')
    for n, t in got.items():
        if not t.strip() and '.h' not in n:
            V('%s is empty' % n, 'empty')
    ctx.ev(len(want))
    ctx.label('files %d' % len(want))
    for x in opts:
        ctx.label(x.split('=')[0])
    # one failing file, or a limit on the size of every file
    d2 = ctx.dir()
    tmp = os.path.join(d2, 'tmp')
    os.mkdir(os.path.join(d2, 'sub'))
    ctx.write(d2, 'in.y', spec)
    kind = c.pick(['full', 'full', 'dir', 'nodir', 'size', 'size', 'size', 'notmp'])
    size = None
    mk = True
    if kind == 'full':
        n = c.pick(want)
        os.symlink('/dev/full', os.path.join(d2, n))
    elif kind == 'dir':
        n = c.pick(want)
        os.mkdir(os.path.join(d2, n))
    elif kind == 'nodir':
        n = c.pick(want)
        os.symlink('missing/file', os.path.join(d2, n))
    elif kind == 'size':
        n = c.pick(want)
        k = len(got[n])
        size = c.pick([0, 1, k - 1, k, k + 1, k // 2, 4095, 4096, 4097, c.int(0, max(len(t) for t in got.values()) + 100)])
        size = max(0, size)
    else:
        # nowhere to put temporary files: neither there nor in /tmp nor here
        kind = 'size'
        size = c.int(0, 400)
        n = ''
    if mk:
        os.mkdir(tmp)
    p = launch([byacc.tool(var)] + opts + ['in.y'], d2, tmp, fsize=size)
    now = read_all(d2, ['in.y'])
    left = [x for x in now if x.startswith('tmp/')]
    if p.returncode < 0:
        V('died with signal %d under %s %s' % (-p.returncode, kind, n if size is None else size), 'crash')
    if left:
        V('leaves temporary files %s (status %d)' % (left, p.returncode), 'temporary')
    what = 'files limited to %d bytes' % size if size is not None else {'full': 'no space for ', 'dir': 'a directory named ', 'nodir': 'no directory for '}[kind] + n
    if p.returncode == 0:
        if size is None and (kind != 'full' or got[n]):
            V('%s, but status 0' % what, 'status')
        bad = [x for x in got if (now.get(x) or b'') != got[x]]
        if bad:
            V('%s, but status 0 and an incomplete %s' % (what, bad[0]), 'status')
        ctx.label('fault: none reached')
    else:
        if not p.errs.strip():
            V('%s: status %d without a message' % (what, p.returncode), 'message')
        if size is not None and size > 1 << 20:
            V('%s: status %d' % (what, p.returncode), 'status')
        ctx.label('fault: ' + kind)
    ctx.ev()
    if len(want) > 1:
        ctx.nontrivial(str(opts) + what + spec[:100])
    ctx.sample('%s -> %s; %s -> status %d' % (' '.join(opts), want, what, p.returncode))


# ---------------------------------------------------------------- errors at a known place
def decl_errors(c, bt):
    """(name, text, line of the error relative to the text, message, status)"""
    sp = c.pick([' ', '  ', '\t'])
    n = c.draw(3)
    pad = ''.join(c.pick(['\n', ' \n', '/* c */\n', '/* a\n b */ \n', '// x\n']) for _ in range(n))
    k = pad.count('\n')
    return c.pick([
        ('keyword', '%bogus' + sp + 'x\n', 0, 'syntax error', 1),
        ('keyword', '%' + sp + 'token ZA\n', 0, 'syntax error', 1),
        ('junk', ')\n', 0, 'syntax error', 1),
        ('junk', '%token ZA\n' + pad + '=\n', 1 + k, 'syntax error', 1),
        ('tag', '%token' + sp + '<\n', 0, 'illegal tag', 1),
        ('tag', '%token' + sp + '<1> ZA\n', 0, 'illegal tag', 1),
        ('tag', '%token\n' + pad + '<a+> ZA\n', 1 + k, 'illegal tag', 1),
        ('comment', '/* never closed', 0, 'unmatched /*', 1),
        ('comment', '%token ZA\n' + pad + ' /* never closed\n', 1 + k, 'unmatched /*', 1),
        ('text', '%{\nint x;\n', 0, 'unmatched %{', 1),
        ('text', '%{\nint x; /* never closed\n', 1, 'unmatched /*', 1),
        ('text', '%{\n' + pad + 'char *x = "never closed\n;\n%}\n', 1 + k, 'unterminated string', 1),
        ('text', '%{\n\n' + "char x = 'never closed\n;\n%}\n", 2, 'unterminated string', 1),
        ('union', '%union {\n int i;\n', 0, 'unterminated %union declaration', 1),
        ('union', '%union\n' + pad + '{\n int i; {\n', 0, 'unterminated %union declaration', 1),
        ('union2', '%union { int i; }\n' + pad + '%union { int j; }\n', 1 + k, 'too many %union declarations', 1),
        ('string', '%token "never closed\n', 0, 'unterminated string', 1),
        ('string', '%token ZA ZB\n' + pad + "'never closed\n", 1 + k, 'unterminated string', 1),
        ('char', "%token ZA '\\400'\n", 0, 'illegal character', 1),
        ('char', "%left ZA\n" + pad + "'\\xg'\n", 1 + k, 'illegal character', 1),
        ('start', '%start' + sp + '1\n', 0, 'syntax error', 1),
        ('start', '%token ZS\n' + pad + '%start ZS\n', 1 + k, 'the start symbol ZS is a token', 1),
        ('start', '%start zr\n' + pad + '%start' + sp + 'zgoal\n', 1 + k, 'the start symbol has been redeclared', 0),
        ('start', '%start ZS\n' + pad + '%token ZS\n', 1 + k, 'the start symbol ZS cannot be declared to be a token', 1),
        ('reserved', '%token $accept\n', 0, 'illegal use of reserved symbol $accept', 1),
        ('reserved', '%token ZA\n' + pad + '$end\n', 1 + k, 'illegal use of reserved symbol $end', 1),
        ('reserved', '%token $$1\n', 0, 'illegal use of reserved symbol $$1', 1),
        ('expect', '%expect' + sp + 'x\n', 0, 'syntax error', 1),
        ('expect', '%expect\n1\n', 0, 'syntax error', 1),
        ('retyped', '%token <a> ZA\n' + pad + '%token' + sp + '<b> ZA\n', 1 + k, 'the type of ZA has been redeclared', 0),
        ('retyped', '%type <a> zz\n' + pad + '%type <b>\nzz\n', None, 'the type of zz has been redeclared', 0),
        ('revalued', '%token ZA 700\n' + pad + '%token ZA 701\n', 1 + k, 'the value of ZA has been redeclared', 0),
        ('reprec', '%left ZA\n' + pad + '%right\n\nZA\n', 3 + k, 'the precedence of ZA has been redeclared', 0),
        ('number', '%token ZA 70000000000\n', 0, 'syntax error', 1),
        ('param', '%lex-param' + sp + '{ }\n', 0, None, None),
        ('code', '%code nosuch { }\n', 0, None, None),
    ] + ([
        ('destructor', '%destructor {\n free($$);\n', 0, 'unterminated action', 1),
        ('destructor', '%destructor ZA\n', 0, 'syntax error', 1),
        ('destructor2', '%destructor { f(); } ZA\n' + pad + '%destructor' + sp + '{\n g(); } ZB ZA\n', 1 + k, 'destructor redeclared', 0),
        ('destructor2', '%destructor { f(); } <zt>\n' + pad + '%destructor' + sp + '{ g(); } <zu>\n <zt>\n', 1 + k, 'destructor redeclared', 0),
        ('destructor2', '%destructor { f(); } <*> <>\n' + pad + '%destructor' + sp + '{ g(); } ' + c.pick(['<*>', '<>']) + '\n', 1 + k, 'destructor redeclared', 0),
        ('destructor', '%destructor { f($<a>1); } ZA\n', 0, 'illegal $-name', 1),
    ] if bt else []))


def rule_errors(c, bt, tagged):
    sp = c.pick([' ', '  ', '\t', '\n', '\n\n', ' /* c */ ', '/* a\n */\n', ' // x\n'])
    k = sp.count('\n')
    pad = ''.join(c.pick(['\n', ' x();\n', '/* c */\n', '/* a\n b */ \n', '// x\n', ' { y(); }\n', ' "s";\n']) for _ in range(c.draw(3)))
    m = pad.count('\n')
    l = [
        ('lhs', 'ZT' + sp + ': ZT ;\n', 0, 'a token appears on the lhs of a production', 1),
        ('colon', 'zz ;' + '\n', 0, None, None),
        ('junk', 'zz :' + sp + '@ ;\n', k, 'syntax error', 1),
        ('junk', 'zz : ZT' + sp + ') ;\n', k, 'syntax error', 1),
        ('junk', 'zz : ZT' + sp + '< ;\n', k, 'syntax error', 1),
        ('action', 'zz : ZT' + sp + '{ x();\n' + pad, k, 'unterminated action', 1),
        ('action', 'zz : ZT' + sp + '{' + pad + ' {{ } }\n;\n', k, 'unterminated action', 1),
        ('action', 'zz : ZT {' + pad + 'f("never closed);\n } ;\n', m, 'unterminated string', 1),
        ('action', 'zz : ZT {' + pad + "f('never closed);\n } ;\n", m, 'unterminated string', 1),
        ('action', 'zz : ZT {' + pad + ' /* never closed } ;\n', m, 'unmatched /*', 1),
        ('comment', 'zz : ZT' + sp + '/* never closed ;\n', k, 'unmatched /*', 1),
        ('string', 'zz : ZT' + sp + '"never closed ;\n', k, 'unterminated string', 1),
        ('char', "zz : ZT" + sp + "'\\400' ;\n", k, 'illegal character', 1),
        ('prec', 'zz : ZT %prec' + sp + ';\n', None, None, 1),
        ('prec', 'zz : ZT' + sp + '%prod ZT ;\n', k, 'syntax error', 1),
        ('prec', 'zz : ZT %prec ZL' + sp + '%prec ZM ;\n', k, 'conflicting %prec specifiers', 0),
        ('dollar', 'zz : ZT {' + pad + ' $<a>+ } ;\n', m, 'illegal $-name', 1),
        ('reserved', 'zz : ZT' + sp + '$accept ;\n', k, 'illegal use of reserved symbol $accept', 1),
        ('undefined', 'zz : ZT' + sp + 'nowhere ;\n', None, 'the symbol nowhere is undefined', 0),
    ]
    if tagged:
        l += [
            ('untyped', 'zz : ZT {' + pad + ' $$ = 0; } ;\n', m, '$$ is untyped', 1),
            ('untyped', 'zz : ZT ZL {' + pad + ' f($2); } ;\n', m, '$2 (ZL) is untyped', 1),
            ('untyped', 'zz : ZT {' + pad + ' f($0); } ;\n', m, '$0 is untyped', 1),
            ('untyped', 'zz : ZT {' + pad + ' f($-3); } ;\n', m, '$-3 is untyped', 1),
            ] + ([('default', 'zty : ZT\n' + '| ZT ZL\n;\n', None, 'the default action for zty assigns an undefined value to $$', 0)] if tagged == 2 else [])
    else:
        l += [('beyond', 'zz : ZT' + sp + '{' + pad + ' f($7); } ;\n', k + m, '$7 references beyond the end of the current rule', 0)]
    if bt:
        l += [('at', 'zz : ZT' + sp + '{' + pad + ' f(@4); } ;\n', k + m, '@4 references beyond the end of the current rule', 0),
              ('at', 'zz : ZT' + sp + '{' + pad + ' f(@1); } ;\n', k + m, 'expected %locations', 0)]
        ws = c.pick(['', ' ', '\n', '\n\n', '\t', ' \n '])
        w = ws.count('\n')
        two, one = 'zz($<i>a, $<i>b) : ZT ;\n', 'zz($<i>a) : ZT ;\n'
        l += c.sample([
            ('arguments', two + pad.replace('x();', '').replace('{ y(); }', '').replace('"s";', '') + 'zz(' + ws + '$<i>a' + ws + ') : ZT ZT ;\n', 1 + m, "number of arguments of zz doesn't agree with previous declaration", 0),
            ('arguments', two + 'zz($<i>a,' + ws + '$<s>' + ws + 'b) : ZT ZT ;\n', 1 + w, "type of argument 2 to zz doesn't agree with previous declaration", 0),
            ('arguments', two + 'zz($' + '<s>a,$<i>b' + ws + ') : ZT ZT ;\n', 1, "type of argument 1 to zz doesn't agree with previous declaration", 0),
            ('arguments', one + 'zy : zz ZT ;\n', 1, 'wrong number of default arguments for zz', 0),
            ('arguments', two + 'zy($<i>b,' + ws + '$<s>c) : zz ZT ;\n', 1 + w, 'wrong type for default argument 2 to zz', 0),
            ('arguments', two + 'zy($<c>b, $<i>c) : zz ZT ;\n', 1, 'wrong type for default argument 1 to zz', 0),
            ('arguments', one + 'zy : zz(1,' + ws + '2) ZT ;\n', 1 + w, 'wrong number of arguments for zz', 0),
            ('arguments', two + 'zy($<i>a, $<i>b) : ZT zz ZT ;\n', 1, 'wrong number of arguments for zz', 0),
            ('arguments', 'zz($<i>a) : ZT {' + pad + ' f($nope); } ;\n', m, 'unknown argument $nope', 0),
            ('arguments', 'zz($<i>a) : ZT {' + pad + ' f($nope); } ;\n', m, 'untyped argument $nope', 0),
            ('arguments', one + 'zy($<i>b) : zz(' + ws + '$nope' + ws + ') ;\n', 1 + w, 'unknown argument $nope', 0),
            ('arguments', one + 'zy($<i>b) : ZT zz($b) zz(' + ws + 'f($b, $nope)) ;\n', 1 + w, 'unknown argument $nope', 0),
            ('arguments', one + 'zy($<i>b) : ZT zz(' + ws + '$<i>8) ;\n', 1 + w, '$8 references beyond the end of the current rule', 0),
            ('arguments', one + 'zy($<i>b) : ZT zz(' + ws + '$<1>1) ;\n', 1 + w, 'illegal tag', 1),
            ('arguments', one + 'zy($<i>b) : ZT zz(' + ws + '$+) ;\n', 1 + w, 'illegal $-name', 1),
            ('formals', 'zz($<i>a,' + ws + 'b) : ZT ;\n', w, 'bad formal argument list', 1),
            ('formals', 'zz(' + ws + '$<i a) : ZT ;\n', w, 'bad formal argument list', 1),
            ('formals', 'zz(' + ws + '$<1>a) : ZT ;\n', w, 'bad formal argument list', 1),
            ('formals', 'zz(' + ws + '$<i>a b) : ZT ;\n', w, 'bad formal argument list', 1),
            ('formals', 'zz(' + ws + '$<i>) : ZT ;\n', w, 'bad formal argument list', 1),
            ('arglist', 'zz($<i>a : ZT ;\n' + pad, 0, 'unterminated argument list', 1),
            ('arglist', one + 'zy : ZT' + sp + 'zz((1), ((2) ;\n' + pad, 1 + k, 'unterminated argument list', 1),
            ('arglist', one + 'zy : ZT' + sp + 'zz(1, "2) ;\n', 1 + k, 'unterminated string', 1)], 5)
    return c.pick([x for x in l if x[2] is not None or x[3]])


def diag(c, ctx):
    var = c.pick(['btyacc', 'yacc'])
    bt = var == 'btyacc'
    g = gen.any_grammar(c)
    if g is None or not g.terms:
        raise Discard('none')
    tagged = c.bool(1, 3)
    D, R = [], []
    blank = lambda: c.pick(['\n', '\n\n', '/* c */\n', '/* a\n b\n*/\n', '// x\n', ' \t \n', '\r\n'])
    for _ in range(c.draw(4)):
        D.append(c.pick(['%{\nint a;\n\n%}\n', '%{\n' + ctext.text(c, ctext.PROLOGUE).rstrip(' ') + '\n%}\n', blank(), blank(), '%code { int b;\n}\n', '%code requires\n{\n' + 'int r;\n}\n',
                         '%token <c> ZX1\n ZX2\n ZX3 500\n\n', '%left ZX4 /*\n*/ ZX5\n', '%token\nZX6\n\nZX7\n']))
    D.append(byacc.decls(g))
    D.append('%token ZT\n%left ZL\n%left ZM\n')
    if tagged:
        D.append('%type <c> zty\n')
        if c.bool():
            D.append('%token <c> ZC\n')
    D = c.shuffle(D) if c.bool() else D
    R.append('zgoal : ' + c.pick(g.nts) + c.pick([' ;\n', '\n ;\n', '\n| ZT ;\n']))
    for r in g.rules:
        a = ''
        if c.bool(1, 2):
            a = '{' + ctext.text(c, ctext.ACTION).replace('$', 's').replace('@', 'a') + c.pick(['', '\n']) + ' }'
        R.append(r.lhs + c.pick([' ', '\n']) + ': ' + ' '.join(r.rhs) + c.pick([' ', '\n', ' /* c\n*/ ']) + a + c.pick([';\n', '\n;\n', ' ; ']))
        if c.bool(1, 5):
            R.append(blank())
    tagged = 2 if '%type <c> zty\n' in D else any('<c>' in x for x in D)
    where = c.pick(['decl', 'rule', 'rule', 'end'])
    if where == 'decl':
        name, text, off, msg, rc = decl_errors(c, bt)
        i = c.draw(len(D) + 1)
        pre = ''.join(D[:i])
        spec = pre + text + ''.join(D[i:]) + '%%\n' + ''.join(R)
    elif where == 'rule':
        name, text, off, msg, rc = rule_errors(c, bt, tagged)
        i = c.int(1, len(R))
        pre = ''.join(D) + '%%\n' + ''.join(R[:i])
        spec = pre + text + ''.join(R[i:])
    else:
        name, text, off, msg, rc = c.pick([
            ('no-grammar', '%%\n%%\n', 1, 'no grammar has been specified', 1),
            ('no-grammar', '%%\n\n/* a\n*/%%\n', 3, 'no grammar has been specified', 1),
            ('no-rules', '', None, 'unexpected end-of-file', 1),
            ('no-goal', '%start nowhere\n%%\n' + ''.join(R), None, 'the start symbol nowhere is undefined', 1)])
        pre = ''.join(D)
        spec = pre + text
    if msg is None or name in ('param', 'code'):
        raise Discard('not specified')
    if c.bool(1, 8):
        spec = spec.rstrip('\n')
    if '\r' in spec:
        pass
    if name in ('comment', 'text', 'union', 'action', 'destructor', 'arglist'):
        # what comes behind must not close it
        tail = spec[len(pre) + len(text):]
        if rc == 1 and ('unmatched' in msg or 'unterminated' in msg):
            spec = pre + text + re.sub(r"[*/}'\"\\)]|%\}|//", ' ', tail) if 'string' not in msg or name == 'arglist' else spec
    d = ctx.dir()
    tmp = os.path.join(d, 'tmp')
    os.mkdir(tmp)
    src = c.pick(['in.y', 'a b.y', 'sub.dir.y'])
    ctx.write(d, src, spec)
    ctx.files[src] = spec
    p = launch([byacc.tool(var), src], d, tmp)

    def V(m, k):
        raise Violation('%s, %s error %r: %s' % (var, where, text[:60], m), k)
    line = None if off is None else pre.count('\n') + 1 + off
    want = (' line %d of "%s", ' % (line, src) if line else ' ') + msg
    hit = [l for l in p.errs.splitlines() if msg in l]
    if p.returncode != rc:
        V('status %d instead of %d: %s' % (p.returncode, rc, p.errs[:300]), 'status-' + name)
    if not hit:
        V('no message %r: %s' % (msg, p.errs[:300]), 'message-' + name)
    h = hit[-1].replace('"  "', '" "').replace('of  "', 'of "')
    if line and not any((' line %d of "%s", ' % (line, src)) in x.replace('of  "', 'of "') for x in hit):
        V('expected line %d: %s' % (line, p.errs[:300]), 'line-' + name)
    if rc == 1:
        # nothing but the error, and the source line under it
        el = p.errs.splitlines()
        at = max(i for i, x in enumerate(el) if msg in x)
        if len(el) > at + 2 and line:
            src_line = spec.split('\n')[line - 1] if line - 1 < len(spec.split('\n')) else ''
            src_line = re.sub(r'[^\x20-\x7e\t]', '?', src_line)
            if el[at + 1] != src_line:
                V('shows %r instead of %r' % (el[at + 1][:80], src_line[:80]), 'shown-' + name)
            if not re.fullmatch(r'[ \t]*\^', el[at + 2]):
                V('no mark under the line: %r' % el[at + 2], 'mark-' + name)
    if os.listdir(tmp):
        V('temporary files are left: %s' % os.listdir(tmp), 'temporary')
    ctx.ev()
    ctx.label(name)
    ctx.label(where)
    if pre.count('\n') > 3:
        ctx.nontrivial(spec)
    ctx.sample('%r at line %s -> %s' % (text[:60], line, h[:120]))


# ---------------------------------------------------------------- the command line
def cmdline(c, ctx):
    var = c.pick(['btyacc', 'yacc'])
    d = ctx.dir()
    tmp = os.path.join(d, 'tmp')
    os.mkdir(tmp)
    os.mkdir(os.path.join(d, 'dir.y'))
    ctx.write(d, 'in.y', "%%\ns : 'a' s | ;\n")
    ctx.write(d, 'two.y', "%%\ns : 'b' ;\n")
    ctx.write(d, 'empty.y', '')
    opts = []
    for _ in range(c.draw(4)):
        opts += c.pick([['-v'], ['-d'], ['-t'], ['-l'], ['-b', 'pre'], ['-p', 'zz'], ['--graph'], ['--defines=hh.h'], ['--file-prefix=q'], ['-dvt']])
    bad, ok = c.pick([
        (['-Q', 'in.y'], 0), (['-vQ', 'in.y'], 0), (['-7', 'in.y'], 0), (['--nosuch', 'in.y'], 0), (['--graph=3', 'in.y'], 0), (['--output=', 'in.y'], 0), (['--output'], 0),
        (['in.y', 'two.y'], 0), ([], 0), (['missing.y'], 0), (['dir.y'], 0), (['empty.y'], 0), (['-o'], 0), (['-b'], 0), (['-p'], 0), (['-H'], 0), (['-', 'in.y'], 0),
        (['-o', 'nodir/x.c', 'in.y'], 0), (['-b', 'nodir/x', 'in.y'], 0), (['-H', 'nodir/h', 'in.y'], 0), (['-h'], 0), (['--help'], 0), (['', ''], 0), ([''], 0),
        (['in.y'], 1), (['--', 'in.y'], 1), (['-V'], 2), (['--version'], 2), (['-o', 'x.c', 'in.y'], 1), (['-o', 'x.c', '-b', 'z', 'in.y'], 1), (['in.y', '-v'], 1)])
    p = launch([byacc.tool(var)] + opts + bad, d, tmp)
    what = '%s %s' % (var, ' '.join(opts + bad))
    if p.returncode < 0:
        raise Violation('%s died with signal %d' % (what, -p.returncode), 'crash')
    made = sorted(set(read_all(d)) - {'in.y', 'two.y', 'empty.y'})
    if any(x.startswith('tmp/') for x in made):
        raise Violation('%s leaves temporary files: %s' % (what, made), 'temporary')
    if ok == 0:
        if p.returncode == 0:
            raise Violation('%s: status 0' % what, 'accepted')
        if not p.errs.strip():
            raise Violation('%s: status %d without a message' % (what, p.returncode), 'message')
    elif ok == 1:
        if p.returncode:
            raise Violation('%s: status %d: %s' % (what, p.returncode, p.errs[:200]), 'refused')
        if not any(x.endswith('.c') for x in made):
            raise Violation('%s writes %s' % (what, made), 'files')
    else:
        if p.returncode or not re.search(r'\d', p.outs) or made:
            raise Violation('%s: status %d, %r, %s' % (what, p.returncode, p.outs, made), 'version')
    ctx.ev()
    ctx.label(' '.join(bad) or '(none)')
    ctx.nontrivial(what)
    ctx.sample('%s -> %d %s' % (what, p.returncode, p.errs.strip().split('\n')[0][:80]))


# ---------------------------------------------------------------- failing calls
def shim():
    return build.csource('failcalls', [os.path.join(build.VERIF, 'vlib', 'failalloc.c')], 'gcc -O1 -w -shared -fPIC')


def failing(c, ctx):
    """one allocation or one opening of a file fails, or all from some time on"""
    var = c.pick(['btyacc', 'yacc'])
    opts, want = options(c, var)
    spec, p, d = accepted(c, ctx, var, opts)
    got = read_all(d, ['in.y'])
    cnt = os.path.join(d, 'count')
    run = lambda d, e: launch([byacc.tool(var)] + opts + ['in.y'], d, os.path.join(d, 'tmp'), preload=dict(e, LD_PRELOAD=shim()))
    p = run(d, {'FAIL_COUNT': cnt})
    if p.returncode or {k: v for k, v in read_all(d, ['in.y', 'count']).items()} != got:
        raise Violation('%s %s: another result in the second run: status %d' % (var, opts, p.returncode), 'repeat')
    na, no = [int(x) for x in open(cnt).read().split()]
    for _ in range(6):
        d2 = ctx.dir()
        os.mkdir(os.path.join(d2, 'sub'))
        os.mkdir(os.path.join(d2, 'tmp'))
        ctx.write(d2, 'in.y', spec)
        e = {}
        if c.bool(1, 5):
            k = c.int(1, no + 1)
            e['FAIL_OPEN'] = str(k)
            what = 'opening %d of %d' % (k, no)
        else:
            k = c.pick([c.int(1, na + 1), c.int(1, min(na, 60)), na - c.draw(min(na, 60))])
            e['FAIL_ALLOC'] = str(k)
            what = 'allocation %d of %d' % (k, na)
        if c.bool(1, 4):
            e['FAIL_ALL'] = '1'
            what += ' and all later ones'
        p = run(d2, e)
        now = read_all(d2, ['in.y'])

        def V(m, k):
            raise Violation('%s %s, with %s failing: %s' % (var, ' '.join(opts), what, m), k)
        if p.returncode < 0:
            V('died with signal %d' % -p.returncode, 'crash')
        if p.returncode == 0:
            bad = [x for x in got if now.get(x) != got[x]]
            if bad:
                V('status 0 and an incomplete %s' % bad[0], 'status')
            ctx.label('no effect')
        else:
            if not p.errs.strip():
                V('status %d without a message' % p.returncode, 'message')
            left = [x for x in now if x.startswith('tmp/')]
            if left and 'FAIL_ALL' not in e:
                V('leaves temporary files', 'temporary')
            ctx.label('refused')
        ctx.ev()
        ctx.nontrivial(spec + str(opts) + what)
    ctx.sample('%s %s: %s -> %d %s' % (var, opts, what, p.returncode, p.errs.strip()[:80]))


# ---------------------------------------------------------------- conflicts and %expect
def totals(c, ctx):
    g, lr, R, opts, var, B = y03.setup_case(c, ctx, False)
    n = R.SR + R.RR
    es = c.pick([None, R.SR, R.SR, R.SR + 1, R.SR - 1, R.RR, n])
    er = c.pick([None, R.RR, R.RR, R.RR + 1, R.RR - 1, R.SR, n])
    es, er = [None if x is None else max(0, x) for x in (es, er)]
    dirs = (['%%expect %d\n' % es] if es is not None else []) + (['%%expect-rr %d\n' % er] if er is not None else [])
    spec = ''.join(c.shuffle(dirs)) + byacc.decls(g) + '%%\n' + byacc.rules_text(g)
    d = ctx.dir()
    tmp = os.path.join(d, 'tmp')
    os.mkdir(tmp)
    ctx.write(d, 'in.y', spec)
    ctx.files['in.y'] = spec
    files = c.subset(['-v', '-d', '-g'], 1, 4)
    p = launch([byacc.tool(var)] + opts + files + ['in.y'], d, tmp)
    p.rc = p.returncode
    y03.check_stderr(p, g, lr, R, es, er)
    got = read_all(d, ['in.y'])
    if sorted(got) != sorted(['y.tab.c'] + ['y' + FILES[x] for x in files]) or not all(t.strip() for x, t in got.items() if x[-2:] != '.h'):
        raise Violation('%d conflicts, status %d: writes %s' % (n, p.rc, sorted(got)), 'files')
    # what was declared changes no file
    d2 = ctx.dir()
    os.mkdir(os.path.join(d2, 'tmp'))
    ctx.write(d2, 'in.y', spec.replace('%%expect %s\n' % es, '\n').replace('%%expect-rr %s\n' % er, '\n'))
    launch([byacc.tool(var)] + opts + files + ['in.y'], d2, os.path.join(d2, 'tmp'))
    now = read_all(d2, ['in.y'])
    if now != got:
        raise Violation('%%expect changes %s' % [x for x in set(now) | set(got) if now.get(x) != got.get(x)], 'expect-files')
    ctx.ev(2)
    ctx.label('totals: status %d' % p.rc)
    if R.SR and R.RR and es is not None and er is not None:
        ctx.label('totals: both kinds and both declared')
    if n:
        ctx.nontrivial(spec)


SPEC = dict(
    tests={
        'totals': (totals, 1400, 20000),
        'files': (files, 2000, 60000),
        'failing': (failing, 260, 20000),
        'diag': (diag, 3600, 80000),
        'cmdline': (cmdline, 500, 3000),
    },
    rule='files: a random specification that byacc accepts and a random set of options (clustered, long, -b, -o, -H); the set of files is compared with the one '
         'asked for, then the run is repeated with one file on a full device, under a directory of its name, in a missing directory, or with the size of all '
         'files limited to a random number of bytes: status 0 only with complete files, else a message; no temporary files left. diag: one error of a known '
         'kind at a known line of a random specification: status, message, line number, source line shown. totals: ambiguous grammars with %expect and %expect-rr right, wrong '
         'or absent: messages, status, and files that do not depend on them. cmdline: wrong and right command lines. '
         'Non-trivial: more than one file; more than 3 lines before the error; every command line',
    assumptions=['write failures are those of /dev/full and of RLIMIT_FSIZE'],
)
