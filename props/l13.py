"""L13: lemon output compiles, names things as declared, keeps user code and maps lines correctly."""
import os, re
from vlib import lemon, build
from vlib.engine import Violation, Discard, Resource
from vlib.lgram import Multi
from vlib.gram import Grammar
from props import l02

JUNK = ['', '%%', '%d %s %', '%d', 'Parse', 'ParseTOKENTYPE', '$', '@', '@LHSX', '::=', '.', '%endif', '%include {', 'yy0', '\\t', '\\\\', '\xe9\xff', '#line 7 \\"x\\"', '?', "'", '{', '}', '}}', '{ {', '[A]', '%left A.', ' ' * 30,
        'x' * 990, '//', '\\"', '\\"}', "it's }", 'YYERRORSYMBOL', 'overwrites']
TYPES = ['int', 'struct tok', 'double', 'struct tok *', 'const char *', 'void *', 'long', ' int ', 'struct tok\n*', '\nlong\n']
MULTI = ['struct {\n int a;\n char b;\n}', 'union { int a;\n\n long b; }\n']
PRE = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <assert.h>
struct tok { int id; char pad[5]; };
struct xtra { int n; };
#ifdef __cplusplus
# define STATIC_ static_assert
#else
# define STATIC_ _Static_assert
#endif
#ifdef NOLINES
# define AT(n) STATIC_(1, "")
#else
# define AT(n) STATIC_(__LINE__ == n && __builtin_strcmp(__FILE__, "g.lem") == 0, "line")
#endif
'''


class Text:
    def __init__(self):
        self.parts, self.line = [], 1

    def add(self, s):
        self.parts.append(s)
        self.line += s.count('\n')

    def __str__(self):
        return ''.join(self.parts)


class Gen:
    def __init__(self, c):
        self.c, self.t, self.n, self.verbatim, self.cond = c, Text(), 0, [], c.bool(1, 3)

    def pad(self):
        c = self.c
        if self.cond and c.bool(1, 6) and str(self.t).endswith('\n'):
            self.t.add(c.pick(['%ifdef NOT\n%bogus {\n%endif\n', '%ifdef DEF\n// x\n%endif\n', '%ifndef DEF\n bogus\n%else\n\n%endif\n', '%if NOT || DEF\n\n%else\n{ "\n%endif // x\n']))
        for _ in range(c.geo(3, 1, 3)):
            self.t.add(c.pick(['\n', '// { %left "\n', '/* %include {\n n ::= */\n', '  ', '\t\n']))

    def code(self, lines=(), asserts=True, keep=True):
        """one block of C code, every line knows its number; lines: statements that must be there"""
        c = self.c
        todo = list(lines)
        for _ in range(c.geo(5, 2, 3)):
            todo.insert(c.draw(len(todo) + 1), None)
        one = c.bool(1, 4)
        self.t.add('{' + ('' if one else c.pick(['', ' ']) + ('\n' if c.bool(5, 6) else '')))
        for k, s in enumerate(todo):
            self.n += 1
            j = c.pick(JUNK)
            own = s is None
            if s is None:
                s = c.pick(['enum { z%d = sizeof "%s" };' % (self.n, j), 'enum { z%d = sizeof "%s" };' % (self.n, j), "enum { z%d = '%s' };" % (self.n, c.pick(['}', '{', '"', '\\\'', '\\\\', '/', '*', '%'])),
                            'enum { z%d /* %s */ };' % (self.n, j), 'enum { z%d /* %s\n %s */ };' % (self.n, j, c.pick(JUNK)), '' if one else 'enum { z%d }; // %s' % (self.n, j.replace('\\', ''))])
            if asserts and c.bool(2, 3) and '//' not in s:
                # the line on which the statement ends
                s += ' AT(%d);' % (self.t.line + s.count('\n'))
            if own and keep:
                self.verbatim += s.split('\n')
            self.t.add(s + (' ' if one else c.pick(['\n', '\n', '\n', '\n\n', ' ' if '//' not in s else '\n'])))
        if not self.t.parts[-1].endswith('\n') and '//' in self.t.parts[-1]:
            self.t.add('\n')
        self.t.add('}')

    def end(self):
        self.t.add(self.c.pick(['\n', '\n', '\n\n', ' \n']))


def build_text(c):
    """-> the grammar text and what is in it"""
    g = l02.grammar(c)
    G = Gen(c)
    t = G.t
    M = Multi(c, g, *c.pick([(0, 1), (0, 1), (1, 6)]))
    PRE = c.pick(['', '', '', '/* mine */\n', '// mine\n', '\n\n  \n/* mine\n*/', '\n /* */ ']) + globals()['PRE']
    if c.bool(1, 8):
        t.add('%include {' + PRE + '}\n')
    else:
        t.add(c.pick(['\n', '// x\n', '%token_type {struct tok}\n', '\n\n\n']))
        t.add('%include {\n' + PRE + '}\n')
    S = dict(M=M, g=g, G=G)
    S['name'] = c.pick([None, None, 'Foo', 'x', 'Parse2', 'my_Parse', 'Parser', '_p9'])
    S['prefix'] = c.pick(['', '', 'TK_', 'x', 'T'])
    S['arg'] = c.pick([None, None, 'struct xtra *arg', ' int arg ', 'const char*arg', 'struct xtra *arg\n', '\n struct xtra\n*arg'])
    S['ctx'] = c.pick([None, None, 'struct xtra *ctx', 'int ctx', ' void *ctx ', '\nint\nctx'])
    # the names too: short ones, with digits, underscores and capitals
    an, cn = c.pick(['arg', 'arg', 'q', '_x9', 'Arg_2Z', 'a_']), c.pick(['ctx', 'ctx', 'w', '_c', 'C7', 'c_9'])
    for k, n in (('arg', an), ('ctx', cn)):
        S[k] = S[k] and S[k].replace(k, n)
    toktype = c.pick([None] + TYPES) if 'token_type' not in str(t) else 'struct tok'
    dtype = c.pick([None, None] + TYPES)
    uses = (['(void)%s;' % an] if S['arg'] else []) + (['(void)%s;' % cn] if S['ctx'] else [])
    nts = {a: None for a in g.nts}

    def stmt(s):
        def f():
            t.add(s)
        return f

    def block(head, *a, **k):
        def f():
            t.add(head + c.pick([' ', '', '\n', '  ']))
            k2 = dict(k)
            if t.line == 1:
                k2['asserts'] = False
            G.code(*a, **k2)
        return f
    todo = []
    if S['name']:
        todo.append(stmt('%%name %s' % c.pick([S['name'] if S['name'][0] != '_' else '{_p9}', '{%s}' % S['name'], '"%s"' % S['name']])))
    if S['prefix']:
        todo.append(stmt('%%token_prefix %s' % c.pick([S['prefix'], '{%s}' % S['prefix'], '"%s"' % S['prefix']])))
    if S['arg']:
        todo.append(stmt('%%extra_argument {%s}' % S['arg']))
    if S['ctx']:
        todo.append(stmt('%%extra_context {%s}' % S['ctx']))
    if toktype and 'token_type' not in str(t):
        todo.append(stmt('%%token_type {%s}' % toktype))
    if dtype:
        todo.append(stmt('%%default_type {%s}' % dtype))
    if c.bool(1, 3):
        todo.append(stmt('%stack_size ' + c.pick(['5', '0', '{10 + 2}', '{10\n+ 2\n}', '"7"', '-1' if False else '1000'])))
    for h in ('syntax_error', 'parse_accept', 'parse_failure', 'stack_overflow'):
        for _ in range(c.pick([0, 1, 1, 2])):
            todo.append(block('%' + h, c.sample(uses + ['(void)yypParser;'], c.draw(2))))
    for h in ('include', 'code'):
        for _ in range(c.pick([0, 0, 1, 1, 2, 3])):
            todo.append(block('%' + h))
        if c.bool(1, 4):
            G.n += 1
            todo.append(stmt('%%%s "%s"' % (h, c.pick(['int qq%d;', '\nint qq%d;\n', 'static int\nqq%d;']) % G.n)))
    if c.bool(1, 2):
        todo.append(block('%token_destructor', ['(void)$$;'] + uses[:1]))
    if c.bool(1, 3):
        todo.append(block('%default_destructor', ['(void)$$;'], keep=False))
    for a in g.nts:
        if c.bool(1, 3):
            nts[a] = c.pick(TYPES + MULTI)
            todo.append(stmt('%%type %s {%s}' % (a, nts[a])))
        for _ in range(c.pick([0, 0, 0, 1, 1, 2])):
            todo.append(block('%%destructor %s' % a, ['(void)$$;'] + uses[-1:]))
    toks = [x for x in g.all_terms() if x != 'error']
    toklines = []
    fbs = c.sample(toks, 3) if len(toks) > 2 and c.bool(1, 4) else []
    if fbs:
        toklines.append(stmt('%%fallback %s.' % ' '.join(fbs)))
    if toks and c.bool(1, 8):
        toklines.append(stmt('%%wildcard %s.' % c.pick(toks)))
    late = [x for x in todo if c.bool(1, 3)]
    todo = [x for x in todo if x not in late]
    # (the tokens are numbered in the order of %token)
    first = [stmt(l) for l in (lemon.decls(g) + M.decls()).rstrip('\n').split('\n')]
    nfirst = len(first)
    for i, r in enumerate(M.g.rules):
        def rule(r=r):
            lab, lhs, use = {}, None, []
            for k, s in enumerate(r.rhs):
                if c.bool(1, 3) and s != 'error':
                    lab[k] = 'LV%d%s' % (k, c.pick(['', 'x', '_long' * 20]))
                    use.append(c.pick(['(void)%s;', '(void)&%s;', '(void)(@%s);', '(void)(%s);']) % lab[k])
            if c.bool(1, 3):
                lhs = 'LHSV'
                use.append('memset((void *)&%s, 0, sizeof %s);' % (lhs, lhs))
            s = M.rule_text(r, lab, lhs)
            # spread over lines
            t.add(re.sub(r' ', lambda m: c.pick([' ', ' ', ' ', '\n ', ' // x\n ']), s) if c.bool(1, 5) and r.prec is None else s)
            if use or c.bool():
                t.add(c.pick([' ', '', '\n', '\n\n  ']))
                if use or c.bool(5, 6):
                    G.code(use + (c.sample(uses, 1) if uses and c.bool(1, 3) else []))
                else:
                    t.add('{}')
        first.append(rule)
    for f in toklines:
        first.insert(nfirst + c.draw(len(first) - nfirst + 1), f)
    for f in late:
        first.insert(c.draw(len(first) + 1), f)
    # declarations and rules in any order; a block must not follow a rule as its code: rules end in a new line with a directive next, so that is fine
    for f in todo + first:
        G.pad()
        f()
        G.end()
    return S


def run_once(ctx, d, text, opts, may_fail=False):
    p = lemon.run(ctx, d, text, opts, asan=True)
    ctx.ev()
    bad = [l for l in p.errs.splitlines() if l.strip() and 'can not be reduced' not in l and 'parsing conflicts' not in l]
    if bad:
        raise Violation('lemon %s: %s' % (' '.join(opts), bad[:3]), 'rejected')
    return p


def slurp(d, n):
    try:
        return open(os.path.join(d, n), 'rb').read().decode('latin-1')
    except FileNotFoundError:
        raise Violation('no file %s' % n, 'file')


def directives(out, text, own, V):
    """every #line that names the generated file names the next line; every other one an existing line of the grammar"""
    ls = out.split('\n')
    n = text.count('\n') + 1
    for k, l in enumerate(ls, 1):
        m = re.match(r'#line (\d+) "(.*)"$', l)
        if m and m.group(2) == own:
            if int(m.group(1)) != k + 1:
                V('line %d of %s is %r, but the next line is %d' % (k, own, l, k + 1), 'own-line')
        elif m and (m.group(2) != 'g.lem' or not 1 <= int(m.group(1)) <= n):
            V('line %d of %s is %r' % (k, own, l), 'line')
        elif l.startswith('#line'):
            if not m:
                V('line %d of %s is %r' % (k, own, l), 'line')
    # what belongs to the parser itself is not in the grammar file
    cur = own
    tmpl, user = template_lines(), set(text.split('\n'))
    for k, l in enumerate(ls, 1):
        m = re.match(r'#line (\d+) "(.*)"$', l)
        if m:
            cur = m.group(2)
        elif cur != own and l in tmpl and l not in user:
            V('line %d of %s, %r, is said to be in %s' % (k, own, l, cur), 'left')


TEMPL = []


def template_lines():
    if not TEMPL:
        s = open(build.lemon(True)[1]).read()
        TEMPL.append({l for l in s.split('\n') if len(l.strip()) > 12 and 'Parse' not in l})
    return TEMPL[0]


CORE = ['', 'Alloc', 'Fallback', 'Finalize', 'Free', 'Init']
MODES = [
    ([], []), (['-DNDEBUG'], []), (['-DYYTRACKMAXSTACKDEPTH'], ['StackPeak']), (['-DYYNOERRORRECOVERY'], []), (['-DYYCOVERAGE'], ['Coverage']), (['-DYYSTACKDEPTH=0'], []), (['-DYYSTACKDEPTH=-1', '-DYYTRACKMAXSTACKDEPTH'], ['StackPeak']),
    (['-DYYSTACKDEPTH=3'], []), (['-DYYMALLOCARGTYPE=unsigned'], []), (['-DYYPARSEFREENEVERNULL'], []), (['-DENGINE'], []), (['-DNDEBUG', '-DYYCOVERAGE', '-DYYNOERRORRECOVERY'], ['Coverage']),
    (['-DYYSTACKDEPTH=0', '-DNDEBUG'], []), (['-std=c99', '-D_DEFAULT_SOURCE'], []), (['-xc++'], []), (['-O2'], []),
]


def compile_modes(c, ctx, d, S, flags, number, V):
    nm = S['name'] or 'Parse'
    for _ in range(number):
        mode, extra = c.pick(MODES)
        fl = [x if x != '-DENGINE' else '-D%s_ENGINEALWAYSONSTACK' % nm for x in mode]
        p = ctx.run((['gcc'] if '-xc++' not in fl else ['g++', '-fpermissive']) + ['-w'] + flags + fl + ['-c', 'g.c', '-o', 'g.o'], cwd=d, timeout=120)
        if p.timeout or p.rc < 0 or 'internal compiler error' in p.errs:
            raise Resource('gcc')
        if p.rc:
            V('g.c does not compile with %s: %s' % (' '.join(fl), p.errs[:1500]), 'compile' if 'static assert' not in p.errs else 'mapping')
        if '-xc++' in fl:
            continue
        q = ctx.run(['nm', '--defined-only', '-g', 'g.o'], cwd=d, timeout=60)
        got = sorted({l.split()[2] for l in q.outs.splitlines() if len(l.split()) == 3 and l.split()[1] in 'TDBRC' and not l.split()[2].startswith('qq')})
        want = [nm + x for x in CORE + extra + (['Trace'] if '-DNDEBUG' not in fl else [])]
        if '-DENGINE' in mode:
            want = [w for w in want if w not in (nm + 'Alloc', nm + 'Free')]
        if got != sorted(want):
            V('with %s g.c defines %s instead of %s' % (' '.join(fl), got, sorted(want)), 'names')
        ctx.label('compiled ' + ' '.join(mode))


def defines(S):
    toks = []
    for x in S['order']:
        toks.append(x)
    return toks


def source(c, ctx):
    S = build_text(c)
    text = str(S['G'].t)
    opts = [o for o in ['-c', '-r', '-m', '-z', '-b', '-q', '-s', '-p', '-u'] if c.bool(1, 5)] + (['-DDEF'] if S['G'].cond else []) + (['-DUNUSED'] if c.bool(1, 8) else [])
    nol = c.bool(1, 4)
    d = ctx.dir()
    ctx.files['options'] = ' '.join(opts + (['-l'] if nol else []))

    def V(m, k):
        raise Violation('lemon %s: %s' % (ctx.files['options'], m), k)
    p = run_once(ctx, d, text, opts + (['-l'] if nol else []))
    out = slurp(d, 'g.c')
    ctx.files['g.c'] = out
    mh = '-m' in opts
    want = {'g.lem', 'g.c'} | (set() if mh else {'g.h'}) | (set() if '-q' in opts else {'g.out'})
    if set(os.listdir(d)) != want:
        V('the files are %s instead of %s' % (sorted(os.listdir(d)), sorted(want)), 'files')
    # tokens
    M, g = S['M'], S['g']
    toks = [x for x in g.all_terms() if x != 'error']
    dm = re.search(r'(?s)Begin token definitions \*+/\n(.*?)/\*+ End token definitions', out).group(1)
    dd = re.findall(r'(?m)^#define (\w+) +(\d+)$', dm)
    exp = [(S['prefix'] + x, str(i)) for i, x in enumerate(toks, 1)]
    if sorted(dd, key=lambda x: int(x[1])) != exp:
        V('the parser defines %s instead of %s' % (dd, exp), 'tokens')
    if not mh:
        h = slurp(d, 'g.h')
        ctx.files['g.h'] = h
        m = re.fullmatch(r'enum (\w+) \{\n((?: \w+ = +\d+,?\n)*)\};\n', h)
        if not m or m.group(1) != S['prefix'] + 'LemonEnum':
            V('the header is %r' % h[:200], 'header')
        hd = re.findall(r'(\w+) = +(\d+),?\n', m.group(2))
        if hd != exp + [(S['prefix'] + 'LEMON_LAST_TOKEN', str(len(exp) + 1))]:
            V('the header has %s instead of %s' % (hd, exp), 'header')
    # user code
    for l in S['G'].verbatim:
        if l not in out:
            V('the line %r of user code is not in the parser' % l, 'code')
    if nol:
        if re.search(r'(?m)^#line ', out):
            V('#line in spite of -l', 'nolines')
    else:
        directives(out, text, 'g.c', V)
    # other runs
    k = c.draw(3)
    if k == 0:
        more = c.subset(['-q', '-s', '-p'], 2, 3)
        d2 = d if c.bool() else ctx.dir()
        run_once(ctx, d2, text, opts + (['-l'] if nol else []) + more)
        if slurp(d2, 'g.c') != out or not mh and slurp(d2, 'g.h') != h:
            V('a second run with %s writes another parser' % ' '.join(more or ['the same options']), 'again')
    elif k == 1 and not nol:
        d2 = ctx.dir()
        run_once(ctx, d2, text, opts + ['-l'])
        a = [l for l in out.split('\n') if not re.match(r'#line \d+ "', l)]
        b = slurp(d2, 'g.c').split('\n')
        f = lambda x: [l for l in x if l.strip()]
        a, b = f(a), f(b)
        head = [i for i, x in enumerate(a) if 'Begin %include sections' in x]
        if head and not any('Begin %include sections' in x for x in b):
            # user code that begins with a comment replaces the opening comment of the template
            a = a[:a.index('** 2000-05-29') - 1] + a[head[0] + 1:]
        if a != b:
            n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            V('without the #line directives the parser is not that of -l: %r / %r' % (a[n:n + 2], b[n:n + 2]), 'nolines')
    fl = ['-DNOLINES'] if nol else []
    if mh:
        ctx.write(d, 'g.h', '')
        fl.append('-DINTERFACE=1')
    compile_modes(c, ctx, d, S, fl, 2, V)
    ctx.nontrivial(text)
    ctx.sample(text[-600:])
    for k in ('name', 'prefix', 'arg', 'ctx'):
        if S[k]:
            ctx.label(k)
    if nol:
        ctx.label('-l')
    if mh:
        ctx.label('-m')


SPEC = dict(
    tests={
        'source': (source, 420, 16000),
    },
    setup=lambda tier: build.lemon(True),
    rule='a grammar with generated user code, directives and line breaks is accepted, and its parser passes all checks (tables of tokens, verbatim code, #line, static assertions on __LINE__ and __FILE__ in two ways of compiling); distinct by text',
    assumptions=['gcc 13 (C11, C99 and C++) stands for the user\'s compiler', 'user code contains no line that is a directive of lemon at its beginning (%if, %else, %endif), which lemon documents to act everywhere'],
)
