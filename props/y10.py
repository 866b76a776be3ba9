"""Y10: output options rename or add files but never change the parser, and runs repeat."""
import os, re
from vlib import byacc, gen, sim
from vlib.gram import LR
from vlib.engine import Violation, Discard
from props.y09 import rich

EXTRA = {'-v': ['.output'], '-g': ['.dot'], '-e': ['.yebnf'], '-E': ['.yl'], '-n': ['.yn'], '-S': ['.sql'], '-d': None}
NAMES = ['r', 'out', 'x_y', 'a.b', 'Long-Name', 'q1', 'p.core', 'x.c.c', 'a.tab.copy']


def fname(c):
    """a file name, or the stem of one"""
    if c.bool():
        return c.pick(NAMES)
    return c.pick('abcxyz') + ''.join(c.pick(['-', '--', '_', '.', 'q', 'W', '7', '=', '+', 'tab', ' ']) for _ in range(c.int(0, 6)))


def valued(c, long, short, value, lng):
    """an option with a value, in one of its spellings"""
    if lng:
        return ['--%s=%s' % (long, value)] if c.bool(3, 4) else ['--' + long, value]
    return c.pick([['-' + short, value], ['-' + short + value]])


def strip_lines(t):
    return re.sub(r'(?m)^#line \d+ "[^"\n]*"\n', '', t)


def norm(t, own, src):
    """#line directives with the two file names replaced"""
    def f(m):
        n = m.group(2)
        return '#line %s "%s"\n' % (m.group(1), 'OUT' if n == own else 'SRC' if n == src else 'OTHER ' + n)
    return re.sub(r'(?m)^#line (\d+) "([^"\n]*)"\n', f, t)


def unprefix(t, p):
    """undo the renaming done by -p"""
    t = re.sub(r'(?m)^\n?#ifndef yy(\w+)\n#define yy\1 +%s\1\n#endif /\* yy\1 \*/\n' % re.escape(p), '', t)
    t = re.sub(r'\n#if YYBTYACC\n\s*#endif /\* YYBTYACC \*/\n', '\n', t)
    t = re.sub(r'(?m)^#define YYPREFIX "%s"$' % re.escape(p), '#define YYPREFIX "yy"', t)
    t = re.sub(r'(?m)^((?:static )?const (?:char \*const|\w+) )%s(\w+\[)' % re.escape(p), r'\1yy\2', t)
    t = re.sub(r'(?m)^extern (YYSTYPE|YYLTYPE) %s' % re.escape(p), r'extern \1 yy', t)
    # the prototype of yylex is for programs without a prefix only
    t = re.sub(r'(?m)^#if !\(defined\(yylex\) \|\| defined\(YYSTATE\)\)\nint YYLEX_DECL\(\);\n#endif\n', '', t)
    t = re.sub(r'(\w\[\] = \{) +', r'\1 ', t)
    return re.sub(r'\n+', '\n', strip_lines(t))


def run(ctx, var, files, opts, stdin=None):
    d = ctx.dir()
    for n, t in files.items():
        ctx.write(d, n, t)
    p = ctx.run([byacc.tool(var)] + opts, cwd=d, timeout=60, stdin_path=os.path.join(d, stdin) if stdin else None)
    if p.timeout:
        raise Violation('%s %s does not terminate' % (var, opts), 'hang')
    if p.rc < 0:
        raise Violation('%s %s died with signal %d' % (var, opts, -p.rc), 'crash')
    out = {}
    for n in os.listdir(d):
        if n not in files:
            with open(os.path.join(d, n), 'rb') as f:
                out[n] = f.read().decode('latin-1')
    return p, out, d


def first_diff(a, b):
    x, y = a.split('\n'), b.split('\n')
    for i in range(max(len(x), len(y))):
        u = x[i] if i < len(x) else '<end>'
        v = y[i] if i < len(y) else '<end>'
        if u != v:
            return 'line %d:\n  %s\n  %s' % (i + 1, u[:200], v[:200])
    return 'equal'


def text(c, ctx):
    var = 'btyacc' if c.bool(3, 4) else 'yacc'
    common = [o for o in ['-B', '-L', '-P', '-u', '-z'] if var == 'btyacc' and c.bool(1, 6)] if var == 'btyacc' else [o for o in ['-P', '-u', '-z'] if c.bool(1, 6)]
    src = c.pick(['in.y', 'g.y', 'gram.yy', 'a b.y'])
    for _ in range(8):
        spec = rich(c)
        F = {src: spec}
        base, bo, _ = run(ctx, var, F, common + [src])
        if base.rc == 0 and 'y.tab.c' in bo:
            break
    else:
        raise Discard('rejected')
    ctx.files[src] = spec
    B = bo['y.tab.c']
    bn = norm(B, 'y.tab.c', src)
    _, hd, _ = run(ctx, var, F, common + ['-d', src])
    H = hd.get('y.tab.h')
    if H is None:
        raise Violation('-d made no y.tab.h', 'header')
    _, vd, _ = run(ctx, var, F, common + ['-v', '-g', src])
    V, G = vd.get('y.output'), vd.get('y.dot')
    if V is None or G is None:
        raise Violation('-v -g made %s' % sorted(vd), 'report')

    def same(a, b, what, key):
        ctx.ev()
        if a != b:
            raise Violation('%s %s: %s\n%s' % (var, common, what, first_diff(a, b)), key)

    def msgs(p):
        return p.errs

    # runs repeat
    p2, o2, _ = run(ctx, var, F, common + [src])
    same(B, o2['y.tab.c'], 'two runs gave different files', 'repeat')
    same(msgs(base), msgs(p2), 'two runs gave different messages', 'repeat')
    same(V, run(ctx, var, F, common + ['-v', '-g', src])[1].get('y.output'), 'two runs gave different reports', 'repeat')

    for _ in range(c.int(3, 6)):
        opts, own, pfx, hname, pre, line = [], 'y.tab.c', 'yy', None, 'y', True
        k = []
        for e in EXTRA:
            if c.bool(1, 3):
                opts.append(e)
                k.append(e)
        lng = c.bool(1, 3)
        if c.bool(1, 3):
            pre = fname(c)
            opts += valued(c, 'file-prefix', 'b', pre, lng)
            own = pre + '.tab.c'
            k.append('-b')
        hd2 = (pre + '.tab.h') if '-d' in opts else None
        vb = pre
        if c.bool(1, 3):
            n = fname(c)
            kind = c.draw(3)
            own = [n + '.c', n + '.tab.c', n + '.txt'][kind]
            if own.endswith('.tab.c'):
                n, kind = own[:-6], 1
            opts += valued(c, 'output', 'o', own, lng)
            if kind < 2:
                vb = n
                hd2 = [n + '.h', n + '.tab.h'][kind] if '-d' in opts else None
            k.append('-o')
        if c.bool(1, 4):
            hd2 = fname(c) + '.hh'
            opts += valued(c, 'defines', 'H', hd2, lng)
            k.append('-H')
        if c.bool(1, 4):
            pfx = c.pick(['zz', 'foo_', 'YY', 'Y1', 'y', 'yyy'])
            opts += valued(c, 'name-prefix', 'p', pfx, lng)
            k.append('-p')
        if c.bool(1, 5):
            line = False
            opts += ['--no-lines'] if lng else ['-l']
            k.append('-l')
        if lng:
            opts = [{'-v': '-v', '-g': '--graph', '-e': '--ebnf', '-E': '--lemon', '-n': '--naked', '-S': '--sql'}.get(o, o) for o in opts]
            k.append('long')
        t = c.bool(1, 5)
        if t:
            opts.append('-t')
            k.append('-t')
        opts = opts if c.bool(3, 4) else join(opts)
        stdin = c.bool(1, 6)
        if stdin:
            k.append('stdin')
        if stdin:
            p, o, _ = run(ctx, var, F, common + opts + ['-'], stdin=src)
        else:
            p, o, _ = run(ctx, var, F, common + opts + [src])
        what = 'with %s' % ' '.join(opts + (['- < ' + src] if stdin else []))
        ctx.files['options'] = ' '.join(common + opts) + (' -' if stdin else '')
        if p.rc != 0:
            raise Violation('%s: status %d\n%s' % (what, p.rc, p.errs[:800]), 'status')
        nof = lambda e: re.sub(r' of "[^"\n]*"', ' of SRC', e)
        same(nof(base.errs), nof(p.errs), what + ': other messages', 'messages')
        if own not in o:
            raise Violation('%s: no %s, only %s' % (what, own, sorted(o)), 'names')
        T = o[own]
        if stdin:
            m = re.findall(r'(?m)^#line \d+ "([^"\n]*)"\n', T)
            others = {x for x in m if x != own}
            if len(others) > 1:
                raise Violation('%s: several names for standard input: %s' % (what, others), 'stdin')
            s2 = others.pop() if others else src
        else:
            s2 = src
        if t and '\n#define YYDEBUG 0\n' in B:
            T2 = re.sub(r'(?m)^#define YYDEBUG 1$', '#define YYDEBUG 0', T)
            if T2 == T:
                raise Violation(what + ': YYDEBUG is not set by -t', 'debug')
            T = T2
        if pfx != 'yy':
            same(unprefix(B, 'yy'), unprefix(T, pfx), what + ': another parser', 'code')
        elif not line:
            same(strip_lines(B), T, what + ': another parser', 'code')
        else:
            same(bn, norm(T, own, s2), what + ': another parser', 'code')
        if hd2:
            if hd2 not in o:
                raise Violation('%s: no %s, only %s' % (what, hd2, sorted(o)), 'names')
            guard = lambda x: re.sub(r'(?m)^(#ifndef|#define|#endif /\*) _\w+_defines_h_( \*/)?$', r'\1 GUARD', x)
            h1, h2 = guard(H), guard(o[hd2])
            f = (lambda x: re.sub(r'\n+', '\n', strip_lines(x)))
            same(f(unprefix(h1, 'yy')), f(unprefix(h2, pfx)), what + ': another header', 'header')
        if '-v' in opts or any(re.match(r'-\w*v', x) for x in opts if not x.startswith('--') and x[:2] not in ('-b', '-o', '-p', '-H')):
            if vb + '.output' not in o:
                raise Violation('%s: no %s.output, only %s' % (what, vb, sorted(o)), 'names')
            same(V, o[vb + '.output'], what + ': another report', 'report')
        if vb + '.dot' in o:
            same(G.split('\n', 1)[1], o[vb + '.dot'].split('\n', 1)[1], what + ': another graph', 'graph')
        # separate tables
        for x in k:
            ctx.label('option ' + x)
        if '-p' in k or '-b' in k or '-o' in k or '-H' in k:
            ctx.nontrivial(spec + repr(opts))
            ctx.sample('%s %s %s' % (var, ' '.join(common), what))
    # -r: the tables move to their own file
    p, o, _ = run(ctx, var, F, common + ['-r', src])
    t1, t2 = byacc.parse_tables(B), byacc.parse_tables(o['y.tab.c'] + o['y.code.c'])
    ctx.ev()
    if t1 != t2:
        bad = [n for n in sorted(set(t1) | set(t2)) if t1.get(n) != t2.get(n)]
        raise Violation('-r changes the tables %s' % bad, 'tables')


def join(opts):
    """cluster single-letter options"""
    s = [o[1:] for o in opts if len(o) == 2 and o[1] in 'vgeEnSdlt']
    i = 0
    rest = []
    while i < len(opts):
        o = opts[i]
        if len(o) == 2 and o[1] in 'bopH':
            rest += opts[i:i + 2]
            i += 2
            continue
        if not (len(o) == 2 and o[1] in 'vgeEnSdlt'):
            rest.append(o)
        i += 1
    return (['-' + ''.join(s)] if s else []) + rest


# ---------------------------------------------------------------- linked parsers
PRE = r'''%%{
#include <stdio.h>
#include <stdlib.h>
static int yylex_%(i)s(void);
static int trn;
#define TR(n) do { printf(" r%%d", (n)); if (++trn > 2000) { printf(" LOOP"); YYABORT; } } while (0)
#ifdef MULTI
int yylex(void);
void yyerror(const char *s);
#else
static int yylex(void);
static void yyerror(const char *s);
#endif
%%}
'''
POST = r'''
static int in_tok[4096], in_n, in_p;
#ifdef MULTI
int yylex(void)
#else
static int yylex(void)
#endif
{
    int t;
    if (in_p < in_n) { t = in_tok[in_p++]; yylval = t; return tokcode[t]; }
    yylval = 0;
    return 0;
}
#ifdef MULTI
void yyerror(const char *s)
#else
static void yyerror(const char *s)
#endif
{ printf(" E@%%d:%%s", in_p, s); }
int run_%(i)s(char *p)
{
    int rc;
    in_n = in_p = trn = 0;
    for (;;) {
        char *q; long v = strtol(p, &q, 10);
        if (q == p) break;
        in_tok[in_n++] = (int)v; p = q;
    }
    rc = yyparse();
    printf(" =%%d @%%d n%%d c%%d\n", rc, in_p, yynerrs, yydebug0);
    return rc;
}
'''
MAIN1 = r'''
#include <stdio.h>
#include <stdlib.h>
%(decl)s
int main(void)
{
    static char line[65536];
    while (fgets(line, sizeof line, stdin)) {
        char *p; int k = (int)strtol(line, &p, 10);
        switch (k) { %(cases)s }
        fflush(stdout);
    }
    return 0;
}
'''


def link(c, ctx):
    n = c.int(1, 3)
    var = 'btyacc' if c.bool(3, 4) else 'yacc'
    B = ['-B'] if var == 'btyacc' and c.bool(1, 4) else []
    d = ctx.dir()
    gs, lines, srcs, base_out = [], [], [], []
    pool = ['aa', 'bb_', 'Cc', 'y', 'yyy', 'z9']
    pf = c.sample(pool, n)
    style = []
    specs = []
    for i in range(n):
        g = gen.any_grammar(c, prec=True, lits=None, unproductive=False)
        if g is None:
            raise Discard('empty')
        lr = LR(g)
        R = byacc.resolve(lr, g)
        if R.reduce_accept or R.hidden:
            raise Discard('outside')
        if c.bool(1, 3):
            from props.y05 import add_errors
            try:
                g = add_errors(c, g)
            except Discard:
                pass
        ext = ''
        val = c.bool()
        if c.bool(1, 3):
            ext += '%error-verbose\n' if False else ''
        if c.bool(1, 4):
            ext += '%token-table\n'
        dest = var == 'btyacc' and c.bool(1, 3)
        if dest:
            ext += '%destructor { printf(" d%d", $$); } ' + ' '.join(byacc.spec_terms(g)[:3] if byacc.spec_terms(g) else g.nts[:1]) + '\n'
        act = (lambda j, r: '{ TR(%d); $$ = %s; }' % (j, ' + '.join(['%d' % j] + ['$%d' % (k + 1) for k, s in enumerate(r.rhs) if s != 'error'])))
        spec = PRE % {'i': i} + byacc.decls(g) + ext + '%%\n' + byacc.rules_text(g, act) + '%%\n' + byacc.tokcode_table(g.terms) + \
            '#define yydebug0 0\n' + POST % {'i': i}
        specs.append(spec)
        if B and R.SR + R.RR:
            B = []
        gs.append(g)
        ins = sim.inputs_for(c, g, 5, 6, depth=6, maxlen=30)
        for w in ins[:12]:
            ix = {t: k + 1 for k, t in enumerate(g.terms)}
            if all(s in ix for s in w):
                lines.append('%d %s' % (i, ' '.join(str(ix[s]) for s in w)))
    if not lines:
        raise Discard('no inputs')
    lines = c.shuffle(lines)
    # reference: each grammar alone, no options
    ref = {}
    for i in range(n):
        e = ctx.dir()
        p = byacc.yacc(ctx, var, e, specs[i], B, name='g%d.y' % i)
        if p.rc:
            raise Discard('rejected')
        ctx.write(e, 'main.c', MAIN1 % {'decl': 'int run_%d(char *);' % i, 'cases': 'case %d: run_%d(p); break;' % (i, i)})
        exe = cc2(ctx, e, ['y.tab.c', 'main.c'], 'ref', [])
        mine = [l for l in lines if l.split()[0] == str(i)]
        outs = byacc.run_lines(ctx, exe, mine, e)
        ref[i] = iter(outs)
    want = [next(ref[int(l.split()[0])]) for l in lines]
    # all together, with various output options
    what = []
    for i in range(n):
        o = list(B)
        o += ['-p', pf[i]] if n > 1 or c.bool() else []
        t = c.bool(1, 4)
        mode = c.draw(4)
        fn = 'f%d' % i
        hdr = c.bool(1, 3)
        if c.bool(1, 3):
            o.append('-t')
        if mode == 3:
            o += ['-r']
        if mode == 2 or (mode == 3 and c.bool(1, 3)):
            o += ['-i']
        if hdr:
            o.append('-d')
        if c.bool(1, 3):
            o.append('-l')
        if c.bool(1, 4):
            o += ['-v', '-g']
        if c.bool():
            o += ['-b', fn]
            cf = [fn + '.tab.c'] + ([fn + '.code.c'] if '-r' in o else [])
        else:
            o += ['-o', fn + '.c']
            cf = [fn + '.c'] + ([fn + '.code.c'] if '-r' in o else [])
        p = byacc.yacc(ctx, var, d, specs[i], o, name='g%d.y' % i)
        what.append(' '.join(o))
        if p.rc:
            raise Violation('byacc %s failed: %s' % (o, p.errs[:500]), 'status')
        for f in cf:
            if not os.path.exists(os.path.join(d, f)):
                raise Violation('byacc %s: no %s, only %s' % (o, f, sorted(os.listdir(d))), 'names')
        srcs += cf
        for x in o:
            if x[0] == '-':
                ctx.label('link ' + x)
    ctx.files['options'] = '\n'.join(what)
    ctx.write(d, 'main.c', MAIN1 % {'decl': ''.join('int run_%d(char *);\n' % i for i in range(n)),
                                   'cases': ' '.join('case %d: run_%d(p); break;' % (i, i) for i in range(n))})
    exe = cc2(ctx, d, srcs + ['main.c'], 'multi', ['-DMULTI'])
    got = byacc.run_lines(ctx, exe, lines, d, env={'YYDEBUG': '0'})
    for l, a, b in zip(lines, want, got):
        ctx.ev()
        if a != b:
            raise Violation('%s, options\n%s\ninput %s\n  alone: %s\n  here:  %s' % (var, '\n'.join(what), l, a, b), 'behaviour')
    ctx.nontrivial(repr(specs) + repr(what))
    ctx.label('parsers in one program: %d' % n)
    ctx.sample('%s\n%s' % (' | '.join(what), specs[0][-400:]))


def cc2(ctx, d, srcs, exe, flags):
    p = ctx.run(['gcc', '-w', '-O0'] + flags + srcs + ['-o', exe], cwd=d, timeout=240)
    if p.rc != 0:
        from vlib.engine import Resource
        if p.timeout or p.rc < 0:
            raise Resource('gcc')
        raise Violation('the parsers do not compile and link together:\n' + p.errs[:2500], 'compile')
    return os.path.join(d, exe)


SPEC = dict(
    tests={'text': (text, 600, 15000), 'link': (link, 250, 5000)},
    rule='text: a generated specification with %union, %type, %destructor, %code, actions, mid-rules, inherited attributes etc. and 3-6 '
         'sets of output options (file names, -p, -l, -t, -d/-H, -v, -g, exports, long spellings, clustered letters, standard input); the '
         'generated files must equal those of the plain run up to names and #line directives, and two runs must be byte-identical. '
         'link: 1-3 grammars with different -p prefixes (and -r, -i, -d, -t ...) linked into one program with external yylex/yyerror, '
         'compared input by input with each parser built alone. Non-trivial: an option renames a file or symbols; distinct by content',
    assumptions=['-l, -t change only #line directives and the default of YYDEBUG'],
)
