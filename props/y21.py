"""Y21: parse and lex parameters reach everything as declared; pure parsers keep their state to themselves."""
import re
from vlib import byacc, gen
from vlib.engine import Violation, Discard
from vlib.gram import LR, Grammar, mutate
from props import y05

# declaration (N: the name; blanks marked ~ may be any white space, ^ may be empty), value for the parse number `id`
TYPES = [
    ('int~N', 'id * 3 + 1'), ('unsigned~char~N', '(unsigned char)(id + 200)'), ('long~unsigned~int~N', '(unsigned long)id + 3000000000UL'), ('double~N', 'id + 0.5'),
    ('const~char~^*^N', 'str1[id]'), ('char~^*^*^N', 'strs[id]'), ('struct~pt~^*^N', '&pts[id]'), ('Ty_l~N', '(Ty_l)id - 9'), ('Ty_l^*^N', '&ts[id]'),
    ('enum~en~N', '(enum en)(id % 3)'), ('int~N^[^4^]', 'arr[id]'), ('const~int~^*^const~^*^N', 'cpp[id]'), ('int~^*^N^[^]', 'parr[id]'), ('Ty_p~N', '&pts[id + 1]'),
    ('unsigned~N', '7u + id'), ('Ty_f~N', 'id % 2 ? fn1 : fn2'), ('void~^*^N', '(void *)&pts[id]'), ('char~N^[^2^]', 'str2[id]'),
]
NAMES = ['a', 'b', 'count', 'x_1', '_u', 'param', 'Pq', 'longer_name_of_a_parameter', 'n2', 'out', 'zz', 'scanner', 'result', 'A9', 'valu', 'p', 'k', 'e1']

PRE = r'''%%{
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <pthread.h>
#define MAXIN 64
typedef long Ty_l;
struct pt { int x, y; };
enum en { e0, e1_, e2_ };
typedef struct pt *Ty_p;
typedef int (*Ty_f)(int);
static int fn1(int i) { return i; }
static int fn2(int i) { return -i; }
static struct pt pts[MAXIN + 1];
static Ty_l ts[MAXIN];
static char str1[MAXIN][2], str2[MAXIN][2];
static char *strs[MAXIN][2];
static int arr[MAXIN][4];
static int *parr[MAXIN][4];
static const int *const cpp[MAXIN][1];
struct ctx {
    int id, parent, how, when, ran, rc;
    int tok[512], n, pos, nact;
    char *log;
    size_t len, size;
};
static struct ctx C[MAXIN];
static int nc;
static void LOG(struct ctx *c, const char *f, ...)
{
    va_list ap;
    if (c->len + 100 > c->size) c->log = (char *)realloc(c->log, c->size = c->size * 2 + 200);
    va_start(ap, f);
    c->len += vsprintf(c->log + c->len, f, ap);
    va_end(ap);
}
static void parse(struct ctx *c);
static void nest(struct ctx *c, int how, int when)
{
    int i;
    for (i = 0; i < nc; i++)
        if (C[i].parent == c->id && C[i].how == how && C[i].when == when && !C[i].ran) parse(&C[i]);
}
%(glob)s
%(protos)s
#define SEE_P(s) do { int id = CX->id; %(seep)s (void)id; } while (0)
#define SEE_L(s) do { int id = CX->id; %(seel)s (void)id; } while (0)
static void TR(struct ctx *c, int n, int rec, int nerr) { LOG(c, " r%%d/%%d/%%d", n, rec != 0, nerr); nest(c, 1, c->nact++); }
%%}
'''

POST = r'''
int %(lexsig)s
{
    int here_;
    SEE_L('L');
    nest(CX, 0, CX->pos);
    here_ = CX->pos++;
    %(setl)s
    %(setv)s = here_;
    if (here_ < CX->n) return tokcode[CX->tok[here_]];
    if (here_ > CX->n + 2000) { printf(" LEX-PAST-END\n"); exit(9); }
    return 0;
}
void %(errsig)s
{
    SEE_P('E');
    LOG(CX, " E@%%d", CX->pos);
    if (strncmp(s, "syntax error", 12)) LOG(CX, "!message %%s", s);
}
static void parse(struct ctx *c)
{
    int id = c->id;
%(setg)s
    c->ran = 1;
    c->rc = yyparse(%(args)s);
    LOG(c, " =%%d @%%d", c->rc, c->pos);
%(unsetg)s
}
static void *thread(void *v)
{
    int i, k = (int)(long)v;
    for (i = k %% 100; i < nc; i += k / 100)
        if (C[i].parent < 0) {
            int j;
            parse(&C[i]);
            for (j = 0; j < nc; j++) {      /* the children whose place was never reached */
                int q = C[j].parent;
                while (q >= 0 && q != i) q = C[q].parent;
                if (q == i && !C[j].ran) parse(&C[j]);
            }
        }
    return 0;
}
int main(int argc, char **argv)
{
    static char line[65536];
    int i, nt = atoi(argv[1]);
    pthread_t t[100];
    while (fgets(line, sizeof line, stdin) && nc < MAXIN) {
        char *p = line, *q;
        struct ctx *c = &C[nc];
        c->id = nc++;
        c->parent = (int)strtol(p, &p, 10);
        c->how = (int)strtol(p, &p, 10);
        c->when = (int)strtol(p, &p, 10);
        for (;;) {
            long v = strtol(p, &q, 10);
            if (q == p) break;
            c->tok[c->n++] = (int)v; p = q;
        }
    }
    if (nt < 2) thread((void *)100L);
    else {
        for (i = 0; i < nt; i++) if (pthread_create(&t[i], 0, thread, (void *)(long)(nt * 100 + i))) exit(8);
        for (i = 0; i < nt; i++) pthread_join(t[i], 0);
    }
    for (i = 0; i < nc; i++) printf("%%s\n", C[i].log ? C[i].log : " not run");
    return 0;
}
'''


def spaced(c, decl, style, first=True):
    """the declaration with white space (and comments) as the style has it"""
    o = ''
    for ch in decl:
        if ch in '~^':
            k = c.draw(8) if style else 0
            if style == 2 and k >= 6:
                o += c.pick([' /* c, d */ ', '\n', '\n\t', ' // e }\n', '/* two\n lines */ ', '  \t '] if first else [' /* c, d */ ', '/**/ '])
            elif style and k >= 4:
                o += c.pick(['  ', '\t', ' \t '])
            elif ch == '~' or k == 3:
                o += ' '
        else:
            o += ch
    return o


def directives(c, word, l):
    """one or more directives that declare the list"""
    if not l:
        return ''
    o = ''
    style = c.draw(3)
    i = 0
    while i < len(l):
        k = c.int(1, len(l) - i)
        part = l[i:i + k]
        i += k
        t = ''
        first = True        # only the first pair of braces may stretch over several lines
        while part:
            m = c.int(1, len(part))
            sp = lambda: c.pick(['', ' ', ' ', '  ', '\n   '] if style and first else [' '])
            t += (' ' if c.bool(9, 10) or not t else '') + '{' + sp() + (sp() + ',' + sp()).join(spaced(c, x, style, first) for x in part[:m]) + sp() + '}'
            part = part[m:]
            first = False
        o += word + t + '\n'
    return o


def plain(decl):
    return decl.replace('~', ' ').replace('^', '')


def build(c, ctx, pure, var, B):
    g = gen.any_grammar(c, mid=not B and c.bool(1, 4), unproductive=False)
    if g is None or not g.terms:
        raise Discard('no terminals')
    if c.bool(2, 3):
        g = y05.add_errors(c, g)
    lr = LR(g, limit=300)
    R = byacc.resolve(lr, g)
    if R.reduce_accept or R.hidden or (B and R.SR + R.RR):
        raise Discard('not usable')
    loc = var == 'btyacc' and c.bool(1, 3)
    # ---- parameters
    n = c.pick([0, 1, 2, 3, 5, 8])
    names = c.sample(NAMES, n)
    par = []
    for x in names:
        d, v = c.pick(TYPES)
        par.append((x, d, v))
    cx = pure or c.bool()
    if cx:
        par.insert(c.draw(len(par) + 1), ('cx', 'struct~ctx~^*^N', '&C[id]'))
    lex = [p for p in c.shuffle(par) if p[0] == 'cx' and (pure or c.bool()) or p[0] != 'cx' and c.bool()]
    decl = lambda p: re.sub(r'\bN\b', p[0], p[1])
    psig = [plain(decl(p)) for p in par]
    lsig = [plain(decl(p)) for p in lex]
    lexsig = (['YYSTYPE *yylval'] + (['YYLTYPE *yylloc'] if loc else []) if pure else []) + lsig
    errsig = (['YYLTYPE *loc'] if loc else []) + psig + ['const char *s']
    see = lambda l: ' '.join('if (%s != (%s)) LOG(CX, "!%s in %%c", s);' % (x, v, x) for x, d, v in l)
    opts = c.subset(['-d', '-l', '-t', '-i', '-g', '-v'], 1, 5) + (['-B'] if B else [])
    if c.bool(1, 6):
        opts += ['-r']
    pfx = 'yy'
    if c.bool(1, 5):
        pfx = c.pick(['zz', 'calc_', 'Q'])
        opts += ['-p', pfx]
    pre = PRE % dict(
        glob='#define CX cx' if cx and any(p[0] == 'cx' for p in lex) else 'static struct ctx *cur;\n#define CX cur',
        # not pure, yylex is declared by the parser itself in some cases; the types have to agree
        protos='int yyparse(%s);' % (', '.join(psig) or 'void') + ('' if loc else '\nint yylex(%s);\nvoid yyerror(%s);' % (
            ', '.join(lexsig).replace('YYSTYPE', 'int') or 'void', ', '.join(errsig))),
        seep=see(par), seel=see(lex))
    d = byacc.decls(g)
    d += '%locations\n' if loc else ''
    if pure:
        d += c.pick(['%pure-parser\n', '%define api.pure\n'] if var == 'btyacc' else ['%pure-parser\n'])
    a, b = directives(c, '%parse-param', [decl(p) for p in par]), directives(c, '%lex-param', [decl(p) for p in lex])
    d += a + b if c.bool() else b + a
    if var == 'btyacc':
        if c.bool(1, 3):
            d += '%destructor { SEE_P(\'D\'); (void)$$; } ' + ' '.join([t for t in byacc.spec_terms(g) if not byacc.is_lit(t)] or ['<*>']) + '\n'
        if c.bool(1, 3):
            d += '%initial-action { SEE_P(\'I\'); }\n'
    if loc:             # YYLTYPE is only known behind the declarations
        d += '%code {\nint yylex(' + (', '.join(lexsig) or 'void') + ');\nvoid yyerror(' + ', '.join(errsig) + ');\n}\n'
    action = lambda i, r: '{ SEE_P(\'A\'); TR(CX, %d, YYRECOVERING(), yynerrs); }' % i
    setl = ''
    if loc:
        setl = ' '.join('%s%s = here_ * 8 + %d;' % ('yylloc->' if pure else 'yylloc.', f, j + 1) for j, f in enumerate(['first_line', 'first_column', 'last_line', 'last_column']))
    useg = 'cur' in pre.split('#define CX')[1][:8]
    post = byacc.tokcode_table(g.terms, ['29999', '2257']) + POST % dict(
        lexsig='yylex(%s)' % (', '.join(lexsig) or 'void'), errsig='yyerror(%s)' % ', '.join(errsig), setl=setl, setv='*yylval' if pure else 'yylval',
        setg='    struct ctx *old = cur; cur = c;' if useg else '', unsetg='    cur = old;' if useg else '', args=', '.join(v for x, d_, v in par))
    return g, lr, R, loc, opts, pre + d + '%%\n' + byacc.rules_text(g, action) + '%%\n' + post, par, lex


def check(c, ctx, pure):
    var, B = c.pick([('yacc', False), ('btyacc', False), ('btyacc', False), ('btyacc', not pure)])
    g, lr, R, loc, opts, text, par, lex = build(c, ctx, pure, var, B)
    d = ctx.dir()
    p = byacc.yacc(ctx, var, d, text, opts, asan=c.bool(1, 3))
    if p.rc != 0:
        raise Violation('byacc %s rejects the specification: %s' % (' '.join(opts), p.errs), 'reject')
    san = c.pick([[], [], ['-g', '-fsanitize=address,undefined'], ['-g', '-fsanitize=thread']] if pure else [[], [], ['-g', '-fsanitize=address,undefined']])
    exe = compile_(ctx, d, opts, san)
    # ---- inputs
    gs = Grammar(g.terms, [r for r in g.rules if 'error' not in r.rhs], g.start, g.prec)
    base = []
    for _ in range(10):
        s = gs.sentence(c, depth=c.int(2, 8), maxlen=40) if any(r.lhs == g.start for r in gs.rules) else None
        if s is not None and len(s) <= 200:
            base.append(s)
    ws = [[]]
    for s in base:
        ws.append(s)
        w = mutate(c, s, g.terms)
        if c.bool(1, 6) and w:
            w[c.draw(len(w))] = None
        ws.append(w[:200])
    for _ in range(4):
        ws.append([c.pick(g.terms) for _ in range(c.geo(10, 4, 5))])
    if pure:
        ws += [c.pick(ws) for _ in range(c.draw(20))]
    exp, keep = [], []
    for w in ws:
        try:
            e, rd = y05.model(g, lr, R, w, {}, B, {})
        except (y05.Loop, y05.Known):
            continue
        keep.append(w)
        exp.append(e + ['@%d' % rd])
    keep, exp = keep[:60], exp[:60]
    if not keep:
        raise Discard('no input')
    idx = {t: i for i, t in enumerate(g.terms, 1)}
    lines = []
    nested = 0
    dep = []
    for i, w in enumerate(keep):
        par_, how, when = -1, 0, 0
        if pure and i and c.bool(3, 5):
            par_ = c.draw(i)
            how = c.draw(2)
            when = c.draw(max(1, len(keep[par_]) + 1 if how == 0 else 1 + sum(1 for x in exp[par_] if x[0] == 'r')))
            nested += 1
        lines.append('%d %d %d %s' % (par_, how, when, ' '.join(str(idx[t]) if t else str(len(g.terms) + 1 + len(w) % 2) for t in w)))
    nt = c.pick([1, 1, 2, 4]) if pure else 1
    if '-fsanitize=thread' in san:
        nt = max(nt, 2)
    inp = ''.join(x + '\n' for x in lines)
    ctx.files['input'] = inp
    r = ctx.run([exe, str(nt)], cwd=d, inp=inp.encode(), timeout=60, env={'ASAN_OPTIONS': 'detect_leaks=0'})
    if r.timeout:
        raise Violation('%s %s: the parser does not end' % (var, ' '.join(opts)), 'hang')
    if 'FATAL: ThreadSanitizer' in r.errs:
        raise Discard('the sanitizer does not run here')
    if r.rc:
        raise Violation('%s %s: the parser ended with status %d: %s' % (var, ' '.join(opts), r.rc, r.errs[-2000:]), 'crash')
    out = r.outs.split('\n')[:-1]
    if len(out) != len(lines):
        raise Violation('%d answers to %d inputs' % (len(out), len(lines)), 'harness')
    for i, (w, o, e) in enumerate(zip(keep, out, exp)):
        ctx.ev()
        if '!' in o:
            raise Violation('%s %s: on input %d a parameter or message is wrong: %s' % (var, ' '.join(opts), i, o), 'parameter')
        if not y05.same(o.split(), e):
            raise Violation('%s %s, %d threads: input %d (%s): expected %s, got %s' % (var, ' '.join(opts), nt, i, lines[i], ' '.join(e), o), 'state')
    for k, v in [(var + (' -B' if B else ''), 1), ('nested', nested), ('threads', nt > 1), ('locations', loc), ('parse parameters %s' % gen.bucket(len(par)), 1), ('lex parameters', lex)] + [(x, 1) for x in san[1:]]:
        if v:
            ctx.label(k)
    if sum(len(e) for e in exp) > 30 and (nested > 2 if pure else len(par) > 1):
        ctx.nontrivial(text)
        ctx.sample('%s %s\n%s' % (var, ' '.join(opts), '\n'.join(l for l in text.split('%%')[0].split('\n') if 'param' in l)) + '\n' + '\n'.join(out[:3]))


def compile_(ctx, d, opts, san):
    return byacc.cc(ctx, d, 'y.code.c' if '-r' in opts else 'y.tab.c', 'p', flags=['-O0', '-pthread'] + san + (['y.tab.c'] if '-r' in opts else []))


PROBE = r'''%pure-parser
%parse-param { int depth }
%lex-param { int depth }
%{
#include <stdio.h>
static int pos[2];
int yyparse(int depth);
%}
%code {
int yylex(YYSTYPE *v, int depth);
void yyerror(int depth, const char *s);
}
%token A B
%%
s : A { if (depth == 0) printf("inner %d\n", yyparse(1)); } B { printf("end %d\n", depth); } ;
%%
int yylex(YYSTYPE *v, int depth) { static const int t[] = { A, B, 0 }; *v = 0; return t[pos[depth]++]; }
void yyerror(int depth, const char *s) { printf("%d: %s\n", depth, s); }
int main(void) { printf("outer %d\n", yyparse(0)); return 0; }
'''


def probe(ctx):
    d = ctx.dir()
    p = byacc.yacc(ctx, 'btyacc', d, PROBE, ['-B'])
    exe = byacc.cc(ctx, d, 'y.tab.c', 'p', flags=['-g', '-fsanitize=address', '-fno-sanitize-recover'])
    r = ctx.run([exe], cwd=d)
    if r.rc or r.outs != 'end 1\ninner 0\nend 0\nouter 0\n':
        raise Violation('a pure parser with -B that is called from its own action: status %d, %r %s' % (r.rc, r.outs, r.errs[:300]), 'pure-trial-state')


SPEC = dict(
    tests={'parameters': (lambda c, x: check(c, x, False), 500, 9000), 'pure': (lambda c, x: check(c, x, True), 500, 9000)},
    probes={'pure-trial-state': probe},
    rule='a case is a grammar, mostly with error rules, with 0 to 9 parse parameters of generated types (scalars, pointers, arrays, structures, typedefs, functions) and lex parameters taken from them, declared in '
         'one or several directives, in braces and lists, with white space, comments and line breaks; both variants and -B, locations, -d -i -r -p. The specification declares yyparse, yylex and yyerror itself '
         'and checks in every action, yylex, yyerror, destructor and initial action that each parameter has the value passed. Pure parsers (without -B) run inputs one inside the other, from yylex and from '
         'actions, and in several threads (also under the thread sanitizer). The run of every input must be the one of the model of Y05. Non-trivial: more than 30 events and two or more parameters, or more than two nested parses; distinct by text',
    assumptions=['the model of error recovery in props/y05.py', 'declarations of functions and arrays of several dimensions as parameters need a typedef (as is)'],
)
