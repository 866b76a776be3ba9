"""Y08: parser stacks grow without corruption and overflow is reported, not hidden."""
import importlib
from vlib import byacc, gen
from vlib.engine import Violation, Discard
from vlib.gram import LR, Grammar, Rule, mutate

y05 = importlib.import_module('props.y05')


class Loop(Exception):
    pass


class Known(Exception):
    pass


def model(g, lr, R, w, maxdepth, rc_over, limit=30000):
    """(events, max number of stack entries); values are identities, locations are checked where they are defined"""
    n = len(w)
    st, vs, ls = [0], [None], [None]
    i = 0
    ch = None
    flag = nact = idle = 0
    out = []
    errstart = None
    arrived = False
    deep = 1

    def lex():
        nonlocal i, ch
        ch = w[i] if i < n else '$end'
        i += 1

    def lloc():
        p = i - 1
        return [p * 8 + 1, p * 8 + 2, p * 8 + 3, p * 8 + 4]
    while True:
        q = st[-1]
        deep = max(deep, len(st))
        idle += 1
        if idle > limit:
            raise Loop()
        if q == lr.final:
            if ch is None:
                lex()
            if ch == '$end':
                if not arrived:
                    raise Known()
                return out + ['=0'], deep
            arrived = False
        if R.defred[q]:
            a = ('r', R.defred[q])
        else:
            if ch is None:
                lex()
            a = R.act[q].get(ch, ('e', 0)) if ch != 'error' else ('e', 0)
        if a[0] == 's':
            if len(st) >= maxdepth:
                return out + ['V', '=%d' % rc_over], deep
            st.append(a[1])
            vs.append(i)
            ls.append(lloc())
            ch = None
            if flag:
                flag -= 1
            idle = 0
            continue
        if a[0] == 'a':
            return out + ['=0'], deep
        if a[0] == 'r':
            ri = a[1] - 1
            r = g.rules[ri]
            m = len(r.rhs)
            L = None
            if m:
                L = ls[-m][:2] + ls[-1][2:] if ls[-m] and ls[-1] else None
            elif ls[-1]:
                L = [ls[-1][2], ls[-1][3], ls[-1][2], ls[-1][3]]
            nact += 1
            out.append('r%d:%s@%s' % (ri + 1, ','.join(str(v) for s, v in zip(r.rhs, vs[len(vs) - m:]) if s != 'error'),
                                      '*' if L is None else ','.join(map(str, L))))
            if m:
                del st[-m:], ls[-m:], vs[-m:]
            elif len(st) >= maxdepth and not (len(st) == 1 and r.lhs == g.start):
                return out + ['V', '=%d' % rc_over], deep
            st.append(lr.trans[st[-1]][r.lhs])
            ls.append(L)
            vs.append(1000000 + nact)
            arrived = True
            continue
        if flag == 0:
            out.append('E')
            errstart = lloc()
        else:
            errstart = None
        if flag < 3:
            flag = 3
            while True:
                x = R.act[st[-1]].get('error')
                if x and x[0] == 's':
                    if len(st) >= maxdepth:
                        return out + ['V', '=%d' % rc_over], deep
                    st.append(x[1])
                    ls.append(errstart[:2] + lloc()[2:] if errstart and i > 0 else None)
                    vs.append(0)
                    break
                if len(st) == 1:
                    return out + ['=1'], deep
                errstart = ls[-1]
                for l in (st, ls, vs):
                    l.pop()
        else:
            if ch == '$end':
                return out + ['=1'], deep
            idle = 0
            ch = None


def same(got, exp, loc):
    if len(got) != len(exp):
        return False
    for a, b in zip(got, exp):
        if a == b:
            continue
        if a[0] != 'r' or b[0] != 'r':
            return False
        x, y = a.split('@'), b.split('@')
        if x[0] != y[0] or (loc and y[1] != '*' and x[1] != y[1]):
            return False
    return True


PRE = r'''%%{
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static int nact, MAXD = 10000, INIT = 200;
#define YYMAXDEPTH (MAXD)
%s
#define SETID(x) ((x) = 1000000 + nact)
%s
%%}
'''
POST = r'''
#define NTOK 65536
static int in_tok[NTOK], in_n, in_p;
%(lex)s
{
    int p = in_p;
    %(setl)s
    in_p++;
    %(setv)s = p + 1;
    if (p < in_n) return tokcode[in_tok[p]];
    if (p > in_n + 2000) { printf(" LEX-PAST-END\n"); exit(9); }
    return 0;
}
void yyerror(%(loc)s const char *s) { printf(" %%s", strstr(s, "overflow") ? "V" : "E"); }
int main(int argc, char **argv)
{
    static char line[400000];
    while (fgets(line, sizeof line, stdin)) {
        char *p = line; int rc;
        in_n = in_p = 0;
        nact = 0;
        MAXD = strtol(p, &p, 10);
        INIT = strtol(p, &p, 10);
        for (;;) {
            char *q; long v = strtol(p, &q, 10);
            if (q == p) break;
            in_tok[in_n++] = (int)v; p = q;
        }
        rc = yyparse();
        printf(" =%%d\n", rc);
        fflush(stdout);
    }
    return 0;
}
'''
LOCF = ['first_line', 'first_column', 'last_line', 'last_column']


def spec(c, g, var, loc, pure, noleak, union):
    tag = {}

    def ref(s, r):
        if not union:
            return '$' + r
        return '$<id>' + r

    def action(i, r):
        rhs = [] if r.lhs[:2] == '$$' else r.rhs
        ids = [ref(s, str(k)) for k, s in enumerate(rhs, 1) if s != 'error']
        a = 'nact++; printf(" r%d:%s@"%s);' % (i, ','.join(['%d'] * len(ids)), ''.join(', ' + x for x in ids))
        if loc:
            a += ' printf("%d,%d,%d,%d", ' + ', '.join('@$.' + f for f in LOCF) + ');'
        return '{ %s SETID(%s); }' % (a, ref(r.lhs, '$'))
    defs = ''
    if var == 'btyacc':
        defs += '#define YYINITSTACKSIZE (INIT)\n'
    if noleak:
        defs += '#define YY_NO_LEAKS 1\n'
    decl = 'int yylex(); void yyerror();' if not pure else 'void yyerror();'
    pre = PRE % (defs, decl)
    d = byacc.decls(g)
    if union:
        d += '%%union { char fill[%d]; int id; }\n' % c.pick([1, 4, 9, 61])
    if loc:
        d += '%locations\n'
    if pure:
        d += '%pure-parser\n'
    vt = 'YYSTYPE *yylval' + (', YYLTYPE *yylloc' if loc else '')
    setl = ''
    if loc:
        dot = 'yylloc->' if pure else 'yylloc.'
        setl = ' '.join('%s%s = p * 8 + %d;' % (dot, f, j + 1) for j, f in enumerate(LOCF))
    v = 'yylval->' if pure else 'yylval.'
    setv = (v + 'id') if union else ('*yylval' if pure else 'yylval')
    post = byacc.tokcode_table(g.terms) + POST % dict(
        lex='int yylex(%s)' % (vt if pure else 'void'), setl=setl, setv=setv, loc='YYLTYPE *l, ' if loc else '')
    return pre + d + '%%\n' + byacc.rules_text(g, action) + '%%\n' + post


def pumped(c, g, k):
    """a sentence u v^k w y^k z from a derivation in which a nonterminal contains itself"""
    rh, nth = g.minheight()
    by = g.by_lhs()
    if g.start not in nth:
        return None

    def mini(s, fuel=[0]):
        """smallest string of a symbol"""
        out, todo, n = [], [s], 0
        while todo:
            x = todo.pop()
            n += 1
            if n > 3000:
                return None
            if x not in by:
                out.append(x)
                continue
            ok = [i for i in by[x] if rh[i] is not None]
            m = min(rh[i] for i in ok)
            i = next(i for i in ok if rh[i] == m)
            todo += reversed(g.rules[i].rhs)
        return out

    def path(a, goal, nonempty):
        """rules leading from a to goal: list of (rule, position)"""
        todo = [(a, [])]
        seen = set()
        while todo:
            x, p = todo.pop(0)
            if x == goal and (p or not nonempty):
                return p
            if x in seen and p:
                continue
            seen.add(x)
            nxt = [(i, j) for i in by.get(x, ()) if rh[i] is not None for j, s in enumerate(g.rules[i].rhs) if s in by]
            nxt = c.shuffle(nxt)
            for i, j in nxt:
                todo.append((g.rules[i].rhs[j], p + [(i, j)]))
            if len(todo) > 400:
                return None
        return None

    def sides(p):
        l, r = [], []
        for i, j in p:
            for s in g.rules[i].rhs[:j]:
                m = mini(s)
                if m is None:
                    return None
                l += m
            rr = []
            for s in g.rules[i].rhs[j + 1:]:
                m = mini(s)
                if m is None:
                    return None
                rr += m
            r = rr + r
        return l, r
    a = c.pick([x for x in g.nts if x in nth])
    p0 = path(g.start, a, False)
    if p0 is None:
        return None
    p1 = path(a, a, True)
    if p1 is None:
        return None
    s0, s1, m = sides(p0), sides(p1), mini(a)
    if s0 is None or s1 is None or m is None:
        return None
    return s0[0] + s1[0] * k + m + s1[1] * k + s0[1]


def over_read(ctx, d):
    """take the known finding full-location-stack out of the way"""
    with open(d + '/y.tab.c') as f:
        s = f.read()
    ctx.write(d, 'y.tab.c', s.replace('= yystack.p_mark[1-yym];', '= yystack.p_mark[yym ? 1-yym : 0];'))


def check(c, ctx):
    var = c.pick(['yacc', 'btyacc', 'btyacc'])
    B = var == 'btyacc' and c.bool(1, 3)
    g = gen.any_grammar(c, mid=not B and c.bool(1, 4), unproductive=False)
    if g is None or not g.terms:
        raise Discard('no terminals')
    if c.bool(1, 4):
        g = y05.add_errors(c, g)
    lr = LR(g, limit=600)
    R = byacc.resolve(lr, g)
    if R.reduce_accept or R.hidden or (B and R.SR + R.RR):
        raise Discard('not usable')
    gs = Grammar(g.terms, [r for r in g.rules if 'error' not in r.rhs], g.start, g.prec)
    loc = var == 'btyacc' and c.bool()
    pure = c.bool(1, 3)
    union = c.bool()
    noleak = not pure and c.bool()
    fixed = not pure and not noleak      # the stack stays allocated from call to call
    d = ctx.dir()
    p = byacc.yacc(ctx, var, d, spec(c, g, var, loc, pure, noleak, union), ['-B'] if B else [])
    if p.rc != 0:
        raise Violation('byacc rejects the grammar: ' + p.errs, 'reject')
    over_read(ctx, d)
    exe = byacc.cc(ctx, d, 'y.tab.c', 'p', flags=('-O0', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'))
    ws = [[]]
    for _ in range(8):
        k = c.pick([1, 2, 3, 5, 7, 15, 30, 63, 64, 100, 130, 198, 199, 260])
        w = pumped(c, gs, k)
        if w is not None and len(w) <= 1500:
            ws.append(w)
            if c.bool(1, 3):
                w = list(w)
                ws.append(mutate(c, w, g.terms))
    for _ in range(4):
        s = gs.sentence(c, depth=c.int(2, 8), maxlen=50)
        if s is not None and len(s) <= 300:
            ws.append(list(s))
    idx = {t: i for i, t in enumerate(g.terms, 1)}
    base = 200 if var == 'yacc' else None
    fm = fi = None
    runs = []
    rc_over = 2 if var == 'btyacc' else 1
    for w in ws:
        try:
            e, deep = model(g, lr, R, w, 10 ** 9, rc_over)
        except (Loop, Known):
            ctx.label('inputs on which recovery loops or meets the known finding of Y05')
            continue
        for _ in range(3):
            x = c.draw(5)
            mx = max(2, deep + (c.int(-3, 2) if x < 3 else (c.draw(60) - 40 if x == 3 else 2000)))
            ini = c.pick([2, 3, c.int(2, 20), mx, max(2, deep), 200])
            if fixed:
                if fm is None:
                    fm, fi = mx, ini
                mx, ini = fm, fi
            lim = max(base or ini, mx)
            runs.append((w, mx, ini, lim, deep))
    grew = over = 0
    exp, lines = [], []
    for w, mx, ini, lim, deep in runs:
        try:
            e, _ = model(g, lr, R, w, lim, rc_over)
        except (Loop, Known):
            ctx.label('inputs on which recovery loops or meets the known finding of Y05')
            continue
        exp.append((w, mx, ini, e))
        lines.append('%d %d %s' % (mx, ini, ' '.join(str(idx[t]) for t in w)))
        o = 'V' in e
        over += o
        grew += deep > (base or ini) and not o
    out = byacc.run_lines(ctx, exe, lines, d, env={'ASAN_OPTIONS': 'detect_leaks=%d' % (not fixed and 1)})
    for (w, mx, ini, e), o in zip(exp, out):
        ctx.ev()
        if not same(o.split(), e, loc):
            raise Violation('YYMAXDEPTH %d YYINITSTACKSIZE %s input %s\nexpected %s\ngot      %s' % (
                mx, ini if var == 'btyacc' else 200, ' '.join(w), ' '.join(e), o), 'depth')
    ctx.label('parses that overflow', over)
    ctx.label('parses with stack growth', grew)
    ctx.label('%s%s%s%s%s' % (var, ' -B' if B else '', ' locations' if loc else '', ' pure' if pure else '', ' kept stack' if fixed else ''))
    if over + grew >= 3:
        ctx.nontrivial(g.key() + repr((var, B, loc, pure, noleak, union)))
        ctx.sample(str(g) + '\n' + '\n'.join('%s -> %s' % (l[:120], o[-120:]) for l, o in list(zip(lines, out))[:4]))


def default(c, ctx):
    """the default limit of 10000 entries, exactly"""
    var, opts = c.pick([('yacc', []), ('btyacc', []), ('btyacc', ['-B'])])
    pure = c.bool()
    loc = var == 'btyacc' and c.bool()
    a, b, z, n = "'a'", "'b'", "'z'", 's'
    per = c.int(1, 4)                     # entries pushed per level
    back = c.bool()
    rule = Rule('s', ['T%d' % i for i in range(per)] + ['s'] + (['E'] if back else []))
    rules = [rule, Rule('s', ['Z'])]
    ts = ['T%d' % i for i in range(per)] + (['E'] if back else []) + ['Z']
    g = Grammar(ts, rules, 's', {})
    lr = LR(g)
    R = byacc.resolve(lr, g)
    d = ctx.dir()
    s = spec(c, g, var, loc, pure, True, c.bool())
    s = s.replace('#define YYMAXDEPTH (MAXD)', '').replace('#define YYINITSTACKSIZE (INIT)', '')
    p = byacc.yacc(ctx, var, d, s, opts)
    if p.rc:
        raise Violation('byacc rejects the grammar: ' + p.errs, 'reject')
    over_read(ctx, d)
    exe = byacc.cc(ctx, d, 'y.tab.c', 'p', flags=('-O0', '-fsanitize=address'))
    idx = {t: i for i, t in enumerate(g.terms, 1)}
    lines, exp = [], []
    rc_over = 2 if var == 'btyacc' else 1
    k0 = 9998 // per
    for k in [k0 + 1, c.int(k0 - 2, k0 + 3), k0, c.int(1, 10)]:
        w = ts[:per] * k + ['Z'] + (['E'] * k if back else [])
        e, deep = model(g, lr, R, w, 10000, rc_over)
        exp.append(e)
        lines.append('0 0 ' + ' '.join(str(idx[t]) for t in w))
    out = byacc.run_lines(ctx, exe, lines, d)
    for l, o, e in zip(lines, out, exp):
        ctx.ev()
        if not same(o.split(), e, loc):
            raise Violation('%d tokens: expected %s\ngot %s' % (len(l.split()) - 2, ' '.join(e)[-300:], o[-300:]), 'default-depth')
    ctx.label('default limit')
    ctx.nontrivial(repr((var, opts, pure, loc, per, back, lines[1][-50:])))


def probe_one(ctx):
    d = ctx.dir()
    byacc.yacc(ctx, 'btyacc', d, r'''%{
#include <stdio.h>
#define YYINITSTACKSIZE 1
int yylex(void); void yyerror(const char *s);
%}
%%
s: ;
%%
int yylex(void) { return 0; }
void yyerror(const char *s) { }
int main(void) { printf(" =%d\n", yyparse()); return 0; }
''')
    exe = byacc.cc(ctx, d, 'y.tab.c', 'p', flags=('-O0', '-fsanitize=address'))
    p = ctx.run([exe], cwd=d, inp='', env={'ASAN_OPTIONS': 'detect_leaks=0'})
    if p.rc:
        raise Violation('heap overflow with YYINITSTACKSIZE 1: ' + p.errs[:300], 'initial-size-1')


def probe_full(ctx):
    d = ctx.dir()
    byacc.yacc(ctx, 'btyacc', d, r'''%{
#include <stdio.h>
#define YYINITSTACKSIZE 2
int yylex(void); void yyerror();
%}
%locations
%token A
%%
s: A e; e: ;
%%
static int n;
int yylex(void) { return n++ ? 0 : A; }
void yyerror() { }
int main(void) { printf(" =%d\n", yyparse()); return 0; }
''')
    exe = byacc.cc(ctx, d, 'y.tab.c', 'p', flags=('-O0', '-fsanitize=address'))
    p = ctx.run([exe], cwd=d, inp='', env={'ASAN_OPTIONS': 'detect_leaks=0'})
    if p.rc:
        raise Violation('heap over-read when an empty rule is reduced with a full location stack: ' + p.errs[:300], 'full-location-stack')


SPEC = dict(
    probes={'full-location-stack': probe_full, 'initial-size-1': probe_one},
    tests={
        'depth': (check, 700, 12000),
        'default': (default, 24, 300),
    },
    setup=lambda tier: (byacc.tool('yacc'), byacc.tool('btyacc')),
    rule='a case is a generated grammar (all driver variants: plain, btyacc, -B without conflicts, locations, pure, stack kept or '
         'freed) compiled with AddressSanitizer and UBSan, with YYMAXDEPTH and YYINITSTACKSIZE chosen per input around the exact depth '
         'that a model computes; inputs include pumped sentences; the trace with values and locations, the overflow point and the '
         'result are compared with the model; one process parses all inputs in turn; non-trivial: at least 3 parses that overflow or '
         'grow the stack; distinct by grammar and variant',
    assumptions=['the reference automaton (checked by Y02 and Y19)', 'YYINITSTACKSIZE is at least 2 (known finding)',
                 'the plain driver always starts with 200 entries and returns 1 on overflow'],
)
