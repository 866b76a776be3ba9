"""Y05: error recovery follows the yacc protocol on every erroneous input."""
from vlib import byacc, gen, sim
from vlib.engine import Violation, Discard
from vlib.gram import LR, Grammar, Rule, mutate


def add_errors(c, g, n=None):
    """error productions of the usual shapes"""
    rules = list(g.rules)
    nts = [x for x in g.nts if x[:2] != '$$']
    have = {(r.lhs, r.rhs) for r in rules}
    k = c.int(1, 3) if n is None else n
    for _ in range(k):
        base = c.pick(rules)
        if base.lhs[:2] == '$$':
            continue
        x = c.draw(8)
        a = base.lhs
        t = c.pick(g.terms)
        if x == 0:
            rhs = ['error']
        elif x == 1:
            rhs = ['error', t]
        elif x == 2 and base.rhs:       # replace a symbol of an existing rule by error
            k2 = c.draw(len(base.rhs))
            rhs = list(base.rhs)
            rhs[k2] = 'error'
        elif x == 3:
            rhs = [a, 'error']
        elif x == 4:
            rhs = [a, 'error', t]
        elif x == 5:
            rhs = [t, 'error', c.pick(g.terms)]
        else:                           # a nonterminal that only `error' may follow
            pre = c.pick([[], [t], [t], [c.pick(nts)]])
            e = 'only%d' % len(rules)
            rules.append(Rule(e, c.pick([[], [], [c.pick(g.terms)], [c.pick(nts)]])))
            rhs = pre + [e, 'error'] + c.pick([[], [c.pick(g.terms)]])
        rhs = [s for s in rhs if s[:2] != '$$']
        if (a, tuple(rhs)) not in have:
            have.add((a, tuple(rhs)))
            rules.insert(c.draw(len(rules) + 1) if c.bool() and a != rules[0].lhs else len(rules), Rule(a, rhs))
    # keep mid-rule actions just before the rule they belong to: only append when there are some
    if any(r.lhs[:2] == '$$' for r in rules):
        rules = list(g.rules) + [r for r in rules if r not in g.rules]
    return Grammar(g.terms, rules, g.start, g.prec)


CTL = ['YYERROR', 'yyerrok', 'yyclearin', 'YYABORT', 'YYACCEPT', 'yyerrok; yyclearin']


class Loop(Exception):
    pass


class Known(Exception):
    pass


def model(g, lr, R, w, ctl, B, locs, limit=400):
    """the protocol; w: list of terminals (None: a token number that no token has)"""
    n = len(w)
    st, ls = [0], [None]
    i = 0                  # tokens read so far
    ch = None              # look-ahead: None = empty
    flag = nerr = 0
    out = []
    nact = 0
    idle = 0
    errstart = None
    arrived = False
    userr = False          # YYERROR happened under -B: yynerrs is not specified

    def lex():
        nonlocal i, ch
        if i < n:
            ch = w[i]
            if ch is None:
                ch = '?'
        else:
            ch = '$end'
        i += 1

    def lloc():
        p = i - 1
        return [p * 8 + 1, p * 8 + 2, p * 8 + 3, p * 8 + 4]
    while True:
        q = st[-1]
        idle += 1
        if idle > limit:
            raise Loop()
        if q == lr.final:
            if ch is None:
                lex()
            if ch == '$end':
                if not arrived:
                    raise Known()
                return out + ['=0'], i
            arrived = False
        err = None
        if R.defred[q]:
            a = ('r', R.defred[q])
        else:
            if ch is None:
                lex()
            a = R.act[q].get(ch, ('e', 0)) if ch not in ('?', 'error') else ('e', 0)
        if a[0] == 's':
            st.append(a[1])
            ls.append(lloc())
            ch = None
            if flag:
                flag -= 1
            idle = 0
            continue
        if a[0] == 'a':
            return out + ['=0'], i
        if a[0] == 'r':
            ri = a[1] - 1
            r = g.rules[ri]
            m = len(r.rhs)
            L = None
            if m:
                L = ls[-m][:2] + ls[-1][2:] if ls[-m] and ls[-1] else None
            elif ls[-1]:
                L = [ls[-1][2], ls[-1][3], ls[-1][2], ls[-1][3]]
            nact += 1
            ev = ['r%d' % (ri + 1), '1' if flag else '0', str(nerr) if not (B and userr) else '*']
            lc = []
            for k in locs.get(ri, ()):
                x = ls[len(ls) - m + k]
                lc.append(','.join(map(str, x)) if x else '*')
            out.append('/'.join(ev + lc))
            cmd = None
            if ri in ctl:
                c_, per, ph = ctl[ri]
                if nact % per == ph:
                    cmd = c_
            if cmd == 'YYABORT':
                return out + ['=1'], i
            if cmd == 'YYACCEPT':
                return out + ['=0'], i
            if cmd and 'yyerrok' in cmd:
                flag = 0
            if cmd and 'yyclearin' in cmd:
                ch = None
            if cmd == 'YYERROR':
                if B:
                    userr = True
                    if m:
                        del st[-m:], ls[-m:]
                else:
                    nerr += 1
                err = 'user'
                errstart = None
            else:
                if m:
                    del st[-m:], ls[-m:]
                st.append(lr.trans[st[-1]][r.lhs])
                ls.append(L)
                arrived = True
                continue
        if err is None:
            if flag == 0:
                out.append('E@%d' % i)
                nerr += 1
                errstart = lloc()
            else:
                errstart = None
        # recovery
        if flag < 3:
            flag = 3
            while True:
                x = R.act[st[-1]].get('error')
                if x and x[0] == 's':
                    st.append(x[1])
                    ls.append(errstart[:2] + lloc()[2:] if errstart and i > 0 else None)
                    break
                if len(st) == 1:
                    return out + ['=1'], i
                errstart = ls[-1]
                st.pop()
                ls.pop()
        else:
            if ch == '$end':
                return out + ['=1'], i
            if ch is not None:
                idle = 0
            ch = None


def same(got, exp):
    if len(got) != len(exp):
        return False
    for a, b in zip(got, exp):
        if a != b:
            x, y = a.split('/'), b.split('/')
            if len(x) != len(y) or any(p != q and q != '*' for p, q in zip(x, y)):
                return False
    return True


def check(c, ctx, kind):
    var, opts = c.pick([('yacc', []), ('btyacc', []), ('btyacc', ['-B'])])
    B = bool(opts)
    g = gen.any_grammar(c, mid=not B and c.bool(1, 3), unproductive=False)
    if g is None or not g.terms:
        raise Discard('no terminals')
    g = add_errors(c, g)
    lr = LR(g, limit=600)
    R = byacc.resolve(lr, g)
    if R.reduce_accept or R.hidden or (B and R.SR + R.RR):
        raise Discard('not usable')
    loc = var == 'btyacc' and c.bool()
    ctl = {}
    if kind == 'control':
        for i, r in enumerate(g.rules):
            if r.lhs[:2] != '$$' and c.bool(1, 3):
                per = c.int(1, 4)
                cmd = c.pick(CTL)
                if cmd in ('YYABORT', 'YYACCEPT'):
                    per += 3
                ctl[i] = (cmd, per, c.draw(per))
            elif 'error' in r.rhs and c.bool():
                ctl[i] = (c.pick(['yyerrok', 'yyerrok; yyclearin']), 1, 0)
    locs = {}
    if loc:
        for i, r in enumerate(g.rules):
            if 'error' in r.rhs:
                locs[i] = [r.rhs.index('error')]

    def action(i, r):
        o = 'TR(%d, YYRECOVERING(), yynerrs);' % i
        for k in locs.get(i - 1, ()):
            o += ' LOC(@%d);' % (k + 1)
        if i - 1 in ctl:
            cmd, per, ph = ctl[i - 1]
            o += ' if (nact %% %d == %d) { %s; }' % (per, ph, cmd)
        return '{ %s }' % o
    pre = r'''%{
#include <stdio.h>
#include <stdlib.h>
int yylex();
void yyerror();
static int nact;
static void TR(int n, int rec, int nerr) { nact++; printf(" r%d/%d/%d", n, rec != 0, nerr); }
#define LOC(l) printf("/%d,%d,%d,%d", (l).first_line, (l).first_column, (l).last_line, (l).last_column)
%}
'''
    setl = ''
    if loc:
        setl = ' '.join('yylloc.%s = p * 8 + %d;' % (f, j + 1) for j, f in enumerate(
            ['first_line', 'first_column', 'last_line', 'last_column']))
    post = byacc.tokcode_table(g.terms, ['29999', '257 + 2000']) + r'''
static int in_tok[4096], in_n, in_p;
int yylex(void)
{
    int p = in_p;
    %s
    in_p++;
    if (p < in_n) return tokcode[in_tok[p]];
    if (p > in_n + 2000) { printf(" LEX-PAST-END\n"); exit(9); }
    return 0;
}
void yyerror(%sconst char *s) { printf(" E@%%d", in_p); }
int main(void)
{
    static char line[65536];
    while (fgets(line, sizeof line, stdin)) {
        char *p = line; int rc;
        in_n = in_p = 0;
        nact = 0;
        for (;;) {
            char *q; long v = strtol(p, &q, 10);
            if (q == p) break;
            in_tok[in_n++] = (int)v; p = q;
        }
        rc = yyparse();
        printf(" =%%d @%%d\n", rc, in_p);
        fflush(stdout);
    }
    return 0;
}
''' % (setl, 'YYLTYPE *l, ' if loc else '')
    decl = '%locations\n' if loc else ''
    d = ctx.dir()
    p = byacc.yacc(ctx, var, d, pre + decl + byacc.decls(g) + '%%\n' + byacc.rules_text(g, action) + '%%\n' + post, opts)
    if p.rc != 0:
        raise Violation('byacc rejects the grammar: ' + p.errs, 'reject')
    exe = byacc.cc(ctx, d, 'y.tab.c', 'p')
    gs = Grammar(g.terms, [r for r in g.rules if 'error' not in r.rhs], g.start, g.prec)
    base = []
    for _ in range(14):
        s = gs.sentence(c, depth=c.int(2, 8), maxlen=50) if any(r.lhs == g.start for r in gs.rules) else None
        if s is not None and len(s) <= 300:
            base.append(s)
    ws = [[]]
    for s in base:
        for _ in range(3):
            w = list(s)
            for _ in range(c.geo(3, 1, 2)):
                w = mutate(c, w, g.terms)
            if c.bool(1, 6) and w:
                w[c.draw(len(w))] = None
            ws.append(w[:300])
    for _ in range(12):
        ws.append([c.pick(g.terms) for _ in range(c.geo(12, 4, 5))])
    idx = {t: i for i, t in enumerate(g.terms, 1)}
    lines, exp, keep = [], [], []
    for w in ws:
        try:
            e, rd = model(g, lr, R, w, ctl, B, locs)
        except Loop:
            ctx.label('inputs on which the protocol itself loops')
            continue
        except Known:
            ctx.label('inputs whose tail is discarded after the whole input was reduced (known finding)')
            continue
        exp.append(e + ['@%d' % rd])
        keep.append(w)
        lines.append(' '.join(str(idx[t]) if t else str(len(g.terms) + 1 + len(w) % 2) for t in w))
    out = byacc.run_lines(ctx, exe, lines, d)
    nrec = nerrs = 0
    for w, o, e in zip(keep, out, exp):
        got = o.split()
        ctx.ev()
        ne = sum(1 for x in e if x[0] == 'E')
        nerrs += ne
        if ne and '=0' in e or ne > 1:
            nrec += 1
        if not same(got, e):
            raise Violation('input %s\nexpected %s\ngot      %s' % (' '.join(t or '(undefined token)' for t in w), ' '.join(e), o), 'protocol')
    ctx.label(var + ' '.join(opts))
    ctx.label('inputs with a recovery', nrec)
    ctx.label('errors', nerrs)
    for x in {v[0] for v in ctl.values()}:
        ctx.label('with ' + x)
    if loc:
        ctx.label('with locations')
    if nrec >= 2:
        ctx.nontrivial(g.key() + repr(sorted(ctl.items())) + var + repr(opts))
        ctx.sample(str(g) + '\n' + repr(ctl) + '\n' + '\n'.join('%s -> %s' % (l, o) for l, o in list(zip(lines, out))[:5]))


def probe_tail(ctx):
    d = ctx.dir()
    byacc.yacc(ctx, 'yacc', d, byacc.TRACE_PRE + "%%\ns: 'a' 'b' | error ;\n%%\n" + byacc.tokcode_table(["'a'", "'b'"]) + byacc.TRACE_POST)
    exe = byacc.cc(ctx, d, 'y.tab.c', 'p')
    o = byacc.run_lines(ctx, exe, ['1 1'], d)
    if '=0' not in o[0]:
        raise Violation('recovery discards the rest of the input but end of input is not accepted then: ' + o[0], 'no-accept-after-discard')


SPEC = dict(
    probes={'no-accept-after-discard': probe_tail},
    tests={
        'plain': (lambda c, x: check(c, x, 'plain'), 1500, 16000),
        'control': (lambda c, x: check(c, x, 'control'), 1500, 16000),
    },
    setup=lambda tier: (byacc.tool('yacc'), byacc.tool('btyacc')),
    rule='a case is a generated grammar with error productions and, in the control test, actions that run YYERROR, yyerrok, yyclearin, '
         'YYABORT, YYACCEPT at computed moments; the trace of actions, YYRECOVERING, yynerrs, yyerror calls, tokens read and the result '
         'is compared with a model of the protocol on mutated sentences and random strings; non-trivial: at least two inputs with a '
         'successful recovery or several errors; distinct by grammar, controls and variant',
    assumptions=['the reference automaton and resolution model (checked by Y02, Y03 and Y19)',
                 'YYERROR counts in yynerrs except under -B, where the count after a YYERROR is not checked; under -B YYERROR pops the '
                 'right-hand side first', 'inputs on which the protocol itself loops for ever are left out'],
)
