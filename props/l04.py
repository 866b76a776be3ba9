"""L04: the yacc export of lemon (-y, -Y) gives byacc an equivalent grammar."""
from vlib import lemon, byacc, gen, sim
from vlib.lgram import Multi
from vlib.engine import Violation, Discard
from vlib.gram import Grammar, Rule, LR, Earley
from props import l02
from props.y14 import read_grammar


def check(c, ctx, big=False):
    g0 = l02.grammar(c, big)
    if len(g0.rules) > 1 and c.bool(1, 3):
        # the start symbol is not the first rule's
        rules = list(g0.rules)
        rules = c.shuffle(rules)
        g0 = Grammar(g0.terms, rules, g0.start, g0.prec)
    M = Multi(c, g0, *c.pick([(0, 1), (1, 6), (1, 2)]))
    opts = [c.pick(['-y', '-Y'])] + c.subset(['-z', '-u'], 1, 4)
    full, yp, u = '-Y' in opts, '-z' in opts, '-u' in opts
    extra = M.decls()
    if not yp and c.bool(1, 8):
        extra += '%yacc_prec\n'
        yp = True
    named = [t for t in g0.all_terms() if t != 'error']
    start_decl = g0.rules[0].lhs != g0.start or c.bool()
    g1 = M.g
    text = lemon.decls(Grammar(named, g1.rules, g1.start, g1.prec), start=start_decl, tokens=True) + extra
    body = [M.rule_text(r) + c.pick(['', ' { x(); }', '\n{ if (1) { "}"; } }']) for r in g1.rules]
    dress = c.draw(4)
    if dress == 0:
        text = '%name Foo\n%token_type {int}\n%include { int y; /* %start z */ }\n%stack_size 20\n' + text + '%syntax_error { }\n%fallback ' + ' '.join(named) + '.\n'
    text += '\n'.join(body) + '\n'
    d = ctx.dir()
    p = lemon.run(ctx, d, text, opts + ['-q', '-s'])
    exp, _, stats = p.outs.partition('Parser statistics:')
    if not stats:
        raise Violation('lemon %s: no statistics: %s' % (opts, p.errs[:300]), 'failed')
    ctx.files['export.y'] = exp

    def V(m, k):
        raise Violation('lemon %s: %s' % (' '.join(opts), m), k)
    tokens, levels, start, rules = read_grammar(exp, V)
    if sorted(tokens) != sorted(named):
        V('%%token lists %s instead of %s' % (sorted(tokens), sorted(named)), 'tokens')
    byl = {}
    for t, (l, a) in g0.prec.items():
        byl.setdefault(l, (a, []))[1].append(t)
    wl = [] if u else [(byacc.ASSOC[byl[l][0]], sorted(byl[l][1])) for l in sorted(byl)]
    if [(k, sorted(a)) for k, a in levels] != wl:
        V('precedence levels %s instead of %s' % (levels, wl), 'levels')
    if start != g0.start:
        V('%%start %s instead of %s' % (start, g0.start), 'start')
    e = M.expand(lambda r: None if u else M.precsym(r, yp, u) if full else r.prec)
    want = [(r.lhs, r.rhs, r.prec) for r in e.rules]
    if rules != want:
        for x, y in zip(rules + [None], want + [None]):
            if x != y:
                break
        V('rule %s instead of %s' % (x, y), 'rules')
    ctx.ev(len(want))
    # byacc takes it
    d2 = ctx.dir()
    eu = Grammar(e.terms, e.rules, e.start, {} if u else e.prec)
    try:
        lr = LR(eu, limit=400)
    except OverflowError:
        return
    z = c.pick([[], ['-z']])
    p2 = byacc.yacc(ctx, 'btyacc', d2, exp, z, 'x.y')
    if p2.rc:
        V('byacc rejects the export: %s' % p2.errs[:400], 'rejected')
    R = byacc.resolve(lr, eu, z=bool(z))
    s = byacc.summary(p2)
    if s != (R.SR, R.RR):
        V('byacc finds %s/%s conflicts in the export, expected %d/%d' % (s + (R.SR, R.RR)), 'byacc-conflicts')
    ctx.ev()
    if not M.alts:
        # lemon's own count, under the same rules
        L = lemon.resolve(lr, e if not u else eu, yacc=yp, u=u)
        n = int(stats.split('conflicts')[1].lstrip('.').split()[0])
        if L.SR + L.RR == R.SR + R.RR and n != sum(s):
            V('lemon finds %d conflicts, byacc %s on the export' % (n, s), 'conflicts')
        if full and z and not yp and L.SR + L.RR != R.SR + R.RR and not any(len(l) > 2 for q in range(lr.n) for l in lr.raw_actions(q).values()) and not R.reduce_accept:
            V('lemon should find %d conflicts, byacc -z %d on the export' % (L.SR + L.RR, R.SR + R.RR), 'conflicts')
        ctx.ev()
    free = all(len(l) < 2 for q in range(lr.n) for l in lr.raw_actions(q).values())
    if free and 'error' not in e.terms and c.bool(1, 3) and p.rc == 0 and not lemon.endless(e):
        runs(c, ctx, d, d2, exp, e, M, opts, V, text, z)
    for k, v in [('multi-terminals', M.alts), ('token classes', M.classes), ('two multi-terminals in a rule', any(sum(s in M.alts for s in r.rhs) > 1 for r in g1.rules)),
                 ('precedences', g0.prec), ('start symbol elsewhere', g0.rules[0].lhs != g0.start), ('conflicts', sum(s))] + [(o, 1) for o in opts]:
        if v:
            ctx.label(k)
    if len(want) > 2 and (g0.prec or M.alts or lr.n > 6):
        ctx.nontrivial(text)
    ctx.sample('%s:\n%s' % (opts, exp[-300:]))


PRE = r'''%{
#include <stdio.h>
#include <stdlib.h>
static int yylex(void);
static void yyerror(const char *s);
%}
'''


def runs(c, ctx, d, d2, exp, e, M, opts, V, text, z):
    """both parsers and the reference on the same inputs"""
    ear = Earley(e)
    ws = sim.inputs_for(c, e, 12, 20, depth=7, exhaustive=40)
    byacc.yacc(ctx, 'btyacc', d2, PRE + exp + '%%\n' + byacc.tokcode_table(e.terms) + byacc.TRACE_POST, z, 'y.y')
    bexe = byacc.cc(ctx, d2, 'y.tab.c', 'b')
    post = lemon.TRACE_POST.replace('TOKCODES', lemon.tokcodes(e.terms))
    base = [l for l in text.split('\n')]
    t2 = lemon.TRACE_PRE.replace('#include <assert.h>', '#include <assert.h>\n#include <string.h>\n#include "g.h"') + lemon.decls(Grammar([t for t in e.all_terms()], e.rules, e.start, e.prec)) + M.decls() \
        + '\n'.join(M.rule_text(r) for r in M.g.rules) + '\n' + post
    d3 = ctx.dir()
    p = lemon.run(ctx, d3, t2, [o for o in opts if o in ('-z', '-u')])
    lexe = lemon.cc(ctx, d3, 'g.c', 'l')
    idx = {t: i for i, t in enumerate(e.terms, 1)}
    ins = [' '.join(str(idx[t]) for t in w) for w in ws]
    lo = lemon.run_lines(ctx, lexe, ins, d3)
    bo = byacc.run_lines(ctx, bexe, ins, d2)
    for w, a, b in zip(ws, lo, bo):
        want = ear.accepts(w)
        la = '=A' in a and 'E@' not in a
        ba = '=0' in b and 'E@' not in b
        ctx.ev()
        if '=O' in a:
            continue
        if ba != want:
            V('on %s: the byacc parser made from the export %s' % (' '.join(w), 'accepts' if ba else 'rejects'), 'language')
        if la != want:
            V('on %s: the lemon parser %s' % (' '.join(w), 'accepts' if la else 'rejects'), 'lemon-language')
    ctx.label('executed')


SPEC = dict(
    tests={
        'small': (check, 7000, 60000),
        'big': (lambda c, x: check(c, x, True), 450, 5000),
    },
    rule='a case is a random lemon grammar with precedences, [TOKEN] marks, multi-terminals, token classes and a start symbol anywhere, exported with -y or -Y '
         '(and -z, -u, %yacc_prec); the export is read by an independent parser and compared rule by rule with the grammar, its multi-terminals expanded; byacc '
         '(with and without -z) must take it and find the number of conflicts of the reference and of lemon; conflict-free ones are compiled with both '
         'generators and run against an Earley parser. Non-trivial: at least 3 rules and precedences, multi-terminals or more than 6 states; distinct by text',
    assumptions=['with multi-terminals the numbers of conflicts are not compared between lemon and byacc: expanded rules have more states'],
)
