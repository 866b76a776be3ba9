"""L02: lemon counts, resolves and reports conflicts by its precedence rules."""
import re
from vlib import lemon, gen, sim
from vlib.engine import Violation, Discard
from vlib.gram import Grammar, Rule, LR
from vlib.lgram import Multi


def plain_start(c, g):
    """lemon wants a start symbol that no rule uses"""
    if any(g.start in r.rhs for r in g.rules):
        r = Rule('goal', [g.start])
        return Grammar(g.terms, [r] + g.rules if c.bool(3, 4) else g.rules + [r], 'goal', g.prec)
    return g


def grammar(c, big=False):
    g = gen.any_grammar(c, lits=False, big=big)
    if g is None or not g.terms:
        raise Discard('none')
    g = plain_start(c, g)
    if c.bool(1, 4):
        g = Grammar(g.terms, c.shuffle(g.rules), g.start, g.prec)
    prec = {}
    lv = {}
    for t, (l, a) in g.prec.items():
        # %precedence is resolved like %nonassoc
        if l not in lv:
            lv[l] = 'p' if a == 'n' and c.bool(1, 3) else a
        prec[t] = (l, lv[l])
    return Grammar(g.terms, g.rules, g.start, prec)


class MLR:
    """the automaton of a grammar with multi-terminals: they are shifted as one symbol, the actions are those of their members"""

    def __init__(self, M, limit):
        g = M.g
        self.M = M
        self.lr = LR(Grammar(g.terms + sorted(M.alts), g.rules, g.start, g.prec), limit=limit)
        self.n, self.rules = self.lr.n, self.lr.rules
        self.raw, self.trans = [], []
        for q in range(self.n):
            act = {}
            for t, l in self.lr.raw_actions(q).items():
                for x in M.alts.get(t, [t]):
                    have = act.setdefault(x, [])
                    for a in l:
                        if a[0] == 's' and any(b[0] == 's' for b in have):
                            raise Discard('two shifts of one token')
                        if a not in have:
                            have.append(a)
            for l in act.values():
                l.sort(key=lambda a: (a[0] != 's', a[0] != 'a', a[1]))
            self.raw.append(act)
            self.trans.append(self.lr.trans[q])

    def raw_actions(self, q):
        return self.raw[q]


def check(c, ctx, big=False, multi=False):
    if multi and c.bool():
        M = Multi.operators(c)
        g = M.g
    else:
        g = grammar(c, big)
        if multi and c.bool(2, 3):       # some members of a multi-terminal with, some without precedence
            k = c.pick([2, 3, 4])
            g = Grammar(g.terms, g.rules, g.start, {t: p for t, p in g.prec.items() if c.draw(k)})
        M = Multi(c, g, *((1, 3) if multi else (0, 1)))
    if multi and not M.alts:
        raise Discard('no multi-terminals')
    try:
        lr = MLR(M, 400) if multi else LR(g, limit=400)
    except OverflowError:
        raise Discard('large')
    g = M.g
    opts = c.subset(['-z', '-u', '-c', '-r', '-l', '-q', '-p'], 1, 5) + ['-s']
    yp = c.bool(1, 8)
    R = lemon.resolve(lr, g, yacc='-z' in opts or yp, u='-u' in opts, classes=M.alts)
    n = R.SR + R.RR
    exp = None
    if c.bool(1, 3):
        exp = max(0, c.pick([n, n, n, n + 1, n - 1, 0]))
    extra = M.decls() + ('%%expect %d\n' % exp if exp is not None else '') + ('%yacc_prec\n' if yp else '')
    # the rules, their lines known
    acts = c.pick([0, 1, 3])
    text = lemon.trace_grammar(g, extra=extra, rules='RULES\n')
    rl, lines, at = [], [], text[:text.index('RULES\n')].count('\n') + 1
    code = set()
    for i, r in enumerate(g.rules, 1):
        pad = c.pick(['', '', '\n', '// c\n', '/* a\n b */ '])
        sp = c.pick([' ', ' ', '\n  '])
        a = ''
        if c.draw(3) < acts:
            code.add(i)
            a = ' { printf(" r%d"); }' % i
        t = pad + M.rule_text(r).replace(' ::= ', ' ::=' + sp) + a + '\n'
        lines.append(at + pad.count('\n') + sp.count('\n'))       # where the rule ends
        rl.append(t)
        at += t.count('\n')
    text = text.replace('RULES\n', ''.join(rl))
    d = ctx.dir()
    p = lemon.run(ctx, d, text, opts)

    def V(m, k):
        raise Violation('lemon %s: %s' % (' '.join(opts), m), k)
    got = sorted(int(m.group(1)) for m in re.finditer(r'^g\.lem:(\d+): This rule can not be reduced', p.errs, re.M))
    want = sorted(lines[i - 1] for i in R.unused)
    if got != want:
        V('rules in lines %s are never reduced, lemon says %s' % (want, got), 'unused')
    m = re.search(r'^(\d+) parsing conflicts', p.errs, re.M)
    said = int(m.group(1)) if m else None
    if said != (n if n != (exp or 0) else None):
        V('%d conflicts, %%expect %s: says %s' % (n, exp, said), 'number')
    rest = [l for l in p.errs.splitlines() if l.strip() and 'can not be reduced' not in l and 'parsing conflicts' not in l]
    if rest:
        V('says ' + rest[0][:200], 'message')
    st = dict(re.findall(r'^ *(.*?)\.* +(\d+)$', p.outs, re.M))
    if int(st.get('conflicts', -1)) != n or int(st.get('conflicts S/R', 0)) != R.SR or int(st.get('conflicts R/R', 0)) != R.RR:
        V('statistics %s, expected %d (%d S/R, %d R/R)' % ({k: v for k, v in st.items() if 'conf' in k}, n, R.SR, R.RR), 'statistics')
    if (p.rc != 0) != bool(want or n != (exp or 0)):
        V('%d conflicts, %%expect %s, %d rules never reduced: status %d' % (n, exp, len(want), p.rc), 'status')
    ctx.ev(3)
    # the parser does what was resolved
    none = any(a[0] == 'none' for s in R.act for a in s.values())
    if not none and not lemon.endless(g) and c.bool(1, 3):
        runs(c, ctx, d, M.expand(lambda r: r.prec) if multi else g, lr, R, code, V)
    err = sum(a[0] == 'e' for s in R.act for a in s.values())
    for k, v in [('S/R', R.SR), ('R/R', R.RR), ('error actions', err), ('resolved', any(x[1] == 'resolved' for s in R.lost for l in s.values() for x in l)), ('never reduced', want),
                 ('%expect met', exp is not None and exp == n and n)] + [(o, 1) for o in opts]:
        if v:
            ctx.label(k)
    if n or err or any(R.lost):
        ctx.nontrivial(text)
    ctx.sample('%s: %d S/R, %d R/R, never reduced %s' % (opts, R.SR, R.RR, want))


def runs(c, ctx, d, g, lr, R, code, V):
    ws = sim.inputs_for(c, g, 14, 22, depth=7, exhaustive=50)
    act = [{t: a for t, a in st.items() if a[0] not in ('none', 'e')} for st in R.act]
    want = []
    for w in ws:
        x = sim.parse(lr, act, w, limit=1500)
        if x[0] is None:
            raise Discard('endless reductions')
        want.append(x)
    exe = lemon.cc(ctx, d, 'g.c', 'p', flags=['-O0'])
    idx = {t: i for i, t in enumerate(g.terms, 1)}
    out = lemon.run_lines(ctx, exe, [' '.join(str(idx[t]) for t in w) for w in ws], d)
    for w, o, (acc, red, pos) in zip(ws, out, want):
        p = o.split()
        if '=O' in o:
            continue
        red = ['r%d' % r for r in red if r in code]
        if acc:
            if p != red + ['=A@%d' % (len(w) + 1)]:
                V('on %s: expected %s and acceptance, got %s' % (' '.join(w), ' '.join(red), o), 'sentence')
        else:
            e = [x for x in p if x[0] in 'E=']
            if not e or e[0] != 'E@%d' % (pos + 1):
                V('on %s: expected a syntax error at token %d, got %s' % (' '.join(w), pos + 1, o), 'error')
            if p[:len(red)] != red:
                V('on %s: expected the reductions %s, got %s' % (' '.join(w), ' '.join(red), o), 'reductions')
        ctx.ev()
    ctx.label('executed')


SPEC = dict(
    tests={
        'small': (check, 3500, 60000),
        'big': (lambda c, x: check(c, x, True), 250, 6000),
        'multi': (lambda c, x: check(c, x, False, True), 1500, 25000),
    },
    rule='a case is a random grammar with precedences (%left, %right, %nonassoc, %precedence, [TOKEN] marks), mostly ambiguous, a random set of options '
         '(-z, %yacc_prec, -u, -c, -r, -l, -q, -p) and %expect; number and kind of conflicts, lines of the rules never reduced, and exit status are compared '
         'with the rules of the documentation applied to the reference LALR(1) automaton; a third of the parsers are compiled and run on sentences, mutated '
         'and short strings. Non-trivial: at least one conflict or resolution; distinct by text',
    assumptions=['the reference LALR(1) construction in vlib/gram.py', 'parsers are run only for grammars without endless reductions (a symbol that derives itself)'],
)
