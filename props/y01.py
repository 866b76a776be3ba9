"""Y01: generated parsers accept exactly the language and reduce along the derivation."""
from vlib import byacc, gen, sim
from vlib.engine import Violation, Discard
from vlib.gram import LR, Earley, Grammar

VARIANTS = [('yacc', ()), ('btyacc', ()), ('btyacc', ('-B',))]


def _grammar(c, kind):
    nm = gen.Names(c, lits=c.bool(2, 3))
    if kind == 'random':
        g = gen.random_grammar(c, nm, big=c.bool(1, 4))
    elif kind == 'struct':
        g = gen.structured_grammar(c, nm, 1, 7)
    elif kind == 'contexts':
        g = gen.context_grammar(c, nm)
    else:
        g = gen.big_grammar(c, nm=nm, lo=8, hi=45)
    if c.bool(3, 4):
        g = gen.prune_unproductive(g)
        if g is None:
            raise Discard('start symbol derives nothing')
    if not g.terms:
        raise Discard('no terminals')
    return g


def check(c, ctx, kind):
    g = _grammar(c, kind)
    for attempt in range(4 if kind != 'big' else 1):
        lr = LR(g)
        act = sim.conflict_free_actions(lr)
        if act is not None:
            break
        # remove a conflicting reduction's rule and try again
        bad = None
        for q in range(lr.n):
            for t, l in lr.raw_actions(q).items():
                if len(l) > 1:
                    bad = l[-1][1]
                    break
            if bad is not None:
                break
        if bad is None or bad == 0:
            break
        rules = [r for i, r in enumerate(g.rules, 1) if i != bad]
        if not any(r.lhs == g.start for r in rules):
            break
        nts = {r.lhs for r in rules}
        keep = []
        ok = set(g.terms) | nts
        rules = [r for r in rules if all(s in ok for s in r.rhs)]
        if not any(r.lhs == g.start for r in rules):
            break
        g2 = gen.prune_unproductive(Grammar(g.terms, rules, g.start))
        if g2 is None or not g2.terms:
            break
        g = g2
    if kind == 'big' and act is None:
        # drop the alternatives of the start symbol whose parts conflict
        for _ in range(8):
            badnts = set()
            for q in range(lr.n):
                for t, l in lr.raw_actions(q).items():
                    if len(l) > 1:
                        badnts |= {lr.rules[a[1]][0] for a in l if a[0] == 'r'}
            ch = True
            while ch:
                ch = False
                for r in g.rules:
                    if r.lhs not in badnts and r.lhs != g.start and any(s in badnts for s in r.rhs):
                        badnts.add(r.lhs)
                        ch = True
            badnts.discard(g.start)
            rules = [r for r in g.rules if not any(s in badnts for s in r.rhs) and not (r.lhs == g.start and g.start in r.rhs and g.start in r.rhs[1:])]
            if len(rules) == len(g.rules) or not any(r.lhs == g.start for r in rules):
                break
            g2 = gen.prune_unproductive(Grammar(g.terms, rules, g.start))
            if g2 is None:
                break
            g = g2
            lr = LR(g)
            act = sim.conflict_free_actions(lr)
            if act is not None:
                break
    if act is None:
        raise Discard('grammar is not LALR(1)')
    ctx.label('states %s' % _bucket(lr.n))
    ctx.label('terminals %s' % _bucket(len(g.terms) + 2))
    ctx.label('rules %s' % _bucket(len(g.rules)))
    small = lr.n < 40
    ws = sim.inputs_for(c, g, 14 if small else 40, 22 if small else 50, depth=8,
                        exhaustive=(60 if small else 0))
    var, opts = c.pick(VARIANTS)
    ctx.label(var + ' '.join(opts))
    d = ctx.dir()
    p = byacc.yacc(ctx, var, d, byacc.trace_spec(g), opts)
    if p.rc != 0:
        raise Violation('byacc rejects a conflict-free grammar: %s' % p.errs, 'reject')
    if 'conflict' in p.errs:
        raise Violation('byacc reports conflicts for an LALR(1) grammar: %s' % p.errs, 'conflict')
    exe = byacc.cc(ctx, d, 'y.tab.c', 'p')
    idx = {t: i for i, t in enumerate(g.terms, 1)}
    bad_tok = len(g.terms) + 1
    lines = [' '.join(str(idx[t]) for t in w) for w in ws]
    out = byacc.run_lines(ctx, exe, lines, d)
    ear = Earley(g)
    nacc = 0
    near = 0
    for k, (w, o) in enumerate(zip(ws, out)):
        acc, red, pos = sim.parse(lr, act, w)
        parts = o.split()
        got = [int(x[1:]) for x in parts if x[0] == 'r']
        rc = [x for x in parts if x[0] == '=']
        errs = [x for x in parts if x[0] == 'E']
        ctx.ev()
        if len(w) <= 14 and near < 10 and (k % 3 == 0 or acc) and kind != 'big':
            near += 1
            e = ear.accepts(w)
            if e != acc:
                raise AssertionError('reference parser disagrees with Earley on %r' % (w,))
        if acc:
            nacc += 1
            if rc != ['=0'] or errs:
                raise Violation('sentence rejected: %s\n got %s' % (' '.join(w), o), 'reject-sentence')
            if got != red or not sim.replay(g, got, w):
                raise Violation('wrong derivation for %s\n expected reductions %s\n got %s' % (' '.join(w), red, o), 'derivation')
        else:
            if rc != ['=1']:
                raise Violation('non-sentence accepted: %s\n got %s' % (' '.join(w), o), 'accept-nonsentence')
            if errs != ['E@%d' % (pos + 1)]:
                raise Violation('error reported at the wrong token for %s: expected after reading %d tokens, got %s' % (' '.join(w), pos + 1, o), 'error-pos')
        if 'LEX-PAST-END' in o:
            raise Violation('the parser reads past the end of the input', 'past-end')
    ctx.label('accepted', nacc)
    ctx.label('rejected', len(ws) - nacc)
    if nacc >= 3 and len(ws) - nacc >= 3 and len(g.rules) >= 3:
        ctx.nontrivial(g.key() + var + str(opts))
        ctx.sample(str(g) + '\n' + '\n'.join('%s -> %s' % (' '.join(w), o) for w, o in list(zip(ws, out))[:6]))


def _bucket(n):
    for b in (8, 16, 32, 64, 128, 256, 512, 1024):
        if n <= b:
            return '<=%d' % b
    return '>1024'


SPEC = dict(
    tests={
        'random': (lambda c, x: check(c, x, 'random'), 1200, 14000),
        'struct': (lambda c, x: check(c, x, 'struct'), 1400, 16000),
        'contexts': (lambda c, x: check(c, x, 'contexts'), 700, 6000),
        'big': (lambda c, x: check(c, x, 'big'), 60, 1200),
    },
    setup=lambda tier: (byacc.tool('yacc'), byacc.tool('btyacc')),
    rule='a case is a generated LALR(1) grammar, compiled with yacc, btyacc or btyacc -B, and a set of sentences, '
         'mutated sentences and exhaustive short strings; non-trivial: at least 3 rules and at least 3 accepted and 3 '
         'rejected inputs; distinct by grammar and variant',
    assumptions=['the reference LALR(1) construction and Earley recogniser in vlib/gram.py (cross-checked against each other on every run)',
                 'gcc compiles the generated parser correctly'],
)
