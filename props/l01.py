"""L01: generated lemon parsers accept exactly the language of the grammar."""
from vlib import lemon, gen, sim, cf
from vlib.engine import Violation, Discard
from vlib.gram import LR, Earley, Grammar, Rule


def names(c):
    return gen.Names(c, lits=False)


def grammar(c, kind):
    """conflict-free and with a start symbol that does not occur on a right-hand side"""
    g, lr, act = cf.grammar(c, nm=lambda: names(c), mx=6) if kind == 'small' else big(c)
    if any(g.start in r.rhs for r in g.rules):
        g = Grammar(g.terms, [Rule('goal', [g.start])] + g.rules if c.bool() else g.rules + [Rule('goal', [g.start])], 'goal', g.prec)
        lr = LR(g)
        act = sim.conflict_free_actions(lr)
        if act is None:
            raise Discard('goal')
    if not g.terms:
        raise Discard('no terminals')
    return g, lr, act


def big(c):
    for _ in range(6):
        g = gen.big_grammar(c, nm=names(c), lo=8, hi=45)
        g = gen.prune_unproductive(g)
        if g is None or not g.terms:
            continue
        for _ in range(8):
            lr = LR(g)
            act = sim.conflict_free_actions(lr)
            if act is not None:
                return g, lr, act
            badnts = set()
            for q in range(lr.n):
                for t, l in lr.raw_actions(q).items():
                    if len(l) > 1:
                        badnts |= {lr.rules[a[1]][0] for a in l if a[0] == 'r'}
            ch = True
            while ch:
                ch = False
                for r in g.rules:
                    if r.lhs not in badnts and r.lhs != g.start and any(s in badnts for s in r.rhs):
                        badnts.add(r.lhs)
                        ch = True
            badnts.discard(g.start)
            rules = [r for r in g.rules if not any(s in badnts for s in r.rhs) and not (r.lhs == g.start and g.start in r.rhs[1:])]
            if len(rules) == len(g.rules) or not any(r.lhs == g.start for r in rules):
                break
            g = gen.prune_unproductive(Grammar(g.terms, rules, g.start))
            if g is None:
                break
    raise Discard('no conflict-free grammar')


EDGES = [64, 127, 128, 254, 255, 256]


def sized(c):
    """a list of items, distinct words that end in SEMI: the number of symbols, or of actions, is near one at which the type of a table changes"""
    target = c.pick(EDGES) + c.int(-3, 3)
    by = c.pick(['symbols', 'symbols', 'actions', 'states'])
    big = 4 * target
    nt = target - c.int(4, 6) if by == 'symbols' else c.pick([5, 12, 40])
    ts = ['T%d' % i for i in range(1, max(nt, 3))]
    words, pre = set(), {()}
    todo = list(ts) if by == 'symbols' else []
    while True:
        if by == 'symbols':
            if not todo:
                break
            k = min(len(todo), c.int(1, 6))
            w, todo = tuple(todo[:k]), todo[k:]
        else:
            w = tuple(c.pick(ts) for _ in range(c.int(1, 5)))
            n = len(pre) + (2 * (len(words) + 3) if by == 'actions' else 0)
            if n >= target - 3 or len(words) > big:
                break
        if w not in words:
            words.add(w)
            pre |= {w[:i] for i in range(1, len(w) + 1)}
    words = c.shuffle(sorted(words))
    rules = [Rule('s', ['list']), Rule('list', []), Rule('list', ['list', 'item'])]
    more = [('MORE',)] if by == 'symbols' and target < 200 or c.bool() else []
    # the same items by two ways
    rules += [Rule('list', ['list', 'item', 'MORE'])] if more else []
    rules += [Rule('item', list(w) + ['SEMI']) for w in words]
    if not more and c.bool():
        # each item with the list before it
        rules = rules[:2] + [Rule('list', ['list'] + list(r.rhs)) for r in rules[3:]]
    used = {t for w in words for t in w}
    terms = [t for t in ts if t in used]
    terms.insert(c.pick([0, len(terms)]), 'SEMI')
    if more:
        terms.append('MORE')
    g = Grammar(terms, rules, 's', {})
    lr = LR(g)
    act = sim.conflict_free_actions(lr)
    if act is None:
        raise AssertionError('conflict')
    c.words = words
    return g, lr, act


def reachable_only(g):
    k = g.reachable()
    return Grammar(g.terms, [r for r in g.rules if r.lhs in k], g.start, g.prec)


def check(c, ctx, kind):
    g, lr, act = sized(c) if kind == 'sizes' else grammar(c, kind)
    g = reachable_only(g)       # lemon rejects rules that can never be reduced
    lr = LR(g)
    act = sim.conflict_free_actions(lr)
    if act is None:
        raise Discard('conflict')
    if not g.terms:
        raise Discard('no terminals')
    some = c.bool(1, 3)         # rules without code
    acts = {i for i in range(1, len(g.rules) + 1) if not some or c.bool()}
    opts = c.subset(['-c', '-r', '-l', '-q', '-s', '-p', '-S'], 1, 5)
    fl = c.pick([['-O0'], ['-O0', '-DNDEBUG'], ['-O0', '-DYYSTACKDEPTH=0'], ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']] if kind == 'small' else [['-O0'], ['-O0', '-DNDEBUG']])
    extra = c.pick(['', '', '%stack_size 0\n', '%stack_size 400\n', '%default_type {void*}\n'])
    ws = sim.inputs_for(c, g, 14 if kind == 'small' else 40, 22 if kind == 'small' else 50, depth=8, exhaustive=60 if kind == 'small' else 0)
    if kind == 'sizes':         # all items, in order and shuffled
        ws = [[t for x in l for t in x + ('SEMI',)] for l in ([w] for w in c.words)][:150]
        ws += [sum(c.sample(ws, 5), []) for _ in range(10)]
        ws += [w[:k] + [c.pick(g.terms)] + w[k + c.draw(2):] for w in c.sample(ws, 40) for k in [c.draw(len(w) + 1)]]
    d = ctx.dir()
    text = lemon.trace_grammar(g, extra=extra, action=lambda i, r: '{ printf(" r%d"); }' % i if i in acts else '', tokens=c.bool(2, 3))
    p = lemon.run(ctx, d, text, opts)
    if p.rc or p.errs.strip():
        raise Violation('lemon %s rejects a conflict-free grammar: %s' % (' '.join(opts), p.errs[:600]), 'reject')
    exe = lemon.cc(ctx, d, 'g.c', 'p', flags=fl)
    idx = {t: i for i, t in enumerate(g.terms, 1)}
    out = lemon.run_lines(ctx, exe, [' '.join(str(idx[t]) for t in w) for w in ws], d)
    nacc = near = 0
    ear = Earley(g)
    for k, (w, o) in enumerate(zip(ws, out)):
        acc, red, pos = sim.parse(lr, act, w)
        ctx.ev()
        if kind == 'small' and len(w) <= 14 and near < 6 and (k % 3 == 0 or acc):
            near += 1
            if ear.accepts(w) != acc:
                raise AssertionError('reference parser disagrees with Earley on %r' % (w,))
        parts = o.split()
        red = ['r%d' % r for r in red if r in acts]
        n = len(w) + 1
        if acc:
            nacc += 1
            if parts != red + ['=A@%d' % n] and depth_ok(w, extra):
                raise Violation('%s on the sentence %s: expected %s =A@%d, got %s' % (' '.join(opts), ' '.join(w), ' '.join(red), n, o), 'sentence')
        else:
            e = [i for i, x in enumerate(parts) if x[0] in 'E=']
            if '=A@%d' % n in parts and not any(x[0] == 'E' for x in parts):
                raise Violation('%s accepts the non-sentence %s: %s' % (' '.join(opts), ' '.join(w), o), 'accept')
            if not e or parts[e[0]] != 'E@%d' % (pos + 1):
                raise Violation('%s on %s: expected a syntax error at token %d, got %s' % (' '.join(opts), ' '.join(w), pos + 1, o), 'error-pos')
            if parts[:len(red)] != red:
                raise Violation('%s on %s: expected reductions %s before the error, got %s' % (' '.join(opts), ' '.join(w), ' '.join(red), o), 'derivation')
    ctx.label('accepted', nacc)
    ctx.label('rejected', len(ws) - nacc)
    ctx.label('states ' + gen.bucket(lr.n))
    for x in opts:
        ctx.label(x)
    if nacc >= 3 and len(ws) - nacc >= 3 and len(g.rules) >= 3:
        ctx.nontrivial(g.key() + str(opts))
        ctx.sample(str(g) + '\n' + '\n'.join('%s -> %s' % (' '.join(w), o) for w, o in list(zip(ws, out))[:6]))


def depth_ok(w, extra):
    return True


SPEC = dict(
    tests={
        'small': (lambda c, x: check(c, x, 'small'), 1200, 24000),
        'big': (lambda c, x: check(c, x, 'big'), 80, 1500),
        'sizes': (lambda c, x: check(c, x, 'sizes'), 400, 6000),
    },
    rule='a case is a generated LALR(1) grammar without unreachable rules (in the test sizes one whose number of symbols, states or actions is near 128 or 256), compiled with lemon (random subset of -c -r -l -q -s -p -S, some rules without '
         'code, fixed or growing stack, with and without assertions or sanitizers), and a set of sentences, mutated sentences and exhaustive short strings; '
         'the actions run, accept and the position of the first syntax error are compared with the reference LALR(1) parser. Non-trivial: at least 3 '
         'rules, 3 accepted and 3 rejected inputs; distinct by grammar and options',
    assumptions=['the reference LALR(1) construction and Earley recogniser in vlib/gram.py (cross-checked on every run)', 'gcc compiles the generated parser correctly'],
)
