"""L05: reprinting a grammar with lemon -g preserves it and is stable."""
import re
from vlib import lemon
from vlib.lgram import Multi
from vlib.engine import Violation, Discard
from vlib.gram import Grammar, Rule, LR
from props import l02
from props.y12 import first_diff
from props.y14 import ctx_read


def read(text, V):
    """declarations and rules of a reprint, read without lemon"""
    text = re.sub(r'/\*.*?\*/', ' ', re.sub(r'(?m)^//.*$', '', text), flags=re.S)
    toks = re.findall(r'::=|%\w+|\{[^{}]*\}|[|/]?\w+|\S', text)
    at, out, rules = 0, [], []
    while at < len(toks):
        k = toks[at]
        at += 1
        if k in ('%start_symbol', '%stack_size', '%expect'):
            out.append((k, toks[at].strip('{}').strip()))
            at += 1
            continue
        if k == '%yacc_prec':
            out.append((k, ''))
            continue
        l = []
        if k[0] == '%':
            while at < len(toks) and toks[at] != '.':
                l.append(toks[at])
                at += 1
            at += 1
            out.append((k, l))
            continue
        if toks[at:at + 1] != ['::=']:
            V('no rule begins with %r' % k, 'text')
        at += 1
        while at < len(toks) and toks[at] != '.':
            if toks[at][0] in '|/':
                if not l or toks[at] in '|/':
                    V('strange multi-terminal', 'text')
                l[-1] = l[-1] + (toks[at][1:],)
            else:
                l.append((toks[at],))
            at += 1
        at += 1
        mark = None
        if toks[at:at + 1] == ['[']:
            mark = toks[at + 1]
            if toks[at + 2] != ']':
                V('strange mark', 'text')
            at += 3
        rules.append((k, tuple(l), mark))
    return out, rules


def check(c, ctx, big=False):
    g0 = l02.grammar(c, big)
    if len(g0.rules) > 1 and c.bool(1, 3):
        rules = list(g0.rules)
        rules = c.shuffle(rules)
        g0 = Grammar(g0.terms, rules, g0.start, g0.prec)
    M = Multi(c, g0, *c.pick([(0, 1), (1, 6), (1, 2)]))
    g = M.g
    named = [t for t in g0.all_terms() if t != 'error']
    opts = c.subset(['-z', '-u'], 1, 6)
    u = '-u' in opts
    decl = [lemon.decls(Grammar(named, g.rules, g.start, g.prec), start=g.rules[0].lhs != g.start or c.bool()), M.decls()]
    fb = {}
    if c.bool(1, 3):
        pool = list(named)
        pool = c.shuffle(pool)
        for i in range(c.int(1, 3)):
            if len(pool) > 1 and len(named) > 1:
                to = c.pick([t for t in named if t != pool[0]])
                k = pool[:c.int(1, 3)]
                k = [t for t in k if t != to]
                pool = [t for t in pool if t not in k]
                for t in k:
                    fb[t] = to
                decl.append('%%fallback %s %s.\n' % (to, ' '.join(k)))
        # no circles
        for t in fb:
            x, n = t, 0
            while x in fb:
                x, n = fb[x], n + 1
                if n > len(fb):
                    raise Discard('circle')
    wild = c.pick(named) if c.bool(1, 5) else None
    if wild:
        decl.append('%%wildcard %s.\n' % wild)
    stack = c.pick([0, 7, 300]) if c.bool(1, 4) else None
    if stack is not None:
        decl.append(c.pick(['%%stack_size %d\n', '%%stack_size { %d }\n', '%%stack_size "%d"\n']) % stack)
    expect = c.draw(4) if c.bool(1, 5) else None
    if expect is not None:
        decl.append('%%expect %d\n' % expect)
    yp = '-z' in opts
    if c.bool(1, 8):
        yp = True
        decl.append('%yacc_prec\n')
    dress = c.bool(1, 3)
    labels = {}
    if dress:
        decl.insert(0, '%name Foo\n%include { /* A ::= B. */ }\n%token_type {int}\n%token_prefix TK_\n%extra_argument {int *p}\n%default_destructor { (void)$$; }\n')
        body = []
        for r in g.rules:
            lab = {k: 'X%d' % k for k in range(len(r.rhs)) if c.bool(1, 4)}
            a = c.pick(['', ' {  }', '\n{ if (1) { "}"; } }'])
            body.append(M.rule_text(r, lab, 'L') + ' { L = f(%s); }' % ','.join(lab.values()) if lab else M.rule_text(r) + a)
    else:
        body = [M.rule_text(r) for r in g.rules]
    text = ''.join(decl) + '\n'.join(body) + '\n'
    d = ctx.dir()
    p = lemon.run(ctx, d, text, ['-g', '-l'] + opts)
    exp = p.outs
    ctx.files['export.lem'] = exp

    def V(m, k):
        raise Violation('lemon -g %s: %s' % (' '.join(opts), m), k)
    out, rules = read(exp, V)
    D = {}
    for k, l in out:
        D.setdefault(k, []).append(l)
    if sorted(x for l in D.get('%token', []) for x in l) != sorted(named):
        V('%%token lists %s instead of %s' % (D.get('%token'), sorted(named)), 'tokens')
    got = {}
    for l in D.get('%fallback', []):
        for t in l[1:]:
            if t in got:
                V('two fallbacks of %s' % t, 'fallback')
            got[t] = l[0]
    if got != fb:
        V('fallbacks %s instead of %s' % (got, fb), 'fallback')
    for k, want in [('%wildcard', [[wild]] if wild else []), ('%start_symbol', [g.start]), ('%stack_size', [str(stack)] if stack is not None else []),
                    ('%expect', [str(expect)] if expect is not None else []), ('%yacc_prec', [''] if yp else [])]:
        if D.get(k, []) != want:
            V('%s: %s instead of %s' % (k, D.get(k), want), k[1:])
    byl = {}
    for t, (l, a) in g.prec.items():
        byl.setdefault(l, (a, []))[1].append(t)
    wl = [] if u else [(lemon.ASSOC[byl[l][0]], sorted(byl[l][1])) for l in sorted(byl)]
    if [(k, sorted(l)) for k, l in out if k in lemon.ASSOC.values()] != wl:
        V('levels %s instead of %s' % ([x for x in out if x[0] in lemon.ASSOC.values()], wl), 'levels')
    want = [(r.lhs, tuple(tuple(M.alts.get(s, [s])) for s in r.rhs), None if u else r.prec) for r in g.rules]
    if rules != want:
        for x, y in zip(rules + [None], want + [None]):
            if x != y:
                break
        V('rule %s instead of %s' % (x, y), 'rules')
    ctx.ev(len(want) + 6)
    # lemon on the reprint
    d2 = ctx.dir()
    p2 = lemon.run(ctx, d2, exp, ['-g', '-l'])
    if p2.outs != exp:
        V('the reprint of the reprint differs\n' + (first_diff(exp, p2.outs) if p2.outs else p2.errs[:400]), 'stable')
    n1 = re.search(r'^(\d+) parsing conflicts', p.errs, re.M)
    n2 = re.search(r'^(\d+) parsing conflicts', p2.errs, re.M)
    if (n1 and n1.group(1)) != (n2 and n2.group(1)) or p.rc != p2.rc:
        V('the grammar has %s conflicts and status %d, the reprint %s and %d' % (n1 and n1.group(1), p.rc, n2 and n2.group(1), p2.rc), 'conflicts')
    same = not dress
    if same and M.alts:
        # which of two shifts of one token wins is not specified
        try:
            l02.MLR(M, 1500)
        except (Discard, OverflowError):
            same = False
            ctx.label('not compared: overlapping shifts')
    if same:
        o1, o2 = ctx_read(d, 'g.out'), ctx_read(d2, 'g.out')
        if o1 != o2:
            V('the reports differ\n' + first_diff(o1, o2), 'report')
        o1, o2 = ctx_read(d, 'g.c'), ctx_read(d2, 'g.c')
        if o1 != o2:
            V('the parsers differ\n' + first_diff(o1, o2), 'parser')
        ctx.ev(2)
    for k, v in [('multi-terminals', M.alts), ('token classes', M.classes), ('precedences', g0.prec), ('start symbol elsewhere', g0.rules[0].lhs != g0.start), ('fallback', fb),
                 ('wildcard', wild), ('%expect', expect), ('stack_size', stack is not None), ('conflicts', n1), ('error', 'error' in g.terms), ('dressed', dress)] + [(o, 1) for o in opts]:
        if v:
            ctx.label(k)
    if len(want) > 2:
        ctx.nontrivial(text)
    ctx.sample(exp[-300:])


SPEC = dict(
    tests={
        'small': (check, 15000, 80000),
        'big': (lambda c, x: check(c, x, True), 400, 5000),
    },
    rule='a case is a random lemon grammar with precedences, marks, multi-terminals, token classes, fallbacks, wildcard, %stack_size, %expect, %yacc_prec and a start '
         'symbol anywhere; the text of -g is read by an independent parser and compared declaration by declaration and rule by rule; lemon on it must print the same '
         'text, find as many conflicts, and for grammars without code write the same report and the same parser. Non-trivial: at least 3 rules; distinct by text',
    assumptions=[],
)
