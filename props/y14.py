"""Y14: the naked-grammar export (-n) is an equivalent grammar without actions."""
import os, re
from vlib import byacc, export, gen
from vlib.engine import Violation, Discard
from vlib.gram import Grammar, Rule, LR
from props.y02 import verify_rules, verify_states
from props.y12 import first_diff


def read_grammar(text, V):
    """(tokens, levels, start, rules) of an export, read without byacc; V(msg, key) raises"""
    toks = [t for t in export.scan(text) if t[0] != 'cm']
    at = 0
    tokens, levels, start = [], [], None
    while at < len(toks) and toks[at][1] != '%%':
        k = toks[at][1]
        if k not in ('%token', '%left', '%right', '%nonassoc', '%precedence', '%start'):
            V('unexpected %r in the declarations' % k, 'text')
        at += 1
        a = []
        while at < len(toks) and toks[at][0] in ('name', 'lit', 'str'):
            a.append(toks[at][1])
            at += 1
        if k == '%token':
            tokens += a
        elif k == '%start':
            if start or len(a) != 1:
                V('%start ' + ' '.join(a), 'text')
            start = a[0]
        else:
            levels.append((k, a))
    at += 1
    rules = []
    while at < len(toks):
        if toks[at][1] == ';':
            at += 1
            continue
        lhs = toks[at][1]
        if toks[at][0] != 'name' or at + 1 >= len(toks) or toks[at + 1][1] != ':':
            V('no rule begins with %r' % lhs, 'text')
        at += 2
        rhs, prec = [], None
        while True:
            if at >= len(toks):
                V('no ; at the end', 'text')
            k, t = toks[at]
            at += 1
            if t in '|;':
                rules.append((lhs, tuple(rhs), prec))
                rhs, prec = [], None
                if t == ';':
                    break
            elif t == '%prec':
                if prec or toks[at][0] not in ('name', 'lit', 'str'):
                    V('strange %prec', 'text')
                prec = toks[at][1]
                at += 1
            elif k in ('name', 'lit', 'str') and not prec:
                rhs.append(t)
            else:
                V('unexpected %r in a rule' % t, 'text')
    return tokens, levels, start, rules


def compare(text, s, V, error=False):
    """the text against the grammar s"""
    tokens, levels, start, rules = read_grammar(text, V)
    want = [t for t in s.names if t != 'error'] + (['error'] if error else [])
    if sorted(tokens) != sorted(set(want)):
        V('%%token lists %s instead of %s' % (sorted(tokens), sorted(set(want))), 'tokens')
    byl = {}
    for t, (l, a) in s.prec.items():
        byl.setdefault(l, (a, []))[1].append(t)
    wl = [(byacc.ASSOC[byl[l][0]], sorted(byl[l][1])) for l in sorted(byl)]
    if [(k, sorted(a)) for k, a in levels] != wl:
        V('precedence levels %s instead of %s' % (levels, wl), 'levels')
    if start != s.start:
        V('%%start %s instead of %s' % (start, s.start), 'start')
    wr = [(r.lhs, r.rhs, r.prec) for r in s.rules]
    if rules != wr:
        for x, y in zip(rules + [None], wr + [None]):
            if x != y:
                break
        V('rule %s instead of %s' % (x, y), 'rules')


def naked(c, ctx):
    g = export.grammar(c)
    text, s = export.spec(c, g)
    var = c.pick(['btyacc', 'yacc'])
    d = ctx.dir()
    d2 = ctx.dir()
    d3 = ctx.dir()
    o = [c.pick(['-n', '-n', '--naked'])]
    name = 'y'
    if c.bool(1, 5):
        name = 'q1'
        o += ['-b', name]
    elif c.bool(1, 5):
        name = 'q2'
        o += ['-o', 'q2.c']
    p = byacc.yacc(ctx, var, d, text, o)
    if p.rc:
        raise Violation('%s -n rejects the grammar: %s' % (var, p.errs[:600]), 'rejected')
    exp = ctx_read(d, name + '.yn')
    ctx.files['y.yn'] = exp

    def V(m, k):
        raise Violation('%s -n: %s' % (var, m), k)
    compare(exp, s, V)
    ctx.ev(len(s.rules))
    # byacc on the export: same automaton, same conflicts
    p2 = byacc.yacc(ctx, var, d2, exp, ['-v', '-n'], 'y.yn.y')
    if p2.rc:
        V('byacc rejects the export: %s' % p2.errs[:600], 'rejected-export')
    exp2 = ctx_read(d2, 'y.yn')
    if len(g.rules) > len(s.rules):
        # a rule in front of which a mid-rule action stood begins a new group in the first export
        p3 = byacc.yacc(ctx, var, d3, exp2, ['-n'], 'y.yn.y')
        compare(exp2, s, V)
        exp, exp2 = exp2, ctx_read(d3, 'y.yn')
    if exp2 != exp:
        V('the export of the export differs\n' + first_diff(exp, exp2), 'stable')
    if len(g.rules) == len(s.rules) and byacc.summary(p) != byacc.summary(p2):
        V('the grammar has %s, its export %s' % (byacc.summary(p), byacc.summary(p2)), 'conflicts')
    try:
        lr = LR(s, limit=400)
    except OverflowError:
        return
    R = byacc.resolve(lr, s)
    out = byacc.parse_output(ctx_read(d2, 'y.output'))
    verify_rules(out, s)
    verify_states(out, lr, s, R, False)
    ctx.ev(lr.n)
    # under -u and -z too
    if c.bool(1, 3):
        fl = c.pick(['-u', '-z'])
        if len(g.rules) == len(s.rules):
            a = byacc.yacc(ctx, var, d3, None if ctx.write(d3, 'g.y', text) else None, [fl])
            b = byacc.yacc(ctx, var, d3, None if ctx.write(d3, 'h.y', exp) else None, [fl], 'h.y')
            if byacc.summary(a) != byacc.summary(b):
                V('with %s the grammar has %s, its export %s' % (fl, byacc.summary(a), byacc.summary(b)), 'conflicts')
    for k, v in [('mid-rule actions', len(g.rules) > len(s.rules)), ('precedences', s.prec), ('string tokens', any(t[0] == '"' for t in s.terms)),
                 ('%prec', any(r.prec for r in s.rules)), ('error rules', any('error' in r.rhs for r in s.rules)), ('conflicts', R.SR + R.RR)]:
        if v:
            ctx.label(k)
    if len(s.rules) > 2 and (s.prec or len(g.rules) > len(s.rules) or lr.n > 6):
        ctx.nontrivial(text)
    ctx.sample(exp[:300])


def ctx_read(d, n):
    try:
        with open(os.path.join(d, n), encoding='latin-1') as f:
            return f.read()
    except FileNotFoundError:
        raise Violation('no file %s among %s' % (n, sorted(os.listdir(d))), 'file')


SPEC = dict(
    tests={'naked': (naked, 3000, 80000)},
    rule='a random grammar (conflicts, precedences, %prec, mid-rule actions, error rules; character, escaped, string, dotted, capital and very long names) '
         'dressed with tags, token numbers, actions and directives; the export is read by an independent parser and compared symbol by symbol with the '
         'grammar without its actions, fed back to byacc (y.output against the reference automaton and resolution, conflict totals against the original) '
         'and exported again. Non-trivial: at least 3 rules and precedences, mid-rule actions or more than 6 states; distinct by text',
    assumptions=['mid-rule actions are left out altogether, which is what "naked" means in this program'],
)
