"""Y15: the lemon export (-E) gives lemon an equivalent grammar."""
import re
from vlib import byacc, export, gen, lemon, sim
from vlib.engine import Violation, Discard
from vlib.gram import Grammar, Rule, LR, Earley
from props.y14 import ctx_read

START = 'x_start_rule_'


def read_lemon(text, V):
    """(tokens, levels, start, rules) of a lemon grammar without code, read without lemon"""
    toks = [t for t in export.scan(text) if t[0] != 'cm']
    at = 0
    tokens, levels, start, rules = [], [], None, []

    def names():
        nonlocal at
        a = []
        while at < len(toks) and toks[at][0] == 'name' and toks[at][1] != '.':
            a.append(toks[at][1])
            at += 1
        return a

    def dot():
        nonlocal at
        if at >= len(toks) or toks[at][1] != '.':
            V('no . behind %r' % (toks[at - 1],), 'text')
        at += 1
    while at < len(toks):
        k = toks[at][1]
        at += 1
        if k == '%token':
            tokens += names()
            dot()
        elif k in ('%left', '%right', '%nonassoc', '%precedence'):
            levels.append((k, names()))
            dot()
        elif k == '%start_symbol':
            if start or at >= len(toks):
                V('%start_symbol', 'text')
            start = toks[at][1]
            at += 1
        elif toks[at - 1][0] == 'name':
            if at >= len(toks) or toks[at][1] != '::=':
                V('no rule begins with %r' % k, 'text')
            at += 1
            rhs = names()
            dot()
            prec = None
            if at < len(toks) and toks[at][1] == '[':
                prec = toks[at + 1][1]
                if toks[at + 2][1] != ']':
                    V('strange precedence', 'text')
                at += 3
            rules.append((k, tuple(rhs), prec))
        else:
            V('unexpected %r' % k, 'text')
    return tokens, levels, start, rules


def renamed(s):
    """the grammar as the export should have it"""
    m = {}
    for t in set(s.terms) | set(s.names) | {'error'}:
        m[t] = export.lemon_token(t)
    for a in s.nts:
        m[a] = export.lemon_nt(a)
    if len(set(m.values())) < len(m):
        raise Discard('two names become one')
    rules = [Rule(m[r.lhs], [m[x] for x in r.rhs], r.prec and m[r.prec]) for r in s.rules]
    start = m[s.start]
    if any(start in r.rhs for r in rules):
        if START in m.values():
            raise Discard('start')
        rules.insert(0, Rule(START, [start]))
        start = START
    terms = [m[t] for t in s.terms]
    if any('error' in r.rhs for r in s.rules):
        terms.append('Tk_error')
    g = Grammar(terms, rules, start, {m[t]: p for t, p in s.prec.items()})
    g.known = sorted({m[t] for t in s.names if t[0] != '"'} | {x for r in rules for x in r.rhs if x in terms} | {m[t] for t in s.prec})
    g.listed = sorted(m[t] for t in s.names if t != 'error' and t[0] != '"')
    return g


def export_of(c, ctx, d, text, s):
    var = c.pick(['btyacc', 'yacc'])
    z = c.bool(1, 4)
    o = [c.pick(['-E', '-E', '--lemon'])] + (['-z'] if z else [])
    name = 'y'
    if c.bool(1, 5):
        name = 'q1'
        o += ['-b', name]
    elif c.bool(1, 5):
        name = 'q2'
        o += ['-o', 'q2.c']
    p = byacc.yacc(ctx, var, d, text, o)
    if p.rc:
        raise Violation('%s -E rejects the grammar: %s' % (var, p.errs[:600]), 'rejected')
    exp = ctx_read(d, name + '.yl')
    ctx.files['y.yl'] = exp
    return var, z, exp


def check(c, ctx):
    g = export.grammar(c)
    text, s = export.spec(c, g)
    d = ctx.dir()
    s2 = renamed(s)
    var, z, exp = export_of(c, ctx, d, text, s)

    def V(m, k):
        raise Violation('%s -E: %s' % (var, m), k)
    tokens, levels, start, rules = read_lemon(exp, V)
    if sorted(tokens) != s2.listed:
        V('%%token lists %s instead of %s' % (sorted(tokens), s2.listed), 'tokens')
    byl = {}
    for t, (l, a) in s2.prec.items():
        byl.setdefault(l, (a, []))[1].append(t)
    wl = [(byacc.ASSOC[byl[l][0]], sorted(byl[l][1])) for l in sorted(byl)]
    if [(k, sorted(a)) for k, a in levels] != wl:
        V('precedence levels %s instead of %s' % (levels, wl), 'levels')
    if start != s2.start:
        V('%%start_symbol %s instead of %s' % (start, s2.start), 'start')
    wr = [(r.lhs, r.rhs, r.prec) for r in s2.rules]
    if rules != wr:
        for x, y in zip(rules + [None], wr + [None]):
            if x != y:
                break
        V('rule %s instead of %s' % (x, y), 'rules')
    ctx.ev(len(rules))
    # what lemon makes of it
    try:
        lr = LR(s2, limit=400)
    except OverflowError:
        raise Discard('large')
    R = lemon.resolve(lr, s2, yacc=not z)
    d2 = ctx.dir()
    tail = ''
    run = not any(a[0] == 'none' for st in R.act for a in st.values()) and not lemon.endless(s2) and c.bool(1, 4)
    if run:
        inc = '#include <stdio.h>\n#include <stdlib.h>\n#include <assert.h>\n#include "g.h"\nstatic int cur;\n'
        tail = '\n' + lemon.TRACE_PRE.replace('#include <stdio.h>\n#include <stdlib.h>\n#include <assert.h>\nstatic int cur;\n', inc) \
            + lemon.TRACE_POST.replace('TOKCODES', lemon.tokcodes(s2.known))
    p = lemon.run(ctx, d2, exp + tail, [] if z else ['-z'])
    left = [l for l in p.errs.splitlines() if l.strip() and 'This rule can not be reduced' not in l and 'parsing conflicts' not in l]
    if left:
        V('lemon says about the export: ' + left[0][:300], 'lemon-error')
    m = re.search(r'^(\d+) parsing conflicts', p.errs, re.M)
    n = int(m.group(1)) if m else 0
    if n != R.SR + R.RR:
        V('lemon finds %d conflicts in the export, the grammar has %d' % (n, R.SR + R.RR), 'conflicts')
    k = p.errs.count('This rule can not be reduced')
    if k != len(R.unused):
        V('lemon finds %d rules that are never reduced instead of %d' % (k, len(R.unused)), 'unused')
    if (p.rc != 0) != bool(n or k):
        V('lemon exits with %d' % p.rc, 'exit')
    ctx.ev()
    if run:
        runs(c, ctx, d2, s2, lr, R, V)
    for k, v in [('mid-rule actions', len(g.rules) > len(s.rules)), ('precedences', s.prec), ('string tokens', any(t[0] == '"' for t in s.terms)),
                 ('%prec', any(r.prec for r in s.rules)), ('error rules', any('error' in r.rhs for r in s.rules)), ('conflicts', n),
                 ('start rule added', start == START), ('-z', z), ('executed', run)]:
        if v:
            ctx.label(k)
    if len(s.rules) > 2 and (s.prec or n or lr.n > 6):
        ctx.nontrivial(text)
    ctx.sample(exp[:300])


def runs(c, ctx, d, g, lr, R, V):
    ws = sim.inputs_for(c, g, 14, 20, depth=7, exhaustive=40)
    ws = [w for w in ws if all(t in g.known for t in w)]
    act = [{t: a for t, a in st.items() if a[0] not in ('none', 'e')} for st in R.act]
    exe = lemon.cc(ctx, d, 'g.c', 'p', flags=['-O0'])
    idx = {t: i for i, t in enumerate(g.known, 1)}
    want = []
    for w in ws:
        acc = sim.parse(lr, act, w, limit=1500)[0]
        if acc is None:
            raise Discard('endless reductions')
        want.append(acc)
    out = lemon.run_lines(ctx, exe, [' '.join(str(idx[t]) for t in w) for w in ws], d)
    for w, o, acc in zip(ws, out, want):
        p = o.split()
        if '=O' in o:
            continue
        got = '=A@%d' % (len(w) + 1) in p and not any(x[0] == 'E' for x in p)
        if got != acc:
            V('the parser that lemon makes of the export %s %s: %s' % ('accepts' if got else 'rejects', ' '.join(w), o), 'language')
        ctx.ev()
    if 0 < sum(want) < len(want):
        ctx.label('executed: accepts and rejects')


def probe_collision(ctx):
    """a token a and the character 'a' are the same token for lemon"""
    text = "%token a\n%%\ns : a 'b' | 'a' 'c' ;\n"
    d = ctx.dir()
    byacc.yacc(ctx, 'btyacc', d, text, ['-E'])
    exp = ctx_read(d, 'y.yl')
    rules = re.findall(r'::= (\S+) ', exp)
    return len(set(rules)) < 2


SPEC = dict(
    tests={'export': (check, 9000, 60000)},
    probes={'name-collision': probe_collision},
    rule='a random grammar (conflicts, precedences, %prec, mid-rule actions, error rules, recursive start symbols; character, escaped, string, dotted, '
         'capital and very long names) dressed with tags, token numbers, actions and directives is exported with -E; the export is read by an independent '
         'parser and compared with the grammar without its actions under the documented names, given to lemon (messages, number of conflicts and of rules '
         'never reduced against the reference automaton), and in a quarter of the cases the parser made by lemon is compiled and run on sentences, mutated '
         'sentences and exhaustive short strings. Non-trivial: at least 3 rules and precedences, conflicts or more than 6 states; distinct by text',
    assumptions=['lemon takes the precedence of a rule from its first terminal with a precedence, byacc from its last: the export is used with lemon -z, or '
                 'made with byacc -z', 'error is an ordinary token in the export (lemon has another recovery)', 'names that differ before the export differ in it'],
)
