"""Y03: conflicts are counted, resolved and reported by the documented rules."""
import re
from vlib import byacc, gen, sim
from vlib.engine import Violation, Discard
from vlib.gram import LR, Grammar, Rule
from props import y19


def conflict_grammar(c, big=False):
    """grammars rich in conflicts and precedence"""
    if big:
        return gen.any_grammar(c, big=True)
    k = c.draw(6)
    nm = gen.Names(c, lits=c.bool(2, 3))
    if k < 2:
        g = gen.expr_prec(c, nm, assoc='lrn' if c.bool(3, 4) else 'lr')
        if c.bool(1, 3):
            # precedence among rules that also compete with each other
            rs = list(g.rules)
            a = g.rules[-1].lhs
            for r in list(rs):
                if len(r.rhs) >= 2 and c.bool(1, 4):
                    rs.append(Rule(r.lhs + 'x' if False else a, r.rhs, c.pick(g.terms) if c.bool() else None))
            g = Grammar(g.terms, rs, g.start, g.prec)
        return g
    if k == 2:
        return competing(c, nm)
    return gen.any_grammar(c)


def competing(c, nm):
    """several nonterminals deriving the same strings: reduce/reduce conflicts with rule precedences"""
    ts = [nm.term() for _ in range(c.int(2, 5))]
    s = nm.nt()
    ns = [nm.nt() for _ in range(c.int(2, 3))]
    rules = []
    for a in ns:
        rules.append(Rule(s, [a] + ([c.pick(ts)] if c.bool() else [])))
    shared = [[c.pick(ts) for _ in range(c.int(1, 2))] for _ in range(c.int(1, 2))]
    for a in ns:
        for w in shared:
            if c.bool(5, 6):
                rules.append(Rule(a, w, c.pick(ts) if c.bool() else None))
        if c.bool(1, 3):
            rules.append(Rule(a, [a, c.pick(ts), a] if c.bool() else [c.pick(ts), a]))
    if c.bool(1, 3):
        rules.append(Rule(s, [s, c.pick(ts), s]))
    seen, out = set(), []
    for r in (c.shuffle(rules) if c.bool() else rules):
        if (r.lhs, r.rhs) not in seen:
            seen.add((r.lhs, r.rhs))
            out.append(r)
    have = {r.lhs for r in out}
    out = [r for r in out if all(x in have or x in ts for x in r.rhs)]
    if not any(r.lhs == s for r in out):
        raise Discard('empty')
    prec, lv = {}, 0
    for t in c.shuffle(ts):
        if c.bool(3, 4):
            if not lv or c.bool(2, 3):
                lv += 1
                a = c.pick('lrn')
            prec[t] = (lv, a)
    g = gen.prune_unproductive(Grammar(nm.terms, out, s, prec))
    if g is None:
        raise Discard('empty')
    # keep what precedence needs
    g = Grammar([t for t in nm.terms if t in ts], g.rules, s, prec)
    return g


def levels(c, g, var):
    """declare some single levels with %precedence where no reduction can tie on them (same meaning)"""
    return g


def setup_case(c, ctx, big=False):
    B = c.bool(1, 6)
    g = conflict_grammar(c, big)
    if not g.terms:
        raise Discard('no terminals')
    try:
        lr = LR(g, limit=1200)
    except OverflowError:
        raise Discard('too many states')
    z, u = c.bool(1, 3), c.bool(1, 6)
    var = 'btyacc' if B else c.pick(['yacc', 'btyacc'])
    R = byacc.resolve(lr, g, z=z, u=u, backtrack=B)
    opts = (['-z'] if z else []) + (['-u'] if u else []) + (['-B'] if B else [])
    return g, lr, R, opts, var, B


def expect_lines(c, R):
    es = er = None
    if c.bool(1, 3):
        es = max(0, R.SR + c.pick([0, 0, 0, 1, -1]))
    if c.bool(1, 3):
        er = max(0, R.RR + c.pick([0, 0, 0, 1, -1]))
    return es, er, ('%%expect %d\n' % es if es is not None else '') + ('%%expect-rr %d\n' % er if er is not None else '')


def check_stderr(p, g, lr, R, es, er):
    sr, rr = byacc.summary(p)
    if (sr, rr) != (R.SR, R.RR):
        raise Violation('byacc reports %d shift/reduce and %d reduce/reduce conflicts, expected %d and %d\n%s' % (
            sr, rr, R.SR, R.RR, p.errs), 'counts')
    m = re.search(r'(\d+) rules? never reduced', p.errs)
    un = int(m.group(1)) if m else 0
    if un != len(R.unused):
        raise Violation('%d rules reported as never reduced, expected %s' % (un, R.unused), 'never-reduced')
    bad = 0
    # every message about the grammar begins with the name of the program
    for l in p.errs.split('\n'):
        if re.search(r'conflicts?\.$|rules? never reduced$|^expected|^\d+ (shift|reduce)', l) and not re.match(r'(\S*/)?yacc: (\d|expected )', l):
            raise Violation('the message %r does not begin with the name of the program' % l, 'counts')
    if R.SR + R.RR:
        bad = (es is not None and es != R.SR) or (er is not None and er != R.RR)
        nt = len(byacc.spec_terms(g)) + 2
        nv = len(g.nts) + 1
        for what, exp in (('conflicts', [R.SR + R.RR]), ('terminal symbols', [nt]), ('non-terminal symbols', [nv]),
                          ('total symbols', [nt + nv]), ('rules', [len(g.rules) + 1, len(g.rules) + 3]), ('states', [lr.n])):
            m = re.search(r'(?m)^(\d+) %s$' % what, p.errs)
            if not m or int(m.group(1)) not in exp:
                raise Violation('totals on stderr: %s, expected %s %s' % (m.group(0) if m else 'nothing', exp, what), 'totals')
        for what, e, v in (('shift/reduce', es, R.SR), ('reduce/reduce', er, R.RR)):
            m = re.search(r'expected (\d+) %s conflicts?\.' % what, p.errs)
            if (m is not None) != (e is not None and e != v) or (m and int(m.group(1)) != e):
                raise Violation('wrong message about the expected number of %s conflicts (%s declared, %d found):\n%s' % (
                    what, e, v, p.errs), 'expect')
    elif es or er:
        return None     # nothing to report: byacc compares only when there are conflicts
    if (p.rc != 0) != bool(bad):
        raise Violation('exit status %d with %d/%d conflicts, %%expect %s, %%expect-rr %s' % (p.rc, R.SR, R.RR, es, er), 'exit')


def tables(c, ctx, big):
    g, lr, R, opts, var, B = setup_case(c, ctx, big)
    es, er, ex = expect_lines(c, R)
    toks, code = y19.number_tokens(c, g)
    d = ctx.dir()
    p = byacc.yacc(ctx, var, d, toks + byacc.decls(g) + ex + '%%\n' + byacc.rules_text(g), opts)
    check_stderr(p, g, lr, R, es, er)
    label(ctx, g, lr, R, opts)
    if not R.reduce_accept:
        T = byacc.parse_tables(open(d + '/y.tab.c', encoding='latin-1').read())
        T['btyacc'] = var == 'btyacc'
        y19.verify(T, lr, g, R, code, B, ctx)
    if R.SR + R.RR or g.prec:
        ctx.nontrivial(g.key() + repr(opts))
        ctx.sample('%s\n%s: %d shift/reduce, %d reduce/reduce, never reduced %s' % (g, opts, R.SR, R.RR, R.unused))


def label(ctx, g, lr, R, opts):
    ctx.label('options ' + (' '.join(opts) or 'none'))
    if R.SR:
        ctx.label('with shift/reduce conflicts')
    if R.RR:
        ctx.label('with reduce/reduce conflicts')
    raw = sum(len(l) - 1 for q in range(lr.n) for l in lr.raw_actions(q).values())
    if raw > R.SR + R.RR:
        ctx.label('with conflicts decided by precedence')
    if any(a == ('e', 0) for act in R.act for a in act.values()):
        ctx.label('with %nonassoc errors')
    if R.unused:
        ctx.label('with rules never reduced')
    ctx.ev()


def behaviour(c, ctx):
    g, lr, R, opts, var, B = setup_case(c, ctx)
    if B:
        opts.remove('-B')
        R = byacc.resolve(lr, g, z='-z' in opts, u='-u' in opts)
    if R.reduce_accept:
        raise Discard('accept/reduce conflict')
    if R.hidden:
        raise Discard('a default reduction hides a %nonassoc error (known finding)')
    es, er, ex = expect_lines(c, R)
    d = ctx.dir()
    p = byacc.yacc(ctx, var, d, byacc.trace_spec(g, ex), opts)
    check_stderr(p, g, lr, R, es, er)
    label(ctx, g, lr, R, opts)
    exe = byacc.cc(ctx, d, 'y.tab.c', 'p')
    idx = {t: i for i, t in enumerate(g.terms, 1)}
    ws, exp = [], []
    for w in sim.inputs_for(c, g, 18, 20, depth=7, maxlen=40, exhaustive=60):
        r = sim.parse_def(lr, R, w)
        if r[0] is not None:
            ws.append(w)
            exp.append(r)
    out = byacc.run_lines(ctx, exe, [' '.join(str(idx[t]) for t in w) for w in ws], d)
    nacc = 0
    for w, o, (acc, red, pos) in zip(ws, out, exp):
        ctx.ev()
        parts = o.split()
        got = [int(x[1:]) for x in parts if x[0] == 'r']
        rc = [x for x in parts if x[0] == '=']
        errs = [x for x in parts if x[0] == 'E']
        if acc:
            nacc += 1
            if rc != ['=0'] or errs or got != red:
                raise Violation('input %s: expected the reductions %s and acceptance, got %s' % (' '.join(w), red, o), 'resolution')
        elif rc != ['=1'] or errs != ['E@%d' % (pos + 1)]:
            raise Violation('input %s: expected a syntax error at token %d, got %s' % (' '.join(w), pos + 1, o), 'resolution')
    if (R.SR + R.RR or g.prec) and nacc >= 2:
        ctx.nontrivial('b' + g.key() + repr(opts))
        ctx.sample(str(g) + '\n' + '\n'.join('%s -> %s' % (' '.join(w), o) for w, o in list(zip(ws, out))[:6]))


def probe_nonassoc(ctx):
    d = ctx.dir()
    g = Grammar(["'<'", "'a'"], [Rule('e', ['e', "'<'", 'e']), Rule('e', ["'a'"])], 'e', {"'<'": (1, 'n')})
    byacc.yacc(ctx, 'yacc', d, byacc.trace_spec(g))
    exe = byacc.cc(ctx, d, 'y.tab.c', 'p')
    o = byacc.run_lines(ctx, exe, ['2 1 2 1 2'], d)
    if '=0' in o[0]:
        raise Violation('a<a<a is accepted', 'nonassoc-default-reduction')


SPEC = dict(
    tests={
        'tables': (lambda c, x: tables(c, x, False), 6500, 100000),
        'big': (lambda c, x: tables(c, x, True), 280, 3000),
        'behaviour': (behaviour, 1500, 15000),
    },
    setup=lambda tier: (byacc.tool('yacc'), byacc.tool('btyacc')),
    probes={'nonassoc-default-reduction': probe_nonassoc},
    rule='a case is a generated ambiguous or precedence grammar with options among -z -u -B and %expect lines; tables: the counts, the '
         'messages, the exit status and every table entry are compared with the reference resolution; behaviour: the compiled parser is '
         'compared with the simulated one on sentences, mutants and exhaustive short strings; non-trivial: some conflict or precedence '
         '(and two accepted inputs for behaviour); distinct by grammar and options',
    assumptions=['the reference LALR(1) construction and the resolution model in vlib/byacc.py, written from the yacc documentation',
                 'grammars where a default reduction hides a %nonassoc error are left out of the behaviour test (known finding)'],
)
