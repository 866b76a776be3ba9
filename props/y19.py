"""Y19: the packed tables encode every action of the automaton and only those."""
from vlib import byacc, gen
from vlib.engine import Violation, Discard
from vlib.gram import LR, Rule, Grammar


def number_tokens(c, g):
    """random explicit token numbers; returns (declarations, {term: code})"""
    used = {0, 256}
    code = {}
    decl = []
    for t in g.all_terms():
        if byacc.is_lit(t):
            code[t] = ord(t[1])
            used.add(ord(t[1]))
    mode = c.draw(4)
    for t in g.all_terms():
        if byacc.is_lit(t):
            continue
        if mode and c.bool(1, 3):
            if mode == 1:
                v = c.int(1, 600)
            elif mode == 2:
                v = c.int(257, 1200)
            else:
                v = c.pick([1, 2, 127, 128, 129, 254, 255, 257, 258, 300, 511, 512, 1000, 1024, 4000, 8191, 20000])
            if v not in used:
                used.add(v)
                code[t] = v
                decl.append('%%token %s %d' % (t, v))
    n = 257
    for t in g.all_terms():
        if t not in code:
            while n in used:
                n += 1
            used.add(n)
            code[t] = n
            decl.append('%%token %s' % t)
    # order of declaration decides the automatic numbers: keep that order
    return '\n'.join('%%token %s%s' % (t, ' %d' % code[t] if ('%%token %s %d' % (t, code[t])) in decl else '')
                     for t in g.all_terms() if not byacc.is_lit(t)) + '\n', code


def error_rules(c, g):
    """add error productions"""
    rules = list(g.rules)
    nts = [x for x in g.nts if x[:2] != '$$']
    for _ in range(c.draw(3)):
        a = c.pick(nts)
        rhs = ['error'] + ([c.pick(g.terms)] if c.bool(2, 3) else [])
        if not any(r.lhs == a and list(r.rhs) == rhs for r in rules):
            rules.append(Rule(a, rhs))
    return Grammar(g.terms, rules, g.start, g.prec)


def check(c, ctx, big):
    B = c.bool(1, 4)
    g = gen.any_grammar(c, big=big, mid=not B)
    if not g.terms:
        raise Discard('no terminals')
    if c.bool(1, 4):
        g = error_rules(c, g)
    try:
        lr = LR(g, limit=1500)
    except OverflowError:
        raise Discard('too many states')
    var = 'btyacc' if B else c.pick(['yacc', 'btyacc'])
    R = byacc.resolve(lr, g, backtrack=B)
    if R.reduce_accept:
        raise Discard('accept/reduce conflict (cyclic start symbol)')
    toks, code = number_tokens(c, g)
    spec = toks + byacc.decls(g).replace('%token', '%token') + '%%\n' + byacc.rules_text(
        g, (lambda i, r: '{ a(%d); }' % i) if any(r.lhs[:2] == '$$' for r in g.rules) else None)
    d = ctx.dir()
    p = byacc.yacc(ctx, var, d, spec, ['-B'] if B else [])
    if p.rc != 0:
        raise Violation('byacc rejects the grammar: ' + p.errs, 'reject')
    text = open(d + '/y.tab.c', encoding='latin-1').read()
    T = byacc.parse_tables(text)
    T['btyacc'] = var == 'btyacc'
    verify(T, lr, g, R, code, B, ctx)
    ctx.label('states ' + gen.bucket(lr.n))
    ctx.label('table size ' + gen.bucket(T['YYTABLESIZE']))
    ctx.label(var + (' -B' if B else ''))
    if any(R.multi):
        ctx.label('with conflicts')
    if lr.n >= 8:
        ctx.nontrivial(g.key() + repr(sorted(code.items())) + var)
        ctx.sample(str(g) + '\ntoken numbers %r' % code)


def verify(T, lr, g, R, code, B, ctx):
    lo, hi = byacc.INT_RANGE[T['YYINT']]
    for n, v in T.items():
        if isinstance(v, list) and v and (min(v) < lo or max(v) > hi):
            raise Violation('yy%s has entries outside the range of its type %s' % (n, T['YYINT']), 'range')
    ns = lr.n
    for n in ('defred', 'sindex', 'rindex') + (('stos', 'cindex') if T['btyacc'] else ()):
        if len(T[n]) != ns:
            raise Violation('yy%s has %d entries, the automaton %d states' % (n, len(T[n]), ns), 'length')
    nr = len(g.rules) + 1
    if len(T['lhs']) != nr or len(T['len']) != nr:
        raise Violation('yylhs/yylen have %d/%d entries for %d rules' % (len(T['lhs']), len(T['len']), nr), 'length')
    for i, r in enumerate(g.rules, 1):
        if T['len'][i] != len(r.rhs):
            raise Violation('yylen[%d] is %d for %r' % (i, T['len'][i], r), 'yylen')
    sym = {}
    for i, r in enumerate(g.rules, 1):
        if sym.setdefault(r.lhs, T['lhs'][i]) != T['lhs'][i]:
            raise Violation('yylhs gives %s two numbers' % r.lhs, 'yylhs')
    if len(set(sym.values())) != len(sym):
        raise Violation('yylhs gives two nonterminals the same number', 'yylhs')
    for a, v in sym.items():
        if not 0 <= v < len(T['dgoto']) or v >= len(T['gindex']):
            raise Violation('nonterminal number %d of %s is outside yydgoto/yygindex' % (v, a), 'overrun')
    if sym[g.start] != 0:
        raise Violation('the start symbol does not have number 0', 'yylhs')
    D = byacc.Decoder(T)
    tcode = dict(code)
    tcode['$end'] = 0
    tcode['error'] = 256
    if T.get('YYMAXTOKEN') != max([0, 256] + [v for t, v in code.items() if t in byacc.spec_terms(g)]):
        raise Violation('YYMAXTOKEN is %s' % T.get('YYMAXTOKEN'), 'maxtoken')
    # pair the states by walking both automata
    m = {0: 0}
    todo = [0]

    def pair(a, q, why):
        if not 0 <= a < ns:
            raise Violation('%s leads to state %d of %d' % (why, a, ns), 'overrun')
        if a in m:
            if m[a] != q:
                raise Violation('%s leads to the wrong state %d' % (why, a), 'action')
        else:
            if q in m.values():
                raise Violation('%s leads to state %d, another copy of a known state' % (why, a), 'action')
            m[a] = q
            todo.append(a)
    bycode = {v: t for t, v in tcode.items()}
    rng = range(0, T['YYMAXTOKEN'] + 4) if T['YYMAXTOKEN'] < 1500 else sorted(
        {x for v in list(bycode) + [0, 256, T['YYMAXTOKEN']] for x in (v - 1, v, v + 1) if x >= 0} | set(range(0, 300)))
    inlr = set(lr.terms)
    n = 0
    for a in todo:
        q = m[a]
        act, multi, dr = R.act[q], R.multi[q], R.defred[q]
        for s, t in lr.trans[q].items():
            if s in lr.isnt:
                pair(D.goto(a, sym[s]), t, 'goto on %s in state %d' % (s, a))
        for v in rng:
            n += 1
            t = bycode.get(v)
            got = D.action(a, v)
            if dr:
                exp = ('r', dr)
            elif t is not None and t in inlr:
                if B and t in multi:
                    if got[0] != 'c':
                        raise Violation('state %d token %s: %s, expected a list of trials' % (a, t, got), 'trial')
                    l = D.conflict(got[1])
                    el = multi[t]
                    if [x[0] for x in l] != [x[0] for x in el] or [x[1] for x in l if x[0] == 'r'] != [x[1] for x in el if x[0] == 'r']:
                        raise Violation('state %d token %s: trials %s, expected %s' % (a, t, l, el), 'trial')
                    for x, y in zip(l, el):
                        if x[0] == 's':
                            pair(x[1], y[1], 'trial shift of %s in state %d' % (t, a))
                    continue
                exp = act.get(t, ('e', 0))
            else:
                exp = ('e', 0)
            if exp[0] == 'a':
                if got[0] != 'e':
                    raise Violation('state %d: %s on end of input instead of accepting' % (a, got), 'action')
                continue
            if exp[0] == 's':
                if got[0] != 's':
                    raise Violation('state %d token %s (%d): %s, expected a shift' % (a, t, v, got), 'action')
                pair(got[1], exp[1], 'shift of %s in state %d' % (t, a))
            elif got != exp:
                raise Violation('state %d token %s (%d): %s, expected %s' % (a, t, v, got, exp), 'action')
    if T['YYFINAL'] not in m or m[T['YYFINAL']] != lr.final:
        raise Violation('YYFINAL is state %d' % T['YYFINAL'], 'final')
    if T['btyacc']:
        accs = {}
        for q in range(lr.n):
            for s, t in lr.trans[q].items():
                accs[t] = s
        val = {}
        for a, q in m.items():
            if q == 0:
                continue
            s = accs[q]
            v = T['stos'][a]
            if s in tcode:
                if v != tcode[s]:
                    raise Violation('yystos[%d] is %d, the number of %s is %d' % (a, v, s, tcode[s]), 'yystos')
            elif val.setdefault(s, v) != v or v in bycode or v != T['YYMAXTOKEN'] + 1 + sym[s] + 1:
                raise Violation('yystos[%d] is %d for %s' % (a, v, s), 'yystos')
    ctx.ev(n)


SPEC = dict(
    tests={
        'small': (lambda c, x: check(c, x, False), 2500, 60000),
        'big': (lambda c, x: check(c, x, True), 160, 3000),
    },
    setup=lambda tier: (byacc.tool('yacc'), byacc.tool('btyacc')),
    rule='a case is a generated grammar with token numbers; the emitted arrays are decoded for every state and every token number '
         'from 0 to above the maximum (one evaluation each) and every goto; non-trivial: at least 8 states; distinct by grammar, '
         'token numbers and variant',
    assumptions=['the reference LALR(1) construction in vlib/gram.py', 'the look-up rule of the skeletons is as modelled in vlib/byacc.py Decoder '
                 '(the compiled skeleton itself is exercised by Y01, Y03, Y05 and Y07)'],
)
