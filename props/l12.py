"""L12: the SQL export of lemon (-S) is loadable and reproduces the grammar."""
import os, re
from vlib import lemon, build
from vlib.engine import Violation, Discard
from vlib.lgram import Multi
from props import l02
from props.y17 import load

STACK = ['10', '0', '100', 'N', '{20}', '{ A + 1 }', "{'x'}", "{p['a'] + 'b'}", '"5"', '{sizeof "a"}', "{''}", '-1']
STAT = re.compile(r'^  (terminal symbols|non-terminal symbols|total symbols|rules|states|conflicts)\.* +(\d+)$', re.M)


def arg(s):
    """the value of a directive's argument"""
    return s[1:-1] if s[0] in '{"' else s


def read(text, V):
    """tokens, levels, fallbacks, stack size, wildcard, yacc_prec, start, rules of a lemon grammar without code"""
    g = dict(token=[], levels=[], fallback={}, stack_size=None, wildcard=None, yacc_prec=False, start=None, rules=[])
    toks = re.findall(r'/\*.*?\*/|::=|%\w+|\w+|\{[^{}]*\}|\S', text, re.S)
    toks = [t for t in toks if not t.startswith('/*')]
    at = 0

    def upto():
        nonlocal at
        if '.' not in toks[at:]:
            V('no . behind %s' % toks[at - 1], 'view')
        k = toks.index('.', at)
        l = toks[at:k]
        at = k + 1
        return l
    while at < len(toks):
        k = toks[at]
        at += 1
        if k == '%token':
            g['token'] += upto()
        elif k in ('%left', '%right', '%nonassoc', '%precedence'):
            g['levels'].append((k, sorted(upto())))
        elif k == '%fallback':
            l = upto()
            for t in l[1:]:
                if t in g['fallback']:
                    V('two fallbacks of ' + t, 'view')
                g['fallback'][t] = l[0]
        elif k == '%wildcard':
            g['wildcard'] = upto()
        elif k == '%yacc_prec':
            g['yacc_prec'] = True
        elif k in ('%stack_size', '%start_symbol'):
            g[k[1:6] if k == '%start_symbol' else 'stack_size'] = arg(toks[at])
            at += 1
        elif re.match(r'\w', k) and toks[at:at + 1] == ['::=']:
            at += 1
            rhs = []
            for t in re.sub(r' ?\| ?', '|', ' '.join(upto())).split():
                if not re.fullmatch(r'[\w|]+', t):
                    V('strange symbol %r in a rule for %s' % (t, k), 'view')
                rhs.append(t)
            mark = None
            if toks[at:at + 1] == ['[']:
                mark = toks[at + 1]
                if toks[at + 2] != ']':
                    V('strange mark', 'view')
                at += 3
            g['rules'].append((k, rhs, mark))
        else:
            V('the printed grammar has %r' % toks[at - 1:at + 5], 'view')
    return g


def sql(c, ctx):
    g = l02.grammar(c, c.bool(1, 10))
    M = Multi(c, g, *c.pick([(0, 1), (1, 6), (1, 3)]))
    tokens = [t for t in g.all_terms() if t != 'error']
    opts = ['-S'] + c.subset(['-z', '-u', '-c', '-r', '-q', '-p', '-s', '-l', '-m', '-g'], 1, 6)
    if '-s' not in opts:
        opts.append('-s')
    o = [lemon.decls(g), M.decls()]
    fb, wild, stack, yp = {}, None, None, False
    if len(tokens) > 1 and c.bool(2, 5):
        pool = c.sample(tokens, c.int(2, min(len(tokens), 9)))
        k = c.int(1, min(3, len(pool) - 1))
        heads = pool[:k]
        for t in pool[k:]:
            fb[t] = c.pick(heads)
        for h in heads[1:]:
            if c.bool(1, 3):
                fb[h] = heads[0]
        for h in heads:
            l = [t for t in fb if fb[t] == h]
            if l:
                o.append('%%fallback %s %s.\n' % (h, ' '.join(l)))
    if tokens and c.bool(1, 4):
        wild = c.pick(tokens)
        o.append('%%wildcard %s.\n' % wild)
    if c.bool(1, 3):
        stack = c.pick(STACK)
        o.append('%%stack_size %s\n' % stack if stack[0] != '-' else '%stack_size {-1}\n')
        stack = '-1' if stack == '-1' else arg(stack)
    if c.bool(1, 6):
        yp = True
        o.append('%yacc_prec\n')
    yp = yp or '-z' in opts
    rules = []
    for i, r in enumerate(M.g.rules, 1):
        rules.append(M.rule_text(r) + c.pick(['', ' { f(%d); }' % i]) + '\n')
    text = ''.join(o) + ''.join(rules)
    d = ctx.dir()
    p = lemon.run(ctx, d, text, opts, asan=True)

    def V(m, k):
        raise Violation('lemon %s: %s' % (' '.join(opts), m), k)
    if not os.path.exists(os.path.join(d, 'g.sql')):
        V('no SQL file: status %d, %s' % (p.rc, p.errs[:300]), 'file')
    script = open(os.path.join(d, 'g.sql')).read()
    ctx.files['g.sql'] = script
    db = load(script, V)
    ctx.ev()
    q = lambda x: db.execute(x).fetchall()
    u = '-u' in opts

    sym = {}
    for i, n, t, f in q('SELECT id, name, isTerminal, fallback FROM symbol'):
        sym[i] = (n, bool(t), f)
    name = lambda i: None if i is None else sym[i][0] if i in sym else V('symbol %s is not in the table' % i, 'symbols')
    got = {(n, t, name(f)) for n, t, f in sym.values()}
    nts = {r.lhs for r in M.g.rules}
    used = {s for r in M.g.rules for s in r.rhs}
    want = {(t, True, fb.get(t)) for t in tokens} | {(a, False, None) for a in nts}
    if 'error' in used:
        want.add(('error', False, None))
    if got != want or len(sym) != len(want):
        V('symbols missing %s, extra %s' % (sorted(map(str, want - got)), sorted(map(str, got - want))), 'symbols')
    prec = {} if u else g.prec
    byl = {}
    for t, (l, a) in prec.items():
        byl.setdefault(l, (a, []))[1].append(t)
    gp = {}
    for i, l, a in q('SELECT id, prec, assoc FROM precedence'):
        gp.setdefault(l, []).append((name(i), a))
    gl = [sorted(gp[l]) for l in sorted(gp)]
    wl = [sorted((t, byl[l][0].upper()) for t in byl[l][1]) for l in sorted(byl)]
    if gl != wl:
        V('precedences %s instead of %s' % (gl, wl), 'precedence')
    rows = q('SELECT ruleid, lhs, prec_id FROM rule ORDER BY ruleid')
    rr = []
    for i, a, pr in rows:
        rhs = []
        last = None
        for pos, s in q('SELECT pos, sym FROM rulerhs WHERE ruleid=%d ORDER BY pos, id' % i):
            if pos == last:
                rhs[-1] += '|' + name(s)
            else:
                rhs.append(name(s))
            last = pos
        rr.append((name(a), rhs, name(pr)))
    flat = lambda s: '|'.join(M.alts.get(s, [s]))
    wr = [(r.lhs, [flat(s) for s in r.rhs], None if u else r.prec) for r in M.g.rules]
    if rr != wr:
        n = next(i for i, (x, y) in enumerate(zip(rr + [None], wr + [None])) if x != y)
        V('rule %d is %s instead of %s' % (n, (rr + [None])[n], (wr + [None])[n]), 'rules')
    ds = q('SELECT stack_size, start_symbol, wildcard FROM directives')
    if len(ds) != 1 or ds[0][0] != stack or name(ds[0][1]) != g.start or name(ds[0][2]) != wild:
        V('directives %s: stack size %r, start %s, wildcard %s' % (ds, stack, g.start, wild), 'directives')
    # the views print the grammar
    view = ''.join((r[0] or '') + '\n' for r in q('SELECT * FROM grammar_view'))
    ctx.files['view.lem'] = view
    v = read(view, V)
    wv = dict(token=None, levels=[(lemon.ASSOC[byl[l][0]], sorted(byl[l][1])) for l in sorted(byl)], fallback=fb, stack_size=stack, wildcard=[wild] if wild else None,
              yacc_prec=yp, start=g.start, rules=wr)
    # the codes of the tokens are those of the symbol table
    wv['token'] = [sym[i][0] for i in sorted(sym) if sym[i][1]]
    for k in wv:
        if v[k] != wv[k]:
            V('the views print for %s: %s instead of %s' % (k, v[k], wv[k]), 'view')
    d2 = ctx.dir()
    p2 = lemon.run(ctx, d2, view, opts, name='view.lem', asan=True)
    a, b = [dict(STAT.findall(x.out.decode())) for x in (p, p2)]
    if p.rc != p2.rc or a != b or not a:
        V('lemon makes %s, status %d of the grammar and %s, status %d of the printed one: %s' % (a, p.rc, b, p2.rc, p2.errs[:300]), 'again')
    hs = [open(os.path.join(x, n)).read() if os.path.exists(os.path.join(x, n)) else None for x, n in ((d, 'g.h'), (d2, 'view.h'))]
    if hs[0] != hs[1]:
        V('the codes of the tokens differ in the header of the printed grammar', 'again')
    if len(M.g.rules) > 2:
        ctx.nontrivial(text)
        for k, x in (('fallback', fb), ('wildcard', wild), ('precedence', prec), ('multi-terminals', M.alts), ('stack size', stack), ('error', 'error' in used)):
            if x:
                ctx.label(k)
        ctx.sample(view[:400])


SPEC = dict(
    tests={'sql': (sql, 4000, 60000)},
    setup=lambda tier: build.lemon(True),
    rule='a case is a random lemon grammar (multi-terminals and token classes, precedences and marks, fallbacks, wildcard, stack size, error rules) and options; its -S output is '
         'loaded into SQLite with foreign keys on, every table is compared with the grammar, the grammar printed by the views is read back and compared, and lemon makes as many '
         'symbols, rules, states and conflicts and the same header of it; non-trivial: at least 3 rules; distinct by text',
    assumptions=['%token_class names and %expect are not part of the export'],
)
