"""Y17: the SQL export (-S) is loadable and reproduces the grammar."""
import sqlite3
from vlib import byacc, export
from vlib.engine import Violation, Discard
from props.y14 import ctx_read, compare


def load(script, V):
    db = sqlite3.connect(':memory:')
    try:
        db.execute('PRAGMA foreign_keys=ON')
        db.isolation_level = None
        db.executescript(script)
    except sqlite3.Error as e:
        V('the script does not load: %s' % e, 'load')
    if db.execute('PRAGMA foreign_key_check').fetchall():
        V('foreign keys are violated', 'load')
    return db


def sql(c, ctx):
    g = export.grammar(c)
    text, s = export.spec(c, g)
    var = c.pick(['btyacc', 'yacc'])
    opt = c.pick(['-S', '--sql'])
    d = ctx.dir()
    p = byacc.yacc(ctx, var, d, text, [opt])

    def V(m, k):
        raise Violation('%s %s: %s' % (var, opt, m), k)
    if p.rc:
        V('rejects the grammar: ' + p.errs[:500], 'rejected')
    script = ctx_read(d, 'y.sql')
    ctx.files['y.sql'] = script
    db = load(script, V)
    q = lambda x: db.execute(x).fetchall()
    # symbols
    sym = {}
    for i, n, t, fb in q('SELECT id, name, isTerminal, fallback FROM symbol'):
        sym[i] = (n, bool(t))
        if fb is not None:
            V('symbol %s has a fallback' % n, 'symbols')
    want = {(t, True) for t in s.names} | {(a, False) for a in s.nts} | {('error', True)}
    if set(sym.values()) != want or len(sym) != len(want):
        V('the symbols are %s instead of %s' % (sorted(sym.values()), sorted(want)), 'symbols')
    # precedences
    rank = {l: i for i, l in enumerate(sorted({l for l, a in s.prec.values()}), 1)}
    x = sorted((sym[i][0], l, a) for i, l, a in q('SELECT id, prec, assoc FROM precedence'))
    w = sorted((t, rank[l], a.upper()) for t, (l, a) in s.prec.items())
    if x != w:
        V('precedences %s instead of %s' % (x, w), 'prec')
    # rules
    x = [(sym[l][0], tuple(sym[a][0] for a, in q('SELECT sym FROM rulerhs WHERE ruleid=%d AND sym IS NOT NULL ORDER BY pos' % i)), None if pr is None else sym[pr][0])
         for i, l, pr in q('SELECT ruleid, lhs, prec_id FROM rule ORDER BY ruleid')]
    w = [(r.lhs, r.rhs, r.prec) for r in s.rules]
    if x != w:
        for a, b in zip(x + [None], w + [None]):
            if a != b:
                break
        V('rule %s instead of %s' % (a, b), 'rules')
    n = q('SELECT count(*) FROM rulerhs WHERE ruleid NOT IN (SELECT ruleid FROM rule) OR pos IS NULL')[0][0]
    pos = q('SELECT ruleid, group_concat(pos) FROM (SELECT * FROM rulerhs ORDER BY ruleid, pos) GROUP BY ruleid')
    if n or any(ps != ','.join(map(str, range(ps.count(',') + 1))) for i, ps in pos):
        V('positions of right-hand sides %s' % pos, 'rules')
    st = q('SELECT start_symbol FROM directives')
    if len(st) != 1 or sym[st[0][0]] != (s.start, False):
        V('start symbol %s' % st, 'start')
    # views
    view = ''.join(r[0] + '\n' for r in q('SELECT * FROM grammar_view'))
    ctx.files['view.y'] = view

    def VV(m, k):
        V('grammar_view: ' + m, 'view-' + k)
    compare(view, s, VV, error=True)
    parts = [r[0] for v in ('token_view', 'prec_view') for r in q('SELECT * FROM ' + v)]
    rv = [r[0] for r in q('SELECT * FROM rule_view')]
    if ''.join(x + '\n' for x in parts) + '\n%%start %s\n\n%%%%\n\n' % s.start + ''.join(x + '\n' for x in rv) != view:
        V('grammar_view is not made of the other views', 'view-parts')
    d2 = ctx.dir()
    p2 = byacc.yacc(ctx, var, d2, view, [], 'view.y')
    if p2.rc:
        V('byacc rejects the text of grammar_view: %s' % p2.errs[:500], 'view-rejected')
    if len(g.rules) == len(s.rules) and byacc.summary(p) != byacc.summary(p2):
        V('the grammar has %s, grammar_view %s' % (byacc.summary(p), byacc.summary(p2)), 'view-conflicts')
    ctx.ev(len(s.rules) + len(sym))
    for k, v in [('mid-rule actions', len(g.rules) > len(s.rules)), ('precedences', s.prec), ('string tokens', any(t[0] == '"' for t in s.names)),
                 ('%prec', any(r.prec for r in s.rules)), ('empty first rule', not s.rules[0].rhs), ('quotes', any("'" in t for t in s.names))]:
        if v:
            ctx.label(k)
    if len(s.rules) > 2:
        ctx.nontrivial(text)
    ctx.sample(view[:300])


SPEC = dict(
    tests={'sql': (sql, 14000, 100000)},
    rule='a random grammar as for Y14 (literals and strings with quotes, long names, empty and mid-rule-only rules first, %prec with and without a '
         'precedence); the script is loaded into an in-memory SQLite with foreign keys on, every table compared with the grammar, and the text of '
         'grammar_view parsed, compared with the grammar and given back to byacc. Non-trivial: at least 3 rules; distinct by text',
    assumptions=['the tokens listed include error; mid-rule actions are left out'],
)
