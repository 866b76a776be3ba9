"""Y02: y.output and the dot graph describe exactly the LALR(1) automaton."""
from collections import Counter
from vlib import byacc, gen
from vlib.engine import Violation, Discard
from vlib.gram import LR


def esc(s):
    # graph labels: quotes and backslashes of a name are protected
    return s.replace('\\', '\\\\').replace('"', '\\"')


def check(c, ctx, big):
    B = c.bool(1, 7)        # with -B adjacent actions are one compound action: no mid-rule actions then
    g = gen.any_grammar(c, big=big, mid=not B)
    if not g.terms:
        raise Discard('no terminals')
    try:
        lr = LR(g, limit=1500)
    except OverflowError:
        raise Discard('too many states')
    z, u = c.bool(1, 6), c.bool(1, 6)
    var = 'btyacc' if B else c.pick(['yacc', 'btyacc'])
    R = byacc.resolve(lr, g, z=z, u=u, backtrack=B)
    opts = ['-v', '-g'] + (['-z'] if z else []) + (['-u'] if u else []) + (['-B'] if B else [])
    d = ctx.dir()
    act = (lambda i, r: '{ a(%d); }' % i) if c.bool() or any(r.lhs.startswith('$$') for r in g.rules) else None
    if act is None:
        spec = byacc.decls(g) + '%%\n' + byacc.rules_text(g)
    else:
        spec = byacc.decls(g) + '%%\n' + byacc.rules_text(g, act)
    p = byacc.yacc(ctx, var, d, spec, opts)
    if p.rc != 0:
        raise Violation('byacc rejects the grammar: ' + p.errs, 'reject')
    V = byacc.parse_output(open(d + '/y.output', encoding='latin-1').read())
    verify_rules(V, g)
    m = verify_states(V, lr, g, R, B)
    verify_tail(V, lr, g, R, var)
    verify_dot(open(d + '/y.dot', encoding='latin-1').read(), V, lr, g, m)
    ctx.ev(lr.n)
    ctx.label('states ' + gen.bucket(lr.n))
    ctx.label('terminals ' + gen.bucket(len(g.terms) + 2))
    ctx.label('conflicting grammars' if R.SR + R.RR else 'conflict-free grammars')
    if R.confl:
        ctx.label('with conflict messages')
    if any(r.lhs.startswith('$$') for r in g.rules):
        ctx.label('with mid-rule actions')
    if R.unused:
        ctx.label('with unused rules')
    if lr.n >= 6 and len(g.rules) >= 3:
        ctx.nontrivial(g.key() + repr(opts))
        ctx.sample(str(g))


def verify_rules(V, g):
    exp = {0: ('$accept', [g.start, '$end'])}
    for i, r in enumerate(g.rules, 1):
        exp[i] = (r.lhs, list(r.rhs))
    for i in exp:
        if i not in V['rules']:
            raise Violation('rule %d missing from the listing' % i, 'rules')
        lhs, rhs = V['rules'][i]
        r = g.rules[i - 1] if i else None
        e = list(exp[i][1]) + (['%prec', r.prec] if r is not None and r.prec else [])
        if lhs != exp[i][0] or (rhs != e and rhs != exp[i][1]):
            raise Violation('rule %d listed as %s : %s, expected %s : %s' % (i, lhs, rhs, exp[i][0], e), 'rules')
    if len(V['rules']) != len(exp):
        raise Violation('extra rules in the listing', 'rules')


def kernel_of(lr, q):
    return sorted((lr.rules[r][0], lr.rules[r][1][:d], lr.rules[r][1][d:], r) for r, d in lr.kernels[q])


def verify_states(V, lr, g, R, B):
    S = V['states']
    if len(S) != lr.n:
        raise Violation('%d states reported, the LR(0) automaton has %d' % (len(S), lr.n), 'states')
    m = {0: 0}      # reported -> reference
    todo = [0]
    for a in todo:
        q = m[a]
        st = S[a]
        ker = kernel_of(lr, q)
        nk = len(ker)
        if sorted(st['items'][:nk]) != ker:
            raise Violation('state %d: kernel reported %s, expected %s' % (a, st['items'][:nk], ker), 'kernel')
        # nullable reductions listed after the kernel
        la = lr.lookaheads()[q]
        live = set()
        for t, l in R.act[q].items():
            if l[0] == 'r':
                live.add(l[1])
        for t, l in R.multi[q].items():
            live |= {x[1] for x in l if x[0] == 'r'}
        if lr.final == q and any(x[0] == 'r' for l in lr.raw_actions(q).get('$end', []) for x in [l]):
            live |= {x[1] for x in lr.raw_actions(q)['$end'] if x[0] == 'r'}
        nul = sorted(r for r in live if not lr.rules[r][1])
        rep = [it[3] for it in st['items'][nk:]]
        if rep != nul or any(it[1] or it[2] or it[0] != lr.rules[it[3]][0] for it in st['items'][nk:]):
            raise Violation('state %d: empty rules %s listed, expected %s' % (a, st['items'][nk:], nul), 'nulls')
        # transitions
        shifts = {}
        gotos = {}
        trial = []
        for s, t in lr.trans[q].items():
            if s in lr.isnt:
                gotos[s] = t
            elif R.act[q].get(s, ('e',))[0] == 's':
                shifts[s] = t
        if set(shifts) != set(st['shifts']):
            raise Violation('state %d: shifts on %s reported, expected %s' % (a, sorted(st['shifts']), sorted(shifts)), 'shifts')
        if set(gotos) != set(st['gotos']):
            raise Violation('state %d: gotos on %s reported, expected %s' % (a, sorted(st['gotos']), sorted(gotos)), 'gotos')
        allt = [(st['shifts'][s], shifts[s]) for s in shifts] + [(st['gotos'][s], gotos[s]) for s in gotos]
        tr = [x for x in st['trial'] if x[1] == 'shift']
        for (s, k, n) in tr:
            allt.append((n, lr.trans[q].get(s)))
        for x, y in allt:
            if x in m:
                if m[x] != y:
                    raise Violation('state %d leads to state %d, which is a different state of the automaton' % (a, x), 'edges')
            else:
                if y is None or y in m.values():
                    raise Violation('state %d: edge to %d does not match the automaton' % (a, x), 'edges')
                m[x] = y
                todo.append(x)
        # states reachable only through suppressed shifts are not linked in the report
        if st['accept'] != (q == lr.final):
            raise Violation('state %d: accept reported %s' % (a, st['accept']), 'accept')
        verify_reductions(a, q, st, lr, R, B)
    if not B:
        # conflict messages need the complete map; link the rest by kernel
        pass
    link_rest(S, lr, m, R, B)
    for a, q in m.items():
        verify_conflict_messages(a, q, S[a], lr, R, m)
    return m


def link_rest(S, lr, m, R, B):
    byk = {}
    for q in range(lr.n):
        byk[tuple(kernel_of(lr, q))] = q
    todo = [a for a in range(len(S)) if a not in m]
    for a in todo:
        st = S[a]
        for nk in range(len(st['items']), 0, -1):
            q = byk.get(tuple(sorted(st['items'][:nk])))
            if q is not None:
                break
        if q is None or q in m.values():
            raise Violation('state %d is not a state of the automaton: %s' % (a, st['items']), 'states')
        m[a] = q
        for s, x in list(st['gotos'].items()) + list(st['shifts'].items()):
            pass
    for a in todo:
        q = m[a]
        st = S[a]
        for s, t in lr.trans[q].items():
            if s in lr.isnt and m.get(st['gotos'].get(s)) != t:
                raise Violation('state %d: goto on %s wrong' % (a, s), 'gotos')
        for s, x in st['shifts'].items():
            if m.get(x) != lr.trans[q].get(s):
                raise Violation('state %d: shift on %s wrong' % (a, s), 'shifts')
        verify_reductions(a, q, st, lr, R, B)


def verify_reductions(a, q, st, lr, R, B):
    d = R.defred[q]
    reds = {}
    anyred = False
    for t, x in R.act[q].items():
        if x[0] == 'r':
            anyred = True
            if x[1] != d:
                reds[t] = (x[1], lr.rules[x[1]][0])
    if q == lr.final:
        l = [x for x in lr.raw_actions(q).get('$end', []) if x[0] == 'r']
        if l:
            anyred = True
            if l[0][1] != d and not (B and len(l) > 1):
                reds['$end'] = (l[0][1], lr.rules[l[0][1]][0])
    for t, l in R.multi[q].items():
        if any(x[0] == 'r' for x in l):
            anyred = True
    if st['reduces'] != reds:
        raise Violation('state %d: reductions reported %s, expected %s' % (a, st['reduces'], reds), 'reductions')
    e = 'error' if not anyred else (d or None)
    if not any(x[0] != 'a' for l in lr.raw_actions(q).values() for x in l):
        e = None        # no action row at all
    if st['def'] != e:
        raise Violation('state %d: default action reported %s, expected %s' % (a, st['def'], e), 'default')
    if B and q != lr.final:
        tr = sorted((t, x[0] == 'r', x[1] if x[0] == 'r' else None) for t, l in R.multi[q].items() for x in l if not (x[0] == 'r' and x[1] == d))
        rp = sorted((t, k == 'reduce', n if k == 'reduce' else None) for t, k, n in st['trial'])
        if tr != rp:
            raise Violation('state %d: trial actions reported %s, expected %s' % (a, rp, tr), 'trial')
    elif not B and st['trial']:
        raise Violation('state %d: trial actions in a report without -B' % a, 'trial')


def verify_conflict_messages(a, q, st, lr, R, m):
    inv = {y: x for x, y in m.items()}
    if any(cf[0] == q and cf[2] is None for cf in R.confl):
        return          # preferred action already removed by %nonassoc: wording unspecified
    if q == lr.final and '$end' in {cf[1] for cf in R.confl if cf[0] == q}:
        return          # accept/reduce: wording only
    exp = []
    for (cq, t, pref, x) in R.confl:
        if cq != q:
            continue
        if pref[0] == 's':
            exp.append(('shift', 'shift %d, reduce %d [%s]' % (inv[pref[1]], x[1], lr.rules[x[1]][0]), t))
        else:
            exp.append(('reduce', 'reduce %d [%s], reduce %d [%s]' % (pref[1], lr.rules[pref[1]][0], x[1], lr.rules[x[1]][0]), t))
    got = [(k, txt, t) for n, k, txt, t in st['conf']]
    if sorted(got) != sorted(exp):
        raise Violation('state %d: conflict messages %s, expected %s' % (a, got, exp), 'conflict-messages')
    if any(n != a for n, _, _, _ in st['conf']):
        raise Violation('conflict message of state %d names another state' % a, 'conflict-messages')


def verify_tail(V, lr, g, R, var):
    exp = []
    for i in R.unused:
        if i >= 1:
            exp.append((i, lr.rules[i][0], list(lr.rules[i][1])))
    if V['unused'] != exp:
        raise Violation('rules never reduced: reported %s, expected %s' % (V['unused'], exp), 'unused')
    conf = Counter()
    for n, txt in V['conf'].items():
        pass
    tot_sr = sum(int(t.split(' shift/')[0]) for t in V['conf'].values() if 'shift/' in t)
    tot_rr = 0
    import re
    for n, t in V['conf'].items():
        k = re.search(r'(\d+) reduce/reduce', t)
        tot_rr += int(k.group(1)) if k else 0
    if (tot_sr, tot_rr) != (R.SR, R.RR):
        raise Violation('conflict summary %s adds up to %d/%d, expected %d/%d' % (V['conf'], tot_sr, tot_rr, R.SR, R.RR), 'conflict-summary')
    nt = 2 + len(byacc.spec_terms(g))
    e = [nt, len(lr.nts), len(g.rules) + 1, lr.n]
    if V['totals'] != e:
        raise Violation('totals reported %s, expected %s' % (V['totals'], e), 'totals')
    if var == 'btyacc':
        syms = V['syms']
        names = [s[2] for s in syms]
        want = {'$end', 'error'} | set(byacc.spec_terms(g)) | set(lr.nts)
        if set(names) != want or len(names) != len(want) or [s[0] for s in syms] != list(range(len(names))):
            raise Violation('symbol table lists %s, expected %s' % (names, sorted(want)), 'symbols')
        vals = [s[1] for s in syms]
        if len(set(vals)) != len(vals):
            raise Violation('symbol table gives two symbols the same number: %s' % syms, 'symbols')


def verify_dot(text, V, lr, g, m):
    states, edges = byacc.parse_dot(text)
    if sorted(states) != list(range(lr.n)):
        raise Violation('graph has nodes %s, expected 0..%d' % (sorted(states), lr.n - 1), 'dot-nodes')
    la = lr.lookaheads()
    for a, its in states.items():
        q = m[a]
        exp = Counter()
        for (r, d) in lr.items[q]:
            lhs, rhs = lr.rules[r]
            s = frozenset(map(esc, lr.terms_of(la[q][(r, d)]))) if d == len(rhs) else None
            exp[(esc(lhs), tuple(map(esc, rhs[:d])), tuple(map(esc, rhs[d:])), s)] += 1
        got = Counter((l, b, f, frozenset(x) if x is not None else None) for l, b, f, x in its)
        if exp != got:
            raise Violation('graph node %d differs from the automaton:\n only in graph: %s\n missing: %s' % (
                a, list((got - exp).keys()), list((exp - got).keys())), 'dot-items')
        if any(x is not None and len(set(x)) != len(x) for _, _, _, x in its):
            raise Violation('graph node %d repeats a look-ahead' % a, 'dot-items')
    eexp = Counter()
    inv = {y: x for x, y in m.items()}
    for a, q in m.items():
        for s, t in lr.trans[q].items():
            eexp[(a, inv[t], esc(s))] += 1
    got = Counter(edges)
    if eexp != got:
        raise Violation('graph edges differ:\n only in graph: %s\n missing: %s' % (list((got - eexp).keys())[:5], list((eexp - got).keys())[:5]), 'dot-edges')


SPEC = dict(
    tests={
        'small': (lambda c, x: check(c, x, False), 6000, 80000),
        'big': (lambda c, x: check(c, x, True), 300, 4000),
    },
    setup=lambda tier: (byacc.tool('yacc'), byacc.tool('btyacc')),
    rule='a case is a generated grammar (random, structured, operator-precedence or large; with conflicts, mid-rule actions, '
         '-z, -u, -B) whose y.output and y.dot are compared state by state with a reference LALR(1) automaton; an evaluation is '
         'one compared state; non-trivial: at least 6 states and 3 rules; distinct by grammar and options',
    assumptions=['the reference LALR(1) construction in vlib/gram.py'],
)
