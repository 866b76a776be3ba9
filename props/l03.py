"""L03: the .out report of lemon describes exactly the automaton it built."""
import re
from vlib import lemon
from vlib.engine import Violation, Discard
from vlib.gram import LR
from props import l02

SIZE = {'unsigned char': 1, 'signed char': 1, 'unsigned short int': 2, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4}


class Rep:
    pass


def read_out(text, V):
    R = Rep()
    parts = re.split(r'^-{40,}\n', text, flags=re.M)
    if len(parts) != 4:
        V('the report has %d parts' % len(parts), 'format')
    R.states = {}
    for m in re.finditer(r'^State (\d+):\n((?:.+\n)*)\n((?:.+\n)*)\n', parts[0], re.M):
        n = int(m.group(1))
        if n in R.states:
            V('state %d is listed twice' % n, 'state twice')
        items = []
        for l in m.group(2).splitlines():
            x = re.match(r' {4} *(?:\((\d+)\))? (\S+) ::=((?: \S+)*)$', l)
            if not x:
                V('item %r' % l, 'format')
            rhs = x.group(3).split()
            if rhs.count('*') != 1:
                V('item %r' % l, 'format')
            dot = rhs.index('*')
            rhs.remove('*')
            items.append((x.group(2), tuple(rhs), dot, x.group(1)))
        acts = []
        for l in m.group(3).splitlines():
            x = re.match(r' *(\S+) (shift-reduce|shift|reduce|accept|error) *(\d+)? *(.*)$', l)
            if not x:
                V('action %r' % l, 'format')
            sym, kind, num, rest = x.groups()
            why = None
            x = re.search(r' */\* because (\S+)==(\S+) \*/$', rest)
            if x:
                why = x.groups()
                rest = rest[:x.start()]
            note = 'live'
            for k, s in [('conflict', '** Parsing conflict **'), ('resolved', '-- dropped by precedence')]:
                if rest.endswith(s):
                    note, rest = k, rest[:-len(s)].rstrip()
            acts.append((sym, kind, int(num) if num else None, rest.strip(), note, why))
        R.states[n] = (items, acts)
    if parts[0].count('State ') < len(R.states) or len(re.findall(r'^State', parts[0], re.M)) != len(R.states):
        V('states cannot be read', 'format')
    R.symbols = re.findall(r'^ +(\d+): (\S+?)(:?)((?: <lambda>)?)((?: [^ (]\S*)*)(?: \(precedence=(\d+)\))?$', parts[1], re.M)
    if len(R.symbols) != len(parts[1].strip().splitlines()) - 3:
        V('symbol list cannot be read', 'format')
    R.syntax = parts[2].split('\n\n', 1)[1].split()
    R.rules = re.findall(r'^ *(\d+): (\S+) ::=((?: \S+)*?) ?\.(?: \[(\S+) precedence=(-?\d+)\])?$', parts[3], re.M)
    if len(R.rules) != len(parts[3].strip().splitlines()) - 1:
        V('rule list cannot be read', 'format')
    return R


def array(src, name):
    m = re.search(r'^static const ([\w ]+?) %s\[\] = \{(.*?)\};' % name, src, re.S | re.M)
    if not m:
        return None, []
    return m.group(1), [int(x) for x in re.sub(r'/\*.*?\*/', '', m.group(2)).replace(',', ' ').split()]


def check(c, ctx, big=False):
    g = l02.grammar(c, big)
    try:
        lr = LR(g, limit=300)
    except OverflowError:
        raise Discard('large')
    if len({(r.lhs, tuple(r.rhs)) for r in g.rules}) < len(g.rules):
        raise Discard('rule twice')
    opts = c.subset(['-z', '-u', '-b', '-p', '-c', '-r'], 1, 3) + ['-s'] + c.subset(['-l', '-m', '-d.'], 1, 8)
    R = lemon.resolve(lr, g, yacc='-z' in opts, u='-u' in opts)
    wild = c.pick(g.terms) if c.bool(1, 5) else None
    if wild == 'error':
        wild = None
    fb = {}
    named = [t for t in g.all_terms() if t != 'error']
    groups = []
    if len(named) > 1 and c.bool(1, 5):
        for _ in range(c.int(1, 2)):
            to = c.pick(named)
            ms = [t for t in c.sample(named, c.int(1, len(named))) if t != to and t not in fb and to not in fb and t not in fb.values()]
            fb.update({t: to for t in ms})
            if ms:
                groups.append('%%fallback %s %s.\n' % (to, ' '.join(ms)))
    code, alias = set(), set()
    some = c.pick([0, 1, 3])
    rules = []
    for i, r in enumerate(g.rules, 1):
        lab = {}
        a = ''
        if c.draw(3) < some:
            code.add(i)
            for k, s in enumerate(r.rhs):
                if c.bool(1, 6):
                    lab[k] = 'L%d' % k
                    alias.add(s)
            a = ' { use(%s); }' % ','.join(lab.values())
        rules.append(lemon.rule_text(r, lab) + a)
    text = lemon.decls(g) + ('%%wildcard %s.\n' % wild if wild else '') + ''.join(groups) + '\n'.join(rules) + '\n'
    d = ctx.dir()
    p = lemon.run(ctx, d, text, opts)

    def V(m, k):
        raise Violation('lemon %s: %s' % (' '.join(opts), m), k)
    rep = read_out(open(d + '/g.out').read(), V)
    src = open(d + '/g.c').read()
    free = verify(c, ctx, g, lr, R, rep, src, p.outs, opts, code, alias, wild, V, fb)
    n = R.SR + R.RR
    for k, v in [('S/R', R.SR), ('R/R', R.RR), ('resolved', any(x[1] == 'resolved' for s in R.lost for l in s.values() for x in l)), ('wildcard', wild), ('fallback', fb), ('no default because of a fallback', any(free.values())),
                 ('unit rule chains', '/* because' in open(d + '/g.out').read()), ('error action', any(a[0] == 'e' for s in R.act for a in s.values()))] + [(o, 1) for o in opts]:
        if v:
            ctx.label(k)
    if len(rep.states) > 4:
        ctx.nontrivial(text)
    ctx.sample('%s: %d states listed of %d, %d rules, %d conflicts' % (opts, len(rep.states), lr.n, len(g.rules), n))


def hidden(act, i, fb):
    """with rule i as the default, would a token that calls for it be used as its fallback instead?"""
    for t, a in act.items():
        x = t
        while a == ('r', i) and x in fb:
            x = fb[x]
            if x in act and act[x] != a and act[x][0] != 'none':
                return True
    return False


def verify(c, ctx, g, lr, R, rep, src, stats, opts, code, alias, wild, V, fb):
    nt = set(g.nts)
    u = '-u' in opts
    # ---- rules
    order = [i for i in range(1, len(g.rules) + 1) if i in code] + [i for i in range(1, len(g.rules) + 1) if i not in code]
    num = {i: k for k, i in enumerate(order)}       # our rule -> number of lemon
    back = dict(enumerate(order))
    rank = {l: k for k, l in enumerate(sorted({l for l, a in g.prec.values()}), 1)}
    level = {t: rank[l] for t, (l, a) in g.prec.items()}
    got = {}
    for k, lhs, rhs, pt, pl in rep.rules:
        got[int(k)] = (lhs, tuple(rhs.split()), pt, pl)
    if len(got) != len(rep.rules) or set(got) != set(back):
        V('rules numbered %s' % sorted(got), 'rules')
    rps = lemon.rule_precs(g, '-z' in opts, False)
    for k, i in back.items():
        r = g.rules[i - 1]
        if got[k][:2] != (r.lhs, tuple(r.rhs)):
            V('rule %d is %s, expected %s' % (k, got[k], r), 'rules')
        if not u:
            want = None
            if r.prec:
                want = r.prec
            else:
                ts = [s for s in r.rhs if s not in nt and s != 'error']
                ts = [s for s in (ts if '-z' not in opts else ts[-1:]) if s in level]
                want = ts[0] if ts else None
            lv = level.get(want, -1)
            if (got[k][2], got[k][3]) != ((want, str(lv)) if want else ('', '')):
                V('rule %s: precedence of %s, level %s, expected %s, %s' % (r, got[k][2], got[k][3], want, lv), 'rule precedence')
    ctx.ev(len(back))
    # ---- symbols
    first, nullable = lr.first, g.nullable()
    names = []
    for k, (idx, name, colon, lam, fs, prec) in enumerate(rep.symbols):
        if int(idx) != k:
            V('symbol %s has number %s at position %d' % (name, idx, k), 'symbol numbers')
        names.append(name)
        isnt = name in nt or name == 'error'
        if name == '$' or name == '{default}':
            continue
        if bool(colon) != isnt:
            V('symbol %s is listed as %s' % (name, 'nonterminal' if colon else 'terminal'), 'symbol kind')
        if name in nt:
            want = {t for t in lr.terms_of(first[name]) if t not in ('$end', 'error')}
            have = fs.split()
            if '$' in have:
                V('FIRST(%s) contains the end of input' % name, 'first')
            if set(have) != want or len(have) != len(set(have)):
                V('FIRST(%s) = %s, expected %s' % (name, have, sorted(want)), 'first')
            if bool(lam) != (name in nullable):
                V('%s: nullable %s, expected %s' % (name, bool(lam), name in nullable), 'nullable')
        if name != 'error' and (int(prec) if prec else None) != (None if u else level.get(name)):
            V('symbol %s has level %s, expected %s' % (name, prec, level.get(name)), 'symbol level')
    named = [t for t in g.all_terms() if t != 'error']
    want = ['$'] + named
    if names[:len(want)] != want:
        V('terminals in the order %s, declared as %s' % (names[:len(want)], want), 'symbol order')
    rest = sorted(x for x in names[len(want):])
    if rest != sorted(nt | ({'error'} & (set(names) | {s for r in g.rules for s in r.rhs}))):
        V('nonterminals %s, expected %s' % (rest, sorted(nt)), 'nonterminals')
    if rep.syntax != [s for s in names if s not in alias]:
        V('symbols without content: %s, expected %s' % (rep.syntax, [s for s in names if s not in alias]), 'syntax-only')
    ctx.ev(len(names))
    # ---- states
    start = {(i, 0) for i, r in enumerate(g.rules, 1) if r.lhs == g.start}
    rid = {(r.lhs, tuple(r.rhs)): i for i, r in enumerate(g.rules, 1)}
    kern = {}
    for q, k in enumerate(lr.kernels):
        kern[frozenset(start if q == 0 else k)] = q
    ref = {}
    for n, (items, acts) in rep.states.items():
        mine = []
        for lhs, rhs, dot, k in items:
            i = rid.get((lhs, rhs))
            if i is None:
                V('state %d: item of no rule: %s ::= %s' % (n, lhs, rhs), 'items')
            if (int(k) if k is not None else None) != (num[i] if dot == len(rhs) else None):
                V('state %d: item %s ::= %s marked (%s), expected %s' % (n, lhs, ' '.join(rhs), k, num[i]), 'item number')
            mine.append((i, dot))
        if len(mine) != len(set(mine)):
            V('state %d lists an item twice' % n, 'items')
        ker = frozenset(x for x in mine if x[1]) or frozenset(start)
        q = kern.get(ker)
        if q is None:
            V('state %d has no counterpart: %s' % (n, items), 'states')
        if q in ref.values():
            V('state %d is listed a second time' % n, 'states')
        if ('-b' in opts and set(mine) != ker) or ('-b' not in opts and set(mine) != {x for x in lr.items[q] if x[0]} | ker):
            V('state %d lists the items %s' % (n, items), 'items')
        ref[n] = q
    if ref.get(0) != 0:
        V('state 0 is not the start state', 'states')
    inv = {q: n for n, q in ref.items()}
    ctx.ev(len(ref))
    # ---- which states only reduce
    compress = '-c' not in opts
    st = {n: rep.states[n][1] for n in ref}
    auto, dflt, free = {}, {}, {}
    for q in range(lr.n):
        if q == lr.final:
            continue
        cnt = {}
        for t, a in R.act[q].items():
            if a[0] == 'r' and g.rules[a[1] - 1].lhs != g.start:
                cnt[a[1]] = cnt.get(a[1], 0) + 1
        usesw = wild in R.act[q] and R.act[q][wild][0] in 'sr'
        dflt[q] = [i for i in cnt if cnt[i] == max(cnt.values())] if compress and cnt and not usesw else []
        maybe = [i for i in dflt[q] if not hidden(R.act[q], i, fb)]
        free[q] = len(maybe) < len(dflt[q])     # which of several is tried decides whether there is one
        dflt[q] = maybe
        live = {a for a in R.act[q].values() if a[0] in 'sra'} | {('s', t) for s, t in lr.trans[q].items() if s in nt}
        auto[q] = bool(dflt[q]) and live == {('r', dflt[q][0])} and not any(a[0] == 'e' for a in R.act[q].values())
    # ---- actions
    table = decode(src, V, names)
    missing = [q for q in range(lr.n) if q != lr.final and q not in inv and not (auto[q] and '-r' not in opts)]
    if missing:
        V('a state is not listed: %s' % sorted(lr.kernels[missing[0]]), 'states')
    for n, q in ref.items():
        if auto[q] and q and '-r' not in opts and len(ref) - 1 == n and n:
            V('state %d only reduces and is listed' % n, 'states')

    def target(q, t, isnt):
        """a shift or goto into reference state t"""
        if auto.get(t):
            return ('shift-reduce', dflt[t][0])
        return ('shift', t)

    def goto(q, s):
        if q == 0 and s == g.start:
            return ('accept', 0)
        a = target(q, lr.trans[q][s], True)
        seen = set()
        while a[0] == 'shift-reduce' and s not in seen:
            seen.add(s)
            r = g.rules[a[1] - 1]
            if len(r.rhs) != 1 or a[1] in code:
                return a
            s = r.lhs
            if q == 0 and s == g.start:
                return ('accept', 0)
            a = target(q, lr.trans[q][s], True)
        return a if a[0] != 'shift-reduce' or s not in seen else ('loop', 0)
    for n, q in sorted(ref.items()):
        D, seen, lost = None, {}, {}
        for sym, kind, k, text, note, why in st[n]:
            if kind in ('reduce', 'shift-reduce') and k not in back:
                V('state %d: %s %s, no such rule' % (n, kind, k), 'action')
            if kind in ('reduce', 'shift-reduce'):
                r = g.rules[back[k] - 1]
                full = ('%s ::= %s' % (r.lhs, ' '.join(r.rhs))).strip()
                if text not in ((full,) if note == 'live' else ('(%s)' % r.lhs,)):
                    V('state %d on %s: rule %d is shown as %r' % (n, sym, k, text), 'action text')
                a = (kind, back[k])
            elif kind == 'shift':
                if note == 'live' and k not in ref:
                    V('state %d on %s: shift to state %s, which is not listed' % (n, sym, k), 'action')
                a = ('shift', ref.get(k))
            else:
                a = (kind, 0)
            if note != 'live':
                lost.setdefault(sym, []).append((a, note))
            elif sym == '{default}':
                if D:
                    V('state %d has two defaults' % n, 'default')
                D = a
            elif sym in seen:
                V('state %d has two actions on %s' % (n, sym), 'action')
            else:
                seen[sym] = a
                if why and (why[0] != sym or why[1] not in nt or sym not in nt):
                    V('state %d on %s: because %s==%s' % (n, sym, why[0], why[1]), 'because')
        act = R.act[q]
        if D and (D[0] != 'reduce' or D[1] not in dflt[q]):
            V('state %d has the default %s, the most frequent reductions are by %s' % (n, D, dflt[q]), 'default')
        if not D and dflt[q] and not free[q]:
            V('state %d has no default' % n, 'default')
        for t in g.terms:
            s = '$' if t == '$end' else t
            a = act.get(t)
            ctx.ev()
            if a is None or a[0] == 'none':
                want = None
            elif a[0] == 'e':
                want = ('error', 0)
            elif a[0] == 'r':
                want = None if D and D[1] == a[1] else ('reduce', a[1])
            else:
                want = target(q, a[1], False)
            check1(n, s, seen.get(s), want, V)
        a = act.get('$end')
        want = None if a is None or a[0] == 'none' or (D and a[0] == 'r' and D[1] == a[1]) else ('error', 0) if a[0] == 'e' else ('reduce', a[1])
        check1(n, '$', seen.get('$'), want, V)
        for s in nt:
            want = None
            if s in lr.trans[q] and s != g.start or q == 0 and s == g.start:
                want = goto(q, s) if compress else (('accept', 0) if s == g.start else ('shift', lr.trans[q][s]))
                if want[0] == 'loop':
                    if seen.get(s) is None:
                        V('state %d has no action on %s' % (n, s), 'action')
                    continue
            check1(n, s, seen.get(s), want, V)
        extra = set(seen) - set(g.terms) - nt - {'$', 'error'}
        if extra:
            V('state %d: action on %s' % (n, extra), 'action')
        # what lost
        for t in list(act):
            s = '$' if t == '$end' else t
            want = []
            for a, why in R.lost[q].get(t, []):
                if why == 'resolved' and '-p' not in opts:
                    continue
                want.append((('reduce', a[1]) if a[0] == 'r' else ('shift', a[1]), why))
            have = [((k, x if k == 'reduce' or x is not None else None), why) for (k, x), why in lost.pop(s, [])]
            # a state that is not listed has no name
            cmpw = sorted((k, -1 if k == 'shift' and x not in inv else x, why) for (k, x), why in want)
            cmph = sorted((k, -1 if k == 'shift' and x is None else x, why) for (k, x), why in have)
            if cmpw != cmph:
                V('state %d on %s: lost actions %s, expected %s' % (n, s, have, want), 'lost')
        if lost:
            V('state %d: lost actions %s that never were' % (n, lost), 'lost')
        # the tables say the same
        for s in names:
            if s in ('error', '{default}'):
                continue
            a = seen.get(s)
            if s not in nt and a is None:
                a = D
            b = table(n, s)
            want = ('none', 0)
            if a:
                want = (a[0], inv[a[1]] if a[0] == 'shift' else num[a[1]] if a[0].endswith('reduce') else 0)
            if s in nt and a is None:
                continue
            # after a reduction the symbol is on the stack already
            if want[0] == 'shift-reduce' and s in nt:
                want = ('reduce', want[1])
            if b != want and not (want[0] == 'none' and b[0] in ('error', 'none')):
                V('state %d on %s: the tables say %s, the report %s' % (n, s, b, want), 'tables')
    # ---- statistics
    st = {k: int(v) for k, v in re.findall(r'^ *(.*?)\.* +(\d+)$', stats, re.M)}
    mac = {k: int(v) for k, v in re.findall(r'^#define (YY\w+) +\(?(-?\d+)\)?$', src, re.M)}
    size = 0
    for a in ['yy_action', 'yy_lookahead', 'yy_shift_ofst', 'yy_reduce_ofst', 'yy_default', 'yyFallback']:
        ty, l = array(src, a)
        if a == 'yyFallback':
            if not re.search(r'^#define YYFALLBACK', src, re.M):
                continue
        ty = ty if ty in SIZE else re.search(r'^#define %s ([\w ]+)$' % ty, src, re.M).group(1)
        size += SIZE[ty] * len(l)
        if a == 'yy_lookahead':
            # the table ends with a tail for the longest possible row, which does not count as used
            used = st.get('lookahead table entries', -1)
            if not len(array(src, 'yy_action')[1]) <= used <= len(l) or set(l[used:]) - {len(named) + 1}:
                V('statistics: %d lookahead table entries; the table is %s' % (used, l), 'statistics')
            size -= SIZE[ty] * (len(l) - used)
    want = {'terminal symbols': len(named) + 1, 'non-terminal symbols': len(names) - len(named) - 1, 'total symbols': len(names), 'rules': len(g.rules),
            'states': len(ref), 'conflicts': R.SR + R.RR, 'action table entries': len(array(src, 'yy_action')[1]), 'total table size (bytes)': size}
    for k, v in want.items():
        if st.get(k) != v:
            V('statistics: %s %s, expected %d' % (k, st.get(k), v), 'statistics')
    for k, v in [('YYNSTATE', len(ref)), ('YYNRULE', len(g.rules)), ('YYNTOKEN', len(named) + 1), ('YYNRULE_WITH_ACTION', len(code)),
                 ('YY_ACTTAB_COUNT', len(array(src, 'yy_action')[1]))]:
        if mac.get(k) != v:
            V('%s is %s, expected %d' % (k, mac.get(k), v), 'macros')
    ctx.ev(12)
    return free


def check1(n, s, got, want, V):
    if got != want:
        V('state %d on %s: %s, expected %s' % (n, s, got, want), 'action')


def decode(src, V, names):
    mac = {k: int(v) for k, v in re.findall(r'^#define (YY\w+) +\(?(-?\d+)\)?$', src, re.M)}
    T = {a: array(src, a)[1] for a in ['yy_action', 'yy_lookahead', 'yy_shift_ofst', 'yy_reduce_ofst', 'yy_default']}
    idx = {s: i for i, s in enumerate(names)}
    ntok = mac['YYNTOKEN']

    def kind(a):
        if a <= mac['YY_MAX_SHIFT']:
            return ('shift', a)
        if mac['YY_MIN_SHIFTREDUCE'] <= a <= mac['YY_MAX_SHIFTREDUCE']:
            return ('shift-reduce', a - mac['YY_MIN_SHIFTREDUCE'])
        if mac['YY_MIN_REDUCE'] <= a <= mac['YY_MAX_REDUCE']:
            return ('reduce', a - mac['YY_MIN_REDUCE'])
        if a == mac['YY_ERROR_ACTION']:
            return ('error', 0)
        if a == mac['YY_ACCEPT_ACTION']:
            return ('accept', 0)
        if a == mac['YY_NO_ACTION']:
            return ('none', 0)
        V('action number %d' % a, 'tables')

    def look(n, s):
        i = idx[s]
        if i < ntok:
            if n > mac['YY_SHIFT_COUNT']:
                return kind(T['yy_default'][n])
            o = T['yy_shift_ofst'][n] + i
            if not 0 <= o < len(T['yy_lookahead']):
                V('state %d on %s: place %d of the tables' % (n, s, o), 'tables')
            if T['yy_lookahead'][o] != i or o >= len(T['yy_action']):
                return kind(T['yy_default'][n])
            return kind(T['yy_action'][o])
        if n > mac['YY_REDUCE_COUNT']:
            return kind(T['yy_default'][n])
        o = T['yy_reduce_ofst'][n] + i
        if not 0 <= o < len(T['yy_action']) or T['yy_lookahead'][o] != i:
            return kind(T['yy_default'][n])
        return kind(T['yy_action'][o])
    return look


SPEC = dict(
    tests={
        'small': (check, 6000, 100000),
        'big': (lambda c, x: check(c, x, True), 500, 9000),
    },
    rule='a case is a random grammar with precedences, labels, actions and a wildcard, and random options (-z -u -b -p -c -r ...); the .out file is parsed and its rules, symbols, '
         'FIRST sets, levels, states, items, actions, marks of lost actions and defaults are compared with the reference LALR(1) automaton under the documented '
         'resolution, elimination of states that only reduce and unit-rule shortcut; the parser tables are decoded and must say the same, and the -s statistics and '
         'YY... macros must agree. Non-trivial: more than 4 states listed; distinct by text',
    assumptions=['the reference LALR(1) construction in vlib/gram.py'],
)
