"""L08: %fallback, %wildcard and %token_class widen the language exactly as declared."""
import re
from vlib import lemon, sim
from vlib.lgram import Multi
from vlib.engine import Violation, Discard
from vlib.gram import Grammar, Rule, LR
from props import l01, l06, l07


def grammar(c):
    g, lr, act = l01.grammar(c, 'small')
    g = l01.reachable_only(g)
    rules = list(g.rules)
    terms = list(g.terms)
    nm = iter([t for t in ['KW1', 'KW2', 'KW3', 'ANY', 'IDENT', 'KW4', 'KW5', 'K6'] if t not in terms])
    fb = {}
    extra = []
    for _ in range(c.int(0, 3)):
        t = next(nm)
        extra.append(t)
        # some of the new tokens get rules of their own
        if c.bool():
            r = c.pick(rules)
            rhs = list(r.rhs)
            if rhs and c.bool():
                rhs[c.draw(len(rhs))] = t
            else:
                rhs.insert(c.draw(len(rhs) + 1), t)
            rules.append(Rule(r.lhs, rhs))
    wild = None
    if c.bool():
        if c.bool():
            wild = next(nm)
            terms.append(wild)
            for _ in range(c.int(1, 2)):
                r = c.pick(rules)
                rhs = list(r.rhs)
                if rhs and c.bool(2, 3):
                    rhs[c.draw(len(rhs))] = wild
                else:
                    rhs.insert(c.draw(len(rhs) + 1), wild)
                if (r.lhs, tuple(rhs)) not in {(x.lhs, tuple(x.rhs)) for x in rules} and r.lhs not in rhs[:1] + [None]:
                    rules.append(Rule(r.lhs, rhs))
        else:
            wild = c.pick(terms)
    seen, out = set(), []
    for r in rules:
        if (r.lhs, tuple(r.rhs)) not in seen:
            seen.add((r.lhs, tuple(r.rhs)))
            out.append(r)
    terms += extra
    groups = []
    pool = list(terms)
    for _ in range(c.weighted([(1, 0), (4, 1), (3, 2), (1, 3)])):
        to = c.pick(terms)
        ms = [t for t in c.subset(terms, 1, 2) if t != to and t not in fb]
        ok = []
        for t in ms:
            x, n = to, 0
            while x in fb and x != t:
                x = fb[x]
            if x != t:
                fb[t] = to
                ok.append(t)
        if ok:
            groups.append((to, ok))
    g = Grammar(terms, out, g.start)
    if any(g.start in r.rhs for r in out) or lemon.endless(g):
        raise Discard('start')
    return g, fb, groups, wild, extra


def explicit(d, t, fb, wild):
    """what a state with the plain actions d does on t: (action, how)"""
    x = t
    n = 0
    while x is not None:
        if x in d:
            return d[x], 'itself' if x == t else 'fallback' if n == 1 else 'chain'
        x = fb.get(x)
        n += 1
    if wild in d and t != '$end':
        return d[wild], 'wildcard'
    return None, 'error'


class Model(l07.Model):
    def __init__(self, M, lr, act, fb, wild, src):
        l07.Model.__init__(self, M.g, lr, act, None, False, False)
        self.fb, self.wild, self.src, self.M = fb, wild, src, M

    def feed(self, t, v, code):
        for _ in range(20000):
            a, how = explicit(self.act[self.st[-1][0]], t, self.fb, self.wild)
            if a and a[0] == 's':
                self.count('token as ' + how)
                self.st.append((a[1], t, (v, code)))
                self.left -= 1
                return
            if a:
                lhs, rhs = self.lr.rules[a[1]]
                n = len(rhs)
                ch = self.st[len(self.st) - n:] if n else []
                if n:
                    del self.st[len(self.st) - n:]
                self.n += 1
                self.out.append('r%d%s=%d' % (self.src[a[1] - 1], ''.join(',%d@%d' % x[2] if isinstance(x[2], tuple) else ',%d' % x[2] for x in ch), self.n))
                if lhs == self.g.start:
                    self.out.append('A')
                    self.left = 0
                    return
                self.st.append((self.lr.trans[self.st[-1][0]][lhs], lhs, self.n))
                continue
            if self.left <= 0:
                self.out.append('E%d:%d' % (code, v))
            self.left = 3
            self.count('error')
            self.drop(t, v)
            if t == '$end':
                self.fail()
            return
        raise Discard('endless')

    def drop(self, s, v):
        l07.Model.drop(self, s, v[0] if isinstance(v, tuple) else v)


PRE = l07.PRE.replace('static void take(int v)', 'static void code(int v, int m) { printf(",%d@%d", v, m); }\nstatic void take(int v)')


def check(c, ctx, kind):
    g, fb, groups, wild, extra = grammar(c)
    fresh = ['F%d' % i for i in range(1, c.pick([0, 0, 6, 20]) + 1)] if kind == 'mix' else ['F%d' % i for i in range(1, c.pick([0, 10, 20, 30]) + 1)]
    if fresh:
        g = Grammar(c.shuffle(g.terms + fresh) if c.bool(1, 3) else g.terms + fresh, g.rules, g.start, g.prec)
    M = Multi(c, g, *(c.pick([(0, 1), (0, 1), (1, 6)]) if kind == 'mix' else (1, 3)), fresh=fresh)
    if kind == 'classes' and not M.alts:
        raise Discard('no classes')
    e = M.expand(lambda r: None)
    try:
        lr = LR(e, limit=400)
    except OverflowError:
        raise Discard('too many states')
    act = sim.conflict_free_actions(lr)
    if act is None:
        raise Discard('conflict')
    if {x[1] for d in act for x in d.values() if x[0] == 'r'} != set(range(1, len(e.rules) + 1)):
        raise Discard('rule never reduced')
    opts = c.subset(['-c', '-r', '-l', '-q'], 1, 4)
    pool = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
    rt = []
    terms = set(e.terms)
    for i, r in enumerate(M.g.rules, 1):
        lab = {k: 'v' + pool[k] for k, s in enumerate(r.rhs)}
        code = ''.join('code(%s, @%s); ' % (lab[k], lab[k]) if s in terms or s in M.alts else 'take(%s); ' % lab[k] for k, s in enumerate(r.rhs))
        rt.append(M.rule_text(r, lab, 'vR') + ' { printf(" r%d"); %svR = make(); }\n' % (i, code))
    dl = ''.join('%%fallback %s %s.\n' % (to, ' '.join(ms)) for to, ms in groups)
    if wild:
        dl += '%%wildcard %s.\n' % wild
    text = PRE + '%stack_size ' + c.pick(['0', '500']) + '\n'
    named = g.all_terms()
    decl = lemon.decls(Grammar(named, g.rules, g.start))
    parts = [decl, dl + M.decls()]
    if c.bool(1, 4):
        parts.reverse()
    rules = ''.join(rt)
    if c.bool(1, 4):
        text += parts[0] + rules + parts[1] if not M.classes else ''.join(parts) + rules
    else:
        text += ''.join(parts) + rules
    text += l07.POST.replace('TOKCODES', lemon.tokcodes(named))
    d = ctx.dir()
    p = lemon.run(ctx, d, text, opts)

    def V(m, k):
        raise Violation('lemon %s%s: %s' % (' '.join(opts), ''.join(', fallback %s <- %s' % (a, ' '.join(b)) for a, b in groups) + (', wildcard ' + wild if wild else ''), m), k)
    if 'parsing conflicts' in p.errs and M.alts:
        raise Discard('conflict by multi-terminals')
    if p.rc or p.errs.strip():
        V('the grammar is rejected: %s' % p.errs[:500], 'rejected')
    exe = lemon.cc(ctx, d, 'g.c', 'p', flags=c.pick([['-O0'], ['-O0'], ['-O0', '-DNDEBUG'], ['-O0', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']]))
    idx = {t: i for i, t in enumerate(named, 1)}
    h = open(d + '/g.h').read()
    codes = {k: int(v) for k, v in re.findall(r'^(?:#define)?\s*(\w+)\s*=?\s+(\d+),?$', h, re.M)}
    ws = sim.inputs_for(c, e, 14, 12, depth=7, exhaustive=25)
    # replace tokens by ones that fall back to them or that a wildcard covers
    back = {}
    for t in fb:
        x = t
        while x in fb:
            x = fb[x]
            back.setdefault(x, []).append(t)
    for w in list(ws)[:14]:
        for _ in range(3):
            x = []
            for t in w:
                if t in back and c.bool():
                    t = c.pick(back[t])
                elif t == wild and c.bool(2, 3):
                    t = c.pick(named)
                elif c.bool(1, 10):
                    t = c.pick(named)
                x.append(t)
            ws.append(x)
    out = lemon.run_lines(ctx, exe, [' '.join([str(idx[t]) for t in w] + ['0']) for w in ws], d, env={'ASAN_OPTIONS': 'detect_leaks=0'})
    src = l06.source(type('S', (), {'M': M}))
    tot = {}
    for w, o in zip(ws, out):
        m = Model(M, lr, act, fb, wild, src)
        m.g = e
        for t in w:
            m.n += 1
            m.out.append('T%d' % m.n)
            m.feed(t, m.n, codes.get(t, -1))
        m.out.append('$')
        m.feed('$end', 0, 0)
        m.out.append('X')
        ctx.ev()
        for k, v in m.stat.items():
            tot[k] = tot.get(k, 0) + v
        got = o.split()
        want = m.out
        cut = next((i for i, x in enumerate(want) if x[0] == 'E'), None)
        if cut is not None and '-c' not in opts:
            # a default reduction may come before the error
            j = cut
            while j < len(got) and got[j][0] == 'r':
                j += 1
            got, want = got[:cut] + got[j:j + 1], want[:cut + 1]
            # values made by these reductions do not count
        if got != want:
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            V('on %s: event %d should be %s, is %s\nexpected %s\n     got %s' % (' '.join(w), i, (want + ['(nothing)'])[i], (got + ['(nothing)'])[i], ' '.join(m.out), o), 'stream')
    for k, v in tot.items():
        ctx.label(k, v)
    for k, v in [('classes', M.classes), ('multi-terminals', M.alts), ('wildcard', wild), ('fallback', fb), ('fallback chains', any(t in fb for t in fb.values()))]:
        if v:
            ctx.label(k)
    if kind == 'mix' and (tot.get('token as fallback', 0) + tot.get('token as chain', 0) > 2 or tot.get('token as wildcard', 0) > 2) or kind != 'mix' and M.alts and tot.get('token as itself', 0) > 10:
        ctx.nontrivial(text)
        ctx.sample(str(g) + '\n' + dl + '\n'.join('%s -> %s' % (' '.join(w), o) for w, o in list(zip(ws, out))[:4]))


def cycles(c, ctx):
    """a fallback that leads back to its token is an error, as is a second fallback for a token; anything else is not"""
    n = c.int(2, 6)
    ts = ['T%d' % i for i in range(n)]
    fb, text, twice = {}, '', False
    for _ in range(c.int(1, 4)):
        to = c.pick(ts)
        ms = c.sample(ts, c.int(1, min(3, n)))
        text += '%%fallback %s %s.\n' % (to, ' '.join(ms))
        for m in ms:
            if m in fb:
                twice = True
            else:
                fb[m] = to
    cyc = False
    for t in ts:
        x, k = t, 0
        while x in fb and k <= n:
            x = fb[x]
            k += 1
        cyc = cyc or k > n
    body = 's ::= ' + ' '.join(c.sample(ts, c.int(1, n))) + '.\n'
    d = ctx.dir()
    t = '%%token %s.\n' % ' '.join(ts)
    p = lemon.run(ctx, d, t + text + body if c.bool() else text + body, c.subset(['-q', '-c'], 1, 3))
    ctx.ev()
    bad = cyc or twice
    if bad != bool(p.rc):
        raise Violation('lemon %s %s: status %d, %s' % ('accepts' if bad else 'rejects', text, p.rc, p.errs), 'cycle')
    if bad and not p.errs.strip():
        raise Violation('no message for %s' % text, 'message')
    ctx.label('cycle' if cyc else 'twice' if twice else 'fine')
    if len(fb) > 1:
        ctx.nontrivial(text + body)


SPEC = dict(
    tests={
        'mix': (lambda c, x: check(c, x, 'mix'), 1500, 20000),
        'classes': (lambda c, x: check(c, x, 'classes'), 800, 10000),
        'cycles': (cycles, 400, 4000),
    },
    rule='a case is a conflict-free grammar with random %fallback groups (chains included), a %wildcard and multi-terminals or token classes, compiled (with and without '
         '-c -r -l -q, assertions, sanitizers) and run on sentences in which tokens are replaced by ones that fall back to them or that the wildcard covers, on mutations and '
         'short exhaustive strings; the stream of actions, with the values and the major codes (@) of the tokens, must be that of a reference parser that uses a token '
         'as itself, then as its fallbacks in turn, then as the wildcard. Without -c the comparison ends at the first error. Non-trivial: more than 2 tokens used as '
         'fallback or wildcard (or, for classes, 10 tokens shifted); distinct by text',
    assumptions=['grammars whose multi-terminals overlap in one state are conflicts to lemon and are left out'],
)
