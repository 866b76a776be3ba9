"""L09: lemon parser stacks grow or overflow safely at exactly their limit."""
import re
from vlib import lemon, sim
from vlib.engine import Violation, Discard
from vlib.gram import Grammar, Rule, LR
from props import l01, l07

PRE = r'''%include {
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <assert.h>
#include "g.h"
static int nid, budget = -1;
static long blocks;
static void *get(size_t n) { void *p; p = malloc(n); if (p) { memset(p, 0x5a, n); blocks++; } return p; }
static void put(void *p) { if (p) blocks--; free(p); }
static void *grow(void *o, size_t n)
{
    void *p;
    if (budget == 0) { printf(" G-"); return 0; }
    if (budget > 0) budget--;
    p = realloc(o, n);
    if (p && !o) blocks++;
    return p;
}
static void *first(size_t n) { return grow(0, n); }
#define malloc first
#define realloc grow
#define free put
static int make(void) { printf("=%d", ++nid); return nid; }
static void take(int v) { printf(",%d", v); }
struct val { int id; char pad[PADDING]; int chk; };
static struct val mk(int i) { struct val v; memset(&v, i, sizeof v); v.id = i; v.chk = ~i; return v; }
static int id(struct val v) { int i; for (i = 0; i < PADDING; i++) if (v.pad[i] != (char)v.id) return -1; return v.chk == ~v.id ? v.id : -1; }
}
%token_type {struct val}
%default_type {struct val}
%token_destructor { printf(" d%d", id($$)); }
%default_destructor { printf(" D%d", id($$)); }
%syntax_error { printf(" E%d:%d", yymajor, id(TOKEN)); }
%parse_accept { printf(" A"); }
%parse_failure { printf(" F"); }
%stack_overflow { printf(" O"); }
'''

# line: budget peak? then the tokens
POST = r'''%code {
TOKCODES
int main(void)
{
    static char buf[1 << 18];
    while (fgets(buf, sizeof buf, stdin)) {
        char *s = buf;
        void *p;
        long b = strtol(s, &s, 10);
        blocks = 0;
        budget = (int)b;
        nid = 0;
        p = ParseAlloc(get);
        for (;;) {
            char *e;
            long t = strtol(s, &e, 10);
            if (e == s) break;
            s = e;
            if (t) { nid++; printf(" T%d", nid); Parse(p, tokcode[t], mk(nid)); }
            else { printf(" $"); Parse(p, 0, mk(0)); }
        }
#ifdef YYTRACKMAXSTACKDEPTH
        printf(" P%d", ParseStackPeak(p));
#endif
        printf(" X");
        ParseFree(p, put);
        printf(" M%ld\n", blocks);
        fflush(stdout);
    }
    return 0;
}
}
'''

NESTS = [
    [('s', ['x']), ('x', ['LP', 'x', 'RP']), ('x', ['ID'])],
    [('s', ['x']), ('x', ['ID', 'x']), ('x', ['ID'])],
    [('s', ['l']), ('l', ['ID', 'l']), ('l', [])],
    [('s', ['l']), ('l', ['e', 'ID', 'l']), ('l', ['END']), ('e', [])],
    [('s', ['l', 'END']), ('l', ['l', 'i']), ('l', []), ('i', ['LP', 'l', 'RP']), ('i', ['ID'])],
    [('s', ['v']), ('v', ['LP', 'm', 'RP']), ('v', ['ID']), ('m', []), ('m', ['v']), ('m', ['m', 'SC', 'v'])],
    [('s', ['x']), ('x', ['e', 'LP', 'x', 'RP', 'f']), ('x', ['e', 'ID']), ('e', []), ('f', [])],
    [('s', ['t']), ('t', ['IF', 't', 'ELSE', 't']), ('t', ['ID']), ('t', ['LP', 'error', 'RP']), ('t', ['LP', 't', 'RP'])],
]


class Over(Exception):
    pass


class Model(l07.Model):
    """limit: symbols the stack can hold; failat: lengths of the output at which growing fails"""
    def __init__(self, g, lr, act, dflt, errs, limit, failat):
        l07.Model.__init__(self, g, lr, act, dflt, errs, False)
        self.limit, self.failat, self.peak, self.over = limit, set(failat), 0, 0

    def full(self, code_t, v):
        """room for one more?"""
        if (self.limit is not None and len(self.st) - 1 >= self.limit) or len(self.out) in self.failat:
            if len(self.out) in self.failat:
                self.failat.discard(len(self.out))
                self.out.append('G-')
            while len(self.st) > 1:
                self.drop(*self.st.pop()[1:])
            if code_t != 'error':
                self.drop(code_t, v)
            self.out.append('O')
            self.over += 1
            return True
        self.peak = max(self.peak, len(self.st))
        return False

    def feed(self, t, v, code):
        hit = False
        for _ in range(20000):
            q = self.st[-1][0]
            a = self.act[q].get(t) or (('r', self.dflt[q]) if self.dflt[q] else None)
            if a and a[0] == 'r':
                r = self.g.rules[a[1] - 1]
                n = len(r.rhs)
                if not n and self.full(t, v):
                    return
                ch = self.st[len(self.st) - n:] if n else []
                if n:
                    del self.st[len(self.st) - n:]
                self.n += 1
                self.out.append('r%d%s=%d' % (a[1], ''.join(',%d' % x[2] for x in ch if x[1] != 'error'), self.n))
                if r.lhs == self.g.start:
                    self.out.append('A')
                    self.left = 0
                    return
                self.st.append((self.lr.trans[self.st[-1][0]][r.lhs], r.lhs, self.n))
                continue
            if a:
                if not self.full(t, v):
                    self.st.append((a[1], t, v))
                self.left -= 1
                return
            if self.left <= 0:
                self.out.append('E%d:%d' % (code, v))
            self.left = 3
            if not self.errs:
                self.drop(t, v)
                if t == '$end':
                    self.fail()
                return
            if (self.st[-1][1] == 'error' or hit) and t != '$end':
                self.drop(t, v)
                return
            while len(self.st) > 1 and self.act[self.st[-1][0]].get('error', 'x')[0] != 's':
                self.drop(*self.st.pop()[1:])
            if len(self.st) == 1 or t == '$end':
                self.drop(t, v)
                self.fail()
                return
            if not self.full('error', v):
                self.st.append((self.act[self.st[-1][0]]['error'][1], 'error', v))
            hit = True
        raise Discard('endless')


def deep(c, g, n):
    """a sentence that goes deep: expand the recursive rules n times"""
    rules = {}
    for r in g.rules:
        rules.setdefault(r.lhs, []).append(r)
    h = {}
    ch = True
    ts = set(g.terms)
    while ch:
        ch = False
        for r in g.rules:
            if 'error' in r.rhs:
                continue
            if all(s in ts or s in h for s in r.rhs):
                k = 1 + max([h[s] for s in r.rhs if s in h] or [0])
                if h.get(r.lhs, 10 ** 9) > k:
                    h[r.lhs] = k
                    ch = True
    # can a nonterminal reach itself?
    rec = {}
    for a in rules:
        seen, todo = set(), [a]
        while todo:
            for r in rules.get(todo.pop(), []):
                for s in r.rhs:
                    if s in rules and s not in seen:
                        seen.add(s)
                        todo.append(s)
        rec[a] = a in seen
    out, left = [], [n]
    todo = [(g.start, True)]
    while todo and len(out) < 6000:
        s, on = todo.pop()
        if s not in rules:
            out.append(s)
            continue
        l = [r for r in rules[s] if 'error' not in r.rhs and all(x in ts or x in h for x in r.rhs)]
        if not l:
            return None
        if on and left[0] > 0:
            left[0] -= 1
            m = [r for r in l if any(x in rec and rec[x] for x in r.rhs)] or l
            r = c.pick(m)
        else:
            r = min(l, key=lambda r: max([h[x] for x in r.rhs if x in h] or [0]))
        k = [i for i, x in enumerate(r.rhs) if x in rules and rec[x]]
        go = c.pick(k) if k else -1
        todo += reversed([(x, on and i == go) for i, x in enumerate(r.rhs)])
    return out if not todo else None


def check(c, ctx, kind):
    if c.bool():
        rs = c.pick(NESTS)
        rules = [Rule(a, list(b)) for a, b in rs]
        nts = {a for a, b in rs}
        terms = list(dict.fromkeys(s for a, b in rs for s in b if s not in nts and s != 'error'))
        errs = any('error' in b for a, b in rs)
        g = Grammar(terms + (['error'] if errs else []), rules, 's')
        lr = LR(g)
        act = []
        for q in range(lr.n):
            row = {}
            for t, l in lr.raw_actions(q).items():
                l = [a for a in l if t != 'error' or a[0] == 's']
                assert len(l) < 2
                if l:
                    row[t] = l[0]
            act.append(row)
    else:
        g, lr, act, errs = l07.grammar(c)
    opts = c.subset(['-r', '-l', '-q'], 1, 5)
    dflt = l07.defaults(g, lr, act)
    if dflt is None or c.bool(1, 4):
        opts.append('-c')
        dflt = [0] * lr.n
    named = [t for t in g.terms if t != 'error']
    # what sentences need
    depths = [c.int(0, 4), c.int(3, 12), c.int(5, 40), c.int(40, 120)] + ([c.int(150, 1400)] if kind == 'dynamic' else [])
    ws = [w for w in (deep(c, g, k) for k in depths) if w is not None]
    ws += [w for w in sim.inputs_for(c, g, 6, 8, depth=8, exhaustive=8) if 'error' not in w]
    for w in ws[:3]:
        x = list(w)
        for _ in range(c.int(1, 3)):
            x.insert(c.draw(len(x) + 1), c.pick(named))
        ws.append(x)
    need = []
    for w in ws:
        m = Model(g, lr, act, dflt, errs, None, [])
        for t in w + ['$end']:
            m.n += t != '$end'
            m.feed(t, m.n, 0)
        need.append(m.peak)
    flags = c.subset(['-DNDEBUG', '-DYYTRACKMAXSTACKDEPTH'], 1, 3)
    flags += c.pick([['-O0'], ['-O0', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']])
    decl = ''
    if kind == 'fixed':
        near = [n for n in need if n < 200]
        size = c.weighted([(6, -1), (1, 100), (1, c.int(1, 6)), (1, c.int(7, 60))])
        if size < 0:
            size = max(1, c.pick(near or [3]) + c.pick([0, 1, 1, 2, 1]))
        how = c.draw(4)
        if size == 100 and how < 2:
            pass
        elif how == 0:
            flags.append('-DYYSTACKDEPTH=%d' % size)
            decl = c.pick(['', '%stack_size 77\n'])
        else:
            decl = '%%stack_size %s\n' % ('%d' % size)
        limit = size - 1
    else:
        limit = None
        if c.bool():
            decl = '%%stack_size %d\n' % c.pick([0, 0, 0])
        else:
            flags.append('-DYYSTACKDEPTH=%d' % c.pick([0, -1, 0]))
    rt = []
    pool = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
    for i, r in enumerate(g.rules, 1):
        lab = {k: 'v' + pool[k] for k, s in enumerate(r.rhs) if s != 'error'}
        rt.append(lemon.rule_text(r, lab, 'vR') + ' { printf(" r%d"); %svR = mk(make()); }\n' % (i, ''.join('take(id(%s)); ' % x for x in lab.values())))
    text = PRE.replace('PADDING', str(c.pick([1, 3, 40]))) + decl + lemon.decls(Grammar(named, g.rules, g.start)) + ''.join(rt) + POST.replace('TOKCODES', lemon.tokcodes(named))
    d = ctx.dir()
    p = lemon.run(ctx, d, text, opts)
    if p.rc or p.errs.strip():
        raise Violation('lemon %s rejects the grammar: %s' % (' '.join(opts), p.errs[:500]), 'rejected')
    exe = lemon.cc(ctx, d, 'g.c', 'p', flags=flags)
    idx = {t: i for i, t in enumerate(named, 1)}
    h = open(d + '/g.h').read()
    codes = {k: int(v) for k, v in re.findall(r'^(?:#define)?\s*(\w+)\s*=?\s+(\d+),?$', h, re.M)}
    cases, lines = [], []
    for w in ws:
        l = [w] + [c.pick(ws) for _ in range(c.weighted([(3, 0), (3, 1), (2, 2)]))]
        b = -1
        if kind == 'dynamic':
            b = c.pick([-1, -1, 0, 1, 2, 3])
        cut = c.bool(1, 6) and len(l[-1]) > 1
        s = [str(b)]
        for j, x in enumerate(l):
            s += [str(idx[t]) for t in x]
            if not (cut and j == len(l) - 1):
                s.append('0')
        if len(' '.join(s)) < 200000:
            cases.append((l, cut, b))
            lines.append(' '.join(s))
    out = lemon.run_lines(ctx, exe, lines, d, env={'ASAN_OPTIONS': 'detect_leaks=0'})
    overs = tight = 0
    for (l, cut, b), o in zip(cases, out):
        got = o.split()
        start = 0
        if got and got[0] == 'G-':      # the first block is not to be had
            got = got[1:]
            start = 1
        fails = []
        for i, x in enumerate(got):
            if x == 'G-':
                fails.append(i)
        m = Model(g, lr, act, dflt, errs, limit, fails)
        for j, w in enumerate(l):
            for t in w:
                m.n += 1
                m.out.append('T%d' % m.n)
                m.feed(t, m.n, codes.get(t, -1))
            if not (cut and j == len(l) - 1):
                m.out.append('$')
                m.feed('$end', 0, 0)
        if '-DYYTRACKMAXSTACKDEPTH' in flags:
            m.out.append('P')
            pk = [x for x in got if x[0] == 'P']
            if len(pk) != 1:
                raise Violation('no stack peak: %s' % o[-300:], 'peak')
            got[got.index(pk[0])] = 'P'
        m.out.append('X')
        while len(m.st) > 1:
            m.drop(*m.st.pop()[1:])
        m.out.append('M0')
        ctx.ev()
        overs += m.over
        tight += limit is not None and m.peak == limit
        if got != m.out:
            i = next((i for i, (x, y) in enumerate(zip(got, m.out)) if x != y), min(len(got), len(m.out)))
            key = 'overflow' if 'O' in (got[i:i + 1] + m.out[i:i + 1]) else 'memory' if got[i:i + 1] and got[i][0] == 'M' else 'stream'
            raise Violation('lemon %s, %s %s on %s: event %d should be %s, is %s\nexpected %s\n     got %s' % (
                ' '.join(opts), decl.strip(), ' '.join(flags), ' $ '.join(' '.join(w) for w in l)[:1500], i, (m.out + ['(nothing)'])[i], (got + ['(nothing)'])[i],
                ' '.join(m.out[max(0, i - 30):i + 30]), ' '.join(got[max(0, i - 30):i + 30])), key)
        if '-DYYTRACKMAXSTACKDEPTH' in flags and not m.over and int(pk[0][1:]) != m.peak:
            raise Violation('lemon %s %s on %s: ParseStackPeak says %s, the deepest stack was %d' % (' '.join(opts), ' '.join(flags), ' '.join(l[0])[:500], pk[0][1:], m.peak), 'peak')
    ctx.label('overflows', overs)
    ctx.label('stack exactly full', tight)
    for k, v in [('error rules', errs), ('sanitized', any('sanit' in f for f in flags)), ('peak', '-DYYTRACKMAXSTACKDEPTH' in flags)]:
        if v:
            ctx.label(k)
    if kind == 'dynamic' and (max(need) > 100 or overs) or overs and len(out) > overs // 3:
        ctx.nontrivial(text + str(flags))
        ctx.sample('%s %s\n%s\n' % (decl.strip(), flags, g) + '\n'.join(x[:200] for x in out[:3]))


SPEC = dict(
    tests={
        'fixed': (lambda c, x: check(c, x, 'fixed'), 900, 18000),
        'dynamic': (lambda c, x: check(c, x, 'dynamic'), 700, 9000),
    },
    rule='a case is a conflict-free grammar (nested, right-recursive, with empty rules at every depth, with error rules, or random) with a fixed stack (%stack_size, '
         '-DYYSTACKDEPTH or the default) of about the size that some generated input needs, or a growing stack whose n-th allocation fails; inputs of depth 0 to '
         '1400, several in a row and some cut off, run with values of several sizes, with and without sanitizers and assertions; the stream of hooks, actions, values and '
         'destructors must be that of a reference driver with a stack of that size, all blocks must be freed, and ParseStackPeak must be right. '
         'Non-trivial: overflows and other inputs occur, or depth over 100; distinct by text and flags',
    assumptions=['a stack of size N holds N-1 symbols (one entry is for the initial state)'],
)
