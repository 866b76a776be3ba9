"""L07: lemon parsers recover from errors and report them by the documented hooks."""
import re
from vlib import lemon, sim
from vlib.engine import Violation, Discard
from vlib.gram import Grammar, Rule, LR
from props import l01

PRE = r'''%include {
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <assert.h>
#include "g.h"
static int nid;
static int make(void) { printf("=%d", ++nid); return nid; }
static void take(int v) { printf(",%d", v); }
}
%token_type {int}
%default_type {int}
%token_destructor { printf(" d%d", $$); }
%default_destructor { printf(" D%d", $$); }
%syntax_error { printf(" E%d:%d", yymajor, TOKEN); }
%parse_accept { printf(" A"); }
%parse_failure { printf(" F"); }
%stack_overflow { printf(" O"); }
'''

POST = r'''%code {
TOKCODES
int main(void)
{
    static char buf[1 << 16];
    while (fgets(buf, sizeof buf, stdin)) {
        char *s = buf;
        void *p = ParseAlloc(malloc);
        nid = 0;
        for (;;) {
            char *e;
            long t = strtol(s, &e, 10);
            if (e == s) break;
            s = e;
            if (t) { nid++; printf(" T%d", nid); Parse(p, tokcode[t], nid); }
            else { printf(" $"); Parse(p, 0, 0); }
        }
        printf(" X");
        ParseFree(p, free);
        printf("\n");
        fflush(stdout);
    }
    return 0;
}
}
'''


def grammar(c):
    g, lr, act = l01.grammar(c, 'small')
    g = l01.reachable_only(g)
    rules = list(g.rules)
    terms = list(g.terms)
    start = g.start
    k = c.draw(4)
    if k:
        # statements in a list
        used = set(terms) | set(g.nts) | {'error'}

        def new(l):
            n = next(x for x in l if x not in used)
            used.add(n)
            return n
        semi, lst, stmt, goal = new(['SEMI', 'SC', 'Q9']), new(['list', 'lst', 'z9']), new(['stmt', 'st', 'z8']), new(['prog', 'all', 'z7'])
        sep = c.bool()
        terms.append(semi)
        r = [Rule(goal, [lst])]
        if sep:
            r += [Rule(lst, [stmt]), Rule(lst, [lst, semi, stmt])]
            r += [Rule(stmt, [start])]
            if c.bool(4, 5):
                r += [Rule(stmt, ['error'])]
        else:
            r += [Rule(lst, c.pick([[], [stmt]])), Rule(lst, [lst, stmt])]
            r += [Rule(stmt, [start, semi])]
            if c.bool(4, 5):
                r += [Rule(stmt, c.pick([['error', semi], ['error', semi], ['error']]))]
        rules = r + rules
        start = goal
    if k in (0, 3):
        nts = [x for x in dict.fromkeys(r.lhs for r in rules) if x != start]
        for _ in range(c.int(1, 3)):
            if nts:
                rhs = ['error'] + c.pick([[], [c.pick(terms)], [c.pick(terms)], [c.pick(terms), c.pick(nts)]])
                if c.bool(1, 4):
                    rhs = [c.pick(terms)] + rhs
                rules.append(Rule(c.pick(nts), rhs))
    seen, out = set(), []
    for r in rules:
        if (r.lhs, tuple(r.rhs)) not in seen:
            seen.add((r.lhs, tuple(r.rhs)))
            out.append(r)
    errs = any('error' in r.rhs for r in out)
    g = Grammar(terms + (['error'] if errs else []), out, start)
    if lemon.endless(g):
        raise Discard('endless reductions')
    try:
        lr = LR(g, limit=400)
    except OverflowError:
        raise Discard('too many states')
    act = []
    can = set()
    for q in range(lr.n):
        d = {}
        for t, l in lr.raw_actions(q).items():
            if t == 'error':
                l = [a for a in l if a[0] == 's']       # nothing is ever reduced because of the error symbol
            if len(l) > 1:
                raise Discard('conflict')
            if l:
                d[t] = l[0]
                if l[0][0] == 'r':
                    can.add(l[0][1])
        act.append(d)
    if len(can) + 0 < len(g.rules):
        raise Discard('a rule that can only be reduced at an error')
    return g, lr, act, errs


def defaults(g, lr, act):
    """the default reduction of every state; None if that is not unique somewhere"""
    out = []
    for d in act:
        n = {}
        for t, a in d.items():
            if a[0] == 'r' and g.rules[a[1] - 1].lhs != g.start:
                n[a[1]] = n.get(a[1], 0) + 1
        b = [r for r in n if n[r] == max(n.values())]
        if len(b) > 1:
            return None
        out.append(b[0] if b else 0)
    return out


class Model:
    """the behaviour lempar.c documents, on plain LR tables"""
    def __init__(self, g, lr, act, dflt, errs, norec):
        self.g, self.lr, self.act, self.dflt, self.errs, self.norec = g, lr, act, dflt, errs, norec
        self.st = [(0, None, None)]       # state, symbol, value
        self.left = 0                     # shifts until an error is reported again
        self.n = 0
        self.out = []
        self.stat = {}

    def count(self, k):
        self.stat[k] = self.stat.get(k, 0) + 1

    def drop(self, s, v):
        if s == '$end' or s == 'error':
            return
        self.out.append('%s%d' % ('d' if s in self.g.terms else 'D', v))

    def fail(self):
        while len(self.st) > 1:
            self.drop(*self.st.pop()[1:])
        self.out.append('F')
        self.left = 0

    def feed(self, t, v, code):
        hit = False
        for _ in range(20000):
            q = self.st[-1][0]
            a = self.act[q].get(t) or (('r', self.dflt[q]) if self.dflt[q] else None)
            if a and a[0] == 'r':
                r = self.g.rules[a[1] - 1]
                n = len(r.rhs)
                ch = self.st[len(self.st) - n:] if n else []
                if n:
                    del self.st[len(self.st) - n:]
                self.n += 1
                self.out.append('r%d%s=%d' % (a[1], ''.join(',%d' % x[2] for x in ch if x[1] != 'error'), self.n))
                if r.lhs == self.g.start:
                    assert len(self.st) == 1 and t == '$end'
                    self.out.append('A')
                    self.left = 0
                    return
                self.st.append((self.lr.trans[self.st[-1][0]][r.lhs], r.lhs, self.n))
                continue
            if a:
                assert a[0] == 's'
                self.st.append((a[1], t, v))
                self.left -= 1
                return
            # an error
            if self.norec:
                self.out.append('E%d:%d' % (code, v))
                self.drop(t, v)
                return
            if self.left <= 0:
                self.out.append('E%d:%d' % (code, v))
                self.count('reported')
            else:
                self.count('suppressed')
            self.left = 3
            if not self.errs:
                self.drop(t, v)
                if t == '$end':
                    self.fail()
                return
            if (self.st[-1][1] == 'error' or hit) and t != '$end':
                self.drop(t, v)
                self.count('discarded')
                return
            while len(self.st) > 1 and self.act[self.st[-1][0]].get('error', 'x')[0] != 's':
                self.drop(*self.st.pop()[1:])
                self.count('popped')
            if len(self.st) == 1 or t == '$end':
                self.drop(t, v)
                self.fail()
                self.count('failed')
                return
            self.st.append((self.act[self.st[-1][0]]['error'][1], 'error', v))
            hit = True
            self.count('error shifted')
        raise Discard('endless')


def check(c, ctx):
    g, lr, act, errs = grammar(c)
    opts = c.subset(['-r', '-l', '-q'], 1, 5)
    dflt = defaults(g, lr, act)
    if dflt is None or c.bool(1, 4):
        opts.append('-c')
        dflt = [0] * lr.n
    norec = not errs and c.bool(1, 4)
    named = [t for t in g.terms if t != 'error']
    pool = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
    rt = []
    for i, r in enumerate(g.rules, 1):
        lab = {k: 'v' + pool[k] for k, s in enumerate(r.rhs) if s != 'error'}
        rt.append(lemon.rule_text(r, lab, 'vR') + ' { printf(" r%d"); %svR = make(); }\n' % (i, ''.join('take(%s); ' % x for x in lab.values())))
    text = PRE + ('%include {\n#define YYNOERRORRECOVERY 1\n}\n' if norec else '') + '%stack_size ' + c.pick(['0', '500']) + '\n' \
        + lemon.decls(Grammar(named, g.rules, g.start)) + ''.join(rt) + POST.replace('TOKCODES', lemon.tokcodes(named))
    d = ctx.dir()
    p = lemon.run(ctx, d, text, opts)
    if p.rc or p.errs.strip():
        raise Violation('lemon %s rejects the grammar: %s' % (' '.join(opts), p.errs[:500]), 'rejected')
    exe = lemon.cc(ctx, d, 'g.c', 'p', flags=c.pick([['-O0'], ['-O0'], ['-O0', '-DNDEBUG'], ['-O0', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']]))
    idx = {t: i for i, t in enumerate(named, 1)}
    h = open(d + '/g.h').read()
    codes = {k: int(v) for k, v in re.findall(r'^(?:#define)?\s*(\w+)\s*=?\s+(\d+),?$', h, re.M)}
    ws = [w for w in sim.inputs_for(c, g, 12, 30, depth=7, exhaustive=15) if 'error' not in w]
    # runs of good tokens between errors, of every small length
    for w in list(ws)[:6]:
        if len(w) > 2:
            x = list(w)
            for _ in range(c.int(2, 4)):
                x.insert(c.draw(len(x) + 1), c.pick(named))
            ws.append(x)
    cases = []
    for w in ws:
        l = [w] + [c.pick(ws) for _ in range(c.weighted([(5, 0), (3, 1), (1, 2), (1, 3)]))]
        if norec:
            l = l[:1]
        cases.append(l)
    # a cut input
    cuts = [len(w) > 1 and c.bool(1, 6) for w in ws]
    lines = []
    for l, cut in zip(cases, cuts):
        s = []
        for j, w in enumerate(l):
            s += [str(idx[t]) for t in w]
            if not (cut and j == len(l) - 1):
                s.append('0')
        lines.append(' '.join(s))
    out = lemon.run_lines(ctx, exe, lines, d, env={'ASAN_OPTIONS': 'detect_leaks=0'})
    tot = {}
    for l, cut, o in zip(cases, cuts, out):
        m = Model(g, lr, act, dflt, errs, norec)
        for j, w in enumerate(l):
            for t in w:
                m.n += 1
                m.out.append('T%d' % m.n)
                m.feed(t, m.n, codes.get(t, -1))
            if not (cut and j == len(l) - 1):
                m.out.append('$')
                m.feed('$end', 0, 0)
        m.out.append('X')
        while len(m.st) > 1:
            m.drop(*m.st.pop()[1:])
        ctx.ev()
        got = o.split()
        if got != m.out:
            i = next((i for i, (a, b) in enumerate(zip(got, m.out)) if a != b), min(len(got), len(m.out)))
            key = 'stream'
            for k, n in [('E', 'report'), ('F', 'failure'), ('A', 'accept')]:
                if (got + ['-'])[i][:1] == k or (m.out + ['-'])[i][:1] == k:
                    key = n
            raise Violation('lemon %s on %s: event %d should be %s, is %s\nexpected %s\n     got %s' % (
                ' '.join(opts), ' $ '.join(' '.join(w) for w in l), i, (m.out + ['(nothing)'])[i], (got + ['(nothing)'])[i], ' '.join(m.out), o), key)
        for k, v in m.stat.items():
            tot[k] = tot.get(k, 0) + v
    for k, v in tot.items():
        ctx.label(k, v)
    for k, v in [('error rules', errs), ('without recovery', norec), ('-c', '-c' in opts)]:
        if v:
            ctx.label(k)
    if tot.get('reported', 0) > 3 and (not errs or tot.get('error shifted', 0) > 2):
        ctx.nontrivial(text)
        ctx.sample(str(g) + '\n' + '\n'.join(lines[:3]) + '\n' + '\n'.join(out[:3]))


SPEC = dict(
    tests={'recovery': (check, 1800, 26000)},
    rule='a case is a conflict-free grammar, in most cases with error rules (statement lists ended or separated by a token, and error rules anywhere), compiled with lemon '
         '(with and without -c -r -l -q, YYNOERRORRECOVERY, sanitizers) and run on sentences and inputs with up to several errors, one to four inputs on the same parser, some cut '
         'off by ParseFree; the whole stream of hooks, actions with their values and destructors is compared with a reference driver written from the '
         'comments of lempar.c on the LALR(1) automaton. Non-trivial: more than 3 errors reported and, with error rules, more than 2 recoveries; distinct by text',
    assumptions=['when two rules are equally frequent in a state, so that its default reduction is not determined, the grammar is compiled with -c'],
)
