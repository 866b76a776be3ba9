"""L15: the trace of a lemon parser tells what it does, in the terms of the report, and changes nothing; coverage and fallback queries."""
import re
from vlib import lemon, sim, build
from vlib.engine import Violation, Discard
from vlib.gram import Grammar, Rule
from vlib.lgram import Multi
from props import l02, l03, l07

PRE = r'''%include {
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <assert.h>
#include "g.h"
static int cur;
}
%syntax_error { printf("#E %d %d\n", cur, yymajor); }
%parse_accept { printf("#A %d\n", cur); }
%parse_failure { printf("#F %d\n", cur); }
%stack_overflow { printf("#O %d\n", cur); }
'''

POST = r'''%code {
TOKCODES
int main(void)
{
    void *p[8] = { 0 };
    static char op[8];
    int n, t;
    while (scanf("%1s%d", op, &n) == 2) {
        printf("#\n");
        switch (op[0]) {
        case 'N': cur = n; p[n] = PFXAlloc(malloc); break;
        case 'X': cur = n; PFXFree(p[n], free); p[n] = 0; break;
        case 'P':
            if (scanf("%d", &t) != 1) return 9;
            cur = n;
            PFX(p[n], tokcode[t], 0);
            break;
        case 'T':
#ifndef NDEBUG
            switch (n) {
            case 0: PFXTrace(0, 0); break;
            case 1: PFXTrace(0, "> "); break;
            case 2: PFXTrace(stdout, 0); break;
            case 3: PFXTrace(stdout, ""); break;
            case 4: PFXTrace(stdout, "> "); break;
            case 5: PFXTrace(stdout, "a % %s: "); break;
            }
#endif
            break;
        case 'C':
#ifdef YYCOVERAGE
            t = PFXCoverage(n ? stdout : 0);
            printf("#missed %d\n", t);
#endif
            break;
        case 'B': printf("#fallback %d\n", PFXFallback(tokcode[n])); break;
        }
        fflush(stdout);
    }
    return 0;
}
}
'''

PROMPT = {0: None, 1: None, 2: None, 3: '', 4: '> ', 5: 'a % %s: '}


def deep(c):
    """nesting that fills stacks"""
    l = [Rule('s', ['A', 's', 'B']), Rule('s', ['A', 's'])][:1] + [Rule('s', ['C'])]
    if c.bool():
        l.append(Rule('s', []))
    if c.bool():
        l.append(Rule('s', ['C', 'opt', 's']))
        l += [Rule('opt', []), Rule('opt', ['D'])]
    if c.bool(1, 3):
        l.append(Rule('s', ['A', 'error', 'B']))
    ts = ['A', 'B', 'C', 'D'] + (['error'] if any('error' in r.rhs for r in l) else [])
    return Grammar([t for t in ts if any(t in r.rhs for r in l)], l, 's')


class Driver:
    """what lempar.c says it does, on the automaton of the report"""

    def __init__(self, W, who):
        self.W, self.who = W, who
        self.st = [(0, None)]           # a state, or ('p', rule)
        self.err = -1
        self.size = 0
        if W.depth <= 0:
            self.grow()

    def say(self, s):
        if self.W.prompt is not None:
            self.W.out.append(self.W.prompt + s)

    def hook(self, s):
        self.W.out.append('#' + s)

    def grow(self):
        n = self.size * 2 + 100
        self.say('Stack grows from %d to %d entries.' % (self.size, n))
        self.size = n
        if n > 100:
            self.W.stat['grown'] = self.W.stat.get('grown', 0) + 1

    def pop(self):
        self.say('Popping %s' % self.st.pop()[1])

    def full(self):
        """is there no room for one more?"""
        if self.W.depth > 0:
            if len(self.st) < self.W.depth:
                return False
            self.say('Stack Overflow!')
            while len(self.st) > 1:
                self.pop()
            self.hook('O %d' % self.who)
            self.W.stat['overflow'] = self.W.stat.get('overflow', 0) + 1
            return True
        if len(self.st) >= self.size:
            self.grow()
        return False

    def find(self, q, t):
        W = self.W
        if isinstance(q, tuple):
            return ('reduce', q[1])
        W.seen.add((q, t))
        acts, dflt = W.states[q]
        while True:
            if t in acts:
                return acts[t]
            if t in W.fb:
                self.say('FALLBACK %s => %s' % (t, W.fb[t]))
                t = W.fb[t]
                W.stat['fallback'] = W.stat.get('fallback', 0) + 1
                continue
            if W.wild and W.wild in acts and t != '$':
                self.say('WILDCARD %s => %s' % (t, W.wild))
                W.stat['wildcard'] = W.stat.get('wildcard', 0) + 1
                return acts[W.wild]
            return dflt or ('error', 0)

    def shift(self, a, t):
        if self.full():
            return
        if a[0] == 'shift':
            self.st.append((a[1], t))
            self.say("Shift '%s', go to state %d" % (t, a[1]))
        else:
            self.st.append((('p', a[1]), t))
            self.say("Shift '%s', pending reduce %d" % (t, a[1]))

    def fail(self):
        self.say('Fail!')
        while len(self.st) > 1:
            self.pop()
        self.hook('F %d' % self.who)
        self.err = -1

    def feed(self, t, code):
        W = self.W
        q = self.st[-1][0]
        self.say("Input '%s' %s" % (t, 'with pending reduce %d' % q[1] if isinstance(q, tuple) else 'in state %d' % q))
        hit = False
        for _ in range(5000):
            q = self.st[-1][0]
            a = self.find(q, t)
            if a[0] == 'reduce':
                lhs, rhs, text, own = W.rules[a[1]]
                n = len(rhs)
                self.say('Reduce %d [%s]%s%s.' % (a[1], text, '' if own else ' without external action', ', pop back to state %d' % self.st[-1 - n][0] if n else ''))
                if not n and self.full():
                    break
                if own:
                    self.hook('r%d %d' % (own, self.who))
                if n:
                    del self.st[len(self.st) - n:]
                b = W.gotos[self.st[-1][0]].get(lhs)
                if b is None:
                    raise Violation('state %d of the report has no action for %s, to which rule %d reduces' % (self.st[-1][0], lhs, a[1]), 'report')
                if b[0] == 'accept':
                    self.say("... then shift '%s', pending reduce -2" % lhs)
                    self.say('Accept!')
                    self.err = -1
                    self.hook('A %d' % self.who)
                    if len(self.st) != 1:
                        raise Violation('accepts with %d symbols on the stack' % len(self.st), 'report')
                    return
                if b[0] == 'shift':
                    self.st.append((b[1], lhs))
                    self.say("... then shift '%s', go to state %d" % (lhs, b[1]))
                else:
                    self.st.append((('p', b[1]), lhs))
                    self.say("... then shift '%s', pending reduce %d" % (lhs, b[1]))
                continue
            if a[0] in ('shift', 'shift-reduce'):
                self.shift(a, t)
                self.err -= 1
                break
            self.say('Syntax Error!')
            W.stat['error'] = W.stat.get('error', 0) + 1
            if W.norec:
                self.hook('E %d %d' % (self.who, code))
                break
            if self.err <= 0:
                self.hook('E %d %d' % (self.who, code))
            self.err = 3
            if not W.errs:
                if t == '$':
                    self.fail()
                break
            top = self.st[-1][1]
            if (top == 'error' or hit) and t != '$':
                self.say('Discard input token %s' % t)
                break
            b = ('none', 0)
            while len(self.st) > 1:
                b = W.states[self.st[-1][0]][0].get('error', ('none', 0))
                if b[0].startswith('shift'):
                    break
                self.pop()
            if len(self.st) == 1 or t == '$':
                self.fail()
                break
            if top != 'error':
                self.shift(b, 'error')
            hit = True
        else:
            raise Discard('endless')
        self.say('Return. Stack=' + ('[' if len(self.st) > 1 else '') + ' '.join(s for q, s in self.st[1:]) + ']')

    def free(self):
        while len(self.st) > 1:
            self.pop()


class World:
    pass


def check(c, ctx):
    kind = c.weighted([(4, 'errors'), (3, 'prec'), (2, 'multi'), (1, 'operators'), (2, 'deep')])
    M = None
    if kind == 'errors':
        g = l07.grammar(c)[0]
    elif kind == 'deep':
        g = deep(c)
    elif kind == 'operators':
        M = Multi.operators(c)
        g = M.g
    else:
        g = l02.grammar(c, False)
        if kind == 'multi':
            M = Multi(c, g)
            g = M.g
    plain = M.expand(lambda r: r.prec) if M else g
    if lemon.endless(plain):
        raise Discard('endless reductions')
    terms = M.terms if M else list(g.terms)
    named = [t for t in terms if t != 'error']
    if not named:
        raise Discard('no terminals')
    wild = c.pick(named) if c.bool(1, 4) else None
    fb = {}
    groups = []
    if len(named) > 1 and c.bool(1, 3):
        for _ in range(c.int(1, 2)):
            to = c.pick(named)
            ms = [t for t in c.sample(named, c.int(1, len(named))) if t != to and t not in fb and to not in fb and t not in fb.values() and t != wild]
            fb.update({t: to for t in ms})
            if ms:
                groups.append('%%fallback %s %s.\n' % (to, ' '.join(ms)))
    pfx = c.pick(['Parse', 'Parse', 'xp', 'My_'])
    code = {i for i in range(1, len(g.rules) + 1) if c.bool(3, 4)}
    some = c.bool()
    rl = []
    for i, r in enumerate(g.rules, 1):
        if not some:
            code.add(i)
        a = ' { printf("#r%d %%d\\n", cur); }' % i if i in code else ''
        lab = {}
        if a and r.rhs and r.rhs[-1] != 'error' and c.bool(1, 4):
            lab[len(r.rhs) - 1] = 'z'
            a = a.replace('{ ', '{ (void)z; ')
        rl.append((M.rule_text(r, lab) if M else lemon.rule_text(r, lab)) + a + '\n')
    depth = c.pick([0, 100, 100] + ([0, 0, 4, 5, 7, 12] if kind == 'deep' else [5, 8]))
    errs = any('error' in r.rhs for r in g.rules)
    norec = not errs and c.bool(1, 5)
    opts = c.subset(['-c', '-r', '-l', '-z', '-b', '-p'], 1, 5) + (['-u'] if c.bool(1, 8) else [])
    gd = Grammar(named, g.rules, g.start, {t: x for t, x in g.prec.items() if t in set(named)})
    text = PRE + ('%include {\n#define YYNOERRORRECOVERY 1\n}\n' if norec else '') + ('%%name %s\n' % pfx if pfx != 'Parse' else '') + '%%stack_size %d\n' % depth \
        + lemon.decls(gd) + (M.decls() if M else '') + ('%%wildcard %s.\n' % wild if wild else '') + ''.join(groups) + ''.join(rl) \
        + POST.replace('TOKCODES', lemon.tokcodes(named)).replace('PFX', pfx)
    d = ctx.dir()
    lemon.run(ctx, d, text, opts)

    def V(m, k):
        raise Violation('lemon %s: %s' % (' '.join(opts), m), k)
    try:
        rep = l03.read_out(open(d + '/g.out').read(), V)
        src = open(d + '/g.c').read()
        codes = {k: int(v) for k, v in re.findall(r'^(?:#define)?\s*(\w+)\s*=?\s+(\d+),?$', open(d + '/g.h').read(), re.M)}
    except OSError as e:
        V('no output: %s' % e, 'rejected')
    # ---- the automaton of the report
    W = World()
    W.depth, W.norec, W.errs, W.fb, W.wild = depth, norec, errs, fb, wild
    W.out, W.prompt, W.seen, W.stat = [], None, set(), {}
    W.states, W.gotos, W.rules = {}, {}, {}
    order = [i for i in range(1, len(g.rules) + 1) if i in code] + [i for i in range(1, len(g.rules) + 1) if i not in code]
    for k, i in enumerate(order):
        r = g.rules[i - 1]
        text1 = r.lhs + ' ::=' + ''.join(' ' + ('|'.join(M.alts[s]) if M and s in M.alts else s) for s in r.rhs)
        W.rules[k] = (r.lhs, r.rhs, text1, i if i in code else 0)
    nts = set(g.nts)
    for n, (items, acts) in rep.states.items():
        W.states[n], W.gotos[n] = [{}, None], {}
        for sym, kind_, k, _, note, _ in acts:
            if note != 'live':
                continue
            if sym == '{default}':
                W.states[n][1] = (kind_, k)
            elif sym in nts:
                W.gotos[n][sym] = (kind_, k) if kind_ != 'shift-reduce' else ('reduce', k)
            else:
                W.states[n][0][sym] = (kind_, k)
    # ---- commands
    ws = [w for w in sim.inputs_for(c, plain, 6, 8, depth=7, exhaustive=6) if 'error' not in w]
    ws = c.sample(ws, min(len(ws), 14))
    if kind == 'deep':
        for _ in range(3):
            n = c.pick([3, 30, 99, 100, 101, 150, 301, 320] if depth < 1 else [2, 3, 5, 9, 99, 101])
            x = ['A'] * n + c.pick([[], ['C'], ['D'], ['C', 'C']]) + ['B'] * c.pick([n, n, 0, n - 1, 1])
            ws.append([t for t in x if t in named])
    idx = {t: i for i, t in enumerate(named, 1)}
    cmds = []
    npar = c.pick([1, 1, 2, 3])
    jobs = [[] for _ in range(npar)]
    for w in ws:
        j = c.draw(npar)
        f = not norec and c.bool(1, 5)      # the next input on the same parser
        jobs[j] += ([('N', j)] if not jobs[j] or jobs[j][-1][0] == 'X' else []) + [('P', j, idx[t]) for t in w]
        if c.bool(9, 10):
            jobs[j].append(('P', j, 0))
        if not f:
            jobs[j].append(('X', j))
    for j in range(npar):
        if jobs[j] and jobs[j][-1][0] != 'X':
            jobs[j].append(('X', j))
    cmds.append(('T', c.pick([4, 4, 4, 3, 5])))
    change = c.bool(1, 3)
    while any(jobs):
        l = c.pick([l for l in jobs if l])
        k = c.int(1, 6)
        cmds += l[:k]
        del l[:k]
        if change and c.bool(1, 10):
            cmds.append(('T', c.draw(6)))
        if c.bool(1, 60):
            cmds.append(('C', c.draw(2)))
    cmds.append(('C', 1))
    cmds += [('B', i) for i in range(len(named) + 1)]
    # ---- expected
    par = {}
    order_t = ['$'] + named
    num = {t: codes.get(t, -1) for t in named}
    num['$'] = 0
    toks = sorted((t for t in order_t), key=lambda t: num[t])
    known = None
    W.log = []
    for cmd in cmds:
        W.out = []
        if cmd[0] == 'N':
            par[cmd[1]] = Driver(W, cmd[1])
        elif cmd[0] == 'X':
            par[cmd[1]].free()
        elif cmd[0] == 'P':
            t = order_t[cmd[2]]
            par[cmd[1]].feed(t, num[t])
        elif cmd[0] == 'T':
            W.prompt = PROMPT[cmd[1]]
        elif cmd[0] == 'C':
            miss = 0
            for n in sorted(W.states):
                for t in toks:
                    a = W.states[n][0].get(t)
                    if a is None or a[0] == 'error':
                        continue
                    miss += (n, t) not in W.seen
                    if cmd[1]:
                        W.out.append('State %d lookahead %s %s' % (n, t, 'ok' if (n, t) in W.seen else 'missed'))
            W.out.append('#missed %d' % miss)
        else:
            t = order_t[cmd[1]]
            W.out.append('#fallback %d' % (num[fb[t]] if t in fb else 0))
        W.log.append(W.out)
    inp = '\n'.join(' '.join(map(str, x)) for x in cmds) + '\n'
    env = {'ASAN_OPTIONS': 'detect_leaks=1'}
    base = c.pick([['-O0'], ['-O0'], ['-O0', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']])

    def go(name, flags):
        exe = lemon.cc(ctx, d, 'g.c', name, flags=base + flags)
        p = ctx.run([exe], cwd=d, inp=inp.encode(), env=env, timeout=60)
        if p.timeout:
            V('the parser does not end', 'hang')
        if p.rc:
            V('the parser ended with status %d: %s' % (p.rc, p.errs[-1500:]), 'crash')
        l = []
        for x in p.outs.split('\n')[:-1]:
            if x == '#':
                l.append([])
            elif not l:
                V('output before the first command: %r' % x, 'harness')
            else:
                l[-1].append(x)
        if len(l) != len(cmds):
            V('%d answers to %d commands' % (len(l), len(cmds)), 'harness')
        return l

    def compare(got, want, what):
        hist = []
        for cmd, a, b in zip(cmds, got, want):
            ctx.ev()
            hist.append(' '.join(map(str, cmd)))
            if [x.replace('Stack=[]', 'Stack=]') for x in a] == b:
                continue
            if len(a) == len(b) and all(x == y or re.sub(r'pending reduce -\d+', 'pending reduce -2', x) == y for x, y in zip(a, b)):
                continue        # how the acceptance is shown as the action after a reduction
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            V('%s: line %d after the command %s should be %r, is %r\nprevious: %s\nexpected\n%s\ngot\n%s' % (
                what, i + 1, hist[-1], (b + ['(nothing)'])[i], (a + ['(nothing)'])[i], '; '.join(hist[-12:]), '\n'.join(b), '\n'.join(a)),
              'coverage' if cmd[0] == 'C' else 'fallback' if cmd[0] == 'B' else 'trace' if not (a + ['-'])[i].startswith('#') else 'hook')

    compare(go('p', ['-DYYCOVERAGE']), W.log, 'with tracing')
    if c.bool(1, 2):
        cov = c.bool(1, 3)
        quiet = [[x for x in l if x[0] == '#' and (cov or not x.startswith('#missed')) or cov and x.startswith('State ')] for l in W.log]
        compare(go('q', ['-DNDEBUG'] + (['-DYYCOVERAGE'] if cov else [])), quiet, 'compiled with NDEBUG')
        ctx.label('without tracing')
    for k in W.stat:
        ctx.label(k)
    for k, v in [('several parsers', npar > 1), ('trace switched', change), (kind, 1)] + [(o, 1) for o in opts]:
        if v:
            ctx.label(k)
    lines = sum(len(l) for l in W.log)
    if lines > 100 and len(rep.states) > 3:
        ctx.nontrivial(text)
        ctx.sample(str(g) + '\n' + '\n'.join(sum(W.log, [])[:14]))


SPEC = dict(
    tests={'trace': (check, 1300, 14000)},
    rule='a case is a lemon grammar (conflict-free with error rules, ambiguous with precedences, with multi-terminals and token classes, or nested to fill the stack), %wildcard, '
         '%fallback, rules with and without code, a %name, fixed and growing stacks, options, and a history of commands for one to three parsers: tokens, ends, frees, changes of the trace '
         'stream and prompt, queries of coverage and fallbacks; every line of output is compared with a driver running on the automaton of the .out report, '
         'and half of the parsers are compiled a second time with NDEBUG and have to run the same code. Non-trivial: more than 100 lines and more than 3 states; distinct by grammar text',
    assumptions=['that the automaton of the report is the LALR(1) automaton with its conflicts resolved as documented is checked by L03 and L02',
                 'what is shown as the action after the reduction that accepts ("pending reduce -2") is not compared; an empty stack may be shown as "]" or "[]"'],
)
