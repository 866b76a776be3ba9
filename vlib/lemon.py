"""Driving lemon: emitting grammars, modelling its documented conflict resolution,
compiling and running the generated parsers."""
import os, re
from .engine import Violation, Discard, Resource
from . import build
from .byacc import cc, run_lines

ASSOC = {'l': '%left', 'r': '%right', 'n': '%nonassoc', 'p': '%precedence'}


MEM = 3 << 30     # no grammar of these checks needs a hundredth of it


def run(ctx, d, text, opts=(), name='g.lem', timeout=60, asan=False, template=True, crash=True):
    if text is not None:
        ctx.write(d, name, text)
        ctx.files[name] = text
    exe, lempar = build.lemon(asan)
    cmd = [exe] + list(opts) + (['-T' + lempar] if template else []) + [name]
    p = ctx.run(cmd, cwd=d, timeout=timeout, mem=0 if asan else MEM)
    if p.timeout:
        p = ctx.run(cmd, cwd=d, timeout=timeout * 3, mem=0 if asan else MEM)
        if p.timeout:
            raise Violation('lemon %s does not terminate' % ' '.join(opts), 'hang')
    if p.rc < 0 or p.rc in (99, 134):
        raise Violation('lemon %s died with status %d\n%s' % (' '.join(opts), p.rc, p.errs[-1500:]), 'crash')
    return p


def decls(g, start=True, tokens=True):
    o = []
    named = [t for t in g.all_terms() if t != 'error']
    if tokens and named:
        o.append('%token ' + ' '.join(named) + '.')
    byl = {}
    for t, (l, a) in g.prec.items():
        byl.setdefault(l, (a, []))[1].append(t)
    for l in sorted(byl):
        a, ts = byl[l]
        o.append(ASSOC[a] + ' ' + ' '.join(ts) + '.')
    if start:
        o.append('%start_symbol ' + g.start)
    return '\n'.join(o) + '\n'


def rule_text(r, labels=None, lhs=None):
    """labels: {position: alias}"""
    labels = labels or {}
    rhs = ' '.join(s + ('(%s)' % labels[i] if i in labels else '') for i, s in enumerate(r.rhs))
    return '%s%s ::= %s.%s' % (r.lhs, '(%s)' % lhs if lhs else '', rhs + ' ' if rhs else '', ' [%s]' % r.prec if r.prec else '')


def rules_text(g, action=None):
    """action(i, rule) -> code behind the rule, or ''"""
    return '\n'.join(rule_text(r) + (' ' + action(i, r) if action else '') for i, r in enumerate(g.rules, 1)) + '\n'


TRACE_PRE = r'''%include {
#include <stdio.h>
#include <stdlib.h>
#include <assert.h>
static int cur;
}
%syntax_error { printf(" E@%d", cur); }
%parse_accept { printf(" =A@%d", cur); }
%parse_failure { printf(" =F@%d", cur); }
%stack_overflow { printf(" =O@%d", cur); }
'''

# one case per line: indices into tokcode[]
TRACE_POST = r'''%code {
TOKCODES
int main(void)
{
    static char buf[1 << 16];
    while (fgets(buf, sizeof buf, stdin)) {
        char *s = buf;
        void *p = ParseAlloc(malloc);
        cur = 0;
        for (;;) {
            char *e;
            long t = strtol(s, &e, 10);
            if (e == s) break;
            s = e;
            cur++;
            Parse(p, tokcode[t], 0);
        }
        cur++;
        Parse(p, 0, 0);
        ParseFree(p, free);
        printf("\n");
        fflush(stdout);
    }
    return 0;
}
}
'''


def tokcodes(terms):
    return 'static const int tokcode[] = { 0, %s };' % ', '.join(terms)


def trace_grammar(g, extra='', action=None, post=TRACE_POST, tokens=True, include='g.h', rules=None):
    a = action or (lambda i, r: '{ printf(" r%d"); }' % i)
    pre = TRACE_PRE.replace('#include <assert.h>', '#include <assert.h>\n#include <string.h>\n#include "%s"' % include)
    return pre + extra + decls(g, tokens=tokens) + (rules or rules_text(g, a)) + post.replace('TOKCODES', tokcodes(g.terms))


def undeclared_rule_numbers(g):
    return list(range(1, len(g.rules) + 1))


# ---------------------------------------------------------------- conflicts
class Resolved:
    pass


def rule_precs(g, yacc=False, u=False, classes=None):
    """0 for the augmented rule, then (level, assoc) or None per rule"""
    out = [None]
    ts = set(g.terms)
    for r in g.rules:
        p = None
        if not u:
            if r.prec:
                p = g.prec.get(r.prec)
            else:
                for s in r.rhs:
                    for x in (classes or {}).get(s, [s]):
                        if x in ts:
                            if yacc:
                                p = g.prec.get(x)
                            elif p is None:
                                p = g.prec.get(x)
        out.append(p)
    return out


def resolve(lr, g, yacc=False, u=False, classes=None):
    """conflict resolution by lemon's documentation: precedence of the rule against the look-ahead, then associativity; two reductions by
    different precedences of their rules; what is left is a conflict, resolved in favour of the shift or the earlier rule"""
    rp = rule_precs(g, yacc, u, classes)
    tp = (lambda t: None) if u else (lambda t: g.prec.get(t))
    R = Resolved()
    R.SR = R.RR = 0
    R.act = []              # state -> {term: action}; ('e', 0) = error by %nonassoc
    R.lost = []             # state -> {term: [(action, 'conflict' | 'resolved')]}
    used = set()
    for q in range(lr.n):
        act, lost = {}, {}
        for t, l in lr.raw_actions(q).items():
            if t == 'error':
                l = l[:1] if l[0][0] == 's' else l
            l = list(l)
            st = {a: 'live' for a in l}
            for i, a in enumerate(l):
                for b in l[i + 1:]:
                    if a[0] == 'a':
                        continue
                    if a[0] == 's' and st[a] in ('live', 'error') and st[b] == 'live':
                        p1, p2 = tp(t), rp[b[1]]
                        if not p1 or not p2:
                            st[b] = 'conflict'
                            R.SR += 1
                        elif p1[0] > p2[0]:
                            st[b] = 'resolved'
                        elif p1[0] < p2[0]:
                            st[a] = 'resolved'
                        elif p1[1] == 'r':
                            st[b] = 'resolved'
                        elif p1[1] == 'l':
                            st[a] = 'resolved'
                        else:
                            st[a] = 'error'
                            st[b] = 'resolved'
                    elif a[0] == 'r' and st[a] == 'live' and st[b] == 'live':
                        p1, p2 = rp[a[1]], rp[b[1]]
                        if not p1 or not p2 or p1[0] == p2[0]:
                            st[b] = 'conflict'
                            R.RR += 1
                        elif p1[0] > p2[0]:
                            st[b] = 'resolved'
                        else:
                            st[a] = 'resolved'
            live = [a for a in l if st[a] == 'live']
            if len(live) > 1:
                raise Discard('two actions left')
            if live:
                act[t] = live[0]
                if live[0][0] == 'r':
                    used.add(live[0][1])
            elif any(v == 'error' for v in st.values()):
                act[t] = ('e', 0)
            else:
                act[t] = ('none', 0)
            lost[t] = [(a, st[a]) for a in l if st[a] not in ('live', 'error')]
        R.act.append(act)
        R.lost.append(lost)
    R.unused = [i for i in range(1, len(lr.rules)) if i not in used]
    return R


def endless(g):
    """can a parser with default reductions reduce forever without reading a token? (A => xAy with x nullable, and x written or y nullable)"""
    nl, nts = g.nullable(), set(g.nts)
    # edges A -> B: (left part written, right part nullable)
    edges = {}
    for r in g.rules:
        for i, b in enumerate(r.rhs):
            if b in nts and all(x in nl for x in r.rhs[:i]):
                edges.setdefault(r.lhs, set()).add((b, i > 0, all(x in nl for x in r.rhs[i + 1:])))
    for a in edges:
        seen, todo = set(), [(a, False, True)]
        while todo:
            x, left, right = todo.pop()
            for b, l, rn in edges.get(x, ()):
                n = (b, left or l, right and rn)
                if n not in seen:
                    seen.add(n)
                    todo.append(n)
        if any(b == a and (l or r) for b, l, r in seen):
            return True
    return False
