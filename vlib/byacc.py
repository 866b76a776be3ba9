"""Driving byacc: emitting specifications, parsing its reports, modelling its
documented conflict resolution, compiling and running generated parsers."""
import os, re
from .engine import Violation, Discard, Resource
from . import build

ASSOC = {'l': '%left', 'r': '%right', 'n': '%nonassoc', 'p': '%precedence'}


def tool(variant, asan=False):
    return build.byacc(variant, asan)


# ---------------------------------------------------------------- emission
def is_lit(t):
    return t[0] in '\'"'


def decls(g, start=True, token_extra=''):
    o = []
    named = [t for t in g.terms if not is_lit(t)]
    declared = set()
    if named:
        o.append('%token ' + ' '.join(named))
    byl = {}
    for t, (l, a) in g.prec.items():
        byl.setdefault(l, (a, []))[1].append(t)
    for l in sorted(byl):
        a, ts = byl[l]
        o.append(ASSOC[a] + ' ' + ' '.join(ts))
    if start:
        o.append('%start ' + g.start)
    return '\n'.join(o) + '\n'


def spec_terms(g):
    """terminals that the specification actually mentions"""
    used = {s for r in g.rules for s in r.rhs} | {r.prec for r in g.rules if r.prec} | set(g.prec)
    return [t for t in g.all_terms() if not is_lit(t) or t in used]


def rules_text(g, action=None, merge=True):
    """action(i, rule) -> text placed after the right-hand side (i from 1);
    a nonterminal $$n stands for the n-th mid-rule action (its rule precedes the one that contains it)"""
    o = []
    prev = None
    mids = {r.lhs: i for i, r in enumerate(g.rules, 1) if r.lhs.startswith('$$')}
    for i, r in enumerate(g.rules, 1):
        if r.lhs in mids:
            continue
        body = ' '.join(action(mids[s], g.rules[mids[s] - 1]) if s in mids else s for s in r.rhs)
        if r.prec:
            body += ' %prec ' + r.prec
        if action:
            body += ' ' + action(i, r)
        if merge and r.lhs == prev:
            o[-1] = o[-1][:-2] + '\n  | ' + body + '\n;'
        else:
            o.append(r.lhs + '\n  : ' + body + '\n;')
        prev = r.lhs
    return '\n'.join(o) + '\n'


TRACE_PRE = r'''%{
#include <stdio.h>
#include <stdlib.h>
static int yylex(void);
static void yyerror(const char *s);
static void TR(int n) { printf(" r%d", n); }
%}
'''

# the driver reads one case per line: indices into tokcode[]; 0 ends the input
TRACE_POST = r'''
static int in_tok[4096], in_n, in_p, in_over;
static int yylex(void)
{
    int t;
    if (in_p < in_n) { t = in_tok[in_p++]; return tokcode[t]; }
    if (in_over++) { printf(" LEX-PAST-END"); if (in_over > 3) { printf("\n"); exit(9); } }
    return 0;
}
static void yyerror(const char *s) { printf(" E@%d", in_p + in_over); }
int main(void)
{
    static char line[65536];
    setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    while (fgets(line, sizeof line, stdin)) {
        char *p = line; int rc;
        in_n = in_p = in_over = 0;
        for (;;) {
            char *q; long v = strtol(p, &q, 10);
            if (q == p) break;
            in_tok[in_n++] = (int)v; p = q;
        }
        rc = yyparse();
        printf(" =%d @%d\n", rc, in_p + in_over);
        fflush(stdout);
    }
    return 0;
}
'''


def tokcode_table(terms, extra=()):
    """C array mapping our token indices (1..) to the parser's token codes"""
    return 'static const int tokcode[] = { 0, %s };\n' % ', '.join(list(terms) + [str(x) for x in extra] + ['0'])


def trace_spec(g, extra_decl='', action=None, post=TRACE_POST, extra_tokens=()):
    action = action or (lambda i, r: '{ TR(%d); }' % i)
    return (TRACE_PRE + decls(g) + extra_decl + '%%\n' + rules_text(g, action) + '%%\n' +
            tokcode_table(g.terms, extra_tokens) + post)


# ---------------------------------------------------------------- running
MEM = 3 << 30     # no grammar of these checks needs a hundredth of it


def yacc(ctx, variant, d, spec, opts=(), name='g.y', timeout=60, asan=False):
    if spec is not None:
        ctx.write(d, name, spec)
        ctx.files[name] = spec
    p = ctx.run([tool(variant, asan)] + list(opts) + [name], cwd=d, timeout=timeout, mem=0 if asan else MEM)
    if p.timeout:
        p = ctx.run([tool(variant, asan)] + list(opts) + [name], cwd=d, timeout=timeout * 3, mem=0 if asan else MEM)
        if p.timeout:
            raise Violation('byacc (%s) %s does not terminate' % (variant, ' '.join(opts)), 'hang')
    if p.rc < 0 or p.rc == 99:
        raise Violation('byacc (%s) %s died with status %d\n%s' % (variant, ' '.join(opts), p.rc, p.errs[-1500:]), 'crash')
    return p


def cc(ctx, d, src, exe, flags=('-O0',), timeout=240):
    p = ctx.run(['gcc', '-w'] + list(flags) + [src, '-o', exe], cwd=d, timeout=timeout)
    if p.timeout:
        raise Resource('gcc timeout')
    if p.rc != 0:
        if p.rc < 0 or 'internal compiler error' in p.errs or 'fatal error: Killed' in p.errs:
            raise Resource('gcc failed: ' + p.errs[-300:])
        raise Violation('the generated parser does not compile:\n' + p.errs[:2500], 'compile')
    return os.path.join(d, exe)


def run_lines(ctx, exe, lines, d, timeout=60, env=None):
    inp = ''.join(l + '\n' for l in lines)
    ctx.files['input'] = inp
    with open(exe if os.path.isabs(exe) else os.path.join(d, exe), 'rb') as f:
        mem = 0 if b'__asan_init' in f.read() else MEM
    p = ctx.run([exe], cwd=d, inp=inp, timeout=timeout, env=env, mem=mem)
    if p.timeout:
        p = ctx.run([exe], cwd=d, inp=inp, timeout=timeout * 2, env=env, mem=mem)
        if p.timeout:
            raise Violation('the generated parser does not terminate; output so far:\n' + p.outs[-500:], 'parser-hang')
    o = p.outs.split('\n')
    if o and o[-1] == '':
        o.pop()
    if p.rc != 0 or len(o) != len(lines):
        bad = lines[len(o) - 1] if o and len(o) <= len(lines) else (lines[0] if lines else '')
        raise Violation('the generated parser died with status %s after %d of %d inputs (last input %r)\n%s' % (
            p.rc, len(o), len(lines), bad, p.errs[-1500:]), 'parser-crash')
    return o


def summary(p):
    """(SR, RR) from byacc's stderr"""
    sr = rr = 0
    e = re.sub(r'expected \d+ \S+ conflicts?\.', '', p.errs)
    m = re.search(r'(\d+) shift/reduce conflict', e)
    if m:
        sr = int(m.group(1))
    m = re.search(r'(\d+) reduce/reduce conflict', e)
    if m:
        rr = int(m.group(1))
    return sr, rr


# ---------------------------------------------------------------- resolution model
class Resolved:
    pass


def rule_precs(g, z=False, u=False):
    """0 for $accept, then (level, assoc) or None per rule"""
    out = [None]
    ts = set(g.terms) | {'error'}
    for r in g.rules:
        p = None
        if not u:
            if r.prec:
                p = g.prec.get(r.prec)
            else:
                for s in r.rhs:
                    if s in ts:
                        if z:
                            if p is None:
                                p = g.prec.get(s)
                        else:
                            p = g.prec.get(s)
        out.append(p)
    return out


def resolve(lr, g, z=False, u=False, backtrack=False):
    """conflict resolution as documented for yacc: higher precedence wins, equal
    precedence decided by associativity, otherwise shift / earliest rule"""
    rp = rule_precs(g, z, u)
    tp = (lambda t: None) if u else (lambda t: g.prec.get(t))
    R = Resolved()
    R.SR = R.RR = 0
    R.srq, R.rrq = [0] * lr.n, [0] * lr.n
    R.act, R.defred, R.multi = [], [], []
    R.confl = []              # (state, term, preferred action, losing action)
    R.groups = []             # per state: term -> actions tried when backtracking
    R.hidden = False          # a %nonassoc error that a default reduction would hide
    R.reduce_accept = False
    used = set()
    for q in range(lr.n):
        act = {}
        multi = {}
        live = []              # unsuppressed (term, action)
        err = False
        for t, l in lr.raw_actions(q).items():
            if l[0][0] == 'a':
                reds = [a for a in l if a[0] == 'r']
                if reds:
                    R.reduce_accept = True
                    R.SR += len(reds) - 1
                    R.srq[q] += len(reds) - 1
                    for a in reds[1:]:
                        R.confl.append((q, t, ('a', 0), a))
                    live.append((t, reds[0]))
                    used.add(reds[0][1])
                act[t] = ('a', 0)
                continue
            supp = {a: 0 for a in l}
            pref = l[0]

            def clash():
                if backtrack and supp[pref] == 0:
                    supp[pref] = 1
            for a in l[1:]:
                if pref[0] == 's':
                    p1, p2 = tp(t), rp[a[1]]
                    if p1 and p2:
                        if p1[0] < p2[0] or (p1[0] == p2[0] and p1[1] == 'l'):
                            supp[pref] = 2
                            pref = a
                        elif p1[0] > p2[0] or p1[1] == 'r':
                            supp[a] = 2
                        else:
                            supp[pref] = 2
                            supp[a] = 2
                    else:
                        R.SR += 1
                        R.srq[q] += 1
                        supp[a] = 1
                        clash()
                        R.confl.append((q, t, pref if supp[pref] != 2 else None, a))
                else:
                    p1, p2 = rp[pref[1]], rp[a[1]]
                    if z and p1 and p2 and p1[0] != p2[0]:
                        if p1[0] < p2[0]:
                            supp[pref] = 2
                            pref = a
                        else:
                            supp[a] = 2
                    else:
                        R.RR += 1
                        R.rrq[q] += 1
                        supp[a] = 1
                        clash()
                        R.confl.append((q, t, pref, a))
            for k, cf in enumerate(R.confl):
                if cf[0] == q and cf[1] == t and cf[2] is not None and supp[cf[2]] == 2:
                    R.confl[k] = (q, t, None, cf[3])   # its preferred action lost later on
            un = [a for a in l if supp[a] == 0]
            if any(v == 1 for v in supp.values()):
                multi[t] = [a for a in l if supp[a] == 1]
                if backtrack:
                    for a in multi[t]:
                        live.append((t, a))
                        if a[0] == 'r':
                            used.add(a[1])
            if un:
                act[t] = un[0]
                live.append((t, un[0]))
                if un[0][0] == 'r':
                    used.add(un[0][1])
                if len(un) > 1:
                    R.odd = True
            else:
                act[t] = ('e', 0)
                if not (backtrack and t in multi):
                    err = True
        reds = {a[1] for t, a in live if a[0] == 'r'}
        sh = any(a[0] == 's' for t, a in live)
        d = 0
        if not sh and len(reds) == 1 and any(a[0] == 'r' and t != 'error' for t, a in live):
            d = reds.pop()
        if d and err:
            R.hidden = True
        R.act.append(act)
        R.defred.append(d)
        R.multi.append(multi)
    R.unused = [i for i in range(1, len(lr.rules)) if i not in used]
    return R


# ---------------------------------------------------------------- reports
SYM = r"'(?:[^'\\]|\\.)+'|\"(?:[^\"\\]|\\.)*\"|\S+"


def toks(s):
    return re.findall(SYM, s)


def parse_output(text):
    """y.output -> dict"""
    head, _, body = text.partition('\f\n')
    rules = {}
    lhs = None
    for ln in head.split('\n'):
        m = re.match(r'\s*(\d+)  (\S+) :(.*)$', ln)
        if m:
            lhs = m.group(2)
            rules[int(m.group(1))] = (lhs, toks(m.group(3)))
            continue
        m = re.match(r'\s*(\d+)\s+\|(.*)$', ln)
        if m:
            rules[int(m.group(1))] = (lhs, toks(m.group(2)))
        elif ln.strip():
            raise ValueError('unexpected line in the rule listing: %r' % ln)
    states = []
    st = None
    tail = {'unused': [], 'conf': {}, 'totals': None, 'syms': []}
    confl = []
    mode = None
    for ln in body.split('\n'):
        if mode == 'syms':
            m = re.match(r'\s*(-?\d+)\s+(-?\d+)  (.*)$', ln)
            if m:
                tail['syms'].append((int(m.group(1)), int(m.group(2)), m.group(3)))
            continue
        if not ln.strip():
            continue
        m = re.match(r'state (\d+)$', ln)
        if m:
            if int(m.group(1)) != len(states):
                raise ValueError('state numbers out of order: %s' % ln)
            st = {'items': [], 'nulls': [], 'shifts': {}, 'reduces': {}, 'def': None, 'accept': False, 'gotos': {},
                  'conf': confl, 'trial': []}
            states.append(st)
            confl = []
            mode = 'state'
            continue
        m = re.match(r'(\d+): (shift|reduce)/reduce conflict \((.*)\) on (.*)$', ln)
        if m:
            confl.append((int(m.group(1)), m.group(2), m.group(3), m.group(4)))
            continue
        if ln == 'Rules never reduced:':
            mode = 'unused'
            continue
        m = re.match(r'State (\d+) contains (.*)\.$', ln)
        if m:
            tail['conf'][int(m.group(1))] = m.group(2)
            mode = 'conf'
            continue
        m = re.match(r'(\d+) terminals, (\d+) nonterminals$', ln)
        if m:
            tail['totals'] = [int(m.group(1)), int(m.group(2))]
            mode = 'tot'
            continue
        m = re.match(r'(\d+) grammar rules, (\d+) states$', ln)
        if m:
            tail['totals'] += [int(m.group(1)), int(m.group(2))]
            continue
        if ln == 'grammar parser grammar':
            continue
        if ln == 'symbol# value# symbol':
            mode = 'syms'
            continue
        if mode == 'unused':
            m = re.match(r'\t(\S+) :(.*)  \((\d+)\)$', ln)
            tail['unused'].append((int(m.group(3)), m.group(1), toks(m.group(2))))
            continue
        if not ln.startswith('\t'):
            raise ValueError('unexpected line: %r' % ln)
        m = re.match(r'\t(\S+) : (.*)  \((-?\d+)\)$', ln)
        if m:
            ts = toks(m.group(2))
            k = ts.index('.')
            st['items'].append((m.group(1), tuple(ts[:k]), tuple(ts[k + 1:]), int(m.group(3))))
            continue
        m = re.match(r'\t(.+)  shift (\d+)$', ln)
        if m:
            if m.group(1) in st['shifts']:
                raise ValueError('two shifts: %r' % ln)
            st['shifts'][m.group(1)] = int(m.group(2))
            continue
        m = re.match(r'\t(.+)  reduce (\d+)(?: \[(\S+)\])?$', ln)
        if m:
            if m.group(1) == '.':
                st['def'] = int(m.group(2))
            else:
                if m.group(1) in st['reduces']:
                    raise ValueError('two reductions: %r' % ln)
                st['reduces'][m.group(1)] = (int(m.group(2)), m.group(3))
            continue
        m = re.match(r'\t(.+)  \[trial\] (shift|reduce) (\d+)$', ln)
        if m:
            st['trial'].append((m.group(1), m.group(2), int(m.group(3))))
            continue
        m = re.match(r'\t(\S+)  goto (\d+)$', ln)
        if m:
            st['gotos'][m.group(1)] = int(m.group(2))
            continue
        if ln == '\t$end  accept':
            st['accept'] = True
            continue
        if ln == '\t.  error':
            st['def'] = 'error'
            continue
        raise ValueError('unexpected line: %r' % ln)
    return {'rules': rules, 'states': states, **tail}


def parse_dot(text):
    """y.dot -> (states {n: [(lhs, before, after, la or None)]}, edges [(from,to,label)])"""
    states, edges = {}, []
    for m in re.finditer(r'\tq(\d+) \[label="(\d+):\\l((?:[^"\\]|\\.)*)"\];', text):
        if m.group(1) != m.group(2):
            raise ValueError('state label mismatch')
        items = []
        for it in m.group(3).split('\\l'):
            if not it.strip():
                continue
            lhs, _, rest = it.strip().partition(' -> ')
            la = None
            k = re.match(r'(.*) \{ ((?:.* )?)\}$', rest)
            if k:
                rest = k.group(1)
                la = toks(k.group(2))
            ts = toks(rest)
            i = ts.index('.')
            items.append((lhs, tuple(ts[:i]), tuple(ts[i + 1:]), la))
        states[int(m.group(1))] = items
    for m in re.finditer(r'\tq(\d+) -> q(\d+) \[label="((?:[^"\\]|\\.)*)"\];', text):
        edges.append((int(m.group(1)), int(m.group(2)), m.group(3)))
    return states, edges


# ---------------------------------------------------------------- tables
INT_RANGE = {'int': (-2 ** 31, 2 ** 31 - 1), 'short': (-32768, 32767), 'signed char': (-128, 127), 'char': (-128, 127),
             'unsigned char': (0, 255), 'unsigned short': (0, 65535), 'long': (-2 ** 63, 2 ** 63 - 1)}


def parse_tables(text, prefix='yy'):
    T = {}
    m = re.search(r'(?m)^typedef ((?:unsigned |signed )?\w+) YYINT;', text)
    T['YYINT'] = m.group(1) if m else 'short'
    for m in re.finditer(r'(?m)^(?:static )?const (?:YYINT|short|int) +(\w+)\[\] = \{([^}]*)\};', text):
        n = m.group(1)
        if n.startswith(prefix):
            T[n[len(prefix):]] = [int(x) for x in m.group(2).replace('\n', ' ').split(',') if x.strip()]
    for n in ('YYTABLESIZE', 'YYFINAL', 'YYMAXTOKEN', 'YYUNDFTOKEN', 'YYERRCODE'):
        m = re.search(r'(?m)^#define %s (-?\d+)' % n, text)
        if m:
            T[n] = int(m.group(1))
    return T


class Overrun(Exception):
    pass


class Decoder:
    """the table lookups of the skeleton"""

    def __init__(self, T):
        self.T = T
        self.size = T['YYTABLESIZE']
        for n in ('table', 'check'):
            if len(T[n]) < self.size + 1:
                raise Violation('yy%s has %d entries but YYTABLESIZE is %d' % (n, len(T[n]), self.size), 'overrun')

    def _look(self, base, key):
        T = self.T
        if base == 0:
            return None
        n = base + key
        if n < 0 or n > self.size:
            return None
        if T['check'][n] == key:
            return T['table'][n]
        return None

    def action(self, q, tok):
        T = self.T
        if T['defred'][q]:
            return ('r', T['defred'][q])
        if 'cindex' in T and T.get('btyacc'):
            n = self._look(T['cindex'][q], tok)
            if n is not None:
                return ('c', n)
        n = self._look(T['sindex'][q], tok)
        if n is not None:
            return ('s', n)
        n = self._look(T['rindex'][q], tok)
        if n is not None:
            return ('r', n)
        return ('e', 0)

    def conflict(self, n):
        """alternatives in trial order"""
        ct = self.T['ctable']
        out = []
        if ct[n] == -1:
            n += 1
        else:
            out.append(('s', ct[n]))
            n += 1
        while ct[n] >= 0:
            out.append(('r', ct[n]))
            n += 1
        return out

    def goto(self, q, sym):
        n = self._look(self.T['gindex'][sym], q)
        return self.T['dgoto'][sym] if n is None else n
