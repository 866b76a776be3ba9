"""L06: each lemon value reaches the action that names it, or its destructor, once."""
import re
from vlib import lemon, gen, sim
from vlib.lgram import Multi
from vlib.engine import Violation, Discard
from vlib.gram import Grammar, Rule, LR
from props import l01

# C type, how to make one from an id, how to read the id (0 if the bits are not a value of this type)
TYPES = [
    ('int', 'mk_int', 'id_int'),
    ('struct s1', 'mk_s1', 'id_s1'),
    ('double', 'mk_double', 'id_double'),
    ('struct s2 *', 'mk_p2', 'id_p2'),
    ('struct s3', 'mk_s3', 'id_s3'),
]
HEAD = r'''%include {
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <assert.h>
#include "g.h"
struct s1 { char pad[3]; int id, chk; };
struct s2 { int id, chk; };
struct s3 { double d; short id; char more[20]; int chk; };
struct led { int magic; };
static int mk_int(int i) { return i * 7 + 3; }
static int id_int(int v) { return (v - 3) % 7 ? 0 : (v - 3) / 7; }
static struct s1 mk_s1(int i) { struct s1 s; memset(&s, 0, sizeof s); s.id = i; s.chk = ~i; return s; }
static int id_s1(struct s1 s) { return s.chk == ~s.id ? s.id : 0; }
static double mk_double(int i) { return i + 0.5; }
static int id_double(double d) { return d > 0 && d < 100000 && d - (int)d == 0.5 ? (int)d : 0; }
static struct s2 *mk_p2(int i) { struct s2 *p = malloc(sizeof *p); p->id = i; p->chk = ~i; return p; }
static int id_p2(struct s2 *p) { return p && p->chk == ~p->id ? p->id : 0; }
static struct s3 mk_s3(int i) { struct s3 s; memset(&s, 0, sizeof s); s.id = (short)i; s.chk = i ^ 0x5555; s.d = i; strcpy(s.more, "more"); return s; }
static int id_s3(struct s3 s) { return s.chk == (s.id ^ 0x5555) && s.d == s.id && !strcmp(s.more, "more") ? s.id : 0; }
static int next_id;
static void rule_is(int r) { printf(" r%d(", r); }
static void arg_is(int id) { printf(",%d", id); }
static void code_is(int id, int major) { printf(",%d@%d", id, major); }
static int made(void) { next_id++; printf(")=%d", next_id); return next_id; }
static void none(void) { printf(")"); }
static void gone(const char *who, int id) { printf(" d%s:%d", who, id); }
}
%syntax_error { printf(" E"); }
%parse_accept { printf(" A"); }
%parse_failure { printf(" F"); }
%stack_overflow { printf(" O"); }
'''
# one case per line; 0 ends an input; a line that does not end in 0 is cut off: the parser is freed in the middle
POST = r'''%code {
TOKCODES
int main(void)
{
    static char buf[1 << 16];
    while (fgets(buf, sizeof buf, stdin)) {
        char *s = buf;
        struct led L = { 4711 };
        void *p = ParseAlloc(malloc ALLOCARG);
        (void)L;
        next_id = 0;
        for (;;) {
            char *e;
            long t = strtol(s, &e, 10);
            if (e == s) break;
            s = e;
            if (t) { next_id++; printf(" T%d", next_id); Parse(p, tokcode[t], MKTOK(next_id) PARSEARG); }
            else { printf(" $"); Parse(p, 0, NOTOK PARSEARG); }
        }
        printf(" X");
        ParseFree(p, free);
        printf("\n");
        fflush(stdout);
    }
    return 0;
}
}
'''


class Spec:
    pass


def make(c, ctx, kind, V=None):
    g, lr, act = l01.grammar(c, 'small' if kind != 'big' else 'big')
    g = l01.reachable_only(g)
    rules = list(g.rules)
    errs = kind == 'errors' and c.bool(2, 3)
    if errs:
        lhs = [a for a in g.nts if a != g.start]
        for _ in range(c.int(1, 2)):
            if lhs:
                a = c.pick(lhs)
                rules.append(Rule(a, ['error'] + ([c.pick(g.terms)] if c.bool(2, 3) else [])))
        rules = [r for i, r in enumerate(rules) if (r.lhs, tuple(r.rhs)) not in {(x.lhs, tuple(x.rhs)) for x in rules[:i]}]
        g = Grammar(g.terms + ['error'], rules, g.start)
        errs = any('error' in r.rhs for r in rules)
        if not errs:
            g = Grammar(g.terms[:-1], rules, g.start)
    many = c.pick([(0, 1), (0, 1), (1, 6), (1, 3)])
    fresh = ['F%d' % i for i in range(1, c.pick([0, 6, 20]) + 1)] if many[0] else []
    if fresh:
        g = Grammar(fresh + g.terms, g.rules, g.start)
    M = Multi(c, g, *many, fresh=fresh)
    S = Spec()
    S.M, S.errs = M, errs
    S.e = M.expand(lambda r: None)
    try:
        S.lr = LR(S.e, limit=400)
    except OverflowError:
        raise Discard('too many states')
    S.act = sim.conflict_free_actions(S.lr)
    if S.act is None:
        raise Discard('conflict')
    return S


GENERIC = '_Generic(($$), int: id_int, struct s1: id_s1, double: id_double, struct s2 *: id_p2, void *: id_vp, struct s3: id_s3)($$)'


def dress(c, S):
    """types, destructors, labels and actions"""
    M = S.M
    g = M.g
    o = []
    S.tok = c.draw(len(TYPES)) if c.bool(5, 6) else None
    if S.tok is not None:
        o.append('%%token_type {%s}\n' % TYPES[S.tok][0])
    else:
        S.tok = 3           # void * by default
        S.voidp = True
    S.voidp = not o
    S.tokd = c.bool(3, 4)
    if S.tokd:
        o.append('%%token_destructor { gone("T", %s($$)); }\n' % TYPES[S.tok][2])
    S.dflt = c.draw(len(TYPES)) if c.bool() else None
    if S.dflt is not None:
        o.append('%%default_type {%s}\n' % c.pick(['%s', ' %s ', '%s']) .replace('%s', TYPES[S.dflt][0]))
    S.dd = c.bool(1, 3)
    S.nt = {}        # name -> (type index, destructor name or None, valued)
    used_dd = False
    ddk = S.dflt if S.dflt is not None else S.tok
    for a in g.nts:
        ty = c.draw(len(TYPES)) if c.bool() else None
        own = c.bool(1, 2)
        valued = S.dd or own or c.bool(1, 2)
        k = ty if ty is not None else S.dflt if S.dflt is not None else S.tok
        if S.dd and not own:
            # the default destructor: one text for every type, so it must be generic
            dn = 'D'
        else:
            dn = a if own else None
        # symbols of one or several types that share the text of a destructor
        if own and c.bool(1, 3):
            dn = c.pick('VW')
        if ty is not None:
            o.append('%%type %s {%s}\n' % (a, TYPES[ty][0]))
        S.nt[a] = (k, dn, valued)
        if own and dn != a:
            o.append('%%destructor %s { gone("%s", %s); }\n' % (a, dn, GENERIC))
        elif own:
            rd = 'id_p2((struct s2 *)$$)' if k == S.tok and S.voidp and (ty is None and S.dflt is None) else '%s($$)' % TYPES[k][2]
            o.append('%%destructor %s { %s }\n' % (a, c.pick(['gone("%s", %s);', 'gone("%s",\n  %s);', 'if (1) { gone("%s", %s); }']) % (a, rd)))
    if S.dd:
        o.append('%%default_destructor { gone("D", %s); }\n' % GENERIC)
    S.arg = c.pick(['', '', 'arg', 'ctx', 'both'])
    if S.arg in ('arg', 'both'):
        o.append('%extra_argument {struct led *pLed}\n')
    if S.arg in ('ctx', 'both'):
        o.append('%extra_context {struct led *pCtx}\n')
    chk = ''
    if S.arg in ('arg', 'both'):
        chk += 'if (pLed->magic != 4711) abort(); '
    if S.arg in ('ctx', 'both'):
        chk += 'if (pCtx->magic != 4711) abort(); '
    head = HEAD.replace('static int next_id;', 'static int id_vp(void *p) { return id_p2((struct s2 *)p); }\nstatic int next_id;')
    o.insert(0, head)
    S.labels = []
    rules = []
    for i, r in enumerate(g.rules, 1):
        lab, n = {}, 0
        pool = ['A', 'B', 'X', 'AB', 'A1', 'X_', 'a', 'b2', 'L', 'LL', 'Y', 'v', 'id', 'x']
        pool = c.shuffle(pool)
        for k, s in enumerate(r.rhs):
            if s == 'error':
                continue
            ok = S.nt[s][2] if s in S.nt else True
            if ok and c.bool() and n < 8:
                lab[k] = pool.pop()
                n += 1
        k0, dn, valued = S.nt[r.lhs]
        lhs = None
        mode = 'plain'
        pre, args, post = '', [], ''
        reads = []
        for k, l in lab.items():
            s = r.rhs[k]
            kk = S.nt[s][0] if s in S.nt else S.tok
            rd = TYPES[kk][2]
            vp = S.voidp and kk == S.tok and (s not in S.nt or is_tok_type(S, s, o))
            if vp:
                rd = 'id_vp'
            reads.append((k, l, rd, s not in S.nt and c.bool(1, 3)))
        if valued:
            mk = TYPES[k0][1]
            if 0 in lab and c.bool(1, 3):
                s = r.rhs[0]
                same = dtype(S, s, o) == dtype(S, r.lhs, o)
                if same and c.bool():
                    lhs, mode = lab[0], 'same'
                else:
                    lhs, mode = pool.pop(), 'over'
            else:
                lhs = pool.pop()
        code = ''
        if valued or lab or c.bool(1, 3):
            l = ['rule_is(%d);' % i]
            for k, la, rd, maj in reads:
                if maj:
                    l.append('code_is(%s(%s), @%s);' % (rd, la, la))
                else:
                    l.append(c.pick(['arg_is(%s(%s));', 'arg_is( %s(%s) );', '{ int q%s_ = 0; (void)q%s_; arg_is(%s(%s)); }'.replace('%s_', 'Z_')]) % (rd, la))
            if mode == 'over':
                l.append('/*%s-overwrites-%s*/' % (lhs, lab[0]))
            if valued:
                l.append('%s = %s(made());' % (lhs, TYPES[k0][1]))
            else:
                l.append('none();')
            if chk:
                l.insert(c.draw(len(l)) if mode != 'over' else 0, chk)
            code = ' { ' + c.pick([' ', '\n  ']).join(l) + ' }'
        S.labels.append((dict(lab), bool(code), valued))
        rules.append(M.rule_text(r, lab, lhs) + code + '\n')
    S.text_rules = ''.join(rules)
    S.decl = ''.join(o)
    S.stack = c.pick([None, None, None, 0, 4, 6, 9])
    post = POST.replace('TOKCODES', lemon.tokcodes(M.terms if not S.errs else [t for t in M.terms if t != 'error']))
    post = post.replace('PARSEARG', ', &L' if S.arg in ('arg', 'both') else '').replace('ALLOCARG', ', &L' if S.arg in ('ctx', 'both') else '')
    nn = {0: '0', 2: '0', 3: '0', 1: 'mk_s1(0)', 4: 'mk_s3(0)'}[S.tok]
    post = post.replace('MKTOK', TYPES[S.tok][1]).replace('NOTOK', nn)
    named = [t for t in M.terms if t != 'error']
    S.codes = lambda t: named.index(t) + 1
    S.text = (S.decl + ('%%stack_size %d\n' % S.stack if S.stack is not None else '') + lemon.decls(Grammar(named, g.rules, g.start), start=True)
              + M.decls() + S.text_rules + post)
    return S


def is_tok_type(S, a, o):
    return '%%type %s {' % a not in ''.join(x[:8 + len(a)] if x.startswith('%type') else '' for x in o) and S.dflt is None


def dtype(S, s, o):
    """the C type as lemon sees it"""
    if s not in S.nt:
        return 'void*' if S.voidp else TYPES[S.tok][0]
    for x in o:
        m = re.match(r'%%type %s \{(.*)\}' % re.escape(s), x)
        if m:
            return m.group(1)
    if S.dflt is not None:
        return TYPES[S.dflt][0]
    return 'void*' if S.voidp else TYPES[S.tok][0]


def check(c, ctx, kind):
    S = make(c, ctx, kind)
    dress(c, S)
    e, M = S.e, S.M
    opts = c.subset(['-c', '-r', '-l', '-q'], 1, 5)
    d = ctx.dir()
    p = lemon.run(ctx, d, S.text, opts)
    if 'parsing conflicts' in p.errs or 'can not be reduced' in p.errs:
        raise Discard('conflict')

    def V(m, k):
        raise Violation('lemon %s: %s' % (' '.join(opts), m), k)
    if p.rc or p.errs.strip():
        V('rejects the grammar: %s' % p.errs[:500], 'rejected')
    asan = kind != 'big' and c.bool(1, 4)
    fl = ['-O0'] + (['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-g'] if asan else []) + c.subset(['-DNDEBUG'], 1, 2)
    exe = lemon.cc(ctx, d, 'g.c', 'p', flags=fl)
    terms = [t for t in M.terms if t != 'error']
    idx = {t: i for i, t in enumerate(terms, 1)}
    ws = sim.inputs_for(c, e, 10, 14, depth=8, exhaustive=20) if kind != 'big' else sim.inputs_for(c, e, 25, 25, depth=8, exhaustive=0)
    ws = [w for w in ws if 'error' not in w]
    cases = []
    for w in ws:
        k = c.draw(5)
        if k == 0 and len(w) > 1:
            cases.append(([w[:c.draw(len(w))]], True))
        elif k == 1:
            cases.append(([w] + [c.pick(ws) for _ in range(c.int(1, 2))], c.bool(1, 3)))
        else:
            cases.append(([w], False))
    lines = [' '.join(' '.join([str(idx[t]) for t in w] + ([] if cut and j == len(l) - 1 else ['0'])) for j, w in enumerate(l)) for l, cut in cases]
    out = lemon.run_lines(ctx, exe, lines, d, env={'ASAN_OPTIONS': 'detect_leaks=0'})
    for (l, cut), o in zip(cases, out):
        judge(S, l, cut, o, idx, V, ctx)
    for k, v in [('error rules', S.errs), ('multi-terminals', M.alts), ('default destructor', S.dd), ('token destructor', S.tokd), ('default type', S.dflt is not None), ('sanitized', asan),
                 ('stack size', S.stack is not None), ('context', S.arg)]:
        if v:
            ctx.label(k)
    ctx.sample('\n'.join(lines[:2]) + '\n' + '\n'.join(out[:2]))
    if any(x[0] for x in S.labels) and any(a[1] for a in S.nt.values()):
        ctx.nontrivial(S.text)


def judge(S, inputs, cut, o, idx, V, ctx):
    what = ' $ '.join(' '.join(w) for w in inputs) + ('' if cut else ' $')
    ev = o.split()
    ctx.ev()
    rules = S.M.g.rules
    toks = [t for w in inputs for t in w]
    # ---- the ledger
    sym = {}            # id -> symbol that made it
    live = {}
    n = ntok = accepts = overflow = fails = errors = 0
    # values of the tokens come first in the order of Tn marks
    acts = []
    for x in ev:
        m = re.fullmatch(r'T(\d+)', x)
        if m:
            k = int(m.group(1))
            sym[k] = toks[ntok]
            live[k] = True
            ntok += 1
            continue
        m = re.fullmatch(r'r(\d+)\((.*)\)(?:=(\d+))?', x)
        if m:
            i = int(m.group(1))
            lab, code, valued = S.labels[i - 1]
            args = [a for a in m.group(2).split(',') if a]
            ids = []
            if len(args) != len(lab):
                V('on %s: rule %d with %d labels: %s' % (what, i, len(lab), x), 'arguments')
            for k, a in zip(lab, args):
                s = rules[i - 1].rhs[k]
                v, _, maj = a.partition('@')
                v = int(v)
                ids.append(v)
                if v not in sym:
                    V('on %s: rule %s: label of %s has no value: %s\n%s' % (what, rules[i - 1], s, x, o), 'no value')
                if sym[v] not in S.M.alts.get(s, [s]):
                    V('on %s: rule %s: label of %s has the value %d of %s\n%s' % (what, rules[i - 1], s, v, sym[v], o), 'wrong value')
                if not live.pop(v, False):
                    V('on %s: rule %s: label of %s has the value %d, which is used up\n%s' % (what, rules[i - 1], s, v, o), 'value used twice')
                if maj and int(maj) != S.codes(sym[v]):
                    V('on %s: rule %s: @ of %s is %s instead of %d\n%s' % (what, rules[i - 1], s, maj, S.codes(sym[v]), o), 'major')
            if valued != bool(m.group(3)):
                V('on %s: %s' % (what, x), 'arguments')
            if valued:
                sym[int(m.group(3))] = rules[i - 1].lhs
                live[int(m.group(3))] = True
            acts.append((i, ids, int(m.group(3)) if valued else None))
            continue
        m = re.fullmatch(r'd(\w+):(-?\d+)', x)
        if m:
            v = int(m.group(2))
            if v not in sym:
                V('on %s: destructor %s runs on no value (%d)\n%s' % (what, m.group(1), v, o), 'destructor')
            s = sym[v]
            dn = S.nt[s][1] if s in S.nt else 'T' if S.tokd else None
            if dn != m.group(1):
                V('on %s: destructor %s runs on the value %d of %s\n%s' % (what, m.group(1), v, s, o), 'wrong destructor')
            if not live.pop(v, False):
                V('on %s: value %d of %s is destroyed a second time, or after an action got it\n%s' % (what, v, s, o), 'destroyed twice')
            continue
        if x == 'A':
            accepts += 1
            for v in list(live):
                if sym[v] == S.M.g.start:
                    del live[v]
        elif x == 'O':
            overflow += 1
        elif x == 'F':
            fails += 1
        elif x == 'E':
            errors += 1
        elif x not in ('$', 'X'):
            V('on %s: strange event %s' % (what, x), 'event')
    left = [v for v in live if (S.nt[sym[v]][1] if sym[v] in S.nt else S.tokd)]
    if left:
        v = left[0]
        V('on %s: value %d of %s is never destroyed\n%s' % (what, v, sym[v], o), 'never destroyed')
    if ntok != len(toks):
        V('on %s: %d tokens read' % (what, ntok), 'tokens')
    ctx.label('overflow', overflow)
    ctx.label('failures', fails)
    ctx.label('accepted', accepts)
    # ---- exact values for sentences
    if S.errs or overflow or (cut and len(inputs) > 1):
        return
    if errors:
        return
    at = 0
    base = 0
    for w in inputs:
        acc, red, pos = sim.parse(S.lr, S.act, w)
        if cut:
            return
        if not acc:
            V('on %s: no syntax error' % what, 'language')
    # replay
    it = iter(acts)
    stack = []
    # ids are given in the order of tokens and actions: take them from the events
    evs = [x for x in ev if x[0] in 'Tr']
    pos = 0
    order = []          # the events in order as (kind, ...)
    ai = 0
    for x in evs:
        if x[0] == 'T':
            order.append(('T', int(x[1:])))
        else:
            order.append(('r',) + acts[ai])
            ai += 1
    oi = 0
    tokids = [x[1] for x in order if x[0] == 'T']
    rs = [x for x in order if x[0] == 'r']
    ti = ri = 0
    src = source(S)
    for w in inputs:
        stack = []
        for t, i in steps(S, w):
            if t == 's':
                stack.append(tokids[ti])
                ti += 1
                continue
            r = S.e.rules[i - 1]
            k = src[i - 1]
            n = len(r.rhs)
            ch = stack[len(stack) - n:] if n else []
            del stack[len(stack) - n:]
            lab, code, valued = S.labels[k - 1]
            val = None
            if code:
                if ri >= len(rs):
                    V('on %s: rule %s is not run\n%s' % (what, r, o), 'reductions')
                _, gi, ids, val = rs[ri]
                ri += 1
                if gi != k:
                    V('on %s: rule %d instead of %d\n%s' % (what, gi, k, o), 'reductions')
                want = [ch[p] for p in lab]
                if ids != want:
                    V('on %s: rule %s gets the values %s instead of %s\n%s' % (what, r, ids, want, o), 'values')
            stack.append(val)
    if ri != len(rs):
        V('on %s: %d actions too many\n%s' % (what, len(rs) - ri, o), 'reductions')
    ctx.label('values compared')
    ctx.ev()


def source(S):
    """number of the expanded rule -> number of the rule it comes from"""
    out = []
    for i, r in enumerate(S.M.g.rules, 1):
        n = 1
        for s in r.rhs:
            n *= len(S.M.alts.get(s, [s]))
        out += [i] * n
    return out


def steps(S, w):
    st, i, out = [0], 0, []
    while True:
        t = w[i] if i < len(w) else '$end'
        a = S.act[st[-1]].get(t)
        if a[0] == 's':
            st.append(a[1])
            out.append(('s', 0))
            i += 1
        elif a[0] == 'a':
            return out
        else:
            l, rhs = S.lr.rules[a[1]]
            if rhs:
                del st[-len(rhs):]
            st.append(S.lr.trans[st[-1]][l])
            out.append(('r', a[1]))


SPEC = dict(
    tests={
        'values': (lambda c, x: check(c, x, 'values'), 1100, 16000),
        'errors': (lambda c, x: check(c, x, 'errors'), 1100, 16000),
        'big': (lambda c, x: check(c, x, 'big'), 60, 700),
    },
    rule='a case is a conflict-free grammar (with and without error rules, multi-terminals, token classes) with random %type, %token_type, %default_type, '
         '%destructor, %token_destructor, %default_destructor, labels (shared, overwriting, @label), extra argument or context and stack size, compiled and run on '
         'sentences, wrong inputs, several inputs in a row and inputs cut off by ParseFree. Every value carries a number: a ledger checks that each one is '
         'given to one action or one destructor, the right one, and on sentences the values given to each action are those of its children in the reference '
         'derivation. Non-trivial: labels and destructors; distinct by text',
    assumptions=['the value of the start symbol is nobody\'s once the input is accepted', 'a rule without code or left-hand label gives its symbol no value'],
)
