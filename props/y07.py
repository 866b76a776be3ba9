"""Y07: a backtracking parser finds a parse whenever one of its trials succeeds."""
import importlib
from vlib import byacc, gen, sim
from vlib.engine import Violation, Discard
from vlib.gram import LR, Grammar, Rule, Earley, mutate

y03 = importlib.import_module('props.y03')


class Limit(Exception):
    pass


def model(lr, R, g, w, preds, limit=6000):
    """(events, rc, tokens read, trials); depth-first trial of conflicting alternatives.
    preds: rule -> list of (kind, k, m, j): in a trial action, run kind when the value of $k modulo m is j"""
    n = len(w)
    st, vs = [0], [None]
    pos = 0                 # next token to read or re-read
    read = 0                # tokens taken from the lexer
    ch = None
    saves, path = [], []
    far = None
    out = []
    nact = 0
    steps = trials = 0

    def backtrack(reported):
        """an error in trial mode: the next alternative, or None when the error is real"""
        nonlocal st, vs, pos, ch, far
        while saves:
            if far is None or far[0] < pos:
                far = (pos, list(st), list(vs))
            s = saves[-1]
            st, vs, pos = list(s[1]), list(s[2]), s[3]
            ch = None
            s[5] += 1
            if s[5] < len(s[4]):
                return s[4][s[5]]
            saves.pop()
            if not saves:
                pos, st, vs = far[0], far[1], far[2]
                far = None
                ch = 'la'
            reported = True
        if reported:
            out.append('E')
        return None

    def commit():
        nonlocal st, vs, pos, ch, far, saves, path
        path = saves
        saves = []
        far = None
        s = path[0]
        st, vs, pos = list(s[1]), list(s[2]), s[3]
        ch = None
    while True:
        steps += 1
        if steps > limit or len(st) > 900:
            raise Limit()
        q = st[-1]
        a = None
        if R.defred[q]:
            a = ('r', R.defred[q])
        else:
            if ch is None:
                ch = w[pos] if pos < n else '$end'
                pos += 1
                read = max(read, pos)
            if ch in R.multi[q]:
                alts = R.multi[q][ch]
                if path:
                    s = path.pop(0)
                    if s[0] != q:
                        raise AssertionError('path')
                    a = s[4][s[5]]
                else:
                    trials += 1
                    pos -= 1
                    ch = None
                    saves.append([q, list(st), list(vs), pos, alts, 0])
                    a = alts[0]
                if a[0] == 's':
                    if ch is None:
                        pos += 1
                    ch = None
                    st.append(a[1])
                    vs.append(pos)
                    continue
            else:
                a = R.act[q].get(ch, ('e', 0))
        while True:
            if a[0] == 's':
                st.append(a[1])
                vs.append(pos)
                ch = None
                break
            if a[0] in 'ea':
                if a[0] == 'a':
                    raise AssertionError('accept')
                a = backtrack(True)
                if a is None:
                    return out, 1, read, trials, pos < read
                continue
            ri = a[1] - 1
            r = g.rules[ri]
            m = len(r.rhs)
            rv = vs[len(vs) - m:] if m else []
            jump = None
            for kind, k, mod, j in preds.get(ri, ()):
                if rv[k - 1] % mod == j:
                    if kind == 'YYERROR':
                        jump = 'err'
                        break
                    if saves:
                        jump = 'valid'
                        break
            if jump == 'valid':
                if path:
                    raise AssertionError('valid while following')
                commit()
                break
            if jump == 'err':
                if m:
                    del st[-m:], vs[-m:]
                a = backtrack(False)
                if a is None:
                    return out, 1, read, trials, pos < read
                continue
            if not saves:
                nact += 1
                out.append('r%d:%s' % (ri + 1, ','.join(map(str, rv))))
                nv = 100000 + nact
            else:
                nv = rv[0] if m else None
            if m:
                del st[-m:], vs[-m:]
            if len(st) == 1 and r.lhs == g.start:
                st.append(lr.final)
                vs.append(nv)
                if ch is None:
                    ch = w[pos] if pos < n else '$end'
                    pos += 1
                    read = max(read, pos)
                if ch == '$end':
                    if saves:
                        commit()
                        break
                    return out, 0, read, trials, pos < read
                break
            st.append(lr.trans[st[-1]][r.lhs])
            vs.append(nv)
            break


PRE = r'''%%{
#include <stdio.h>
#include <stdlib.h>
static int yylex(void);
static void yyerror(const char *s);
static int nact;
#define YYMAXDEPTH 1000
%s
#define SETID(x) ((x) = 100000 + nact)
%%}
'''
POST = r'''
static int in_tok[4096], in_n, in_p, in_over;
static int yylex(void)
{
    if (in_p < in_n) { yylval = in_p + 1; return tokcode[in_tok[in_p++]]; }
    yylval = in_p + 1;
    if (in_over++) { printf(" LEX-PAST-END"); if (in_over > 3) { printf("\n"); exit(9); } }
    return 0;
}
static void yyerror(const char *s) { printf(" E"); }
int main(void)
{
    static char line[65536];
    setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    while (fgets(line, sizeof line, stdin)) {
        char *p = line; int rc;
        in_n = in_p = in_over = 0;
        nact = 0;
        for (;;) {
            char *q; long v = strtol(p, &q, 10);
            if (q == p) break;
            in_tok[in_n++] = (int)v; p = q;
        }
        rc = yyparse();
        printf(" =%d @%d\n", rc, in_p + in_over);
        fflush(stdout);
    }
    return 0;
}
'''


def shared(c):
    """several nonterminals with the same right-hand sides, different ones of them possible in different places"""
    ns = ['n%d' % i for i in range(c.int(2, 5))]
    ts = ["'a'", "'b'", "'c'", "'d'"][:c.int(2, 4)]
    bodies = [c.pick([['A'], ['A'], ['A', 'A'], [], ["'a'"]]) for _ in range(c.int(1, 2))]
    rules = []
    for i in range(c.int(2, 4)):
        pre = [[], ['P'], ['Q'], ['P', 'Q'], ['Q', 'Q']][i if c.bool(3, 4) else c.draw(5)]
        for n in c.subset(ns, 2, 3):
            rules.append(Rule('s', pre + [n] + c.pick([[], [c.pick(ts)], [c.pick(ts)], [c.pick(ts), c.pick(ts)]])))
    if c.bool(1, 3):
        rules.append(Rule('s', ['s', c.pick(ts), 's']))
    if c.bool(1, 2):
        rules = c.shuffle(rules)
    order = c.shuffle(ns) if c.bool() else ns
    tail = [Rule(n, b) for n in order for b in bodies]
    rules = rules + tail if c.bool() or not rules else [Rule('s', rules[0].rhs)] + tail + rules[1:]
    seen, out = set(), []
    for r in rules:
        if (r.lhs, r.rhs) not in seen:
            seen.add((r.lhs, r.rhs))
            out.append(r)
    if not any(r.lhs == 's' for r in out):
        raise Discard('none')
    g = gen.prune_unproductive(Grammar(sorted({x for r in out for x in r.rhs if x[0] in "APQ'"}), out, 's', {}))
    if g is None or not g.terms:
        raise Discard('none')
    return g


def ambiguous(c):
    if c.bool(1, 5):
        return shared(c)
    k = c.draw(5)
    if k < 2:
        g = y03.conflict_grammar(c)
        if c.bool(2, 3):
            g = Grammar(g.terms, [Rule(r.lhs, r.rhs) for r in g.rules], g.start, {})
        return g
    g = gen.any_grammar(c, unproductive=False, prec=c.bool(1, 3))
    if g is None or not g.terms:
        raise Discard('no terminals')
    rules = list(g.rules)
    for _ in range(c.int(1, 3)):
        r = c.pick(rules)
        x = c.draw(5)
        if x == 0 and r.rhs:
            rules.append(Rule(r.lhs, r.rhs + r.rhs[-1:]))
        elif x == 1:
            rules.append(Rule(c.pick(g.nts), r.rhs))
        elif x == 2:
            rules.append(Rule(r.lhs, (r.lhs, r.lhs)))
        elif x == 3:
            rules.append(Rule(r.lhs, r.rhs[:1]))
        else:
            rules.append(Rule(r.lhs, r.rhs + (c.pick(g.terms),)))
    seen, rs = set(), []
    for r in rules:
        if (r.lhs, r.rhs) not in seen and r.rhs != (r.lhs,):
            seen.add((r.lhs, r.rhs))
            rs.append(r)
    g = Grammar(g.terms, rs, g.start, g.prec)
    if c.bool(1, 4):        # mid-rule actions, never next to each other or to the final action
        rs, n = [], 0
        for r in g.rules:
            rhs = list(r.rhs)
            if len(rhs) >= 1 and c.bool(1, 3):
                p = c.draw(len(rhs))
                n += 1
                rhs.insert(p, '$$%d' % n)
                rs.append(Rule('$$%d' % n, []))
            rs.append(Rule(r.lhs, rhs, r.prec))
        g = Grammar(g.terms, rs, g.start, g.prec)
    return g


def check(c, ctx, kind):
    g = ambiguous(c)
    if not g.terms:
        raise Discard('no terminals')
    lr = LR(g, limit=400)
    R = byacc.resolve(lr, g, backtrack=True)
    if R.reduce_accept or not any(R.multi):
        raise Discard('no conflict')
    terms = set(g.terms)
    preds = {}
    if kind == 'semantic':
        for i, r in enumerate(g.rules):
            ks = [k for k, s in enumerate(r.rhs, 1) if s in terms]
            if ks and r.lhs[:2] != '$$' and c.bool(1, 2):
                m = c.int(2, 5)
                preds[i] = [(c.pick(['YYERROR', 'YYERROR', 'YYVALID']), c.pick(ks), m, c.draw(m))]
                if c.bool(1, 4):
                    m = c.int(2, 5)
                    preds[i].append((c.pick(['YYERROR', 'YYVALID']), c.pick(ks), m, c.draw(m)))
        if not preds:
            raise Discard('no predicates')

    def action(i, r):
        a = ''
        n = 0 if r.lhs[:2] == '$$' else len(r.rhs)
        for kd, k, m, j in preds.get(i - 1, ()):
            a += '[ if ($%d %% %d == %d) %s; ] ' % (k, m, j, kd + ('' if kd == 'YYERROR' else ''))
        ids = ['$%d' % k for k in range(1, n + 1)]
        return a + '{ nact++; printf(" r%d:%s"%s); SETID($$); }' % (i, ','.join(['%d'] * n), ''.join(', ' + x for x in ids))
    grow = '#define YYLVQUEUEGROWTH %d' % c.pick([1, 2, 3, 32])
    if c.bool():
        grow += '\n#define YYINITSTACKSIZE %d' % c.int(2, 6)
    spec = (PRE % grow + byacc.decls(g) + '%%\n' + byacc.rules_text(g, action) + '%%\n' + byacc.tokcode_table(g.terms) + POST)
    d = ctx.dir()
    p = byacc.yacc(ctx, 'btyacc', d, spec, ['-B'])
    if p.rc != 0:
        raise Violation('byacc rejects the grammar: ' + p.errs, 'reject')
    asan = kind == 'plain' and c.bool(1, 5)
    if asan:
        ctx.label('compiled with sanitizers')
    exe = byacc.cc(ctx, d, 'y.tab.c', 'p', flags=('-O0', '-fsanitize=address,undefined', '-fno-sanitize-recover=all') if asan else ('-O0',))
    ws = sim.inputs_for(c, g, 16, 3, depth=c.int(3, 8), maxlen=24, exhaustive=0)
    idx = {t: i for i, t in enumerate(g.terms, 1)}
    ea = Earley(g)
    mids = {r.lhs for r in g.rules if r.lhs[:2] == '$$'}
    keep, exp, alone = [], [], []
    for w in ws:
        if len(w) > 40:
            continue
        try:
            e = model(lr, R, g, w, preds)
        except Limit:
            ctx.label('inputs on which the trials take too long')
            continue
        if not preds:
            ok = ea.accepts(w)
            # full trial over unresolved conflicts finds every sentence; precedence may only remove parses
            if (e[1] == 0) != ok and (ok is False or not g.prec):
                raise Violation('the model disagrees with the grammar on %s' % ' '.join(w), 'model')
        if e[4]:
            # known finding: the next yyparse would start with the tokens left in the queue
            if len(alone) < 8:
                alone.append((w, e))
            continue
        keep.append(w)
        exp.append(e)
    env = {'ASAN_OPTIONS': 'detect_leaks=0'}
    # parse the empty queue inputs in one process, the others in one process each
    lines = [' '.join(str(idx[t]) for t in w) for w in keep]
    out = byacc.run_lines(ctx, exe, lines, d, env=env)
    for w, e in alone:
        keep.append(w)
        exp.append(e)
        lines.append(' '.join(str(idx[t]) for t in w))
        out += byacc.run_lines(ctx, exe, lines[-1:], d, env=env)
    tried = sum(e[3] > 0 for e in exp)
    acc = 0
    for w, o, e in zip(keep, out, exp):
        ctx.ev()
        x = e[0] + ['=%d' % e[1], '@%d' % e[2]]
        if o.split() != x:
            raise Violation('input %s\nexpected %s\ngot      %s' % (' '.join(w), ' '.join(x), o), 'trial')
        acc += e[1] == 0 and e[3] > 0
    ctx.label('inputs with trials', tried)
    ctx.label('inputs accepted after trials', acc)
    ctx.label('trials', sum(e[3] for e in exp))
    if g.prec:
        ctx.label('with precedence')
    if mids:
        ctx.label('with mid-rule actions')
    for ps in preds.values():
        for x in ps:
            ctx.label('with ' + x[0] + ' in a trial action')
    if tried >= 3 and acc:
        ctx.nontrivial(g.key() + repr(sorted(preds.items())))
        ctx.sample(str(g) + '\n' + repr(preds) + '\n' + '\n'.join('%s -> %s' % (l, o) for l, o in list(zip(lines, out))[:5]))


def probe_queue(ctx):
    """a parse that ends with tokens left in the queue: the next yyparse starts with them"""
    d = ctx.dir()
    byacc.yacc(ctx, 'btyacc', d, r'''%{
#include <stdio.h>
static int yylex(void); static void yyerror(const char *s);
%}
%token A B C
%%
s: x C C | y C C ;
x: A B { YYABORT; } ;
y: A B ;
%%
static int n, t[] = { A, B, C, C, 0 };
static int yylex(void) { return t[n] ? t[n++] : 0; }
static void yyerror(const char *s) { printf(" E"); }
int main(void)
{
    int r = yyparse();
    printf(" =%d @%d", r, n);
    n = 4; r = yyparse();              /* empty input */
    n = 3; 
    t[0] = B; n = 0; r = yyparse();    /* B C C: wrong first token */
    printf(" =%d @%d\n", r, n);
    return 0;
}
''', ['-B'])
    exe = byacc.cc(ctx, d, 'y.tab.c', 'p')
    o = byacc.run_lines(ctx, exe, [''], d)
    if o[0].split()[-1] != '@1':
        raise Violation('yyparse after an aborted parse starts with the tokens left in the queue: ' + o[0], 'stale-queue')


SPEC = dict(
    probes={'stale-queue': probe_queue},
    tests={
        'ambiguous': (lambda c, x: check(c, x, 'plain'), 1500, 26000),
        'semantic': (lambda c, x: check(c, x, 'semantic'), 1000, 18000),
    },
    setup=lambda tier: (byacc.tool('btyacc'),),
    rule='a case is a generated grammar with conflicts, compiled with -B; the trace (actions with the identities of the values they '
         'get, yyerror, result, tokens read) on sentences, mutated sentences and random strings is compared with a model of '
         'depth-first trial, and acceptance with an Earley recogniser (equal to it when there is no precedence); the semantic test adds '
         'trial actions with YYERROR and YYVALID under conditions on token values; non-trivial: at least 3 inputs on which a trial '
         'starts, one of them accepted; distinct by grammar and trial actions',
    assumptions=['the reference automaton (checked by Y02 and Y19)', 'inputs whose trials need more than 6000 steps are left out',
                 'no error productions here (recovery after failed trials is observed by Y06)'],
)
