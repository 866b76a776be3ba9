"""Y04: semantic values and locations reach the actions they are written for."""
from collections import deque
from vlib import byacc, gen, sim
from vlib.engine import Violation, Discard
from vlib.gram import LR, Grammar, Rule

M32 = 0xffffffff
TAGS = ['m0', 'm1', 'm2']


def mix(h, x):
    return ((h * 31) & M32) ^ ((x + 0x9e3779b9 + (h >> 5)) & M32)


def tokval(p, j):
    """value word j of the token at position p"""
    return (p * 2654435761 + j * 40503 + 12345) & M32


def tokloc(p):
    return [p * 8 + 1, p * 8 + 2, p * 8 + 3, p * 8 + 4]


LOCF = ['first_line', 'first_column', 'last_line', 'last_column']


class Act:
    __slots__ = ('refs', 'assign', 'locs', 'locset')


def depths(lr):
    """length of the shortest stack (without the start state) for each state"""
    d = {0: 0}
    q = deque([0])
    while q:
        x = q.popleft()
        for s, t in lr.trans[x].items():
            if t not in d:
                d[t] = d[x] + 1
                q.append(t)
    return d


def plan(c, g, lr, union, loc):
    """what every action reads and writes"""
    dep = depths(lr)
    below = {}           # nonterminal -> guaranteed number of values below it
    for q in range(lr.n):
        for s in lr.trans[q]:
            if s in lr.isnt:
                below[s] = min(below.get(s, 99), dep[q])
    mids = {}
    for i, r in enumerate(g.rules):
        for k, s in enumerate(r.rhs):
            if s[:2] == '$$':
                mids[s] = (i, k)
    P = []
    for i, r in enumerate(g.rules):
        a = Act()
        if r.lhs in mids:
            owner, nsym = mids[r.lhs]
            syms = g.rules[owner].rhs[:nsym]
            bel = below.get(g.rules[owner].lhs, 0)
            mid = True
        else:
            syms = r.rhs
            bel = below.get(r.lhs, 0)
            mid = False
        refs = []
        for k in range(1, len(syms) + 1):
            if c.bool(4, 5):
                refs.append(k)
        for k in range(0, -min(bel, 4), -1):
            if c.bool(1, 3):
                refs.append(k)
        refs = c.shuffle(refs) if c.bool() else refs
        a.refs = [(k, c.draw(3)) for k in refs[:12]]
        a.locs = []
        a.locset = None
        if loc:
            for k in range(1, len(syms) + 1):
                if c.bool(1, 2):
                    a.locs.append((k, c.draw(4)))
            for k in range(0, -min(bel, 3), -1):
                if c.bool(1, 4):
                    a.locs.append((k, c.draw(4)))
            if not mid or nsym > 0 or bel > 0:
                if r.rhs or mid or bel > 0:
                    a.locs.append(('$', c.draw(4)))
                    if c.bool():
                        a.locs.append(('$', c.draw(4)))
            if c.bool(1, 8):
                a.locset = c.draw(4)
        # what is assigned: list of words (empty: none)
        k = c.draw(6)
        a.assign = [] if k == 0 else [c.draw(3)] if k < 4 else sorted({c.draw(3), c.draw(3)})
        P.append(a)
    return P, mids


def values(c, ctx):
    union = c.bool(2, 3)
    var, opts = c.pick([('yacc', []), ('btyacc', []), ('btyacc', ['-B'])])
    B = '-B' in opts
    loc = var == 'btyacc' and c.bool(2, 3)
    g = gen.any_grammar(c, mid=not B, unproductive=False)
    if g is None or not g.terms:
        raise Discard('no terminals')
    lr = LR(g, limit=600)
    R = byacc.resolve(lr, g)
    if R.reduce_accept or R.hidden or (B and R.SR + R.RR):
        raise Discard('not usable')
    P, mids = plan(c, g, lr, union, loc)
    # tags of symbols
    tag = {}
    if union:
        for s in g.all_terms() + g.nts:
            if s[:2] != '$$' and c.bool(3, 4):
                tag[s] = c.draw(3)
        if not tag:
            tag[g.start] = 0
    pure = c.bool(1, 4)
    pparam, lparam = c.bool(1, 4), c.bool(1, 4)

    def dollar(k, w, sym=None):
        """text of a reference to word w"""
        if not union:
            return '$%s' % k
        if sym is not None and tag.get(sym) == w:
            return '$%s.v' % k
        return '$<%s>%s.v' % (TAGS[w], k)

    use = {}

    def sym_at(i, k):
        r = g.rules[i]
        if r.lhs in mids:
            o, n = mids[r.lhs]
            return g.rules[o].rhs[k - 1]
        return r.rhs[k - 1]

    noact = {i for i, r in enumerate(g.rules) if r.lhs not in mids and r.rhs and r.rhs[-1] not in mids and c.bool(1, 6)
             and (not union or tag.get(r.lhs) == tag.get(r.rhs[0]))}

    def action(i, r):
        i -= 1
        if i in noact:
            return ''
        a = P[i]
        o = ['unsigned h = %uu;' % (i * 7919 + 17)]
        if r.rhs and a.assign and c.bool(1, 3):
            # $$ starts out as $1
            w = c.draw(3) if union else 0
            o.append('h = MX(h, %s);' % dollar('$', w, r.lhs))
            use[i] = w
        for k, w in a.refs:
            w = w if union else 0
            o.append('h = MX(h, %s);' % dollar(k, w, sym_at(i, k) if k > 0 else None))
        for k, f in a.locs:
            o.append('h = MX(h, (unsigned)@%s.%s);' % (k, LOCF[f]))
        if pparam:
            o.append('h = MX(h, salt);')
        for w in a.assign:
            w = w if union else 0
            o.append('%s = h + %d;' % (dollar('$', w, r.lhs if r.lhs not in mids else None), w))
            if not union:
                break
        if a.locset is not None:
            o.append('@$.%s = (int)(h >> 8);' % LOCF[a.locset])
        o.append('TR(%d, h);' % (i + 1))
        sep = c.pick([' ', '\n\t', ' '])
        return '{' + sep + sep.join(o) + ' }'

    body = byacc.rules_text(g, action)
    d = ctx.dir()
    if union:
        decl = '%%union {\n%s}\n' % ''.join(
            '  struct { %sunsigned v; } %s;\n' % ('unsigned pad[%d]; ' % j if j else '', t) for j, t in enumerate(TAGS))
        for s in g.all_terms():
            if s in tag:
                decl += '%%%s <%s> %s\n' % ('token' if not byacc.is_lit(s) or c.bool() else 'type', TAGS[tag[s]], s)
        for s in g.nts:
            if s in tag:
                decl += '%%type <%s> %s\n' % (TAGS[tag[s]], s)
    else:
        decl = ''
    if pure:
        decl += c.pick(['%pure-parser\n', '%define api.pure\n'] if var == 'btyacc' else ['%pure-parser\n'])
    if loc:
        if c.bool():
            decl += '%locations\n'
        else:
            opts = opts + ['-L']
    if pparam:
        decl += '%parse-param { unsigned salt }\n'
    if lparam:
        decl += '%lex-param { ' + ('unsigned salt' if pparam and c.bool() else 'int') + ' }\n' if False else '%lex-param {unsigned key}\n'
    pre = '%{\n#include <stdio.h>\n#include <stdlib.h>\n#define MX(h, x) ((((h) * 31u)) ^ ((x) + 0x9e3779b9u + ((h) >> 5)))\n'
    if not union:
        pre += '#define YYSTYPE unsigned\n'
    if lparam:
        pre += 'static unsigned key = 77;\n'
    pre += 'int yylex();\nvoid yyerror();\nstatic void TR(int n, unsigned h) { printf(" r%d:%u", n, h); }\n%}\n'
    lv = '(*yylval)' if pure else 'yylval'
    ll = '(*yylloc)' if pure else 'yylloc'
    setv = ''.join(' %s.%s.v = tv(p, %d);' % (lv, t, j) for j, t in enumerate(TAGS)) if union else ' %s = tv(p, 0);' % lv
    if union:      # members overlap: fill from the last to the first word of each
        setv = ' { unsigned w[3]; int j; for (j = 0; j < 3; j++) w[j] = tv(p, j); memcpy(&%s, w, sizeof w); }' % lv
    setl = ''
    if loc:
        setl = ''.join(' %s.%s = (int)(p * 8 + %d);' % (ll, f, j + 1) for j, f in enumerate(LOCF))
    pa = (['YYSTYPE *yylval'] + (['YYLTYPE *yylloc'] if loc else []) if pure else []) + (['unsigned k'] if lparam else [])
    post = byacc.tokcode_table(g.terms) + r'''
#include <string.h>
static int in_tok[4096], in_n, in_p;
static unsigned tv(unsigned p, unsigned j) { return p * 2654435761u + j * 40503u + 12345u; }
int yylex(%s)
{
    if (%s) { printf(" BAD-LEX-PARAM"); }
    if (in_p < in_n) { unsigned p = (unsigned)in_p; %s %s return tokcode[in_tok[in_p++]]; }
    return 0;
}
void yyerror(%sconst char *s) { printf(" E"); }
int main(void)
{
    static char line[65536];
    while (fgets(line, sizeof line, stdin)) {
        char *p = line; int rc;
        in_n = in_p = 0;
        for (;;) {
            char *q; long v = strtol(p, &q, 10);
            if (q == p) break;
            in_tok[in_n++] = (int)v; p = q;
        }
        rc = yyparse(%s);
        printf(" =%%d\n", rc);
        fflush(stdout);
    }
    return 0;
}
''' % (', '.join(pa) or 'void', 'k != 77' if lparam else '0', setv, setl,
       ('YYLTYPE *l, ' if loc else '') + ('unsigned salt, ' if pparam else ''), '4242u' if pparam else '')
    spec = pre + decl + byacc.decls(g) + '%%\n' + body + '%%\n' + post
    p = byacc.yacc(ctx, var, d, spec, opts)
    if p.rc != 0:
        raise Violation('byacc rejects the grammar: ' + p.errs, 'reject')
    exe = byacc.cc(ctx, d, 'y.tab.c', 'p')
    idx = {t: i for i, t in enumerate(g.terms, 1)}
    ws = []
    for w in sim.inputs_for(c, g, 16, 3, depth=8, maxlen=50):
        r = sim.parse_def(lr, R, w)
        if r[0]:
            ws.append(w)
    if not ws:
        raise Discard('no accepted inputs')
    out = byacc.run_lines(ctx, exe, [' '.join(str(idx[t]) for t in w) for w in ws], d)
    nred = 0
    for w, o in zip(ws, out):
        exp = model(g, lr, R, w, P, mids, union, loc, noact, use, pparam)
        if exp is None:
            ctx.label('inputs whose actions look at the location of an empty rule at the start (known finding)')
            continue
        got = o.split()
        ctx.ev(len(exp))
        nred += len(exp)
        if got != exp:
            k = next((j for j in range(min(len(got), len(exp))) if got[j] != exp[j]), min(len(got), len(exp)))
            raise Violation('input %s\nexpected %s\ngot      %s\nfirst difference at %s' % (
                ' '.join(w), ' '.join(exp), o, exp[k] if k < len(exp) else 'end'), 'value')
    for n, v in (('union', union), ('locations', loc), ('pure', pure), ('parse-param', pparam), ('lex-param', lparam),
                 ('mid-rule actions', bool(mids)), ('references below the rule', any(k <= 0 for a in P for k, _ in a.refs))):
        if v:
            ctx.label(n)
    ctx.label(var + ' '.join(x for x in opts if x == '-B'))
    if nred >= 20 and len(g.rules) >= 4:
        ctx.nontrivial(g.key() + body)
        ctx.sample(body[:1500] + '\n' + ' '.join(ws[-1]) + ' -> ' + out[-1])


def model(g, lr, R, w, P, mids, union, loc, noact, use, pparam):
    W = 3 if union else 1
    st, vs, ls = [0], [[0] * W], [[None] * 4]     # nothing is known about the location below the input
    i, n = 0, len(w)
    out = []
    while True:
        q = st[-1]
        if q == lr.final and i >= n:
            return out + ['=0']
        if R.defred[q]:
            a = ('r', R.defred[q])
        else:
            a = R.act[q].get(w[i] if i < n else '$end')
        if a[0] == 's':
            st.append(a[1])
            vs.append([tokval(i, j) for j in range(W)])
            ls.append(tokloc(i))
            i += 1
            continue
        if a[0] == 'a':
            return out + ['=0']
        ri = a[1] - 1
        r = g.rules[ri]
        m = len(r.rhs)
        pl = P[ri]
        val = list(vs[-m]) if m else [0] * W
        if m:
            L = ls[-m][:2] + ls[-1][2:]
        else:
            L = [ls[-1][2], ls[-1][3], ls[-1][2], ls[-1][3]]
        if ri not in noact:
            # position of $0 on the stack
            base = len(vs) - 1 - (mids[r.lhs][1] if r.lhs in mids else m)
            h = ri * 7919 + 17
            if ri in use:
                h = mix(h, val[use[ri] if union else 0])
            for k, x in pl.refs:
                h = mix(h, vs[base + k][x if union else 0])
            for k, f in pl.locs:
                x = L[f] if k == '$' else ls[base + k][f]
                if x is None:
                    return None
                h = mix(h, x & M32)
            if pparam:
                h = mix(h, 4242)
            for x in pl.assign:
                x = x if union else 0
                val[x] = (h + x) & M32
                if not union:
                    break
            if pl.locset is not None:
                L[pl.locset] = h >> 8
            out.append('r%d:%d' % (ri + 1, h))
        if m:
            del st[-m:], vs[-m:], ls[-m:]
        st.append(lr.trans[st[-1]][r.lhs])
        vs.append(val)
        ls.append(L)


# ------------------------------------------------------------------ inherited attributes
def args(c, ctx):
    """nonterminals with inherited attributes: name($a, $b)"""
    g = gen.structured_grammar(c, gen.Names(c, lits=c.bool(), nt='n'), 2, 6) if c.bool(3, 4) else gen.random_grammar(c)
    g = gen.prune_unproductive(g)
    if g is None or not g.terms:
        raise Discard('empty')
    typed = c.bool(2, 3)
    nargs = {a: (c.int(1, 3) if a != g.start and c.bool(2, 3) else 0) for a in g.nts}
    if not any(nargs.values()):
        raise Discard('no arguments')
    atag = {a: [c.draw(3) for _ in range(n)] for a, n in nargs.items()}
    tag = {s: c.draw(3) for s in g.terms + g.nts}
    # argument expressions per occurrence
    E = {}
    rules = []
    nmid = 0
    known = set()            # untyped: byacc knows the arguments of a nonterminal once it has seen some
    for i, r in enumerate(g.rules):
        rhs = []
        known.add(r.lhs)
        for k, s in enumerate(r.rhs):
            n = nargs.get(s, 0)
            if n:
                if k == 0 and (typed or s in known) and nargs.get(r.lhs) == n and (not typed or atag[r.lhs] == atag[s]) and c.bool(3, 4):
                    E[i, k] = None           # default: the arguments of the left-hand side
                else:
                    l = []
                    for j in range(n):
                        x = c.draw(5)
                        if x == 0 or (k == 0 and not nargs.get(r.lhs)):
                            l.append(('c', c.draw(1000), 0))
                        elif x <= 3 and k > 0:
                            l.append(('d', c.int(max(1, k - 2), k), c.pick([0, 0, 0, 3])))
                        elif nargs.get(r.lhs):
                            l.append(('n', c.draw(nargs[r.lhs]), c.pick([0, 0, 5])))
                        else:
                            l.append(('c', c.draw(1000), 0))
                    if k > 0 and c.bool(1, 3):
                        # the values on top of the stack, in order: nothing needs to be pushed
                        lo = max(1, k - n + 1)
                        for j in range(n):
                            if lo + j <= k:
                                l[j] = ('d', lo + j, 0)
                    E[i, k] = l
                    known.add(s)
                    for j in range(n):
                        nmid += 1
                        rhs.append('$$%d' % nmid)
                        rules.append(Rule('$$%d' % nmid, []))
            rhs.append(s)
        rules.append(Rule(r.lhs, rhs))
    gx = Grammar(g.terms, rules, g.start)
    for gg in (g, gx):
        lr = LR(gg, limit=600)
        act = sim.conflict_free_actions(lr)
        if act is None:
            raise Discard('conflicts')
        if gg is g:
            base = lr, act
    lr, act = base
    names = ['a', 'b_2', 'Cc']

    # a structure shows which member is used, a union is what people have
    struct = typed and c.bool(2, 3)
    # white space, line breaks, and text with brackets and commas in strings around the references
    deco = c.bool()

    def blank():
        return c.weighted([(8, ''), (4, ' '), (1, '\n'), (1, ' \t'), (1, '\n\n  ')]) if deco else ''

    def aexpr(i, k, j):
        r = g.rules[i]
        kind, x, add = E[i, k][j]
        if kind == 'c':
            t = str(x)
        elif kind == 'd':
            t = '$%s%d' % ('<%s>' % TAGS[tag[r.rhs[x - 1]]] if typed and c.bool(1, 4) else '', x)
        else:
            t = '$%s%s' % ('<%s>' % TAGS[atag[r.lhs][x]] if typed and c.bool(1, 4) else '', names[x])
        if add:
            t += ' + %d' % add
        if deco and c.bool(1, 4):
            t = c.pick(['(%s)', 'SND("a,b)", %s)', 'SND("\\"),", %s)', "SND(')', %s)", "SND(',', (%s))", "SND('\\'', %s)", '((%s) )',
                        'SND("two\\\nlines)", %s)', 'SND("", %s)', "SND('(', %s)"]) % t
            ctx.label('argument with strings or brackets')
        return blank() + t + blank()

    # a whole union value cannot be assigned from another member, so typed arguments are plain unsigned members
    def text():
        o = []
        for i, r in enumerate(g.rules):
            L = r.lhs
            if nargs[L]:
                if deco:
                    L += '(' + ','.join('%s$%s%s%s%s' % (blank(), blank(), ('<%s%s>%s' % (TAGS[atag[L][j]], '', '') if typed and c.bool() else ''), n, blank())
                                        for j, n in enumerate(names[:nargs[L]])) + ')'
                else:
                    L += '(' + ', '.join('$' + n for n in names[:nargs[L]]) + ')'
            b = []
            for k, s in enumerate(r.rhs):
                if nargs.get(s) and E[i, k] is not None:
                    ps = [aexpr(i, k, j) for j in range(nargs[s])]
                    b.append('%s(%s)' % (s, c.pick([', ', ',']).join(ps)))
                else:
                    b.append(s)
            rd = ['unsigned h = %uu;' % (i * 7919 + 17)]
            for k in range(1, len(r.rhs) + 1):
                rd.append('h = MX(h, $%d);' % k)
            for j, n in enumerate(names[:nargs[r.lhs]]):
                # the arguments lie just below the right-hand side: $0 is the last of them
                k = j - nargs[r.lhs] + 1
                if c.bool(1, 3):
                    rd.append('h = MX(h, $%s%d);' % ('<%s>' % TAGS[atag[r.lhs][j]] if typed else '', k))
                    ctx.label('argument by position')
                else:
                    rd.append('h = MX(h, $%s);' % n)
            rd.append('$$ = h; TR(%d, h);' % (i + 1))
            o.append('%s: %s\n  %s\n  ;' % (L, ' '.join(b), '{ %s }' % ' '.join(rd) if i not in noact else ''))
        return '\n'.join(o) + '\n'
    # a rule without an action passes on the value of $1, whatever arguments the others have
    # (except that of $1 itself when they are written out: known finding)
    noact = {i for i, r in enumerate(g.rules) if r.rhs and not E.get((i, 0)) and (not typed or tag[r.lhs] == tag[r.rhs[0]]) and c.bool(1, 5)}
    body = text()
    pre = '%{\n#include <stdio.h>\n#include <stdlib.h>\n#define MX(h, x) ((((h) * 31u)) ^ ((x) + 0x9e3779b9u + ((h) >> 5)))\n'
    decl = ''
    if typed:
        if struct:
            pre += '#define YYSTYPE struct val\nstruct val { unsigned m0, m1, m2; };\n'
            ctx.label('inherited attributes, values with several members')
        else:
            decl = '%union { unsigned m0, m1, m2; }\n'
        for s in g.terms:
            decl += '%%type <%s> %s\n' % (TAGS[tag[s]], s) if byacc.is_lit(s) else '%%token <%s> %s\n' % (TAGS[tag[s]], s)
        for s in g.nts:
            decl += '%%type <%s> %s%s\n' % (TAGS[tag[s]], s, '(' + ', '.join('<%s>' % TAGS[t] for t in atag[s]) + ')' if nargs[s] else '')
    else:
        pre += '#define YYSTYPE unsigned\n'
    pre += '#define SND(a, b) ((void)(a), (b))\nint yylex(void);\nvoid yyerror(const char *);\nstatic void TR(int n, unsigned h) { printf(" r%d:%u", n, h); }\n%}\n'
    post = byacc.tokcode_table(g.terms) + r'''
static int in_tok[4096], in_n, in_p;
static unsigned tv(unsigned p, unsigned j) { return p * 2654435761u + j * 40503u + 12345u; }
int yylex(void)
{
    if (in_p < in_n) { unsigned p = (unsigned)in_p, v = tv(p, 0); int t = in_tok[in_p++]; (void)t; %s return tokcode[t]; }
    return 0;
}
void yyerror(const char *s) { printf(" E"); }
int main(void)
{
    static char line[65536];
    while (fgets(line, sizeof line, stdin)) {
        char *p = line; int rc;
        in_n = in_p = 0;
        for (;;) {
            char *q; long v = strtol(p, &q, 10);
            if (q == p) break;
            in_tok[in_n++] = (int)v; p = q;
        }
        rc = yyparse();
        printf(" =%%d\n", rc);
        fflush(stdout);
    }
    return 0;
}
''' % ('yylval.m0 = 7; yylval.m1 = 8; yylval.m2 = 9; switch (t) { %s }' % ' '.join(
        'case %d: yylval.%s = v; break;' % (j, TAGS[tag[t]]) for j, t in enumerate(g.terms, 1)) if struct else
        'yylval%s = v;' % ('.m0' if typed else ''))
    opts = ['-B'] if c.bool(1, 4) else []
    d = ctx.dir()
    p = byacc.yacc(ctx, 'btyacc', d, pre + decl + byacc.decls(g) + '%%\n' + body + '%%\n' + post, opts)
    if p.rc != 0:
        raise Violation('byacc rejects the grammar: ' + p.errs, 'reject')
    if 'conflict' in p.errs:
        raise Discard('conflicts')
    exe = byacc.cc(ctx, d, 'y.tab.c', 'p')
    idx = {t: i for i, t in enumerate(g.terms, 1)}
    ws = [w for w in sim.inputs_for(c, g, 14, 0, depth=8, maxlen=50) if sim.parse(lr, act, w)[0]]
    if not ws:
        raise Discard('no inputs')
    out = byacc.run_lines(ctx, exe, [' '.join(str(idx[t]) for t in w) for w in ws], d)
    n = 0
    for w, o in zip(ws, out):
        exp = tree_model(g, lr, act, w, E, nargs, noact)
        n += len(exp)
        ctx.ev(len(exp))
        if o.split() != exp:
            raise Violation('input %s\nexpected %s\ngot      %s' % (' '.join(w), ' '.join(exp), o), 'argument')
    ctx.label('inherited attributes')
    ctx.label('inherited attributes, ' + ('typed' if typed else 'untyped'))
    if n >= 20:
        ctx.nontrivial(g.key() + body)
        ctx.sample(body[:1500] + '\n' + ' '.join(ws[-1]) + ' -> ' + out[-1])


def tree_model(g, lr, act, w, E, nargs, noact):
    """build the parse tree, then evaluate it top down / left to right"""
    acc, red, _ = sim.parse(lr, act, w)
    it = iter(red)
    # rebuild the tree from the right
    pos = [len(w)]
    rr = list(red)

    def build(sym):
        stack = []
        return None
    st, nodes = [0], []
    i = 0
    k = 0
    while True:
        t = w[i] if i < len(w) else '$end'
        a = act[st[-1]].get(t)
        if a[0] == 's':
            st.append(a[1])
            nodes.append(('t', i))
            i += 1
        elif a[0] == 'a':
            break
        else:
            l, rhs = lr.rules[a[1]]
            kids = []
            if rhs:
                kids = nodes[-len(rhs):]
                del nodes[-len(rhs):], st[-len(rhs):]
            nodes.append(('r', a[1] - 1, kids))
            st.append(lr.trans[st[-1]][l])
    out = []

    def ev(nd, inh):
        if nd[0] == 't':
            return tokval(nd[1], 0)
        ri, kids = nd[1], nd[2]
        r = g.rules[ri]
        vals = []
        for k, kd in enumerate(kids):
            s = r.rhs[k]
            a = ()
            if nargs.get(s):
                if E[ri, k] is None:
                    a = inh
                else:
                    a = []
                    for kind, x, add in E[ri, k]:
                        v = x if kind == 'c' else vals[x - 1] if kind == 'd' else inh[x]
                        a.append((v + add) & M32)
            vals.append(ev(kd, a))
        if ri in noact:
            return vals[0]
        h = ri * 7919 + 17
        for v in vals:
            h = mix(h, v)
        for v in inh:
            h = mix(h, v)
        out.append('r%d:%d' % (ri + 1, h))
        return h
    ev(nodes[0], ())
    return out + ['=0']


def probe_uninit(ctx):
    d = ctx.dir()
    spec = '''%pure-parser
%locations
%token A
%{
#include <stdio.h>
int yylex(); void yyerror();
%}
%%
s: e A ;
e: { printf("%x\\n", (unsigned)@$.first_line); } ;
%%
int yylex(YYSTYPE *v, YYLTYPE *l) { return 0; }
void yyerror(YYLTYPE *l, const char *s) {}
int main(void) { return yyparse() == 1 ? 0 : 3; }
'''
    byacc.yacc(ctx, 'btyacc', d, spec)
    exe = byacc.cc(ctx, d, 'y.tab.c', 'p')
    out = [ctx.run([exe], cwd=d, env={'MALLOC_PERTURB_': str(v)}).outs for v in (85, 170)]
    if out[0] != out[1]:
        raise Violation('the location of an empty rule at the start of the input is uninitialised memory', 'uninitialised-location')


def probe_argdefault(ctx):
    d = ctx.dir()
    byacc.yacc(ctx, 'btyacc', d, r"""%{
#include <stdio.h>
#define YYSTYPE int
int yylex(); void yyerror();
%}
%token A
%%
s: t { printf("%d\n", $1); } ;
t: u(5) ;
u($x): A { $$ = 1; } ;
%%
int yylex(void) { static int n; return n++ ? 0 : A; }
void yyerror(const char *s) {}
int main(void) { return yyparse(); }
""")
    exe = byacc.cc(ctx, d, 'y.tab.c', 'p')
    if byacc.run_lines(ctx, exe, [''], d) == ['5']:
        raise Violation('a rule without an action whose first symbol has arguments passes on the first argument instead of the value of $1', 'argument-default')


SPEC = dict(
    probes={'uninitialised-location': probe_uninit, 'argument-default': probe_argdefault},
    tests={
        'values': (values, 1300, 24000),
        'args': (args, 900, 14000),
    },
    setup=lambda tier: (byacc.tool('yacc'), byacc.tool('btyacc')),
    rule='a case is a generated grammar (mid-rule actions, union tags, locations, pure parser, parse/lex parameters, inherited '
         'attributes) whose actions mix the values and locations they name into a checksum; every executed action is compared with a '
         'stack-of-values model (one evaluation each); non-trivial: at least 20 executed actions and 4 rules; distinct by grammar and actions',
    assumptions=['the reference automaton orders the reductions (checked by Y01 and Y03)',
                 '$0 and below are only used where the automaton guarantees such a symbol'],
)
