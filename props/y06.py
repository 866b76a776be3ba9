"""Y06: every semantic value is consumed or destroyed exactly once."""
import importlib
from vlib import byacc, gen
from vlib.engine import Violation, Discard
from vlib.gram import LR, Grammar, Rule, mutate

y05 = importlib.import_module('props.y05')
TAGS = ['ia', 'iab.id', 'iabc']
UNION = '%union { int ia; struct { long pad; int id; } iab; struct { char fill[36]; int v; } q; int iabc; }\n'


class Loop(Exception):
    pass


class Known(Exception):
    pass


class D:
    """declared destructors: number k for each"""

    def __init__(self):
        self.sym, self.tag, self.any, self.none = {}, {}, None, None
        self.types = {}
        self.n = 0

    def of(self, s):
        """the destructor that applies to a symbol"""
        if s in ('$end', 'error', None):
            return None
        if s in self.sym:
            return self.sym[s]
        t = self.types.get(s)
        if t is None:
            return self.none
        if t in self.tag:
            return self.tag[t]
        return self.any


def with_args(c, g, union):
    """some nonterminals get inherited arguments: before each of their occurrences there is a symbol $$a<n>
    for each argument, with an empty rule; equal arguments (text and type) share it.  What is known of them: d.cons"""
    nargs = {a: (c.int(1, 2) if c.bool(1, 2) else 0) for a in g.nts if a != g.start and a[:2] != '$$'}
    if not any(nargs.values()):
        return g, {}, {}
    atag = {a: [c.pick(['ia', 'iabc']) if union else None for _ in range(n)] for a, n in nargs.items()}
    cons, bycode, rules = {}, {}, []
    for r in g.rules:
        rhs = []
        for s in r.rhs:
            for j in range(nargs.get(s, 0)):
                key = (atag[s][j], c.draw(6) if c.bool(1, 3) else 100 + len(cons))
                a = bycode.get(key)
                if a is None:
                    a = bycode[key] = '$$a%d' % (len(cons) + 1)
                    cons[a] = (key[0], 700000 + key[1])
                    rules.append(Rule(a, []))
                rhs.append(a)
            rhs.append(s)
        rules.append(Rule(r.lhs, rhs, r.prec))
    return Grammar(g.terms, rules, g.start, g.prec), cons, {a: atag[a] for a in nargs if nargs[a]}


def plan(c, g, union, cons={}, formals={}):
    d = D()
    d.cons, d.formals = cons, formals
    mids = {}
    for r in g.rules:
        for s in r.rhs:
            if s[:2] == '$$' and s not in cons:
                mids[s] = r.lhs
    nts = [x for x in g.nts if x[:2] != '$$']
    if union:
        for s in list(g.terms) + nts:
            if c.bool(3, 4) or s in formals:
                d.types[s] = c.pick(TAGS)
        for a, (t, _) in cons.items():
            d.types[a] = t
        for m, l in mids.items():
            if l in d.types:
                d.types[m] = d.types[l]      # byacc gives a mid-rule value the type of the left-hand side
        for t in TAGS:
            if c.bool(1, 2):
                d.tag[t] = d.n
                d.n += 1
        if c.bool(2, 3):
            d.any = d.n
            d.n += 1
    if c.bool(2, 3):
        d.none = d.n
        d.n += 1
    for s in list(g.terms) + nts:
        if not byacc.is_lit(s) and c.bool(1, 3):
            d.sym[s] = d.n
            if c.bool(2, 3):
                d.n += 1
    if d.sym and max(d.sym.values()) == d.n:
        d.n += 1
    if not d.n:
        d.none = 0
        d.n = 1
    return d, mids


def dcode(c, k, acc, loc):
    pre = c.pick(['', '', '/* $$ \' " { */ ', 'const char *s = "$$ } \\" \'"; if (s[0] != \'$\' || s[3] != \'}\') puts("BAD"); ',
                  'if (1) { } \n   ', "// it's $$ } \"\n "])
    return '{ %sDE(%d, $$%s%s); }' % (pre, k, acc, ', @$' if loc else '')


def decl_text(c, d, g, union, loc):
    o = []
    if union:
        o.append(UNION)
        for t in TAGS:
            nt = [s for s in g.nts if d.types.get(s) == t and s[:2] != '$$']
            te = [s for s in g.terms if d.types.get(s) == t]
            if nt:
                o.append('%%type <%s> %s\n' % (t, ' '.join(
                    s + ('(%s)' % ', '.join('<%s>' % x for x in d.formals[s]) if s in d.formals else '') for s in nt)))
            if te:
                o.append('%%token <%s> %s\n' % (t, ' '.join(te)))
    ds = []
    for t, k in d.tag.items():
        ds.append((k, '<%s>' % t))
    if d.any is not None:
        ds.append((d.any, '<*>'))
    if d.none is not None:
        ds.append((d.none, '<>'))
    for s, k in d.sym.items():
        ds.append((k, s))
    byk = {}
    for k, x in ds:
        byk.setdefault(k, []).append(x)
    out = []
    for k, xs in byk.items():
        # an untyped value in a union needs a member in the destructor
        groups = {}
        for x in xs:
            acc = ''
            if union and (x == '<>' or (x[0] != '<' and x not in d.types)):
                acc = '.ia'
            groups.setdefault(acc, []).append(x)
        for acc, ys in groups.items():
            out.append('%%destructor %s %s\n' % (dcode(c, k, acc, loc), ' '.join(ys)))
    out = c.shuffle(out)
    return ''.join(o) + ''.join(out)


def access(union, d, s, ref):
    """text of the value id of symbol s under reference ref ('$', '1', ..)"""
    if not union:
        return '$' + ref
    t = d.types.get(s)
    if t is None:
        return '$<ia>' + ref
    return '$' + ref


def model(g, lr, R, w, ctl, B, d, maxdepth, loc, passes, limit=400):
    n = len(w)
    st, vs, ls, sy = [0], [None], [None], [None]
    i = 0
    ch = None
    chv = None
    flag = 0
    out = []
    nact = 0
    idle = 0
    errstart = None
    arrived = False

    def lex():
        nonlocal i, ch, chv
        ch = (w[i] or '?') if i < n else '$end'
        chv = i + 1
        i += 1

    def lloc():
        p = i - 1
        return [p * 8 + 1, p * 8 + 2, p * 8 + 3, p * 8 + 4]

    def destroy(s, v, l):
        if s == '?':
            return
        k = d.of(s)
        if k is not None:
            out.append('D%d:%d' % (k, v) + ('/' + (','.join(map(str, l)) if l else '*') if loc else ''))

    def finish(rc):
        if ch not in (None, '$end'):
            destroy(ch, chv, lloc())
        for s, v, l in zip(sy[1:], vs[1:], ls[1:]):
            destroy(s, v, l)
        out.append('=%d' % rc)
        return out
    while True:
        q = st[-1]
        idle += 1
        if idle > limit:
            raise Loop()
        if q == lr.final:
            if ch is None:
                lex()
            if ch == '$end':
                if not arrived:
                    raise Known()
                return finish(0)
            arrived = False
        err = None
        if R.defred[q]:
            a = ('r', R.defred[q])
        else:
            if ch is None:
                lex()
            a = R.act[q].get(ch, ('e', 0)) if ch not in ('?', 'error') else ('e', 0)
        if a[0] == 's':
            if len(st) >= maxdepth:
                out.append('V@%d' % i)
                return finish(2)
            st.append(a[1])
            vs.append(chv)
            ls.append(lloc())
            sy.append(ch)
            ch = None
            if flag:
                flag -= 1
            idle = 0
            continue
        if a[0] == 'a':
            return finish(0)
        if a[0] == 'r':
            ri = a[1] - 1
            r = g.rules[ri]
            m = len(r.rhs)
            L = None
            if m:
                L = ls[-m][:2] + ls[-1][2:] if ls[-m] and ls[-1] else None
            elif ls[-1]:
                L = [ls[-1][2], ls[-1][3], ls[-1][2], ls[-1][3]]
            cmd = None
            if r.lhs in d.cons:
                nv = d.cons[r.lhs][1]
            elif ri in passes:
                nv = vs[-m]
            else:
                nact += 1
                out.append('r%d:%s' % (ri + 1, ','.join(str(v) for s, v in zip(r.rhs, vs[len(vs) - m:]) if s != 'error' and s not in d.cons)))
                nv = 10000 + nact
                if ri in ctl:
                    c_, per, ph = ctl[ri]
                    if nact % per == ph:
                        cmd = c_
            if cmd == 'YYABORT':
                return finish(1)
            if cmd == 'YYACCEPT':
                return finish(0)
            if cmd and 'yyerrok' in cmd:
                flag = 0
            if cmd and 'yyclearin' in cmd:
                ch = None
            if cmd == 'YYERROR':
                err = 'user'
                errstart = None
            else:
                if m:
                    del st[-m:], ls[-m:], vs[-m:], sy[-m:]
                elif len(st) >= maxdepth:
                    if d.of(r.lhs) is not None:
                        raise Known()        # the value just made is lost: known finding
                    out.append('V@%d' % i)
                    return finish(2)
                st.append(lr.trans[st[-1]][r.lhs])
                ls.append(L)
                vs.append(nv)
                sy.append(r.lhs)
                arrived = True
                continue
        if err is None:
            if flag == 0:
                out.append('E@%d' % i)
                errstart = lloc()
            else:
                errstart = None
        if flag < 3:
            flag = 3
            while True:
                x = R.act[st[-1]].get('error')
                if x and x[0] == 's':
                    if len(st) >= maxdepth:
                        out.append('V@%d' % i)
                        return finish(2)
                    st.append(x[1])
                    ls.append(errstart[:2] + lloc()[2:] if errstart and i > 0 else None)
                    vs.append(0)
                    sy.append('error')
                    break
                if len(st) == 1:
                    return finish(1)
                errstart = ls[-1]
                destroy(sy[-1], vs[-1], ls[-1])
                for l in (st, ls, vs, sy):
                    l.pop()
        else:
            if ch == '$end':
                return finish(1)
            if ch is not None:
                idle = 0
                destroy(ch, chv, lloc())
            ch = None


def norm(evs):
    """destructor calls between two other events in sorted order"""
    out, run = [], []
    for e in evs:
        if e[0] == 'D':
            run.append(e)
        else:
            out += sorted(run) + [e]
            run = []
    return out + sorted(run)


def same(a, b):
    """a: got, b: expected, where a location may be unknown"""
    if len(a) != len(b):
        return False
    x = norm([e.split('/')[0] for e in a])
    y = norm([e.split('/')[0] for e in b])
    if x != y:
        return False
    la = [e for e in a if '/' in e]
    for e in b:
        if '/' in e and '*' not in e:
            if e not in la:
                return False
            la.remove(e)
    return True


PRE = r'''%%{
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int yylex();
void yyerror();
static int nact;
%s
#define SETID(x) ((x) = 10000 + nact)
%s
%%}
'''
POST = r'''
static int in_tok[4096], in_n, in_p;
static const int memb[] = { 0, %(memb)s, 0, 0, 0 };
int yylex(void)
{
    int p = in_p, t;
    %(setl)s
    in_p++;
    t = p < in_n ? in_tok[p] : 0;
    memset(&yylval, 0x55, sizeof yylval);
    %(setv)s
    if (p < in_n) return tokcode[t];
    if (p > in_n + 2000) { printf(" LEX-PAST-END\n"); exit(9); }
    return 0;
}
void yyerror(%(loc)s const char *s) { printf(" %%c@%%d", strstr(s, "overflow") ? 'V' : 'E', in_p); }
int main(void)
{
    static char line[65536];
    while (fgets(line, sizeof line, stdin)) {
        char *p = line; int rc;
        in_n = in_p = 0;
        nact = 0;
        for (;;) {
            char *q; long v = strtol(p, &q, 10);
            if (q == p) break;
            in_tok[in_n++] = (int)v; p = q;
        }
        rc = yyparse();
        printf(" =%%d\n", rc);
        fflush(stdout);
    }
    return 0;
}
'''


def rules_text(c, d, g, union, action):
    if not d.cons:
        return byacc.rules_text(g, action)
    o = []
    num = {r.lhs: i for i, r in enumerate(g.rules, 1) if r.lhs.startswith('$$')}
    for i, r in enumerate(g.rules, 1):
        if r.lhs in num:
            continue
        b, pend = [], []
        for s in r.rhs:
            if s in d.cons:
                pend.append(str(d.cons[s][1]))
            elif s in num:
                b.append(action(num[s], g.rules[num[s] - 1]))
            else:
                b.append(s + ('(%s)' % ','.join(pend) if pend else ''))
                pend = []
        if r.prec:
            b.append('%prec ' + r.prec)
        L = r.lhs
        if L in d.formals:
            L += '(%s)' % ', '.join('$' + ('<%s>' % t if union else '') + 'arg%d' % j for j, t in enumerate(d.formals[L]))
        o.append('%s\n  : %s %s\n;' % (L, ' '.join(b), action(i, r)))
    return '\n'.join(o) + '\n'


def spec(c, g, d, mids, union, loc, ctl, passes, depth, extra=''):
    nts = {s for r in g.rules for s in (r.lhs,)}

    def action(i, r):
        if i - 1 in passes:
            return ''
        ids = []
        if r.lhs in mids:
            o = next(x for x in g.rules if r.lhs in x.rhs)
            rhs = []
        else:
            rhs = [s for s in r.rhs if s not in d.cons]
        for k, s in enumerate(rhs, 1):
            if s != 'error':
                ids.append(access(union, d, s, str(k)))
        a = 'nact++; printf(" r%d:"' % i
        a = 'nact++; printf(" r%d:%s"%s);' % (i, ','.join(['%d'] * len(ids)), ''.join(', ' + x for x in ids))
        if i - 1 in ctl:
            cmd, per, ph = ctl[i - 1]
            a += ' if (nact %% %d == %d) { %s; }' % (per, ph, cmd)
        a += ' SETID(%s);' % access(union, d, r.lhs, '$')
        return '{ %s }' % a
    de = ('#define DE(k, v, l) printf(" D%d:%d/%d,%d,%d,%d", k, v, (l).first_line, (l).first_column, (l).last_line, (l).last_column)'
          if loc else '#define DE(k, v) printf(" D%d:%d", k, v)')
    pre = PRE % (de, depth) + extra
    setl = ''
    if loc:
        setl = ' '.join('yylloc.%s = p * 8 + %d;' % (f, j + 1) for j, f in enumerate(
            ['first_line', 'first_column', 'last_line', 'last_column']))
    if union:
        setv = 'switch (memb[t]) { case 0: yylval.ia = p + 1; break; case 1: yylval.iab.id = p + 1; break; case 2: yylval.iabc = p + 1; break; }'
    else:
        setv = 'yylval = p + 1;'
    memb = ', '.join(str(TAGS.index(d.types[t]) if t in d.types else 0) for t in g.terms)
    post = byacc.tokcode_table(g.terms, ['29999', '257 + 2000']) + POST % dict(
        memb=memb, setl=setl, setv=setv, loc='YYLTYPE *l, ' if loc else '')
    return (pre + ('%locations\n' if loc else '') + byacc.decls(g) + decl_text(c, d, g, union, loc) +
            '%%\n' + rules_text(c, d, g, union, action) + '%%\n' + post)


def controls(c, g, B, kind):
    ctl = {}
    for i, r in enumerate(g.rules):
        if r.lhs[:2] != '$$' and c.bool(1, 4) and kind == 'control':
            per = c.int(1, 4)
            cmd = c.pick(y05.CTL)
            if cmd == 'YYERROR' and B:
                continue
            if cmd in ('YYABORT', 'YYACCEPT'):
                per += 3
            ctl[i] = (cmd, per, c.draw(per))
        elif 'error' in r.rhs and c.bool(1, 3):
            ctl[i] = (c.pick(['yyerrok', 'yyerrok; yyclearin']), 1, 0)
    return ctl


def inputs(c, g, nsent=14, nmut=3):
    gs = Grammar(g.terms, [r for r in g.rules if 'error' not in r.rhs], g.start, g.prec)
    ws = [[]]
    for _ in range(nsent):
        s = gs.sentence(c, depth=c.int(2, 8), maxlen=50) if any(r.lhs == g.start for r in gs.rules) else None
        if s is not None and len(s) <= 300:
            ws.append(list(s))
            for _ in range(nmut):
                w = list(s)
                for _ in range(c.geo(3, 1, 2)):
                    w = mutate(c, w, g.terms)
                if c.bool(1, 6) and w:
                    w[c.draw(len(w))] = None
                ws.append(w[:300])
    for _ in range(12):
        ws.append([c.pick(g.terms) for _ in range(c.geo(12, 4, 5))])
    return ws


def check(c, ctx, kind):
    B = c.bool(1, 3)
    g = gen.any_grammar(c, mid=not B and c.bool(1, 3), unproductive=False)
    if g is None or not g.terms:
        raise Discard('no terminals')
    g = y05.add_errors(c, g)
    cons, formals = {}, {}
    union = c.bool(2, 3)
    if kind == 'args':
        g, cons, formals = with_args(c, g, union)
        if not cons:
            raise Discard('no arguments')
    lr = LR(g, limit=600)
    R = byacc.resolve(lr, g)
    if R.reduce_accept or R.hidden or (B and R.SR + R.RR):
        raise Discard('not usable')
    loc = c.bool(1, 3)
    d, mids = plan(c, g, union, cons, formals)
    ctl = controls(c, g, B, kind)
    passes = set()
    for i, r in enumerate(g.rules):
        if (r.rhs and r.lhs[:2] != '$$' and r.rhs[0] != 'error' and r.rhs[0] not in cons and r.rhs[-1][:2] != '$$' and i not in ctl and
                d.types.get(r.lhs) == d.types.get(r.rhs[0]) and c.bool(1, 3)):
            passes.add(i)
    maxdepth = 10000
    dd = ''
    if c.bool(1, 3):
        maxdepth = c.int(3, 14)
        ini = c.int(2, maxdepth)     # 1 overruns: known finding of Y08
        dd = '#define YYMAXDEPTH %d\n#define YYINITSTACKSIZE %d\n' % (maxdepth, ini)
    d_ = ctx.dir()
    p = byacc.yacc(ctx, 'btyacc', d_, spec(c, g, d, mids, union, loc, ctl, passes, dd), ['-B'] if B else [])
    if p.rc != 0:
        raise Violation('byacc rejects the grammar: ' + p.errs, 'reject')
    exe = byacc.cc(ctx, d_, 'y.tab.c', 'p')
    idx = {t: i for i, t in enumerate(g.terms, 1)}
    lines, exp, keep = [], [], []
    for w in inputs(c, g):
        try:
            e = model(g, lr, R, w, ctl, B, d, maxdepth, loc, passes)
        except Loop:
            ctx.label('inputs on which the protocol itself loops')
            continue
        except Known:
            ctx.label('inputs that meet a known finding')
            continue
        exp.append(e)
        keep.append(w)
        lines.append(' '.join(str(idx[t]) if t else str(len(g.terms) + 1 + len(w) % 2) for t in w))
    out = byacc.run_lines(ctx, exe, lines, d_)
    nd = 0
    ks = set()
    for w, o, e in zip(keep, out, exp):
        ctx.ev()
        n = sum(1 for x in e if x[0] == 'D')
        ks |= {x.split(':')[0] for x in e if x[0] == 'D'}
        nd += n
        if not same(o.split(), e):
            raise Violation('input %s\nexpected %s\ngot      %s' % (' '.join(t or '(undefined token)' for t in w), ' '.join(e), o), 'destroy')
        ctx.label('inputs ending with status ' + e[-1][1:])
    ctx.label('destructor calls', nd)
    for a, b in ((d.sym, 'symbol'), (d.tag, 'tag')):
        if ks & {'D%d' % x for x in a.values()}:
            ctx.label('a destructor by %s ran' % b)
    if 'D%s' % d.any in ks:
        ctx.label('a <*> destructor ran')
    if 'D%s' % d.none in ks:
        ctx.label('a <> destructor ran')
    if cons:
        ctx.label('grammars with inherited arguments')
    if nd >= 8:
        ctx.nontrivial(g.key() + repr(sorted(ctl.items())) + repr(sorted(d.types.items())) + repr((d.sym, d.tag, d.any, d.none)))
        ctx.sample(str(g) + '\n' + repr(ctl) + '\n' + '\n'.join('%s -> %s' % (l, o) for l, o in list(zip(lines, out))[:4]))


def unit_reach(g, a, b):
    """a derives b through unit rules"""
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        if x == b:
            return True
        if x in seen:
            continue
        seen.add(x)
        todo += [r.rhs[0] for r in g.rules if r.lhs == x and len(r.rhs) == 1]
    return False


def backtrack(c, ctx):
    """with conflicts and -B no model is used: the history must account for every value"""
    g = gen.any_grammar(c, unproductive=False)
    if g is None or not g.terms or len(g.terms) > 30:
        raise Discard('no terminals')
    # ambiguity: duplicate part of the grammar
    rules = list(g.rules)
    for _ in range(c.int(1, 3)):
        r = c.pick(rules)
        k = c.draw(4)
        if k == 0 and r.rhs:
            rules.append(Rule(r.lhs, r.rhs + r.rhs[-1:]))
        elif k == 1:
            rules.append(Rule(c.pick(g.nts), r.rhs))
        elif k == 2:
            rules.append(Rule(r.lhs, (r.lhs, r.lhs)))
        else:
            rules.append(Rule(r.lhs, r.rhs[:1]))
    seen, rs = set(), []
    for r in rules:
        if (r.lhs, r.rhs) not in seen and r.rhs != (r.lhs,):
            seen.add((r.lhs, r.rhs))
            rs.append(r)
    g = Grammar(g.terms, rs, g.start, {})
    if c.bool(2, 3):
        g = y05.add_errors(c, g)
    lr = LR(g, limit=300)
    R = byacc.resolve(lr, g, backtrack=True)
    if R.reduce_accept or not R.SR + R.RR:
        raise Discard('no conflict')
    nul = g.nullable()
    for r in g.rules:
        if any(s == r.lhs and all(x in nul for x in r.rhs[:k]) for k, s in enumerate(r.rhs) if k) or (
                len(r.rhs) == 1 and unit_reach(g, r.rhs[0], r.lhs)):
            raise Discard('hidden left recursion: a trial may reduce for ever')
    d, mids = plan(c, g, False)
    d.sym, d.none = {}, 0        # one destructor, for everything
    d_ = ctx.dir()
    loc = c.bool(1, 3)
    p = byacc.yacc(ctx, 'btyacc', d_, spec(c, g, d, mids, False, loc, {}, set(), '#define YYMAXDEPTH 60\n#define YYINITSTACKSIZE 30\n'), ['-B'])
    if p.rc != 0:
        raise Violation('byacc rejects the grammar: ' + p.errs, 'reject')
    exe = byacc.cc(ctx, d_, 'y.tab.c', 'p')
    idx = {t: i for i, t in enumerate(g.terms, 1)}
    for w in inputs(c, g, 8, 2):
        w = [t for t in w if t][:14]
        q = ctx.run([exe], cwd=d_, inp=' '.join(str(idx[t]) for t in w) + '\n', timeout=2)
        if q.timeout:
            ctx.label('parsers whose trials do not end in 2 s')
            break
        o = q.outs
        ctx.ev()
        if q.rc or not o.rstrip().split()[-1].startswith('='):
            raise Violation('input %s: the parser died with status %d\n%s\n%s' % (' '.join(w), q.rc, o, q.errs), 'crash')
        live = set(range(1, len(w) + 1))
        made = 10000
        nd = 0
        rc = None
        bad = None
        for e in o.split():
            if e[0] == 'r':
                for v in filter(None, e.split(':')[1].split(',')):
                    if int(v) not in live:
                        bad = 'value %s reaches an action but is not live' % v
                    live.discard(int(v))
                made += 1
                live.add(made)
            elif e[0] == 'D':
                nd += 1
                v = int(e.split(':')[1].split('/')[0])
                if v not in live:
                    bad = 'value %d is destroyed but is not live' % v
                live.discard(v)
            elif e[0] in 'EV':
                break               # what a failed trial leaves behind: known finding
            elif e[0] == '=':
                rc = int(e[1:])
        if rc == 0 and not bad and live:
            bad = 'never destroyed: %s' % sorted(live)
        if bad:
            raise Violation('input %s: %s\n%s' % (' '.join(w), bad, o), 'account')
        ctx.label('destructor calls under -B with conflicts', nd)
        ctx.label('accepted under -B with conflicts' if rc == 0 else 'errors under -B with conflicts')
    ctx.nontrivial(g.key())


def probe_overflow(ctx):
    """the value of an empty rule whose push overflows the stack"""
    d = ctx.dir()
    byacc.yacc(ctx, 'btyacc', d, r'''%{
#include <stdio.h>
#define YYMAXDEPTH 3
#define YYINITSTACKSIZE 3
int yylex(); void yyerror(const char *s);
%}
%token A
%destructor { printf(" D%d", $$); } A e
%%
s: A A e ;
e: { $$ = 77; printf(" made77"); } ;
%%
static int n;
int yylex(void) { yylval = n; return n++ < 2 ? A : 0; }
void yyerror(const char *s) { printf(" %s", s); }
int main(void) { int r = yyparse(); printf(" =%d\n", r); return 0; }
''')
    exe = byacc.cc(ctx, d, 'y.tab.c', 'p')
    o = byacc.run_lines(ctx, exe, [''], d)
    if 'made77' in o[0] and '=2' in o[0] and 'D77' not in o[0]:
        raise Violation('the value of an empty rule whose push overflows the stack is not destroyed: ' + o[0], 'overflow-leaks-result')


def probe_trial(ctx):
    """an error found in a trial: the values its reductions consumed reach neither action nor destructor"""
    d = ctx.dir()
    byacc.yacc(ctx, 'btyacc', d, r'''%{
#include <stdio.h>
int yylex(); void yyerror(const char *s);
%}
%token A B
%destructor { printf(" D%d", $$); } A B x
%%
s: x x | s x ;
x: A { $$ = 50 + $1; printf(" x%d", $1); } | A B { $$ = 60 + $1; printf(" x%d,%d", $1, $2); } | A B B { $$ = 70; };
'''.replace('%%\ns: x x | s x ;', '%%\ns: x y | x B y | x B B;\ny: A A;') + r'''
%%
static int n;
int yylex(void) { static int t[] = { A, B, A, B, 0 }; yylval = n + 1; return t[n < 4 ? n++ : 4]; }
void yyerror(const char *s) { printf(" E"); }
int main(void) { int r = yyparse(); printf(" =%d\n", r); return 0; }
''', ['-B'])
    exe = byacc.cc(ctx, d, 'y.tab.c', 'p')
    o = byacc.run_lines(ctx, exe, [''], d)
    ids = [x for x in o[0].replace(',', ' ').replace('x', ' ').replace('D', ' ').split() if x.isdigit()]
    if '=1' in o[0] and not {'1', '2', '3', '4'} <= set(ids):
        raise Violation('an error found in a trial loses the values that the trial had reduced: ' + o[0], 'trial-error-values')


SPEC = dict(
    probes={'trial-error-values': probe_trial, 'overflow-leaks-result': probe_overflow},
    tests={
        'plain': (lambda c, x: check(c, x, 'plain'), 1000, 18000),
        'control': (lambda c, x: check(c, x, 'control'), 1000, 18000),
        'args': (lambda c, x: check(c, x, 'args'), 600, 12000),
        'backtrack': (backtrack, 300, 6000),
    },
    setup=lambda tier: (byacc.tool('yacc'), byacc.tool('btyacc')),
    rule='a case is a generated grammar with error productions and a random assignment of %destructor (by symbol, <tag>, <*>, <>) and '
         'types; every value carries an identity, and the trace of actions (with the identities they consume) and of destructor calls '
         '(which one, on which identity, at which location) is compared with a model; non-trivial: at least 8 destructor calls; '
         'distinct by grammar, controls, types and destructors',
    assumptions=['a value is handed over to a completed action when its rule is reduced; under -B a rule left by YYERROR pops its values '
                 'without destructors (as in bison), so YYERROR is only checked without -B',
                 'the order of destructor calls within one recovery or clean-up is not checked',
                 'with conflicts and -B (trials) the history itself is checked: every value consumed or destroyed exactly once'],
)
