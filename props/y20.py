"""Y20: the debugging trace of a parser tells exactly what it does, and changes nothing."""
import importlib, os, re
from vlib import byacc, gen, sim
from vlib.engine import Violation, Discard
from vlib.gram import LR, Grammar, Rule, mutate

y02 = importlib.import_module('props.y02')
y05 = importlib.import_module('props.y05')
y07 = importlib.import_module('props.y07')

ODD = ["'\\n'", "'\\''", "'\"'", "'\\\\'", "'\\001'", "'%'", '"a\\"b"', '"two words"', '"a\\\\b"', '"\\\\"', '"<="', "'\\177'", '"a\'b"', '"\\t"', "'?'", "'\\0'", '"%d%s"', "'\\200'"]


class Loop(Exception):
    pass


class Known(Exception):
    pass


def rename(c, g):
    """some tokens with spellings that need quoting in a C string"""
    if not c.bool(1, 2):
        return g
    pool = c.shuffle([x for x in ODD if x != "'\\0'"])
    m = {t: pool.pop() for t in c.sample(g.terms, c.int(1, 3)) if pool and t not in g.prec and not any(r.prec == t for r in g.rules)}
    f = lambda s: m.get(s, s)
    return Grammar([f(t) for t in g.terms], [Rule(r.lhs, [f(s) for s in r.rhs], r.prec) for r in g.rules], g.start, g.prec)


class Trace:
    """what the driver prints; P: prefix, num: state -> its number in the report, sym: how values are shown or None"""

    def __init__(self, g, lr, R, bt, P, num, show, size, maxdepth):
        self.g, self.lr, self.R, self.bt, self.P, self.num, self.show = g, lr, R, bt, P, num, show
        self.size, self.max = size, maxdepth
        self.grown = [0]
        self.known = set(byacc.spec_terms(g)) | {'$end'} | {t for t in g.terms if t[0] == '"'}      # characters that are not used have no name
        self.out = []

    def start(self):
        if self.bt:
            self.out.append(self.P + 'debug[<# of symbols on state stack>]')

    def say(self, trial, st, text):
        self.out.append(self.P + 'debug' + ('(trial)' if trial else '') + ('[%d]' % (len(st) - 1) if self.bt else '') + ': ' + text)

    def name(self, t):
        return ('$end' if self.bt else 'end-of-file') if t == '$end' else t if t in self.known else 'illegal-symbol'

    def code(self, t, codes):
        return 0 if t == '$end' else codes[t]

    def read(self, trial, st, t, codes, val, final=False):
        x = 'state %d, reading %s%d (%s)' % (self.num[st[-1]], 'token ' if self.bt else '', self.code(t, codes), self.name(t))
        if self.show and not trial and not final:
            x += ' <%s=%d>' % (t if t in self.known else '?', val)
        self.say(trial, st, x)

    def shift(self, trial, st, to):
        self.say(trial, st, 'state %d, shifting to state %d' % (self.num[st[-1]], self.num[to]))

    def push(self, st):
        """the stack is about to grow by one"""
        if len(st) >= self.grown[0]:
            self.grown[0] = min(self.grown[0] * 2, self.max)
            if self.bt:
                self.out.append('%sdebug: stack size increased to %d' % (self.P, self.grown[0]))

    def begin(self):
        self.start()
        if not self.grown[0]:
            self.grown[0] = self.size
            if self.bt:
                self.out.append('%sdebug: stack size increased to %d' % (self.P, self.size))

    def entry(self, q):
        k = self.lr.kernels[q]
        for r, d in k:
            if d:
                return self.lr.rules[r][1][d - 1]
        return '$end'

    def reduce(self, trial, st, vs, ri):
        r = self.g.rules[ri]
        x = 'state %d, reducing by rule %d (%s)' % (self.num[st[-1]], ri + 1, ' '.join([r.lhs, ':'] + list(r.rhs)))
        m = len(r.rhs)
        if self.show and not trial and m:
            x += '<%s>' % ', '.join('%s=%s' % (self.entry(st[k - m]), vs[k - m]) for k in range(m))
        self.say(trial, st, x)

    def goto(self, trial, st, lhs, to, val):
        x = 'after reduction, '
        if self.show and not trial:
            x += 'result is <%s=%s>, ' % (lhs, val)
        if to == self.lr.final and st[-1] == 0 and len(st) == 1:
            x += 'shifting from state 0 to %sstate %d' % ('final ' if self.bt else '', self.num[to])
        else:
            x += 'shifting from state %d to state %d' % (self.num[st[-1]], self.num[to])
        self.say(trial, st, x)


def recovery_model(T, w, ctl, B, codes, limit=400):
    """as the model of Y05, with the messages; values: position of a token, 1000 + number of the action, the first value for rules without action"""
    g, lr, R = T.g, T.lr, T.R
    n = len(w)
    st, vs = [0], [0]
    i, ch, val = 0, None, 0
    flag = nact = idle = 0
    arrived = False

    def lex():
        nonlocal i, ch, val
        ch = (w[i] if w[i] is not None else '?%d' % i) if i < n else '$end'
        i += 1
        val = i
    T.begin()
    while True:
        q = st[-1]
        idle += 1
        if idle > limit:
            raise Loop()
        if q == lr.final:
            if ch is None:
                lex()
                T.read(False, st, ch, codes, val, arrived)
            if ch == '$end':
                if not arrived:
                    raise Known('tail')
                return 0
            arrived = False
        err = None
        if R.defred[q]:
            a = ('r', R.defred[q])
        else:
            if ch is None:
                lex()
                T.read(False, st, ch, codes, val)
            a = R.act[q].get(ch, ('e', 0)) if ch[0] != '?' and ch != 'error' else ('e', 0)
        if a[0] == 's':
            T.shift(False, st, a[1])
            T.push(st)
            st.append(a[1])
            vs.append(val)
            ch = None
            if flag:
                flag -= 1
            idle = 0
            continue
        if a[0] == 'a':
            return 0
        if a[0] == 'r':
            ri = a[1] - 1
            r = g.rules[ri]
            m = len(r.rhs)
            T.reduce(False, st, vs, ri)
            v = vs[-m] if m else 0
            nact += 1
            if not T.silent(ri):
                v = 1000 + nact
                T.out.append('r%d' % (ri + 1))
            cmd = None
            if ri in ctl:
                c_, per, ph = ctl[ri]
                if nact % per == ph:
                    cmd = c_
            if cmd == 'YYABORT':
                return 1
            if cmd == 'YYACCEPT':
                return 0
            if cmd and 'yyerrok' in cmd:
                flag = 0
            if cmd and 'yyclearin' in cmd:
                ch = None
            if cmd == 'YYERROR':
                if B and m:
                    del st[-m:], vs[-m:]
                err = 'user'
            else:
                if m:
                    del st[-m:], vs[-m:]
                to = lr.trans[st[-1]][r.lhs]
                T.goto(False, st, r.lhs, to, v)
                if to != lr.final or len(st) != 1:
                    T.push(st)
                st.append(to)
                vs.append(v)
                arrived = True
                continue
        if err is None and flag == 0:
            T.out.append('E')
        if flag < 3:
            flag = 3
            while True:
                x = R.act[st[-1]].get('error')
                if x and x[0] == 's':
                    T.say(False, st, 'state %d, error recovery shifting to state %d' % (T.num[st[-1]], T.num[x[1]]))
                    T.push(st)
                    st.append(x[1])
                    vs.append(val)
                    break
                T.say(False, st, 'error recovery discarding state %d' % T.num[st[-1]])
                if len(st) == 1:
                    return 1
                st.pop()
                vs.pop()
        else:
            if ch == '$end':
                return 1
            if ch is None:
                raise Known('empty')        # known finding: the name of no token is looked up
            idle = 0
            T.say(False, st, 'state %d, error recovery discard%s token %d (%s)' % (T.num[st[-1]], 'ing' if T.bt else 's', T.code(ch, codes), T.name(ch)))
            ch = None


def trial_model(T, w, preds, codes, limit=4000):
    """as the model of Y07, with the messages"""
    g, lr, R = T.g, T.lr, T.R
    n = len(w)
    st, vs = [0], [0]
    pos = read = 0
    ch = None
    saves, path = [], []
    far = None
    nact = steps = 0
    T.begin()

    def lex(final=False):
        nonlocal pos, read, ch
        ch = w[pos] if pos < n else '$end'
        pos += 1
        read = max(read, pos)
        T.read(bool(saves), st, ch, codes, pos, final)

    def fail():
        for k in range(len(st), 0, -1):
            T.say(False, st[:k], 'error recovery discarding state %d' % T.num[st[k - 1]])
        return 1, pos < read

    def backtrack(reported):
        nonlocal st, vs, pos, ch, far
        while saves:
            s = saves[-1]
            T.say(True, st, 'ERROR in state %d, CONFLICT BACKTRACKING to state %d, %d tokens' % (T.num[st[-1]], T.num[s[0]], pos - s[3]))
            if far is None or far[0] < pos:
                far = (pos, list(st), list(vs))
            st, vs, pos = list(s[1]), list(s[2]), s[3]
            ch = None
            s[5] += 1
            if s[5] < len(s[4]):
                return s[4][s[5]]
            saves.pop()
            if not saves:
                T.out.append('%sdebug[%d,trial]: trial parse FAILED, entering ERROR mode' % (T.P, len(st) - 1))
                pos, st, vs = far[0], far[1], far[2]
                far = None
                ch = 'la'
            reported = True
        if reported:
            T.out.append('E')
        return None

    def commit():
        nonlocal st, vs, pos, ch, far, saves, path
        path = saves
        saves = []
        s = path[0]
        T.say(False, st, 'state %d, CONFLICT trial successful, backtracking to state %d, %d tokens' % (T.num[st[-1]], T.num[s[0]], pos - s[3]))
        far = None
        st, vs, pos = list(s[1]), list(s[2]), s[3]
        ch = None
    while True:
        steps += 1
        if steps > limit or len(st) > 150:
            raise y07.Limit()
        q = st[-1]
        if R.defred[q]:
            a = ('r', R.defred[q])
        else:
            if ch is None:
                lex()
            if ch in R.multi[q]:
                alts = R.multi[q][ch]
                if path:
                    T.say(bool(saves), st, 'CONFLICT in state %d: following successful trial parse' % T.num[q])
                    s = path.pop(0)
                    if s[0] != q:
                        raise AssertionError('path')
                    a = s[4][s[5]]
                else:
                    T.say(bool(saves), st, 'CONFLICT in state %d. ' % T.num[q] + ('ALREADY in conflict, continuing trial parse.' if saves else 'Starting trial parse.'))
                    if alts[0][0] != 's':
                        T.say(bool(saves), st, 'backtracking 1 token')
                    pos -= 1
                    ch = None
                    saves.append([q, list(st), list(vs), pos, alts, 0])
                    a = alts[0]
                if a[0] == 's':
                    T.shift(bool(saves), st, a[1])
                    if ch is None:
                        pos += 1
                    ch = None
                    st.append(a[1])
                    vs.append(pos)
                    continue
            else:
                a = R.act[q].get(ch, ('e', 0))
        while True:
            if a[0] == 's':
                T.shift(bool(saves), st, a[1])
                st.append(a[1])
                vs.append(pos)
                ch = None
                break
            if a[0] in 'ea':
                if a[0] == 'a':
                    raise AssertionError('accept')
                a = backtrack(True)
                if a is None:
                    return fail()
                continue
            ri = a[1] - 1
            r = g.rules[ri]
            m = len(r.rhs)
            rv = vs[len(vs) - m:] if m else []
            T.reduce(bool(saves), st, vs, ri)
            jump = None
            for kind, k, mod, j in preds.get(ri, ()):
                if rv[k - 1] % mod == j:
                    if kind == 'YYERROR':
                        jump = 'err'
                        break
                    if saves:
                        jump = 'valid'
                        break
            if jump == 'valid':
                if path:
                    raise AssertionError('valid while following')
                commit()
                break
            if jump == 'err':
                if m:
                    del st[-m:], vs[-m:]
                a = backtrack(False)
                if a is None:
                    return fail()
                continue
            nv = rv[0] if m else 0
            if not saves:
                nact += 1
                T.out.append('r%d' % (ri + 1))
                nv = 100000 + nact
            if m:
                del st[-m:], vs[-m:]
            if len(st) == 1 and r.lhs == g.start:
                T.goto(bool(saves), st, r.lhs, lr.final, nv)
                st.append(lr.final)
                vs.append(nv)
                if ch is None:
                    lex(True)
                if ch == '$end':
                    if saves:
                        commit()
                        break
                    return 0, pos < read
                break
            to = lr.trans[st[-1]][r.lhs]
            T.goto(bool(saves), st, r.lhs, to, nv)
            st.append(to)
            vs.append(nv)
            break


PRE = r'''%%{
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static int yylex(void);
static void yyerror(const char *s);
static int nact;
static const char *show(int sym, int v);
%s
#define SETV(x) ((x) = %d + nact)
%%}
'''
POST = r'''
static int in_tok[4096], in_n, in_p;
static const char *show(int sym, int v)
{
    static char buf[16][400];
    static int k;
    k = (k + 1) %% 16;
    sprintf(buf[k], "%%s=%%d", sym >= 0 && sym <= LASTNAME && %(p)sname[sym] ? %(p)sname[sym] : "?", v);
    return buf[k];
}
static int yylex(void)
{
    yylval = in_p + 1;
    if (in_p++ < in_n) return tokcode[in_tok[in_p - 1]];
    if (in_p > in_n + 2000) { printf("LEX-PAST-END\n"); exit(9); }
    return 0;
}
static void yyerror(const char *s) { printf("E\n"); }
int main(void)
{
    static char line[65536];
    setvbuf(stdout, NULL, _IONBF, 0);
    dup2(1, 2);
    %(on)s
    while (fgets(line, sizeof line, stdin)) {
        char *p = line; int rc;
        in_n = in_p = 0;
        nact = 0;
        for (;;) {
            char *q; long v = strtol(p, &q, 10);
            if (q == p) break;
            in_tok[in_n++] = (int)v; p = q;
        }
        rc = yyparse();
        printf("=%%d\n", rc);
    }
    return 0;
}
'''


def check(c, ctx, kind):
    trial = kind == 'trial'
    if trial:
        var, opts = 'btyacc', ['-B']
        g = rename(c, y07.ambiguous(c))
        if not g.terms:
            raise Discard('no terminals')
    else:
        var, opts = c.pick([('yacc', []), ('btyacc', []), ('btyacc', ['-B'])])
        g = gen.any_grammar(c, mid=not opts and c.bool(1, 3), unproductive=False)
        if g is None or not g.terms:
            raise Discard('no terminals')
        if c.bool(3, 4):
            g = y05.add_errors(c, g)
        g = rename(c, g)
    bt, B = var == 'btyacc', bool(opts)
    lr = LR(g, limit=500)
    R = byacc.resolve(lr, g, backtrack=B)
    if R.reduce_accept or R.hidden or trial and not any(R.multi) or not trial and B and R.SR + R.RR:
        raise Discard('not usable')
    ctl, preds, quiet = {}, {}, set()
    if trial:
        terms = set(g.terms)
        for i, r in enumerate(g.rules):
            ks = [k for k, s in enumerate(r.rhs, 1) if s in terms]
            if ks and r.lhs[:2] != '$$' and c.bool(1, 4):
                m = c.int(2, 5)
                preds[i] = [(c.pick(['YYERROR', 'YYERROR', 'YYVALID']), c.pick(ks), m, c.draw(m))]
    else:
        for i, r in enumerate(g.rules):
            if r.lhs[:2] != '$$' and c.bool(1, 5):
                per = c.int(1, 4)
                cmd = c.pick(y05.CTL)
                if cmd in ('YYABORT', 'YYACCEPT'):
                    per += 3
                ctl[i] = (cmd, per, c.draw(per))
            elif r.lhs[:2] != '$$' and c.bool(1, 6):
                quiet.add(i)

    def action(i, r):
        i -= 1
        if i in quiet:
            return '{ nact++; }'
        a = ''
        for kd, k, m, j in preds.get(i, ()):
            a += '[ if ($%d %% %d == %d) %s; ] ' % (k, m, j, kd)
        a += '{ nact++; printf("r%d\\n"); SETV($$);' % (i + 1)
        if i in ctl:
            cmd, per, ph = ctl[i]
            a += ' if (nact %% %d == %d) { %s; }' % (per, ph, cmd)
        return a + ' }'
    P = 'yy'
    if c.bool(1, 4):
        P = c.pick(['zz', 'my_', 'yy2'])
        opts = opts + ['-p', P]
    how = c.draw(3)         # how the code for the trace gets in
    env, on, fl = {}, '', ['-O0']
    if how == 0:
        opts = opts + ['-t']
    elif how == 1:
        fl.append('-DYYDEBUG=1')
    dbg = c.draw(3)         # and how it is switched on
    if dbg == 0:
        on = 'yydebug = 1;'
    elif dbg == 1:
        env = {'YYDEBUG': c.pick(['1', '2', '9', '1x'])}
    else:
        on, env = 'yydebug = %d;' % c.pick([1, 7]), {'YYDEBUG': c.pick(['', 'yes', '/x', ':'])}
    split = c.bool(1, 6)
    if split:
        opts = opts + ['-r']
    show = bt and c.bool()
    size = c.pick([200, 2, 3, 5, 8]) if bt and not trial else 200
    pre = '#define YYSTYPE_TOSTRING(s, v) show(s, v)\n' if show and not split else ''
    if show and split:          # the tables do not see the prologue
        fl.append('-DYYSTYPE_TOSTRING(s,v)=show(s,v)')
    if size != 200:
        pre += '#define YYINITSTACKSIZE %d\n' % size
    extra = '%debug\n' if how == 2 else ''
    if c.bool(1, 3):
        extra += '%error-verbose\n'
    if c.bool(1, 4):
        extra += '%token-table\n'
    d = ctx.dir()
    named = [t for t in g.terms if not byacc.is_lit(t)]
    strs = [t for t in g.terms if t[0] == '"' and len(eval('b' + t)) > 1]
    tc = []
    alias = ''
    # string literals have no name in C: they are declared behind a number
    codes, num = {}, 400
    for t in g.terms:
        if t[0] == "'" or t[0] == '"' and len(eval('b' + t)) == 1:
            codes[t] = eval('b' + t)[0]
            if t[0] == '"':
                raise Discard('one-character string')
        elif t[0] == '"':
            num += 1
            codes[t] = num
            alias += '%%token %s %d\n' % (t, num)
    if len(set(codes.values())) < len(codes):
        raise Discard('one character twice')
    text = (PRE % (pre, 100000 if trial else 1000) + extra + alias + byacc.decls(g) + '%%\n' + byacc.rules_text(g, action) + '%%\n' +
            'static const int tokcode[] = { 0, %s };\n' % ', '.join([str(codes[t]) if t in codes else t for t in g.terms] + ['29999', '257 + 2000']) +
            '#define LASTNAME (int)(YYUNDFTOKEN - 1)\n' + POST % {'p': P, 'on': on})
    p = byacc.yacc(ctx, var, d, text, opts + ['-v', '-d'])
    if p.rc != 0:
        raise Violation('byacc rejects the grammar: ' + p.errs, 'reject')
    with open(d + '/y.tab.h', encoding='latin-1') as f:
        for m in re.finditer(r'^#define (\w+) (\d+)$', f.read(), re.M):
            if m.group(1) in named:
                codes[m.group(1)] = int(m.group(2))
    V = byacc.parse_output(open(d + '/y.output', encoding='latin-1').read())
    mp = y02.verify_states(V, lr, g, R, B)
    number = {q: a for a, q in mp.items()}
    if len(number) != lr.n:
        raise Discard('states not linked')
    exe = byacc.cc(ctx, d, 'y.code.c' if split else 'y.tab.c', 'p', flags=fl + (['y.tab.c'] if split else []))
    if trial:
        ws = sim.inputs_for(c, g, 8, 3, depth=c.int(3, 6), maxlen=20, exhaustive=0)
    else:
        gs = Grammar(g.terms, [r for r in g.rules if 'error' not in r.rhs], g.start, g.prec)
        ws = [[]]
        for _ in range(8):
            s = gs.sentence(c, depth=c.int(2, 8), maxlen=50) if any(r.lhs == g.start for r in gs.rules) else None
            if s is None or len(s) > 150:
                continue
            ws.append(list(s))
            for _ in range(2):
                w = list(s)
                for _ in range(c.geo(3, 1, 2)):
                    w = mutate(c, w, g.terms)
                if c.bool(1, 6) and w:
                    w[c.draw(len(w))] = None
                ws.append(w[:150])
        for _ in range(4):
            ws.append([c.pick(g.terms) for _ in range(c.geo(12, 4, 5))])
    T = Trace(g, lr, R, bt, P, number, show, size, 10000)
    T.silent = lambda i: i in quiet
    idx = {t: i for i, t in enumerate(g.terms, 1)}
    lines, want, alone = [], [], []
    for w in ws:
        T.out = []
        grown = list(T.grown)
        cw = dict(codes)
        for k, t in enumerate(w):
            if t is None:
                cw['?%d' % k] = 29999 if k % 2 else 2257
        try:
            if trial:
                rc, left = trial_model(T, w, preds, cw)
            else:
                rc, left = recovery_model(T, w, ctl, B, cw), False
        except (Loop, Known, y07.Limit) as e:
            T.grown = grown
            ctx.label('inputs left out: ' + (str(e) or 'too long'))
            continue
        if left:        # known finding of Y07: later calls would start with the tokens left in the queue
            T.grown = grown
            continue
        lines.append(' '.join(str(idx[t]) if t else str(len(g.terms) + (1 if k % 2 else 2)) for k, t in enumerate(w)))
        want.append(T.out + ['=%d' % rc])
    if not lines:
        raise Discard('no inputs')
    inp = '\n'.join(lines) + '\n'
    ctx.files['input'] = inp

    def run(env, what):
        p = ctx.run([exe], cwd=d, inp=inp, timeout=60, env=env)
        if p.rc:
            raise Violation('%s %s%s: the parser dies with status %s: %s' % (var, ' '.join(opts), what, p.rc, (p.outs + p.errs)[-300:]), 'died')
        return p.outs.split('\n')[:-1]
    got = run(dict(env) if env else {'YYDEBUG': 'n'}, ', trace on')
    exp = [l for x in want for l in x]
    if got != exp:
        k = next(i for i in range(max(len(got), len(exp)) + 1) if got[i:i + 1] != exp[i:i + 1])
        at, j = 0, 0
        while j < len(want) - 1 and at + len(want[j]) <= k:
            at += len(want[j])
            j += 1
        raise Violation('%s %s on %s: message %d of the trace is\n  %s\ninstead of\n  %s\nafter\n  %s' % (
            var, ' '.join(opts), lines[j], k - at + 1, got[k] if k < len(got) else 'missing', exp[k] if k < len(exp) else 'nothing', '\n  '.join(exp[max(at, k - 4):k])), 'trace')
    off = run({'YYDEBUG': '0'}, ', trace off')
    exp0 = [l for l in exp if not l.startswith(P + 'debug')]
    if off != exp0:
        raise Violation('%s %s: without the trace the parser does something else: %s instead of %s' % (var, ' '.join(opts), off[:40], exp0[:40]), 'off')
    ctx.ev(len(lines))
    kinds = set()
    for l in exp:
        if l.startswith(P + 'debug'):
            m = re.search(r'reading|error recovery shifting|shifting from|shifting|reducing|discarding state|discard\w* token|CONFLICT BACKTRACKING|following|Starting|ALREADY|FAILED|trial successful|backtracking 1|increased', l)
            kinds.add(m.group(0) if m else 'begin')
    for k in kinds:
        ctx.label('message: ' + k)
    ctx.label(var + (' -B' if B else ''))
    if split:
        ctx.label('-r')
    if show:
        ctx.label('values shown')
    if len(kinds) >= (8 if trial else 5):
        ctx.nontrivial(text)
        ctx.sample(text[-0:0] + '\n'.join(exp[:12]))


def probe_empty(ctx):
    d = ctx.dir()
    byacc.yacc(ctx, 'yacc', d, r'''%{
#include <stdio.h>
#include <unistd.h>
static int yylex(void); static void yyerror(const char *s);
static int n, k;
%}
%token A
%%
s : e A | A ;
e : error { if (++n < 3) YYERROR; } ;
%%
static int yylex(void) { return ++k < 3 ? 'x' : k < 5 ? A : 0; }
static void yyerror(const char *s) { }
int main(void) { setvbuf(stdout, NULL, _IONBF, 0); dup2(1, 2); yydebug = 1; return yyparse(); }
''', ['-t'])
    exe = byacc.cc(ctx, d, 'y.tab.c', 'p', flags=['-O0', '-fsanitize=address,undefined', '-g'])
    p = ctx.run([exe], cwd=d, timeout=60, env={'ASAN_OPTIONS': 'detect_leaks=0'})
    if 'ERROR: AddressSanitizer' in p.outs + p.errs or 'runtime error' in p.outs + p.errs or 'token -2' in p.outs:
        raise Violation('recovery without a look-ahead token looks up the name of token -2', 'discards-no-token')


SPEC = dict(
    probes={'discards-no-token': probe_empty},
    tests={
        'recovery': (lambda c, x: check(c, x, 'recovery'), 1700, 20000),
        'trial': (lambda c, x: check(c, x, 'trial'), 1400, 16000),
    },
    setup=lambda tier: (byacc.tool('yacc'), byacc.tool('btyacc')),
    rule='a case is a generated grammar (error productions and control macros, or conflicts with -B and trial actions; tokens that need quoting; -p; trace compiled in '
         'by -t, %debug or -DYYDEBUG and switched on by yydebug or the environment; YYSTYPE_TOSTRING; small stacks) run on sentences, mutated sentences and random '
         'strings with the trace on and off; every message (depth, state numbers of the report, token numbers and names, rule numbers and texts, values) is compared '
         'with a model of the run, and the run without trace must be the same without the messages. Non-trivial: at least 5 (trial: 8) kinds of messages; distinct by text',
    assumptions=['with -r YYSTYPE_TOSTRING is defined for both files (the table file does not contain the prologue)', 'the reference automaton and resolution model (checked by Y02, Y03 and Y19)', 'inputs on which recovery loops or more than 4000 steps are needed are left out'],
)
