"""Y11: token numbers are consistent, unique and usable by any lexer."""
import os, re
from vlib import byacc, gen, sim, cf
from vlib.gram import Rule, Grammar
from vlib.engine import Violation, Discard

ESC = {7: 'a', 8: 'b', 12: 'f', 10: 'n', 13: 'r', 9: 't', 11: 'v'}


def canonical_char(v):
    if v in (92, 39):
        return "'\\" + chr(v) + "'"
    if 32 <= v < 127:
        return "'" + chr(v) + "'"
    return "'\\" + (ESC[v] if v in ESC else '%03o' % v) + "'"


def spell_char(c, v):
    o = []
    if 32 <= v < 127 and v not in (92, 39):
        o += ["'%s'" % chr(v)] * 3
        if chr(v) != '"':
            o.append('"%s"' % chr(v))
    if v in (92, 39):
        o += ["'\\%s'" % chr(v)]
    if v in ESC:
        o += ["'\\%s'" % ESC[v], '"\\%s"' % ESC[v]]
    o += ["'\\%o'" % v, "'\\%03o'" % v, "'\\x%x'" % v, "'\\x%02X'" % v]
    return c.pick(o)


def spell_str(c, s):
    """a multi-character literal"""
    q = c.pick('"\'')
    o = ''
    for ch in s:
        if ch in '\\"\'' and (ch == q or ch == '\\'):
            o += '\\' + ch
        elif ch == '\n':
            o += '\\n'
        elif c.bool(1, 8):
            o += '\\%03o' % ord(ch)
        else:
            o += ch
    return q + o + q


def canonical_str(s):
    o = ''
    for ch in s:
        v = ord(ch)
        if ch in '\\"':
            o += '\\' + ch
        elif 32 <= v < 127:
            o += ch
        else:
            o += '\\' + (ESC[v] if v in ESC else '%03o' % v)
    return '"' + o + '"'


class Tok:
    """kind: n(ame) c(har) s(tring)"""

    def __init__(self, kind, val):
        self.kind, self.val, self.num = kind, val, None

    def spell(self, c):
        return self.val if self.kind == 'n' else spell_char(c, self.val) if self.kind == 'c' else spell_str(c, self.val)

    @property
    def canon(self):
        return self.val if self.kind == 'n' else canonical_char(self.val) if self.kind == 'c' else canonical_str(self.val)

    def ident(self, sflag):
        if self.kind == 'n':
            return self.val if re.match(r'[A-Za-z_]\w*$', self.val) else None
        if self.kind == 's' and not sflag:
            return self.val if re.match(r'[A-Za-z_]\w*$', self.val) else None
        return None


def make_tokens(c, n):
    out, used = [], set()
    names = ['TOK', 'Id', 'x_Y', '_u', 'A.b', '.d', 'NUM', 'KW_IF', 'lower', 'Z9', 'Q.', 'VERY_LONG_TOKEN_NAME_' + 'x' * c.draw(60), 'END', 'S1', 'EOL']
    strs = ['ifx', 'ab', '==', '<=', 'a b', 'x"y', "it's", 'a\\b', '%d', 'two\nlines', 'whilst', '_w', '9x', '/*', '*/', '//', '%%', '\t\t', '\x7fz', 'a;b']
    while len(out) < n:
        k = c.weighted([(5, 'n'), (4, 'c'), (2, 's')])
        if k == 'n':
            v = c.pick(names) if c.bool(1, 2) else 'T%d' % (len(out) + 1)
        elif k == 'c':
            v = c.pick([43, 45, 42, 40, 41, 59, 92, 39, 34, 10, 9, 7, 8, 11, 12, 13, 1, 27, 127, 128, 200, 255, 65, 97, 48, 32, 37, 123, 125, 124, 58])
        else:
            v = c.pick(strs)
        if (k, v) in used or (k == 's' and ('n', v) in used) or (k == 'n' and ('s', v) in used):
            continue
        used.add((k, v))
        out.append(Tok(k, v))
    return out


def number_tokens(c, toks):
    """explicit numbers, distinct from every other number in use"""
    used = {t.val for t in toks if t.kind == 'c'} | {256, 0}
    base = c.pick([257, 257, 258, 260, 300, 1000, 4000, 32000])
    for t in toks:
        if c.bool(1, 3):
            for _ in range(4):
                v = c.pick([base + c.draw(len(toks) + 2), 257 + c.draw(2 * len(toks)), 1 + c.draw(255), base])
                if v not in used:
                    used.add(v)
                    t.num = v
                    break
    err = None
    if c.bool(1, 6):
        v = c.pick([257, 258, 300, 999, 255, 3])
        if v not in used:
            err = v
    return err


def emit(c, toks, err, g, prec=True):
    """declarations"""
    o = []
    pend = list(toks)
    if c.bool():
        pend = c.shuffle(pend)
    if err is not None:
        o.append('%%token error %d' % err)
    i = 0
    while i < len(pend):
        k = c.int(1, 4)
        grp = pend[i:i + k]
        i += k
        must = [t for t in grp if t.num is not None or t.kind == 'n']
        opt = [t for t in grp if t not in must and c.bool(2, 3)]
        grp = [t for t in grp if t in must or t in opt]
        if not grp:
            continue
        kw = c.pick(['%token', '%token', '%token', '%term', '%token <i>', '%left', '%right', '%nonassoc'] if prec else ['%token'])
        for again in range(2 if c.bool(1, 8) else 1):
            s = kw if not again or kw == '%token <i>' else '%token'
            for t in grp:
                s += c.pick([' ', ' ', '\n\t', ', ']) + t.spell(c) + ((' %d' % t.num) if t.num is not None else '')
            o.append(s)
    return o


def build(c, ctx_small=True):
    g, lr, act = cf.grammar(c, nm=lambda: gen.Names(c, lits=False), mx=5)
    toks = make_tokens(c, len(g.terms) + c.draw(4))
    err = number_tokens(c, toks)
    m = {t: toks[i] for i, t in enumerate(g.terms)}
    lines = emit(c, toks, err, g)
    rules = []
    for r in g.rules:
        rules.append(Rule(r.lhs, [m[s].spell(c) if s in m else s for s in r.rhs], None))
    return g, lr, act, toks, m, err, lines, Grammar([], rules, g.start)


def declared(toks, lines, rules):
    """tokens that the specification mentions; all named ones are declared"""
    return toks


def expected_header(toks, present, num, sflag):
    want = {}
    for t in toks:
        if t.canon in present:
            i = t.ident(sflag)
            if i:
                want[i] = num[t.canon]
    return want


def defines(text):
    out = {}
    for m in re.finditer(r'(?m)^#define ([A-Za-z_]\w*) (-?\d+)$', text):
        out.setdefault(m.group(1), []).append(int(m.group(2)))
    return out


STD = {'YYMAJOR', 'YYMINOR', 'YYBYACC', 'YYPATCH', 'YYBTYACC', 'YYPURE', 'YYTABLESIZE', 'YYFINAL', 'YYDEBUG', 'YYMAXTOKEN', 'YYUNDFTOKEN', 'YYERRCODE',
       'YYEOF', 'YYSTYPE_IS_DECLARED', 'YYLTYPE_IS_DECLARED', 'YYEMPTY', 'YYENOMEM', 'YYINITSTACKSIZE', 'YYSTACKSIZE', 'YYMAXDEPTH', 'YYSTACKGROWTH',
       'YYLVQUEUEGROWTH', 'YYERROR_DETAILED', 'YYSTYPE_IS_TRIVIAL'}


def spec_of(c, lines, g2, pre='', post='', action=None, tail=''):
    return pre + '\n'.join(lines) + '\n%start ' + g2.start + '\n%%\n' + byacc.rules_text(g2, action) + '%%\n' + post


def check_numbers(toks, err, syms, what, used_names):
    """syms: {canonical name: number} from the symbol table of y.output"""
    if syms.get('$end') != 0:
        raise Violation('%s: $end has number %s' % (what, syms.get('$end')), 'end')
    if syms.get('error') != (256 if err is None else err):
        raise Violation('%s: error has number %s, expected %s' % (what, syms.get('error'), 256 if err is None else err), 'error')
    seen = {}
    for t in toks:
        n = syms.get(t.canon)
        if n is None:
            if t.canon in used_names:
                raise Violation('%s: token %s is missing from the symbol table' % (what, t.canon), 'missing')
            continue
        if t.num is not None:
            if n != t.num:
                raise Violation('%s: token %s has number %d, declared %d' % (what, t.canon, n, t.num), 'number')
        elif t.kind == 'c':
            if n != t.val:
                raise Violation('%s: token %s has number %d, its character is %d' % (what, t.canon, n, t.val), 'number')
        elif n <= 256:
            raise Violation('%s: token %s has number %d' % (what, t.canon, n), 'number')
        if n in seen:
            raise Violation('%s: tokens %s and %s both have number %d' % (what, seen[n], t.canon, n), 'duplicate')
        seen[n] = t.canon
        if n == syms['error']:
            raise Violation('%s: token %s has the number of error' % (what, t.canon), 'duplicate')


def symtab(text):
    r = byacc.parse_output(text)
    # (symbol#, value#, name); terminals come before $accept
    out = {}
    for a, b, n in r['syms']:
        if n == '$accept':
            break
        out[n] = b
    return out


def table_of(ctx, var, d, spec):
    """the symbol table; plain yacc does not report it, so it has to agree with btyacc's"""
    if var != 'btyacc':
        d = ctx.dir()
        p = byacc.yacc(ctx, 'btyacc', d, spec, ['-v'])
        if p.rc:
            raise Violation('btyacc rejected a valid grammar: %s' % p.errs[:600], 'rejected')
    with open(os.path.join(d, 'y.output'), encoding='latin-1') as f:
        return symtab(f.read())


def numbers(c, ctx):
    g, lr, act, toks, m, err, lines, g2 = build(c)
    var = 'btyacc' if c.bool(3, 4) else 'yacc'
    union = '%union { int i; }\n' if any('<i>' in l for l in lines) else ''
    spec = spec_of(c, lines, g2, union)
    sflag = c.bool(1, 3)
    iflag = c.bool(1, 4)
    rflag = c.bool(1, 4)
    opts = ['-v', '-d'] + (['-s'] if sflag else []) + (['-i'] if iflag else []) + (['-r'] if rflag else []) + (['-B'] if var == 'btyacc' and c.bool(1, 5) else [])
    opts = c.shuffle(opts)
    ctx.files['options'] = ' '.join(opts)
    d = ctx.dir()
    p = byacc.yacc(ctx, var, d, spec, opts)
    if p.rc:
        raise Violation('%s %s rejected a valid grammar: %s' % (var, opts, p.errs[:600]), 'rejected')
    rd = lambda n: open(os.path.join(d, n), encoding='latin-1').read()
    used = {m[t].canon for t in g.terms} | {t.canon for t in toks if t.kind == 'n'} | {t.canon for t in toks if t.num is not None}
    syms = table_of(ctx, var, d, spec)
    check_numbers(toks, err, syms, var, used)
    H = defines(rd('y.tab.h'))
    want = expected_header(toks, syms, syms, sflag)
    got = {k: v for k, v in H.items() if k not in STD}
    ctx.ev()
    if {k: [v] for k, v in want.items()} != got:
        diff = {k: (want.get(k), got.get(k)) for k in set(want) | set(got) if [want.get(k)] != got.get(k)}
        raise Violation('%s %s: the header defines other tokens (expected, found): %s' % (var, opts, diff), 'header')
    code = rd('y.tab.c') + (rd('y.code.c') if rflag else '') + (rd('y.tab.i') if iflag else '')
    C = defines(code)
    gotc = {k: v for k, v in C.items() if k not in STD}
    if not iflag and {k: [v] for k, v in want.items()} != gotc:
        diff = {k: (want.get(k), gotc.get(k)) for k in set(want) | set(gotc) if [want.get(k)] != gotc.get(k)}
        raise Violation('%s %s: the code defines other tokens (expected, found): %s' % (var, opts, diff), 'code')
    ec = C.get('YYERRCODE', []) + H.get('YYERRCODE', [])
    if not ec or any(x != syms['error'] for x in ec):
        raise Violation('%s %s: YYERRCODE is %s but error has number %d' % (var, opts, ec, syms['error']), 'error')
    mx = max(v for v in syms.values())
    if C.get('YYMAXTOKEN') != [mx]:
        raise Violation('%s: YYMAXTOKEN is %s, the largest number is %d' % (var, C.get('YYMAXTOKEN'), mx), 'max')
    for t in toks:
        if t.canon in syms:
            ctx.label('%s%s' % ({'n': 'name', 'c': 'char', 's': 'string'}[t.kind], ' numbered' if t.num is not None else ''))
    if err is not None:
        ctx.label('error renumbered')
    if any(t.num is not None for t in toks) or any(t.kind == 's' for t in toks):
        ctx.nontrivial(spec)
    ctx.sample('\n'.join(lines[:6]))


LEX_PRE = r'''%{
#include <stdio.h>
#include <stdlib.h>
int yylex(void);
void yyerror(const char *s);
static void TR(int n) { printf(" r%d", n); }
%}
'''
LEX_POST = r'''
#if YYDEBUG
void names(void)
{
    static const int code[] = { %(codes)s -1 };
    int i;
    for (i = 0; code[i] >= 0; i++)
        printf("%%s\n", yyname[YYTRANSLATE(code[i])] ? yyname[YYTRANSLATE(code[i])] : "(none)");
    printf("%%s\n", yyname[YYUNDFTOKEN]);
}
#else
void names(void) { }
#endif
'''
LEX = r'''
#include <stdio.h>
#include <stdlib.h>
%(stype)s
#include "y.tab.h"
int yyparse(void);
void names(void);
static long in_tok[4096]; static int in_n, in_p;
static const int tokcode[] = { 0, %(codes)s 0 };
int yylex(void)
{
    if (in_p < in_n) { long t = in_tok[in_p++]; return t >= 0 && t < 1000 ? tokcode[t] : (int)(t < 0 ? t : t - 1000); }
    return 0;
}
void yyerror(const char *s) { printf(" E@%%d", in_p); }
int main(void)
{
    static char line[65536];
    printf("%(checks)s\n"%(args)s);
    while (fgets(line, sizeof line, stdin)) {
        char *p = line; int rc;
        in_n = in_p = 0;
        for (;;) {
            char *q; long v = strtol(p, &q, 10);
            if (q == p) break;
            in_tok[in_n++] = v; p = q;
        }
        rc = yyparse();
        printf(" =%%d\n", rc);
        fflush(stdout);
    }
    names();
    return 0;
}
'''


def cstr(s):
    return s


def lexer(c, ctx):
    g, lr, act, toks, m, err, lines, g2 = build(c)
    var = 'btyacc' if c.bool(3, 4) else 'yacc'
    B = ['-B'] if var == 'btyacc' and c.bool(1, 3) else []
    union = '%union { int i; }\n' if any('<i>' in l for l in lines) else ''
    # numbers as the property says; the others (strings that are no identifiers) from the report
    spec0 = spec_of(c, lines, g2, LEX_PRE + union, '', lambda i, r: '{ TR(%d); }' % i)
    d0 = ctx.dir()
    p = byacc.yacc(ctx, var, d0, spec0, ['-v'])
    if p.rc:
        raise Violation('%s rejected a valid grammar: %s' % (var, p.errs[:600]), 'rejected')
    syms = table_of(ctx, var, d0, spec0)
    present = [t for t in toks if t.canon in syms]
    post = LEX_POST % {'codes': ''.join('%d, ' % syms[t.canon] for t in present)}
    spec = spec0 + post
    d = ctx.dir()
    dbg = c.bool(1, 2)
    opts = ['-d'] + (['-t'] if dbg else []) + B
    p = byacc.yacc(ctx, var, d, spec, opts)
    if p.rc:
        raise Violation('%s %s: status %d: %s' % (var, opts, p.rc, p.errs[:600]), 'rejected')
    codes, args, checks, exp = [], [], [], []
    for t in g.terms:
        k = m[t]
        i = k.ident(False)
        if i:
            codes.append(i)
        elif k.kind == 'c' and k.num is None:
            codes.append(str(k.val))
        else:
            codes.append(str(syms[k.canon]))
        args.append(', ' + codes[-1])
        checks.append('%d')
        exp.append(str(k.num if k.num is not None else k.val if k.kind == 'c' else syms[k.canon]))
    lexc = LEX % {'codes': ''.join(x + ', ' for x in codes), 'stype': '', 'checks': ' '.join(checks), 'args': ''.join(args)}
    ctx.write(d, 'lex.c', lexc)
    ctx.files['lex.c'] = lexc
    p = ctx.run(['gcc', '-w', '-O0', '-g0', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', 'y.tab.c', 'lex.c', '-o', 'p'], cwd=d, timeout=240)
    if p.rc != 0:
        if p.timeout or p.rc < 0:
            from vlib.engine import Resource
            raise Resource('gcc')
        raise Violation('the parser and a lexer that includes its header do not compile:\n' + p.errs[:2000], 'compile')
    nums = set(syms.values())
    ix = {t: str(i + 1) for i, t in enumerate(g.terms)}
    undef = [n for n in ([1, 2, 255, 256, 257, 258, 259, 300, 511, 32766, 32767, 32768, 65535, 65536, 1000000, 2147480000] +
                         [n + k for n in nums for k in (-1, 1)]) if n not in nums and n > 0]
    ins = sim.inputs_for(c, g, 6, 6, depth=6, maxlen=30)
    lines_in, want = [], []
    for w in ins:
        for kind in (0, 1, 2):
            if kind == 0:
                w2 = list(w)
                txt = [ix[t] for t in w]
            elif kind == 1:
                i = c.draw(len(w) + 1)
                bad = c.pick(undef)
                w2 = list(w[:i]) + ['(undefined)'] + list(w[i:])
                txt = [ix[t] for t in w[:i]] + [str(bad + 1000)] + [ix[t] for t in w[i:]]
            else:
                if not c.bool(1, 4):
                    continue
                i = c.draw(len(w) + 1)
                w2 = list(w[:i]) + ['$end'] + list(w[i:])
                txt = [ix[t] for t in w[:i]] + [str(c.pick([-1, -2, -256, -32768, -2147480000]))] + [ix[t] for t in w[i:]]
            ok, red, pos = sim.parse(lr, act, w2)
            if ok is None:
                continue
            rl = ''.join(' r%d' % x for x in red)
            lines_in.append(' '.join(txt))
            want.append((ok, red, pos, w2))
    env = {'ASAN_OPTIONS': 'detect_leaks=0', 'YYDEBUG': '1' if dbg and var == 'btyacc' else '0'}
    inp = '\n'.join(lines_in) + '\n'
    ctx.files['input'] = inp
    p = ctx.run([os.path.join(d, 'p')], cwd=d, inp=inp, timeout=120, env=env)
    out = p.outs.split('\n')
    if p.rc != 0:
        raise Violation('%s %s: the parser died with status %s after input %r\n%s' % (
            var, opts, p.rc, lines_in[min(len(out), len(lines_in)) - 1 - 1 if len(out) > 1 else 0], re.sub(r'(?m)^yy.*\n', '', p.errs)[:2000]), 'overrun')
    if out[0].split() != exp:
        raise Violation('%s: the header gives the tokens %s, expected %s' % (var, out[0], ' '.join(exp)), 'header')
    for (ok, red, pos, w2), line, l in zip(want, out[1:], lines_in):
        ctx.ev()
        rs = [int(x) for x in re.findall(r' r(\d+)', line)]
        es = re.findall(r' E@(\d+)', line)
        rc = line.split('=')[-1]
        end = len(w2) if '$end' not in w2 else w2.index('$end') + 1
        e = min(pos + 1, len(w2))
        if ok:
            good = rc == '0' and not es and rs == red
        else:
            # default reductions may come before the error is seen
            good = rc == '1' and len(es) == 1 and int(es[0]) == e and rs[:len(red)] == red
        if not good:
            raise Violation('%s %s: input %s (%s): %s, expected %s' % (var, opts, l, ' '.join(w2), line,
                            'acceptance with %s' % red if ok else 'one error at %d' % e), 'behaviour')
        ctx.label('accepted' if ok else 'undefined token' if '(undefined)' in w2 else 'negative token' if '$end' in w2 else 'rejected')
    if dbg:
        nm = out[1 + len(lines_in):]
        text = '\n'.join(nm)
        wantn = [t.canon for t in present] + ['illegal-symbol']
        if nm[:len(wantn)] != wantn:
            bad = [(a, b) for a, b in zip(wantn, nm) if a != b]
            raise Violation('%s: yyname has other names (expected, found): %s' % (var, bad[:3]), 'yyname')
    ctx.nontrivial(spec)
    ctx.sample('\n'.join(lines[:6]) + '\n' + inp[:200])


SPEC = dict(
    tests={'numbers': (numbers, 2400, 40000), 'lexer': (lexer, 400, 6000)},
    rule='a conflict-free grammar whose tokens are names (plain, dotted, long), character literals in any spelling (escapes, octal, hex, '
         'double quotes) and string literals, a third of them with explicit numbers (character range, from 257 up, large), sometimes a '
         'renumbered error token, declared in any order and keyword. numbers: symbol table of y.output, #defines of header and code '
         '(-s, -i, -r) against the rule of the property. lexer: a separately compiled lexer that uses the header, under '
         'AddressSanitizer and UBSan, fed sentences, mutations, undefined numbers (gaps, above the maximum, huge) and negative numbers; '
         'yyname entries compared. Non-trivial: a token has an explicit number or is a string (numbers), every case (lexer); distinct by text',
    assumptions=['explicit numbers are distinct and not 0', 'a negative token is the end of input'],
)
