"""Y12: spelling and layout of a specification never change the parser."""
import os, re
from vlib import byacc, gen, ctext
from vlib.engine import Violation, Discard
from props.y11 import spell_char

KW = {'token': ['%token', '%term', '%0'], 'left': ['%left', '%<'], 'right': ['%right', '%>'], 'nonassoc': ['%nonassoc', '%binary', '%2'],
      'precedence': ['%precedence'], 'type': ['%type', '%nterm'], 'start': ['%start'], 'pure': ['%pure-parser'], 'locations': ['%locations'],
      'debug': ['%debug'], 'table': ['%token-table'], 'verbose': ['%error-verbose'], 'yacc': ['%yacc'], 'expect': ['%expect'],
      'expect-rr': ['%expect-rr'], 'destructor': ['%destructor'], 'ident': ['%ident']}
COMMENTS = ['', ' x ', '{', '}', '"', "'", '%%', ' %token Q ', '//', ' ; ', '$$ @1', '*', '**', '\\', ' | a : b', '%}', '/ *']


def swapcase(c, s):
    return ''.join(ch.upper() if c.bool(1, 2) else ch for ch in s)


class Plain:
    plain = True

    def sep(self, need=True):
        return ' '

    def line(self):
        return '\n'

    def kw(self, k):
        return KW[k][0]


class Wild:
    """one random spelling"""
    plain = False

    def __init__(self, c, crlf):
        self.c = c
        self.cr = ' ' if crlf else '\r'
        self.rate = c.pick([1, 2, 5])
        self.case = c.bool(1, 2)

    def comment(self):
        c = self.c
        body = c.pick(COMMENTS)
        if c.bool(1, 3):
            return '//' + body + '\n'
        body = body.replace('*/', '* /')
        if c.bool(1, 4):
            body += '\n' + c.pick(COMMENTS) + ' '
        return '/*' + body + '*/'

    def sep(self, need=True):
        c = self.c
        if not c.bool(self.rate, 8):
            return ' ' if need or c.bool() else ''
        n = c.int(1, 3)
        o = ''.join(c.pick([' ', '\t', '\n', '  ', '\f', '\v', self.cr, None, None, ';', ',']) or self.comment() for _ in range(n))
        # a comment alone separates as well
        return o

    def line(self):
        c = self.c
        return c.pick(['\n', '\n', ' ', '\n\n', ';\n', '\t']) if c.bool(1, 2) else self.sep(True) or ' '

    def kw(self, k):
        c = self.c
        s = c.pick(KW[k]) if c.bool(1, 3) else KW[k][0]
        if self.case:
            s = swapcase(c, s)
        if '-' in s and c.bool():
            s = s.replace('-', '_')
        if c.bool(1, 8):
            s = '\\' + s[1:]
        return s


def wordy(a, b):
    """two tokens that would run together"""
    return re.match(r'[\w.$]', b) and re.search(r'[\w.$]$', a)


def join(st, toks, rules=False):
    o = toks[0]
    for a, b in zip(toks, toks[1:]):
        # / must not meet * or / by accident
        need = bool(wordy(a, b))
        o += st.sep(need) + b
    return o


class Spec:
    """decls: list of ('tok', keyword, tag, [(token, number)]) ('type', tag, names) ('flag', k) ('num', k, n) ('start', name) ('raw', text)"""


def build(c):
    g = gen.any_grammar(c, mid=c.bool(1, 3))
    if g is None or not g.terms:
        raise Discard('no grammar')
    s = Spec()
    s.g = g
    d = s.decls = []
    tags = c.bool(1, 3)
    if c.bool():
        d.append(('raw', '%{\nint prologue;\n%}\n'))
    if tags:
        d.append(('raw', '%union { int i; char *s; }\n'))
    named = [t for t in g.terms if not byacc.is_lit(t)]
    num = 400
    toks = c.shuffle(list(g.terms)) if c.bool() else list(g.terms)
    for t in toks:
        n = None
        if c.bool(1, 6):
            num += c.int(1, 30)
            n = num
        if not byacc.is_lit(t) or n or c.bool(1, 3):
            d.append(('tok', 'token', c.pick([None, 'i', 's']) if tags else None, [(t, n)]))
    byl = {}
    for t, (l, a) in g.prec.items():
        byl.setdefault(l, (a, []))[1].append(t)
    for l in sorted(byl):
        a, ts = byl[l]
        d.append(('tok', {'l': 'left', 'r': 'right', 'n': 'nonassoc', 'p': 'precedence'}[a], None, [(t, None) for t in ts]))
    if tags:
        for x in g.nts:
            if x[:2] != '$$' and c.bool(1, 2):
                d.append(('type', c.pick(['i', 's']), [x]))
    for k in ['pure', 'locations', 'debug', 'table', 'verbose', 'yacc']:
        if c.bool(1, 10):
            d.append(('flag', k))
    for k in ['expect', 'expect-rr']:
        if c.bool(1, 10):
            d.append(('num', k, c.draw(4)))
    if c.bool(1, 10):
        d.append(('raw', '%code { int q; }\n'))
    if c.bool(1, 12):
        d.append(('dest', '{ free($$); }', [c.pick([x for x in g.nts if x[:2] != '$$'])]))
    d.append(('start', g.start))
    s.act = [c.pick([None, None, 'A%d();' % i, 'x = "}";', "y = '{';", '/* } */']) for i in range(len(g.rules) + 1)]
    mids = {r.lhs for r in g.rules if r.lhs[:2] == '$$'}
    for i, r in enumerate(g.rules, 1):
        if r.lhs in mids and s.act[i] is None:
            s.act[i] = 'M%d();' % i
    s.epi = c.pick([None, '', 'int main(void) { return 0; }\n', '/* %% */\n'])
    # runs of rules with one left-hand side
    return s


def spell_lit(c, st, t):
    m = re.match(r"'(.)'$", t)
    if st.plain or not m or not c.bool(1, 4):
        return t
    return spell_char(c, ord(m.group(1)))


def emit(c, st, s):
    g = s.g
    o = []
    decls = list(s.decls)
    if not st.plain:
        m = []
        for x in decls:
            if m and x[0] == 'tok' == m[-1][0] and x[1] == 'token' == m[-1][1] and x[2] == m[-1][2] and c.bool():
                m[-1] = ('tok', 'token', x[2], m[-1][3] + x[3])
            elif m and x[0] == 'type' == m[-1][0] and x[1] == m[-1][1] and c.bool():
                m[-1] = ('type', x[1], m[-1][2] + x[2])
            else:
                m.append(x)
        decls = m
    for x in decls:
        if x[0] == 'raw':
            t = x[1]
            if not st.plain and t.startswith('%{') and c.bool(1, 4):
                t = '\\' + t[1:]
            o.append(t)
            continue
        ts = []
        if x[0] == 'tok':
            ts = [st.kw(x[1])]
            tag = x[2]
        elif x[0] == 'type':
            ts = [st.kw('type')]
            tag = x[1]
        else:
            tag = None
        if tag:
            ts += [('<%s>' if st.plain else c.pick(['<%s>', '<%s>', '< %s >', '<\t%s>', '</**/%s\n>'])) % tag]
        if x[0] == 'tok':
            for t, n in x[3]:
                ts.append(spell_lit(c, st, t))
                if n is not None:
                    ts.append(str(n) if st.plain or c.bool(2, 3) else '0' * c.int(1, 3) + str(n))
        elif x[0] == 'type':
            ts += x[2]
        elif x[0] == 'flag':
            ts = [st.kw(x[1])]
        elif x[0] == 'num':
            o.append(st.kw(x[1]) + (' ' if st.plain else c.pick([' ', '\t', '   '])) + str(x[2]) + st.line())
            continue
        elif x[0] == 'start':
            ts = [st.kw('start'), x[1]]
        elif x[0] == 'dest':
            o.append(st.kw('destructor') + ' ' + x[1] + st.sep(False) + x[2][0] + st.line())
            continue
        o.append(join(st, ts) + st.line())
    o.append('%%' if st.plain else c.pick(['%%', '%%', '%%', '\\\\', '%\\', '\\%']))
    o.append('\n' if st.plain else st.sep(False) or '\n')
    prev = None
    mids = {r.lhs: i for i, r in enumerate(g.rules, 1) if r.lhs.startswith('$$')}

    def action(i):
        a = '{ %s }' % s.act[i]
        return a if st.plain or c.bool(3, 4) else '=' + c.pick(['', ' ', '\t', '  ']) + a
    ts = []
    first = True
    for i, r in enumerate(g.rules, 1):
        if r.lhs in mids:
            continue
        if not first and r.lhs == prev and (st.plain or c.bool(2, 3)):
            ts.append('|')
        else:
            if not first and (st.plain or c.bool(1, 2)):
                ts.append(';')
            ts += [r.lhs, ':']
        first = False
        prev = r.lhs
        rhs = []
        for x in r.rhs:
            rhs.append(action(mids[x]) if x in mids else spell_lit(c, st, x))
        if not st.plain:
            if c.bool(1, 2 if not rhs else 12):
                rhs.insert(c.draw(len(rhs) + 1), swapcase(c, '%empty') if c.bool(1, 3) else c.pick(['%empty', '\\empty']))
        if r.prec:
            k = '%prec' if st.plain else c.pick(['%prec', '%prec', '%PREC', '%pReC', '\\prec', '%=', '\\='])
            rhs.append(k + (' ' if st.plain or k[-1] != '=' else st.sep(False)) + spell_lit(c, st, r.prec))
        if s.act[i] is not None:
            rhs.append(action(i))
        ts += rhs
    ts.append(';')
    o.append(join(st, ts))
    if s.epi is not None:
        o.append('\n' if st.plain else st.sep(False) + c.pick(['\n', ' ', '']))
        o.append('%%' if st.plain else c.pick(['%%', '%%', '\\\\', '%\\', '\\%']))
        o.append('\n' + s.epi)
    elif st.plain or c.bool():
        o.append('\n')
    return ''.join(o)


def outputs(ctx, var, text, opts, name='g.y'):
    d = ctx.dir()
    p = byacc.yacc(ctx, var, d, text, opts, name)
    out = {}
    for n in sorted(os.listdir(d)):
        if n != name:
            with open(os.path.join(d, n), 'rb') as f:
                out[n] = f.read().decode('latin-1')
    return p, out


def first_diff(a, b):
    x, y = a.split('\n'), b.split('\n')
    for i in range(max(len(x), len(y))):
        u = x[i] if i < len(x) else '<end>'
        v = y[i] if i < len(y) else '<end>'
        if u != v:
            return 'line %d:\n  %s\n  %s' % (i + 1, u[:200], v[:200])
    return 'equal'


def msgs(p):
    return re.sub(r'\bline \d+ of', 'line N of', p.errs)


def adjacent(s):
    """-B joins actions that stand side by side"""
    for i, r in enumerate(s.g.rules, 1):
        x = [y[:2] == '$$' for y in r.rhs] + [s.act[i] is not None]
        if any(a and b for a, b in zip(x, x[1:])):
            return True
    return False


def layout(c, ctx):
    var = 'btyacc' if c.bool(3, 4) else 'yacc'
    s = build(c)
    if var == 'yacc':
        s.decls = [x for x in s.decls if x[0] != 'dest' and x != ('flag', 'locations')]
    opts = ['-l', '-d', '-v', '-g'] + [o for o in ['-t', '-i', '-r', '-e', '-n', '-z', '-P'] if c.bool(1, 6)]
    if var == 'btyacc' and c.bool(1, 6) and not adjacent(s):
        opts.append('-B')
    plain = emit(c, Plain(), s)
    p0, o0 = outputs(ctx, var, plain, opts)
    if p0.rc != 0 or 'y.tab.c' not in o0:
        raise Discard('rejected')
    for k in range(3):
        crlf = c.bool(1, 6)
        w = emit(c, Wild(c, crlf), s)
        if crlf:
            w = w.replace('\r', '').replace('\n', '\r\n')
        ctx.files['plain.y'] = plain
        p1, o1 = outputs(ctx, var, w, opts)
        ctx.ev()
        if p1.rc != 0:
            raise Violation('%s %s rejects another spelling of an accepted specification: %s' % (var, ' '.join(opts), p1.errs[:600]), 'rejected')
        if msgs(p0) != msgs(p1):
            raise Violation('%s %s: the messages differ\n%s' % (var, ' '.join(opts), first_diff(msgs(p0), msgs(p1))), 'messages')
        if sorted(o0) != sorted(o1):
            raise Violation('%s %s: files %s, and %s for the other spelling' % (var, opts, sorted(o0), sorted(o1)), 'files')
        for n in o0:
            a, b = o0[n], o1[n]
            if crlf:
                f = lambda x: re.sub(r'\n+', '\n', x.replace('\r', ''))
                a, b = f(a), f(b)
            if a != b:
                raise Violation('%s %s: %s differs between two spellings of one specification\n%s' % (var, ' '.join(opts), n, first_diff(a, b)), n)
        ctx.label('CRLF' if crlf else 'LF')
        for lab, pat in [('%empty', r'(?i)[%\\]empty'), ('%term', r'(?i)[%\\]term\b|%0'), ('comment in rules', r'(?s)%%.*/[*/]'), ('%=', r'[%\\]='),
                         ('\\ keyword', r'\\[a-z]'), ('= action', r'=\s*\{')]:
            if re.search(pat, w):
                ctx.label(lab)
        ctx.nontrivial(w)
        ctx.sample(w[:300])


def code(c, ctx):
    """code parts with braces, quotes and comment marks inside strings, constants and comments"""
    var = 'btyacc' if c.bool(3, 4) else 'yacc'
    B = ['-B'] if var == 'btyacc' and c.bool(1, 6) else []
    s = build(c)
    s.decls = [x for x in s.decls if x[0] != 'raw' or 'union' in x[1]]
    if var == 'yacc':
        s.decls = [x for x in s.decls if x[0] != 'dest' and x != ('flag', 'locations')]
    s.epi = None
    n = len(s.act)
    marks = {}
    for i in range(n):
        if s.act[i] is not None:
            s.act[i] = 'MARK%dX' % i
            marks['MARK%dX' % i] = ctext.text(c, ctext.ACTION_B if B else ctext.ACTION)
    pro = ['%%{\nMARKP%dX\n%%}\n' % k for k in range(c.draw(3))]
    for k in range(len(pro)):
        marks['MARKP%dX' % k] = ctext.text(c, ctext.PROLOGUE)
    s.decls = [('raw', x) for x in pro] + s.decls
    base = emit(c, Plain(), s)
    epi = None
    if c.bool():
        epi = ctext.text(c, ctext.RAW)
        base += '%%\nMARKEX\n'
        marks['MARKEX'] = epi
    opts = ['-l', '-v', '-d'] + B + (['-r'] if c.bool(1, 4) else [])
    p0, o0 = outputs(ctx, var, base, opts)
    if p0.rc != 0:
        raise Discard('rejected')
    sub = lambda t, f: re.sub(r'MARK(?:\d+|P\d+|E)X', lambda m: f(marks[m.group(0)], m.group(0)), t)
    spec = sub(base, lambda t, m: t)
    p1, o1 = outputs(ctx, var, spec, opts)
    ctx.ev()
    if p1.rc:
        raise Violation('%s %s rejects a specification because of its code: %s' % (var, ' '.join(opts), p1.errs[:600]), 'rejected')
    for f in o0:
        want = sub(o0[f], lambda t, m: t if m == 'MARKEX' else ctext.copied(t))
        if want != o1[f]:
            raise Violation('%s %s: %s is changed by the text of the code\n%s' % (var, ' '.join(opts), f, first_diff(want, o1[f])), f)
    ctx.label('code parts %d' % min(9, len(marks)))
    if marks:
        ctx.nontrivial(spec)
    ctx.sample('\n----\n'.join(list(marks.values())[:3])[:400])


SPEC = dict(
    tests={'layout': (layout, 5000, 60000), 'code': (code, 5000, 60000)},
    rule='layout: a grammar of any kind (with conflicts, precedence, mid-rule actions, tags, flags) written plainly and in three random '
         'spellings: separators (blanks, newlines, form feeds, both comment kinds containing braces, quotes, %% and keywords, stray ; and ,), '
         'keyword synonyms, letter case, - for _, \\ for %, %empty, = before actions, | or repeated left-hand sides, merged declarations, '
         'escapes for character literals, CRLF. All files of -l -d -v -g and other options must be equal byte for byte. code: the code parts of '
         'a specification replaced by random C fragments full of braces, quotes, comment marks and $ signs inside strings, constants and comments; '
         'files must equal the plain ones with the same replacement. Non-trivial: every compared spelling, distinct by text',
    assumptions=['; and , are blanks outside code', 'a // comment in code is copied as a /* */ comment (documented in the CHANGES of byacc)'],
)
