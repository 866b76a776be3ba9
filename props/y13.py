"""Y13: user code is copied unchanged and its #line numbers are right."""
import os, re
from vlib import byacc, gen, ctext
from vlib.engine import Violation, Discard
from props.y12 import outputs, first_diff

LANDMARK = re.compile(r'^(yy\w+:|#define (YY(?!STYPE_IS_DECLARED)|yy)\w*|static (?!int MK)|break;$|    yynerrs|yyparse\b|    YYINT|    return \(yyresult\))')


class Pieces:
    def __init__(self, c):
        self.c, self.n, self.all = c, 0, []
        self.dirs = c.bool(1, 4)          # directives in the grammar file
        self.files = set()

    def text(self, kind, style):
        """a code text with a mark at its start, at its end and in between"""
        c = self.c
        o = ''
        first = self.n
        for _ in range(c.int(1, 3)):
            f = ctext.text(c, style)
            o += 'MK%d' % self.n + c.pick([' ', '\n', '\n\n', '\t']) + f.rstrip(' ') + c.pick([' ', '\n', ' \n  '])
            if not o.endswith('\n') and o.rstrip().split('\n')[-1].find('//') >= 0:
                o += '\n'
            self.n += 1
            if c.bool(1, 60):
                o += '\n' * c.pick([100, 260, 520, 1100])
            if self.dirs and c.bool(1, 5):
                if not o.endswith('\n'):
                    o += '\n'
                o += self.directive(True)
        o += 'MK%d' % self.n
        self.n += 1
        self.all.append((kind, first, self.n - 1, o))
        return o

    def directive(self, inside):
        c = self.c
        f = c.pick(['h.h', 'other file.y', 'a/b.ox', 'n' * 300, 'x'])
        self.files.add(f)
        n = c.pick([1, 2, 7, 999, 123456])
        if not inside:
            return '#line %d "%s"\n' % (n, f)
        # spelled otherwise than the ones byacc writes
        return c.pick(['# line %d "%s"' % (n, f), ' #line %d "%s"' % (n, f), '#line\t%d "%s"' % (n, f), '#line  %d "%s"' % (n, f), ' # line %d' % n]) + '\n'


def build(c, var):
    g = gen.any_grammar(c, mid=c.bool(1, 4))
    if g is None or not g.terms:
        raise Discard('none')
    P = Pieces(c)
    o = []
    bt = var == 'btyacc'
    blocks = ['prologue'] * c.draw(3) + ['top'] * c.draw(2) + ['requires'] * c.draw(2) + ['provides'] * c.draw(3) + ['code'] * c.draw(3)
    if c.bool(1, 3):
        blocks.append('union')
    if bt and c.bool(1, 4):
        blocks += ['destructor'] * c.int(1, 2)
    if bt and c.bool(1, 4):
        blocks.append('initial')
    if c.bool(1, 2):
        blocks = c.shuffle(blocks)
    o.append(byacc.decls(g))
    tagged = 'union' in blocks
    syms = [x for x in g.nts if x[:2] != '$$'] + [t for t in g.terms if not byacc.is_lit(t)]
    syms = c.shuffle(syms)
    nl = lambda: c.pick(['', '\n', '\n\n'])
    where = []
    for b in blocks:
        if b == 'prologue':
            o.append('%{' + c.pick(['\n', ' ', '\n\n', ' \n']) + P.text(b, ctext.PROLOGUE) + c.pick(['\n', ' ', '\n\n']) + '%}' + '\n' + nl())
        elif b in ('top', 'requires', 'provides', 'code'):
            k = '' if b == 'code' else b
            o.append('%code ' + k + c.pick([' ', '  ', '\n', ' \n ']) + '{' + c.pick([' ', '\n', '', '\n\n', '  \n  ']) + P.text(b, ctext.ACTION) + c.pick(['\n', ' ', '']) + '}\n' + nl())
        elif b == 'union':
            o.append('%union ' + '{' + c.pick(['\n', ' ']) + P.text(b, ctext.ACTION) + c.pick(['\n', ' ']) + '}\n' + nl())
        elif b == 'destructor':
            if not syms:
                continue
            o.append('%destructor {' + c.pick([' ', '\n', '']) + P.text(b, ctext.ACTION) + c.pick(['\n', ' ']) + '} ' + syms.pop() + '\n' + nl())
        elif b == 'initial':
            o.append('%initial-action {' + c.pick([' ', '\n']) + P.text(b, ctext.ACTION) + c.pick(['\n', ' ']) + '}\n' + nl())
    # declarations that add lines to the files
    ids = []
    for _ in range(c.pick([0, 0, 1, 3])):
        k = c.draw(9)
        if k < 3:
            t = c.pick(['', 'x', '$Id: a.y,v 1.1 $', 'a  b', "'"]) + str(len(ids))
            ids.append(t)
            o.insert(c.draw(len(o) + 1), '%ident "' + t + c.pick(['"', '"', '"', '']) + '\n')
        else:
            o.insert(c.draw(len(o) + 1), ['%pure-parser', '%token-table', '%error-verbose', '%debug', '%locations' if bt else '%yacc', '%parse-param { int p1 }'][k - 3] + '\n')
    P.ids = re.findall(r'(?m)^%ident "([^"\n]*)', ''.join(o))
    # comments and blank lines between, so that line numbers differ
    o = [x + c.pick(['', '', '/* x\n y */\n', '// z\n', '\n']) for x in o]
    if P.dirs:
        o = [x + (P.directive(False) if c.bool(1, 3) else '') for x in o]
    back = bt and c.bool(1, 4)

    def action(i, r):
        if r.lhs[:2] != '$$' and c.bool(1, 4):
            return ''
        d = '\n' + P.directive(False) if P.dirs and c.bool(1, 4) else ''
        if back and r.lhs[:2] != '$$' and c.bool():
            t = []
            for k in range(c.int(1, 3)):
                b = c.pick(['{}', '[]'])
                t.append(b[0] + c.pick([' ', '\n', '']) + P.text('action', ctext.ACTION) + c.pick(['\n', ' ', '']) + b[1])
                if k and t[-2][0] == '{' and b == '{}':
                    t[-1:] = []
                    P.all.pop()
                    break
            return d + t[0] + ''.join(c.pick(['', ' ', '\n', '\n\n', ' /* x\n */ ']) + x for x in t[1:])
        return d + c.pick(['', '\n', '=', '\n\n\t']) + '{' + c.pick([' ', '\n', '']) + P.text('action', ctext.ACTION) + c.pick(['\n', ' ', '']) + '}'
    o.append('%%\n' + nl())
    if c.bool(1, 8):
        o.append('%{\n' + P.text('prologue', ctext.PROLOGUE) + '\n%}\n')
    o.append(byacc.rules_text(g, action))
    k = c.draw(5)
    if k:
        o.append('%%' + c.pick(['\n', '\n\n', ' ', '\t ']) + P.text('epilogue', ctext.RAW) + c.pick(['\n', '', ' ', '\n\n']))
    elif c.bool():
        o.append('%%\n')
    return ''.join(o), P, back


def presumed(text):
    """physical line -> (file or None, line)"""
    out = []
    name, ln = None, 1
    for l in text.split('\n'):
        out.append((name, ln))
        m = re.match(r'\s*#\s*line\s+(\d+)(?:\s+"([^"\n]*)")?\s*$', l)
        if m:
            name, ln = m.group(2) or name, int(m.group(1))
        else:
            ln += 1
    return out


ORDER = ['top', 'prologue', 'union', 'requires', 'provides', 'code', 'epilogue', 'destructor', 'initial', 'action']


def copying(c, ctx):
    var = 'btyacc' if c.bool(3, 4) else 'yacc'
    spec, P, back = build(c, var)
    B = ['-B'] if back else []
    r, i, d = c.bool(1, 4), c.bool(1, 5), c.bool(1, 3)
    src = c.pick(['g.y', 'g.y', 'a b.y', 'Gram-1.yy'])
    own = 'y.tab.c'
    opts = (['-r'] if r else []) + (['-i'] if i else []) + (['-d'] if d else []) + B
    opts += c.subset(['-t', '-s', '-P'], 1, 8)
    if c.bool(1, 4):
        own = c.pick(['out.c', 'x.tab.c', 'q/z.c'])
        opts += ['-o', own]
    elif r:
        own = 'y.code.c'
    if c.bool(1, 6) and '-o' not in opts:
        opts += ['-b', 'pp']
        own = own.replace('y.', 'pp.', 1)
    if r and '-o' in opts:
        r = False
        opts.remove('-r')
    dd = ctx.dir()
    os.makedirs(os.path.join(dd, 'q'), exist_ok=True)
    p = byacc.yacc(ctx, var, dd, spec, opts, src)
    if p.rc:
        raise Violation('%s %s rejects the specification: %s' % (var, ' '.join(opts), p.errs[:600]), 'rejected')
    F = {}
    for root, _, fs in os.walk(dd):
        for n in fs:
            rel = os.path.relpath(os.path.join(root, n), dd)
            if rel != src:
                with open(os.path.join(dd, rel), 'rb') as f:
                    F[rel] = f.read().decode('latin-1')
    if own not in F:
        raise Violation('%s %s: no file %s among %s' % (var, ' '.join(opts), own, sorted(F)), 'file')
    line_of = {}
    for l, (f, n) in zip(spec.split('\n'), presumed(spec)):
        for m in re.finditer(r'MK(\d+)\b', l):
            line_of[int(m.group(1))] = (f or src, n)
    pres = {f: presumed(t) for f, t in F.items()}
    # Known finding: without -r, -i makes the directives for the code file count the line that goes to the .i file instead
    drift = 1 if i and not r else 0
    late = None
    # every directive for the own file names its own line
    for n, l in enumerate(F[own].split('\n'), 1):
        m = re.match(r'#line (\d+) "([^"\n]*)"$', l)
        if m and m.group(2) == own and drift and int(m.group(1)) == n + 1 + drift:
            late = Violation('%s %s: line %d of %s says #line %s' % (var, ' '.join(opts), n, own, m.group(1)), 'own-line-externs')
        elif m and m.group(2) == own and int(m.group(1)) != n + 1:
            raise Violation('%s %s: line %d of %s says #line %s' % (var, ' '.join(opts), n, own, m.group(1)), 'own-line')
        if m and m.group(2) not in (own, src) and m.group(2) not in P.files:
            raise Violation('%s %s: line %d of %s says %s' % (var, ' '.join(opts), n, own, l), 'file-name')
    # generated code in the code file belongs to it
    for n, l in enumerate(F[own].split('\n'), 1):
        if LANDMARK.match(l) and 'MK' not in l:
            a = pres[own][n - 1]
            if a not in ((None, n), (own, n), (own, n + drift)):
                raise Violation('%s %s: generated line %d of %s (%s) is attributed to line %d of %s' % (var, ' '.join(opts), n, own, l[:60], a[1], a[0]), 'generated')
    tab = own if not r else own.replace('.code.', '.tab.')
    got = re.findall(r'(?m)^#ident "(.*)"$', F[tab])
    if got != P.ids:
        raise Violation('%s %s: %s has #ident lines for %s instead of %s' % (var, ' '.join(opts), tab, got, P.ids), 'ident')
    pos = []
    main = [x for x in F if x.endswith('.i')][0] if i else own
    for kind, a, b, t in P.all:
        ctx.ev()
        if kind == 'epilogue':
            want = t
        elif kind in ('top', 'requires', 'provides', 'code'):
            want = t
        else:
            want = ctext.copied(t)
        files = [own]
        if kind in ('prologue', 'union'):
            files = [main]
        if kind in ('requires', 'provides', 'union') and d:
            files.append([x for x in F if x.endswith('.h')][0])
        elif kind in ('requires', 'provides') and i and not d:
            pass
        for f, text in F.items():
            n = text.count('MK%d' % a) - len(re.findall(r'MK%d\d' % a, text))
            if f in files and n != 1:
                raise Violation('%s %s: the %s code is %d times in %s' % (var, ' '.join(opts), kind, n, f), 'place')
            if f not in files and n and not (f.endswith('.h') or f.endswith('.i')):
                raise Violation('%s %s: the %s code is in %s' % (var, ' '.join(opts), kind, f), 'place')
        for f in files:
            text = F[f]
            at = text.find(want)
            if at < 0:
                m = re.search(r'(?s)MK%d\b.*?MK%d\b' % (a, b), text)
                raise Violation('%s %s: %s code is changed in %s\n%s' % (var, ' '.join(opts), kind, f, first_diff(want, m.group(0) if m else 'nothing')), 'copy')
            if f.endswith('.h') and kind == 'union':
                continue            # no directives there
            l0 = text.count('\n', 0, at)
            for k in range(a, b + 1):
                x = l0 + want[:want.index('MK%d' % k)].count('\n')
                pn = pres[f][x]
                if pn != line_of[k]:
                    raise Violation('%s %s: %s code from line %s is attributed to line %d of %s in %s' % (
                        var, ' '.join(opts), kind, '%d of %s' % line_of[k][::-1], pn[1], pn[0] or f, f), 'line-' + kind)
        if files[0] == own:
            pos.append((kind, F[own].find(want), a))
        ctx.label(kind)
    # order of the sections, and of the pieces in each
    sec = sorted(((ORDER.index(k) if k != 'union' else 1), a, at, k) for k, at, a in pos if k != 'destructor')
    for x, y in zip(sec, sec[1:]):
        if x[2] > y[2]:
            raise Violation('%s %s: %s code stands behind %s code' % (var, ' '.join(opts), x[3], y[3]), 'order')
    # -l
    d2 = ctx.dir()
    os.makedirs(os.path.join(d2, 'q'), exist_ok=True)
    p = byacc.yacc(ctx, var, d2, spec, opts + ['-l'], src)
    for f, text in F.items():
        with open(os.path.join(d2, f), 'rb') as fh:
            t2 = fh.read().decode('latin-1')
        t1 = re.sub(r'(?m)^#line \d+ "[^"\n]*"\n', '', text)
        if t1 != t2:
            raise Violation('%s %s: -l changes more than the directives in %s\n%s' % (var, ' '.join(opts), f, first_diff(t1, t2)), 'l')
    if late:
        raise late
    if len(P.all) > 1:
        ctx.nontrivial(spec)
    ctx.sample(spec[:400])


def probe_externs(ctx):
    d = ctx.dir()
    byacc.yacc(ctx, 'btyacc', d, '%token A\n%%\ns: A ;\n', ['-i'])
    with open(os.path.join(d, 'y.tab.c')) as f:
        for n, l in enumerate(f, 1):
            m = re.match(r'#line (\d+) "y.tab.c"$', l)
            if m and int(m.group(1)) != n + 1:
                raise Violation('byacc -i: line %d of y.tab.c says %s' % (n, l.strip()), 'own-line-externs')


SPEC = dict(
    probes={'own-line-externs': probe_externs},
    tests={'copying': (copying, 9000, 160000)},
    rule='a specification with random C text (strings, constants, comments, braces, several lines, blank lines) in prologue blocks, %code blocks of '
         'each kind, %union, %destructor, %initial-action, actions (final and mid-rule) and epilogue, delimiters on the same or another line, '
         'trial actions under -B, #line directives of the grammar file inside and outside code, options -r -i -d -o -b. Marks in the text give the expected line; the output must contain each text unchanged in the right file, section and '
         'order, its marks must be attributed to their own lines, generated code (label, declaration and break lines) and all #line directives of the '
         'code file to that file; -l may only remove the directives. Non-trivial: at least two code parts; distinct by text',
    assumptions=['%code imports is accepted and dropped (pinned by a stable reference file)', 'a // comment is copied as /* */ outside %code and epilogue'],
)
