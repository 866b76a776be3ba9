"""L11: lemon's preprocessor keeps exactly the text its conditions select."""
import os, re, sys
from vlib import lemon, build
from vlib.engine import Violation
from vlib.lgram import Multi
from props import l02, l10

sys.setrecursionlimit(10000)
NAMES = ['A', 'B', 'C', 'AB', 'A_b', 'x', 'x9', 'Long_name_1', 'ifdef']
VALUE = ['', '', '', '=', '=1', '=A', '= B']


# ---------------------------------------------------------------- conditions
def cond(c, depth=0):
    k = c.draw(10)
    if depth > 4 or k < 4:
        return ('n', c.pick(NAMES))
    if k < 6:
        return ('!', cond(c, depth + 1))
    return ('&' if k < 8 else '|', [cond(c, depth + 1) for _ in range(c.int(2, 3))])


def value(e, defs):
    if e[0] == 'n':
        return e[1] in defs
    if e[0] == '!':
        return not value(e[1], defs)
    return (all if e[0] == '&' else any)([value(x, defs) for x in e[1]])


def names(e):
    return {e[1]} if e[0] == 'n' else names(e[1]) if e[0] == '!' else set().union(*map(names, e[1]))


def show(c, e, level=0):
    """level: 0 or, 1 and, 2 operand"""
    sp = lambda: c.pick(['', '', ' ', ' ', '\t', '  '])
    if e[0] == 'n':
        s, l = e[1], 2
    elif e[0] == '!':
        s, l = '!' + sp() + show(c, e[1], 2), 2
    else:
        l = 1 if e[0] == '&' else 0
        # nested operators of the same kind need no parentheses
        s = (e[0] * 2).join(sp() + show(c, x, l) + sp() for x in e[1])
    if l < level or c.bool(1, 8):
        s = '(' + sp() + s + sp() + ')'
    return s


# ------------------------------------------------------- reference processor
class Bad(Exception):
    pass


def parse_cond(s, defs, used):
    toks = re.findall(r'[A-Za-z][A-Za-z0-9_]*|&&|\|\||[!()]|\S', s) + [None]
    p = [0]

    def primary():
        t = toks[p[0]]
        p[0] += 1
        if t == '!':
            return not primary()
        if t == '(':
            v = disj()
            if toks[p[0]] != ')':
                raise Bad
            p[0] += 1
            return v
        if t is None or not t[0].isalpha() or not t[0].isascii():
            raise Bad
        used.add(t)
        return t in defs

    def conj():
        v = primary()
        while toks[p[0]] == '&&':
            p[0] += 1
            v = primary() and v
        return v

    def disj():
        v = conj()
        while toks[p[0]] == '||':
            p[0] += 1
            v = conj() or v
        return v
    v = disj()
    if toks[p[0]] is not None:
        raise Bad
    return v


def reference(text, defs):
    """-> (lines, used names, None) or (None, used, line of the error)"""
    used, out, stack = set(), [], []     # stack: [line, selected now, else seen, enclosing selected]
    for n, l in enumerate(text.split('\n'), 1):
        on = all(s[1] for s in stack)
        m = re.match(r'%(ifdef|ifndef|if)(?=[ \t\r\f\v]|$)(.*)|%(else|endif)(?=[ \t\r\f\v]|$)', l, re.S)
        last = n == text.count('\n') + 1
        if m and m.group(1) and last and l == '%' + m.group(1):
            m = None            # nothing follows it, not even a space
        if not m:
            out.append(l if on else '')
            continue
        out.append('')
        if m.group(1):
            v = False
            if on:
                try:
                    v = parse_cond(m.group(2), defs, used) != (m.group(1) == 'ifndef')
                except Bad:
                    return None, used, n
            stack.append([n, v, False])
        elif not stack or m.group(3) == 'else' and stack[-1][2]:
            return None, used, n
        elif m.group(3) == 'endif':
            stack.pop()
        else:
            stack[-1][1:] = [not stack[-1][1], True]
    if stack:
        return None, used, stack[-1][0]
    return out, used, None


# ------------------------------------------------------------ the conditionals
LINES = ['', ' ', 'x', 's ::= A B.', '%left A.', '%ifdefA', '%iffy', '%elsewhere', '%endif_', ' %endif', '\t%else', 'x %ifdef A', '{ %if', '// %endif', '%', '%%', '%if(A)', '%endi', 'A && B', '/*', '*/', '"', '%d',
         '\xe9\xff', '%IFDEF A', '%else.', '%endif;', 'long ' * 30, '\\', '%include {', '}', '\f', '\x01']


def tree(c, depth, make):
    o = []
    for _ in range(c.geo(7, 4, 5) if depth == 0 else c.geo(5, 3, 5)):
        if c.bool(2, 5) and depth < 6:
            kind = c.pick(['ifdef', 'ifndef', 'if'])
            e = ('n', c.pick(NAMES)) if kind != 'if' and c.bool(2, 3) else cond(c)
            o.append([kind, e, tree(c, depth + 1, make), tree(c, depth + 1, make) if c.bool() else None])
        else:
            o.append(make(c))
    return o


def render(c, t, defs, on, text, kept, used, eol):
    junk = lambda: c.pick(['', '', '', ' ', '\t', ' // X', ' X', ' /* x', ' %if'])
    for i in t:
        if isinstance(i, str):
            for l in i.split('\n'):
                text.append(l + eol)
                kept.append(l + eol if on else '')
            continue
        kind, e, a, b = i
        text.append('%' + kind + c.pick([' ', ' ', '\t', '  ']) + show(c, e) + c.pick(['', '', ' ']) + eol)
        v = value(e, defs) != (kind == 'ifndef')
        if on:
            used |= names(e)
        kept.append('')
        render(c, a, defs, on and v, text, kept, used, eol)
        if b is not None:
            text.append('%else' + junk() + eol)
            kept.append('')
            render(c, b, defs, on and not v, text, kept, used, eol)
        text.append('%endif' + junk() + eol)
        kept.append('')


def macros(c):
    """-> options, names"""
    ns = c.subset(NAMES + ['Unused'], 2, 5)
    ns = c.shuffle(ns)
    return ['-D' + n + c.pick(VALUE) for n in ns], set(ns)


def mutate(c, lines):
    lines = list(lines)
    for _ in range(c.int(1, 2)):
        k = c.draw(6)
        i = c.draw(len(lines) + 1)
        at = [j for j, l in enumerate(lines) if re.match(r'%(if|else|endif)', l)]
        if k == 0:
            lines.insert(i, c.pick(['%endif', '%else', '%if', '%ifdef', '%ifdef A', '%if A && B', '%ifndef \t', '%endif ', '%if ' + '(' * 500 + 'A' + ')' * 500]))
        elif k == 1 and at:
            del lines[c.pick(at)]
        elif k == 2 and at:
            lines.insert(i, lines[c.pick(at)])
        elif at:
            j = c.pick(at)
            l = lines[j]
            b = c.int(3, max(3, len(l)))
            lines[j] = l[:b] + c.pick(['', '(', ')', '!', '&', '&&', '||', '|', ' ', '9', 'A', ' B ', '#', '=', ',', '_', '\xe9']) + l[b + c.pick([0, 0, 0, 1, 2]):]
    return lines


def check_e(ctx, opts, text, want, what):
    d = ctx.dir()
    ctx.files['options'] = ' '.join(opts)
    p = lemon.run(ctx, d, text, opts + ['-E'], timeout=30, asan=True)
    ctx.ev()
    if want is None:
        return p
    if p.rc != 0:
        raise Violation('%s: -E ended with status %d: %s' % (what, p.rc, p.errs[:300]), 'reject')
    got = p.out.decode('latin-1')
    if not got.endswith('\n'):
        raise Violation('%s: -E: no newline at the end' % what, 'text')
    got = got[:-1].split('\n')
    if len(got) != len(want):
        raise Violation('%s: -E prints %d lines of %d' % (what, len(got), len(want)), 'lines')
    for n, (g, w) in enumerate(zip(got, want), 1):
        if g != w and (w != '' or g.strip(' \r')):
            raise Violation('%s: line %d: -E prints %r instead of %r' % (what, n, g, w), 'text')
    if sorted(os.listdir(d)) != ['g.lem']:
        raise Violation('%s: -E writes %s' % (what, sorted(os.listdir(d))), 'files')
    return p


def select(c, ctx):
    opts, defs = macros(c)
    text, kept, used = [], [], set()
    render(c, tree(c, 0, lambda c: c.pick(LINES)), defs, True, text, kept, used, c.pick(['', '', '', '\r']))
    if c.bool() or not text:
        text.append('')
        kept.append('')
    s = '\n'.join(text)
    ref = reference(s, defs)
    if ref[2] or ref[0] != kept or ref[1] != used:
        raise RuntimeError('the two references differ: %r %r' % (s, ref))
    check_e(ctx, opts, s, kept, 'selection')
    n = sum(k == '' and t.strip() != '' and not t.startswith('%') for k, t in zip(kept, text))
    if n and any(k for k in kept):
        ctx.nontrivial(s + repr(opts))
        ctx.sample('%s\n%s' % (opts, s))
        ctx.label('some lines dropped, some kept')


def malformed(c, ctx):
    opts, defs = macros(c)
    text = []
    render(c, tree(c, 0, lambda c: c.pick(LINES)), defs, True, text, [], set(), '')
    text = mutate(c, text)
    if c.bool():
        text.append('')
    s = '\n'.join(text)
    want, used, line = reference(s, defs)
    p = check_e(ctx, opts, s, want, 'mutated')
    ctx.nontrivial(s + repr(opts))
    if line is None:
        ctx.label('still well formed')
        return
    ctx.label('malformed')
    ctx.sample('%s\n%s' % (opts, s))
    if p.rc != 1:
        raise Violation('the conditionals are malformed on line %d, but lemon ends with status %d' % (line, p.rc), 'accept')
    m = re.search(r'line (\d+)', p.errs)
    if not m or int(m.group(1)) != line:
        raise Violation('the conditionals are malformed on line %d, but lemon says: %s' % (line, p.errs[:300]), 'place')


# -------------------------------------------------------------- whole grammars
JUNK = ['%left', 'x ::=', '%nosuch A.', '{', '"', '/*', '}', 's ::= A.', '.', '%include { /* " */ }', '[A]', '%token Q1 Q2.', 'other ::= T1.', '%expect 7', '%name Bad', '%stack_size 3', 'ERR', '::=']


def block(c, lines):
    """the lines of a grammar, some of them inside conditionals that select them"""
    o = []
    while lines:
        k = c.int(1, 3)
        part, lines = lines[:k], lines[k:]
        o.append(part)
    return o


def squeeze(s):
    return re.sub(rb'\s+', b' ', s) if isinstance(s, bytes) else re.sub(r'\s+', ' ', s)


def grammar(c, ctx):
    opts, defs = macros(c)
    g = l02.grammar(c, False)
    M = Multi(c, g, 0, 1)
    ls = (lemon.decls(g) + M.decls()).rstrip('\n').split('\n')
    for i, r in enumerate(M.g.rules):
        ls.append(M.rule_text(r) + c.pick(['', ' { x(%d); }' % i, ' {\n  a();\n\n  b("%%endif");\n}' if c.bool() else ' {\n%s\n}' % c.pick(['%ifdefs', ' %endif', 'c();'])]))
    if c.bool(1, 3):
        ls.insert(0, c.pick(['%include {\n#include <x.h>\n}', '%code {\n int y;\n}', '%syntax_error { e(); }', '%name Foo', '%type q {int}']))
    if c.bool(1, 4):
        ls.insert(c.draw(len(ls) + 1), c.pick(JUNK))
    junk = lambda c: c.pick(JUNK)
    text, kept, used = [], [], set()

    def wrap(part, depth):
        """items that select exactly this part"""
        if depth > 3 or c.bool(2, 3):
            return part
        kind = c.pick(['ifdef', 'ifndef', 'if'])
        e = ('n', c.pick(NAMES)) if kind != 'if' and c.bool(2, 3) else cond(c)
        v = value(e, defs) != (kind == 'ifndef')
        other = tree(c, 5, junk) if c.bool() else []
        inner = wrap(part, depth + 1)
        if v:
            return [[kind, e, inner, other if other or c.bool() else None]]
        return [[kind, e, other, inner]]
    items = []
    for part in block(c, ls):
        items += wrap(part, 0)
    render(c, items, defs, True, text, kept, used, '')
    flags = [o for o in ('-c', '-l', '-r', '-S', '-m', '-s', '-z', '-b') if c.bool(1, 4)]
    ctx.files['options'] = ' '.join(flags + opts)
    runs = []
    for sub, t, o in (('a', text, flags + opts), ('b', kept, flags)):
        d = ctx.dir()
        p = lemon.run(ctx, d, '\n'.join(t) + '\n', o, asan=True)
        ctx.ev()
        files = {f: open(os.path.join(d, f), 'rb').read().decode('latin-1') for f in os.listdir(d) if f != 'g.lem'}
        runs.append((p.rc, p.errs, p.out, files))
    ctx.files['g.lem'] = '\n'.join(text) + '\n'
    ctx.files['plain.lem'] = '\n'.join(kept) + '\n'
    a, b = runs
    what = 'with %s, compared with the selected text alone' % ' '.join(opts)
    for k, n in ((0, 'status'), (1, 'messages'), (2, 'output')):
        if (squeeze(a[k]) != squeeze(b[k]) if k else a[k] != b[k]):
            raise Violation('%s: the %s differ: %r / %r' % (what, n, a[k][-300:] if k else a[k], b[k][-300:] if k else b[k]), n)
    if set(a[3]) != set(b[3]):
        raise Violation('%s: files %s / %s' % (what, sorted(a[3]), sorted(b[3])), 'files')
    for f in a[3]:
        x, y = a[3][f], b[3][f]
        if f.endswith('.c'):
            head, x = re.match(r'(?s)(/\*.*?\*/\n)(.*)', x).groups()
            y = re.match(r'(?s)(/\*.*?\*/\n)(.*)', y).group(2)
            shift = head.count('\n') - 3
            got = re.findall(r'(?m)^\*\*   -D(.*)$', head)
            want = [o[2:].split('=')[0] for o in opts if o[2:].split('=')[0] in used]
            if got != want:
                raise Violation('%s: the parser names the macros %s; its text depends on %s' % (what, got, want), 'macros')
            out = re.compile(r'(?m)^#line (\d+) "g\.c"$')
            x = out.sub(lambda m: '#line %d "g.c"' % (int(m.group(1)) - shift), x)
        xs, ys = [[l.rstrip() for l in z.split('\n')] for z in (x, y)]
        if xs != ys:
            n = next((i for i, (p, q) in enumerate(zip(xs, ys)) if p != q), min(len(xs), len(ys)))
            raise Violation('%s: %s differs: %r / %r' % (what, f, xs[n:n + 1], ys[n:n + 1]), 'file')
    if used:
        ctx.nontrivial('\n'.join(text) + repr(opts))
        ctx.label('accepted' if a[0] == 0 else 'rejected')
        ctx.sample('%s\n%s' % (opts, '\n'.join(text)))


SPEC = dict(
    tests={
        'select': (select, 5000, 60000),
        'malformed': (malformed, 5000, 60000),
        'grammar': (grammar, 3000, 40000),
    },
    setup=lambda tier: build.lemon(True),
    rule='a case is a file with nested conditionals over random conditions and lines that look like directives but are none, and a set of -D macros; select compares -E with the '
         'lines selected by evaluating the condition trees, malformed mutates the conditionals and compares with a reference processor (status, line in the message, or text), '
         'grammar wraps the parts of a grammar in conditionals that select them and compares every file and message of lemon with those for the selected text alone; '
         'non-trivial: lines were both kept and dropped (select), any (malformed), at least one condition was evaluated (grammar); distinct by content and macros',
    assumptions=['directives are recognised in the first column only, followed by white space'],
)
