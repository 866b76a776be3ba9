"""L10: lemon handles any input file without crashing, hanging or corrupting memory."""
import os, re
from vlib import lemon, build
from vlib.engine import Violation
from vlib.lgram import Multi
from props import y09, l02

KW = ['name', 'include', 'code', 'token_destructor', 'default_destructor', 'token_prefix', 'syntax_error', 'parse_accept', 'parse_failure', 'stack_overflow', 'extra_argument',
      'extra_context', 'token_type', 'default_type', 'stack_size', 'expect', 'start_symbol', 'left', 'right', 'nonassoc', 'precedence', 'destructor', 'type', 'fallback', 'token',
      'wildcard', 'token_class', 'yacc_prec', 'ifdef X', 'ifdef', 'if X && !Y', 'if (X || Y) && Z', 'if', 'ifndef Q', 'else', 'endif', 'nosuch', 'left_', 'endif\n', 'if !(', 'if ((X)']
BITS = ['::=', '::', ':', '.', '|', '/', '|A', '/B', '|b', 'A|B', 'A|B|C', 'A/B', '(', ')', '[', ']', '{', '}', '"', "'", '%', '$', '$$', '@', '@A', '@X', '{}', '{ x }', '{NEVER-REDUCE',
        '{NEVER-REDUCE}', '[A]', '[a]', '[', ']', 'A', 'B', 'C', 'a', 'b', 's', 'x', 'error', 'ERROR', '(X)', '(L)', '(x', '_', '_a', '9', 'a9', '"str"', '""', '/*', '*/', '//', '/*/', '\n', ' ', '\t', '\r',
        '\0', '\x80', '\xff', '\f', '%%', '{default}', '{"}"}', "{'}'}", '{"', "{'", '{/*', '{//', '{\\', '{"\\"}"}', "{'\\''}", 's ::= A.', 'a ::= .', 'x(X) ::= A(Y) b(Z). { X=Y; }', 'X-overwrites-Y', '/*X-overwrites-Y*/',
        '%left A B.', '%fallback A B.', '%token_class cl A|B.', '%type s {int}', '%destructor s {x($$)}', '%wildcard ANY.', '\n%ifdef X\n', '\n%else\n', '\n%endif\n', '\n%if X\n', '\n%endif', '&&', '||', '!', '%if', '-1', '100', '0']
LONG = ['a', 'Tok', ' ', '(', '{', '}', '\n', '"', 'A ', 'b ', "'", '/', '|A', ':', '::=', '.', '%', '\\', '!', '&&', '{ ', '[', 'A. ', 'b ::= A.\n', '\n%if X\n', '$$', '((', 'A(X) ']
OPTS = 'bcEgyYzumlpqrsSx'


def options(c):
    o = ['-' + f for f in OPTS if c.bool(1, 7) and (f not in 'Ex' or c.bool(1, 5))]
    if c.bool(1, 6):
        o.append('-D' + c.pick(['X', 'Y', 'X=1', 'A_b', '', '=', 'Q', '9', 'X ']))
    if c.bool(1, 8):
        o.append(c.pick(['-dsub', '-d.', '-d', '-dsub/', '-dnone']))
    if c.bool(1, 20):
        o.append(c.pick(['-f', '-fPIC', '-Ifoo', '-O2', '-Wall', '+q', '-sS', '-pq', '--', '-', '-Z', 'q=1', 'T=x', '-T', '-Tnone.c', '-Tin.y', '-Tbad.c', 'in.y', '-Tempty.c']))
    return o


def long(c, sizes):
    p, n = c.pick(LONG), c.pick(sizes)
    return p * min(n, 1200 if len(p) > 1 or p in '({}' else n)


def pieces(c, n):
    o = []
    for _ in range(n):
        k = c.draw(12)
        if k < 2:
            o.append(c.pick(['%', '%', '\n%']) + c.pick(KW))
        elif k < 10:
            o.append(c.pick(BITS))
        elif k == 10:
            o.append(long(c, [3, 31, 49, 50, 51, 100, 255, 256, 257, 899, 999, 1000, 1001, 4096]))
        else:
            o.append(chr(c.draw(256)))
        o.append(c.pick(['', ' ', ' ', '\n', '.']))
    return ''.join(o)


def mutate_text(c, s, other):
    for _ in range(1 + c.geo(6, 1, 2)):
        if not s:
            s = 's ::= A.'
        k = c.draw(11)
        i = c.draw(len(s) + 1)
        j = min(len(s), i + c.pick([0, 1, 2, 5, c.draw(80)]))
        if k == 0:
            s = s[:i] + s[j:]
        elif k == 1:
            s = s[:i] + pieces(c, c.int(1, 3)) + s[i:]
        elif k == 2:
            s = s[:i] + c.pick(BITS) + s[j:]
        elif k == 3:
            s = s[:i]
        elif k == 4:
            s = s[:j] + s[i:]
        elif k == 5:
            b = c.draw(len(other) + 1)
            s = s[:i] + other[b:b + c.int(1, 200)] + s[i:]
        elif k == 6:
            s = s[:i] + long(c, [50, 300, 1024, 2000]) + s[i:]
        elif k == 7:
            ls = s.split('\n')
            a = c.draw(len(ls))
            if c.bool():
                ls.insert(c.draw(len(ls) + 1), ls[a])
            else:
                del ls[a]
            s = '\n'.join(ls)
        elif k == 8:
            s = s.replace('\n', c.pick(['\r\n', '\r', '', ' ']))
        elif k == 9:
            ws = re.findall(r'\w+', s) or ['x']
            s = s.replace(c.pick(ws), c.pick(ws + BITS))
        else:
            s = s[:i] + '\n%' + c.pick(KW) + ' ' + pieces(c, 1) + '\n' + s[i:]
        s = s[:40000]
    return s


def rich(c):
    """a mostly valid grammar that uses many features"""
    g = l02.grammar(c, c.bool(1, 8))
    M = Multi(c, g, *c.pick([(0, 1), (1, 6), (1, 3)]))
    named = [t for t in g.all_terms() if t != 'error'] or ['T']
    o = []
    for _ in range(c.geo(4, 1, 2)):
        t, n = c.pick(named), c.pick(g.nts)
        o.append(c.pick([
            '%%type %s {int}\n' % n, '%%type %s {struct x *}\n' % t, '%%destructor %s { free($$); }\n' % n, '%%destructor %s { f($$, "$$"); }\n' % t, '%token_type {int}\n', '%token_type int\n',
            '%default_type {double}\n', '%token_destructor { f($$); }\n', '%default_destructor { f($$); }\n', '%extra_argument {int *p}\n', '%extra_argument { struct x *abc[3] }\n', '%extra_argument {}\n',
            '%extra_context {T *q}\n', '%extra_context { }\n', '%name Foo\n', '%name {}\n', '%token_prefix TK_\n', '%token_prefix ""\n', '%include {\n#include <stdio.h>\n}\n', '%include ""\n', '%include {}\n', '%code { int x; }\n', '%code ""\n',
            '%syntax_error { /* } */ x(); }\n', '%parse_accept {}\n', '%parse_failure { a; }\n%parse_failure { b; }\n', '%stack_overflow {"}"}\n', '%stack_size 10\n', '%stack_size {abc}\n', '%expect 3\n',
            '%%start_symbol %s\n' % n, '%start_symbol nosuch\n', '%%start_symbol %s\n' % t, '%%wildcard %s.\n' % t, '%%fallback %s.\n' % ' '.join(c.sample(named, c.int(1, len(named)))),
            '%yacc_prec\n', '%%left %s.\n' % t, '%%nonassoc X%s.\n' % t, '%precedence.\n', '%ifdef X\n%token ZZ.\n%else\n%token YY.\n%endif\n', '%%token_class own9 %s.\n' % '|'.join(named[:3]), '%%token_class %s %s.\n' % (n, t)]))
    o.append(lemon.decls(g))
    o.append(M.decls())
    for i, r in enumerate(M.g.rules, 1):
        lab, lhs = {}, None
        if c.bool(1, 3):
            for k, s in enumerate(r.rhs):
                if c.bool():
                    lab[k] = c.pick(['A', 'B', 'X', 'L%d' % k, 'V%d' % k, 'a', 'lab_' * c.pick([1, 20, 230])])
            lhs = c.pick([None, 'R', 'A', 'X'])
        o.append(M.rule_text(r, lab, lhs) + c.pick(['', '', '', ' {}', ' { %s }' % '; '.join(([lhs] if lhs else []) + list(lab.values())), ' { x("}"); /* } */ }', ' {\n}\n', ' {NEVER-REDUCE}', ' { if (1) { a; } // }\n }',
                                                    ' { %s = @%s; }' % (lhs or 'q', (list(lab.values()) or ['q'])[0]), ' { /*%s-overwrites-%s*/ %s=%s; }' % (lhs, (list(lab.values()) or ['q'])[0], lhs, (list(lab.values()) or ['q'])[0])]) + '\n')
    if c.bool(1, 4):
        o = c.shuffle(o)
    return ''.join(o)


def rich_valid(c):
    """the same features, put together so that lemon accepts the grammar"""
    g = l02.grammar(c, c.bool(1, 8))
    M = Multi(c, g, *c.pick([(0, 1), (1, 6), (1, 3)]))
    named = [t for t in g.all_terms() if t != 'error'] or ['T']
    seen = set()
    o = ['%%expect %d\n' % c.draw(3)] if c.bool(1, 4) else []
    for _ in range(c.geo(9, 3, 4)):
        t, n = c.pick(named), c.pick(g.nts)
        k, x = c.pick([
            ('T' + n, '%%type %s {%s}\n' % (n, c.pick(['int', 'struct x *', ' long \n', 'int *', 'a b[3]']))), ('D' + n, '%%destructor %s { f($$, "$$"); }\n' % n), ('D' + t, '%%destructor %s { f($$);\n g(yypParser); }\n' % t),
            ('tt', '%%token_type %s\n' % c.pick(['{int}', 'int', '{ char const * }', '"int"'])), ('dt', '%default_type {double}\n'), ('td', '%token_destructor { f($$); }\n'), ('dd', '%default_destructor { f($$); }\n'),
            ('ea', '%%extra_argument %s\n' % c.pick(['{int *p}', '{ struct x *abc }', '{}', '{ T x }', '{T\n*x}', '{p}', '{ }'])), ('ec', '%%extra_context %s\n' % c.pick(['{T *q}', '{ }', '{q }', '{int _q9\t}'])),
            ('nm', '%%name %s\n' % c.pick(['Foo', '{}', '{_x}', 'a9', '"b"'])), ('tp', '%%token_prefix %s\n' % c.pick(['TK_', '""', '{a_}'])), (None, '%include {\n#include <stdio.h>\n}\n'), (None, '%include ""\n'), (None, '%include {/* x */\n}\n'),
            (None, '%code { int x; }\n'), (None, '%code ""\n'), (None, '%syntax_error { /* } */ x(); }\n'), (None, '%parse_accept {}\n'), (None, '%parse_failure { a; }\n%parse_failure { b; }\n'), (None, '%stack_overflow {"}"}\n'),
            ('ss', '%%stack_size %s\n' % c.pick(['10', '{abc}', '0', '{ -1 }', '"7"'])), ('wc', '%%wildcard %s.\n' % t), ('fb', '%%fallback %s.\n' % ' '.join(c.sample(named, c.int(1, len(named))))),
            ('yp', '%yacc_prec\n'), (None, '%ifdef X\n%token ZZ.\n%else\n%token YY.\n%endif\n'), (None, '%%token %s.\n' % ' '.join(c.sample(named, c.int(1, len(named))))),
            ('k9', '%%token_class own9 %s.\n' % c.pick(['|', ' ', '/', '\n']).join(c.sample(named, c.int(1, min(4, len(named)))))), ('pp', '%nonassoc XP YP.\n%precedence ZP.\n')])
        if k in seen:
            continue
        if k:
            seen.add(k)
        o.append(x)
    o = c.shuffle(o)
    i = c.draw(len(o) + 1)
    o[i:i] = [lemon.decls(g), M.decls()]
    for r in M.g.rules:
        lab, lhs = {}, None
        if r.lhs != 'error' and c.bool(1, 2):
            for k, s in enumerate(r.rhs):
                if s != 'error' and not (s[:1].isupper() and '|' in s) and c.bool():
                    lab[k] = c.pick(['X%d', 'lab_%d', 'a%d']) % k
            lhs = c.pick([None, 'R'])
        use = '; '.join(([lhs] if lhs else []) + [c.pick(['%s', '@%s', 'f(&%s)', '%s.x']) % v for v in lab.values()])
        o.append(M.rule_text(r, lab, lhs) + (c.pick([' { %s; }', '\n{\n %s;\n}', ' { x("}", %s); /* } */ }', ' { if (%s) { a; } // }\n }']) % use if use else c.pick(['', ' {}', ' {NEVER-REDUCE}' if c.bool(1, 8) else '', ' { "a\\"}" }', ' {\n\n}'])) + '\n')
    for n in c.sample(g.nts, c.draw(2)) if c.bool(1, 3) else []:
        o.append('%%destructor %s { late($$); }\n' % n if 'D' + n not in seen else '')
    return ''.join(o)


ALLOWED = re.compile(r'in\.(c|h|out|sql)$|.*\.(c|h|out|sql)$')
SAN = y09.SAN


def execute(ctx, opts, text):
    d = ctx.dir()
    ctx.write(d, 'in.y', text)
    os.mkdir(os.path.join(d, 'sub'))
    ctx.write(d, 'bad.c', '%% %%%\n%%\nParse no Parse\n%%\n')
    ctx.write(d, 'empty.c', '')
    ctx.files['in.y'] = text
    ctx.files['options'] = ' '.join(opts)
    exe, lempar = build.lemon(True)
    cmd = [exe] + opts + ([] if any(o.startswith('-T') for o in opts) else ['-T' + lempar]) + ['in.y']
    for to in (20, 60):
        p = ctx.run(cmd, cwd=d, timeout=to, env=SAN)
        if not p.timeout:
            break
    ctx.ev()
    what = 'lemon ' + ' '.join(opts)
    if p.timeout:
        raise Violation('%s does not terminate' % what, 'hang')
    e = p.errs
    if p.rc not in (0, 1):
        k, f = y09.where(e)
        raise Violation('%s ended with status %d: %s in %s\n%s' % (what, p.rc, k, f, e[:2500]), 'crash:' + f)
    if 'runtime error' in e:
        k, f = y09.where(e)
        raise Violation('%s: undefined behaviour: %s' % (what, e[:1500]), 'ub:' + f)
    diag = re.findall(r'(?m)^in\.y:(\d+): (.*)', e)
    if p.rc == 1 and not e.strip():
        raise Violation('%s: status 1 without any message' % what, 'silent')
    if diag and p.rc == 0:
        raise Violation('%s: an error is reported but the status is 0: %s' % (what, diag[0]), 'status')
    n = text.count('\n') + 1
    for l, m in diag:
        # 0 stands for the whole grammar
        if int(l) > n or int(l) < 1 and not (m.startswith('Can\'t') or 'start symbol' in m):
            raise Violation('%s: the diagnostic names line %s of a file of %d lines: %s' % (what, l, n, m), 'place')
    for f in os.listdir(d):
        if f not in ('in.y', 'sub', 'bad.c', 'empty.c') and not re.match(r'in\.(c|h|out|sql)$', f):
            raise Violation('%s: unexpected file %r' % (what, f), 'stray')
    ctx.label('accepted' if p.rc == 0 else 'rejected')
    for m in {re.sub(r'["\'].*?["\']|\(.*?\)|\d+', '', m)[:40].strip() for l, m in diag}:
        ctx.label('message: ' + m)
    return p


def rich_mut(c):
    s = rich(c)
    return mutate_text(c, s, s) if c.bool(2, 3) else s


def soup(c):
    if c.bool(1, 8):
        return ''.join(chr(c.draw(256)) for _ in range(c.draw(300)))
    return pieces(c, c.int(0, 6)) + c.pick(['s ::= A b.\nb ::= B.\n', '', 's ::= A.\n']) + pieces(c, c.int(1, 30))


def run(c, ctx, make, kind):
    text = make(c)
    opts = options(c)
    execute(ctx, opts, text)
    ctx.nontrivial(kind + text)
    if kind != 'rich':
        ctx.sample('%s\n%s' % (opts, text[:400]))


def valid(c, ctx):
    """nothing in the grammar is wrong: lemon has nothing to say but the number of conflicts"""
    text = rich_valid(c)
    opts = ['-' + f for f in OPTS if c.bool(1, 7) and f not in 'Ex']
    p = execute(ctx, opts, text)
    for l in p.errs.splitlines():
        if l.strip() and not re.match(r'\d+ parsing conflicts?\b|in\.y:\d+: (\d+ parsing conflict|This rule can not be reduced)', l):
            raise Violation('lemon %s: a message about a valid grammar: %s' % (' '.join(opts), l), 'accept')
    ctx.nontrivial('valid' + text)
    ctx.sample('%s\n%s' % (opts, text[:900]))


# what must be rejected: (statement, line of the message within it, message); n: a nonterminal, s: the start symbol
WRONG = [
    ('%nosuch QA.', 0, 'Unknown declaration'), ('% 9.', 0, 'Illegal declaration'), ('%left low.', 0, "Can't assign"), ('%left\nQA low.', 1, "Can't assign"), ('%left QA\nQA.', 1, 'already be given'),
    ('%nonassoc QA.\n%left QB QA.', 1, 'already be given'), ('%token low.', 0, 'should be a token'), ('%wildcard low.', 0, 'should be a token'), ('%wildcard QA\n\nQB.', 2, 'Extra wildcard'),
    ('%fallback QA low.', 0, 'should be a token'), ('%fallback QA QB.\n%fallback QC QB.', 1, 'More than one fallback'), ('%fallback QA QA.', 0, 'leads back'), ('%fallback QA QB.\n%fallback QB QA.', 1, 'leads back'),
    ('%token_class QA QB.', 0, 'identifier'), ('%token_class qc QA.\n%token_class qc QB.', 1, 'already used'), ('%token_class qc.', 0, 'no tokens'), ('%token_class qc QA\nlow.', 1, 'should be a token'),
    ('%token_class qc QA|QB.\nqc ::= QC.', 1, 'LHS'), ('%token_class qc QA|QB.\nn ::= qc|QC.', 1, 'compound'), ('n ::= low|QA.', 0, 'compound'), ('n ::= QA|low.', 0, 'Illegal character'),
    ('n ::= QA. [QB] [QC]', 0, 'not the first'), ('n ::= QA. [QB]\n[QC]', 1, 'not the first'), ('n ::= QA. [low]', 0, 'must be a terminal'), ('n ::= QA. [QB QC]', 0, 'Missing "]"'),
    ('n ::= QA. {a} {b}', 0, 'not the first'), ('n ::= QA. {\n}\n{NEVER-REDUCE}\n', 2, 'not the first'), ('n QA.', 0, 'Expected to see'), ('n( ::= QA.', 0, 'not a valid alias'), ('n(A ::= QA.', 0, 'Missing "\\)"'),
    ('n(A) QA.', 0, 'Missing "->"'), ('n ::= QA(9).', 0, 'not a valid alias'), ('n ::= QA(A B).', 0, 'Missing "\\)" following RHS alias name "A"'), ('n ::= QA ; QB.', 0, 'Illegal character'), ('QA ::= n.', 0, 'should be either'),
    ('9.', 0, 'should be either'), ('%type 9 {x}', 0, 'name missing'), ('%destructor {x}', 0, 'name missing'), ('%type n {a}\n%type n {b}', 1, 'already defined'), ('%name .', 0, 'Illegal argument'), ('%stack_size\n%left QA.', 1, 'Illegal argument'),
    ('n(L) ::= QA(X). { X; }', 0, 'Label "L" .*never used'), ('n(L) ::= QA(X)\n. { L; }', 1, 'Label X .*never used'), ('n ::= QA(X) QB(Y). { X; XY; }', 0, 'Label Y .*never used'), ('n ::= QA(X) QB(X). { X; }', 0, 'multiple'),
    ('n(X) ::= QA QB(X). { X; }', 0, 'same label'), ('n(X) ::= QA(Y). { /*X-overwrites-Y*/ X = Y; }', 0, 'used after'), ('n ::=' + ' QA' * 1001 + '.', 0, 'Too many'), ('s ::= QA low.', 0, 'no rules'), ('n ::= QA s.', None, 'right-hand side'),
    ('%start_symbol low', None, 'not in a nonterminal'), ('%start_symbol QA', None, 'not in a nonterminal'), ('%token_class qc QA.\n%start_symbol qc', None, 'not in a nonterminal'),
    ('%type n {a}\n%type QA {b}\n%token_type {c}\nn(A) ::= QA(A).', 3, 'different datatypes'), ('%if A && (\n%endif', 'if', ''), ('%endif', 'if', ''), ('%ifdef A', 'if', ''),
]
FIRST = [('{a}', 0, 'no prior rule'), ('[QA]', 0, 'no prior rule'), ('{NEVER-REDUCE}', 0, 'no prior rule')]
LAST = [('"abc\nd', 0, 'String starting'), ('%name "x', 0, 'String starting'), ('n ::= QA. {abc\n\n', 0, 'C code starting'), ('n ::= QA.\n{ "abc }', 1, 'C code starting'), ('n ::= QA. { /* x } ', 0, 'C code starting'), ('n ::= QA. { // x }', 0, 'C code starting'),
        ("n ::= QA. { '} ", 0, 'C code starting'), ('n ::= QA. {{}', 0, 'C code starting'), ('n ::= QA', 0, 'not finished'), ('%token QX', 0, 'not finished'), ('%left', 0, 'not finished'), ('n ::= QA.\n[', 1, 'not finished'), ('n', 0, 'not finished'),
        ('%type n', 0, 'not finished'), ('n ::= QA(A', 0, 'not finished'), ('%include', 0, 'not finished')]


def reject(c, ctx):
    """a valid grammar with one thing in it that is not"""
    g = l02.grammar(c)
    M = Multi(c, g, 0, 1)
    where = c.pick(['mid', 'mid', 'mid', 'mid', 'first', 'last'])
    stmt, delta, msg = c.pick({'mid': WRONG, 'first': FIRST, 'last': LAST}[where])
    start = '%start_symbol' not in stmt
    pad = lambda: c.pick(['', '', '\n', '// x ::= "\n', '/* {\n%left */ ', '  '])
    l = [x + '\n' for x in lemon.decls(g, start).rstrip('\n').split('\n')]
    for i, r in enumerate(M.g.rules, 1):
        l.append(pad() + lemon.rule_text(r) + c.pick(['', '', ' { x(%d); }' % i, '\n{\n a("}");\n}', ' {}']) + '\n')
    others = [a for a in g.nts if a != g.start] or [g.start]
    # rules that are never used are not looked at as closely
    stmt = re.sub(r'\bn\b', c.pick(others), stmt)
    stmt = re.sub(r'\bs\b', g.start, stmt)
    at = 0 if where == 'first' else len(l) if where == 'last' else c.draw(len(l) + 1)
    p = pad() if stmt[0] != '%' or delta != 'if' else ''
    if p.endswith(' ') and delta == 'if':
        p = ''
    before = ''.join(l[:at]) + p
    text = before + stmt + ('' if where == 'last' else '\n') + ''.join(l[at:])
    opts = [o for o in options(c) if o[1:2] in ('b', 'c', 'l', 'm', 'p', 'q', 'r', 's', 'S', 'g', 'z')]
    if delta == 'if':
        q = lemon.run(ctx, ctx.dir(), text, opts, asan=True)
        ctx.ev()
        want = before.count('\n') + 1
        if q.rc != 1 or 'line %d' % want not in q.errs:
            raise Violation('%r in line %d: status %d and %s' % (stmt, want, q.rc, q.errs[:300]), 'accepted')
    else:
        q = execute(ctx, opts, text)
        want = 0 if delta is None else before.count('\n') + 1 + delta
        if where == 'last' and msg == 'not finished':
            want = text.count('\n') + 1
        if q.rc != 1:
            raise Violation('lemon %s accepts %r in line %d' % (' '.join(opts), stmt, want), 'accepted')
        if not re.search(r'(?m)^in\.y:%d: .*%s' % (want, msg), q.errs):
            raise Violation('lemon %s: %r should be reported in line %d (%s); the messages are %s' % (' '.join(opts), stmt[:100], want, msg, q.errs[:500]), 'message')
    ctx.nontrivial('r' + text)
    ctx.label('wrong: ' + (msg or delta))


SPEC = dict(
    tests={
        'rich': (lambda c, x: run(c, x, rich_mut, 'rich'), 8000, 100000),
        'valid': (valid, 2500, 40000),
        'soup': (lambda c, x: run(c, x, soup, 'soup'), 3000, 80000),
        'reject': (reject, 1500, 40000),
    },
    setup=lambda tier: build.lemon(True),
    rule='a case is a grammar file (a generated one that uses most declarations, labels, marks, multi-terminals and code, with or without mutations, or token soup with '
         'boundary-length pieces and arbitrary bytes) and a random set of options, run with lemon built with AddressSanitizer and UBSan; checked: termination, status 0 or 1, '
         'a message for a rejected file, the file and an existing line in each diagnostic, status 1 after one, no other files; reject: a valid grammar with one wrong statement out of a catalogue, '
         'which must be rejected with its message and line; every case counts, distinct by content',
    assumptions=['one run of lemon takes less than 60 s on files below 40 kB', 'memory leaks are not violations'],
)
