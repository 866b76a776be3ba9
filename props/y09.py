"""Y09: byacc handles any input file without crashing, hanging or corrupting memory."""
import os, re, glob
from vlib import byacc, gen, build
from vlib.engine import Violation, Discard
from vlib.gram import Grammar, Rule

KW = ['binary', 'code', 'debug', 'define', 'destructor', 'error-verbose', 'expect', 'expect-rr', 'ident', 'initial-action', 'left',
      'lex-param', 'locations', 'nonassoc', 'nterm', 'parse-param', 'precedence', 'pure-parser', 'right', 'start', 'term', 'token',
      'token-table', 'type', 'union', 'yacc', 'prec', 'empty', 'pure_parser', 'define api.pure', 'define lr.type', 'token 300',
      'code top', 'code requires', 'code provides', 'code imports', 'code nosuch']
BITS = ['%%', '%{', '%}', '{', '}', '[', ']', '(', ')', '<', '>', '<t>', '<>', '<*>', '|', ':', ';', '=', '%', '\\', '$', '@', '$$', '@$',
        '$1', '$-1', '$0', '$<t>1', '$<t>$', '$<t>-2', '$x', '$<t>x', '$99', '@1', '@-1', '@x', '@99', '"', "'", '/*', '*/', '//',
        "'a'", "'\\n'", "'\\0'", "'\\777'", "'\\xff'", "'\\x'", "'ab'", '"str"', '"\\""', '""', "''", 'error', '$end', '$accept', 'T1',
        'T2', 'A', 'x', 'y', 's', 'e', '0', '1', '255', '256', '257', '32767', '65536', '99999999999', '-1', '#', '\n', ' ', '\t', '\r',
        '\0', '\x80', '\xff', '\f', '\v', '%prec', '%empty', '%=', '%2', '\\>', '%<', '%>', '.', '_', '-', ',', 'yy', 'int', 'char *p',
        '(*f)(int)', 'a[3]', '?', "'\\''", '"/*"', "'/*'", '# line', '%token', '%left', '\\left', '\\token', '%0', '%term', '.hidden']
LONG = ['a', 'Tok', ' ', '(', '{', '}', '\n', '"', 'x y ', "'", '/', '$1', ':', '|', '<', '%', 'a,', 'int a, ', '\\', '.']


def long(c, sizes):
    p, n = c.pick(LONG), c.pick(sizes)
    # many symbols in one rule only make byacc slow
    return p * min(n, 300 if len(p) > 1 or not p.isalpha() and p not in ' .\n"({\\/\'<' else n)


def corpus():
    fs = sorted(glob.glob(build.REPO + '/byacc/test/*.y') + glob.glob(build.REPO + '/byacc/test/btyacc/*.y'))
    out = []
    for f in fs:
        with open(f, 'rb') as h:
            b = h.read()
        if len(b) < 9000:
            out.append(b.decode('latin-1'))
    return out


CORPUS = []


def options(c):
    o = []
    for f in 'BcCdEeginlLNPrsStvuyz':
        if c.bool(1, 5):
            o.append('-' + f)
    if c.bool(1, 3) and len(o) > 1:
        o = ['-' + ''.join(x[1] for x in o)]
    if c.bool(1, 8):
        o += ['-p', c.pick(['xx', 'a_b', '', 'z' * 300, '%s%n', '9'])]
    if c.bool(1, 8):
        o += ['-b', c.pick(['out', 'q', 'w' * 200])]
    if c.bool(1, 8):
        o += ['-o', c.pick(['r.c', 'r.tab.c', 'r', '.c', 'r.h', 'long' * 50 + '.c'])]
    if c.bool(1, 10):
        o += ['-H', 'def.h']
    if c.bool(1, 12):
        o.append(c.pick(['--verbose', '--defines', '--debug', '--graph', '--locations', '--name-prefix=zz', '--output=o.c', '--no-lines',
                         '--sql', '--lemon', '--naked', '--file-prefix=fp', '--x', '--=', '--output=', '--debug=1', '--v', '--']))
    return o


def pieces(c, n):
    """random token soup"""
    o = []
    for _ in range(n):
        k = c.draw(12)
        if k < 2:
            o.append('%' + c.pick(KW))
        elif k < 10:
            o.append(c.pick(BITS))
        elif k == 10:
            o.append(long(c, [3, 31, 64, 100, 255, 256, 257, 1000, 4096, 5000]))
        else:
            o.append(chr(c.draw(256)))
        o.append(c.pick(['', ' ', ' ', '\n']))
    return ''.join(o)


def mutate_text(c, s, other):
    for _ in range(1 + c.geo(2, 1, 6)):
        if not s:
            s = 's: ;'
        k = c.draw(11)
        i = c.draw(len(s) + 1)
        j = min(len(s), i + c.geo(6, 1, 60))
        if k == 0:
            s = s[:i] + s[j:]
        elif k == 1:
            s = s[:i] + pieces(c, c.int(1, 3)) + s[i:]
        elif k == 2:
            s = s[:i] + c.pick(BITS) + s[j:]
        elif k == 3:
            s = s[:i]
        elif k == 4:
            s = s[:j] + s[i:]
        elif k == 5:
            b = c.draw(len(other) + 1)
            s = s[:i] + other[b:b + c.int(1, 200)] + s[i:]
        elif k == 6:
            s = s[:i] + long(c, [50, 300, 1024, 4097, 9000]) + s[i:]
        elif k == 7:
            ls = s.split('\n')
            a = c.draw(len(ls))
            if c.bool():
                ls.insert(c.draw(len(ls) + 1), ls[a])
            else:
                del ls[a]
            s = '\n'.join(ls)
        elif k == 8:
            s = s.replace('\n', c.pick(['\r\n', '\r', '', ' ']))
        elif k == 9:
            ws = re.findall(r'\w+', s) or ['x']
            s = s.replace(c.pick(ws), c.pick(ws + BITS))
        else:
            s = s[:i] + '\n%' + c.pick(KW) + ' ' + pieces(c, 1) + '\n' + s[i:]
        if len(s) > 60000:
            s = s[:60000]
    return s


def rich(c):
    """a mostly valid specification using many features"""
    g = gen.any_grammar(c, mid=c.bool(1, 3))
    if g is None:
        raise Discard('none')
    o = []
    if c.bool():
        o.append('%%{\n%s\n%%}\n' % c.pick(['int a;', '#include <stdio.h>', '/* x */ char *s = "%}";', "char c = '\"';", '// it\'s', '']))
    if c.bool(1, 3):
        o.append('%union { int i; char *s; }\n')
    for _ in range(c.geo(3, 1, 2)):
        k = c.draw(14)
        t = c.pick(g.terms) if g.terms else 'A'
        n = c.pick(g.nts)
        o.append(c.pick([
            '%%type <i> %s\n' % n, '%%type <s> %s %s\n' % (n, t), '%%destructor { free($$); } %s\n' % n, '%destructor { f($$, @$); } <i> <*>\n',
            '%parse-param { int x }\n', '%parse-param { char *a[3], int (*f)(int) }\n', '%lex-param { void *p }\n', '%expect 3\n',
            '%expect-rr 1\n', '%locations\n', '%debug\n', '%pure-parser\n', '%token-table\n', '%error-verbose\n', '%yacc\n', '%ident "x y"\n',
            '%initial-action { @$ = 1; x = $$; }\n', '%code requires { struct z; }\n', '%code { int q; }\n', '%code top { /* } */ }\n',
            '%define api.pure\n', '%%token %s 300\n' % (t if not byacc.is_lit(t) else 'QQ'), '%%token <s> %s "alias"\n' % ('QR'),
            '%%nterm <i> %s\n' % n, '%%precedence %s\n' % t, '%%start %s\n' % n, '%%left <s> %s\n' % t]))

    def action(i, r):
        n = max(1, len(r.rhs))
        return c.pick(['', '', '{ $$ = $%d; }' % c.int(1, n), '{ @$ = @%d; }' % c.int(1, n), '{ $<i>$ = $<i>%d; }' % c.int(0, n),
                       '{ /* } */ x("}"); }', '= { y(); }', '{ $<s>-1; $0; }', "{ '}'; // it's }\n }", '[ YYVALID; ]', '{ if (a) { b; } }',
                       '{ ' + 'a' * c.draw(200) + ' }', '{$$ = $1 + $' + str(c.draw(200)) + ';}'])
    o.append(byacc.decls(g))
    o.append('%%\n')
    body = byacc.rules_text(g, action)
    if c.bool(1, 4):        # inherited attributes
        ns = [x for x in g.nts if x[:2] != '$$']
        n = c.pick(ns)
        body = re.sub(r'(?m)^%s$' % re.escape(n), n + c.pick(['(x)', '(x,y)', '(int a)', '(x<i>)', '($x, $y)', '($<i>a)', '()', '($a) ($b)']), body, count=c.int(1, 2))
        body = re.sub(r' %s\b' % re.escape(n), ' ' + n + c.pick(['(1)', '($1)', '(1,2)', '($1, "a")', '($<i>1, x(2))', '()', '(', '(($1))', "(')')"]), body, count=c.int(1, 3))
    o.append(body)
    if c.bool():
        o.append('%%\nint main(void) { return 0; } /* %% */\n')
    return ''.join(o)


ALLOWED = re.compile(r'.*\.(c|h|i|output|dot|ebnf|yl|yn|sql|unicc|carburetta|y|par|ycbrt|yebnf|y[a-z]+|txt)$|^r$|^o$')
SAN = {'ASAN_OPTIONS': 'detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=3000:handle_abort=1',
       'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99'}


def where(err):
    """(kind, function) of a sanitizer report"""
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err) or re.search(r'runtime error: (.{0,60})', err)
    kind = m.group(1) if m else 'signal'
    for m in re.finditer(r'#\d+ 0x[0-9a-f]+ in (\w+) (\S+?):(\d+)', err):
        if os.path.basename(m.group(2)) in SRC:
            return kind, m.group(1)
    return kind, '?'


SRC = {'closure.c', 'error.c', 'graph.c', 'lalr.c', 'lr0.c', 'main.c', 'mkpar.c', 'mstring.c', 'output.c', 'reader.c', 'symtab.c', 'verbose.c',
       'warshall.c', 'lemon.c'}


def execute(ctx, var, opts, text, stdin=False):
    d = ctx.dir()
    t = ctx.dir()
    ctx.write(d, 'in.y', text)
    ctx.files['in.y'] = text
    ctx.files['options'] = ' '.join(opts) + (' < in.y' if stdin else '')
    env = dict(SAN, TMPDIR=t)
    cmd = [byacc.tool(var, True)] + opts
    for to in (20, 60):
        p = ctx.run(cmd + ['-'] if stdin else cmd + ['in.y'], cwd=d, timeout=to, env=env, stdin_path=os.path.join(d, 'in.y') if stdin else None)
        if not p.timeout:
            break
    ctx.ev()
    if p.timeout:
        raise Violation('byacc (%s) %s does not terminate' % (var, ' '.join(opts)), 'hang')
    e = p.errs
    if p.rc not in (0, 1):
        k, f = where(e)
        raise Violation('byacc (%s) %s ended with status %d: %s in %s\n%s' % (var, ' '.join(opts), p.rc, k, f, e[:2500]), 'crash:' + f)
    if 'runtime error' in e:
        k, f = where(e)
        raise Violation('undefined behaviour: ' + e[:1500], 'ub:' + f)
    left = os.listdir(t)
    if left:
        raise Violation('temporary files left behind: %s' % left, 'temp')
    for n in os.listdir(d):
        if not ALLOWED.match(n):
            raise Violation('unexpected file %r left in the working directory' % n, 'stray')
    # "expected %locations" is only a warning, whatever its letter
    diag = [l for l in e.split('\n') if re.match(r'\S+: [ef] - ', l) and 'expected %locations' not in l]
    if p.rc == 1 and not e.strip():
        raise Violation('status 1 without any message', 'silent')
    if diag and p.rc == 0:
        raise Violation('an error is reported but the status is 0: ' + diag[0], 'status')
    if p.rc == 1 and not diag and 'conflict' not in e and 'sage:' not in e:
        raise Violation('status 1 without an error message:\n' + e[:600], 'status1')
    for l in diag:
        m = re.match(r'\S+: e - line (\d+) of "([^"]*)"', l)
        if m and not re.search(r'(?m)^#\s*(line\s*)?\d', text):
            n = text.count('\n') + 2
            if not 0 <= int(m.group(1)) <= n or (not stdin and m.group(2) != 'in.y'):
                raise Violation('the diagnostic names a wrong place: ' + l, 'place')
    ctx.label('accepted' if p.rc == 0 else 'rejected')
    ctx.label(var)
    return p


def run(c, ctx, make, kind):
    text = make(c)
    var = 'btyacc' if c.bool(3, 4) else 'yacc'
    opts = options(c)
    p = execute(ctx, var, opts, text, c.bool(1, 12))
    msgs = re.findall(r': [efw] - (?:line \d+ of "[^"]*", )?([a-zA-Z ]+)', p.errs)
    for m in set(msgs):
        ctx.label('message: ' + m[:40].strip())
    ctx.nontrivial(kind + text)
    if kind != 'rich':
        ctx.sample('%s\n%s' % (opts, text[:400]))


def corpus_case(c):
    if not CORPUS:
        CORPUS.extend(corpus())
    return mutate_text(c, c.pick(CORPUS), c.pick(CORPUS))


def rich_mut(c):
    s = rich(c)
    return mutate_text(c, s, s) if c.bool(2, 3) else s


def soup(c):
    if c.bool(1, 6):
        return ''.join(chr(c.draw(256)) for _ in range(c.draw(300)))
    return pieces(c, c.int(1, 12)) + c.pick(['\n%%\n', '', '%% ']) + pieces(c, c.int(0, 25)) + c.pick(['', '\n%%\n']) + pieces(c, c.int(0, 4))


SPEC = dict(
    tests={
        'corpus': (lambda c, x: run(c, x, corpus_case, 'corpus'), 4000, 60000),
        'rich': (lambda c, x: run(c, x, rich_mut, 'rich'), 4000, 60000),
        'soup': (lambda c, x: run(c, x, soup, 'soup'), 3000, 60000),
    },
    setup=lambda tier: (byacc.tool('btyacc', True), byacc.tool('yacc', True)),
    rule='a case is a grammar file (a mutated file of the repository\'s test directory, a generated specification using many features '
         'with or without mutations, or token soup with boundary-length pieces and arbitrary bytes), a random set of options, and the '
         'plain or btyacc build, run under AddressSanitizer and UBSan; checked: termination, status 0 or 1, a diagnostic for a '
         'rejected file with a line that exists, no temporary file left; every case counts, distinct by content',
    assumptions=['one run of byacc takes less than 60 s on files below 60 kB', 'memory leaks are not violations'],
)
