"""Specifications for the export checks: a grammar whose symbols get names of every
kind byacc accepts, dressed with declarations and actions that an export must leave out."""
import re
from . import byacc, gen
from .engine import Discard
from .gram import Grammar, Rule

ESCAPED = ["'\\n'", "'\\t'", "'\\\\'", "'\\''", "'\\a'", "'\\b'", "'\\f'", "'\\r'", "'\\v'", "'\\001'", "'\\033'", "'\\177'", "'\\200'", "'\\377'", "'\"'"]

CONTROL = 'SOH STX ETX EOT ENQ ACK BEL BS HT LF VT FF CR SO SI DLE DC1 DC2 DC3 DC4 NAK SYN ETB CAN EM SUB ESC FS GS RS US'.split()
_SHORT = {7: 'a', 8: 'b', 9: 't', 10: 'n', 11: 'v', 12: 'f', 13: 'r', 39: "'", 92: '\\'}
# every character literal as byacc writes it
CHARS = ["'\\%s'" % _SHORT[n] if n in _SHORT else "'%c'" % n if 32 <= n < 127 else "'\\%03o'" % n for n in range(1, 256)]


def rename(c, g, strings=True, escapes=True, long=True):
    """the same grammar with other names"""
    m = {}
    used = set(g.terms) | set(g.nts)
    pool = [] if not escapes else list(ESCAPED) if c.bool(2, 3) else list(CHARS)
    pool = [x for x in pool if x not in used]
    n = 0
    for t in g.all_terms():
        n += 1
        if byacc.is_lit(t):
            if pool and c.bool(1, 6 if len(pool) < 20 else 2):
                m[t] = pool.pop(c.draw(len(pool)))
                used.add(m[t])
            continue
        k = c.draw(12)
        if k < 4:
            continue
        elif k == 4:
            x = 'tok%d' % n
        elif k == 5:
            x = 'Tk.x.%d' % n
        elif k == 6:
            x = '_T%d' % n
        elif k == 7:
            x = '.t%d' % n
        elif k == 8 and strings:
            x = '"' + c.pick(['str %d', '<=%d', 'it\'s %d', 'a\\"b%d', '/*%d*/', '-%d', '%%{%d', ':%d;', 'x\\\\%d', '\\t%d', 'Kw%d']) % n + '"'
        elif k == 9 and long:
            x = 'T' * c.pick([30, 61, 62, 63, 64, 65, 66, 90, 200]) + str(n)
        elif k == 10:
            x = 'K$%d' % n
        else:
            x = 'T_%d' % n
        if x not in used:
            used.add(x)
            m[t] = x
    n = 0
    for a in g.nts:
        if a[:2] == '$$':
            continue
        n += 1
        k = c.draw(10)
        if k < 4:
            continue
        x = {4: 'Expr%d', 5: '_x%d', 6: '.y%d', 7: 'a.b.%d', 8: c.pick(['Z.z_%d', 'x$y%d'])}.get(k, 'w_%d') % n
        if k == 9 and long:
            x = c.pick('eE') * c.pick([30, 61, 62, 63, 64, 65, 66, 90, 200]) + str(n)
        if x not in used:
            used.add(x)
            m[a] = x
    r = lambda s: m.get(s, s)
    return Grammar([r(t) for t in g.terms], [Rule(r(x.lhs), [r(s) for s in x.rhs], x.prec and r(x.prec)) for x in g.rules],
                   r(g.start), {r(t): p for t, p in g.prec.items()})


def grammar(c, **kw):
    g = gen.any_grammar(c, mid=c.bool(1, 3))
    if g is None or not g.terms:
        raise Discard('no grammar')
    if c.bool(1, 4):
        # error productions
        rules = list(g.rules)
        i = c.draw(len(rules))
        if rules[i].lhs[:2] != '$$' and ('error',) not in [r.rhs for r in rules if r.lhs == rules[i].lhs]:
            rules.insert(i + 1, Rule(rules[i].lhs, ['error'] + ([c.pick(g.terms)] if c.bool() else [])))
            g = Grammar(g.terms, rules, g.start, g.prec)
    if kw.get('escapes', True) and c.bool(1, 8):
        # many characters
        have = set(g.terms)
        more = c.sample([x for x in CHARS if x not in have], c.int(3, 60))
        rules = list(g.rules)
        a = c.pick([r.lhs for r in rules if r.lhs[:2] != '$$'])
        for i in range(0, len(more), 2):
            rules.append(Rule(a, more[i:i + 2]))
        g = Grammar(g.terms + more, rules, g.start, g.prec)
    if c.bool():
        g = rename(c, g, **kw)
    return g


def stripped(g):
    """without mid-rule actions"""
    return Grammar(g.terms, [Rule(r.lhs, [s for s in r.rhs if s[:2] != '$$'], r.prec) for r in g.rules if r.lhs[:2] != '$$'], g.start, g.prec)


def spec(c, g, declare=True):
    """returns (text of a specification, grammar without mid-rule actions, with names = the tokens mentioned)"""
    o, toks = [], []
    if c.bool(1, 3):
        o.append('%{\nint prologue;\n%}\n')
    tags = c.bool(1, 3)
    if tags:
        o.append('%union { int i; char *s; }\n')
    num = 400
    for t in (c.shuffle(g.terms) if c.bool() else g.terms):
        n = ''
        if c.bool(1, 6):
            num += c.int(1, 30)
            n = ' %d' % num
        if not byacc.is_lit(t) or n or c.bool(1, 3):
            o.append('%token ' + (c.pick(['', '<i> ', '<s> ']) if tags else '') + t + n + '\n')
            toks.append(t)
    byl = {}
    for t, (l, a) in g.prec.items():
        byl.setdefault(l, (a, []))[1].append(t)
    for l in sorted(byl):
        a, ts = byl[l]
        o.append(byacc.ASSOC[a] + ' ' + ' '.join(ts) + '\n')
        toks += ts
    if tags:
        for x in g.nts:
            if x[:2] != '$$' and c.bool(1, 2):
                o.append('%type <' + c.pick('is') + '> ' + x + '\n')
    if c.bool(1, 6):
        o.append(c.pick(['%pure-parser\n', '%code { int q; }\n', '%debug\n']))
    if g.start != g.nts[0] or c.bool():
        o.append('%start ' + g.start + '\n')
    o.append('%%\n')
    acts = c.pick([0, 1, 3])

    def action(i, r):
        if r.lhs[:2] == '$$':
            return '{ M%d(); }' % i
        return '{ A(%d); }' % i if c.draw(3) < acts else ''
    o.append(byacc.rules_text(g, action))
    if c.bool():
        o.append('%%\nint epilogue;\n')
    text = ''.join(o)
    s = stripped(g)
    s.names = set(byacc.spec_terms(s)) | set(toks)
    return text, s


TOK = re.compile(r'''\s+|//[^\n]*|(?P<cm>/\*.*?\*/)|(?P<lit>'(?:\\.[0-7]*|[^\\])')|(?P<str>"(?:\\.|[^"\\])*")|(?P<dir>%%|%[\w-]+)|(?P<name>[\w.$]+)|(?P<p>::=|.)''', re.S)


def scan(text):
    """[(kind, text)] with comments kept as kind 'cm'"""
    out, at = [], 0
    while at < len(text):
        m = TOK.match(text, at)
        at = m.end()
        if m.lastgroup:
            out.append((m.lastgroup, m.group()))
    return out


ASCII = {i: n for i, n in enumerate(CONTROL, 1)}
ASCII.update({10: 'LF', 9: 'HT', 92: 'BACKSLASH', 39: 'SQUOTE', 7: 'BEL', 8: 'BS', 12: 'FF', 13: 'CR', 11: 'VT', 1: 'SOH', 27: 'ESC', 32: '32SPACE'})
for _ch, _n in zip('!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~', 'EXCLA DQUOTE POUND DOLLAR PERC AMPER SQUOTE LP RP ASTERISK PLUS COMMA HYPHEN PERIOD SLASH COLON SEMICOL LT EQ GT '
                   'QMARK AT LBRACKET BACKSLASH RBRACKET CARET UNDERSCORE GRAVE LBRACE VERTBAR RBRACE TILDE'.split()):
    ASCII[ord(_ch)] = _n


def lemon_token(t):
    """the name of a token in the lemon export"""
    if t[0] == "'":
        x = {'a': 7, 'b': 8, 'n': 10, 't': 9, 'f': 12, 'r': 13, 'v': 11, '\\': 92, "'": 39}
        n = ord(t[1]) if t[1] != '\\' else x[t[2]] if t[2] in x else int(t[2:-1], 8)
        return 'Tk_' + (str(n) if n >= 127 else ASCII.get(n) or chr(n))
    if t[0] == '"':
        return 'Tk_' + ''.join(ch if ch.isalnum() or ch == '_' else ASCII[ord(ch)] for ch in t[1:-1])
    if t[0] in '._':
        t = 'Tk__' + t[1:]
    elif t[0].islower():
        t = 'Tk_' + t
    return re.sub('[.$]', '_', t)


def lemon_nt(t):
    t = ('x' if t[0] == '.' else 'z' if t[0] == '_' else 'l_' if t[0].isupper() else '') + t
    return re.sub('[.$]', '_', t)
