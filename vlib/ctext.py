"""random C-like text for code sections"""
import re

# fragments; %s places are filled below
STR = ['', 'a', '{', '}', '{{', '}}', "'", '\\"', '\\\\', '\\\\\\"', '/*', '*/', '//', '%%', '%}', '%{', '$$', '$1', '@$', '@1', ';', '[', ']', '\\n', '\\\n', 'x y', '|', '??', '%d', '\\0', '\x80']
CHR = ['a', '{', '}', '"', "\\'", '\\\\', ';', '$', '@', '%', '[', ']', '/', '*', '\\n', '\\x41', '\\377']
COM = ['', ' ', 'x', '{', '}', '"', "'", "it's", '/', '*', '**', '/*', '%%', '%}', '$$', '@1', '\\', ';', '//', ' a\n b ', '\n', '\n\n}']
LCOM = ['', ' ', 'x', '{', '}', '"', "'", "it's", '*/', '/*', '/', '*', '%%', '%}', '$$', ';', '* /', '\x80']
PLAIN = ['a', 'x1', '_y', 'a$b', 'a$$', 'q$1', '1', '0x1F', '+', '-', '%', ' / ', '*', '(', ')', '= ', '!=', '<<', '->', ',', '&', '?:', '~', '^', '.', '"', ' ', '\t', '\n', '  ', '\r\n', ':', '|', '#', '\x80']

ACTION, ACTION_B, PROLOGUE, RAW = 'action', 'action-b', 'prologue', 'raw'


def string(c):
    return '"' + ''.join(c.pick(STR) for _ in range(c.geo(4, 2, 3))) + '"'


def char(c):
    return "'" + c.pick(CHR) + "'"


def comment(c):
    t = ''.join(c.pick(COM) for _ in range(c.geo(4, 2, 3)))
    t = t.replace('*/', '* /')
    # a trailing * is fine, a leading / is not
    if t.startswith('/'):
        t = ' ' + t
    return '/*' + t + '*/'


def lcomment(c):
    t = ''.join(c.pick(LCOM) for _ in range(c.geo(4, 2, 3)))
    return '//' + t + '\n'


def text(c, kind, depth=0):
    o = []
    for _ in range(c.geo(6, 3, 4) if depth == 0 else c.geo(3, 1, 2)):
        k = c.weighted([(4, 's'), (3, 'c'), (2, 'C'), (2, 'L'), (6, 'p'), (2 if depth < 3 else 0, 'b')])
        if k == 's':
            o.append(string(c))
        elif k == 'c':
            o.append(char(c))
        elif k == 'C':
            o.append(comment(c))
        elif k == 'L':
            o.append(lcomment(c))
        elif k == 'b':
            b = c.pick(['{}', '()', '[]'] if kind != ACTION_B else ['{}', '()', '[]'])
            o.append(b[0] + text(c, kind, depth + 1) + b[1])
        else:
            x = c.pick([y for y in PLAIN if y != '"'])
            o.append(x)
        # what would run together into something else
        if o[-1][-1:] in '/*%$@#\\' or (len(o) > 1 and o[-1][:1] in '/*%}$@' and o[-2][-1:] in '/*%$@'):
            o.append(' ')
        if len(o) > 1 and o[-2][-1:] in '/%' and o[-1][:1] in '/*}':
            o[-1] = ' ' + o[-1]
    s = ''.join(o)
    if depth == 0:
        s = s.strip('\r\n') if kind != PROLOGUE else s.strip('\r\n\t ')
        if s.split('\n')[-1].find('//') >= 0:
            s += '\n'
        s = s + ' '
        # "# line" directives are not part of this
        s = re.sub(r'(?m)^(\s*#\s*)(?=line)', r'\1 x', s)
    return s


def tokens(t):
    """strings, constants and comments of a text"""
    return re.finditer(r'''(?s)"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|/\*.*?\*/|//[^\n]*''', t)


def copied(t):
    """what byacc makes of it: // comments become block comments"""
    def f(m):
        x = m.group(0)
        if x.startswith('//'):
            return '/*' + x[2:].replace('*/', '* /') + '*/'
        return x
    return re.sub(r'''(?s)"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|/\*.*?\*/|//[^\n]*''', f, t)
