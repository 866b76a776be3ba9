"""Y16: the EBNF export and the other listings contain exactly the rules of the grammar."""
import re
from vlib import byacc, export
from vlib.engine import Violation, Discard
from props.y14 import ctx_read

SEPS = {'ebnf': '::=', 'yn': ':', 'ypar': ':', 'ycbrt': ':'}


def merged(l):
    """neighbouring groups of one left-hand side put together"""
    out = []
    for a, t in l:
        if out and out[-1][0] == a:
            out[-1][1].extend(t)
        else:
            out.append((a, list(t)))
    return out


def parse(text, sep, V, ends):
    """[(lhs, [tokens of alternative])], as printed: NAME sep newline, alternatives on lines of their own"""
    out = []
    for l in text.split('\n'):
        if not l or (ends and l == '\t;'):
            continue
        m = re.match(r'(\S+) ' + re.escape(sep) + '$', l)
        if m:
            out.append((m.group(1), []))
        elif l[0] == '\t' and out:
            t = l[1:]
            if out[-1][1]:
                if t[:1] != '|':
                    V('no | in front of an alternative: %r' % l)
                t = t[1:]
            if t[:1] not in (' ', ''):
                V('strange line %r' % l)
            out[-1][1].append(t.strip())
        else:
            V('strange line %r' % l)
    return out


def listing(c, ctx):
    g = export.grammar(c)
    text, s = export.spec(c, g)
    var = c.pick(['btyacc', 'yacc'])
    kind = c.pick(['ebnf', 'ebnf', 'ebnf', 'yn', 'ypar', 'ycbrt'])
    opt = {'ebnf': c.pick(['-e', '--ebnf']), 'yn': c.pick(['-N', '--nakedq']), 'ypar': '-C', 'ycbrt': c.pick(['-c', '--carburetta'])}[kind]
    d = ctx.dir()
    p = byacc.yacc(ctx, var, d, text, [opt])

    def V(m):
        raise Violation('%s %s: %s' % (var, opt, m), kind)
    if p.rc:
        V('rejects the grammar: ' + p.errs[:500])
    out = ctx_read(d, 'y.' + kind)
    ctx.files['y.' + kind] = out
    term = set(s.names) | {'error'}
    lit = byacc.is_lit
    dot = lambda x: x.replace('.', '_')
    rank = {l: i for i, l in enumerate(sorted({l for l, a in s.prec.values()}), 1)}
    pc = lambda t: ' /*%d%s*/' % (rank[s.prec[t][0]], s.prec[t][1].upper()) if t in s.prec else ''
    want = merged((r.lhs, [(r.rhs, r.prec)]) for r in s.rules)
    head = ''
    body = out
    if kind in ('yn', 'ycbrt'):
        mark = {'yn': '%%', 'ycbrt': '%grammar%'}[kind]
        head, _, body = out.partition('\n' + mark + '\n')
        if kind == 'ycbrt':
            lines = body.split('\n')
            n = 0
            while not lines[n] or lines[n].startswith('%nt'):
                n += 1
            nts, body = '\n'.join(lines[:n]), '\n'.join(lines[n:])
            nl = re.findall(r'[^\s%]\S*', nts.replace('%nt', ' '))
            nl = [a for a, _ in merged((a, []) for a in nl)]
            x = [dot(a) for a, _ in want]
            if nl != x:
                V('%%nt lists %s instead of %s' % (nl, x))
    elif kind == 'ypar':
        lines = body.split('\n')
        n = 0
        while n < len(lines) and (lines[n][:1] == '#' or not lines[n]):
            n += 1
        head, body = '\n'.join(lines[:n]), '\n'.join(lines[n:])
    exp = []
    first = True
    for a, alts in want:
        t = []
        for rhs, pr in alts:
            w = []
            for x in rhs:
                if kind == 'ebnf':
                    w.append(x)
                elif x not in term:
                    w.append(x if kind == 'yn' else dot(x))
                elif kind == 'yn':
                    w.append((x if lit(x) else '<%s>' % x) + pc(x))
                elif kind == 'ycbrt':
                    w.append((x if x == 'error' else export.lemon_token(x)) + pc(x))
                else:
                    w.append((x if lit(x) else '"%s"' % x) + pc(x) * 2)
            if not w and (kind == 'ebnf' or not any(1 for r in g.rules if r.lhs == a and r.rhs and not [y for y in r.rhs if y[:2] != '$$'])):
                w = ['/*empty*/']
            if pr and kind != 'ebnf':
                q = pc(pr) if pr in s.prec else ' /*0U*/'
                w.append({'yn': '%%prec <%s>' % pr, 'ycbrt': '//%prec ' + pr, 'ypar': '#precedence ' + (pr if lit(pr) else '"%s"' % pr)}[kind] + q)
            t.append(' '.join(w))
        n = a
        if kind in ('ypar', 'ycbrt'):
            n = dot(a)
        exp.append((n, t))
    got = parse(body, SEPS[kind], V, kind != 'ebnf')
    if kind == 'ypar':
        n = [i for i, x in enumerate(got) if x[0] == dot(s.start) + '$']
        if len(n) != 1 or n[0] != [i for i, x in enumerate(got) if x[0].rstrip('$') == dot(s.start)][0]:
            V('the start symbol is not marked once, at its first group')
        got[n[0]] = (got[n[0]][0][:-1], got[n[0]][1])
    got = merged(got)
    if kind != 'ebnf':
        # an alternative with nothing but mid-rule actions may or may not be marked as empty
        f = lambda l: [(a, [re.sub(r'^/\*empty\*/ ?', '', x) for x in t]) for a, t in l]
        got, exp = f(got), f(exp)
    if got != exp:
        for x, y in zip(got + [None], exp + [None]):
            if x != y:
                break
        V('lists %s\ninstead of %s' % (x, y))
    ctx.ev(len(s.rules))
    if kind == 'ycbrt':
        x = sorted(export.lemon_token(t) for t in s.names if t != 'error')
        y = sorted(re.findall(r'(?m)^%token (\S+)$', head))
        if x != y:
            V('%%token lists %s instead of %s' % (y, x))
    if kind == 'yn':
        x = sorted(t for t in s.names if t != 'error')
        y = sorted(re.findall(r'(?m)^%token <(.*)>$', head))
        if x != y:
            V('%%token lists %s instead of %s' % (y, x))
    if kind == 'ypar' or kind == 'yn':
        byl = {}
        for t, (l, a) in s.prec.items():
            byl.setdefault(l, (a, []))[1].append(t)
        x = [(byacc.ASSOC[byl[l][0]][1:], sorted(byl[l][1])) for l in sorted(byl)]
        y = []
        for m in re.finditer(r'(?m)^[#%](left|right|nonassoc|precedence) /\*\d+\*/ (.*?)( ;)?$', head):
            y.append((m.group(1), sorted(t if lit(t) and kind == 'ypar' and t[0] == "'" else unwrap(t) for t in re.findall(r'''<(?:'(?:\\.[0-7]*|.)'|"(?:\\.|[^"])*"|[^>"'])+>|'(?:\\.[0-7]*|.)'|"(?:\\.|[^"])*"''', m.group(2)))))
        if kind == 'ypar':
            x = [(a, sorted(t if t[0] in '"\'' else t for t in ts)) for a, ts in x]
            y = [(a, sorted(t if t in s.names else '"%s"' % t for t in ts)) for a, ts in y]
        if x != y:
            V('precedence levels %s instead of %s' % (y, x))
    ctx.label(kind)
    if len(s.rules) > 2:
        ctx.nontrivial(kind + text)
    ctx.sample(out[:300])


def unwrap(t):
    return t[1:-1]


SPEC = dict(
    tests={'listing': (listing, 5000, 120000)},
    rule='a random grammar as for Y14 (mid-rule actions, empty rules, error rules, %prec, names of all kinds and lengths), exported by -e (half of the cases), '
         '-N, -C or -c; the listing is compared line by line with the alternatives of the grammar. Non-trivial: at least 3 rules; distinct by text',
    assumptions=['an alternative in front of which mid-rule actions stood may begin a new group', 'comments about precedence are part of -N, -C and -c output'],
)
