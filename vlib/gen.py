"""Grammar generators.  Everything is drawn from Choices, so grammars shrink."""
from .gram import Grammar, Rule

LITS = "'+' '-' '*' '/' '(' ')' ';x' '[' ']' '=' '<' '>' '!' '?' ':' '&' '|' '^' '~' '@' '#' '.' '$'".split()
LITS = ["'%s'" % ch for ch in "+-*/()[]=<>!?:&|^~@#.$,;{}abcxyz019 _%"]


class Names:
    """fresh symbol names"""

    def __init__(self, c, lits=True, tok='T', nt='n', style=0):
        self.c, self.lits, self.nt_i, self.t_i = c, lits, 0, 0
        self.tokp, self.ntp = tok, nt
        self.terms = []
        self.litpool = list(LITS) if lits else []

    def term(self):
        if self.litpool and self.c.bool(1, 3):
            t = self.litpool.pop(0)
        else:
            self.t_i += 1
            t = '%s%d' % (self.tokp, self.t_i)
        self.terms.append(t)
        return t

    def oldterm(self):
        if self.terms and self.c.bool(1, 2):
            return self.c.pick(self.terms)
        return self.term()

    def nt(self):
        self.nt_i += 1
        return '%s%d' % (self.ntp, self.nt_i)


def random_rules(c, nm, nterm, nnt, maxalt, maxlen, eps=True, pt=3):
    """unconstrained grammar; start symbol is the first nonterminal"""
    ts = [nm.term() for _ in range(nterm)]
    ns = [nm.nt() for _ in range(nnt)]
    rules = []
    seen = set()
    for i, a in enumerate(ns):
        k = c.int(1, maxalt)
        for j in range(k):
            ln = c.int(0 if eps else 1, maxlen)
            rhs = tuple(c.pick(ts) if c.draw(5) < pt else c.pick(ns) for _ in range(ln))
            if (a, rhs) in seen:
                continue
            seen.add((a, rhs))
            rules.append(Rule(a, rhs))
    return ns[0], rules


def random_grammar(c, nm=None, big=False):
    nm = nm or Names(c)
    if big:
        s, r = random_rules(c, nm, c.int(4, 12), c.int(5, 14), 4, 5)
    else:
        s, r = random_rules(c, nm, c.int(1, 4), c.int(1, 5), 3, 3)
    return Grammar(nm.terms, r, s)


def structured_rules(c, nm, n):
    """library of n constructs, each built on earlier ones; mostly LALR(1)"""
    rules = []
    pool = []

    def some():
        if pool and c.bool(3, 5):
            return pool[-1 - c.draw(min(3, len(pool)))]
        return nm.oldterm()

    def R(l, *rhs):
        rules.append(Rule(l, rhs))
    for _ in range(n):
        a = nm.nt()
        k = c.draw(17)
        if k == 0:      # bracketed
            R(a, nm.term(), some(), nm.oldterm())
        elif k == 1:    # left-recursive list
            x = some()
            R(a, x)
            R(a, a, x)
        elif k == 2:    # separated list
            x, s = some(), nm.oldterm()
            R(a, x)
            R(a, a, s, x)
        elif k == 3:    # right-recursive list
            x = some()
            R(a, x)
            R(a, x, a)
        elif k == 4:    # possibly empty list
            R(a)
            R(a, a, some())
        elif k == 5:    # option
            R(a)
            R(a, some())
        elif k == 6:    # keyword-led alternatives
            for _ in range(c.int(2, 4)):
                R(a, nm.term(), *[some() for _ in range(c.draw(3))])
        elif k == 7:    # layered expression
            op, at = nm.term(), nm.nt()
            R(a, a, op, at)
            R(a, at)
            op2 = nm.term()
            R(at, at, op2, nm.term()) if c.bool() else R(at, op2, at)
            R(at, some())
            if c.bool():
                R(at, nm.term(), a, nm.term())
        elif k == 8:    # sequence
            R(a, *[some() for _ in range(c.int(1, 4))])
        elif k == 9:    # the classic LALR-but-not-SLR shape
            L, X = nm.nt(), nm.nt()
            e, s, i = nm.term(), nm.term(), nm.oldterm()
            R(a, L, e, X)
            R(a, X)
            R(L, s, X)
            R(L, i)
            R(X, L)
        elif k == 10:   # nullable chain before a tail
            ns = [nm.nt() for _ in range(c.int(2, 4))]
            R(a, *(ns + ([some()] if c.bool() else [])))
            for x in ns:
                if c.bool(3, 4):
                    R(x)
                R(x, nm.term())
        elif k == 11:   # LR(1) but not LALR(1): becomes reduce/reduce
            A, B = nm.nt(), nm.nt()
            p, q, d, e, x = nm.term(), nm.term(), nm.term(), nm.term(), nm.term()
            R(a, p, A, d)
            R(a, p, B, e)
            R(a, q, A, e)
            if c.bool(1, 3):
                R(a, q, B, d)
            R(A, x)
            R(B, x)
        elif k == 12:   # right-nullable recursion (non-trivial includes SCC)
            b, t, u = nm.nt(), nm.term(), nm.oldterm()
            R(a, t, b)
            R(b, u, a, nm.oldterm()) if c.bool() else R(b, some())
            R(b)
        elif k == 13:   # unit chain
            b = nm.nt()
            R(a, b)
            R(b, some())
            if c.bool():
                R(a, nm.term())
        elif k == 14:   # mutual recursion through nullable tails
            b, e = nm.nt(), nm.nt()
            R(a, nm.term(), b)
            R(b, a, e) if c.bool() else R(b, e)
            R(b, nm.term())
            R(e)
            R(e, nm.term())
        elif k == 15:   # statement terminator
            R(a, some(), nm.oldterm())
            R(a, nm.term(), nm.oldterm(), some())
        else:           # common prefix
            x, y = nm.term(), some()
            R(a, x, y)
            R(a, x, y, nm.oldterm())
            R(a, x, x)
        pool.append(a)
    start = pool[-1]
    # make everything reachable from the last construct
    if len(pool) > 1 and c.bool(1, 2):
        s = nm.nt()
        for x in pool[-3:]:
            R(s, nm.term(), x)
        start = s
    # dedupe
    out, seen = [], set()
    for r in rules:
        k = (r.lhs, r.rhs)
        if k not in seen:
            seen.add(k)
            out.append(r)
    return start, out


def structured_grammar(c, nm=None, lo=1, hi=6):
    nm = nm or Names(c)
    s, r = structured_rules(c, nm, c.int(lo, hi))
    return Grammar(nm.terms, r, s)


def prune(g):
    """drop unreachable nonterminals and unused terminals"""
    reach = g.reachable()
    rules = [r for r in g.rules if r.lhs in reach]
    used = {s for r in rules for s in r.rhs}
    return Grammar([t for t in g.terms if t in used], rules, g.start, {t: p for t, p in g.prec.items() if t in used})


def prune_unproductive(g):
    p = g.productive()
    if g.start not in p:
        return None
    t = set(g.terms) | {'error'}
    rules = [r for r in g.rules if r.lhs in p and all(s in p or s in t for s in r.rhs)]
    g2 = Grammar(g.terms, rules, g.start, g.prec)
    return prune(g2)


def big_grammar(c, parts=None, nm=None, lits=True, lo=6, hi=40):
    """many independent constructs glued by distinct lead tokens: large tables"""
    nm = nm or Names(c, lits=lits)
    rules = []
    st = nm.nt()
    tops = []
    for _ in range(parts or c.int(lo, hi)):
        if c.bool(1, 4):
            s, r = random_rules(c, nm, c.int(1, 4), c.int(1, 4), 3, 3)
        else:
            s, r = structured_rules(c, nm, c.int(1, 5))
        rules += r
        lead = nm.term()
        tail = [nm.oldterm()] if c.bool() else []
        tops.append(Rule(st, [lead, s] + tail))
    if c.bool():
        tops.append(Rule(st, [st, nm.term(), st]) if c.bool(1, 6) else Rule(st, [st, nm.term()]))
    if c.bool():
        rules = tops + rules
    else:
        rules = rules + tops
    return Grammar(nm.terms, rules, st)


def expr_prec(c, nm=None, ops=None, assoc='lrn', unary=True, rule_prec=True):
    """ambiguous operator grammar disambiguated (partly) by precedence"""
    nm = nm or Names(c)
    e = nm.nt()
    rules = []
    prec = {}
    lv = 0
    n = ops or c.int(1, 5)
    toks = []
    level_tok = []
    for _ in range(n):
        t = nm.term()
        toks.append(t)
        if c.bool(5, 6):
            if not lv or c.bool(2, 3):
                lv += 1
                a = c.pick(assoc)
                level_tok.append(t)
            prec[t] = (lv, a)
    for t in toks:
        rules.append(Rule(e, [e, t, e]))
    if unary and c.bool():
        t = c.pick(toks)
        pt = None
        if rule_prec and c.bool():
            if c.bool():
                lv += 1
                pt = 'P%d' % lv
                prec[pt] = (lv, c.pick(assoc))
            else:
                pt = c.pick(toks)
        rules.append(Rule(e, [t, e], pt))
    if c.bool(1, 3):
        t = c.pick(toks)
        rules.append(Rule(e, [e, t]))
    if c.bool(1, 3):     # ternary
        a, b = nm.term(), nm.term()
        rules.append(Rule(e, [e, a, e, b, e]))
        if c.bool():
            lv += 1
            x = c.pick(assoc)
            prec[a] = (lv, x)
            prec[b] = (lv, x)
    if c.bool(2, 3):
        rules.append(Rule(e, [nm.term(), e, nm.term()]))
    if c.bool(1, 4):     # dangling else
        i, el = nm.term(), nm.term()
        rules.append(Rule(e, [i, e]))
        rules.append(Rule(e, [i, e, el, e]))
        if c.bool():
            lv += 1
            prec[i] = (lv, 'n')
            lv += 1
            prec[el] = (lv, 'n')
    rules.append(Rule(e, [nm.term()]))
    if c.bool(1, 4):
        f = nm.nt()
        rules.append(Rule(e, [f]))
        rules.append(Rule(f, [nm.oldterm()]))
    rules = c.shuffle(rules) if c.bool() else rules
    seen, out = set(), []
    for r in rules:
        if (r.lhs, r.rhs) not in seen:
            seen.add((r.lhs, r.rhs))
            out.append(r)
    if c.bool():
        s = nm.nt()
        out = [Rule(s, [e])] + out
        if c.bool():
            out.insert(1, Rule(s, [s, nm.term(), e]))
        return Grammar(nm.terms, out, s, prec)
    return Grammar(nm.terms, out, e, prec)


def context_grammar(c, nm=None):
    """phrases that begin alike, used in contexts that allow different subsets of them: many large kernels that agree in
    their first items, their sizes or the sums of their items"""
    nm = nm or Names(c)
    st = nm.nt()
    n, ncx = c.int(3, 8), c.int(3, 8)
    prefix = [nm.term() for _ in range(c.pick([1, 1, 1, 2]))]
    if c.bool(1, 5):
        x = nm.nt()
        rules0 = [Rule(x, [nm.term()])]
        prefix.append(x)
    else:
        rules0 = []
    ph, prs = [], []
    for _ in range(n):
        a = nm.nt()
        ph.append(a)
        tail = [nm.term()] + [nm.oldterm() for _ in range(c.pick([0, 0, 0, 1, 2]))]
        prs.append(Rule(a, prefix + tail))
        if c.bool(1, 8):
            prs.append(Rule(a, [nm.term()]))
    tops, seen = [], set()
    size = c.int(2, min(4, n))
    for _ in range(ncx):
        k = size if c.bool(3, 4) else c.int(1, n)
        sub = c.sample(ph, min(k, n))
        if c.bool() and ph[0] not in sub:
            sub[0] = ph[0]
        t = nm.term()
        for a in (sorted(sub, key=ph.index) if c.bool(3, 4) else sub):
            tops.append(Rule(st, [t, a] + ([nm.oldterm()] if c.bool(1, 8) else [])))
    if c.bool(1, 4):
        tops.append(Rule(st, [st, nm.term(), st]) if c.bool(1, 6) else Rule(st, [st, nm.term()]))
    tops = tops if c.bool(2, 3) else c.shuffle(tops)
    return Grammar(nm.terms, tops + prs + rules0 if c.bool() else prs + rules0 + tops, st)


def add_random_prec(c, g):
    """random precedence declarations and %prec marks on any grammar"""
    prec = {}
    lv = 0
    for t in c.shuffle(g.terms):
        if c.bool(1, 2):
            if not lv or c.bool():
                lv += 1
                a = c.pick('lrn')
            prec[t] = (lv, a)
    rules = []
    for r in g.rules:
        p = None
        if prec and c.bool(1, 8):
            p = c.pick(sorted(g.terms))
        rules.append(Rule(r.lhs, r.rhs, p))
    return Grammar(g.terms, rules, g.start, prec)


def add_midrules(c, g, num=1, den=3):
    """insert mid-rule actions: nonterminals $$n with an empty rule just before their rule"""
    rules = []
    n = 0
    for r in g.rules:
        rhs = list(r.rhs)
        if c.bool(num, den) and len(rhs) <= 12:
            for _ in range(1 + c.geo(2, 1, 4)):
                pos = c.draw(len(rhs) + 1)
                n_new = n + 1
                rhs.insert(pos, '$$?')
        k = 0
        for j, s in enumerate(rhs):
            if s == '$$?':
                n += 1
                rhs[j] = '$$%d' % n
                rules.append(Rule('$$%d' % n, []))
        rules.append(Rule(r.lhs, rhs, r.prec))
    return Grammar(g.terms, rules, g.start, g.prec)


def any_grammar(c, big=False, prec=True, mid=False, lits=None, unproductive=True):
    """mixture used by the checks about automata, conflicts and tables"""
    nm = Names(c, lits=c.bool(2, 3) if lits is None else lits)
    if big:
        g = big_grammar(c, nm=nm, lo=8, hi=45)
        if prec and c.bool():
            g = add_random_prec(c, g)
    else:
        k = c.draw(9)
        if k == 8:
            g = context_grammar(c, nm)
            if prec and c.bool(1, 3):
                g = add_random_prec(c, g)
        elif k < 2:
            g = structured_grammar(c, nm, 1, 7)
        elif k < 4:
            g = random_grammar(c, nm, big=c.bool(1, 3))
        elif k < 6 and prec:
            g = expr_prec(c, nm)
        else:
            g = random_grammar(c, nm) if c.bool() else structured_grammar(c, nm, 2, 6)
            if prec:
                g = add_random_prec(c, g)
    if not unproductive or c.bool(3, 4):
        g2 = prune_unproductive(g)
        if g2 is not None and g2.terms:
            keep = {r.prec for r in g2.rules if r.prec}
            g2.prec = {t: p for t, p in g.prec.items() if t in set(g2.terms) | keep}
            for r in g2.rules:
                if r.prec and r.prec not in g2.prec and r.prec not in g2.terms:
                    r.prec = None
            g = g2
        elif not unproductive:
            return None
    if c.bool(1, 6):
        g = Grammar(g.terms, c.shuffle(g.rules), g.start, g.prec)
    if mid and c.bool():
        g = add_midrules(c, g)
    return g


def bucket(n):
    for b in (8, 16, 32, 64, 128, 256, 512, 1024):
        if n <= b:
            return '<=%d' % b
    return '>1024'
