"""Lemon grammars with multi-terminals and token classes."""
from .gram import Grammar, Rule
from . import lemon


class Multi:
    """base: a Grammar whose right-hand sides may name multi-terminals; alts: {name: [members]}; text: {name: how it is written}; classes: declared ones"""

    def __init__(self, c, g, num=1, den=4, most=60, fresh=()):
        self.alts, self.text, self.classes = {}, {}, {}
        pool = [t for t in g.terms if t != 'error']
        made, n = {}, 0
        fresh = list(fresh)      # tokens no rule names: classes of them do not overlap
        rules = []
        every = {} if fresh and c.bool(3, 4) else None     # each token is always or never in a class
        for r in g.rules:
            rhs, size = list(r.rhs), 1
            for i, s in enumerate(rhs):
                if every is not None and s in every:
                    x = every[s]
                    if x != s and size * len(self.alts[x]) <= most:
                        size *= len(self.alts[x])
                        rhs[i] = x
                    continue
                if every is not None:
                    every[s] = s
                if s in pool and len(pool) > 1 and c.bool(num, den):
                    k = c.pick([1, 1, 2, 3])
                    if len(fresh) >= k and c.bool(4, 5):
                        l, fresh = [s] + fresh[:k], fresh[k:]
                    else:
                        l = [s] + c.sample([t for t in pool if t != s and t not in fresh], k)
                    if c.bool(1, 3):
                        l = c.shuffle(l)
                    if size * len(l) > most:
                        continue
                    size *= len(l)
                    n += 1
                    key = tuple(l)
                    if key in made and c.bool():
                        rhs[i] = made[key]
                        continue
                    if c.bool(1, 3):
                        name = c.pick(['cls%d', 'any_%d', 'k%d']) % n
                        self.classes[name] = l
                        self.text[name] = name
                    else:
                        name = '?%d' % n
                        sep = c.pick(['|', '|', '/', ' |'])
                        self.text[name] = sep.join(l)
                    self.alts[name] = l
                    made[key] = name
                    rhs[i] = name
                    if every is not None:
                        every[s] = name
            rules.append(Rule(r.lhs, rhs, r.prec))
        self.g = Grammar(g.terms, rules, g.start, g.prec)
        self.c = c

    @classmethod
    def operators(cls, c):
        """an expression grammar whose operators are multi-terminals of tokens with and without precedences"""
        n = c.int(3, 8)
        ts = ['T%d' % i for i in range(1, n + 1)]
        pool = c.shuffle(ts)
        rules, alts, made = [Rule('s', ['e'])], {}, 0
        while pool:
            k = min(len(pool), c.pick([1, 2, 2, 3, 4]))
            l, pool = pool[:k], pool[k:]
            s = l[0]
            if k > 1:
                made += 1
                s = '?%d' % made
                alts[s] = l
            rhs = c.pick([['e', s, 'e']] * 3 + [[s, 'e'], ['e', s], ['e', s, 'ATOM', 'e'], ['e', 'ATOM', s, 'e']])
            mark = c.pick(ts + ['ATOM']) if c.bool(1, 8) else None
            rules.append(Rule('e', rhs, mark))
        rules.append(Rule('e', ['ATOM']))
        if c.bool(1, 4):
            rules.append(Rule('e', ['LP', 'e', 'RP']))
        k = c.int(1, 4)
        assoc = [c.pick('lrnp') for _ in range(k)]
        d = c.pick([2, 3, 5])
        prec = {t: x for t in ts if c.draw(d) for x in [c.draw(k)]}
        lv = sorted(set(prec.values()))
        prec = {t: (lv.index(x) + 1, assoc[x]) for t, x in prec.items()}
        terms = ts + ['ATOM'] + (['LP', 'RP'] if rules[-1].rhs[0] == 'LP' else [])
        M = cls(c, Grammar(terms, rules, 's', prec), 0, 1)
        for i, (s, l) in enumerate(sorted(alts.items())):
            if c.bool(1, 3):
                M.classes['cls%d' % i] = l
                M.text[s] = 'cls%d' % i
            else:
                M.text[s] = c.pick(['|', '|', '/', ' |']).join(l)
            M.alts[s] = l
        return M

    def rule_text(self, r, labels=None, lhs=None):
        return lemon.rule_text(Rule(r.lhs, [self.text.get(s, s) for s in r.rhs], r.prec), labels, lhs)

    def decls(self):
        c = self.c
        return ''.join('%%token_class %s %s.\n' % (n, c.pick(['|', ' ', ' |', '/']).join(l)) for n, l in self.classes.items())

    def precsym(self, r, yacc, u):
        """the token whose precedence lemon gives to the rule"""
        if u:
            return None
        if r.prec:
            return r.prec
        use = None
        ts = set(self.g.terms) - set(self.alts) - {'error'}
        for s in r.rhs:
            for x in self.alts.get(s, [s]):
                if x in ts or s in self.alts:
                    if yacc:
                        use = x
                    elif use is None and x in self.g.prec:
                        use = x
        return use if use in self.g.prec else None

    def expand(self, prec):
        """the plain grammar; prec(rule) -> its mark"""
        out = []
        for r in self.g.rules:
            todo = [[]]
            for s in r.rhs:
                todo = [p + [x] for p in todo for x in self.alts.get(s, [s])]
            out += [Rule(r.lhs, t, prec(r)) for t in todo]
        return Grammar([t for t in self.g.terms if t not in self.alts], out, self.g.start, self.g.prec)

    @property
    def terms(self):
        return [t for t in self.g.terms if t not in self.alts]
