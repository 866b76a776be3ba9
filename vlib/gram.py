"""Context-free grammars and reference algorithms written from the definitions:
nullable/FIRST, LR(0) automaton, LALR(1) look-ahead sets (data-flow fixpoint on
closure items), Earley recognition, sentence generation."""


class Rule:
    __slots__ = ('lhs', 'rhs', 'prec', 'extra')

    def __init__(self, lhs, rhs, prec=None, extra=None):
        self.lhs, self.rhs, self.prec, self.extra = lhs, tuple(rhs), prec, extra

    def __repr__(self):
        return '%s: %s%s' % (self.lhs, ' '.join(self.rhs), ' %%prec %s' % self.prec if self.prec else '')


class Grammar:
    def __init__(self, terms, rules, start=None, prec=None):
        self.terms = list(terms)          # without $end
        self.rules = list(rules)
        self.start = start or self.rules[0].lhs
        self.prec = dict(prec or {})      # term -> (level, 'l'|'r'|'n'|'p')
        self.nts = []
        seen = set()
        for r in self.rules:
            if r.lhs not in seen:
                seen.add(r.lhs)
                self.nts.append(r.lhs)
        self._min = None

    def all_terms(self):
        return self.terms + [t for t in self.prec if t not in set(self.terms)]

    def key(self):
        return repr((self.start, [(r.lhs, r.rhs, r.prec) for r in self.rules], sorted(self.prec.items())))

    def __str__(self):
        o = ['start %s' % self.start]
        if self.prec:
            o.append('prec %s' % self.prec)
        return '\n'.join(o + ['%3d %r' % (i + 1, r) for i, r in enumerate(self.rules)])

    def by_lhs(self):
        d = {}
        for i, r in enumerate(self.rules):
            d.setdefault(r.lhs, []).append(i)
        return d

    def nullable(self):
        n = set()
        ch = True
        while ch:
            ch = False
            for r in self.rules:
                if r.lhs not in n and all(s in n for s in r.rhs):
                    n.add(r.lhs)
                    ch = True
        return n

    def productive(self):
        t = set(self.terms) | {'error'}
        n = set()
        ch = True
        while ch:
            ch = False
            for r in self.rules:
                if r.lhs not in n and all(s in n or s in t for s in r.rhs):
                    n.add(r.lhs)
                    ch = True
        return n

    def reachable(self):
        by = self.by_lhs()
        seen = {self.start}
        todo = [self.start]
        while todo:
            a = todo.pop()
            for i in by.get(a, ()):
                for s in self.rules[i].rhs:
                    if s in by and s not in seen:
                        seen.add(s)
                        todo.append(s)
        return seen

    def minheight(self):
        """rule index -> height of its smallest derivation (None if unproductive)"""
        if self._min is not None:
            return self._min
        nt = {}
        rh = [None] * len(self.rules)
        isnt = set(self.nts)
        ch = True
        while ch:
            ch = False
            for i, r in enumerate(self.rules):
                h = 0
                for s in r.rhs:
                    if s in isnt:
                        if s not in nt:
                            h = None
                            break
                        h = max(h, nt[s])
                if h is None:
                    continue
                h += 1
                if rh[i] is None or h < rh[i]:
                    rh[i] = h
                    ch = True
                if r.lhs not in nt or h < nt[r.lhs]:
                    nt[r.lhs] = h
                    ch = True
        self._min = (rh, nt)
        return self._min

    def sentence(self, c, depth=6, maxlen=60, avoid=('error',)):
        """random derivation from the start symbol; None when it derives nothing"""
        rh, nth = self.minheight()
        if self.start not in nth:
            return None
        by = self.by_lhs()
        out = []
        steps = [0]
        stack = [(self.start, depth)]
        while stack:
            s, d = stack.pop()
            if s not in by:
                out.append(s)
                continue
            steps[0] += 1
            ok = [i for i in by[s] if rh[i] is not None]
            lim = d
            if steps[0] > 150 or len(out) > maxlen:
                lim = 0
            fit = [i for i in ok if rh[i] <= lim]
            if not fit:
                m = min(rh[i] for i in ok)
                fit = [i for i in ok if rh[i] == m]
            i = fit[c.draw(len(fit))] if len(fit) > 1 else fit[0]
            for t in reversed(self.rules[i].rhs):
                stack.append((t, d - 1))
            if len(out) > 4 * maxlen:
                return None
        return out


def mutate(c, s, terms):
    s = list(s)
    for _ in range(1 + c.geo(3, 1, 3)):
        k = c.draw(5)
        if k == 0 and s:
            del s[c.draw(len(s))]
        elif k == 1:
            s.insert(c.draw(len(s) + 1), c.pick(terms))
        elif k == 2 and s:
            s[c.draw(len(s))] = c.pick(terms)
        elif k == 3 and len(s) > 1:
            i = c.draw(len(s) - 1)
            s[i], s[i + 1] = s[i + 1], s[i]
        elif s:
            s = s[:c.draw(len(s) + 1)]
    return s


class Earley:
    def __init__(self, g):
        self.g = g
        self.rules = [(r.lhs, r.rhs) for r in g.rules]
        self.by = g.by_lhs()
        self.nullable = g.nullable()

    def accepts(self, w):
        rules, by, nullable = self.rules, self.by, self.nullable
        n = len(w)
        S = [set() for _ in range(n + 1)]
        start = [(i, 0, 0) for i in by.get(self.g.start, ())]
        S[0].update(start)
        waiting = [dict() for _ in range(n + 1)]   # set index -> nt -> items waiting
        done0 = None
        for k in range(n + 1):
            todo = list(S[k])
            predicted = set()
            completed = {}
            wk = waiting[k]
            while todo:
                it = todo.pop()
                r, d, o = it
                lhs, rhs = rules[r]
                if d < len(rhs):
                    s = rhs[d]
                    if s in by:
                        wk.setdefault(s, []).append(it)
                        if s not in predicted:
                            predicted.add(s)
                            for i in by[s]:
                                x = (i, 0, k)
                                if x not in S[k]:
                                    S[k].add(x)
                                    todo.append(x)
                        if s in nullable:
                            x = (r, d + 1, o)
                            if x not in S[k]:
                                S[k].add(x)
                                todo.append(x)
                    elif k < n and w[k] == s:
                        S[k + 1].add((r, d + 1, o))
                else:
                    for (r2, d2, o2) in list(waiting[o].get(lhs, ())):
                        x = (r2, d2 + 1, o2)
                        if x not in S[k]:
                            S[k].add(x)
                            todo.append(x)
            if k < n and not S[k + 1]:
                return False
        st = self.g.start
        return any(o == 0 and rules[r][0] == st and d == len(rules[r][1]) for r, d, o in S[n])


class LR:
    """LR(0) automaton with LALR(1) look-ahead sets of the augmented grammar
    (rule 0 is  $accept: start $end)."""

    def __init__(self, g, limit=4000):
        self.g = g
        self.rules = [('$accept', (g.start, '$end'))] + [(r.lhs, r.rhs) for r in g.rules]
        self.nts = ['$accept'] + g.nts
        ntset = set(self.nts)
        self.isnt = ntset
        self.terms = ['$end'] + g.terms
        self.tid = {t: i for i, t in enumerate(self.terms)}
        for _, rhs in self.rules:
            for s in rhs:
                if s not in ntset and s not in self.tid:
                    self.tid[s] = len(self.terms)
                    self.terms.append(s)
        self.by = {}
        for i, (l, _) in enumerate(self.rules):
            self.by.setdefault(l, []).append(i)
        self._first()
        self._lr0(limit)

    def _first(self):
        self.nullable = self.g.nullable()
        f = {n: 0 for n in self.nts}
        ch = True
        while ch:
            ch = False
            for l, rhs in self.rules:
                m = f[l]
                for s in rhs:
                    if s in self.isnt:
                        m |= f[s]
                        if s not in self.nullable:
                            break
                    else:
                        m |= 1 << self.tid[s]
                        break
                if m != f[l]:
                    f[l] = m
                    ch = True
        self.first = f

    def _lr0(self, limit):
        # predicted nonterminals of each nonterminal at the left edge
        clos = {}
        for n in self.nts:
            seen = [n]
            ss = {n}
            for a in seen:
                for i in self.by.get(a, ()):
                    rhs = self.rules[i][1]
                    if rhs and rhs[0] in self.isnt and rhs[0] not in ss:
                        ss.add(rhs[0])
                        seen.append(rhs[0])
            clos[n] = seen
        k0 = frozenset([(0, 0)])
        ids = {k0: 0}
        self.kernels = [k0]
        self.items = []
        self.trans = []
        i = 0
        while i < len(self.kernels):
            items = sorted(self.kernels[i])
            have = set(items)
            donent = set()
            for (r, d) in list(items):
                rhs = self.rules[r][1]
                if d < len(rhs) and rhs[d] in self.isnt:
                    for a in clos[rhs[d]]:
                        if a not in donent:
                            donent.add(a)
                            for j in self.by.get(a, ()):
                                if (j, 0) not in have:
                                    have.add((j, 0))
                                    items.append((j, 0))
            self.items.append(items)
            nx = {}
            for (r, d) in items:
                rhs = self.rules[r][1]
                if d < len(rhs):
                    nx.setdefault(rhs[d], []).append((r, d + 1))
            tr = {}
            for s, l in nx.items():
                if s == '$end':
                    continue
                k = frozenset(l)
                if k not in ids:
                    ids[k] = len(self.kernels)
                    self.kernels.append(k)
                    if len(self.kernels) > limit:
                        raise OverflowError('too many states')
                tr[s] = ids[k]
            self.trans.append(tr)
            i += 1
        self.n = len(self.kernels)
        self.final = self.trans[0].get(self.g.start)

    def lookaheads(self):
        """per state: {(rule,dot): mask of terminals} for all closure items"""
        if hasattr(self, 'la'):
            return self.la
        n = self.n
        la = [dict.fromkeys(it, 0) for it in self.items]
        # FIRST of suffixes
        suf = {}

        def first_suffix(r, d):
            k = (r, d)
            v = suf.get(k)
            if v is None:
                m, nul = 0, True
                for s in self.rules[r][1][d:]:
                    if s in self.isnt:
                        m |= self.first[s]
                        if s not in self.nullable:
                            nul = False
                            break
                    else:
                        m |= 1 << self.tid[s]
                        nul = False
                        break
                v = suf[k] = (m, nul)
            return v
        work = []
        inw = set()
        la[0][(0, 0)] = 0
        # edges computed on the fly
        for q in range(n):
            L = la[q]
            for (r, d) in self.items[q]:
                rhs = self.rules[r][1]
                if d < len(rhs) and rhs[d] in self.isnt:
                    m, _ = first_suffix(r, d + 1)
                    if m:
                        for j in self.by.get(rhs[d], ()):
                            L[(j, 0)] |= m
        work = [(q, it) for q in range(n) for it in self.items[q] if la[q][it]]
        inw = set(work)
        while work:
            x = work.pop()
            inw.discard(x)
            q, (r, d) = x
            m = la[q][(r, d)]
            rhs = self.rules[r][1]
            if d < len(rhs) and rhs[d] != '$end':
                s = rhs[d]
                t = self.trans[q][s]
                y = (r, d + 1)
                if m & ~la[t][y]:
                    la[t][y] |= m
                    if (t, y) not in inw:
                        inw.add((t, y))
                        work.append((t, y))
                if s in self.isnt and first_suffix(r, d + 1)[1]:
                    L = la[q]
                    for j in self.by.get(s, ()):
                        y = (j, 0)
                        if m & ~L[y]:
                            L[y] |= m
                            if (q, y) not in inw:
                                inw.add((q, y))
                                work.append((q, y))
        self.la = la
        return la

    def terms_of(self, mask):
        return [t for i, t in enumerate(self.terms) if mask >> i & 1]

    def raw_actions(self, q):
        """{term: [('s', target)] + [('r', rule)...]} unresolved; accept as ('a',)"""
        la = self.lookaheads()[q]
        act = {}
        for s, t in self.trans[q].items():
            if s not in self.isnt:
                act.setdefault(s, []).append(('s', t))
        if q == self.final:
            act.setdefault('$end', []).append(('a', 0))
        for (r, d) in self.items[q]:
            if d == len(self.rules[r][1]):
                m = la[(r, d)]
                i = 0
                while m:
                    if m & 1:
                        act.setdefault(self.terms[i], []).append(('r', r))
                    m >>= 1
                    i += 1
        for l in act.values():
            l.sort(key=lambda a: (a[0] != 's', a[0] != 'a', a[1]))
        return act

    def conflicts(self):
        return sum(1 for q in range(self.n) for l in self.raw_actions(q).values() if len(l) > 1)
