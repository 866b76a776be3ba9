"""Reference LR parsing with explicit tables (no default reductions)."""


def conflict_free_actions(lr):
    """list of {term: action}; None if the grammar has a conflict"""
    out = []
    for q in range(lr.n):
        d = {}
        for t, l in lr.raw_actions(q).items():
            if len(l) > 1:
                return None
            d[t] = l[0]
        out.append(d)
    return out


def parse(lr, act, w, limit=20000):
    """(accepted, reductions, errpos): errpos = index of the offending token"""
    st = [0]
    i = 0
    red = []
    n = len(w)
    while True:
        t = w[i] if i < n else '$end'
        a = act[st[-1]].get(t)
        if a is None or a[0] == 'e':
            return False, red, i
        if a[0] == 's':
            st.append(a[1])
            i += 1
        elif a[0] == 'a':
            return True, red, i
        else:
            l, rhs = lr.rules[a[1]]
            if rhs:
                del st[-len(rhs):]
            st.append(lr.trans[st[-1]][l])
            red.append(a[1])
            if len(red) > limit:
                return None, red, i


def replay(g, red, w):
    """is `red` (1-based rule numbers) the reverse of a rightmost derivation of w?"""
    # expand from the start symbol, rightmost first, using the reductions backwards
    form = [g.start]
    out = []
    for r in reversed(red):
        while form and form[-1] not in g_nts(g):
            out.append(form.pop())
        if not form or g.rules[r - 1].lhs != form[-1]:
            return False
        form.pop()
        form.extend(g.rules[r - 1].rhs)
    while form:
        x = form.pop()
        if x in g_nts(g):
            return False
        out.append(x)
    out.reverse()
    return out == list(w)


def g_nts(g):
    s = getattr(g, '_ntset', None)
    if s is None:
        s = g._ntset = set(g.nts)
    return s


def inputs_for(c, g, nsent, nmut, depth=7, maxlen=50, exhaustive=0):
    """list of token-name lists"""
    out = []
    seen = set()

    def add(w):
        k = tuple(w)
        if k not in seen:
            seen.add(k)
            out.append(list(w))
    from .gram import mutate
    terms = g.terms
    base = []
    for _ in range(nsent):
        s = g.sentence(c, depth=c.int(2, depth), maxlen=maxlen)
        if s is not None and len(s) <= 400:
            base.append(s)
            add(s)
    for _ in range(nmut):
        if base and c.bool(5, 6):
            add(mutate(c, c.pick(base), terms)[:400])
        else:
            add([c.pick(terms) for _ in range(c.geo(8, 3, 4))])
    if exhaustive:
        level = [()]
        cnt = 0
        add([])
        while level and cnt < exhaustive:
            nx = []
            for w in level:
                for t in terms:
                    x = w + (t,)
                    add(x)
                    cnt += 1
                    nx.append(x)
                    if cnt >= exhaustive:
                        break
                if cnt >= exhaustive:
                    break
            level = nx
    return out


def parse_def(lr, R, w, limit=3000):
    """like parse, but with default reductions (which never ask for the look-ahead)"""
    st = [0]
    i = 0
    red = []
    n = len(w)
    steps = 0
    while True:
        q = st[-1]
        if q == lr.final and i >= n:      # the driver looks for the end of the input here
            return True, red, i
        if R.defred[q]:
            a = ('r', R.defred[q])
        else:
            a = R.act[q].get(w[i] if i < n else '$end')
        if a is None or a[0] == 'e':
            return False, red, i
        if a[0] == 's':
            st.append(a[1])
            i += 1
            steps = 0
        elif a[0] == 'a':
            return True, red, i
        else:
            l, rhs = lr.rules[a[1]]
            if rhs:
                del st[-len(rhs):]
            st.append(lr.trans[st[-1]][l])
            red.append(a[1])
            steps += 1
            if steps > limit:
                return None, red, i
