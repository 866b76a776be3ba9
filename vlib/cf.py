"""conflict-free grammars"""
from . import gen, sim
from .gram import LR, Grammar
from .engine import Discard


def repair(g, rounds=5):
    """drop the rules of conflicting reductions until there is no conflict -> (g, lr, actions) or None"""
    for _ in range(rounds):
        if not g.terms:
            return None
        lr = LR(g)
        act = sim.conflict_free_actions(lr)
        if act is not None:
            return g, lr, act
        bad = set()
        for q in range(lr.n):
            for t, l in lr.raw_actions(q).items():
                if len(l) > 1:
                    bad.add(l[-1][1])
                    break
            if bad:
                break
        if 0 in bad:
            return None
        rules = [r for i, r in enumerate(g.rules, 1) if i not in bad]
        for _ in range(20):
            nts = {r.lhs for r in rules} | set(g.terms)
            r2 = [r for r in rules if all(s in nts for s in r.rhs)]
            if len(r2) == len(rules):
                break
            rules = r2
        if not any(r.lhs == g.start for r in rules):
            return None
        g = gen.prune_unproductive(Grammar(g.terms, rules, g.start))
        if g is None:
            return None
    return None


def grammar(c, nm=None, lits=None, mx=6):
    for _ in range(4):
        n = nm() if nm else gen.Names(c, lits=c.bool(2, 3) if lits is None else lits)
        g = gen.random_grammar(c, n) if c.bool(1, 3) else gen.structured_grammar(c, n, 1, mx)
        g = gen.prune_unproductive(g)
        if g is None or not g.terms:
            continue
        r = repair(g)
        if r:
            return r
    raise Discard('no conflict-free grammar')
