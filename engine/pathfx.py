"""Path effects: which labelled events happen, and how often, on each class of paths of a function.

A state is (literals, counts): the truth of stable conditions that were decided on the path and, per label, the number
of events (capped at CAP). Calls of repository functions accepted by `inline` contribute the effects of their body, so
that an extracted helper changes nothing.
"""
from kit import *

CAP = 3

class PathFX:
    def __init__(self, prog, classify, inline=lambda f, n, callee: False, lit=None, ordered=False, maxstates=300, run_lambdas=None):
        self.prog, self.classify, self.inline, self.lit = prog, classify, inline, lit
        self.ordered = ordered
        self.max = maxstates
        self.memo, self.active = {}, set()
        self.run_lambdas = run_lambdas

    def add(self, c, label, k=1):
        if self.ordered:
            return c + (label,) if len(c) < 24 else c
        d = dict(c); d[label] = min(CAP, d.get(label, 0) + k)
        return tuple(sorted(d.items()))

    def merge(self, a, b):
        if self.ordered:
            return (a + b)[:24]
        d = dict(a)
        for l, k in b: d[l] = min(CAP, d.get(l, 0) + k)
        return tuple(sorted(d.items()))

    def effects(self, fn):
        u = fn['u']
        if u in self.memo: return self.memo[u]
        if u in self.active or 'cfg' not in fn: return {(frozenset(), ())}
        self.active.add(u)
        r = self._run(fn)
        self.active.discard(u)
        self.memo[u] = r
        return r

    def _run(self, fn):
        stable = self.lit(fn) if self.lit else stable_pred(fn)
        calls = {}
        def transfer(n, s):
            lits, cnt = s
            lab = self.classify(fn, n)
            if lab is not None:
                for l in (lab if isinstance(lab, (list, tuple)) else (lab,)):
                    cnt = self.add(cnt, l)
                return ((lits, cnt),)
            sub = None
            if n['k'] in CALLS:
                f2 = fn_of(self.prog, n)
                if f2 is not None and self.inline(fn, n, f2):
                    sub = self.effects(f2)
                    same = n['k'] == 'MCall' and n['c'][0] is not None and strip(n['c'][0])['k'] == 'This'
                elif self.run_lambdas and self.run_lambdas(fn, n):
                    sub = set()
                    for a in args(n):
                        a = strip(a)
                        if isinstance(a, dict) and a['k'] == 'Lambda':
                            for b in lambda_bodies(self.prog, fn, a):
                                sub |= self.effects(b)
                    same = True
                    if not sub: sub = None
            if sub is None: return (s,)
            out = set()
            for l2, c2 in sub:
                ll = frozenset(l for l in l2 if same and l[0].startswith('this.')) if l2 else l2
                if any((a, not b) in lits for a, b in ll): continue
                out.add((lits | ll, self.merge(cnt, c2)))
            return out or (s,)
        def edge(blk, i, s):
            lit = branch_literal(fn, blk, i, stable, self.prog)
            if lit is None: return s
            lits, cnt = s
            if (lit[0], not lit[1]) in lits: return None
            return (lits | {lit}, cnt)
        widen = lambda s: (frozenset(), s[1])
        _, ex = forward(fn, (frozenset(), ()), transfer, edge, limit=self.max, widen=widen)
        return ex
