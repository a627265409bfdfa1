"""Concretisation of abstract alarms.

An obligation that the domain cannot discharge is reported only if the abstract
state really has a member that breaks it: an integer assignment to the base
quantities under which every path fact holds and the obligation fails.  (The
domain decides entailment over the rationals; without this step a fact that
holds only over the integers could raise a false alarm.)"""
import random
from terms import *

def base_atoms(ps):
    seen = set(); base = []
    work = [i for p in ps for i in p.atoms()]
    while work:
        i = work.pop()
        if i in seen: continue
        seen.add(i)
        a = Atom.byid[i]
        if a.fn in ("div", "mod", "signed"): work += list(a.args[0].atoms())
        else: base.append(i)
    return sorted(base)

class Env:
    def __init__(self, vals): self.v = vals; self.memo = {}
    def atom(self, i):
        if i in self.v: return self.v[i]
        r = self.memo.get(i)
        if r is None:
            a = Atom.byid[i]
            q = self.poly(a.args[0]); n = a.args[1]
            if a.fn == "div": r = q // n
            elif a.fn == "mod": r = q % n
            else:
                r = q % n
                if r >= n // 2: r -= n
            self.memo[i] = r
        return r
    def poly(self, p):
        t = p.c
        for k, c in p.m:
            x = c
            for i in k: x *= self.atom(i)
            t += x
        return t

def find(facts, seed=1, iters=600):
    """facts: list of alternatives-free constraints ('ge', p) / ('ne', p). dict or None"""
    ps = [p for _, p in facts]
    base = base_atoms(ps)
    if not base: return {} if all((p.c >= 0) if k == "ge" else p.c != 0 for k, p in facts) else None
    rng = random.Random(seed)
    lo = {i: Atom.byid[i].lo for i in base}; hi = {i: Atom.byid[i].hi for i in base}
    def clip(i, x):
        if lo[i] is not None and x < lo[i]: x = lo[i]
        if hi[i] is not None and x > hi[i]: x = hi[i]
        return x
    deps = {n: set(base_atoms([p])) for n, (_, p) in enumerate(facts)}
    def bad_of(vals):
        e = Env(vals); out = []
        for n, (k, p) in enumerate(facts):
            x = e.poly(p)
            if (k == "ge" and x < 0) or (k == "ne" and x == 0): out.append((n, x))
        return out
    def score(b): return (len(b), sum(min(-x, 1 << 40) if x < 0 else 1 for _, x in b))
    for start in range(6):
        if start == 0: vals = {i: clip(i, 0) for i in base}
        elif start == 1: vals = {i: clip(i, 1 << 20) for i in base}
        else: vals = {i: clip(i, rng.choice((0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 64, 255, 1 << 16, (1 << 31) + 5, 1 << 40))) for i in base}
        bad = bad_of(vals)
        for _ in range(iters // 6):
            if not bad: return {Atom.byid[i].name: vals[i] for i in base}
            n, x = rng.choice(bad)
            best = None
            for i in deps[n]:
                cur = vals[i]
                p = facts[n][1]
                # slope by finite difference over a period
                cands = set()
                for d in (1, -1, 2, -2, 3, -3, 4, -4, 8, -8): cands.add(clip(i, cur + d))
                w = dict(vals); w[i] = clip(i, cur + 1024)
                if w[i] == cur: w[i] = clip(i, cur - 1024)
                if w[i] != cur:
                    y = Env(w).poly(p)
                    if y != x:
                        step = (-x) * (w[i] - cur) / (y - x)
                        for d in range(-9, 10): cands.add(clip(i, int(cur + step) + d))
                if lo[i] is not None: cands.add(lo[i])
                if hi[i] is not None: cands |= {hi[i], clip(i, hi[i] - 1), clip(i, hi[i] - 3)}
                cands.discard(cur)
                for c in cands:
                    w = dict(vals); w[i] = c
                    b = bad_of(w); s = score(b)
                    if best is None or s < best[0]: best = (s, i, c, b)
            if best is None: break
            if best[0] >= score(bad) and rng.random() < 0.5:
                i = rng.choice(list(deps[n])); c = clip(i, vals[i] + rng.choice((1, -1, 4, -4, 16, 1 << 10)))
                vals = dict(vals); vals[i] = c; bad = bad_of(vals); continue
            vals = dict(vals); vals[best[1]] = best[2]; bad = best[3]
        if not bad: return {Atom.byid[i].name: vals[i] for i in base}
    return None

def of_states(states):
    """a witness for one of the (refined) states"""
    for s in states[:4]:
        w = find([("ge", f) for f in s.facts])
        if w is not None: return w
    return None
