"""P13: tournaments pick, for every draw, the best of the drawn solutions."""

import itertools

import torch
from evotorch import Problem
from evotorch.operators import CrossOver, OnePointCrossOver

from mc import rng
from mc.ctx import require
from mc.util import plain, require_same, weak_orders

META = {
    "bounds": "populations of 1-4 solutions in every weak order of fitness (and pairs of them for two objectives), tournament sizes 1-3, 2 and 4 tournaments; every outcome of the draws (with 4 tournaments: up to 2 (thorough 3) non-default ones)",
    "assumptions": ["how the selected parents are paired is left open", "among equally good competitors any may win"],
}


class Selecting(CrossOver):
    """A recombination which only notes its parents."""

    def __init__(self, *args, **kw):
        super().__init__(*args, **kw)
        self.seen = None

    def _do_cross_over(self, parents1, parents2):
        self.seen = (parents1, parents2)
        return self._make_children_batch(torch.cat([parents1, parents2]))


def make(senses, evals, dtype=None, eval_dtype=None):
    n = len(evals)
    p = Problem(senses, lambda x: x.sum(), solution_length=2, initial_bounds=(0, 1), dtype=dtype or torch.float32, eval_dtype=eval_dtype)
    b = p.generate_batch(n)
    vals = torch.tensor([[10 * i, 10 * i + 1] for i in range(n)])
    b.set_values(vals.to(b.values.dtype))
    b.set_evals(torch.tensor(evals, dtype=torch.float64).to(b.evals.dtype))
    return p, b


def fronts(evals, senses):
    """Index of the non-dominated front of each solution (0 is the best)."""
    sign = [1 if s == "max" else -1 for s in senses]
    pts = [[s * v for s, v in zip(sign, e)] for e in evals]
    left = set(range(len(pts)))
    res = {}
    k = 0

    def dominates(a, b):
        return all(x >= y for x, y in zip(pts[a], pts[b])) and any(x > y for x, y in zip(pts[a], pts[b]))

    while left:
        front = [i for i in left if not any(dominates(j, i) for j in left)]
        for i in front:
            res[i] = k
        left -= set(front)
        k += 1
    return res


def select(ctx, senses, evals, k, t, obj_index, dtype=None, how="num_children", view=False):
    """evals: rows of fitnesses."""
    n = len(evals)
    if len(senses) > 1 and obj_index is None:
        level = {i: -f for i, f in fronts(evals, senses).items()}
    else:
        oi = obj_index or 0
        oi = oi if oi >= 0 else oi + len(senses)
        sg = 1 if senses[oi] == "max" else -1
        level = {i: sg * evals[i][oi] for i in range(n)}

    def run(chooser):
        p, b = make(list(senses), evals, dtype)
        if view:
            # the same population as a slice of a larger one, whose other members must not take part
            big = p.generate_batch(n + 2)
            big.set_values(torch.cat([plain(b.values) * 0 + 700, plain(b.values), plain(b.values) * 0 + 800])[n - 1 : 2 * n + 1])
            big.set_evals(torch.cat([plain(b.evals)[:1] * 0 + 99, plain(b.evals), plain(b.evals)[:1] * 0 - 99]))
            b = big[1 : n + 1]
        before = (plain(b.values), plain(b.evals))
        kw = {how: t} if how == "num_children" else {how: t / n}
        op = Selecting(p, tournament_size=k, obj_index=obj_index, **kw)
        o = rng.Oracle(chooser, span=n, uniforms=(0.0, 0.75))
        with rng.active(o):
            op(b)
        rows = torch.cat([plain(op.seen[0]), plain(op.seen[1])])
        require(len(op.seen[0]) == len(op.seen[1]) == t // 2, "%s and %s parents for %d children", len(op.seen[0]), len(op.seen[1]), t)
        winners = []
        for r in rows.tolist():
            i = int(r[0]) // 10
            require(0 <= i < n and r == [10 * i, 10 * i + 1], "a parent %s which is not in the population", r)
            winners.append(i)
        ints = [v % n for v in o.values("int")]
        if n == 1:
            return winners
        require(len(ints) == t * k, "%d draws for %d tournaments of %d", len(ints), t, k)
        drawn = [ints[i * k : (i + 1) * k] for i in range(t)]
        ok = [[w in d and level[w] == max(level[x] for x in d) for d in drawn] for w in winners]
        match = any(all(ok[w][d] for w, d in enumerate(perm)) for perm in itertools.permutations(range(t)))
        require(match, "parents %s of the tournaments %s with fitnesses %s", winners, drawn, evals)
        require_same(plain(b.values), before[0], "values of the population after the selection")
        require_same(plain(b.evals), before[1], "evaluations of the population after the selection")
        ctx.step(t)
        ctx.state(evals, senses, winners)
        return winners

    return run


def wins_everywhere(senses, evals, obj_index):
    """With tournaments over many draws the best always wins and any solution is drawn by some answer."""
    n = len(evals)
    reached = set()
    for first in itertools.product(range(n), repeat=2):
        p, b = make(list(senses), evals)
        op = Selecting(p, tournament_size=1, obj_index=obj_index, num_children=2)

        class Fixed(rng.Oracle):
            def index(self, m, kind):
                self.count += 1
                return first[(self.count - 1) % 2] % m if kind == "int" else 0

        with rng.active(Fixed(span=n)):
            op(b)
        rows = torch.cat([plain(op.seen[0]), plain(op.seen[1])])
        got = tuple(sorted(int(r[0]) // 10 for r in rows.tolist()))
        require(got == tuple(sorted(first)), "tournaments of one: %s drawn, %s selected", first, got)
        reached.update(got)
    require(reached == set(range(n)), "only %s are ever drawn among %d", sorted(reached), n)


def real_operator(ctx, evals, sense, k):
    """The same through a stock operator: every gene of a child comes from a tournament winner."""
    n = len(evals)

    def run(chooser):
        p, b = make([sense], [[e] for e in evals])
        op = OnePointCrossOver(p, tournament_size=k)
        o = rng.Oracle(chooser, span=12)
        with rng.active(o):
            kids = op(b)
        t = n + n % 2
        require(len(kids) == t, "%d children of %d solutions", len(kids), n)
        ints = o.values("int")
        drawn = [[v % n for v in ints[i * k : (i + 1) * k]] for i in range(t)]
        sg = 1 if sense == "max" else -1
        best = sorted({w for d in drawn for w in d if sg * evals[w] == max(sg * evals[x] for x in d)})
        genes = {int(v) // 10 for v in plain(kids.values).reshape(-1).tolist()}
        require(genes <= set(best), "genes of %s, but the tournaments %s are won by %s (fitnesses %s)", sorted(genes), drawn, best, evals)
        ctx.step()
        return [sorted(genes), best]

    return run


def run(ctx):
    deep = 3 if ctx.thorough else 2
    for n in (1, 2, 3, 4):
        for order in weak_orders(n):
            if n == 4 and not ctx.thorough and len(set(order)) not in (3, 4):
                continue
            for sense in ("max", "min"):
                evals = [[float(v) * 1.5 - 2] for v in order]
                for k in (1, 2, 3):
                    if n ** (2 * k) <= 300:
                        bound = None
                    else:
                        bound = deep + 1 if n == 3 else deep
                    desc = {"sense": sense, "evals": evals, "k": k, "t": 2}
                    ctx.explore("single objective", desc, select(ctx, (sense,), evals, k, 2, None), bound=bound)
                if n in (2, 3):
                    ctx.explore("more tournaments", {"sense": sense, "evals": evals, "t": 4}, select(ctx, (sense,), evals, 2, 4, 0), bound=deep)
    # fitnesses which are hard to tell apart or extreme
    for evals in ([1e8, 1e8 + 16, 1e8 - 16], [-1e-7, 0.0, 1e-7], [float("inf"), 1.0, -float("inf")], [3e38, -3e38, 0.0]):
        for sense in ("max", "min"):
            rows = [[e] for e in evals]
            ctx.explore("unusual fitness", {"sense": sense, "evals": str(evals)}, select(ctx, (sense,), rows, 2, 2, None))
    # two objectives: by one of them
    two = list(itertools.product((0.0, 1.0, 2.0), repeat=2))
    triples = list(itertools.combinations(two, 3)) if ctx.thorough else list(itertools.combinations(two, 3))[::3]
    for senses in itertools.product(("max", "min"), repeat=2):
        for evals in triples:
            rows = [list(e) for e in evals]
            for oi in (0, 1, -1, -2):
                if oi < 0 and evals != triples[0]:
                    continue
                desc = {"senses": senses, "evals": rows, "obj": oi}
                ctx.explore("one of two objectives", desc, select(ctx, senses, rows, 2, 2, oi), bound=deep + 1)
            ctx.explore("pareto", {"senses": senses, "evals": rows}, select(ctx, senses, rows, 2, 2, None), bound=deep + 1)
        chain = [[0.0, 0.0], [1.0, 1.0], [2.0, 0.5], [0.5, 2.0], [2.0, 2.0]]
        for k in (2, 3):
            ctx.explore("pareto", {"senses": senses, "evals": chain, "k": k}, select(ctx, senses, chain, k, 2, None), bound=deep)
    for evals in ([[0.0], [1.0], [2.0]], [[2.0], [0.0], [1.0]]):
        for sense in ("max", "min"):
            ctx.explore("slice of a population", {"sense": sense, "evals": evals}, select(ctx, (sense,), evals, 2, 2, None, view=True))
            for dtype in (torch.float64, torch.int64):
                ctx.explore("types", {"sense": sense, "evals": evals, "dtype": str(dtype)}, select(ctx, (sense,), evals, 2, 2, None, dtype=dtype), bound=2)
    for n in (1, 2, 3, 4):
        for sense in ("max", "min"):
            evals = [[float(i)] for i in range(n)]
            ctx.case("reach", {"n": n, "sense": sense}, wins_everywhere, (sense,), evals, None)
    for order in itertools.permutations((0.0, 1.0, 2.0)):
        for sense in ("max", "min"):
            for k in (2, 3):
                ctx.explore("stock operator", {"evals": order, "sense": sense, "k": k}, real_operator(ctx, list(order), sense, k), bound=deep - 1)
