"""P11: a quality-diversity archive never loses a niche nor a niche's champion."""

import itertools
import math

import torch
from evotorch import Problem
from evotorch.algorithms import MAPElites
from evotorch.operators import GaussianMutation, OnePointCrossOver

from mc import rng
from mc.ctx import require
from mc.util import plain, raises, require_same

INF = math.inf

META = {
    "bounds": "archives of 1-6 cells over 1-2 features (hand-made grids with gaps, overlaps and shared edges, and generated ones), 3 (thorough 4) generations of 1-4 children, initial population and children chosen among 8 coded solutions with tied and infinite fitnesses and features on cell edges, up to 2 (thorough 3) non-default choices; stock operators under a scripted random source",
    "assumptions": ["a feature on the edge of a cell fits in that cell", "fitnesses and features are not NaN", "the contents of a cell that is not marked as filled mean nothing"],
}

# code -> fitness, feature 0, feature 1
TABLE = [
    [3.0, -2.0, 0.0],
    [1.0, 0.0, 0.5],
    [4.0, 0.5, 1.0],
    [1.0, 1.0, -1.0],
    [-5.0, 1.5, 2.0],
    [2.0, 3.0, 0.0],
    [INF, 1.0, 0.5],
    [-INF, 0.25, -2.0],
]
K = len(TABLE)


class Coded(Problem):
    def __init__(self, sense, nfeat, choose, dtype=torch.float64, finite=False):
        super().__init__(sense, solution_length=2, initial_bounds=(0, 1), dtype=torch.float32, eval_dtype=dtype, eval_data_length=nfeat)
        self.choose = choose
        self.nfeat = nfeat
        self.made = []

    def _fill(self, values):
        for i in range(len(values)):
            c = self.choose(i)
            values[i, 0], values[i, 1] = c, c + 10

    def _evaluate_batch(self, batch):
        rows = codes(batch.values)
        self.made.extend(rows)
        e = torch.tensor([TABLE[c][: 1 + self.nfeat] for c in rows], dtype=torch.float64)
        batch.set_evals(e[:, :1].to(batch.evals.dtype), e[:, 1:].to(batch.evals.dtype))


def codes(values):
    rows = plain(values).tolist()
    for r in rows:
        require(r[1] == r[0] + 10 and 0 <= r[0] < K, "a row %s that nobody made", r)
    return [int(r[0]) for r in rows]


def fits(c, cell):
    return all(lo <= f <= hi for f, (lo, hi) in zip(TABLE[c][1:], cell))


def judge(alg, grid, sense, produced, what):
    pop = alg.population
    require(len(pop) == len(grid), "%s: %d rows for %d cells", what, len(pop), len(grid))
    cs = codes(pop.values)
    filled = plain(alg.filled)
    require(filled.shape == (len(grid),) and filled.dtype == torch.bool, "%s: filled is %s", what, filled)
    e = plain(pop.evals).to(torch.float64)
    sg = 1 if sense == "max" else -1
    for i, cell in enumerate(grid):
        cand = [c for c in produced if fits(c, cell)]
        require(bool(filled[i]) == bool(cand), "%s: cell %d %s is marked filled=%s, but the solutions %s fit in it", what, i, cell, bool(filled[i]), sorted(set(cand)))
        if not cand:
            continue
        require(e[i].tolist() == TABLE[cs[i]][: e.shape[1]], "%s: cell %d holds solution %d with evaluations %s", what, i, cs[i], e[i].tolist())
        require(fits(cs[i], cell), "%s: solution %d does not fit in its cell %s", what, cs[i], cell)
        best = max(sg * TABLE[c][0] for c in cand)
        require(sg * TABLE[cs[i]][0] == best, "%s: cell %d holds fitness %s, the best seen is %s", what, i, TABLE[cs[i]][0], sg * best)
    return cs, filled.tolist()


GRIDS = {
    "one cell": [[(-INF, INF)]],
    "edges": [[(-INF, 0.0)], [(0.0, 1.0)], [(1.0, INF)]],
    "gap": [[(-3.0, -1.0)], [(0.25, 0.5)], [(2.5, 9.0)]],
    "overlap": [[(-INF, 1.0)], [(0.0, 2.0)], [(0.5, INF)], [(1.0, 1.0)]],
    "nothing fits": [[(50.0, 60.0)], [(0.0, 1.0)]],
    "two features": [[(a, b), (c, d)] for a, b in ((-INF, 0.5), (0.5, INF)) for c, d in ((-INF, 0.0), (0.0, 0.75), (0.75, INF))],
    "two features, gap": [[(0.0, 1.0), (-1.0, 0.5)], [(1.0, 2.0), (0.0, 9.0)]],
}


def archive(ctx, gname, sense, num, opts, gens, dtype=torch.float64, kind="function"):
    grid = GRIDS[gname]
    nfeat = len(grid[0])

    def run(chooser):
        prob = Coded(sense, nfeat, lambda i: (i * 3 + 1 + chooser.choose(K, "initial")) % K, dtype=dtype)
        made = []
        n = [0]

        def children(values):
            out = []
            for _ in range(num):
                n[0] += 1
                out.append((n[0] * 7 // 2 + chooser.choose(K, "child")) % K)
            made.extend(out)
            return torch.tensor([[c, c + 10] for c in out], dtype=torch.float32)

        alg = MAPElites(prob, operators=[children], feature_grid=torch.tensor(grid, dtype=torch.float64), **opts)
        require(len(alg.population) == len(grid), "initial population of %d for %d cells", len(alg.population), len(grid))
        produced = codes(alg.population.values)
        trail = []
        for t in range(gens):
            alg.step()
            produced += made
            made.clear()
            trail.append(judge(alg, grid, sense, produced, f"generation {t + 1}"))
            ctx.step()
            ctx.state(gname, sense, trail[-1])
        return trail

    return run


def drifting(ctx, gname, sense, opts, gens):
    """Objectives that change: re-evaluated cells are judged by their latest evaluations."""
    grid = GRIDS[gname]
    nfeat = len(grid[0])

    def run(chooser):
        shift = [0]

        class Drifting(Coded):
            def _evaluate_batch(self, batch):
                e = torch.tensor([TABLE[(c + shift[0]) % K][: 1 + self.nfeat] for c in codes(batch.values)], dtype=torch.float64)
                batch.set_evals(e[:, :1], e[:, 1:])

        prob = Drifting(sense, nfeat, lambda i: (i * 3 + 1) % K)
        made = []
        n = [0]

        def children(values):
            n[0] += 1
            c = (n[0] * 3 + chooser.choose(K, "child")) % K
            made.append(c)
            return torch.tensor([[c, c + 10]], dtype=torch.float32)

        alg = MAPElites(prob, operators=[children], feature_grid=torch.tensor(grid, dtype=torch.float64), **opts)
        parents = codes(alg.population.values)
        trail = []
        sg = 1 if sense == "max" else -1
        for t in range(gens):
            shift[0] = (shift[0] + chooser.choose(K, "drift")) % K
            alg.step()
            cands = [(c + shift[0]) % K for c in parents + made]
            made.clear()
            cs = [(c + shift[0]) % K for c in codes(alg.population.values)]
            filled = plain(alg.filled).tolist()
            e = plain(alg.population.evals).tolist()
            what = f"generation {t + 1}"
            for i, cell in enumerate(grid):
                inside = [c for c in cands if fits(c, cell)]
                if inside:
                    require(filled[i], "%s: cell %d is not filled, though %s fit in it", what, i, inside)
                if filled[i]:
                    require(fits(cs[i], cell), "%s: cell %d %s is marked as filled, its solution has the features %s", what, i, cell, TABLE[cs[i]][1:])
                    require(e[i] == TABLE[cs[i]][: 1 + nfeat], "%s: cell %d has the evaluations %s instead of %s", what, i, e[i], TABLE[cs[i]])
                    require(not inside or sg * e[i][0] >= max(sg * TABLE[c][0] for c in inside), "%s: cell %d is not the best", what, i)
            parents = [c for c, on in zip(codes(alg.population.values), filled) if on]
            trail.append((cs, filled))
            ctx.step()
            ctx.state("drift", gname, sense, trail[-1])
        return trail

    return run


class Real(Problem):
    def __init__(self, sense):
        super().__init__(sense, solution_length=2, bounds=(-2.0, 3.0), dtype=torch.float64, eval_dtype=torch.float64, eval_data_length=2)
        self.rows = []

    def _evaluate_batch(self, batch):
        x = plain(batch.values)
        self.rows.extend(x.tolist())
        batch.set_evals(self.f(x)[:, :1], self.f(x)[:, 1:])

    def f(self, x):
        return torch.stack([x[:, 0] * 1.5 - x[:, 1] ** 2, x[:, 0] + x[:, 1], x[:, 1] * 2], dim=1)


def stock(ctx, sense, ops, re_evaluate, bins):
    def run(chooser):
        prob = Real(sense)
        sg = 1 if sense == "max" else -1
        o = rng.Oracle(chooser, span=12)
        grid = MAPElites.make_feature_grid([-1.0, -2.0], [3.0, 4.0], bins, dtype=torch.float64)
        with rng.active(o):
            kinds = {
                "gauss": lambda: [GaussianMutation(prob, stdev=0.7)],
                "cross": lambda: [OnePointCrossOver(prob, tournament_size=2), GaussianMutation(prob, stdev=0.3)],
            }
            alg = MAPElites(prob, operators=kinds[ops](), feature_grid=grid, re_evaluate=re_evaluate)
            seen = plain(alg.population.values).tolist()
            for t in range(2):
                alg.step()
                seen += prob.rows
                prob.rows = []
                x = torch.tensor(seen, dtype=torch.float64)
                e = prob.f(x)
                px, pe, filled = plain(alg.population.values), plain(alg.population.evals), plain(alg.filled)
                for i in range(len(grid)):
                    inside = ((e[:, 1:] >= grid[i, :, 0]) & (e[:, 1:] <= grid[i, :, 1])).all(dim=1)
                    require(bool(filled[i]) == bool(inside.any()), "generation %d: cell %d filled=%s", t + 1, i, bool(filled[i]))
                    if not bool(filled[i]):
                        continue
                    require_same(pe[i], prob.f(px[i : i + 1])[0], f"generation {t + 1}: evaluations in cell {i}", tol=1e-9)
                    require(px[i].tolist() in seen, "generation %d: unknown solution in cell %d", t + 1, i)
                    require_same(pe[i, 0], sg * (sg * e[inside, 0]).max(), f"generation {t + 1}: fitness in cell {i}", tol=1e-9)
                ctx.step()
                ctx.state(px, filled)
        return px, filled

    return run


def grids(lb, ub, bins, dtype):
    """The cells tile the whole space, each feature being cut at equal distances."""
    g = MAPElites.make_feature_grid(lb, ub, bins, dtype=dtype)
    require(g.dtype == dtype, "a grid of type %s instead of %s", g.dtype, dtype)
    nb = [bins] * len(lb) if isinstance(bins, int) else list(bins)
    require(g.shape == (math.prod(nb), len(lb), 2), "a grid of shape %s for bins %s", tuple(g.shape), nb)
    cells = [tuple(map(tuple, c)) for c in g.tolist()]
    require(len(set(cells)) == len(cells), "repeated cells")
    for j in range(len(lb)):
        bins_j = sorted({c[j] for c in cells})
        require(len(bins_j) == nb[j], "%d bins of feature %d instead of %d", len(bins_j), j, nb[j])
        require(bins_j[0][0] == -INF and bins_j[-1][1] == INF, "feature %d is not covered: %s", j, bins_j)
        for a, b in zip(bins_j, bins_j[1:]):
            require(a[1] == b[0], "a gap between the bins %s and %s", a, b)
        inner = [b[1] for b in bins_j[:-1]]
        if len(inner) >= 2:
            eps = torch.finfo(dtype).eps * 4
            exp = [lb[j] + (ub[j] - lb[j]) * k / (len(inner) - 1) for k in range(len(inner))]
            for a, b in zip(inner, exp):
                require(abs(a - b) <= eps * max(1, abs(lb[j]), abs(ub[j])), "the edges of feature %d are %s, not %s", j, inner, exp)


def misuse():
    t = torch.tensor
    bad = {
        "lists": lambda: MAPElites.make_feature_grid([0.0], [1.0], 3),
        "types": lambda: MAPElites.make_feature_grid(t([0.0]), t([1.0], dtype=torch.float64), 3),
        "shapes": lambda: MAPElites.make_feature_grid(t([0.0, 1.0]), t([1.0]), 3),
        "dims": lambda: MAPElites.make_feature_grid(t([[0.0]]), t([[1.0]]), 3),
        "objectives": lambda: MAPElites(Problem(["min", "max"], lambda x: x, solution_length=2, initial_bounds=(0, 1), eval_data_length=1), operators=[lambda x: x], feature_grid=t([[[0.0, 1.0]]])),
        "no operators": lambda: MAPElites(Coded("min", 1, lambda i: 0), operators=[], feature_grid=t([[[0.0, 1.0]]])),
    }
    for k, f in bad.items():
        require(raises(f) is not None, "%s accepted", k)
    g = MAPElites.make_feature_grid(t([0.0]), t([2.0]), 4)
    require_same(g, t([[[-INF, 0.0]], [[0.0, 1.0]], [[1.0, 2.0]], [[2.0, INF]]]), "grid of 4 bins over [0, 2]")


def run(ctx):
    gens = 4 if ctx.thorough else 3
    bound = 3 if ctx.thorough else 2
    options = [{"re_evaluate": True}, {"re_evaluate": False}, {"re_evaluate": True, "re_evaluate_parents_first": True}]
    for gname in GRIDS:
        for sense in ("max", "min"):
            for num in (1, 2, 4):
                for opts in options:
                    b = bound if num == 1 and len(GRIDS[gname]) <= 3 else bound - 1
                    desc = {"grid": gname, "sense": sense, "children": num, "opts": opts}
                    ctx.explore("archive", desc, archive(ctx, gname, sense, num, opts, gens), bound=b)
        ctx.explore("float32", {"grid": gname}, archive(ctx, gname, "max", 2, {}, 2, dtype=torch.float32), bound=bound - 1)
    for sense in ("max", "min"):
        for ops in ("gauss", "cross"):
            for re_evaluate in (True, False):
                for bins in (2, 3, [2, 1]):
                    desc = {"sense": sense, "ops": ops, "re_evaluate": re_evaluate, "bins": bins}
                    ctx.explore("stock operators", desc, stock(ctx, sense, ops, re_evaluate, bins), bound=1 if bins != 3 or ctx.thorough else 0)
    for gname in GRIDS:
        for sense in ("max", "min"):
            for opts in (options[0], options[2]):
                ctx.explore("drifting", {"grid": gname, "sense": sense, "opts": opts}, drifting(ctx, gname, sense, opts, gens), bound=bound)
    for dtype in (torch.float32, torch.float64, torch.float16):
        for lb, ub in (([0.0], [1.0]), ([0.1], [0.7]), ([-3.0, 0.1], [5.0, 0.3]), ([0.0, 0.0, 0.0], [1.0, 2.0, 3.0])):
            for bins in (1, 2, 3, 4, 5, [2, 3, 4][: len(lb)]):
                ctx.case("grids", {"lb": lb, "ub": ub, "bins": bins, "dtype": str(dtype)}, grids, lb, ub, bins, dtype)
    ctx.case("misuse", {}, misuse)
