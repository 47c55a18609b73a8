"""P06: Pareto ranking respects dominance and crowding."""

import itertools
import math

import torch
from evotorch import Problem, SolutionBatch

from mc.ctx import require
from mc.util import plain, require_same

META = {
    "bounds": "all 2-objective populations on a 3x3 grid (ordered up to 3 points, unordered up to 5) and 3-objective ones on a 2x2x2 grid, all senses; all single fronts of 4 (thorough 5) points with gaps from {1,3} in every order; layered fronts in every order; 36 crowds of 14-54 solutions with every number taken",
    "assumptions": ["order among solutions with equal crowding distance, and crowding with equal objective values, is free"],
}


def never(x):
    raise RuntimeError("not to be called")


_P = {}


def problem(senses, ed):
    key = (tuple(senses), ed)
    if key not in _P:
        _P[key] = Problem(
            list(senses),
            never,
            solution_length=1,
            initial_bounds=(0, 1),
            eval_dtype="float64" if ed == "float64" else None,
            eval_data_length=1,
        )
    return _P[key]


def make(points, senses, ed):
    """points are utilities (larger is better in every objective)."""
    p = problem(senses, ed)
    b = SolutionBatch(p, len(points), empty=True)
    b.set_values(torch.arange(len(points), dtype=p.dtype).reshape(-1, 1))
    rows = [[x if s == "max" else -x for x, s in zip(pt, senses)] + [-50.0 * i] for i, pt in enumerate(points)]
    b.set_evals(torch.tensor(rows, dtype=p.eval_dtype))
    return b


def dominates(a, b):
    return all(x >= y for x, y in zip(a, b)) and any(x > y for x, y in zip(a, b))


def layers(points):
    rank = [None] * len(points)
    r = 0
    while None in rank:
        left = [i for i, k in enumerate(rank) if k is None]
        front = [i for i in left if not any(dominates(points[j], points[i]) for j in left)]
        for i in front:
            rank[i] = r
        r += 1
    return rank


def crowding(front):
    """Crowding distances of mutually non-dominated points with distinct objective values."""
    n = len(front)
    d = [0.0] * n
    for m in range(len(front[0])):
        order = sorted(range(n), key=lambda i: front[i][m])
        span = front[order[-1]][m] - front[order[0]][m]
        d[order[0]] = d[order[-1]] = math.inf
        for k in range(1, n - 1):
            d[order[k]] += (front[order[k + 1]][m] - front[order[k - 1]][m]) / span
    return d


def check(points, senses, ed="float32"):
    b = make(points, senses, ed)
    ev = plain(b.evals)
    n = len(points)
    exp = layers(points)
    fronts_exp = [[i for i in range(n) if exp[i] == r] for r in range(max(exp) + 1)]
    dist = {}
    for fr in fronts_exp:
        pts = [points[i] for i in fr]
        if all(len({p[m] for p in pts}) == len(pts) for m in range(len(pts[0]))):
            for i, d in zip(fr, crowding(pts)):
                dist[i] = d
    ranks, crowd = b.compute_pareto_ranks(crowdsort=True)
    require(ranks.tolist() == exp, "front numbers of %s: %s, expected %s", points, ranks.tolist(), exp)
    for fr in fronts_exp:
        c = [int(crowd[i]) for i in fr]
        require(sorted(c) == list(range(len(fr))), "crowding ranks of front %s: %s", fr, c)
        sort_check([fr[c.index(k)] for k in range(len(fr))], dist, "crowding ranks")
    ranks, crowd = b.compute_pareto_ranks(crowdsort=False)
    require(ranks.tolist() == exp, "front numbers without crowding: %s", ranks.tolist())
    require(crowd is None, "crowding ranks without crowding")
    for cs in (True, False):
        info = b.arg_pareto_sort(crowdsort=cs)
        require(info.ranks.tolist() == exp, "front numbers of the sort: %s, expected %s", info.ranks.tolist(), exp)
        got = [[int(i) for i in fr] for fr in info.fronts]
        require([sorted(f) for f in got] == fronts_exp, "fronts %s, expected %s", got, fronts_exp)
        if cs:
            for fr in got:
                sort_check(fr, dist, "sorted front")
    for k in range(1, n + 1):
        best = b.take_best(k)
        ids = [int(x) for x in plain(best.values)[:, 0].tolist()]
        require(len(set(ids)) == k and len(ids) == k, "take_best(%d) took %s", k, ids)
        require_same(plain(best.evals), ev[ids], "evaluations of the taken solutions")
        left = [i for i in range(n) if i not in ids]
        for i in ids:
            for j in left:
                require(exp[i] <= exp[j], "take_best(%d) of %s kept %d (front %d), not %d (front %d)", k, points, i, exp[i], j, exp[j])
                if exp[i] == exp[j] and i in dist and j in dist:
                    require(
                        dist[i] >= dist[j] - 1e-5,
                        "take_best(%d) of %s kept %d (distance %s) rather than %d (distance %s)",
                        k, points, i, dist[i], j, dist[j],
                    )
    require_same(plain(b.evals), ev, "the evaluations after sorting")


def sort_check(order, dist, what):
    for a, c in zip(order, order[1:]):
        if a in dist and c in dist:
            require(dist[a] >= dist[c] - 1e-5, "%s %s: %d has distance %s, %d has %s", what, order, a, dist[a], c, dist[c])


def many(ctx, pops, senses, ed="float32"):
    for pts in pops:
        try:
            check(pts, senses, ed)
        except AssertionError as e:
            raise type(e)(f"population (utilities) {pts}, senses {senses}: {e}")
        ctx.step(3)
        ctx.state(layers(pts))


def chunks(lst, size):
    for i in range(0, len(lst), size):
        yield i, lst[i : i + size]


def staircases(n, gaps):
    for g1 in itertools.product(gaps, repeat=n - 1):
        for g2 in itertools.product(gaps, repeat=n - 1):
            xs = [0.0] + list(itertools.accumulate(float(g) for g in g1))
            ys = [0.0] + list(itertools.accumulate(float(g) for g in g2))
            yield [(x, -y) for x, y in zip(xs, ys)]


def run(ctx):
    senses2 = [("max", "max"), ("min", "min"), ("min", "max"), ("max", "min")]
    grid = [(float(a), float(b)) for a in range(3) for b in range(3)]
    pops = [list(p) for n in (1, 2, 3) for p in itertools.product(grid, repeat=n)]
    pops += [list(p) for n in (4, 5) for p in itertools.combinations_with_replacement(grid, n)]
    if ctx.thorough:
        pops += [list(p) for p in itertools.combinations_with_replacement(grid, 6)]
    for k, senses in enumerate(senses2):
        for i, part in chunks(pops, 100):
            ctx.case("grid2", {"senses": senses, "chunk": i}, many, ctx, part, senses)
    cube = [tuple(float(x) for x in p) for p in itertools.product((0, 1), repeat=3)]
    pops = [list(p) for n in (1, 2, 3) for p in itertools.product(cube, repeat=n)]
    pops += [list(p) for n in (4, 5) for p in itertools.combinations_with_replacement(cube, n)]
    for senses in (("max", "min", "max"), ("min", "min", "min")):
        for i, part in chunks(pops, 100):
            ctx.case("grid3", {"senses": senses, "chunk": i}, many, ctx, part, senses)
    # one front: crowding in every arrangement
    pops = []
    for n in (3, 4, 5) if ctx.thorough else (3, 4):
        for st in staircases(n, (1, 3)):
            for perm in itertools.permutations(range(n)):
                pops.append([st[i] for i in perm])
    st5 = [(0.0, 0.0), (1.0, -7.0), (4.0, -8.0), (5.0, -9.5), (11.0, -12.0)]
    pops += [[st5[i] for i in perm] for perm in itertools.permutations(range(5))]
    for senses in senses2[:3]:
        for i, part in chunks(pops, 100):
            ctx.case("front", {"senses": senses, "chunk": i}, many, ctx, part, senses)
    # two fronts, the second one admitted partly
    two = [(0.0, 0.0), (1.0, -5.0), (2.0, -6.0), (7.0, -8.0)]
    pops = []
    for top in ([(8.0, 1.0)], [(9.0, 0.5), (0.5, 9.0)]):
        base = two + top
        for perm in itertools.permutations(range(len(base))):
            pops.append([base[i] for i in perm])
    for i, part in chunks(pops, 60):
        ctx.case("layers", {"chunk": i}, many, ctx, part, ("max", "min"))
    # crowds: fronts far larger than the share of crowding in any combined score
    pops = []
    for n in (11, 14, 23, 40) + ((120,) if ctx.thorough else ()):
        st = list(itertools.accumulate([1.0 + (k * k) % 7 for k in range(n)]))
        top = [(x, -y) for x, y in zip(st, st)]
        for below in (1, 3, 12):
            base = [(x - 0.5, y - 0.5) for x, y in top[:below]] + top
            base = base + [(-9.0 - k, -99999.0) for k in range(2)]
            for stride in (1, 3, 7):
                while math.gcd(stride, len(base)) > 1:
                    stride += 1
                pops.append([base[(i * stride) % len(base)] for i in range(len(base))])
    for i, part in chunks(pops, 3):
        ctx.case("crowds", {"chunk": i}, many, ctx, part, senses2[i % 4])
    # resolution of the evaluation type
    tiny = [(1.0 + a * 1e-12, b * 1e-12) for a in range(3) for b in range(3)]
    pops = [list(p) for n in (2, 3) for p in itertools.product(tiny, repeat=n)]
    for i, part in chunks(pops, 100):
        ctx.case("tiny", {"chunk": i}, many_ranks_only, ctx, part, ("max", "min"))


def many_ranks_only(ctx, pops, senses):
    for pts in pops:
        b = make(pts, senses, "float64")
        ranks, _ = b.compute_pareto_ranks(crowdsort=False)
        require(ranks.tolist() == layers(pts), "front numbers of %s: %s, expected %s", pts, ranks.tolist(), layers(pts))
        ctx.step()
