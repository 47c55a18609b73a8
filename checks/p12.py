"""P12: variation operators respect bounds and leave their parents alone."""

import itertools
import math

import torch
from evotorch import Problem
from evotorch.operators import (
    CosynePermutation,
    CutAndSplice,
    GaussianMutation,
    MultiPointCrossOver,
    OnePointCrossOver,
    PolynomialMutation,
    SimulatedBinaryCrossOver,
    TwoPointCrossOver,
)

from mc import rng
from mc.ctx import require
from mc.util import plain, raises, require_same

META = {
    "bounds": "populations of 1-5 solutions of 2-4 variables, bounds none/one-sided/scalar/vector/degenerate, float32/float64/int64 and object solutions; answers of the random source from small domains: all of them for cut points, up to 2 (thorough 3) non-default ones elsewhere",
    "assumptions": [
        "in which order children are returned and how parents are paired is left open",
        "a uniform draw exactly equal to a probability may go either way",
    ],
}

TOL = 2e-5


class Prob(Problem):
    def __init__(self, length, lb=None, ub=None, dtype=torch.float64, nobj=1, seed=None):
        self._absent = (lb == "absent", ub == "absent")
        lb, ub = (None if b == "absent" else b for b in (lb, ub))
        bounds = None if lb is None and ub is None else (lb, ub)
        kw = {}
        if bounds is not None:
            if lb is None:
                bounds = (-math.inf, ub)
            elif ub is None:
                bounds = (lb, math.inf)
            kw["bounds"] = bounds
        senses = ["min", "max"][:nobj]
        if bounds is None or lb is None or ub is None:
            kw["initial_bounds"] = (0, 1)
        super().__init__(senses, solution_length=length, dtype=dtype, eval_dtype=torch.float64, seed=seed, eval_data_length=1, **kw)

    @property
    def lower_bounds(self):
        return None if self._absent[0] else super().lower_bounds

    @property
    def upper_bounds(self):
        return None if self._absent[1] else super().upper_bounds

    def _fill(self, values, **kw):
        values.zero_()


def batch_of(prob, rows, evals=None):
    b = prob.generate_batch(len(rows))
    b.set_values(torch.tensor(rows, dtype=prob.dtype))
    nobj = len(prob.senses)
    e = torch.tensor([[float(i * 3 % 7 - j) for j in range(nobj)] + [10.0 + i] for i in range(len(rows))], dtype=torch.float64)
    if evals is not None:
        e[:, :nobj] = torch.tensor(evals, dtype=torch.float64).reshape(len(rows), nobj)
    b.set_evals(e[:, :nobj], e[:, nobj:])
    return b


def in_bounds(prob, x, what):
    for bound, ok, name in ((prob.lower_bounds, torch.ge, "below"), (prob.upper_bounds, torch.le, "above")):
        if bound is None:
            continue
        b = plain(bound).expand(x.shape)
        require(bool(ok(x, b).all()), "%s: values %s %s the bounds %s", what, x.tolist(), name, plain(bound).tolist())


def judge(op, prob, batch, oracle, what):
    """Apply the operator, and check what holds for all of them. Returns (parents, children) values."""
    before = (plain(batch.values), plain(batch.evals))
    with rng.active(oracle):
        kids = op(batch)
    require(kids is not batch, "%s returns its argument", what)
    x = plain(kids.values)
    require(x.dtype == before[0].dtype and x.shape[1:] == before[0].shape[1:], "%s: children of type %s and shape %s", what, x.dtype, tuple(x.shape))
    require(kids.evals.shape == (len(kids), before[1].shape[1]), "%s: evaluations of shape %s", what, tuple(kids.evals.shape))
    require(bool(torch.isnan(plain(kids.evals)).all()), "%s: children are marked as evaluated: %s", what, plain(kids.evals).tolist())
    require(not x.dtype.is_floating_point or bool(torch.isfinite(x).all()), "%s: values %s", what, x.tolist())
    in_bounds(prob, x, what)
    require_same(plain(batch.values), before[0], what + ": values of the parents afterwards")
    require_same(plain(batch.evals), before[1], what + ": evaluations of the parents afterwards")
    kids.access_values()[:] = 0
    kids.set_evals(torch.full((len(kids), len(prob.senses)), 77.0, dtype=torch.float64))
    require_same(plain(batch.values), before[0], what + ": values of the parents after overwriting the children")
    require_same(plain(batch.evals), before[1], what + ": evaluations of the parents after evaluating the children")
    batch.access_values(keep_evals=True)[:] = 1
    require_same(plain(kids.values), torch.zeros_like(x), what + ": values of the children after overwriting the parents")
    return before[0], x


# ---------------------------------------------------------------- cutting
OPS = {
    "one": lambda p, **kw: OnePointCrossOver(p, **kw),
    "two": lambda p, **kw: TwoPointCrossOver(p, **kw),
    "multi1": lambda p, **kw: MultiPointCrossOver(p, num_points=1, **kw),
    "multi2": lambda p, **kw: MultiPointCrossOver(p, num_points=2, **kw),
    "multi3": lambda p, **kw: MultiPointCrossOver(p, num_points=3, **kw),
}
POINTS = {"one": 1, "two": 2, "multi1": 1, "multi2": 2, "multi3": 3}


def expected_children(n, how):
    if how is None:
        return {n + n % 2}
    if "num_children" in how:
        return {how["num_children"]}
    f = n * how["cross_over_rate"]
    lo, hi = math.floor(f), math.ceil(f)
    return {v for v in (lo, hi, hi + 1) if v % 2 == 0 and abs(v - f) <= 1}


def masks(rows):
    return tuple(int(v) // 10 for v in rows)


def complementary(kids):
    """Do the children (rows of parent numbers) come in pairs that are made of two parents each?"""
    if not kids:
        return True
    first, rest = kids[0], kids[1:]
    for i, other in enumerate(rest):
        pair = {frozenset((a, b)) for a, b in zip(first, other)}
        if len(pair) == 1 and complementary(rest[:i] + rest[i + 1 :]):
            return True
    return False


def switches(row):
    return sum(a != b for a, b in zip(row, row[1:]))


def cutting(ctx, name, n, length, how, dtype=torch.float64, ts=1, view=False):
    def run(chooser):
        prob = Prob(length, dtype=dtype)
        rows = [[10 * i + j for j in range(length)] for i in range(n)]
        b = batch_of(prob, rows)
        if view:
            big = batch_of(prob, [[999] * length] + rows + [[888] * length])
            b = big[1 : n + 1]
        op = OPS[name](prob, tournament_size=ts, **(how or {}))
        o = rng.Oracle(chooser, span=12 if n < 5 else 60)
        parents, x = judge(op, prob, b, o, name)
        require(len(x) in expected_children(n, how), "%d children of %d solutions with %s", len(x), n, how)
        kids = []
        for r in x.tolist():
            for j, v in enumerate(r):
                require(int(v) % 10 == j and 0 <= v // 10 < n, "%s: gene %s at position %d", name, v, j)
            kids.append(masks(r))
            require(len(set(kids[-1])) <= 2, "%s: a child of more than two parents: %s", name, kids[-1])
            require(switches(kids[-1]) <= POINTS[name], "%s: %d switches in the child %s", name, switches(kids[-1]), kids[-1])
        require(complementary(kids), "%s: the children %s are not complementary", name, kids)
        ctx.step()
        ctx.state(name, kids)
        return kids

    return run


def reach(name, length):
    """Over all answers of the random source every way of cutting occurs, and no other."""
    prob = Prob(length)
    rows = [[10 * i + j for j in range(length)] for i in range(2)]
    seen = set()
    for cuts in itertools.product(range(12 * (length + 1) if name == "one" else length * (length + 1)), repeat=POINTS[name]):

        class Fixed(rng.Oracle):
            def index(self, m, kind):
                self.count += 1
                k = self.count - 1
                return (k if k < 2 else cuts[k - 2 if k - 2 < len(cuts) else -1]) % m

        op = OPS[name](prob, tournament_size=1, num_children=2)
        with rng.active(Fixed(span=10**6)):
            kids = op(batch_of(prob, rows))
        for r in plain(kids.values).tolist():
            seen.add(masks(r))
    p = POINTS[name]
    every = set()
    positions = range(1, length) if p == 1 else range(0, length + 1)
    for cuts in itertools.product(positions, repeat=p):
        for start in (0, 1):
            every.add(tuple((start + sum(j >= c for c in cuts)) % 2 for j in range(length)))
    must = {m for m in every if 0 < switches(m) <= p and not (p == 1 and switches(m) != 1)}
    if p == 3:
        must = {m for m in must if switches(m) == 3}
    require(must <= seen, "%s: the children %s never occur", name, sorted(must - seen))
    require(all(switches(m) <= p for m in seen), "%s: children %s", name, sorted(seen))
    if p == 1:
        require(seen == must, "%s: children %s", name, sorted(seen - must))


def misuse():
    p = Prob(3)
    b = batch_of(p, [[0, 1, 2], [10, 11, 12], [20, 21, 22]])
    for cls, kw in ((OnePointCrossOver, {}), (SimulatedBinaryCrossOver, {"eta": 2.0}), (TwoPointCrossOver, {})):
        require(raises(lambda: cls(p, tournament_size=2, num_children=2, cross_over_rate=0.5, **kw)) is not None, "num_children with cross_over_rate accepted")
        require(raises(lambda: cls(p, tournament_size=2, num_children=3, **kw)(b)) is not None, "an odd number of children accepted")
        require(raises(lambda: cls(p, tournament_size=2, obj_index=1, **kw)) is not None, "a missing objective accepted")
    require(raises(lambda: MultiPointCrossOver(p, tournament_size=2, num_points=0)) is not None, "zero points accepted")
    require(raises(lambda: PolynomialMutation(p)) is not None, "polynomial mutation without bounds accepted")
    require(raises(lambda: PolynomialMutation(Prob(2, 0, 5, dtype=torch.int64))) is not None, "polynomial mutation of integers accepted")
    require(raises(lambda: CosynePermutation(p, 0, permute_all=True)) is not None, "objective with permute_all accepted")
    require(raises(lambda: CosynePermutation(Prob(2, nobj=2))) is not None, "permutation without objective accepted")
    require(raises(lambda: GaussianMutation(5, stdev=1.0)) is not None, "operator of a non-problem accepted")


# ---------------------------------------------------------------- simulated binary
US = (0.25, 0.875, 0.0, 0.5, 0.999, 0.4)


def beta(u, eta):
    return (2 * u) ** (1 / (eta + 1)) if u <= 0.5 else (1 / (2 * (1 - u))) ** (1 / (eta + 1))


def clipper(prob):
    lb = None if prob.lower_bounds is None else plain(prob.lower_bounds).to(torch.float64)
    ub = None if prob.upper_bounds is None else plain(prob.upper_bounds).to(torch.float64)

    def clip(x):
        if lb is not None:
            x = torch.max(x, lb)
        if ub is not None:
            x = torch.min(x, ub)
        return x

    return clip


def binary(ctx, rows, eta, lb, ub, dtype=torch.float64):
    length = len(rows[0])

    def run(chooser):
        prob = Prob(length, lb, ub, dtype=dtype)
        b = batch_of(prob, rows)
        op = SimulatedBinaryCrossOver(prob, tournament_size=1, eta=eta, num_children=2)
        o = rng.Oracle(chooser, uniforms=US, span=len(rows))
        parents, x = judge(op, prob, b, o, "sbx")
        require(len(x) == 2, "%d children", len(x))
        i, j = [v % len(rows) for v in o.values("int")[:2]]
        p1, p2 = parents[i].to(torch.float64), parents[j].to(torch.float64)
        us = o.values("uniform")
        clip = clipper(prob)
        x = x.to(torch.float64)
        ok = False
        for perm in itertools.permutations(us):
            bt = torch.tensor([beta(u, eta) for u in perm[:length]], dtype=torch.float64)
            c1 = clip(0.5 * ((1 + bt) * p1 + (1 - bt) * p2))
            c2 = clip(0.5 * ((1 + bt) * p2 + (1 - bt) * p1))
            tol = TOL * (1 if dtype == torch.float64 else 10)
            for a, c in ((c1, c2), (c2, c1)):
                if torch.allclose(x[0], a, rtol=tol, atol=tol) and torch.allclose(x[1], c, rtol=tol, atol=tol):
                    ok = True
        require(ok, "children %s of %s and %s for the draws %s", x.tolist(), p1.tolist(), p2.tolist(), us)
        ctx.step()
        ctx.state(x)
        return x

    return run


def sbx_many(ctx, n, how):
    def run(chooser):
        prob = Prob(2)
        rows = [[2.0**i, 3.0**i] for i in range(n)]
        b = batch_of(prob, rows)
        op = SimulatedBinaryCrossOver(prob, tournament_size=2, eta=1.0, **(how or {}))
        o = rng.Oracle(chooser, uniforms=US, span=12)
        parents, x = judge(op, prob, b, o, "sbx")
        require(len(x) in expected_children(n, how), "%d children of %d solutions with %s", len(x), n, how)
        # children come in pairs with the sums of their parents
        sums = {tuple(round(v, 6) for v in (parents[i] + parents[j]).tolist()) for i in range(n) for j in range(n)}

        def paired(kids):
            if not kids:
                return True
            for k in range(1, len(kids)):
                s = tuple(round(v, 6) for v in (torch.tensor(kids[0]) + torch.tensor(kids[k])).tolist())
                if s in sums and paired(kids[1:k] + kids[k + 1 :]):
                    return True
            return False

        require(paired(x.tolist()), "children %s keep no pair sums of %s", x.tolist(), rows)
        ctx.step()
        return x

    return run


# ---------------------------------------------------------------- mutations
NS = (-1.0, 0.5, 3.0, -6.0)


def gaussian(ctx, rows, prob_arg, lb, ub, dtype=torch.float64, stdev=0.5):
    length = len(rows[0])

    def run(chooser):
        prob = Prob(length, lb, ub, dtype=dtype)
        b = batch_of(prob, rows)
        kw = {} if prob_arg is None else {"mutation_probability": prob_arg}
        op = GaussianMutation(prob, stdev=stdev, **kw)
        o = rng.Oracle(chooser, uniforms=(0.25, 0.875, 0.0, 0.5), normals=NS)
        parents, x = judge(op, prob, b, o, "gaussian")
        require(len(x) == len(rows), "%d children of %d", len(x), len(rows))
        us, zs = o.values("uniform"), o.values("normal")
        clip = clipper(prob)
        total = len(rows) * length
        want = total if prob_arg is None or prob_arg >= 1 else sum(u <= prob_arg for u in us)
        slots = [clip(parents.to(torch.float64) + stdev * z) for z in sorted(set(zs))]
        stay = parents.to(torch.float64)
        free, changed_for_sure = 0, 0
        for i in range(len(rows)):
            for j in range(length):
                v = float(x[i, j])
                as_is = abs(v - float(stay[i, j])) < 1e-5
                moved = any(abs(v - float(s[i, j])) < 1e-5 for s in slots)
                require(as_is or moved, "gene %s of the mutant of %s is neither kept nor moved by a drawn noise %s", v, float(stay[i, j]), zs)
                if not as_is:
                    changed_for_sure += 1
                elif moved:
                    free += 1
        require(changed_for_sure <= want <= changed_for_sure + free, "%d (to %d) genes mutated instead of %d: %s -> %s", changed_for_sure, changed_for_sure + free, want, parents.tolist(), x.tolist())
        if want == total and len(zs) == total and lb is None and ub is None:
            got = sorted(round(v, 5) for v in ((x.to(torch.float64) - stay) / stdev).reshape(-1).tolist())
            require(got == sorted(round(z, 5) for z in zs), "noise %s added, %s drawn", got, sorted(zs))
        ctx.step()
        ctx.state(x)
        return x

    return run


def poly(x, lb, ub, r, eta):
    if ub == lb:
        return x
    d1, d2 = (x - lb) / (ub - lb), (ub - x) / (ub - lb)
    if r < 0.5:
        d = (2 * r + (1 - 2 * r) * (1 - d1) ** (eta + 1)) ** (1 / (eta + 1)) - 1
    else:
        d = 1 - (2 * (1 - r) + 2 * (r - 0.5) * (1 - d2) ** (eta + 1)) ** (1 / (eta + 1))
    return min(ub, max(lb, x + d * (ub - lb)))


def polynomial(ctx, rows, prob_arg, eta, lb, ub, dtype=torch.float64):
    length = len(rows[0])

    def run(chooser):
        prob = Prob(length, lb, ub, dtype=dtype)
        L, U = plain(prob.lower_bounds).expand(length).tolist(), plain(prob.upper_bounds).expand(length).tolist()
        b = batch_of(prob, rows)
        kw = {}
        if prob_arg is not None:
            kw["mutation_probability"] = prob_arg
        if eta is not None:
            kw["eta"] = eta
        op = PolynomialMutation(prob, **kw)
        o = rng.Oracle(chooser, uniforms=(0.25, 0.875, 0.0, 0.625))
        parents, x = judge(op, prob, b, o, "polynomial")
        require(len(x) == len(rows), "%d children of %d", len(x), len(rows))
        us = o.values("uniform")
        e = 20.0 if eta is None else eta
        tol = 1e-6 if dtype == torch.float64 else 1e-4
        cand = []
        for i in range(len(rows)):
            for j in range(length):
                v = float(x[i, j])
                opts = {k for k, r in enumerate(us) if abs(v - poly(float(parents[i, j]), L[j], U[j], r, e)) <= tol * max(1, abs(v))}
                keep = abs(v - float(parents[i, j])) <= tol
                require(opts or keep, "gene %s of the mutant of %s in [%s, %s] for the draws %s", v, float(parents[i, j]), L[j], U[j], us)
                cand.append((opts, keep))
        total = len(cand)
        if prob_arg is None:
            if len(us) == total:
                require(matching([c[0] for c in cand], total), "mutants %s of %s for the draws %s", x.tolist(), parents.tolist(), us)
        else:
            sure = sum(1 for c in cand if not c[1])
            # of N*L draws for the mask and then one per mutated gene
            want = sum(u < prob_arg for u in us[:total])
            maybe = sum(1 for c in cand if c[1] and c[0])
            require(sure <= want <= sure + maybe, "%d (to %d) genes mutated instead of %d", sure, sure + maybe, want)
        ctx.step()
        ctx.state(x)
        return x

    return run


def matching(cands, n):
    """Can every gene get a draw of its own?"""
    owner = {}

    def place(i, seen):
        for d in cands[i]:
            if d in seen:
                continue
            seen.add(d)
            if d not in owner or place(owner[d], seen):
                owner[d] = i
                return True
        return False

    return all(place(i, set()) for i in range(len(cands)))


def permuting(ctx, n, length, every, evals, nobj=1, obj_index=None):
    def run(chooser):
        prob = Prob(length, nobj=nobj)
        rows = [[10 * i + j for j in range(length)] for i in range(n)]
        b = batch_of(prob, rows, evals=evals)
        op = CosynePermutation(prob, permute_all=True) if every else CosynePermutation(prob, obj_index)
        o = rng.Oracle(chooser, uniforms=(0.25, 0.875, 0.5, 0.125))
        parents, x = judge(op, prob, b, o, "permutation")
        require(len(x) == n, "%d children of %d", len(x), n)
        for j in range(length):
            require(sorted(x[:, j].tolist()) == sorted(parents[:, j].tolist()), "column %d: %s is no permutation of %s", j, x[:, j].tolist(), parents[:, j].tolist())
        if not every:
            # the best solution is never permuted, so it keeps all of its genes
            oi = obj_index or 0
            f = [row[oi] if isinstance(row, (list, tuple)) else row for row in evals]
            best = min(range(n), key=lambda i: f[i] if prob.senses[oi] == "min" else -f[i])
            require_same(x[best], parents[best], "the best solution after the permutation")
        ctx.step()
        ctx.state(x)
        return x

    return run


def permuting_reach(n):
    """With permute_all every permutation of a column can come out."""
    prob = Prob(1)
    seen = set()
    for order in itertools.permutations(range(n)):

        class Fixed(rng.Oracle):
            def uniform(self):
                self.count += 1
                return (order[(self.count - 1) % n] + 0.5) / (n + 1)

        with rng.active(Fixed()):
            y = CosynePermutation(prob, permute_all=True)(batch_of(prob, [[10 * i] for i in range(n)]))
        seen.add(tuple(plain(y.values)[:, 0].tolist()))
    require(len(seen) == math.factorial(n), "only %d permutations of %d solutions", len(seen), n)


# ---------------------------------------------------------------- sequences
class Lists(Problem):
    def __init__(self):
        super().__init__("max", dtype=object, eval_dtype=torch.float64)

    def _fill(self, values):
        for i in range(len(values)):
            values[i] = [i]

    def _evaluate(self, sln):
        sln.set_evals(float(len(sln.values)))


def splice(ctx, lengths):
    n = len(lengths)

    def run(chooser):
        prob = Lists()
        b = prob.generate_batch(n)
        rows = [[100 * i + j for j in range(k)] for i, k in enumerate(lengths)]
        for i, r in enumerate(rows):
            b[i].set_values(r)
        prob.evaluate(b)
        before = plain(b.evals)
        op = CutAndSplice(prob, tournament_size=1)
        o = rng.Oracle(chooser, span=12)
        with rng.active(o):
            kids = op(b)
        require(len(kids) == n + n % 2, "%d children of %d", len(kids), n)
        require(bool(torch.isnan(plain(kids.evals)).all()), "children are marked as evaluated")
        got = [list(kids[i].values) for i in range(len(kids))]
        pieces = []
        for g in got:
            require(len(g) > 0, "an empty child")
            k = 0
            while k + 1 < len(g) and g[k + 1] == g[k] + 1:
                k += 1
            # a head (possibly empty) of one parent, then a tail of another
            heads = [r[:c] for r in rows for c in range(len(r))]
            tails = [r[c:] for r in rows for c in range(len(r))]
            require(any(g == h + t for h in heads for t in tails), "the child %s of %s", g, rows)
            pieces.append(g)
        if n == 2:
            i, j = [v % 2 for v in o.values("int")[:2]]
            require(sorted(x for g in got for x in g) == sorted(rows[i] + rows[j]), "children %s of %s and %s", got, rows[i], rows[j])
        for i, r in enumerate(rows):
            require(list(b[i].values) == r, "parent %d is now %s", i, list(b[i].values))
        require_same(plain(b.evals), before, "evaluations of the parents")
        prob.evaluate(kids)
        require_same(plain(kids.evals)[:, 0], torch.tensor([float(len(g)) for g in got]), "fitnesses of the children")
        require_same(plain(b.evals), before, "evaluations of the parents")
        ctx.step()
        ctx.state(got)
        return got

    return run


def run(ctx):
    deep = 3 if ctx.thorough else 2
    hows = [None, {"num_children": 2}, {"num_children": 6}, {"cross_over_rate": 1.0}, {"cross_over_rate": 0.5}, {"cross_over_rate": 2.0}, {"cross_over_rate": 0.4}]
    for name in OPS:
        for n in (1, 2, 3, 4, 5):
            for length in (2, 3, 4):
                for how in hows:
                    if how is not None and how != hows[1] and length != 3:
                        continue
                    if 0 in expected_children(n, how):
                        continue
                    small = how == {"num_children": 2} and n == 2
                    desc = {"op": name, "n": n, "length": length, "how": how}
                    ctx.explore("cutting", desc, cutting(ctx, name, n, length, how), bound=deep if small else 1)
        for length in (2, 3, 4):
            ctx.case("reach", {"op": name, "length": length}, reach, name, length)
        for dtype in (torch.float32, torch.int64):
            ctx.explore("cutting types", {"op": name, "dtype": str(dtype)}, cutting(ctx, name, 3, 3, None, dtype=dtype, ts=2), bound=1)
        ctx.explore("cutting a slice", {"op": name}, cutting(ctx, name, 3, 3, None, ts=2, view=True), bound=1)
    ctx.case("misuse", {}, misuse)
    pops = [[[0.5, -1.0], [2.0, 3.0]], [[0.0, 4.0], [0.0, 1.0]], [[-2.0, 3.0], [4.0, -2.0], [1.0, 1.0]]]
    bnds = [(None, None), (-2.5, 4.5), ([-2.0, -2.0], [4.0, 4.25]), (-3.0, None), (None, 4.0), (-3.0, "absent"), ("absent", 4.0)]
    for rows in pops:
        for eta in (0.5, 2.0, 8.0):
            for lb, ub in bnds:
                ctx.explore("sbx", {"rows": rows, "eta": eta, "lb": lb, "ub": ub}, binary(ctx, rows, eta, lb, ub), bound=None if ctx.thorough else deep + 1)
    ctx.explore("sbx", {"dtype": "float32"}, binary(ctx, pops[0], 2.0, -2.5, 4.5, dtype=torch.float32), bound=deep)
    for n in (1, 2, 3, 4):
        for how in hows:
            if 0 in expected_children(n, how):
                continue
            ctx.explore("sbx pairs", {"n": n, "how": how}, sbx_many(ctx, n, how), bound=1)
    for rows in ([[0.5, -1.0]], [[0.5, -1.0], [2.0, 3.0]], [[-2.0, 3.0], [4.0, -2.0], [1.0, 1.0]]):
        for pr in (None, 1.0, 0.0001, 0.3, 0.6):
            for lb, ub in bnds:
                for stdev in (0.5, 2.0):
                    desc = {"rows": rows, "prob": pr, "lb": lb, "ub": ub, "stdev": stdev}
                    ctx.explore("gaussian", desc, gaussian(ctx, rows, pr, lb, ub, stdev=stdev), bound=deep if len(rows) == 1 else deep - 1)
    ctx.explore("gaussian", {"dtype": "float32"}, gaussian(ctx, pops[0], 0.3, -2.5, 4.5, dtype=torch.float32), bound=deep)
    pb = [(-2.5, 4.5), ([-2.0, -2.0], [4.0, 4.25]), ([-2.0, 1.0], [4.0, 1.0]), ([0.0, -5.0], [0.0, 5.0])]
    for rows in ([[0.5, 1.0]], [[-2.0, 1.0]], [[4.0, 1.0]], [[0.5, 1.0], [2.0, 1.0]]):
        for pr in (None, 0.3, 0.7, 1.0):
            for eta in (None, 1.0, 5.0):
                for lb, ub in pb:
                    if isinstance(lb, list) and not all(l <= v <= u for r in rows for l, v, u in zip(lb, r, ub)):
                        continue
                    desc = {"rows": rows, "prob": pr, "eta": eta, "lb": lb, "ub": ub}
                    ctx.explore("polynomial", desc, polynomial(ctx, rows, pr, eta, lb, ub), bound=None if len(rows) == 1 and pr is None else deep)
    ctx.explore("polynomial", {"dtype": "float32"}, polynomial(ctx, [[0.5, 1.0]], None, 5.0, -2.0, 4.0, dtype=torch.float32))
    for n in (1, 2, 3, 4):
        for length in (1, 2):
            ctx.explore("permutation", {"n": n, "length": length, "all": True}, permuting(ctx, n, length, True, list(range(n))), bound=deep)
        if n > 1:
            for evals in itertools.permutations([float(i) for i in range(n)]):
                ctx.explore("permutation", {"n": n, "evals": evals}, permuting(ctx, n, 2, False, evals), bound=deep - 1 if n > 2 else deep)
        if n <= 4:
            ctx.case("permutation reach", {"n": n}, permuting_reach, n)
    for oi in (0, 1):
        ev = [[0.0, 3.0], [1.0, 5.0], [2.0, 1.0]]
        ctx.explore("permutation", {"objectives": 2, "obj": oi}, permuting(ctx, 3, 2, False, ev, nobj=2, obj_index=oi), bound=deep)
    for lengths in ((1, 1), (1, 2), (2, 3), (3, 3), (4, 1), (2, 1, 3), (1, 2, 3, 2)):
        ctx.explore("sequences", {"lengths": lengths}, splice(ctx, lengths), bound=deep if len(lengths) > 2 else deep + 1)
