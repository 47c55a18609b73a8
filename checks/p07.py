"""P07: the reported best and worst solutions are those of the whole evaluation history."""

import itertools
import math

import torch
from evotorch import Problem, SolutionBatch

from mc import fakeray
from mc.ctx import require
from mc.util import plain, raises, require_same

META = {
    "bounds": "all histories of 3 evaluations of single solutions and 2 (thorough 3) evaluations of batches of 2 solutions with fitnesses from a 3-value domain (including infinities), with every kind of tampering in between; one and two objectives, per-solution, vectorized, object-valued and worker-based evaluation",
}


def f1(x):
    return x[..., 0]


def f2(x):
    return x[..., :2]


class PerSolution(Problem):
    def __init__(self, senses, **kw):
        super().__init__(senses, solution_length=3, initial_bounds=(0, 1), **kw)

    def _evaluate(self, solution):
        k = len(self.senses)
        solution.set_evals(torch.as_tensor(solution.values[:k], dtype=torch.float32))


class Vectorized(Problem):
    def __init__(self, senses, **kw):
        super().__init__(senses, solution_length=3, initial_bounds=(0, 1), eval_data_length=1, **kw)

    def _evaluate_batch(self, batch):
        k = len(self.senses)
        batch.set_evals(batch.values[:, :k], batch.values[:, 2:])


class Objects(Problem):
    def __init__(self, senses, **kw):
        super().__init__(senses, dtype=object, **kw)

    def _fill(self, values):
        for i in range(len(values)):
            values[i] = [0.0, 0.0, 0.0]

    def _evaluate(self, solution):
        k = len(self.senses)
        solution.set_evals(torch.tensor([float(v) for v in solution.values][:k]))


KINDS = {"solution": PerSolution, "vector": Vectorized, "object": Objects}


def make_problem(kind, senses, **kw):
    if kind == "function":
        return Problem(
            senses if len(senses) > 1 else senses[0],
            f1 if len(senses) == 1 else f2,
            solution_length=3,
            initial_bounds=(0, 1),
            vectorized=True,
            **kw,
        )
    return KINDS[kind](senses if len(senses) > 1 else senses[0], **kw)


class History:
    def __init__(self, kind, senses, **kw):
        self.kind = kind
        self.senses = senses
        self.p = make_problem(kind, senses, **kw)
        self.counter = 0
        self.seen = []  # (values, evals) of all solutions evaluated so far
        self.batch = None

    def values(self, fits):
        out = []
        for f in fits:
            self.counter += 1
            f = list(f) + [0.0] * (2 - len(f))
            out.append([f[0], f[1], float(self.counter)])
        return out

    def put(self, batch, vals):
        if self.kind == "object":
            for i, v in enumerate(vals):
                batch[i].set_values(list(v))
        else:
            batch.set_values(torch.tensor(vals))

    def note(self, vals):
        for v in vals:
            self.seen.append((tuple(v), tuple(v[: len(self.senses)])))

    def evaluate(self, fits, how):
        vals = self.values(fits)
        if how == "same" and self.batch is not None and len(self.batch) == len(vals):
            b = self.batch
        else:
            b = SolutionBatch(self.p, len(vals), empty=True)
        self.put(b, vals)
        if how == "solution":
            for i in range(len(b)):
                self.p.evaluate(b[i])
                self.note([vals[i]])
                self.check()
        elif how == "tail":
            self.p.evaluate(b[len(b) // 2 :])
            self.note(vals[len(b) // 2 :])
        else:
            self.p.evaluate(b)
            self.note(vals)
        self.batch = b

    def tamper(self, how):
        b = self.batch
        if how == "values":
            if self.kind == "object":
                for i in range(len(b)):
                    b[i].set_values([9.0, 9.0, 9.0])
            else:
                b.access_values().fill_(9.0)
        elif how == "evals":
            w = len(self.senses) + self.p.eval_data_length
            b.set_evals(torch.full((len(b), w), -77.0))
        elif how == "forget":
            b.forget_evals()
        elif how == "swap" and len(b) >= 2:
            b.access_evals()[:] = plain(b.evals)[torch.arange(len(b) - 1, -1, -1)]

    def check(self):
        st = self.p.status
        k = len(self.senses)
        best = [st["best"]] if k == 1 else list(st["best"])
        worst = [st["worst"]] if k == 1 else list(st["worst"])
        require(len(best) == k and len(worst) == k, "number of best/worst solutions")
        for j in range(k):
            col = [e[j] for _, e in self.seen]
            hi, lo = (max(col), min(col)) if self.senses[j] == "max" else (min(col), max(col))
            for what, sln, f in (("best", best[j], hi), ("worst", worst[j], lo)):
                ev = plain(sln.evals)
                require(float(ev[j]) == f, "%s of objective %d has fitness %s, in the history it is %s", what, j, float(ev[j]), f)
                if self.kind == "object":
                    vals = tuple(float(v) for v in sln.values)
                else:
                    vals = tuple(plain(sln.values).tolist())
                hit = [e for v, e in self.seen if v == vals]
                require(bool(hit), "%s solution %s was never evaluated", what, vals)
                require(tuple(ev[:k].tolist()) == hit[0], "%s solution %s carries %s, not %s", what, vals, ev[:k].tolist(), hit[0])
                if self.kind == "vector":
                    require(float(ev[k]) == vals[2], "%s solution carries foreign evaluation data", what)
        if k == 1:
            require(st["best_eval"] == float(best[0].evals[0]), "best_eval %s", st["best_eval"])
            require(st["worst_eval"] == float(worst[0].evals[0]), "worst_eval %s", st["worst_eval"])


def history(ctx, kind, senses, domain, size, depth, first, **kw):
    pats = list(itertools.product(domain, repeat=size))

    def run(chooser):
        if kw:
            fakeray.reset(chooser)
        h = History(kind, senses, **kw)
        names = []
        for d in range(depth):
            if d == 0:
                fits = pats[first]
                how = chooser.pick(["new", "solution", "tail"], "how")
            else:
                t = chooser.pick(["no", "values", "evals", "forget", "swap"], "tampering")
                h.tamper(t)
                h.check()
                fits = chooser.pick(pats, "fitnesses")
                # without tampering: also other ways of evaluating
                how = chooser.pick(["new", "same", "solution", "tail"], "how") if t == "no" else "same"
                names.append(t)
            h.evaluate(fits, how)
            names.append([fits, how])
            h.check()
            ctx.step()
            ctx.state(kind, senses, sorted(set(e for _, e in h.seen)))
        return names

    return run


def comparisons(senses):
    """compare_solutions, is_better, is_worse over all pairs."""
    p = make_problem("solution", senses)
    k = len(senses)
    dom = list(itertools.product((0.0, 1.0, 2.5), repeat=k))
    b = SolutionBatch(p, len(dom), empty=True)
    b.set_evals(torch.tensor(dom))
    for i, x in enumerate(dom):
        for m, y in enumerate(dom):
            for j in range(k):
                want = (x[j] > y[j]) - (x[j] < y[j])
                if senses[j] == "min":
                    want = -want
                for a in [j, j - k] + ([None] if k == 1 else []):
                    c = float(p.compare_solutions(b[i], b[m], a))
                    got = (c > 0) - (c < 0)
                    require(got == want, "compare_solutions(%s, %s, %s) is %s", x, y, a, c)
                    require(bool(p.is_better(b[i], b[m], a)) == (want > 0), "is_better(%s, %s)", x, y)
                    require(bool(p.is_worse(b[i], b[m], a)) == (want < 0), "is_worse(%s, %s)", x, y)
    for a in (k, -k - 1) + ((None,) if k > 1 else ()):
        require(raises(lambda: p.compare_solutions(b[0], b[1], a)) is not None, "objective index %s accepted", a)


def disabled(flag):
    """store_solution_stats switches the bookkeeping."""
    p = make_problem("vector", ("min",), store_solution_stats=flag)
    b = p.generate_batch(2)
    p.evaluate(b)
    has = [k in p.status for k in ("best", "worst", "best_eval", "worst_eval")]
    require(all(has) if flag in (True, None) else not any(has), "store_solution_stats=%s: %s", flag, has)


def run(ctx):
    for senses in (("min",), ("max",), ("min", "max"), ("max", "max", "min")[:2]):
        ctx.case("compare", {"senses": senses}, comparisons, senses)
    for flag in (None, True, False):
        ctx.case("disabled", {"flag": flag}, disabled, flag)
    dom1 = [(0.0,), (1.0,), (-1.0,)]
    inf1 = [(0.0,), (math.inf,), (-math.inf,)]
    dom2 = [(0.0, 0.0), (0.0, 1.0), (1.0, 0.0)]
    depth = 3
    for kind in ("solution", "vector", "function", "object"):
        for s in ("min", "max"):
            for size in (1, 2):
                for first in range(3**size):
                    dom = dom1
                    d = depth if ctx.thorough or size == 1 else 2
                    ctx.explore(
                        "single",
                        {"kind": kind, "sense": s, "size": size, "first": first, "depth": d},
                        history(ctx, kind, (s,), dom, size, d, first),
                    )
                    ctx.explore(
                        "infinite",
                        {"kind": kind, "sense": s, "size": size, "first": first},
                        history(ctx, kind, (s,), inf1, size, 2, first),
                    )
        for senses in (("min", "max"), ("max", "max")):
            for size in (1, 2):
                for first in range(3**size):
                    d = 3 if size == 1 and (kind == "vector" or ctx.thorough) else 2
                    ctx.explore(
                        "multi",
                        {"kind": kind, "senses": senses, "size": size, "first": first, "depth": d},
                        history(ctx, kind, senses, dom2, size, d, first),
                    )
    for kind in ("vector", "solution"):
        for first in range(9):
            ctx.explore(
                "workers",
                {"kind": kind, "first": first},
                history(ctx, kind, ("max",), dom1, 2, 2, first, num_actors=2),
            )
