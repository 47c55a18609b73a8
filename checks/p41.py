"""P41: every search runs on every kind of problem it is documented for."""

import itertools
import math

import torch
from evotorch import Problem
from evotorch.algorithms import CEM, CMAES, PGPE, SNES, XNES, Cosyne, GeneticAlgorithm, MAPElites, PyCMAES, SteadyStateGA
from evotorch.algorithms.restarter import IPOP, ModifyingRestart, Restart
from evotorch.decorators import vectorized
from evotorch.operators import (
    CosynePermutation,
    GaussianMutation,
    MultiPointCrossOver,
    OnePointCrossOver,
    PolynomialMutation,
    SimulatedBinaryCrossOver,
    TwoPointCrossOver,
)

from mc import fakeray
from mc.ctx import require
from mc.util import plain, raises

META = {
    "bounds": "all searches of the library with their main variants; all combinations of solution type (float32, float64), evaluation type (default, float32, float64), sense, evaluation data (0, 2), way of stating the fitness (method per solution, method per batch, function, vectorized function), workers (none, 2), with a solution length of 1 to 3 and every kind of bounds, in 3 steps each (thorough 5, and the full product)",
    "assumptions": ["cross-overs which cut a solution are not applied to solutions of length 1, nor is pycma, which cannot limit the standard deviation of a single coordinate", "fitness values are compared with a tolerance of the less precise of the two types"],
}

SEEN = []  # (values, fitness) of everything evaluated, in whichever worker
DTYPES = {"float32": torch.float32, "float64": torch.float64}


def fitness(x, dtype):
    x = x.as_subclass(torch.Tensor).to(torch.float64)
    return ((x - 0.3).pow(2).sum(dim=-1) + 0.1 * x[..., 0]).to(dtype)


def features(x, dtype):
    x = x.as_subclass(torch.Tensor).to(torch.float64)
    return torch.stack([x[..., 0], x.sum(dim=-1)], dim=-1).to(dtype)


def see(x, f):
    x, f = plain(x), plain(f)
    if x.ndim == 1:
        x, f = x[None], f.reshape(1)
    SEEN.extend(zip(x.tolist(), f.tolist()))


class PerBatch(Problem):
    def _evaluate_batch(self, batch):
        x = batch.values
        f = fitness(x, self.eval_dtype)
        see(x, f)
        if self.eval_data_length:
            batch.set_evals(f, features(x, self.eval_dtype))
        else:
            batch.set_evals(f)


class PerSolution(Problem):
    def _evaluate(self, solution):
        x = solution.values
        f = fitness(x, self.eval_dtype)
        see(x, f)
        if self.eval_data_length:
            solution.set_evals(f, features(x, self.eval_dtype))
        else:
            solution.set_evals(f)


EVAL = {None: None}


def one(x):
    f = fitness(x, EVAL["dtype"])
    see(x, f)
    return (f, features(x, EVAL["dtype"])) if EVAL["data"] else f


@vectorized
def many(x):
    f = fitness(x, EVAL["dtype"])
    see(x, f)
    return (f, features(x, EVAL["dtype"])) if EVAL["data"] else f


def bounds_of(kind, n):
    if kind == "initial":
        return {"initial_bounds": (-1.0, 2.0)}
    if kind == "initial-vector":
        return {"initial_bounds": ([-1.0 - 0.25 * i for i in range(n)], [2.0 + i for i in range(n)])}
    if kind == "strict":
        return {"bounds": (-1.0, 1.5)}
    if kind == "strict-vector":
        return {"bounds": ([-1.0 + 0.25 * i for i in range(n)], [1.5 + i for i in range(n)])}
    if kind == "both":
        return {"bounds": (-2.0, 2.5), "initial_bounds": ([0.0] * n, [1.0 + 0.5 * i for i in range(n)])}
    raise KeyError(kind)


def make_problem(c):
    kw = dict(solution_length=c["n"], dtype=c["dtype"], eval_data_length=c["data"], seed=7, **bounds_of(c["bounds"], c["n"]))
    if c["eval"] is not None:
        kw["eval_dtype"] = c["eval"]
    if c["actors"]:
        kw["num_actors"] = c["actors"]
    EVAL["dtype"] = DTYPES[c["eval"] or c["dtype"]]
    EVAL["data"] = c["data"]
    if c["how"] == "batch":
        return PerBatch(c["sense"], **kw)
    if c["how"] == "solution":
        return PerSolution(c["sense"], **kw)
    return Problem(c["sense"], one if c["how"] == "function" else many, **kw)


def grid_for(p, n):
    return MAPElites.make_feature_grid([-1.0, -1.0], [2.0, 3.0], num_bins=2, dtype=p.eval_dtype)


def steady(p, *ops, **kw):
    s = SteadyStateGA(p, **kw)
    for op in ops:
        s.use(op)
    return s


QUIET = {"verbose": -9}
G = "gaussian"  # unbounded problems only
B = "any bounds"
SEARCHES = {
    "snes": (G, lambda p, n: SNES(p, stdev_init=0.5, popsize=5)),
    "snes-radius": (G, lambda p, n: SNES(p, radius_init=1.0, center_init=[0.5] * n, popsize=4, stdev_max_change=0.2)),
    "snes-adam": (G, lambda p, n: SNES(p, stdev_init=0.5, popsize=4, optimizer="adam", center_learning_rate=0.1, ranking_method="centered")),
    "snes-adaptive": (G, lambda p, n: SNES(p, stdev_init=0.5, popsize=4, num_interactions=None, popsize_max=None)),
    "xnes": (G, lambda p, n: XNES(p, stdev_init=0.5, popsize=5)),
    "xnes-clipup": (G, lambda p, n: XNES(p, radius_init=1.0, popsize=4, optimizer="clipup", center_learning_rate=0.1)),
    "cem": (G, lambda p, n: CEM(p, stdev_init=0.5, popsize=6, parenthood_ratio=0.5)),
    "cem-bounded": (G, lambda p, n: CEM(p, stdev_init=0.5, popsize=6, parenthood_ratio=0.34, stdev_min=0.1, stdev_max=[0.6] * n)),
    "pgpe": (G, lambda p, n: PGPE(p, popsize=4, center_learning_rate=0.3, stdev_learning_rate=0.1, stdev_init=0.4)),
    "pgpe-plain": (G, lambda p, n: PGPE(p, popsize=5, center_learning_rate=0.3, stdev_learning_rate=0.1, stdev_init=[0.4] * n, symmetric=False, optimizer=None, ranking_method="nes")),
    "cmaes": (G, lambda p, n: CMAES(p, stdev_init=0.5, popsize=5)),
    "cmaes-separable": (G, lambda p, n: CMAES(p, stdev_init=0.5, popsize=5, separable=True, active=False)),
    "cmaes-default": (G, lambda p, n: CMAES(p, stdev_init=0.5, center_init=[0.0] * n, csa_squared=True)),
    "pycmaes": (B, lambda p, n: PyCMAES(p, stdev_init=0.25, popsize=5, cma_options=QUIET)),
    "pycmaes-vector": (B, lambda p, n: PyCMAES(p, stdev_init=[0.25] * n, popsize=5, center_init=[0.5] * n, stdev_max=torch.tensor([0.5] * n), stdev_min=0.01, cma_options=QUIET)),
    "pycmaes-solution": (B, lambda p, n: PyCMAES(p, stdev_init=torch.tensor([0.25] * n), center_init=p.generate_batch(1)[0], separable=True, cma_options=QUIET)),
    "ga": (B, lambda p, n: GeneticAlgorithm(p, operators=[OnePointCrossOver(p, tournament_size=2), GaussianMutation(p, stdev=0.4)], popsize=5)),
    "ga-fresh": (B, lambda p, n: GeneticAlgorithm(p, operators=[TwoPointCrossOver(p, tournament_size=3, cross_over_rate=0.5), GaussianMutation(p, stdev=0.4, mutation_probability=0.5)], popsize=4, elitist=False)),
    "ga-sbx": (B, lambda p, n: GeneticAlgorithm(p, operators=[SimulatedBinaryCrossOver(p, tournament_size=2, eta=5.0), GaussianMutation(p, stdev=0.1)], popsize=4, re_evaluate=False)),
    "ga-first": (B, lambda p, n: GeneticAlgorithm(p, operators=[MultiPointCrossOver(p, tournament_size=2, num_points=2, num_children=6), CosynePermutation(p, permute_all=True)], popsize=4, re_evaluate_parents_first=True)),
    "ga-polynomial": ("strict", lambda p, n: GeneticAlgorithm(p, operators=[SimulatedBinaryCrossOver(p, tournament_size=2, eta=5.0), PolynomialMutation(p, eta=5.0, mutation_probability=0.75)], popsize=4)),
    "steady": (B, lambda p, n: steady(p, OnePointCrossOver(p, tournament_size=2), GaussianMutation(p, stdev=0.4), popsize=4)),
    "cosyne": (B, lambda p, n: Cosyne(p, popsize=6, tournament_size=2, mutation_stdev=0.3, num_elites=1)),
    "cosyne-sbx": (B, lambda p, n: Cosyne(p, popsize=6, tournament_size=2, mutation_stdev=0.3, mutation_probability=0.5, elitism_ratio=0.34, eta=5.0, permute_all=True)),
    "mapelites": ("grid", lambda p, n: MAPElites(p, operators=[GaussianMutation(p, stdev=0.5)], feature_grid=grid_for(p, n))),
    "mapelites-cross": ("grid", lambda p, n: MAPElites(p, operators=[OnePointCrossOver(p, tournament_size=2), GaussianMutation(p, stdev=0.5)], feature_grid=grid_for(p, n), re_evaluate=False)),
    "restart": (G, lambda p, n: Restart(p, SNES, {"stdev_init": 0.5, "popsize": 4})),
    "ipop": (G, lambda p, n: IPOP(p, XNES, {"stdev_init": 0.5, "popsize": 3}, min_fitness_stdev=1.0)),
    "ipop-cmaes": (G, lambda p, n: IPOP(p, CMAES, {"stdev_init": 0.5, "popsize": 4}, min_fitness_stdev=1.0)),
}
DISTRIBUTED = {
    "snes": lambda p, n: SNES(p, stdev_init=0.5, popsize=5, distributed=True),
    "xnes": lambda p, n: XNES(p, stdev_init=0.5, popsize=4, distributed=True),
    "cem": lambda p, n: CEM(p, stdev_init=0.5, popsize=8, parenthood_ratio=0.5, distributed=True),
    "pgpe": lambda p, n: PGPE(p, popsize=4, center_learning_rate=0.3, stdev_learning_rate=0.1, stdev_init=0.4, distributed=True),
    "pgpe-small": lambda p, n: PGPE(p, popsize=4, center_learning_rate=0.3, stdev_learning_rate=0.1, stdev_init=0.4, distributed=True, popsize_weighted_grad_avg=True),
}


def prepare(c):
    SEEN.clear()
    fakeray.reset(None)
    torch.manual_seed(11)
    return make_problem(c)


def close(a, b, tol):
    return abs(a - b) <= tol * max(1.0, abs(b))


def population_of(s):
    while hasattr(s, "search"):
        s = s.search
    return getattr(s, "population", None)


def check_batch(p, pop, c, tol, filled=None):
    dt, et = DTYPES[c["dtype"]], p.eval_dtype
    require(pop.values.dtype == dt, "the population has type %s on a problem of type %s", pop.values.dtype, dt)
    require(tuple(pop.values.shape) == (len(pop), c["n"]), "shape of the population: %s", tuple(pop.values.shape))
    require(pop.evals.dtype == et, "evaluations of type %s, expected %s", pop.evals.dtype, et)
    require(tuple(pop.evals.shape) == (len(pop), 1 + c["data"]), "shape of the evaluations: %s", tuple(pop.evals.shape))
    x, e = plain(pop.values), plain(pop.evals).to(torch.float64)
    rows = range(len(pop)) if filled is None else [i for i in range(len(pop)) if bool(filled[i])]
    if dt == torch.float64:
        free = [v for i in rows for v in x[i].tolist() if not (p.lower_bounds is not None and v == round(v, 3))]  # not clipped at a bound
        require(len(free) == 0 or any(torch.tensor(v, dtype=torch.float32).item() != v for v in free), "every value of a double-precision population is a rounded one: %s", x.tolist())
    for i in rows:
        require(bool(torch.isfinite(x[i]).all()), "solution %s holds %s", i, x[i].tolist())
        require(close(float(e[i, 0]), float(fitness(x[i], torch.float64)), tol), "solution %s has fitness %s, stored %s", x[i].tolist(), float(fitness(x[i], torch.float64)), float(e[i, 0]))
        if c["data"]:
            want = features(x[i], torch.float64)
            require(all(close(float(a), float(b), tol) for a, b in zip(e[i, 1:], want)), "solution %s has evaluation data %s, expected %s", x[i].tolist(), e[i, 1:].tolist(), want.tolist())
    if p.lower_bounds is not None and p.upper_bounds is not None:
        lo, hi = plain(p.lower_bounds), plain(p.upper_bounds)
        for i in rows:
            require(bool(((x[i] >= lo) & (x[i] <= hi)).all()), "solution %s leaves the bounds %s..%s", x[i].tolist(), lo.tolist(), hi.tolist())


def matrix(ctx, name, c, steps, distributed=False):
    kind, make = (G, DISTRIBUTED[name]) if distributed else SEARCHES[name]
    p = prepare(c)
    want_et = DTYPES[c["eval"]] if c["eval"] else DTYPES[c["dtype"]]
    require(p.dtype == DTYPES[c["dtype"]] and p.eval_dtype == want_et, "problem of types %s, %s", p.dtype, p.eval_dtype)
    tol = 1e-10 if c["dtype"] == "float64" and want_et == torch.float64 else 1e-4
    if kind == G and not c["bounds"].startswith("initial"):
        require(raises(make, p, c["n"], exc=ValueError) is not None, "a search that ignores bounds accepted a bounded problem")
        return
    s = make(p, c["n"])
    best = worst = None
    better = (lambda a, b: a < b) if c["sense"] == "min" else (lambda a, b: a > b)
    last = 0
    for t in range(1, steps + 1):
        s.step()
        ctx.step()
        require(s.step_count == t, "step_count %s after %s steps", s.step_count, t)
        require(s.status["iter"] == t, "iter %s after %s steps", s.status["iter"], t)
        require(len(SEEN) > last, "step %s evaluated nothing", t)
        for x, f in SEEN[last:]:
            require(len(x) == c["n"], "a solution of length %s was evaluated", len(x))
            require(all(math.isfinite(v) for v in x), "evaluated %s", x)
            if best is None or better(f, best):
                best = f
            if worst is None or better(worst, f):
                worst = f
        last = len(SEEN)
        ctx.state((name, t, c, SEEN[-1]))
        pop = population_of(s)
        if pop is not None and not distributed:
            check_batch(p, pop, c, tol, getattr(s, "filled", None))
        if not distributed:
            st = s.status
            require(close(float(st["best_eval"]), best, tol), "best_eval %s, best seen is %s", float(st["best_eval"]), best)
            require(close(float(st["worst_eval"]), worst, tol), "worst_eval %s, worst seen is %s", float(st["worst_eval"]), worst)
            for key, val in (("best", best), ("worst", worst)):
                sln = st[key]
                require(sln.values.dtype == DTYPES[c["dtype"]], "%s has type %s", key, sln.values.dtype)
                require(close(float(fitness(sln.values, torch.float64)), val, tol), "%s has fitness %s, reported %s", key, float(fitness(sln.values, torch.float64)), val)
                require(plain(sln.values).tolist() in [x for x, _ in SEEN], "%s %s was never evaluated", key, plain(sln.values).tolist())
        else:
            require(math.isfinite(float(s.status["mean_eval"])), "mean_eval %s", s.status["mean_eval"])
        for key in ("center", "stdev"):
            if key in s.status and isinstance(s.status[key], torch.Tensor):
                v = s.status[key]
                require(v.dtype == DTYPES[c["dtype"]], "%s of type %s", key, v.dtype)
                require(bool(torch.isfinite(plain(v)).all()), "%s is %s", key, plain(v).tolist())
                require(v.shape[-1] == c["n"], "%s of shape %s", key, tuple(v.shape))
        if "mean_eval" in s.status and pop is not None and getattr(s, "filled", None) is None and not distributed:
            m = float(plain(pop.evals)[:, 0].to(torch.float64).mean())
            require(close(float(s.status["mean_eval"]), m, max(tol, 1e-6)), "mean_eval %s, expected %s", s.status["mean_eval"], m)


def configurations(kind, full):
    bounds = ("initial", "initial-vector", "strict", "strict-vector", "both")
    if kind == "strict":
        bounds = ("strict", "strict-vector", "both")
    data = (2,) if kind == "grid" else (0, 2)
    keys = ("dtype", "eval", "sense", "data", "how", "actors")
    for vals in itertools.product(("float32", "float64"), (None, "float32", "float64"), ("min", "max"), data, ("batch", "solution", "function", "vectorized"), (0, 2)):
        for b, n in itertools.product(bounds, (1, 2, 3)) if full else ((bounds[0], 2),):
            yield dict(zip(keys, vals), bounds=b, n=n)
    if not full:
        for b, n, dt, sense in itertools.product(bounds, (1, 2, 3), ("float32", "float64"), ("min", "max")):
            yield {"dtype": dt, "eval": None, "sense": sense, "data": data[0], "how": "batch", "actors": 0, "bounds": b, "n": n}


def run(ctx):
    for name, (kind, _) in SEARCHES.items():
        for c in configurations(kind, ctx.thorough):
            if c["n"] == 1 and name in ("pycmaes", "pycmaes-vector", "pycmaes-solution", "ga", "ga-fresh", "ga-first", "steady", "mapelites-cross", "cosyne"):
                continue
            ctx.case("searches", {"search": name, **c}, matrix, ctx, name, c, 5 if ctx.thorough else 3)
    for name in DISTRIBUTED:
        for c in configurations(G, ctx.thorough):
            if c["actors"] and c["bounds"].startswith("initial"):
                ctx.case("distributed", {"search": name, **c}, matrix, ctx, name, c, 3, True)
