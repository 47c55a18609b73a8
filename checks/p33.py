"""P33: runs are reproducible from a seed, and seeded problems leave foreign randomness alone."""

import itertools
import random

import numpy as np
import torch
from evotorch import Problem, SolutionBatch
from evotorch.algorithms import CEM, CMAES, PGPE, SNES, XNES, Cosyne, GeneticAlgorithm, MAPElites, PyCMAES, SteadyStateGA
from evotorch.algorithms.restarter import IPOP, Restart
from evotorch.distributions import ExpGaussian, ExpSeparableGaussian, SeparableGaussian, SymmetricSeparableGaussian
from evotorch.neuroevolution import NEProblem
from evotorch.operators import (
    CosynePermutation,
    CutAndSplice,
    GaussianMutation,
    MultiPointCrossOver,
    OnePointCrossOver,
    PolynomialMutation,
    SimulatedBinaryCrossOver,
    TwoPointCrossOver,
)
from evotorch.tools import make_gaussian, make_randint, make_uniform

from mc import fakeray
from mc.ctx import require
from mc.util import plain, require_same

META = {
    "bounds": "25 search configurations, 3 seeds, 3 generations, up to 2 (thorough 3) interferences out of 6 kinds placed at every boundary (before the problem, before the search, before every step, within every evaluation); every operator and tensor maker; 2-4 workers under every completion order",
    "assumptions": [
        "the cma library draws from NumPy's global generator, so NumPy's state is exempt where it is used",
        "instantiating a neural network draws from PyTorch's global generator (only the reproducibility is required there)",
        "when the work is split into more pieces than workers, which worker (and so which stream) serves a piece depends on timing",
    ],
}
L = 2


def states():
    n = np.random.get_state()
    return {
        "torch": torch.get_rng_state().clone(),
        "numpy": (n[0], n[1].copy()) + tuple(n[2:]),
        "python": random.getstate(),
    }


def require_untouched(before, what, exempt=()):
    after = states()
    require(torch.equal(before["torch"], after["torch"]) or "torch" in exempt, "%s: changed PyTorch's global random state", what)
    same = before["numpy"][0] == after["numpy"][0] and np.array_equal(before["numpy"][1], after["numpy"][1])
    same = same and before["numpy"][2:] == after["numpy"][2:]
    require(same or "numpy" in exempt, "%s: changed NumPy's global random state", what)
    require(before["python"] == after["python"] or "python" in exempt, "%s: changed Python's global random state", what)


def restart_world(k):
    """Global random states unrelated to what the run depends on."""
    torch.manual_seed(1000 + k)
    np.random.seed(2000 + k)
    random.seed(3000 + k)


def twin(seed):
    p = Problem("min", plain_sphere, solution_length=L, initial_bounds=(-1, 1), seed=seed, vectorized=True)
    SNES(p, stdev_init=1.0, popsize=4).step()


FOREIGN = {
    "nothing": lambda seed: None,
    "torch": lambda seed: torch.rand(3),
    "reseeding torch": lambda seed: torch.manual_seed(77),
    "numpy": lambda seed: np.random.rand(2),
    "python": lambda seed: random.random(),
    "another search": lambda seed: twin(5),
    "a twin": lambda seed: twin(seed),
}


def plain_sphere(x):
    return torch.sum((x - 0.3) ** 2, dim=-1)


class Sphere(Problem):
    """Calls back into the harness at every evaluation."""

    def __init__(self, *, callback=None, feats=0, nobj=1, **kw):
        self.callback = callback
        self.feats = feats
        senses = "min" if nobj == 1 else ["min", "max"]
        kw = {"solution_length": L, "initial_bounds": (-1, 1), **kw}
        super().__init__(senses, eval_data_length=feats or None, **kw)

    def _evaluate_batch(self, batch):
        if self.callback is not None:
            self.callback(plain(batch.values))
        x = plain(batch.values).to(torch.float32)
        f = plain_sphere(x)
        ev = f[:, None] if not self.is_multi_objective else torch.stack([f, x[:, 0]], dim=-1)
        if self.feats:
            batch.set_evals(ev, x[:, : self.feats])
        else:
            batch.set_evals(ev)


class Words(Problem):
    def __init__(self, *, callback=None, **kw):
        self.callback = callback
        super().__init__("max", dtype=object, **kw)

    def _fill(self, values):
        for i in range(len(values)):
            n = int(self.make_randint(tuple(), n=3)) + 1
            values[i] = self.make_randint((n,), n=10).tolist()

    def _evaluate_batch(self, batch):
        if self.callback is not None:
            self.callback([list(v) for v in batch.values])
        batch.set_evals(torch.tensor([float(sum(v)) for v in batch.values]))


class Net(NEProblem):
    def __init__(self, *, callback=None, **kw):
        self.callback = callback
        super().__init__("min", "Linear(2, 3) >> Tanh() >> Linear(3, 1)", initial_bounds=(-1, 1), **kw)

    def _evaluate_network(self, net):
        if self.callback is not None:
            self.callback()
        with torch.no_grad():
            return (net(torch.tensor([0.5, -1.0])) - 0.25).abs().sum()


def ga(p, ops, **kw):
    return GeneticAlgorithm(p, operators=ops, popsize=4, **kw)


SEARCHES = {
    "snes": (Sphere, {}, lambda p: SNES(p, stdev_init=1.0, popsize=4)),
    "snes-centered": (Sphere, {}, lambda p: SNES(p, stdev_init=1.0, popsize=4, center_init=[0.5, 0.5], distributed=False, ranking_method="centered")),
    "xnes": (Sphere, {}, lambda p: XNES(p, stdev_init=1.0, popsize=4)),
    "pgpe": (Sphere, {}, lambda p: PGPE(p, stdev_init=1.0, popsize=4, center_learning_rate=0.1, stdev_learning_rate=0.1)),
    "pgpe-plain": (
        Sphere,
        {},
        lambda p: PGPE(
            p, stdev_init=1.0, popsize=4, center_learning_rate=0.1, stdev_learning_rate=0.1, symmetric=False, optimizer="clipup"
        ),
    ),
    "cem": (Sphere, {}, lambda p: CEM(p, stdev_init=1.0, popsize=4, parenthood_ratio=0.5)),
    "cmaes": (Sphere, {}, lambda p: CMAES(p, stdev_init=1.0, popsize=4)),
    "cmaes-separable": (Sphere, {"dtype": "float64"}, lambda p: CMAES(p, stdev_init=1.0, popsize=4, separable=True)),
    "pycmaes": (Sphere, {}, lambda p: PyCMAES(p, stdev_init=1.0, popsize=4, cma_options={"verbose": -9})),
    "ga-gauss": (Sphere, {}, lambda p: ga(p, [OnePointCrossOver(p, tournament_size=2), GaussianMutation(p, stdev=0.5)])),
    "ga-gauss-some": (
        Sphere,
        {"bounds": (-1, 1)},
        lambda p: ga(
            p, [TwoPointCrossOver(p, tournament_size=2), GaussianMutation(p, stdev=0.5, mutation_probability=0.5)], elitist=False
        ),
    ),
    "ga-sbx-poly": (
        Sphere,
        {"bounds": (-1, 1)},
        lambda p: ga(p, [SimulatedBinaryCrossOver(p, tournament_size=3, eta=5.0), PolynomialMutation(p)]),
    ),
    "ga-sbx-poly-some": (
        Sphere,
        {"bounds": (-1, 1)},
        lambda p: ga(
            p,
            [
                SimulatedBinaryCrossOver(p, tournament_size=2, eta=5.0, cross_over_rate=1.0),
                PolynomialMutation(p, eta=10.0, mutation_probability=0.5),
            ],
        ),
    ),
    "ga-points": (
        Sphere,
        {"solution_length": 4},
        lambda p: ga(p, [MultiPointCrossOver(p, tournament_size=2, num_points=3), CosynePermutation(p, permute_all=True)]),
    ),
    "ga-multi": (
        Sphere,
        {"nobj": 2},
        lambda p: ga(p, [SimulatedBinaryCrossOver(p, tournament_size=2, eta=5.0), GaussianMutation(p, stdev=0.1)]),
    ),
    "ga-int": (Sphere, {"dtype": "int64", "initial_bounds": (-5, 5)}, lambda p: ga(p, [OnePointCrossOver(p, tournament_size=2)])),
    "ga-words": (Words, {}, lambda p: ga(p, [CutAndSplice(p, tournament_size=2)])),
    "steady": (
        Sphere,
        {},
        lambda p: (
            lambda s: (s.use(OnePointCrossOver(p, tournament_size=2)), s.use(GaussianMutation(p, stdev=0.5)), s)[2]
        )(SteadyStateGA(p, popsize=4)),
    ),
    "cosyne": (Sphere, {}, lambda p: Cosyne(p, popsize=4, tournament_size=2, mutation_stdev=0.5, permute_all=True)),
    "cosyne-sbx": (
        Sphere,
        {},
        lambda p: Cosyne(p, popsize=4, tournament_size=2, mutation_stdev=0.5, mutation_probability=0.5, eta=5.0, num_elites=1),
    ),
    "mapelites": (
        Sphere,
        {"feats": 1},
        lambda p: MAPElites(
            p,
            operators=[GaussianMutation(p, stdev=0.5)],
            feature_grid=MAPElites.make_feature_grid([-1.0], [1.0], 3, dtype="float32"),
        ),
    ),
    "mapelites-refill": (
        Sphere,
        {"feats": 1},
        lambda p: MAPElites(
            p,
            operators=[SimulatedBinaryCrossOver(p, tournament_size=2, eta=5.0)],
            feature_grid=MAPElites.make_feature_grid([-1.0], [1.0], 3, dtype="float32"),
            re_evaluate=True,
        ),
    ),
    "ipop": (Sphere, {}, lambda p: IPOP(p, SNES, {"stdev_init": 1.0, "popsize": 3}, min_fitness_stdev=0.5)),
    "ipop-cmaes": (Sphere, {}, lambda p: IPOP(p, CMAES, {"stdev_init": 1.0, "popsize": 4}, min_fitness_stdev=0.3)),
    "restart": (Sphere, {}, lambda p: Restart(p, CEM, {"stdev_init": 1.0, "popsize": 4, "parenthood_ratio": 0.5})),
    "network": (Net, {}, lambda p: PGPE(p, stdev_init=0.5, popsize=4, center_learning_rate=0.1, stdev_learning_rate=0.1)),
}


DEEP = ("snes", "cmaes", "ga-gauss-some", "mapelites")  # explored more deeply by the quick tier


def exempt_of(name):
    if name == "pycmaes":
        return ("numpy",)
    return ("torch",) if name == "network" else ()


def record(s):
    pop = s.population if hasattr(s, "population") else s.search_algorithm.population
    if pop is None:  # a freshly restarted search
        return torch.zeros(0), torch.zeros(0)
    v = pop.values
    vals = [list(x) for x in v] if pop.dtype is object else plain(v)
    return vals, plain(pop.evals)


def same_record(a, b):
    if isinstance(a[0], list):
        ok = a[0] == b[0]
    else:
        ok = a[0].shape == b[0].shape and a[0].dtype == b[0].dtype and torch.equal(a[0], b[0])
    return ok and torch.equal(torch.nan_to_num(a[1], nan=-1e9), torch.nan_to_num(b[1], nan=-1e9))


def play(name, seed, steps, interfere, global_seed=0, reseed=None):
    """Records of the populations of all generations; `interfere(where)` is called at every boundary."""
    cls, kw, make = SEARCHES[name]
    restart_world(global_seed)
    fakeray.reset()
    exempt = exempt_of(name)
    owned = seed is not None
    held = [None]
    seen = []

    def guard(what, fn):
        """The library call fn() leaves the global states alone (apart from the foreign draws inside of it)."""
        held[0] = states()
        r = fn()
        if owned:
            require_untouched(held[0], what, exempt)
        return r

    def within(x=None):
        # Foreign draws of the fitness function: what happened until now must not have touched anything.
        if owned:
            require_untouched(held[0], "until the evaluation", exempt)
        if x is not None:
            seen.append(x)
        interfere("evaluation")
        held[0] = states()

    interfere("problem")
    p = guard("creating the problem", lambda: cls(callback=within, seed=seed, **kw))
    require(p.has_own_generator == owned, "has_own_generator is %s", p.has_own_generator)
    interfere("search")
    s = guard("creating the search", lambda: make(p))
    out = []
    for t in range(steps):
        interfere(f"step {t}")
        guard(f"step {t}", s.step)
        out.append(record(s))
        out.extend((x, torch.zeros(0)) for x in seen)
        seen.clear()
        if reseed is not None and t == 0:
            p.manual_seed(reseed)
    return out


BASE = {}


def baseline(name, seed, steps, global_seed=0):
    key = (name, seed, steps, global_seed)
    if key not in BASE:
        BASE[key] = play(name, seed, steps, lambda where: None, global_seed)
    return BASE[key]


def search_case(ctx, name, seed, steps):
    kinds = [k for k in FOREIGN if not (name == "pycmaes" and k == "numpy")]

    def run(chooser):
        want = baseline(name, seed, steps)
        log = []

        def interfere(where):
            k = kinds[chooser.choose(len(kinds), where)]
            if k != "nothing":
                log.append((where, k))
                FOREIGN[k](seed)

        got = play(name, seed, steps, interfere, global_seed=1)
        require(len(got) == len(want), "%s: %s records instead of %s", name, len(got), len(want))
        for t in range(len(want)):
            require(same_record(got[t], want[t]), "%s: record %s differs after foreign draws %s: %s instead of %s", name, t, log, got[t], want[t])
            ctx.step()
        ctx.state(name, seed, log)
        return got

    return run


def seeds_case(ctx, name, steps):
    """Different seeds give different runs; the global seed matters iff the problem has no seed of its own."""
    runs = {s: baseline(name, s, steps) for s in (1, 2, 2**31, 2**32 - 1)}
    for a, b in itertools.combinations(runs, 2):
        diff = any(not same_record(x, y) for x, y in zip(runs[a], runs[b]))
        require(diff, "%s: the seeds %s and %s give the same run", name, a, b)
    free = [play(name, None, steps, lambda w: None, g) for g in (0, 0, 1)]
    require(all(same_record(x, y) for x, y in zip(free[0], free[1])), "%s: unseeded runs from equal global states differ", name)
    require(any(not same_record(x, y) for x, y in zip(free[0], free[2])), "%s: an unseeded run ignores the global state", name)
    ctx.step(5)
    ctx.state(name)


def reseed_case(ctx, name, a, b, steps):
    """From manual_seed on, a run depends on the new seed (and on the population reached) only."""
    x = play(name, a, steps, lambda w: None, 0, reseed=b)
    y = play(name, a, steps, lambda w: None, 5, reseed=b)
    z = play(name, a, steps, lambda w: None, 0, reseed=b + 1)
    base = baseline(name, a, steps)
    require(same_record(x[0], base[0]), "%s: a later manual_seed changed the past", name)
    require(all(same_record(i, j) for i, j in zip(x, y)), "%s: runs with equal seeds and reseedings differ", name)
    if name != "pycmaes":
        require(any(not same_record(i, j) for i, j in zip(x[1:], z[1:])), "%s: manual_seed has no effect", name)
    ctx.step(3)
    ctx.state(name, a, b)


# -- operators and tensor makers
def batch_of(p, n=8):
    b = SolutionBatch(p, n, empty=True)
    if p.dtype is object:
        b.set_values([[i, i + 1, i + 2] for i in range(n)])
    else:
        b.set_values(torch.linspace(-0.9, 0.9, n * p.solution_length).reshape(n, -1).to(p.dtype))
    p.evaluate(b)
    return b


MAKERS = {
    "uniform": lambda p: p.make_uniform(5),
    "uniform solutions": lambda p: p.make_uniform(num_solutions=2, lb=-1.0, ub=2.0),
    "uniform like": lambda p: p.make_uniform_shaped_like(torch.zeros(2, 3)),
    "gaussian": lambda p: p.make_gaussian(5),
    "gaussian solutions": lambda p: p.make_gaussian(num_solutions=2, center=1.0, stdev=2.0, symmetric=True),
    "gaussian like": lambda p: p.make_gaussian_shaped_like(torch.zeros(2, 3)),
    "randint": lambda p: p.make_randint(5, n=1000),
    "values": lambda p: p.generate_values(3),
    "batch": lambda p: p.generate_batch(3).values,
    "batch gaussian": lambda p: p.generate_batch(2, center=0.0, stdev=1.0).values,
    "batch symmetric": lambda p: p.generate_batch(2, center=0.0, stdev=1.0, symmetric=True).values,
    "SolutionBatch": lambda p: SolutionBatch(p, 2).values,
    "Solution": lambda p: SolutionBatch(p, 1)[0].values,
    "tools uniform": lambda p: make_uniform(5, generator=p),
    "tools uniform generator": lambda p: make_uniform(5, generator=p.generator),
    "tools gaussian": lambda p: make_gaussian(5, generator=p),
    "tools randint": lambda p: make_randint(5, n=1000, generator=p),
    "tools int uniform": lambda p: make_uniform(5, lb=-100, ub=100, dtype="int64", generator=p),
    "tools bool": lambda p: make_uniform(40, dtype="bool", generator=p),
    "out uniform": lambda p: p.make_uniform(out=torch.zeros(4)),
    "out gaussian": lambda p: p.make_gaussian(out=torch.zeros(4)),
    "out randint": lambda p: p.make_randint(out=torch.zeros(4, dtype=torch.int64), n=1000),
    "separable": lambda p: SeparableGaussian({"mu": torch.zeros(2), "sigma": torch.ones(2)}).sample(3, generator=p),
    "symmetric": lambda p: SymmetricSeparableGaussian({"mu": torch.zeros(2), "sigma": torch.ones(2)}).sample(4, generator=p),
    "exp separable": lambda p: ExpSeparableGaussian({"mu": torch.zeros(2), "sigma": torch.ones(2)}).sample(3, generator=p),
    "exp": lambda p: ExpGaussian({"mu": torch.zeros(2), "sigma": torch.eye(2)}).sample(3, generator=p),
    "sample out": lambda p: (lambda t: (SeparableGaussian({"mu": torch.zeros(2), "sigma": torch.ones(2)}).sample(out=t, generator=p), t)[1])(torch.zeros(3, 2)),
}
OPERATORS = {
    "gauss": (Sphere, {}, lambda p: GaussianMutation(p, stdev=1.0)),
    "gauss some": (Sphere, {}, lambda p: GaussianMutation(p, stdev=1.0, mutation_probability=0.5)),
    "poly": (Sphere, {"bounds": (-1, 1)}, lambda p: PolynomialMutation(p, eta=5.0)),
    "poly some": (Sphere, {"bounds": (-1, 1)}, lambda p: PolynomialMutation(p, mutation_probability=0.5)),
    "sbx": (Sphere, {}, lambda p: SimulatedBinaryCrossOver(p, tournament_size=2, eta=5.0)),
    "sbx many": (Sphere, {}, lambda p: SimulatedBinaryCrossOver(p, tournament_size=2, eta=5.0, num_children=8)),
    "one": (Sphere, {"solution_length": 6}, lambda p: OnePointCrossOver(p, tournament_size=2)),
    "two": (Sphere, {"solution_length": 6}, lambda p: TwoPointCrossOver(p, tournament_size=2)),
    "points": (Sphere, {"solution_length": 6}, lambda p: MultiPointCrossOver(p, tournament_size=1, num_points=3)),
    "multi-objective": (Sphere, {"nobj": 2}, lambda p: SimulatedBinaryCrossOver(p, tournament_size=2, eta=5.0)),
    "multi-objective by one": (Sphere, {"nobj": 2}, lambda p: SimulatedBinaryCrossOver(p, tournament_size=2, eta=5.0, obj_index=1)),
    "permutation": (Sphere, {}, lambda p: CosynePermutation(p)),
    "permute all": (Sphere, {}, lambda p: CosynePermutation(p, permute_all=True)),
    "splice": (Words, {}, lambda p: CutAndSplice(p, tournament_size=2)),
}


def draws_case(ctx, what, seed):
    """One random action, repeated under foreign draws: the sequence of results depends on the seed only."""

    def sequence(interfere, g, seed):
        restart_world(g)
        if what in OPERATORS:
            cls, kw, make = OPERATORS[what]
            p = cls(seed=seed, **kw)
            b = batch_of(p)
            op = make(p)

            def act():
                r = op(b).values
                return [list(x) for x in r] if p.dtype is object else plain(r)

        else:
            p = Sphere(seed=seed)

            def act():
                return plain(MAKERS[what](p))

        out = []
        for t in range(3):
            interfere(f"draw {t}")
            before = states()
            out.append(act())
            require_untouched(before, f"{what} ({t})")
            ctx.step()
        return out

    def run(chooser):
        kinds = list(FOREIGN)

        def interfere(where):
            FOREIGN[kinds[chooser.choose(len(kinds), where)]](seed)

        want = sequence(lambda w: None, 0, seed)
        got = sequence(interfere, 1, seed)
        require(eq(want, got), "%s: %s instead of %s", what, got, want)
        other = sequence(lambda w: None, 0, seed + 1)
        require(not eq(want, other), "%s: two seeds give the same sequence", what)
        return got

    def eq(a, b):
        return all(x == y if isinstance(x, list) else x.shape == y.shape and torch.equal(x, y) for x, y in zip(a, b))

    return run


# -- workers
class Noisy(Problem):
    """Reports what the workers would draw; its fitness is noise from its own random source."""

    def __init__(self, mode="noise", **kw):
        self.mode = mode
        super().__init__("min", solution_length=L, initial_bounds=(-1, 1), **kw)

    def streams(self):
        return {
            "problem": self.make_uniform(4).tolist(),
            "torch": torch.rand(4).tolist(),
            "numpy": np.random.rand(4).tolist(),
            "python": [random.random() for _ in range(4)],
        }

    def _evaluate_batch(self, batch):
        x = plain(batch.values)
        f = plain_sphere(x)
        if self.mode == "noise":
            f = f + self.make_gaussian(len(batch))
        elif self.mode == "noise numpy":
            f = f + torch.tensor(np.random.randn(len(batch)), dtype=f.dtype)
        elif self.mode == "noise torch":
            f = f + torch.randn(len(batch))
        elif self.mode == "noise python":
            f = f + torch.tensor([random.random() for _ in range(len(batch))])
        batch.set_evals(f)


def workers_case(ctx, actors, seed):
    def streams(seed, g, entropy, foreign):
        fakeray.reset()
        fakeray.world().entropy = entropy
        restart_world(g)
        p = Noisy(seed=seed, num_actors=actors)
        if foreign:
            FOREIGN[foreign](seed if seed is not None else 9)
        before = states()
        r = p.all_remote_problems().streams()
        if seed is not None:
            require_untouched(before, "creating the workers")
        mine = p.make_uniform(4).tolist()
        ctx.step()
        return r, mine

    base, mine = streams(seed, 0, 0, None)
    require(len(base) == actors, "%s workers instead of %s", len(base), actors)
    for kind in ("problem", "torch", "numpy", "python"):
        own = [tuple(w[kind]) for w in base]
        require(len(set(own)) == actors, "workers share a stream (%s): %s", kind, own)
        require(tuple(mine) not in own, "a worker repeats the stream of the main process")
    # The seed of a seeded problem, or the global seed of an unseeded one, determines everything.
    for g, entropy, foreign in itertools.product((0, 1), (0, 1), (None, "torch", "numpy", "python", "another search")):
        if seed is None and (g or foreign == "torch"):
            continue
        again, mine2 = streams(seed, g, entropy, foreign)
        require(again == base and mine2 == mine, "streams depend on %s: %s instead of %s", (g, entropy, foreign), again, base)
    other, _ = streams(8 if seed is None else seed + 1, 0, 0, None)
    require(other != base, "two seeds give the same streams")
    ctx.state(actors, seed)


def parallel_case(ctx, actors, mode, seed, n):
    """A stochastic evaluation with one piece per worker is reproducible under every completion order."""

    def evaluate(chooser, g, entropy):
        fakeray.reset(chooser)
        fakeray.world().entropy = entropy
        restart_world(g)
        p = Noisy(mode, seed=seed, num_actors=actors)
        b = p.generate_batch(n)
        before = states()
        p.evaluate(b)
        require_untouched(before, "a parallel evaluation")
        return plain(b.values), plain(b.evals)

    def run(chooser):
        v0, e0 = evaluate(None, 0, 0)
        v1, e1 = evaluate(chooser, 1, 1)
        require_same(v1, v0, "population")
        require_same(e1, e0, "fitnesses")
        ctx.state(v1, e1)
        ctx.step()
        return e1

    return run


def distributed_case(ctx, name, actors, seed, steps):
    """Distributed gradient estimation with one equal share per worker gives the same run in every order."""

    def go(chooser, g, entropy, foreign):
        fakeray.reset(chooser)
        fakeray.world().entropy = entropy
        restart_world(g)
        p = Noisy("plain", seed=seed, num_actors=actors)
        kw = {"stdev_init": 1.0, "popsize": 2 * actors, "distributed": True}
        if name == "pgpe":
            s = PGPE(p, center_learning_rate=0.1, stdev_learning_rate=0.1, **kw)
        elif name == "cem":
            s = CEM(p, parenthood_ratio=0.5, **kw)
        else:
            s = {"snes": SNES, "xnes": XNES}[name](p, **kw)
        out = []
        for _ in range(steps):
            if foreign:
                FOREIGN["torch"](1)
                FOREIGN["numpy"](1)
            before = states()
            s.step()
            require_untouched(before, "a distributed step")
            out.append((plain(s.status["center"]), plain(s.status["stdev"]) if "stdev" in s.status else None))
            ctx.step()
        return out

    def run(chooser):
        want = go(None, 0, 0, False)
        got = go(chooser, 1, 1, True)
        for t, ((c, d), (c0, d0)) in enumerate(zip(got, want)):
            require_same(c, c0, f"center after step {t}", 1e-4)
            if d0 is not None:
                require_same(d, d0, f"spread after step {t}", 1e-4)
        ctx.state(got)
        return got

    return run


def search_parallel_case(ctx, name, actors, seed, steps):
    """A search with a parallel deterministic evaluation: same populations in every completion order."""
    cls, kw, make = SEARCHES[name]

    def go(chooser, g, entropy):
        fakeray.reset(chooser)
        fakeray.world().entropy = entropy
        restart_world(g)
        p = cls(seed=seed, num_actors=actors, **kw)
        s = make(p)
        out = []
        for _ in range(steps):
            before = states()
            s.step()
            require_untouched(before, "a step", exempt_of(name))
            out.append(record(s))
            ctx.step()
        return out

    def run(chooser):
        want = go(None, 0, 0)
        got = go(chooser, 1, 1)
        for t, (a, b) in enumerate(zip(got, want)):
            require(same_record(a, b), "%s: generation %s differs: %s instead of %s", name, t, a, b)
        ctx.state(got)
        return got

    return run


def run(ctx):
    budget = 3 if ctx.thorough else 2
    for name in SEARCHES:
        for seed in (1, 0, 2**31) if ctx.thorough else (1,):
            b = budget if ctx.thorough or name in DEEP else 1
            ctx.explore("searches", [name, seed], search_case(ctx, name, seed, 3), bound=b)
        ctx.explore("searches", [name, 2**32 - 1], search_case(ctx, name, 2**32 - 1, 2), bound=1)
        ctx.case("seeds", [name], seeds_case, ctx, name, 3)
        for a, b in ((1, 2), (1, 1), (2, 1)):
            ctx.case("reseeding", [name, a, b], reseed_case, ctx, name, a, b, 3)
    for what in list(MAKERS) + list(OPERATORS):
        for seed in (1, 2**31):
            ctx.explore("draws", [what, seed], draws_case(ctx, what, seed), bound=budget if seed == 1 else 1)
    for actors, seed in itertools.product((2, 3, 4), (None, 0, 1, 2**31, 2**32 - 1)):
        ctx.case("workers", [actors, seed], workers_case, ctx, actors, seed)
    for actors, mode, seed, n in itertools.product(
        (2, 3), ("plain", "noise", "noise numpy", "noise torch", "noise python"), (0, 1, 2**31), (1, 2, 3, 5, 6)
    ):
        if n < actors:
            continue
        ctx.explore("stochastic evaluation", [actors, mode, seed, n], parallel_case(ctx, actors, mode, seed, n))
    for name, actors, seed in itertools.product(("snes", "xnes", "pgpe", "cem"), (2, 3), (1, 2**31)):
        ctx.explore("distributed", [name, actors, seed], distributed_case(ctx, name, actors, seed, 3 if actors == 2 or ctx.thorough else 2))
    for name, actors in itertools.product(SEARCHES, (2, 3)):
        if actors == 3 and name not in DEEP and not ctx.thorough:
            continue
        ctx.explore("parallel search", [name, actors], search_parallel_case(ctx, name, actors, 1, 2))
