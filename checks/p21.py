"""P21: restarting searches restart exactly on termination, with the documented modification."""

import itertools

import torch
from evotorch import Problem, SolutionBatch
from evotorch.algorithms import CEM, CMAES, PGPE, SNES, XNES, Cosyne, GeneticAlgorithm, PyCMAES, SteadyStateGA
from evotorch.algorithms.restarter import IPOP, ModifyingRestart, Restart
from evotorch.algorithms.searchalgorithm import SearchAlgorithm, SinglePopulationAlgorithmMixin
from evotorch.operators import GaussianMutation, OnePointCrossOver

from mc.ctx import require
from mc.util import plain

META = {
    "bounds": "all termination patterns over up to 6 (thorough 8) steps for plain, modifying and population-growing restarts of a scripted inner search, with status reads after every step or never; population-growing restarts of every population-based search over 4 (thorough 6) steps and several thresholds",
}


class Prob(Problem):
    def __init__(self, sense="min", data=0, nobj=1):
        super().__init__(sense if nobj == 1 else [sense] * nobj, solution_length=2, initial_bounds=(-1.0, 2.0), seed=3, eval_data_length=data)
        self.history = []

    def _evaluate_batch(self, batch):
        k = len(self.senses)
        f = batch.values[:, :1].repeat(1, k)
        self.history += f[:, 0].tolist()
        if self.eval_data_length:
            batch.set_evals(f, 100.0 * torch.arange(len(batch)).reshape(-1, 1).repeat(1, self.eval_data_length))
        else:
            batch.set_evals(f)


class Inner(SearchAlgorithm, SinglePopulationAlgorithmMixin):
    made = []

    def __init__(self, problem, *, script, popsize=3, tag=None, late=False):
        SearchAlgorithm.__init__(self, problem, tag=lambda: self.tag)
        self.script = script
        self.popsize = popsize
        self.tag = tag
        self.mine = 0
        self.over = False
        self._population = None if late else problem.generate_batch(popsize)
        Inner.made.append(self)
        SinglePopulationAlgorithmMixin.__init__(self)

    @property
    def population(self):
        return self._population

    def _step(self):
        require(self is Inner.made[-1], "an inner search that was already replaced is stepped again")
        require(not self.over, "a terminated inner search is stepped again")
        end, flat, base = self.script.pop(0)
        x = torch.zeros(self.popsize, 2)
        x[:, 0] = base + (0.0 if flat else 1.0) * torch.arange(self.popsize)
        self._population = SolutionBatch(self.problem, self.popsize, empty=True)
        self._population.set_values(x)
        self.problem.evaluate(self._population)
        self.mine += 1
        self.over = end

    @property
    def is_terminated(self):
        return self.over


class Tagging(ModifyingRestart):
    def _modify_algorithm_args(self):
        new = dict(self._algorithm_args)
        new["tag"] = (new.get("tag") or 0) + 1
        self._algorithm_args = new


def scripted(ctx, kind, pattern, read, late, multiplier, data):
    Inner.made = []
    bases = [3.0, -5.0, 40.0, 0.5, -6.0, 7.0, 1.0, 2.0]
    script = [(p == "T", p == "F", bases[i]) for i, p in enumerate(pattern)]
    prob = Prob(data=data)
    args = {"script": script, "popsize": 3, "late": late}
    given = dict(args)
    if kind == "restart":
        s = Restart(prob, Inner, args)
    elif kind == "modifying":
        s = Tagging(prob, Inner, args)
    else:
        s = IPOP(prob, Inner, args, min_fitness_stdev=0.25, popsize_multiplier=multiplier)
    require(len(Inner.made) == 1 and s.num_restarts == 1, "%d inner searches at the beginning", len(Inner.made))
    sizes = [3]
    steps = [0]
    for t, p in enumerate(pattern, 1):
        s.step()
        ctx.step()
        steps[-1] += 1
        if p == "T" or (p == "F" and kind == "ipop"):
            steps.append(0)
            sizes.append(int(multiplier * sizes[-1]) if kind == "ipop" else 3)
        require([x.mine for x in Inner.made] == steps, "step %d: inner searches did %s steps, expected %s", t, [x.mine for x in Inner.made], steps)
        require(s.search_algorithm is Inner.made[-1], "step %d: the current inner search is not the newest one", t)
        require(s.num_restarts == len(steps), "num_restarts is %s, expected %d", s.num_restarts, len(steps))
        if read:
            st = s.status
            require(st["iter"] == t, "iter is %s at step %d", st["iter"], t)
            require(st["num_restarts"] == len(steps), "status reports %s restarts, expected %d", st["num_restarts"], len(steps))
            bool(st["algorithm_terminated"])
            dict(st)
            inner = st["search_algorithm"]
            require(inner["tag"] == Inner.made[-1].tag, "status of another inner search")
            if steps[-1] > 0:
                require(inner["iter"] == steps[-1], "inner iter is %s, expected %s", inner["iter"], steps[-1])
            best = min(prob.history)
            require(st["best_eval"] == best, "best_eval is %s, but %s was found", st["best_eval"], best)
            require(float(st["best"].values[0]) == best, "best solution lost")
            require(st["worst_eval"] == max(prob.history), "worst_eval")
        ctx.state(kind, steps, sizes)
    require([x.popsize for x in Inner.made] == sizes, "population sizes %s, expected %s", [x.popsize for x in Inner.made], sizes)
    if kind == "modifying":
        require([x.tag for x in Inner.made] == list(range(1, len(steps) + 1)), "tags %s", [x.tag for x in Inner.made])
    require(set(args) == set(given) and all(args[k] is given[k] for k in args), "the given arguments were changed")
    require(all(x.problem is prob for x in Inner.made), "an inner search works on another problem")


def ops(p):
    return [OnePointCrossOver(p, tournament_size=2), GaussianMutation(p, stdev=0.2)]


REAL = {
    "snes": (SNES, lambda p: {"stdev_init": 0.5, "popsize": 3}),
    "snes-default": (SNES, lambda p: {"stdev_init": 0.5}),
    "xnes": (XNES, lambda p: {"stdev_init": 0.5, "popsize": 3}),
    "cem": (CEM, lambda p: {"stdev_init": 0.5, "popsize": 4, "parenthood_ratio": 0.5}),
    "pgpe": (PGPE, lambda p: {"stdev_init": 0.5, "popsize": 4, "center_learning_rate": 0.2, "stdev_learning_rate": 0.1}),
    "cmaes": (CMAES, lambda p: {"stdev_init": 0.5, "popsize": 4}),
    "cmaes-default": (CMAES, lambda p: {"stdev_init": 0.5}),
    "pycmaes": (PyCMAES, lambda p: {"stdev_init": 0.5, "popsize": 4}),
    "ga": (GeneticAlgorithm, lambda p: {"operators": ops(p), "popsize": 4}),
    "steady": (SteadyStateGA, lambda p: {"operators": ops(p), "popsize": 4}),
    "cosyne": (Cosyne, lambda p: {"popsize": 4, "tournament_size": 2, "mutation_stdev": 0.3, "num_elites": 1}),
}


def real(ctx, name, threshold, multiplier, data, nobj, read, steps):
    torch.manual_seed(2)
    prob = Prob(data=data, nobj=nobj)
    cls, mk = REAL[name]
    args = mk(prob)
    given = dict(args)
    multi = {} if nobj == 1 else {"obj_index": 0}
    args.update(multi)
    given.update(multi)
    s = IPOP(prob, cls, args, min_fitness_stdev=threshold, popsize_multiplier=multiplier)
    current = s.search_algorithm
    size = None
    restarts = 1
    want_size = None
    for t in range(1, steps + 1):
        s.step()
        ctx.step()
        pop = current.population
        evals = plain(pop.evals)[:, 0]
        require(current.step_count >= 1, "the inner search was not stepped")
        require(not bool(torch.isnan(evals).any()), "unevaluated population after a step")
        size = len(pop)
        if want_size is not None:
            require(size == want_size, "population of %d after a restart, expected %d", size, want_size)
        dev = float(evals.std())
        ended = s.search_algorithm is not current
        if abs(dev - threshold) > 1e-6:
            require(ended == (dev < threshold), "fitness deviation %s with threshold %s: restarted=%s", dev, threshold, ended)
        if ended:
            restarts += 1
            want_size = int(multiplier * size)
            current = s.search_algorithm
            require(type(current) is cls and current.step_count == 0, "the new inner search is not fresh")
        require(s.num_restarts == restarts, "num_restarts is %s, expected %d", s.num_restarts, restarts)
        if read:
            st = dict(s.status)
            require(st["num_restarts"] == restarts and st["iter"] == t, "status %s", st)
            if nobj == 1:
                require(abs(st["best_eval"] - min(prob.history)) < 1e-6, "best_eval %s, found %s", st["best_eval"], min(prob.history))
        ctx.state(name, restarts, size)
    require(set(args) == set(given) and all(args[k] is given[k] for k in args), "the given arguments were changed")
    for op in getattr(current, "_operators", None) or []:
        require(op.problem is prob, "after a restart the operators work for a copy of the problem")


def default_args(ctx):
    """Two restarting searches with default arguments do not share anything."""

    class Counting(SearchAlgorithm):
        def __init__(self, problem, **kw):
            self.kw = kw
            super().__init__(problem)

        def _step(self):
            pass

    p = Prob()
    a, b = Tagging(p, Counting), Tagging(p, Counting)
    require(a.search_algorithm.kw == {"tag": 1} and b.search_algorithm.kw == {"tag": 1}, "default arguments are shared")
    ctx.step(2)


def run(ctx):
    depth = 8 if ctx.thorough else 6
    for kind in ("restart", "modifying", "ipop"):
        letters = ".T" if kind != "ipop" else ".TF"
        top = depth if kind != "ipop" else depth - 1
        for n in range(1, top + 1):
            for pattern in itertools.product(letters, repeat=n):
                for read in (False, True):
                    for late in (False, True):
                        if late and not read and n < top:
                            continue
                        for mult in (2, 1.5) if kind == "ipop" and n <= 4 else (2,):
                            for data in (0, 1) if n <= 4 else (0,):
                                desc = {"kind": kind, "pattern": "".join(pattern), "read": read, "late": late, "mult": mult, "data": data}
                                ctx.case("scripted", desc, scripted, ctx, kind, pattern, read, late, mult, data)
    for name in REAL:
        for threshold, mult, data, nobj, read in itertools.product((1e-9, 0.3, 0.6, 1.0, 100.0), (2, 1.5), (0, 1), (1,), (False, True)):
            desc = {"alg": name, "threshold": threshold, "mult": mult, "data": data, "read": read}
            if name == "pgpe" and mult != 2:
                continue
            ctx.case("real", desc, real, ctx, name, threshold, mult, data, nobj, read, 6 if ctx.thorough else 4)
    ctx.case("default arguments", {}, default_args, ctx)
