"""P22: a clone or a reloaded pickle is independent of, and behaves like, its original."""

import copy
import itertools
import pickle
from collections import OrderedDict, namedtuple

import gymnasium as gym
import numpy as np
import torch
from evotorch import Problem, Solution, SolutionBatch
from evotorch.algorithms import CEM, CMAES, PGPE, SNES, XNES, Cosyne, GeneticAlgorithm, MAPElites, PyCMAES, SteadyStateGA
from evotorch.algorithms.restarter import IPOP, Restart
from evotorch.decorators import vectorized
from evotorch.distributions import ExpGaussian, ExpSeparableGaussian, SeparableGaussian, SymmetricSeparableGaussian
from evotorch.logging import PandasLogger
from evotorch.neuroevolution import GymNE, NEProblem, SupervisedNE, VecGymNE
from evotorch.operators import GaussianMutation, OnePointCrossOver, SimulatedBinaryCrossOver
from evotorch.optimizers import SGD, Adam, ClipUp
from evotorch.tools import ObjectArray, clone
from evotorch.tools.cloning import Serializable, deep_clone
from torch import nn

from checks.p23 import shape_of
from mc import fakeray
from mc.ctx import require
from mc.util import plain, raises

META = {
    "bounds": "every search algorithm (14 configurations) x seeded or not x step boundaries 0-3 x {deepcopy, pickle, clone, copy of a copy} x 3 further steps of original and copy in both orders; every problem class before and after use, with 0 and 2 actors; all alias graphs of 2 container nodes out of 7 kinds with 2 slots",
    "assumptions": [
        "the shuffling state within an epoch of a torch DataLoader cannot be copied: a cloned SupervisedNE starts a new epoch",
        "the randomness outside the problem (torch and numpy global generators) is put back to the same state for both runs",
    ],
}


@vectorized
def sphere(x):
    return (x**2).sum(-1)


@vectorized
def two(x):
    return torch.stack([(x**2).sum(-1), ((x - 1) ** 2).sum(-1)], -1)


@vectorized
def features(x):
    return torch.cat([(x**2).sum(-1, keepdim=True), x[:, :1]], -1)


def problem(seed, f=sphere, senses="min", **kw):
    return Problem(senses, f, solution_length=3, initial_bounds=(-1, 1), seed=seed, **kw)


def ga(seed, **kw):
    p = problem(seed)
    return GeneticAlgorithm(p, operators=[SimulatedBinaryCrossOver(p, tournament_size=2, eta=5), GaussianMutation(p, stdev=0.1)], popsize=6, **kw)


def ga2(seed):
    p = problem(seed, two, ["min", "min"])
    return GeneticAlgorithm(p, operators=[OnePointCrossOver(p, tournament_size=2), GaussianMutation(p, stdev=0.1)], popsize=6)


def ssga(seed):
    p = problem(seed)
    a = SteadyStateGA(p, popsize=6)
    a.use(OnePointCrossOver(p, tournament_size=2))
    a.use(GaussianMutation(p, stdev=0.1))
    return a


def elites(seed):
    p = problem(seed, features, eval_data_length=1)
    grid = MAPElites.make_feature_grid(torch.tensor([-1.0]), torch.tensor([1.0]), 4)
    return MAPElites(p, operators=[GaussianMutation(p, stdev=0.3)], feature_grid=grid)


ALGOS = {
    "SNES": lambda s: SNES(problem(s), stdev_init=1.0, popsize=6),
    "SNES adaptive": lambda s: SNES(problem(s), stdev_init=1.0, popsize=4, num_interactions=None, optimizer="clipup", center_learning_rate=0.2, optimizer_config={"max_speed": 0.3}),
    "XNES": lambda s: XNES(problem(s), stdev_init=1.0, popsize=6),
    "CEM": lambda s: CEM(problem(s), stdev_init=1.0, popsize=6, parenthood_ratio=0.5, stdev_max_change=0.2),
    "PGPE adam": lambda s: PGPE(problem(s), stdev_init=1.0, popsize=6, center_learning_rate=0.1, stdev_learning_rate=0.1, optimizer="adam"),
    "PGPE clipup": lambda s: PGPE(problem(s), stdev_init=1.0, popsize=6, center_learning_rate=0.1, stdev_learning_rate=0.1),
    "CMAES": lambda s: CMAES(problem(s), stdev_init=1.0, popsize=6),
    "CMAES separable": lambda s: CMAES(problem(s), stdev_init=1.0, popsize=6, separable=True, obj_index=0),
    "PyCMAES": lambda s: PyCMAES(problem(s), stdev_init=1.0, popsize=6, cma_options={"verbose": -9}),
    "GA": ga,
    "GA 2 objectives": ga2,
    "GA not elitist": lambda s: ga(s, elitist=False, re_evaluate=True),
    "SteadyStateGA": ssga,
    "Cosyne": lambda s: Cosyne(problem(s), popsize=6, tournament_size=2, mutation_stdev=0.1, permute_all=True),
    "MAPElites": elites,
    "Restart": lambda s: Restart(problem(s), SNES, {"stdev_init": 1.0, "popsize": 6}),
    "IPOP": lambda s: IPOP(problem(s), SNES, {"stdev_init": 1.0, "popsize": 6}),
}

HOW = {
    "deepcopy": copy.deepcopy,
    "pickle": lambda x: pickle.loads(pickle.dumps(x)),
    "clone": clone,
    "twice": lambda x: copy.deepcopy(pickle.loads(pickle.dumps(x))),
}


def rng_state():
    return torch.get_rng_state(), np.random.get_state()


def set_rng(st):
    torch.set_rng_state(st[0])
    np.random.set_state(st[1])


def value(v):
    if isinstance(v, Solution):
        return [value(v.values), value(v.evals)]
    if isinstance(v, SolutionBatch):
        vals = [shape_of(x) for x in v.values] if isinstance(v.values, ObjectArray) else plain(v.values).tolist()
        return repr([vals, plain(v.evals).tolist()])
    if isinstance(v, torch.Tensor):
        return repr(plain(v).tolist())
    if isinstance(v, ObjectArray):
        return repr(shape_of(v))
    if isinstance(v, (list, tuple)):
        return [value(x) for x in v]
    if v is None or isinstance(v, (int, float, str, bool)):
        return repr(v)
    return type(v).__name__


def observe(a):
    out = {"steps": a.step_count}
    pop = getattr(a, "population", None)
    if pop is not None:
        out["population"] = value(pop)
    if a.step_count:
        for k in sorted(a.status):
            out["status " + k] = value(a.status[k])
    else:
        for k in ("center", "stdev", "sigma"):
            if k in a.status:
                v = a.status[k]
                out["status " + k] = value(v)
    return out


def diff(x, y):
    return {k: (x.get(k), y.get(k)) for k in set(x) | set(y) if x.get(k) != y.get(k)}


def same_obs(x, y, what):
    d = diff(x, y)
    require(not d, "%s: %s", what, d)


def advance(a, n):
    out = []
    for _ in range(n):
        a.step()
        out.append(observe(a))
    return out


def algorithm(ctx, name, seed, how, k, first):
    torch.manual_seed(1)
    np.random.seed(1)
    a = ALGOS[name](seed)
    advance(a, k)
    st = rng_state()
    # the course of an untouched twin
    torch.manual_seed(1)
    np.random.seed(1)
    t = ALGOS[name](seed)
    advance(t, k)
    want = advance(t, 3)
    set_rng(st)
    b = HOW[how](a)
    require(all(torch.equal(x, y) if isinstance(x, torch.Tensor) else True for x, y in zip(rng_state(), st)), "copying advanced the global generator")
    before = observe(a)
    same_obs(observe(b), before, "the state of the copy")
    x, y = (a, b) if first == "original" else (b, a)
    set_rng(st)
    for i, (g, w) in enumerate(zip(advance(x, 3), want)):
        same_obs(g, w, f"step {i + 1} of the {first}, continued first")
    same_obs(observe(y), before, f"the {'copy' if first == 'original' else 'original'} after the other one continued")
    set_rng(st)
    for i, (g, w) in enumerate(zip(advance(y, 3), want)):
        same_obs(g, w, f"step {i + 1} of the one continued last")
    same_obs(observe(x), want[2], f"the {first} after the other one continued")
    ctx.step(9 + 2 * k)
    ctx.state(name, k, want)


def logged(ctx, name, how):
    torch.manual_seed(1)
    a = ALGOS[name](3)
    log = PandasLogger(a)
    a.run(2)
    b = HOW[how](a)
    b.run(3)
    require(len(log.to_dataframe()) == 2, "the logger of the original has %d rows after the copy was run", len(log.to_dataframe()))
    a.run(1)
    require(len(log.to_dataframe()) == 3, "the logger of the original has %d rows", len(log.to_dataframe()))
    seen = []
    b.after_step_hook.append(lambda: seen.append(1) or {})
    a.step()
    require(not seen, "a hook of the copy was called by the original")
    ctx.step(7)


# ---- problems -------------------------------------------------------------


def net_eval(net):
    return float(net(torch.ones(2)).sum())


class Env(gym.Env):
    def __init__(self):
        self.observation_space = gym.spaces.Box(-1, 1, (2,))
        self.action_space = gym.spaces.Box(-1, 1, (1,))
        self.t = 0

    def reset(self, seed=None, options=None):
        self.t = 0
        return np.array([1.0, 0.5], dtype="float32"), {}

    def step(self, a):
        self.t += 1
        return np.array([1.0, self.t], dtype="float32"), float(a[0]) + self.t, self.t >= 3, False, {}


def make_env(**kw):
    return Env()


def make_vec(num_envs, **kw):
    return gym.vector.SyncVectorEnv([Env] * num_envs)


def make_net():
    return nn.Linear(2, 1)


DATA = torch.utils.data.TensorDataset(torch.arange(12.0).reshape(6, 2), torch.arange(6.0).reshape(6, 1))

NETS = {"string": lambda: "Linear(2,1)", "module": lambda: nn.Linear(2, 1), "function": lambda: make_net}


class Objs(Problem):
    def __init__(self, **kw):
        super().__init__("min", dtype=object, **kw)

    def _fill(self, values):
        for i in range(len(values)):
            values[i] = [i, {"a": i}]

    def _evaluate(self, s):
        s.set_evals(float(s.values[0] + s.values[1]["a"]))


class Noisy(Problem):
    """Evaluations depend on the problem's own generator and on its own history."""

    def __init__(self, **kw):
        self.calls = [0]
        super().__init__("min", solution_length=3, initial_bounds=(-1, 1), eval_data_length=1, **kw)

    def _evaluate_batch(self, batch):
        self.calls[0] += 1
        noise = self.make_gaussian(len(batch), center=0.0, stdev=1.0)
        batch.set_evals(torch.stack([batch.values.sum(-1) + noise, torch.full((len(batch),), float(self.calls[0]))], -1))


PROBLEMS = {
    "plain": lambda **kw: problem(4, **kw),
    "unseeded": lambda **kw: problem(None, **kw),
    "bounded": lambda **kw: Problem("max", sphere, solution_length=3, bounds=(-1, 1), seed=4, **kw),
    "two objectives": lambda **kw: problem(4, two, ["min", "max"], **kw),
    "objects": lambda **kw: Objs(seed=4, **kw),
    "noisy": lambda **kw: Noisy(seed=4, **kw),
    "noisy unseeded": lambda **kw: Noisy(**kw),
}
for _n, _m in NETS.items():
    PROBLEMS["NE " + _n] = lambda _m=_m, **kw: NEProblem("max", _m(), net_eval, initial_bounds=(-1, 1), seed=4, **kw)
    PROBLEMS["Gym " + _n] = lambda _m=_m, **kw: GymNE(make_env, _m(), observation_normalization=True, initial_bounds=(-1, 1), **kw)
    PROBLEMS["Gym raw " + _n] = lambda _m=_m, **kw: GymNE(make_env, _m(), num_episodes=2, initial_bounds=(-1, 1), **kw)
    PROBLEMS["Supervised " + _n] = lambda _m=_m, **kw: SupervisedNE(DATA, _m(), nn.MSELoss(), minibatch_size=6, initial_bounds=(-1, 1), **kw)
    PROBLEMS["Vec " + _n] = lambda _m=_m, **kw: VecGymNE(make_vec, _m(), observation_normalization=True, **kw)


def pstate(p):
    out = {k: value(p.status[k]) for k in sorted(p.status)}
    out["senses"] = list(p.senses)
    out["length"] = repr(p.solution_length)
    out["dtypes"] = repr((p.dtype, p.eval_dtype, p.eval_data_length))
    for k in ("lower_bounds", "upper_bounds", "initial_lower_bounds", "initial_upper_bounds"):
        out[k] = value(getattr(p, k))
    if hasattr(p, "get_observation_stats") and p.observation_normalization:
        s = p.get_observation_stats()
        out["obs"] = repr(None if s is None else (s.count, value(s.mean) if s.count else None))
    return out


def use(p, i=0, n=4):
    # Given per use, because a copy makes its network anew, which draws (and then overwrites) initial weights.
    torch.manual_seed(11 + i)
    if p.num_actors and p.dtype is not object:
        # The workers of a copy are new ones, seeded by the main generator, which therefore is one draw further.
        b = SolutionBatch(p, n, empty=True)
        b.set_values(torch.rand(n, p.solution_length) * 2 - 1)
    else:
        b = p.generate_batch(n)
    p.evaluate(b)
    out = pstate(p)
    out["batch"] = value(b)
    if hasattr(p, "make_net"):
        net = (p.to_policy if hasattr(p, "to_policy") else p.make_net)(b[0])
        out["net"] = value(net(torch.tensor([0.5, -1.0])).detach())
    return out


def problems(name, how, k, actors, first, ctx):
    def body(chooser):
        fakeray.reset(chooser)
        kw = {} if not actors else {"num_actors": actors}

        def build():
            torch.manual_seed(2)
            np.random.seed(2)
            p = PROBLEMS[name](**kw)
            if k == "net":
                p.make_net(torch.zeros(3))
            elif k == "hook":
                p.before_eval_hook.append(hook)
            for _ in range(k if isinstance(k, int) else 0):
                use(p, 5)
            return p

        p = build()
        st = rng_state()
        before = pstate(p)
        q = HOW[how](p)
        same_obs(pstate(q), before, "the state of the copy")
        x, y = (p, q) if first == "original" else (q, p)
        set_rng(st)
        got1 = [use(x, i) for i in range(2)]
        same_obs(pstate(y), before, "the other one after the first continued")
        set_rng(st)
        got2 = [use(y, i) for i in range(2)]
        for i in range(2):
            same_obs(got1[i], got2[i], f"use {i + 1} after copying, original vs copy")
        same_obs({k: v for k, v in got1[1].items() if k not in ("batch", "net")}, pstate(x), "the first one after the other one continued")
        if not actors:
            t = build()
            want = [use(t, i) for i in range(2)]
            for i in range(2):
                same_obs(got1[i], want[i], f"use {i + 1} after copying vs never copied")
        ctx.step(6)
        ctx.state(name, k, got1)
        return got1

    return body


def hook(batch):
    pass


# ---- parts ------------------------------------------------------------------


class Thing(Serializable):
    def __init__(self):
        self.kids = []

    def _get_cloned_state(self, *, memo):
        return deep_clone(self.__dict__, otherwise_deepcopy=True, memo=memo)


class Foreign:
    def __init__(self):
        self.kids = []


Pair = namedtuple("Pair", ["x", "y"])
GRAPH_KINDS = ("list", "dict", "odict", "tuple", "pair", "objects", "thing", "foreign", "subdict")


class SubDict(dict):
    pass


def graph(kinds, slots):
    arr = np.array([1.5, 2.5])
    ten = torch.tensor([3.0])
    nodes = [None, None]
    mutable = {"list": list, "dict": dict, "odict": OrderedDict, "objects": lambda: np.empty(2, dtype=object), "thing": Thing, "foreign": Foreign, "subdict": SubDict}
    for i, k in enumerate(kinds):
        if k in mutable:
            nodes[i] = mutable[k]()

    def target(s):
        return 5 if s == "s" else arr if s == "a" else ten if s == "t" else nodes[s]

    frozen = [i for i, k in enumerate(kinds) if k in ("tuple", "pair")]
    for i in frozen:
        vals = [target(slots[2 * i]), target(slots[2 * i + 1])]
        if any(v is None for v in vals):
            return None  # a tuple that would have to contain itself or a later tuple directly
        nodes[i] = Pair(*vals) if kinds[i] == "pair" else tuple(vals)
    for i, k in enumerate(kinds):
        if i in frozen:
            continue
        for j in range(2):
            v = target(slots[2 * i + j])
            if k == "list":
                nodes[i].append(v)
            elif k in ("dict", "odict", "subdict"):
                nodes[i]["ab"[j]] = v
            elif k == "objects":
                nodes[i][j] = v
            else:
                nodes[i].kids.append(v)
    return nodes[0]


def look(x, seen=None):
    """Types, data and sharing."""
    seen = {} if seen is None else seen
    if isinstance(x, (int, float, str)) or x is None:
        return x
    if id(x) in seen:
        return ("ref", seen[id(x)][0])
    n = len(seen)
    seen[id(x)] = (n, x)
    t = type(x).__name__
    if isinstance(x, torch.Tensor) or isinstance(x, np.ndarray) and x.dtype != object:
        return (t, n, str(x.dtype), x.tolist())
    if isinstance(x, dict):
        return (t, n, [(k, look(v, seen)) for k, v in x.items()])
    if isinstance(x, (Thing, Foreign)):
        return (t, n, look(x.kids, seen))
    return (t, n, [look(y, seen) for y in x])


def nodes_of(x, seen=None):
    seen = {} if seen is None else seen
    if isinstance(x, (int, float, str)) or x is None or id(x) in seen:
        return seen
    seen[id(x)] = x
    if isinstance(x, torch.Tensor) or isinstance(x, np.ndarray) and x.dtype != object:
        return seen
    for y in x.values() if isinstance(x, dict) else [x.kids] if isinstance(x, (Thing, Foreign)) else x:
        nodes_of(y, seen)
    return seen


def graphs(ctx, kinds, slots):
    for how in ("deep_clone", "clone", "return"):
        x = graph(kinds, slots)
        if x is None:
            return
        before = look(x)
        if how == "return":
            if "foreign" in kinds:
                continue
            y = deep_clone(x, otherwise_return=True)
        else:
            y = deep_clone(x, otherwise_deepcopy=True) if how == "deep_clone" else clone(x)
        require(look(y) == before, "%s gave %s, expected %s", how, look(y), before)
        require(look(x) == before, "%s changed its argument", how)
        shared = [type(v).__name__ for i, v in nodes_of(y).items() if i in nodes_of(x) and not isinstance(v, tuple)]
        require(not shared, "%s shares a %s with the original", how, shared)
        shared = [v for i, v in nodes_of(y).items() if i in nodes_of(x)]
        ctx.step()
    ctx.state(before)


def optimizers(ctx, which, how, k):
    make = {
        "adam": lambda: Adam(solution_length=3, dtype=torch.float32, stepsize=0.1),
        "adam betas": lambda: Adam(solution_length=3, dtype=torch.float32, stepsize=0.1, beta1=0.5, beta2=0.6, amsgrad=True),
        "clipup": lambda: ClipUp(solution_length=3, dtype=torch.float32, stepsize=0.1, max_speed=0.15),
        "sgd": lambda: SGD(solution_length=3, dtype=torch.float32, stepsize=0.1, momentum=0.9),
    }[which]
    grads = [torch.tensor(g) for g in ([1.0, -1.0, 0.5], [0.0, 2.0, -3.0], [5.0, 0.1, 0.0], [-1.0, -1.0, -1.0])]
    a, t = make(), make()
    for g in grads[:k]:
        a.ascent(g)
        t.ascent(g)
    b = HOW[how](a)
    want = [plain(t.ascent(g)) for g in grads]
    for o, label in ((a, "original"), (b, "copy")):
        for i, g in enumerate(grads):
            require(torch.equal(plain(o.ascent(g)), want[i]), "update %d of the %s differs", i, label)
    ctx.step(8)
    ctx.state(which, k, want)


def dists(ctx, cls, how, k):
    pars = {
        "SeparableGaussian": lambda: SeparableGaussian({"mu": torch.tensor([1.0, -1.0]), "sigma": torch.tensor([0.5, 2.0])}),
        "Symmetric": lambda: SymmetricSeparableGaussian({"mu": torch.tensor([1.0, -1.0]), "sigma": torch.tensor([0.5, 2.0])}),
        "ExpSeparable": lambda: ExpSeparableGaussian({"mu": torch.tensor([1.0, -1.0]), "sigma": torch.tensor([0.5, 2.0])}),
        "ExpGaussian": lambda: ExpGaussian({"mu": torch.tensor([1.0, -1.0]), "sigma": torch.eye(2)}),
    }[cls]

    def steps(d, n):
        out = []
        for _ in range(n):
            x = d.sample(4)
            g = d.compute_gradients(x, x.sum(-1), objective_sense="max", ranking_method="centered")
            d = d.update_parameters(g, learning_rates={"mu": 0.1, "sigma": 0.1})
            out.append([value(x), {k: value(v) for k, v in d.parameters.items()}])
        return d, out

    torch.manual_seed(1)
    d, _ = steps(pars(), k)
    before = {k: value(v) for k, v in d.parameters.items()}
    e = HOW[how](d)
    require({k: value(v) for k, v in e.parameters.items()} == before, "the copy has other parameters")
    st = rng_state()
    _, w = steps(d, 2)
    require({k: value(v) for k, v in e.parameters.items()} == before, "the copy changed with the original")
    set_rng(st)
    _, g = steps(e, 2)
    require(w == g, "the copy continued with %s, the original with %s", g, w)
    require({k: value(v) for k, v in d.parameters.items()} == before, "updating changed the distribution itself")
    for key, v in e.parameters.items():
        if isinstance(v, torch.Tensor):
            require(v.data_ptr() != d.parameters[key].data_ptr(), "the copy shares %s", key)
    ctx.step(4)
    ctx.state(cls, k, w)


def batches(ctx, kind, how, k):
    p = Objs() if kind == "objects" else problem(1, two, ["min", "max"]) if kind == "two" else problem(1)
    b = p.generate_batch(3)
    if k:
        p.evaluate(b)
    if k == 2:
        b = b[torch.tensor([2, 0])]
    if k == 3:
        b = b[1:]
    before = value(b)
    c = HOW[how](b)
    require(value(c) == before, "the copy holds %s, expected %s", value(c), before)
    new = [[9, {"a": 9}]] * len(c) if kind == "objects" else torch.full((len(c), 3), 9.0)
    c.set_values(new)
    require(value(b) == before, "writing into the copy changed the original")
    c = HOW[how](b)
    b.set_values(new)
    require(value(c) == before, "writing into the original changed the copy")
    p.evaluate(b)
    require(value(c) == before, "evaluating the original changed the copy")
    p.evaluate(c)
    s = b[0]
    v = value(s)
    t = HOW[how](s)
    require(value(t) == v, "the copied solution is %s, expected %s", value(t), v)
    t.set_values([1, {"a": 1}] if kind == "objects" else torch.zeros(3))
    require(value(s) == v and value(b[0]) == v, "writing into the copied solution changed the original")
    require(not t.is_evaluated and s.is_evaluated, "evaluation marks of the copied solution")
    ctx.step(6)
    ctx.state(kind, k, before)


def run(ctx):
    for name in ALGOS:
        for seed in (None, 5):
            for how in HOW:
                for k in range(4):
                    for first in ("original", "copy"):
                        if not ctx.thorough and (first == "copy") != (k % 2 == 1) and how in ("clone", "twice"):
                            continue
                        ctx.case("algorithm", {"name": name, "seed": seed, "how": how, "steps": k, "first": first}, algorithm, ctx, name, seed, how, k, first)
        if name not in ("Restart", "IPOP"):
            for how in HOW:
                ctx.case("logged", {"name": name, "how": how}, logged, ctx, name, how) if how == "deepcopy" else None
    for name in PROBLEMS:
        for how in HOW:
            if name.startswith("Vec"):
                ks = (0, 1, 2)
            elif name.startswith(("NE", "Gym", "Sup")):
                ks = (0, "net", 1, 2)
            else:
                ks = (0, "hook", 1, 2, 3)
            for k in ks:
                for first in ("original", "copy"):
                    for actors in (0, 2):
                        if actors and name.startswith(("noisy", "Sup", "Gym", "Vec")):
                            continue  # workers have generators, orders and statistics of their own: see P03, P33
                        ctx.explore("problem", {"name": name, "how": how, "after": k, "first": first, "actors": actors}, problems(name, how, k, actors, first, ctx), bound=1 if actors else 0)
    for kinds in itertools.product(GRAPH_KINDS, repeat=2):
        if "foreign" in kinds and "objects" in kinds:
            continue  # numpy's own deepcopy does not support cycles through object arrays
        for s in itertools.product(("s", "a", 0, 1), repeat=4):
            ctx.case("graph", {"kinds": kinds, "slots": s}, graphs, ctx, kinds, s)
    for which in ("adam", "adam betas", "clipup", "sgd"):
        for how in HOW:
            for k in range(4):
                ctx.case("optimizer", {"which": which, "how": how, "after": k}, optimizers, ctx, which, how, k)
    for cls in ("SeparableGaussian", "Symmetric", "ExpSeparable", "ExpGaussian"):
        for how in HOW:
            for k in range(3):
                ctx.case("distribution", {"which": cls, "how": how, "after": k}, dists, ctx, cls, how, k)
    for kind in ("float", "two", "objects"):
        for how in HOW:
            for k in range(4):
                ctx.case("batch", {"kind": kind, "how": how, "after": k}, batches, ctx, kind, how, k)
