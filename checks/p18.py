"""P18: functional algorithms work on batches item by item, on values, and agree with the object-oriented ones."""

import itertools
import math

import numpy as np
import torch
from evotorch import Problem
from evotorch.algorithms import CEM, PGPE
from evotorch.algorithms import functional as func
from evotorch.distributions import (
    ExpGaussian,
    ExpSeparableGaussian,
    SeparableGaussian,
    SymmetricSeparableGaussian,
    make_functional_grad_estimator,
    make_functional_sampler,
)

from mc import fakeray, ref
from mc.ctx import require
from mc.util import fmt, plain, raises, require_same, same

META = {
    "bounds": "pgpe (symmetric or not, adam, clipup, sgd, custom optimizer triple), cem, adam, clipup, sgd: every placement of 0 or 1 batch dimension over every argument, values and fitnesses; 2 batch dimensions on every argument pair; 2-3 steps; all rankings; float64, float32, float16, bfloat16; evaluators on inputs of 1-4 dimensions",
    "assumptions": [
        "batch dimensions are right-aligned as documented by expects_ndim",
        "a stdev_max_change contradicting stdev_min or stdev_max is not combined with them",
        "raw fitnesses are combined with some limit on the spread, without which the spread may become negative",
        "in-place changes made by the user to tensors they gave to a functional algorithm are not considered",
    ],
}

D = 2
N = 4
F = torch.float64


# ---- argument domains: value of item i (0..5) ---------------------------------
ARGS = {
    "center_init": (1, lambda i: [0.3 + i, -1.0 + 0.5 * i * i]),
    "center_learning_rate": (0, lambda i: 0.1 + 0.15 * i),
    "stdev_learning_rate": (0, lambda i: 0.05 + 0.1 * i),
    "stdev_init": (1, lambda i: [0.5 + 0.1 * i, 1.0 - 0.05 * i]),
    "radius_init": (0, lambda i: 1.0 + 0.3 * i),
    "stdev_min": (1, lambda i: [0.45 + 0.1 * i, 0.2 + 0.01 * i]),
    "stdev_max": (1, lambda i: [1.2 + 0.1 * i, 1.02 - 0.05 * i]),
    "stdev_max_change": (1, lambda i: [0.05 + 0.02 * i, 0.01 + 0.03 * i]),
    "momentum": (0, lambda i: 0.9 - 0.2 * i / 2),
    "max_speed": (0, lambda i: 0.12 + 0.02 * i),
    "beta1": (0, lambda i: 0.9 - 0.1 * i),
    "beta2": (0, lambda i: 0.99 - 0.1 * i),
    "epsilon": (0, lambda i: 1e-8 + 0.05 * i),
    "follow_grad": (1, None),
    "values": (2, None),
    "evals": (1, None),
}
PERM = [(0, 1, 2, 3), (2, 0, 3, 1), (3, 2, 1, 0), (1, 3, 0, 2), (0, 3, 1, 2), (2, 1, 3, 0)]


def step_arg(name, i, s):
    if name == "values":
        c = ARGS["center_init"][1](i)
        return [[c[0] + ((3 * k + s + i) % 5 - 2) * 0.4 + 0.07 * k, c[1] + ((2 * k + 3 * s + i) % 5 - 2) * 0.6 - 0.05 * k] for k in range(N)]
    if name == "evals":
        return [1.5 * p + 0.25 * p * p + 0.1 * i for p in PERM[(i + 2 * s) % 6]]
    if name == "follow_grad":
        return [0.7 - 0.4 * i + 0.3 * s, (1.0 + 0.2 * i) * (-1.0) ** (s + i)]
    raise AssertionError(name)


def item_value(name, level, nlev, B, i, s=None):
    """The value of argument `name` for batch item i, when it carries `level` of the nlev batch dimensions."""
    j = i
    if level == 0:
        j = 0
    elif level < nlev:
        j = i % B[-1]
    return step_arg(name, j, s) if s is not None else ARGS[name][1](j)


def batched(name, level, B, dtype, s=None):
    nlev = len(B)
    if level == 0:
        return torch.tensor(item_value(name, 0, nlev, B, 0, s), dtype=dtype)
    shape = B[nlev - level:]
    n = math.prod(shape)
    t = torch.tensor([item_value(name, level, nlev, B, i, s) for i in range(n)], dtype=dtype)
    return t.reshape(tuple(shape) + t.shape[1:])


# ---- states as trees ---------------------------------------------------------
def leaves(state, prefix=""):
    if isinstance(state, torch.Tensor):
        yield prefix, state
    elif isinstance(state, tuple) and hasattr(state, "_fields"):
        for k in state._fields:
            yield from leaves(getattr(state, k), f"{prefix}.{k}")
    elif isinstance(state, (tuple, list)):
        for k, v in enumerate(state):
            yield from leaves(v, f"{prefix}[{k}]")


def snapshot(*objs):
    return [(k, plain(v)) for o in objs for k, v in leaves(o)]


def unchanged(snap, objs, what):
    now = [(k, v) for o in objs for k, v in leaves(o)]
    require(len(now) == len(snap), "{}: structure changed", what)
    for (k, a), (_, b) in zip(snap, now):
        require(same(a, b) and a.dtype == b.dtype, "{}: {} was altered", what, k)


def compare_items(big, items, B, what, tol=1e-9):
    """Every tensor of the batched state equals, item by item, the one of the lone states."""
    lone = [dict(leaves(x)) for x in items]
    for k, v in leaves(big):
        r = lone[0][k].ndim
        require(v.ndim >= r, "{}: {} lost dimensions: {}", what, k, tuple(v.shape))
        core = tuple(v.shape[v.ndim - r:])
        left = tuple(v.shape[: v.ndim - r])
        require(
            len(left) <= len(B) and all(a in (1, b) for a, b in zip(reversed(left), reversed(B))),
            "{}: {} has the batch shape {}", what, k, left,
        )
        full = plain(v).expand(tuple(B) + core).reshape((-1,) + core)
        for i in range(len(items)):
            require_same(full[i], lone[i][k], f"{what}: {k} of item {i}", tol)


# ---- algorithms --------------------------------------------------------------
CUSTOM = (
    lambda *, center_init, center_learning_rate, momentum=0.5: func.sgd(
        center_init=center_init, center_learning_rate=center_learning_rate * 0.5, momentum=momentum
    ),
    func.sgd_ask,
    func.sgd_tell,
)
OPT_ARGS = {"adam": ("beta1", "beta2", "epsilon"), "clipup": ("momentum", "max_speed"), "sgd": ("momentum",), "custom": ("momentum",)}


class Alg:
    """One functional algorithm with its batchable arguments."""

    def __init__(self, kind, optimizer=None, symmetric=None, limits="minmax", spread="stdev_init", fixed=None):
        self.kind, self.optimizer, self.symmetric, self.fixed = kind, optimizer, symmetric, dict(fixed or {})
        self.step_args = ("values", "evals")
        if kind in OPT_ARGS:
            self.args = ("center_init", "center_learning_rate") + OPT_ARGS[kind]
            self.step_args = ("follow_grad",)
            return
        lim = {"minmax": ("stdev_min", "stdev_max"), "change": ("stdev_max_change",), "none": ()}[limits]
        if kind == "cem":
            self.args = ("center_init", spread) + lim
            self.fixed.setdefault("parenthood_ratio", 0.5)
            if limits == "minmax":
                self.fixed["stdev_max_change"] = None
        else:
            self.args = ("center_init", "center_learning_rate", "stdev_learning_rate", spread) + lim + OPT_ARGS[optimizer]
            if limits in ("minmax", "none"):
                self.fixed["stdev_max_change"] = None
            if symmetric:
                self.step_args = ("evals",)
        self.fixed.setdefault("objective_sense", "min")

    def start(self, given):
        given = dict(given)
        if self.kind in OPT_ARGS:
            return getattr(func, self.kind)(**given)
        if self.kind == "cem":
            return func.cem(**given, **self.fixed)
        oc = {k: given.pop(k) for k in OPT_ARGS[self.optimizer]}
        opt = CUSTOM if self.optimizer == "custom" else self.optimizer
        return func.pgpe(**given, **self.fixed, optimizer=opt, optimizer_config=oc, symmetric=self.symmetric)

    def ask(self, state):
        if self.kind in OPT_ARGS:
            return getattr(func, self.kind + "_ask")(state)
        return getattr(func, self.kind + "_ask")(state, popsize=N)

    def tell(self, state, given):
        if self.kind in OPT_ARGS:
            return getattr(func, self.kind + "_tell")(state, follow_grad=given["follow_grad"])
        return getattr(func, self.kind + "_tell")(state, given["values"], given["evals"])


def batch_case(ctx, alg, levels, B, steps, dtype="float64"):
    """levels: argument name -> number of batch dimensions it carries."""
    dt = getattr(torch, dtype)
    tol = {"float64": 1e-9, "float32": 2e-4}[dtype]
    n = math.prod(B)
    first = {k: batched(k, levels.get(k, 0), B, dt) for k in alg.args}
    keep = {k: plain(v) for k, v in first.items()}
    big = alg.start(first)
    small = [alg.start({k: torch.tensor(item_value(k, levels.get(k, 0), len(B), B, i), dtype=dt) for k in alg.args}) for i in range(n)]
    compare_items(big, small, B, "initial state", tol)
    state_batched = any(levels.get(k, 0) for k in alg.args)
    for s in range(steps):
        ctx.step()
        snap = snapshot(big)
        torch.manual_seed(s)
        asked = alg.ask(big)
        unchanged(snap, [big], "ask")
        if alg.kind in OPT_ARGS:
            compare_items(asked, [alg.ask(x) for x in small], B, f"ask at step {s}", tol)
        else:
            require(asked.dtype == dt and asked.shape[-2:] == (N, D), "ask gave {} {}", asked.dtype, tuple(asked.shape))
            check_draws(alg, big, asked)
            torch.manual_seed(s)
            require_same(alg.ask(big), asked, "asking the same state again under the same seed")
        given = {k: batched(k, levels.get(k, 0), B, dt, s) for k in alg.step_args}
        if "values" not in alg.step_args and alg.kind == "pgpe":
            given["values"] = plain(asked)
        per_item = []
        for i in range(n):
            g = {k: torch.tensor(item_value(k, levels.get(k, 0), len(B), B, i, s), dtype=dt) for k in alg.step_args}
            if "values" not in g and alg.kind == "pgpe":
                full = plain(asked).expand(tuple(B) + (N, D)).reshape(-1, N, D)
                g["values"] = full[i]
            per_item.append(g)
        gsnap = snapshot(*given.values())
        new = alg.tell(big, given)
        unchanged(snap, [big], "tell")
        unchanged(gsnap, list(given.values()), "tell (its arguments)")
        small = [alg.tell(x, g) for x, g in zip(small, per_item)]
        compare_items(new, small, B, f"state after tell {s + 1}", tol)
        again = alg.tell(big, given)
        for (k, a), (_, b) in zip(leaves(new), leaves(again)):
            require_same(a, b, f"telling the same state the same thing again: {k}")
        for k, v in keep.items():
            require(same(v, first[k]), "the argument {} was altered", k)
        ctx.state(("s", s, state_batched, tuple(fmt(v) for _, v in leaves(new))[:3]))
        big = new


def center_of(alg, state):
    if alg.kind == "cem":
        return state.center
    return func.misc.get_functional_optimizer(state.optimizer).ask(state.optimizer_state)


def check_draws(alg, state, asked):
    """Samples of the batch items are drawn separately, in each item's own location and scale."""
    c, sd = center_of(alg, state), state.stdev
    z = (plain(asked) - c[..., None, :]) / sd[..., None, :]
    if alg.symmetric:
        require_same(z[..., 0::2, :], -z[..., 1::2, :], "samples come in symmetric pairs", 1e-4)
        z = z[..., 0::2, :]
    flat = [round(float(v), 6) for v in z.reshape(-1)]
    require(len(set(flat)) == len(flat), "two samples of the batch share the same random numbers: {}", flat)
    require(max(abs(v) for v in flat) < 8, "samples lie {} spreads away from the center", max(abs(v) for v in flat))


# ---- agreement with the object-oriented algorithms ---------------------------
def fitness(x):
    a, b = x[..., 0], x[..., 1]
    return a * a * 1.5 - b * 3.0 + a * b * 0.7 + torch.sin(3 * b)


def make_problem(sense, dtype="float64", seed=1):
    return Problem(sense, fitness, solution_length=D, initial_bounds=(-1.0, 1.0), vectorized=True, dtype=dtype, eval_dtype=dtype, seed=seed)


def oo_case(ctx, kind, sense, conf, steps):
    prob = make_problem(sense)
    center = torch.tensor([0.5, -0.75], dtype=F)
    conf = dict(conf)
    if kind == "pgpe":
        searcher = PGPE(prob, popsize=6, center_init=center, **conf)
        fconf = {k: v for k, v in conf.items() if k != "distributed"}
        opt = fconf.get("optimizer", "clipup")
        fconf["optimizer"] = opt
        state = func.pgpe(center_init=center, objective_sense=sense, **fconf)
        alg = Alg("pgpe", opt, conf.get("symmetric", True))
    else:
        searcher = CEM(prob, popsize=6, center_init=center, **conf)
        state = func.cem(center_init=center, objective_sense=sense, **conf)
        alg = Alg("cem")
    for s in range(steps):
        searcher.step()
        ctx.step()
        require_same(center_of(alg, state), searcher.status["center"], f"center before step {s + 1}", 1e-6)
        require_same(state.stdev, searcher.status["stdev"], f"spread before step {s + 1}", 1e-6)
        pop = searcher.population
        state = alg.tell(state, {"values": plain(pop.values), "evals": plain(pop.evals[:, 0])})
        ctx.state((kind, sense, s, fmt(state.stdev)))


def ref_case(ctx, kind, conf, grads):
    """Functional optimizers against reference step rules."""
    center = torch.tensor([0.5, -1.0], dtype=F)
    lr = conf.get("center_learning_rate")
    if kind == "adam":
        r = ref.RefAdam(lr if lr is not None else 0.001, conf.get("beta1", 0.9), conf.get("beta2", 0.999), conf.get("epsilon", 1e-8))
    elif kind == "clipup":
        ms = conf.get("max_speed")
        r = ref.RefClipUp(lr if lr is not None else ms / 2, conf.get("momentum", 0.9), ms)
    else:
        r = ref.RefSGD(lr, conf.get("momentum") or 0.0)
    start, ask, tell = func.misc.get_functional_optimizer(kind)
    state = start(center_init=center, **conf)
    x = center.clone()
    for s, g in enumerate(grads):
        g = torch.tensor(g, dtype=F)
        state = tell(state, follow_grad=g)
        x = x + r.ascent(g)
        ctx.step()
        require_same(ask(state), x, f"{kind} {conf} after gradients {grads[: s + 1]}", 1e-9)
    ctx.state((kind, str(conf), grads))


# ---- forms of the arguments --------------------------------------------------
def forms_case(ctx, kind, dtype, spread, form):
    """Scalars, lists, arrays and tensors of any dtype are brought to the dtype of the center."""
    dt = getattr(torch, dtype)
    conv = {
        "number": lambda v: v[0],
        "list": lambda v: list(v),
        "array": lambda v: np.array(v, dtype="float32"),
        "tensor": lambda v: torch.tensor(v, dtype=torch.float64),
    }[form]
    center = torch.tensor([0.5, -1.0, 2.0, 0.0], dtype=dt)
    kw = {"center_init": center, "objective_sense": "max"}
    sp = [2.0] if spread == "radius_init" else [0.5, 0.5, 0.25, 1.0]
    if spread == "radius_init":
        kw[spread] = 2.0 if form in ("number", "list") else conv(sp)[0]
        expect = torch.full((4,), 1.0, dtype=dt)
    else:
        kw[spread] = conv(sp)
        expect = torch.tensor([0.5] * 4 if form == "number" else sp, dtype=dt)
    kw["stdev_min"] = conv([0.125, 0.25, 0.125, 0.125])
    kw["stdev_max"] = conv([4.0, 5.0, 6.0, 7.0])
    if kind == "cem":
        state = func.cem(parenthood_ratio=0.5, **kw)
    else:
        state = func.pgpe(center_learning_rate=0.5, stdev_learning_rate=0.1, stdev_max_change=None, ranking_method="linear", **kw)
    require_same(state.stdev, expect, f"initial spread from {spread} as {form}", 1e-3)
    low = [0.125] * 4 if form == "number" else [0.125, 0.25, 0.125, 0.125]
    high = [4.0] * 4 if form == "number" else [4.0, 5.0, 6.0, 7.0]
    require_same(state.stdev_min, torch.tensor(low, dtype=dt), "stdev_min", 1e-3)
    require_same(state.stdev_max, torch.tensor(high, dtype=dt), "stdev_max", 1e-3)
    for k, v in leaves(state):
        require(v.dtype == dt, "state field {} has dtype {}, the center has {}", k, v.dtype, dt)
    if dtype in ("float16", "bfloat16"):
        ctx.state((kind, dtype, spread, form))
        return
    torch.manual_seed(3)
    ask, tell = getattr(func, kind + "_ask"), getattr(func, kind + "_tell")
    x = ask(state, popsize=4)
    require(x.dtype == dt and x.shape == (4, 4), "ask gave {} {}", x.dtype, tuple(x.shape))
    new = tell(state, x, x.sum(dim=-1))
    for k, v in leaves(new):
        require(v.dtype == dt, "after tell, state field {} has dtype {}, the center has {}", k, v.dtype, dt)
    ctx.state((kind, dtype, spread, form))


def refusal_case(ctx, kind, what):
    kw = {"center_init": torch.zeros(3), "objective_sense": "min", "stdev_init": 1.0}
    if kind == "cem":
        kw["parenthood_ratio"] = 0.5
    else:
        kw.update(center_learning_rate=0.1, stdev_learning_rate=0.1)
    make = getattr(func, kind)
    make(**kw)
    if what == "sense":
        kw["objective_sense"] = "maximize"
    elif what == "scalar center":
        kw["center_init"] = torch.tensor(1.0)
    elif what == "empty center":
        kw["center_init"] = torch.zeros(0)
    elif what == "no spread":
        del kw["stdev_init"]
    elif what == "both spreads":
        kw["radius_init"] = 1.0
    else:
        kw[what] = torch.ones(2)
    require(raises(make, **kw) is not None, "functional {} accepted a wrong {}", kind, what)
    ctx.state((kind, what))


# ---- samplers and gradient estimators ----------------------------------------
DIST = {
    "sep": (SeparableGaussian, {"divide_mu_grad_by": "num_solutions", "divide_sigma_grad_by": "num_solutions"}, ("mu", "sigma")),
    "sym": (SymmetricSeparableGaussian, {"divide_mu_grad_by": "num_directions", "divide_sigma_grad_by": "num_directions"}, ("mu", "sigma")),
    "cem": (SeparableGaussian, {"parenthood_ratio": 0.5}, ("mu", "sigma")),
    "expsep": (ExpSeparableGaussian, {}, ("mu", "sigma")),
    "exp": (ExpGaussian, {}, ("mu", "sigma")),
}


def dist_params(kind, i):
    mu = torch.tensor(ARGS["center_init"][1](i), dtype=F)
    sg = torch.tensor(ARGS["stdev_init"][1](i), dtype=F)
    if kind == "exp":
        sg = torch.diag(sg) + 0.1 * (i + 1) * torch.tensor([[0.0, 1.0], [1.0, 0.0]], dtype=F)
    return mu, sg


def place(vals, level):
    return torch.stack(vals) if level else vals[0]


def grad_case(ctx, kind, rank, sense, levels, how, nb):
    cls, opts, req = DIST[kind]
    lm, ls, lx, lf = levels
    mus, sgs = zip(*[dist_params(kind, i) for i in range(nb)])
    xs = []
    for i in range(nb):
        z = torch.tensor(step_arg("values", i, 0), dtype=F)
        if kind == "sym":
            base = mus[i if lm else 0]
            d = z[:2] - mus[i]
            z = torch.stack([base + d[0], base - d[0], base + d[1], base - d[1]])
        xs.append(z)
    fs = [torch.tensor(step_arg("evals", i, 0), dtype=F) for i in range(nb)]
    mu, sg, x, f = place(list(mus), lm), place(list(sgs), ls), place(xs, lx), place(fs, lf)
    snaps = [plain(t) for t in (mu, sg, x, f)]
    at_call = how["sense_at_call"]
    est = make_functional_grad_estimator(
        cls, required_parameters=["mu", "sigma"], fixed_parameters=opts,
        objective_sense=None if at_call else sense, ranking_method=None if at_call else rank,
        return_samples=how["samples"], return_fitnesses=how["fits"],
    )
    extra = {"objective_sense": sense, "ranking_method": rank} if at_call else {}
    if how["positional"]:
        out = est(x, f, mu, sg, **extra)
    else:
        out = est(x, f, sigma=sg, mu=mu, **extra)
    for a, b in zip(snaps, (mu, sg, x, f)):
        require(same(a, b), "the gradient estimator altered its arguments")
    grads = out.grads if (how["samples"] or how["fits"]) else out
    B = (nb,) if any(levels) else ()
    for i in range(nb if B else 1):
        j = [i if lv else 0 for lv in levels]
        p = {"mu": mus[j[0]], "sigma": sgs[j[1]], **opts}
        want = ref.gradient("sep" if kind == "cem" else kind, p, xs[j[2]], fs[j[3]], rank, sense)
        for k, v in want.items():
            require_same(grads[k][i] if B else grads[k], v, f"gradient {k} of item {i}", 1e-8)
        if how["samples"]:
            got = out.samples[i] if (B and out.samples.ndim == 3) else out.samples
            require_same(got, xs[j[2]], f"returned samples of item {i}")
        if how["fits"]:
            got = out.fitnesses[i] if (B and out.fitnesses.ndim == 2) else out.fitnesses
            require_same(got, fs[j[3]], f"returned fitnesses of item {i}")
    ctx.step()
    ctx.state((kind, rank, sense, levels))


def grad_fn_case(ctx, kind, rank, sense, levels, nb):
    """A gradient estimator which draws and evaluates by itself."""
    cls, opts, req = DIST[kind]
    lm, ls = levels
    mus, sgs = zip(*[dist_params(kind, i) for i in range(nb)])
    mu, sg = place(list(mus), lm), place(list(sgs), ls)
    est = make_functional_grad_estimator(
        cls, required_parameters=["mu", "sigma"], fixed_parameters=opts, function=fitness,
        objective_sense=sense, ranking_method=rank, return_samples=True, return_fitnesses=True,
    )
    torch.manual_seed(11)
    out = est(N, mu=mu, sigma=sg)
    B = any(levels)
    seen = []
    for i in range(nb if B else 1):
        x = out.samples[i] if B else out.samples
        f = out.fitnesses[i] if B else out.fitnesses
        require(x.shape == (N, D), "samples of item {} have shape {}", i, tuple(x.shape))
        require_same(f, fitness(x), f"fitnesses of item {i}", 1e-12)
        p = {"mu": mus[i if lm else 0], "sigma": sgs[i if ls else 0], **opts}
        want = ref.gradient("sep" if kind == "cem" else kind, p, x, f, rank, sense)
        for k, v in want.items():
            require_same(out.grads[k][i] if B else out.grads[k], v, f"gradient {k} of item {i}", 1e-7)
        seen.append(tuple(round(float(v), 6) for v in ((x - p["mu"]).reshape(-1))))
    require(len(set(seen)) == len(seen), "two batch items were given the same samples")
    ctx.step()
    ctx.state((kind, rank, sense, levels, "fn"))


def sampler_case(ctx, kind, levels, positional, nb):
    cls, opts, req = DIST[kind]
    lm, ls = levels
    mus, sgs = zip(*[dist_params(kind, i) for i in range(nb)])
    mu, sg = place(list(mus), lm), place(list(sgs), ls)
    sampler = make_functional_sampler(cls, required_parameters=["mu", "sigma"], fixed_parameters=opts)
    B = any(levels)
    zs = []
    # affine response: samples under the same seed move with mu and scale with sigma
    torch.manual_seed(5)
    x = sampler(N, mu, sg) if positional else sampler(N, sigma=sg, mu=mu)
    require(tuple(x.shape) == ((nb,) if B else ()) + (N, D), "sampler gave shape {}", tuple(x.shape))
    for i in range(nb if B else 1):
        y = x[i] if B else x
        m, s = mus[i if lm else 0], sgs[i if ls else 0]
        z = torch.linalg.solve(s, (y - m).T).T if kind == "exp" else (y - m) / s
        require(bool((z.abs() < 8).all()), "samples of item {} are not around its center: {}", i, fmt(z))
        if kind == "sym":
            require_same(z[0::2], -z[1::2], f"symmetric pairs of item {i}", 1e-9)
            z = z[0::2]
        zs += [round(float(v), 7) for v in z.reshape(-1)]
    require(len(set(zs)) == len(zs), "samples share random numbers")
    for bad in (dict(args=(mu,), kw={}), dict(args=(), kw={}), dict(args=(mu,), kw={"sigma": sg}), dict(args=(mu, sg, sg), kw={})):
        require(raises(sampler, N, *bad["args"], **bad["kw"]) is not None, "the sampler accepted wrong arguments")
    ctx.step()
    ctx.state((kind, levels, positional))


# ---- evaluators bound to problems ---------------------------------------------
class Counting(Problem):
    def __init__(self, senses, style, **kw):
        super().__init__(senses, solution_length=D, initial_bounds=(-1, 1), **kw)
        self.style = style
        self.seen = 0

    def _evaluate_batch(self, batch):
        if self.style == "solution":
            return super()._evaluate_batch(batch)
        self.seen += len(batch)
        f = fitness(batch.values)
        if len(self.senses) > 1:
            f = torch.stack([f, 2 - 3 * f], dim=1)
        if self.eval_data_length:
            batch.set_evals(f, torch.stack([f, f + 1], dim=-1) if f.ndim == 1 else f)
        else:
            batch.set_evals(f)

    def _evaluate(self, sol):
        self.seen += 1
        f = fitness(sol.values)
        sol.set_evals(torch.stack([f, 2 - 3 * f]) if len(self.senses) > 1 else f)


def evaluator_case(ctx, style, multi, obj, shape, dtype, layout, actors=None):
    dt = getattr(torch, dtype)
    if actors:
        fakeray.reset()
    senses = ["min", "max"] if multi else "max"
    if style == "function":
        prob = make_problem("max", dtype)
    else:
        kw = {"num_actors": actors} if actors else {}
        if style == "data":
            kw["eval_data_length"] = 2
        prob = Counting(senses, style, dtype=dtype, eval_dtype=dtype, **kw)
    ev = prob.make_callable_evaluator(**({} if obj is None else {"obj_index": obj}))
    n = math.prod(shape)
    base = torch.arange(n * D, dtype=dt).reshape(tuple(shape) + (D,)) * 0.37 - 0.8
    if layout == "strided":
        x = torch.stack([base, base + 5], dim=-1)[..., 0]
    elif layout == "reversed":
        x = base.flip(-2) if len(shape) else base
    elif layout == "transposed" and len(shape) > 1:
        x = base.transpose(0, 1)
    else:
        x = base
    keep = plain(x)
    want = fitness(keep)
    if multi and obj in (1, -1):
        want = 2 - 3 * want
    got = ev(x)
    ctx.step()
    require(type(got) is torch.Tensor and got.dtype == dt, "evaluator gave a {} of {}", type(got), got.dtype)
    require_same(got, want, f"evaluations for {style} on shape {tuple(x.shape)}", 1e-5)
    require(same(x, keep), "the evaluator altered its argument")
    first = plain(got)
    got2 = ev(x * 2)
    w2 = fitness(keep * 2)
    if multi and obj in (1, -1):
        w2 = 2 - 3 * w2
    require_same(got2, w2, "second call", 1e-5)
    require(same(first, got), "a second call altered the earlier result")
    require(raises(ev, torch.tensor(1.0, dtype=dt)) is not None, "a scalar was accepted")
    ctx.state((style, multi, obj, tuple(shape), dtype, layout, actors))


def evaluator_loop_case(ctx, kind, B):
    """The documented use: ask, evaluate through the problem, tell, with a batch of populations."""
    prob = make_problem("min")
    ev = prob.make_callable_evaluator()
    n = math.prod(B)
    alg = Alg("cem") if kind == "cem" else Alg("pgpe", "clipup", True)
    lv = {"center_init": len(B)}
    big = alg.start({k: batched(k, lv.get(k, 0), B, F) for k in alg.args})
    small = [alg.start({k: torch.tensor(item_value(k, lv.get(k, 0), len(B), B, i), dtype=F) for k in alg.args}) for i in range(n)]
    torch.manual_seed(9)
    for s in range(3):
        x = alg.ask(big)
        big = alg.tell(big, {"values": x, "evals": ev(x)})
        flat = x.reshape(-1, N, D)
        small = [alg.tell(a, {"values": flat[i], "evals": ev(flat[i])}) for i, a in enumerate(small)]
        ctx.step()
        compare_items(big, small, B, f"after generation {s + 1}")
        ctx.state((kind, B, s, fmt(big.stdev)))


# ---- plan ---------------------------------------------------------------------
def placements(names, nlev, thorough):
    if nlev == 1:
        for bits in itertools.product((0, 1), repeat=len(names)):
            if any(bits):
                yield dict(zip(names, bits))
        return
    yield {k: 2 for k in names}
    for k in names:
        for lv in (1, 2):
            yield {k: lv}
            if lv == 1 or thorough:
                yield {a: (lv if a == k else 3 - lv) for a in names}
    for a, b in itertools.combinations(names, 2):
        for la, lb in ((1, 2), (2, 1)) + (((1, 1), (2, 2)) if thorough else ()):
            yield {a: la, b: lb}


def run(ctx):
    algs = [Alg(k) for k in ("adam", "clipup", "sgd")]
    algs += [Alg("cem", limits=lm, spread=sp) for lm in ("minmax", "change", "none") for sp in ("stdev_init", "radius_init")]
    for sym in (True, False):
        for opt in ("adam", "clipup", "sgd", "custom"):
            algs.append(Alg("pgpe", opt, sym, "minmax"))
        algs.append(Alg("pgpe", "sgd", sym, "change", "radius_init", {"objective_sense": "max", "ranking_method": "nes"}))
    for a in algs:
        desc = f"{a.kind} {a.optimizer or ''} {a.symmetric} {a.args}"
        names = a.args + a.step_args
        full = list(placements(names, 1, ctx.thorough))
        if len(names) > 9 and not ctx.thorough:
            # every pair of arguments, every all-but-two
            full = [p for p in full if sum(p.values()) <= 2 or sum(p.values()) >= len(names) - 1]
        for p in full:
            ctx.case("one batch dimension", f"{desc} batched: {[k for k in p if p[k]]}", batch_case, ctx, a, p, (2,), 2)
        for p in placements(names, 2, ctx.thorough):
            ctx.case("two batch dimensions", f"{desc} batched: { {k: v for k, v in p.items() if v} }", batch_case, ctx, a, p, (2, 3), 2)
        for B in ((1,), (4,), (2, 1), (1, 2)):
            ctx.case("batch sizes", f"{desc} {B}", batch_case, ctx, a, {k: len(B) for k in names}, B, 3)
        ctx.case("batch sizes", f"{desc} single float32", batch_case, ctx, a, {"center_init": 1}, (3,), 2, "float32")
    for rank in ("centered", "linear", "nes", "normalized", "raw"):
        for sense in ("min", "max"):
            for sym in (True, False):
                a = Alg("pgpe", "clipup", sym, "minmax" if rank == "raw" else "none", fixed={"objective_sense": sense, "ranking_method": rank})
                for p in ({"center_init": 1}, {"evals": 1}, {"evals": 1, "center_init": 1}, {"stdev_learning_rate": 1}):
                    ctx.case("rankings", f"{rank} {sense} {sym} {p}", batch_case, ctx, a, p, (3,), 3)
    for sense in ("min", "max"):
        for ratio in (0.5, 0.75, 1.0):
            a = Alg("cem", fixed={"objective_sense": sense, "parenthood_ratio": ratio})
            for p in ({"center_init": 1}, {"evals": 1}, {"values": 1}):
                ctx.case("rankings", f"cem {ratio} {sense} {p}", batch_case, ctx, a, p, (3,), 3)

    steps = 5 if ctx.thorough else 4
    opts = [
        ("clipup", None), ("clipup", {"momentum": 0.5}), ("clipup", {"max_speed": 0.15}), ("adam", None),
        ("adam", {"beta1": 0.5, "beta2": 0.7, "epsilon": 0.01}), ("sgd", None), ("sgd", {"momentum": 0.7}),
    ]
    lims = [{}, {"stdev_max_change": None}, {"stdev_max_change": 0.01}, {"stdev_max_change": [0.01, 0.3]}, {"stdev_max_change": None, "stdev_min": 0.9, "stdev_max": 1.05}, {"stdev_max_change": None, "stdev_min": [0.9, 0.5], "stdev_max": [1.01, 1.2]}]
    for sense in ("min", "max"):
        for sym in (True, False):
            for opt, oc in opts:
                for rank in ("centered", "linear", "nes", "normalized", "raw") if (ctx.thorough or oc is None) else ("centered", "nes"):
                    for lim in lims if rank == "centered" else lims[:1] if rank == "raw" else lims[:2]:
                        conf = dict(center_learning_rate=0.1, stdev_learning_rate=0.2, symmetric=sym, optimizer=opt, optimizer_config=oc, ranking_method=rank, stdev_init=1.0, **lim)
                        ctx.case("against objects", f"pgpe {sense} {conf}", oo_case, ctx, "pgpe", sense, conf, steps)
            for sp in ({"stdev_init": [0.5, 2.0]}, {"radius_init": 2.0}):
                conf = dict(center_learning_rate=0.1, stdev_learning_rate=0.2, symmetric=sym, **sp)
                ctx.case("against objects", f"pgpe {sense} {conf}", oo_case, ctx, "pgpe", sense, conf, steps)
        for ratio in (0.34, 0.5, 0.67, 1.0):
            for lim in ({}, {"stdev_max_change": 0.05}, {"stdev_min": 0.95}, {"stdev_max": 0.6}, {"stdev_min": [0.95, 0.1], "stdev_max": [2.0, 0.5]}):
                for sp in ({"stdev_init": 1.0}, {"stdev_init": [1.0, 0.5]}, {"radius_init": 1.5}):
                    if sp != {"stdev_init": 1.0} and ("stdev_min" in lim or "stdev_max" in lim):
                        continue
                    conf = dict(parenthood_ratio=ratio, **sp, **lim)
                    ctx.case("against objects", f"cem {sense} {conf}", oo_case, ctx, "cem", sense, conf, steps)

    gdom = [(0.0, 0.0), (1.0, -2.0), (-0.5, 0.25), (0.0, 3.0), (-4.0, 0.1)]
    confs = {
        "adam": [{}, {"center_learning_rate": 0.5}, {"beta1": 0.5, "beta2": 0.8, "epsilon": 0.1}],
        "clipup": [{"center_learning_rate": 0.5}, {"max_speed": 0.5}, {"center_learning_rate": 0.5, "max_speed": 0.6, "momentum": 0.5}, {"center_learning_rate": 0.3, "momentum": 0.0}],
        "sgd": [{"center_learning_rate": 0.5}, {"center_learning_rate": 0.5, "momentum": 0.9}],
    }
    for kind, cs in confs.items():
        for conf in cs:
            for gs in itertools.product(gdom, repeat=4 if ctx.thorough else 3):
                ctx.case("optimizers", f"{kind} {conf} {gs}", ref_case, ctx, kind, conf, gs)
    for kind in ("cem", "pgpe"):
        for dtype in ("float32", "float64", "float16", "bfloat16"):
            for spread in ("stdev_init", "radius_init"):
                for form in ("number", "list", "array", "tensor"):
                    ctx.case("argument forms", f"{kind} {dtype} {spread} {form}", forms_case, ctx, kind, dtype, spread, form)
        for what in ("sense", "scalar center", "empty center", "no spread", "both spreads", "stdev_init", "stdev_min", "stdev_max", "stdev_max_change"):
            ctx.case("argument forms", f"{kind} refuses {what}", refusal_case, ctx, kind, what)

    plainhow = {"samples": False, "fits": False, "positional": False, "sense_at_call": True}
    hows = [plainhow] + [dict(plainhow, samples=a, fits=b, positional=c, sense_at_call=d) for a, b, c, d in itertools.product((True, False), repeat=4)]
    for kind in DIST:
        ranks = ("centered", "linear", "nes", "normalized", "raw")
        for levels in itertools.product((0, 1), repeat=4):
            if kind == "sym" and levels[0] and not levels[2]:
                continue  # symmetric samples are around the center
            for sense in ("min", "max"):
                for rank in ranks:
                    ctx.case("gradient estimators", f"{kind} {rank} {sense} {levels}", grad_case, ctx, kind, rank, sense, levels, plainhow, 3)
            for h in hows:
                ctx.case("gradient estimators", f"{kind} {levels} {h}", grad_case, ctx, kind, "nes", "max", levels, h, 2)
        for levels in itertools.product((0, 1), repeat=2):
            for sense in ("min", "max"):
                for rank in ranks:
                    ctx.case("gradient estimators", f"{kind} {rank} {sense} {levels} own samples", grad_fn_case, ctx, kind, rank, sense, levels, 3)
            for positional in (True, False):
                ctx.case("samplers", f"{kind} {levels} {positional}", sampler_case, ctx, kind, levels, positional, 3)

    shapes = [(), (1,), (3,), (2, 3), (1, 1), (2, 1, 3)]
    for style, multi, obj in (
        ("function", False, None), ("batch", False, None), ("batch", False, 0), ("solution", False, None), ("data", False, None),
        ("batch", True, 0), ("batch", True, 1), ("batch", True, -1), ("solution", True, 0), ("solution", True, 1),
    ):
        for shape in shapes:
            for dtype in ("float32", "float64"):
                for layout in ("plain", "strided", "reversed", "transposed"):
                    ctx.case("evaluators", f"{style} {multi} {obj} {shape} {dtype} {layout}", evaluator_case, ctx, style, multi, obj, shape, dtype, layout)
            if style != "function":
                ctx.case("evaluators", f"{style} {multi} {obj} {shape} on actors", evaluator_case, ctx, style, multi, obj, shape, "float32", "plain", 2)
    for kind in ("cem", "pgpe"):
        for B in ((), (1,), (2,), (2, 3)):
            ctx.case("evaluators", f"{kind} loop {B}", evaluator_loop_case, ctx, kind, B)
