"""P42: contradictory declarations are refused, consistent ones are honoured."""

import itertools

import numpy as np
import torch
from evotorch import Problem
from evotorch.algorithms import CEM, CMAES, PGPE, SNES, XNES, Cosyne, GeneticAlgorithm, MAPElites, PyCMAES, SteadyStateGA
from evotorch.decorators import vectorized
from evotorch.operators import GaussianMutation, OnePointCrossOver, TwoPointCrossOver
from evotorch.tools import ObjectArray

from mc import fakeray
from mc.ctx import require
from mc.util import plain, raises

META = {
    "bounds": "problems: all combinations of 9 senses, fitness function (none, plain, vectorized), the vectorized flag, 9 ways of naming 6 types, solution length (none, 1, 2), 6 strict and 6 initial bounds; all combinations of 8 evaluation types with the types, of the evaluation data length and of the two ways of splitting into pieces; searches: all combinations of the mutually exclusive, even, objective-index and length options of every search, on problems of 1 and 2 objectives, bounded or not, numeric or not",
    "assumptions": ["which exception refuses a declaration is left open"],
}


def one(x):
    return torch.sum(x**2)


@vectorized
def many(x):
    return torch.sum(x**2, dim=-1)


def also_many(x):
    return torch.sum(x**2, dim=-1)


class Fills(Problem):
    def _fill(self, values):
        for i in range(len(values)):
            values[i] = [i]


SENSES = {
    "min": ["min"],
    "max": ["max"],
    "list-min": ["min"],
    "both": ["min", "max"],
    "tuple": ["max", "max", "min"],
    "none": None,
    "empty": None,
    "other": None,
    "list-other": None,
}
SENSE_ARG = {"min": "min", "max": "max", "list-min": ["min"], "both": ["min", "max"], "tuple": ("max", "max", "min"), "none": None, "empty": [], "other": "minimize", "list-other": ["min", "Max"]}
DTYPES = {
    "default": (None, torch.float32),
    "float32": ("float32", torch.float32),
    "numpy": (np.dtype("float64"), torch.float64),
    "torch": (torch.float64, torch.float64),
    "half": ("float16", torch.float16),
    "bfloat16": (torch.bfloat16, torch.bfloat16),
    "int64": ("int64", torch.int64),
    "object": (object, object),
    "object-name": ("object", object),
}
BOUNDS = {
    None: None,
    "scalars": (-1, 2),
    "vectors": ([-1, 0], [2, 3]),
    "mixed": (-1, [2, 3]),
    "short": ([-1], [2]),
    "square": ([[-1, 0]], [[2, 3]]),
}


def fits(bounds, length):
    if bounds in (None, "scalars"):
        return True
    if bounds == "square":
        return False
    return length == (1 if bounds == "short" else 2)


def ends(bounds, length):
    lo, hi = BOUNDS[bounds]
    f = lambda v: [float(v)] * length if isinstance(v, int) else [float(x) for x in v]
    return f(lo), f(hi)


def problem(sense, func, flag, dtype, length, strict, initial):
    arg, want = DTYPES[dtype]
    numeric = want is not object
    ok = SENSES[sense] is not None
    ok = ok and not (func == "none" and flag is not None) and not (func == "vectorized" and flag is not None)
    if numeric:
        ok = ok and length is not None and fits(strict, length) and fits(initial, length)
    else:
        ok = ok and length is None and strict is None and initial is None
    kw = {}
    if flag is not None:
        kw["vectorized"] = flag
    if length is not None:
        kw["solution_length"] = length
    if strict is not None:
        kw["bounds"] = BOUNDS[strict]
    if initial is not None:
        kw["initial_bounds"] = BOUNDS[initial]
    if arg is not None:
        kw["dtype"] = arg
    f = {"none": None, "plain": one, "vectorized": many}[func]
    try:
        p = (Problem if numeric else Fills)(SENSE_ARG[sense], f, **kw)
    except Exception as e:
        require(not ok, "refused: %r", e)
        return
    require(ok, "accepted")
    require(list(p.senses) == SENSES[sense], "senses %s", p.senses)
    require(p.is_multi_objective == (len(SENSES[sense]) > 1), "is_multi_objective %s", p.is_multi_objective)
    require(p.objective_sense == (SENSES[sense][0] if len(SENSES[sense]) == 1 else SENSES[sense]) or list(p.objective_sense) == SENSES[sense], "objective_sense %s", p.objective_sense)
    require(p.dtype == want, "type %s", p.dtype)
    require(p.eval_dtype == (want if want in (torch.float16, torch.bfloat16, torch.float64) else torch.float32), "evaluation type %s", p.eval_dtype)
    require(p.solution_length == length, "length %s", p.solution_length)
    require(p.eval_data_length == 0, "evaluation data %s", p.eval_data_length)
    if numeric:
        given = initial or strict
        for got, spec, side in ((p.lower_bounds, strict, 0), (p.upper_bounds, strict, 1), (p.initial_lower_bounds, given, 0), (p.initial_upper_bounds, given, 1)):
            if spec is None:
                require(got is None, "bounds %s appeared", got)
            else:
                want_b = ends(spec, length)[side]
                v = plain(torch.as_tensor(got)).to(torch.float64)
                require(got.dtype == want and v.ndim <= 1 and v.expand(length).tolist() == want_b, "bounds %s, expected %s", got, want_b)
        if given is None:
            require(raises(p.generate_values, 3) is not None, "values generated without bounds")
        else:
            x = plain(p.generate_values(5)).to(torch.float64)
            lo, hi = ends(given, length)
            require(tuple(x.shape) == (5, length), "generated values of shape %s", tuple(x.shape))
            require(all(a <= v <= b for row in x.tolist() for v, a, b in zip(row, lo, hi)), "generated %s outside %s..%s", x.tolist(), lo, hi)
        require((raises(p.ensure_unbounded) is None) == (strict is None), "ensure_unbounded")
        require(raises(p.ensure_numeric) is None, "ensure_numeric refused a numeric problem")
    else:
        require(raises(p.ensure_numeric) is not None, "ensure_numeric accepted objects")
        b = p.generate_batch(2)
        require(isinstance(b.values, ObjectArray) and len(b) == 2, "batch of %s", type(b.values))
    require((raises(p.ensure_single_objective) is None) == (len(SENSES[sense]) == 1), "ensure_single_objective")
    k = len(SENSES[sense])
    require(raises(p.normalize_obj_index) is None if k == 1 else raises(p.normalize_obj_index) is not None, "objective index left out")
    for i in range(-k - 1, k + 1):
        e = raises(p.normalize_obj_index, i)
        require((e is None) == (-k <= i < k), "objective index %s of %s: %s", i, k, e)
        if e is None:
            require(p.normalize_obj_index(i) == i % k, "objective index %s becomes %s", i, p.normalize_obj_index(i))
    if func != "none" and numeric and want.is_floating_point and (initial or strict) and k == 1 and flag is not True:
        b = p.generate_batch(3)
        p.evaluate(b)
        want_f = (plain(b.values).to(torch.float64) ** 2).sum(dim=-1)
        require(torch.allclose(plain(b.evals)[:, 0].to(torch.float64), want_f, rtol=2e-2, atol=2e-2), "fitness %s, expected %s", plain(b.evals)[:, 0].tolist(), want_f.tolist())


EVAL = {
    "float32": ("float32", torch.float32),
    "float64": (torch.float64, torch.float64),
    "numpy": (np.float64, torch.float64),
    "float16": ("float16", torch.float16),
    "bfloat16": (torch.bfloat16, torch.bfloat16),
    "int64": ("int64", None),
    "bool": (torch.bool, None),
    "object": (object, None),
}


def evaluation(dtype, ev, data, pieces, size):
    arg, want = DTYPES[dtype]
    kw = {} if want is object else {"solution_length": 2, "initial_bounds": (-1, 1)}
    ok = EVAL[ev][1] is not None and (pieces is None or size is None)
    try:
        p = (Fills if want is object else Problem)("min", dtype=arg, eval_dtype=EVAL[ev][0], eval_data_length=data, num_subbatches=pieces, subbatch_size=size, **kw)
    except Exception as e:
        require(not ok, "refused: %r", e)
        return
    require(ok, "accepted")
    require(p.eval_dtype == EVAL[ev][1], "evaluation type %s", p.eval_dtype)
    require(p.eval_data_length == (data or 0), "evaluation data %s", p.eval_data_length)
    b = p.generate_batch(3)
    require(b.evals.dtype == EVAL[ev][1] and tuple(b.evals.shape) == (3, 1 + (data or 0)), "evaluations %s of type %s", tuple(b.evals.shape), b.evals.dtype)
    require(bool(torch.isnan(plain(b.evals).to(torch.float64)).all()), "new solutions hold evaluations %s", b.evals.tolist())


# ---------------------------------------------------------------------------------------------
# searches


def subject(kind):
    senses = {"two": ["min", "max"]}.get(kind, "min")
    if kind == "object":
        return Fills("min", dtype=object)
    if kind == "bounded":
        return Problem("min", many, solution_length=2, bounds=(-1.0, 1.0), seed=1)
    if kind == "two":
        return Problem(senses, lambda x: torch.stack([x[:, 0], x[:, 1] ** 2], dim=1), vectorized=True, solution_length=2, initial_bounds=(-1.0, 1.0), seed=1)
    return Problem("min", many, solution_length=2, initial_bounds=(-1.0, 1.0), seed=1, **({"num_actors": 2} if kind == "actors" else {}))


def attempt(fn, ok, what):
    try:
        s = fn()
    except Exception as e:
        require(not ok, "%s refused: %r", what, e)
        return None
    require(ok, "%s accepted", what)
    return s


def index_ok(kind, index):
    k = 2 if kind == "two" else 1
    return (k == 1) if index is None else -k <= index < k


CENTER = {None: None, "scalar": 0.5, "right": [0.5, -0.5], "long": [0.5, 0.5, 0.5]}
STDEV = {None: None, "scalar": 0.5, "right": [0.5, 0.25], "long": [0.5, 0.5, 0.5]}


def gaussian(ctx, name, kind, stdev, radius, center, index):
    fakeray.reset(None)
    cls, kw = {
        "snes": (SNES, {"popsize": 4}),
        "xnes": (XNES, {"popsize": 4}),
        "cem": (CEM, {"popsize": 4, "parenthood_ratio": 0.5}),
        "pgpe": (PGPE, {"popsize": 4, "center_learning_rate": 0.1, "stdev_learning_rate": 0.1}),
    }[name]
    ok = kind in ("plain", "two", "actors") and index_ok(kind, index)
    ok = ok and (stdev is None) != (radius is None) and center != "long" and stdev != "long"
    kw = dict(kw)
    if stdev is not None:
        kw["stdev_init"] = STDEV[stdev]
    if radius is not None:
        kw["radius_init"] = radius
    if center is not None:
        kw["center_init"] = CENTER[center]
    if index is not None:
        kw["obj_index"] = index
    torch.manual_seed(1)
    p = subject(kind)
    s = attempt(lambda: cls(p, **kw), ok, name)
    if s is None:
        return
    if center is not None:
        require(plain(s.status["center"]).tolist() == (CENTER[center] if center == "right" else [CENTER[center]] * 2), "starts at %s", s.status["center"])
    if stdev is not None and name != "xnes":
        want = STDEV[stdev] if stdev == "right" else [STDEV[stdev]] * 2
        require(plain(s.status["stdev"]).tolist() == want, "starts with stdev %s", s.status["stdev"])
    require(s.obj_index == (0 if index is None else index % len(p.senses)), "objective %s", s.obj_index)
    s.step()
    ctx.state((name, kind))


def even(popsize, symmetric, distributed, weighted, kind):
    fakeray.reset(None)
    ok = (not symmetric or distributed or popsize % 2 == 0) and (weighted is None or distributed)
    kw = {} if weighted is None else {"popsize_weighted_grad_avg": weighted}
    p = subject(kind)
    s = attempt(
        lambda: PGPE(p, popsize=popsize, center_learning_rate=0.1, stdev_learning_rate=0.1, stdev_init=0.5, symmetric=symmetric, distributed=distributed, **kw),
        ok,
        "pgpe",
    )
    if s is not None and (popsize % 2 == 0 or not symmetric):
        s.step()
        s.step()


def cmaes(name, kind, center, index, size):
    p = subject(kind)
    ok = kind not in ("object",) and index_ok(kind, index) and center not in ("long",)
    if name == "cmaes":
        ok = ok and kind != "bounded"
    if name == "pycmaes" and center == "scalar":
        return  # left open
    if name == "cmaes" and center == "scalar":
        ok = False
    kw = {"stdev_init": 0.25, "popsize": size}
    if name == "pycmaes":
        kw["cma_options"] = {"verbose": -9}
    if center is not None:
        kw["center_init"] = CENTER[center]
    if index is not None:
        kw["obj_index"] = index
    make = lambda: (CMAES if name == "cmaes" else PyCMAES)(p, **kw)
    if name == "pycmaes" and center == "long":
        require(raises(lambda: make().step()) is not None, "a center of the wrong length was used")  # pycma does not know the length
        return
    s = attempt(make, ok, name)
    if s is not None:
        require(s.obj_index == (0 if index is None else index % len(p.senses)), "objective %s", s.obj_index)
        s.step()
        require(size is None or len(s.population) == size, "population of %s", len(s.population))


def cosyne(kind, stdev, probability, elites, ratio):
    p = subject(kind)
    ok = kind in ("plain", "bounded", "actors") and not (stdev is None and probability is not None) and not (elites is not None and ratio is not None)
    if kind == "two":
        return  # not documented
    if ok and stdev is None:
        return  # a documented way of turning mutation off, seen by P10
    s = attempt(lambda: Cosyne(p, popsize=4, tournament_size=2, mutation_stdev=stdev, mutation_probability=probability, num_elites=elites, elitism_ratio=ratio), ok, "cosyne")
    if s is not None:
        s.step()
        s.step()
        require(len(s.population) == 4, "population of %s", len(s.population))


def genetic(kind, ops, again, first, elitist):
    p = subject(kind)
    if kind == "two":
        mk = {"none": [], "mutation": [GaussianMutation(p, stdev=0.1)], "both": [OnePointCrossOver(p, tournament_size=2, obj_index=0), GaussianMutation(p, stdev=0.1)]}
    else:
        mk = {"none": [], "mutation": [GaussianMutation(p, stdev=0.1)], "both": [OnePointCrossOver(p, tournament_size=2), GaussianMutation(p, stdev=0.1)]}
    ok = ops != "none" and not (first is not None and not again)
    if ok and ops == "both" and first is False:
        return  # a tournament among unevaluated parents: left open
    kw = {} if first is None else {"re_evaluate_parents_first": first}
    s = attempt(lambda: GeneticAlgorithm(p, operators=mk[ops], popsize=4, re_evaluate=again, elitist=elitist, **kw), ok, "ga")
    if s is not None:
        require(s.re_evaluate == again, "re_evaluate %s", s.re_evaluate)
        want = None if not again else (first if first is not None else ops == "both")
        require(s.re_evaluate_parents_first == want, "re_evaluate_parents_first %s, expected %s", s.re_evaluate_parents_first, want)
        s.step()
        s.step()
        require(len(s.population) == 4, "population of %s", len(s.population))


def steady(order):
    p = subject("plain")
    s = SteadyStateGA(p, popsize=4)
    made = {"one": lambda: OnePointCrossOver(p, tournament_size=2), "two": lambda: TwoPointCrossOver(p, tournament_size=2), "gauss": lambda: GaussianMutation(p, stdev=0.1), "callable": lambda: (lambda x: x + 0.5)}
    seen = set()
    for op in order:
        role = "cross" if op in ("one", "two") else "mutation"
        e = raises(s.use, made[op]())
        require((e is None) == (role not in seen), "operator %s after %s: %s", op, sorted(seen), e)
        seen.add(role)
    if seen:
        s.step()
        s.step()
        require(len(s.population) == 4, "population of %s", len(s.population))
    else:
        require(raises(s.step) is not None, "a step without operators")


def grid(lower, upper, bins):
    """MAPElites.make_feature_grid over every pairing of shapes and types."""
    L = {"list1": [0.0], "list2": [0.0, 1.0], "tensor2": torch.tensor([0.0, 1.0]), "double2": torch.tensor([0.0, 1.0], dtype=torch.float64), "scalar": torch.tensor(0.0), "square": torch.zeros(1, 2)}
    U = {"list1": [4.0], "list2": [4.0, 3.0], "tensor2": torch.tensor([4.0, 3.0]), "double2": torch.tensor([4.0, 3.0], dtype=torch.float64), "scalar": torch.tensor(4.0), "square": torch.ones(1, 2)}
    B = {"int": 2, "list1": [2], "list2": [2, 3]}
    tensors = ("tensor2", "double2")
    n = {"list1": 1, "list2": 2, "tensor2": 2, "double2": 2, "scalar": None, "square": None}
    ok = n[lower] is not None and n[lower] == n[upper] and (bins == "int" or int(bins[-1]) == n[lower])
    cast = {} if lower in tensors and upper in tensors else {"dtype": torch.float32}
    if not cast and lower != upper:
        ok = False
    g = attempt(lambda: MAPElites.make_feature_grid(L[lower], U[upper], num_bins=B[bins], **cast), ok, "grid")
    if g is not None:
        nb = [2] * n[lower] if bins == "int" else B[bins]
        cells = int(np.prod(nb))
        require(tuple(g.shape) == (cells, n[lower], 2), "grid of shape %s", tuple(g.shape))


def declared(ctx, fn, *args):
    """One declaration: a transition from nothing to the object declared, or to a refusal."""
    ctx.step()
    ctx.state(fn.__name__, [repr(x) for x in args if x is not ctx])
    return fn(*args)


def run(ctx):
    for v in itertools.product(SENSES, ("none", "plain", "vectorized"), (None, False, True), DTYPES, (None, 1, 2), BOUNDS, BOUNDS):
        ctx.case("problems", dict(zip(("sense", "func", "flag", "dtype", "length", "strict", "initial"), v)), declared, ctx, problem, *v)
    for v in itertools.product(DTYPES, EVAL, (None, 0, 2), (None, 2), (None, 2)):
        ctx.case("evaluations", dict(zip(("dtype", "eval", "data", "pieces", "size"), v)), declared, ctx, evaluation, *v)
    kinds = ("plain", "bounded", "two", "object", "actors")
    for v in itertools.product(("snes", "xnes", "cem", "pgpe"), kinds, STDEV, (None, 1.0), CENTER, (None, 0, 1, 2, -1, -2, -3)):
        if v[1] in ("bounded", "object") and (v[4] or v[5]):
            continue
        ctx.case("gaussian", dict(zip(("search", "problem", "stdev", "radius", "center", "index"), v)), declared, ctx, gaussian, ctx, *v)
    for v in itertools.product((2, 3, 4, 5), (False, True), (False, True), (None, False, True), ("plain", "actors")):
        ctx.case("even", dict(zip(("popsize", "symmetric", "distributed", "weighted", "problem"), v)), declared, ctx, even, *v)
    for v in itertools.product(("cmaes", "pycmaes"), kinds, CENTER, (None, 0, 1, 2, -1, -2, -3), (None, 5)):
        ctx.case("cmaes", dict(zip(("search", "problem", "center", "index", "popsize"), v)), declared, ctx, cmaes, *v)
    for v in itertools.product(kinds, (None, 0.5), (None, 0.5), (None, 1), (None, 0.5)):
        ctx.case("cosyne", dict(zip(("problem", "stdev", "probability", "elites", "ratio"), v)), declared, ctx, cosyne, *v)
    for v in itertools.product(("plain", "bounded", "two", "actors"), ("none", "mutation", "both"), (False, True), (None, False, True), (False, True)):
        ctx.case("genetic", dict(zip(("problem", "operators", "again", "first", "elitist"), v)), declared, ctx, genetic, *v)
    for k in range(4):
        for order in itertools.product(("one", "two", "gauss", "callable"), repeat=k):
            ctx.case("steady", {"order": order}, declared, ctx, steady, order)
    for v in itertools.product(("list1", "list2", "tensor2", "double2", "scalar", "square"), ("list1", "list2", "tensor2", "double2", "scalar", "square"), ("int", "list1", "list2")):
        ctx.case("grid", dict(zip(("lower", "upper", "bins"), v)), declared, ctx, grid, *v)
