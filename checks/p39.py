"""P39: a fitness function receives its solutions where it asked for them."""

import itertools
import os
from unittest import mock

import torch
from evotorch import Problem, SolutionBatch
from evotorch.decorators import on_aux_device, on_cuda, on_device, vectorized
from evotorch.distributions import SeparableGaussian

from mc import fakeray
from mc.ctx import require
from mc.util import plain, raises, require_same

META = {
    "bounds": "functions and methods marked in every order of decorators; 1..2 objectives, 0..2 evaluation data, results in every accepted form; whole batches, slices, selections and single solutions of up to 4 solutions; 0 or 2 workers; devices: cpu under two names (so that solutions really are moved and brought back), a device without memory to see what the function receives, and a simulated presence of GPUs for the choice of the auxiliary device",
    "assumptions": ["no GPU is present here, so nothing is computed on one"],
}

SEEN = []


def fit1(x):
    SEEN.append(x.device.type)
    return x.sum(dim=-1)


def fit(kind, nobj, ndata, vec):
    """A function returning its results in one of the accepted forms."""

    def g(x):
        SEEN.append(x.device.type)
        s = x.sum(dim=-1)
        ev = torch.stack([s * (j + 1) for j in range(nobj)], dim=-1)
        data = torch.stack([s + 10 * (j + 1) for j in range(ndata)], dim=-1) if ndata else None
        if kind == "flat":
            return s
        if kind == "pair":
            return ev, data
        if kind == "wide":
            return torch.cat([ev, data], dim=-1)
        return ev

    return g


def expected(values, nobj, ndata, kind):
    s = values.sum(dim=-1)
    cols = [s * (j + 1) for j in range(nobj)]
    if ndata:
        cols += [s + 10 * (j + 1) if kind in ("pair", "wide") else torch.full_like(s, float("nan")) for j in range(ndata)]
    return torch.stack(cols, dim=-1)


MARKS = {
    "none": lambda f: f,
    "cpu": on_device("cpu"),
    "cpu:0": on_device("cpu:0"),
    "device object": on_device(torch.device("cpu", 0)),
    "aux": on_aux_device,
    "aux()": on_aux_device(),
}


class InBatch(Problem):
    kind = "2d"

    def __init__(self, nobj, ndata, kind, **kw):
        super().__init__(["min"] * nobj if nobj > 1 else "min", solution_length=2, initial_bounds=(-1, 1), eval_data_length=ndata, seed=1, **kw)
        self._fn = fit(kind, nobj, ndata, True)


def method_problem(mark, place, nobj, ndata, kind, **kw):
    def body(self, x):
        r = self._fn(x.values)
        if isinstance(r, tuple):
            x.set_evals(*r)
        else:
            x.set_evals(r)

    class P(InBatch):
        pass

    setattr(P, place, MARKS[mark](body))
    return P(nobj, ndata, kind, **kw)


def function_problem(mark, order, nobj, ndata, kind, **kw):
    g = fit(kind, nobj, ndata, True)
    if order == "vectorized inside":
        g = MARKS[mark](vectorized(g))
    elif order == "vectorized outside":
        g = vectorized(MARKS[mark](g))
    elif order == "argument":
        g = MARKS[mark](g)
        kw["vectorized"] = True
    else:  # one solution at a time
        g = MARKS[mark](g)
    return Problem(["min"] * nobj if nobj > 1 else "min", g, solution_length=2, initial_bounds=(-1, 1), eval_data_length=ndata, seed=1, **kw)


VALUES = torch.tensor([[1.0, 2.0], [-1.0, 0.5], [0.0, 4.0], [3.0, 3.0]])


def roundtrip_case(ctx, mark, place, nobj, ndata, kind, part, workers):
    fakeray.reset()
    if place in ("_evaluate", "_evaluate_batch"):
        p = method_problem(mark, place, nobj, ndata, kind, num_actors=workers)
    else:
        p = function_problem(mark, place, nobj, ndata, kind, num_actors=workers)
    whole = SolutionBatch(p, 4, empty=True)
    whole.set_values(VALUES)
    want = torch.full((4, nobj + ndata), float("nan"))
    exp = expected(VALUES, nobj, ndata, kind)
    if part == "whole":
        x, rows = whole, [0, 1, 2, 3]
    elif part == "slice":
        x, rows = whole[1:3], [1, 2]
    elif part == "one":
        x, rows = whole[2], [2]
    else:  # selection: a copy
        x, rows = whole[[3, 0]], []
    want[rows] = exp[rows]
    p.evaluate(x)
    require_same(plain(whole.values), VALUES, "the values of the solutions")
    require_same(plain(whole.evals), want, "the evaluations")
    if part == "selection":
        require_same(plain(x.evals), exp[[3, 0]], "the evaluations of the selected solutions")
        require_same(plain(x.values), VALUES[[3, 0]], "the values of the selected solutions")
    require(x.device == torch.device("cpu"), "the batch moved to {}", x.device)
    # a second evaluation of changed solutions replaces everything
    if part == "whole":
        whole.set_values(VALUES + 1)
        p.evaluate(whole)
        require_same(plain(whole.evals), expected(VALUES + 1, nobj, ndata, kind), "the second evaluations")
        ctx.step()
    ctx.step()
    ctx.state(mark, place, nobj, ndata, kind, part, workers)


class _Received(Exception):
    pass


def receive_case(ctx, place, mark, vec):
    """What the function is handed really is on the device it asked for."""
    got = []

    def g(*args):
        x = args[-1]
        got.append((x if isinstance(x, torch.Tensor) else x.values).device.type)
        got.append(x.device.type)
        raise _Received

    if mark == "changed":
        g = on_device("cpu")(g)
        g.device = "meta"
    elif mark == "attribute":
        g.device = torch.device("meta")
    elif mark == "aux":
        g = on_aux_device(g)
    else:
        g = on_device(mark)(g)
    kw = {}
    main = "meta" if mark == "aux" else "cpu"
    if place == "function":
        if vec:
            g = vectorized(g)
        p = Problem("min", g, solution_length=2, initial_bounds=(-1, 1), device=main)
    else:

        class P(Problem):
            pass

        setattr(P, place, g)
        p = P("min", solution_length=2, initial_bounds=(-1, 1), device=main)
    b = SolutionBatch(p, 2, empty=True)
    e = raises(p.evaluate, b)
    require(isinstance(e, _Received), "the function was not reached: {!r}", e)
    want = "cpu" if mark == "cpu" else "meta"
    require(got == [want, want], "the function received solutions on {}, expected {}", got, want)
    require(b.device.type == main, "the batch itself moved to {}", b.device)
    ctx.step()
    ctx.state(place, mark, vec)


def attribute_case(ctx, name):
    def f(x):
        return x + 1

    if name in ("cuda", "cuda()"):
        r, want = (on_cuda(f) if name == "cuda" else on_cuda()(f)), torch.device("cuda")
    elif name.startswith("index"):
        i = int(name[-1])
        r, want = on_cuda(i)(f), torch.device("cuda", i)
    elif name == "too many":
        require(raises(on_cuda, 0, 1, exc=TypeError) is not None, "on_cuda accepted two arguments")
        require(raises(on_aux_device, f, f, exc=TypeError) is not None, "on_aux_device accepted two arguments")
        require(raises(on_device, "no such device") is not None, "on_device accepted an unknown device")
        return
    else:
        r, want = on_device(name)(f), torch.device(name)
    require(r is f, "the decorated function is another object")
    require(torch.device(r.device) == want, "the function asks for {}, expected {}", r.device, want)
    require(r(1) == 2, "calling the function directly no longer works")
    r.device = "cpu"
    require(torch.device(r.device) == torch.device("cpu"), "the device cannot be changed")
    ctx.step()
    ctx.state(name)


def aux_case(ctx, cuda, main, per, index):
    """The auxiliary device of the main problem and of each worker."""
    w = fakeray.reset()
    w.resources = {"CPU": 3.0, "GPU": 3.0}
    old = os.environ.get("CUDA_VISIBLE_DEVICES")
    try:
        kw = {"num_actors": 3, "num_gpus_per_actor": per} if main == "cpu" else {}
        p = Problem("min", fit1, solution_length=2, initial_bounds=(-1, 1), device=main, **kw)
        if index is not None:
            p.evaluate(p.generate_batch(3))
            q = w.actors[index].obj._problem
        else:
            q = p
        with mock.patch.object(torch.cuda, "is_available", lambda: cuda):
            got = torch.device(q.aux_device)
    finally:
        if old is not None:
            os.environ["CUDA_VISIBLE_DEVICES"] = old
    if main != "cpu":
        want = torch.device(main)
    elif not cuda:
        want = torch.device("cpu")
    elif per == "all" and index is not None:
        want = torch.device("cuda", index)
    else:
        want = torch.device("cuda")
    require(got == want, "the auxiliary device is {}, expected {}", got, want)
    ctx.step()
    ctx.state(cuda, main, str(per), index)


def all_case(ctx, mark, calls_super):
    """Marking _evaluate_all is refused as soon as the marking would have to be obeyed."""

    class P(Problem):
        @MARKS[mark]
        def _evaluate_all(self, batch):
            super()._evaluate_all(batch)

        def _evaluate_batch(self, batch):
            batch.set_evals(batch.values.sum(dim=-1))

    p = P("min", solution_length=2, initial_bounds=(-1, 1))
    b = p.generate_batch(2)
    e = raises(p.evaluate, b)
    if mark == "none":
        require(e is None and bool(torch.isfinite(b.evals).all()), "an unmarked _evaluate_all failed: {!r}", e)
    else:
        require(isinstance(e, RuntimeError), "the marking of _evaluate_all was not refused: {!r}", e)
    ctx.step()
    ctx.state(mark)


def gradient_case(ctx, mark, order, ranking, workers):
    """Gradients of marked and unmarked functions agree."""
    res = []
    for m in ("none", mark):
        fakeray.reset()
        p = function_problem(m, order, 1, 0, "flat", num_actors=workers)
        d = SeparableGaussian({"mu": torch.tensor([1.0, -1.0]), "sigma": torch.ones(2)})
        r = p.sample_and_compute_gradients(d, 4, ranking_method=ranking)
        res.append([(x["num_solutions"], x["mean_eval"], plain(x["gradients"]["mu"]), plain(x["gradients"]["sigma"])) for x in (r if isinstance(r, list) else [r])])
        for x in r if isinstance(r, list) else [r]:
            require(x["gradients"]["mu"].device == torch.device("cpu"), "gradients on {}", x["gradients"]["mu"].device)
    require(len(res[0]) == len(res[1]), "different numbers of results")
    for a, b in zip(*res):
        require(a[0] == b[0] and abs(float(a[1]) - float(b[1])) < 1e-5, "results {} and {}", a, b)
        require_same(a[2], b[2], "gradient of the center", 1e-6)
        require_same(a[3], b[3], "gradient of the spread", 1e-6)
    ctx.step(2)
    ctx.state(mark, order, ranking, workers)


def to_case(ctx, ndata, nobj, target, part, evaluated):
    """A batch or solution moved elsewhere is an independent, equal one; staying is allowed to be itself."""
    p = function_problem("none", "argument", nobj, ndata, "2d")
    b = SolutionBatch(p, 4, empty=True)
    b.set_values(VALUES)
    if evaluated:
        p.evaluate(b)
    x = {"whole": b, "slice": b[1:3], "one": b[2]}[part]
    v, e = plain(x.values), plain(x.evals)
    y = x.to(target)
    require(type(y) is type(x), "moving gave {}", type(y))
    require(y.device.type == torch.device(target).type, "moved to {}", y.device)
    if target == "meta":
        require(tuple(y.values.shape) == tuple(v.shape) and tuple(y.evals.shape) == tuple(e.shape), "shapes changed")
    else:
        require_same(plain(y.values), v, "values after moving")
        require_same(plain(y.evals), e, "evaluations after moving")
    if target == "cpu":
        require((y.to_batch() if part == "one" else y).access_values(keep_evals=True).data_ptr() == (x.to_batch() if part == "one" else x).access_values(keep_evals=True).data_ptr(), "staying on the same device made a copy")
    require(y.senses == x.senses and y.dtype == x.dtype and y.eval_dtype == x.eval_dtype, "types or senses changed")
    require_same(plain(x.values), v, "values of the original")
    require_same(plain(x.evals), e, "evaluations of the original")
    ctx.step()
    ctx.state(ndata, nobj, target, part, evaluated)


def run(ctx):
    places = ("vectorized inside", "vectorized outside", "argument", "one by one", "_evaluate", "_evaluate_batch")
    for mark, place, nobj, ndata, part, workers in itertools.product(MARKS, places, (1, 2), (0, 2), ("whole", "slice", "one", "selection"), (0, 2)):
        kinds = ["2d"]
        if nobj == 1:
            kinds.append("flat")
        if ndata:
            kinds += ["pair", "wide"]
        for kind in kinds:
            ctx.case("results come back", f"{mark} {place} {nobj} {ndata} {kind} {part} {workers}", roundtrip_case, ctx, mark, place, nobj, ndata, kind, part, workers)
    for mark in ("meta", "cpu", "changed", "attribute", "aux"):
        for place, vec in (("function", True), ("function", False), ("_evaluate", False), ("_evaluate_batch", True)):
            ctx.case("received", f"{place} {mark} {vec}", receive_case, ctx, place, mark, vec)
    for name in ("cuda", "cuda()", "index0", "index1", "index7", "cpu", "meta", "cuda:3", "too many"):
        ctx.case("markings", name, attribute_case, ctx, name)
    for cuda in (False, True):
        for per in (None, 1, "all", "max"):
            for index in (None, 0, 1, 2):
                ctx.case("auxiliary device", f"{cuda} cpu {per} {index}", aux_case, ctx, cuda, "cpu", per, index)
        ctx.case("auxiliary device", f"{cuda} meta", aux_case, ctx, cuda, "meta", None, None)
    for mark in MARKS:
        ctx.case("refused", mark, all_case, ctx, mark, True)
        for order in ("vectorized inside", "vectorized outside", "argument", "one by one"):
            for ranking in (None, "centered", "nes"):
                for workers in (0, 2):
                    ctx.case("gradients", f"{mark} {order} {ranking} {workers}", gradient_case, ctx, mark, order, ranking, workers)
    for ndata, nobj, target, part, evaluated in itertools.product((0, 2), (1, 2), ("cpu", "cpu:0", "meta"), ("whole", "slice", "one"), (False, True)):
        ctx.case("moving", f"{ndata} {nobj} {target} {part} {evaluated}", to_case, ctx, ndata, nobj, target, part, evaluated)
