"""P32: generated populations honour the problem's bounds, shapes and types."""

import itertools

import numpy as np
import torch
from evotorch import Problem, SolutionBatch
from evotorch.algorithms import CEM, CMAES, PGPE, SNES, XNES, Cosyne, GeneticAlgorithm, MAPElites, PyCMAES, SteadyStateGA
from evotorch.operators import GaussianMutation, PolynomialMutation, SimulatedBinaryCrossOver, TwoPointCrossOver
from evotorch.tools import ObjectArray

from mc.ctx import require
from mc.explore import dfs
from mc.rng import Oracle, active
from mc.util import fmt, plain, raises, require_same

META = {
    "bounds": "7 numeric types and objects; solution lengths 1-3; initial, strict or both kinds of bounds; 7 ways of writing each side; populations of 1 and 2 generated in 4 ways with up to 2 (thorough 3) non-default random elements out of the extremes of the random source; center and spread given in every form; 11 searches over bounded, unbounded, integer, boolean, multi-objective and object-valued problems for 2 generations",
    "assumptions": [
        "lower bounds do not exceed upper bounds and are not NaN",
        "initial bounds lie within the strict bounds when both are given",
        "floating-point values may exceed a bound by rounding",
    ],
}

FLOATS = {"float16": 2e-2, "float32": 1e-5, "float64": 1e-9}
INTS = ("uint8", "int8", "int32", "int64")
DTYPES = tuple(FLOATS) + INTS + ("bool",)
ALMOST = 1 - 2.0**-24
UNIFORMS = (0.0, ALMOST, 0.5)

# bounds per type: (scalar pair, per-variable vectors)
LOHI = {
    "float": ((-2.0, 3.0), (-2.0, 0.5, 1.0), (-1.0, 4.0, 1.0)),
    "uint8": ((0, 255), (0, 3, 250), (2, 3, 255)),
    "int8": ((-128, 127), (-128, 3, 120), (-127, 3, 127)),
    "int32": ((-2, 1), (-2, 3, 5), (0, 3, 6)),
    "int64": ((-2, 1), (-2, 3, 5), (0, 3, 6)),
    "bool": ((False, True), (False, True, False), (True, True, False)),
}


def lohi(dtype, L):
    (lo, hi), los, his = LOHI["float" if dtype in FLOATS else dtype]
    return (lo, list(los[:L])), (hi, list(his[:L]))


FORMS = {
    "number": (0, lambda v, dt: v),
    "0-d tensor": (0, lambda v, dt: torch.tensor(v, dtype=dt)),
    "list": (1, lambda v, dt: list(v)),
    "tuple": (1, lambda v, dt: tuple(v)),
    "numpy": (1, lambda v, dt: np.array(v, dtype=np.float64 if dt.is_floating_point else None)),
    "tensor": (1, lambda v, dt: torch.tensor(v, dtype=dt)),
    "wide tensor": (1, lambda v, dt: torch.tensor(v, dtype=torch.float64 if dt != torch.bool else torch.bool)),
}


def nothing(x):
    return torch.zeros(len(x))


def spoil(x):
    """Change a container which the user passed, after having passed it."""
    if isinstance(x, list):
        x[:] = [1 - v for v in x]
    elif isinstance(x, np.ndarray):
        x[:] = 1 - x.astype(int)
    elif isinstance(x, torch.Tensor):
        x.copy_(1 - x.to(torch.int64))


def declare(dtype, L, kind, flo, fhi):
    """Arguments of the problem, the expected initial and strict bounds (as vectors), and the containers passed."""
    dt = getattr(torch, dtype)
    (lo, los), (hi, his) = lohi(dtype, L)
    nlo, mlo = FORMS[flo]
    nhi, mhi = FORMS[fhi]
    raw = (los if nlo else lo, his if nhi else hi)
    if nlo != nhi:  # a vector against a number: keep them ordered
        raw = (los, max(his)) if nlo else (min(los), his)
    passed = []

    def make(a, b):
        r = (mlo(a, dt), mhi(b, dt))
        passed.extend(r)
        return r

    def vec(v):
        return torch.tensor(v if isinstance(v, list) else [v] * L, dtype=torch.float64)

    kw = {}
    if kind in ("initial", "strict"):
        kw["initial_bounds" if kind == "initial" else "bounds"] = make(*raw)
        init = (vec(raw[0]), vec(raw[1]))
        strict = None if kind == "initial" else init
    else:  # both: the initial interval is the lower half
        init = (vec(raw[0]), vec(raw[1]))
        mid = init[0] + torch.floor((init[1] - init[0]) / 2)
        kw["bounds"] = make(*raw)
        kw["initial_bounds"] = make(raw[0], mid.to(dt).tolist() if nhi else mid.max().to(dt).item())
        strict = init
        init = (init[0], mid if nhi else mid.max().repeat(L))
    return kw, init, strict, passed


def inside(vals, lo, hi, tol, what):
    v = plain(vals).to(torch.float64)
    require(bool(torch.isfinite(v).all()), "%s: not finite: %s", what, fmt(v))
    slack = tol * (1 + lo.abs() + hi.abs())
    ok = (v >= lo - slack) & (v <= hi + slack)
    require(bool(ok.all()), "{}: {} outside of [{}, {}]", what, fmt(v), fmt(lo), fmt(hi))


WAYS = {
    "generate_batch": lambda p, n: p.generate_batch(n),
    "generate_values": lambda p, n: p.generate_values(n),
    "SolutionBatch": lambda p, n: SolutionBatch(p, n),
    "empty, then set": lambda p, n: (lambda b: (b.set_values(p.generate_values(n)), b)[1])(p.generate_batch(n, empty=True)),
}


def look_at(p, b, n, L, dtype, objs=1, extra=0, evdt=None):
    vals = b
    evdt = evdt or (dtype if dtype in FLOATS else "float32")
    if isinstance(b, SolutionBatch):
        vals = b.values
        require(len(b) == n, "batch of length %s instead of %s", len(b), n)
        require(b.evals.dtype == getattr(torch, evdt) and tuple(b.evals.shape) == (n, objs + extra), "evaluations %s", b.evals)
        require(bool(torch.isnan(plain(b.evals)).all()), "a new batch has evaluations %s", fmt(b.evals))
    require(tuple(vals.shape) == (n, L), "values of shape %s instead of %s", tuple(vals.shape), (n, L))
    require(vals.dtype == getattr(torch, dtype), "values of type %s instead of %s", vals.dtype, dtype)
    require(vals.device.type == "cpu", "values on %s", vals.device)
    return plain(vals)


def bounds_case(ctx, dtype, L, kind, flo, fhi, way, n, budget):
    kw, init, strict, passed = declare(dtype, L, kind, flo, fhi)
    tol = FLOATS.get(dtype, 0.0)
    p = Problem("min", nothing, solution_length=L, dtype=dtype, vectorized=True, **kw)
    for x in passed:
        spoil(x)

    def check_reported():
        for got, want in (
            (p.initial_lower_bounds, init[0]),
            (p.initial_upper_bounds, init[1]),
            (p.lower_bounds, None if strict is None else strict[0]),
            (p.upper_bounds, None if strict is None else strict[1]),
        ):
            if want is None:
                require(got is None, "strict bounds %s were never declared", got)
                continue
            require(got.dtype == p.dtype and got.ndim <= 1, "reported bound %s", got)
            require_same(plain(got).to(torch.float64).expand(L), want, "reported bound", tol)

    check_reported()
    seen = []

    def run(chooser):
        with active(Oracle(chooser, uniforms=UNIFORMS, wide=True)):
            b = WAYS[way](p, n)
        v = look_at(p, b, n, L, dtype)
        inside(v, *init, tol, f"{way} with bounds {kw}")
        seen.append(v.to(torch.float64))
        ctx.state(v)
        ctx.step()

    for _ in dfs(run, budget):
        ctx.traces += 1
    check_reported()
    allv = torch.cat(seen)
    lo, hi = init
    slack = (1e-3 if dtype == "float16" else 1e-5) * (1 + hi - lo)
    # Every integer of a small interval is reachable; of a real interval, both ends.
    for j in range(L):
        col = allv[:, j]
        if dtype in FLOATS or hi[j] - lo[j] > 3:
            if dtype in FLOATS:
                require(col.min() <= lo[j] + slack[j] and col.max() >= hi[j] - slack[j], "variable %s only takes %s", j, fmt(col.unique()))
        else:
            got = set(col.tolist())
            require(got == set(float(i) for i in range(int(lo[j]), int(hi[j]) + 1)), "variable %s only takes %s", j, got)


def gaussian_case(ctx, dtype, L, n, symmetric, fc, fs, bounded, budget):
    dt = getattr(torch, dtype)
    tol = FLOATS[dtype]
    c, s = [1.5, -0.5, 2.0][:L], [0.5, 2.0, 1.0][:L]
    nc, mc = FORMS[fc]
    ns, ms = FORMS[fs]
    cv = torch.tensor(c if nc else [c[0]] * L, dtype=torch.float64)
    sv = torch.tensor(s if ns else [s[0]] * L, dtype=torch.float64)
    kw = {"initial_bounds": (0, 1)} if bounded else {}
    p = Problem("min", nothing, solution_length=L, dtype=dtype, vectorized=True, **kw)
    dom = torch.tensor([-1.0, 0.5, 1.75], dtype=torch.float64)

    def run(chooser):
        center, stdev = mc(c if nc else c[0], dt), ms(s if ns else s[0], dt)
        o = Oracle(chooser, normals=(-1.0, 0.5, 1.75))
        with active(o):
            b = p.generate_batch(n, center=center, stdev=stdev, symmetric=symmetric)
        v = look_at(p, b, n, L, dtype).to(torch.float64)
        z = (v - cv) / sv
        if symmetric:
            require_same(z[1::2], -z[0::2], "antithetic pairs", 10 * tol)
            z = z[0::2]
        near = (z[..., None] - dom).abs().min(dim=-1).values
        require(bool((near < 10 * tol).all()), "noise %s is not made of the drawn values", fmt(z))
        drawn = sorted(o.values("normal"))
        require_same(torch.tensor(sorted(z.reshape(-1).tolist())), torch.tensor(drawn), "drawn noise", 10 * tol)
        ctx.state(v)
        ctx.step()
        return v

    for _ in dfs(run, budget):
        ctx.traces += 1


def refusals():
    """name -> (arguments, whether the refusal may come with the first population only)"""
    base = {"solution_length": 2, "vectorized": True}
    bad = {
        "too long": [0, 0, 0],
        "too short": [0],
        "empty": [],
        "matrix": [[0, 0]],
        "column": [[0], [0]],
        "None": None,
        "text": "a",
    }
    for name in ("initial_bounds", "bounds"):
        for what, v in bad.items():
            for cont in (list, np.array, torch.tensor):
                if v is None or v == "a":
                    if cont is not list:
                        continue
                    w = v
                elif cont is list:
                    w = v
                else:
                    w = cont(v)
                for side in (0, 1):
                    for other in (1, [1, 1]):
                        pair = (w, other) if side == 0 else (other, w)
                        yield f"{name}: {what} ({cont.__name__}) side {side} other {other}", {**base, name: pair}
        for v in (3.0, (0,), (0, 1, 2), [[0, 0], [1, 1], [2, 2]]):
            yield f"{name}={v}", {**base, name: v}
        yield f"good initial, bad {name}", {**base, "initial_bounds": (0, 1), "bounds": (0, 1), name: (0, [1, 1, 1])}
        for dt in (object, "object", "O"):
            yield f"{name} for {dt}", {"dtype": dt, name: (0, 1), "vectorized": True}
    for dt in (object, "object"):
        yield f"length for {dt}", {"dtype": dt, "solution_length": 2, "vectorized": True}
        yield f"eval dtype {dt}", {**base, "eval_dtype": dt, "bounds": (0, 1)}
    for dt in DTYPES + (None,):
        yield f"no length for {dt}", {"dtype": dt, "bounds": (0, 1), "vectorized": True}
    yield "unknown dtype", {**base, "dtype": "float31", "bounds": (0, 1)}


def refused_case(ctx, kw):
    e = raises(lambda: Problem("min", nothing, **kw))
    ctx.step()
    require(e is not None, "accepted")


def late_case(ctx, what):
    """Misuse refused at the latest when the first population is generated."""
    ok = {"solution_length": 2, "vectorized": True}

    def senses(s):
        return lambda: Problem(s, nothing, bounds=(0, 1), **ok).generate_batch(2)

    free = Problem("min", nothing, **ok)
    init = Problem("min", nothing, initial_bounds=(0, 1), **ok)
    obj = Problem("min", nothing, dtype=object, vectorized=True)
    cases = {
        "sense MIN": senses("MIN"),
        "sense maximize": senses("maximize"),
        "sense empty": senses([]),
        "sense mixed": senses(["min", "both"]),
        "sense None": senses(None),
        "no bounds": lambda: free.generate_batch(2),
        "no bounds, values": lambda: free.generate_values(2),
        "no fill": lambda: obj.generate_batch(2),
        "center only": lambda: init.generate_batch(2, center=0.0),
        "symmetric only": lambda: init.generate_batch(2, symmetric=True),
        "empty with center": lambda: init.generate_batch(2, center=0.0, stdev=1.0, empty=True),
        "symmetric odd": lambda: init.generate_batch(3, center=0.0, stdev=1.0, symmetric=True),
        "center too long": lambda: init.generate_batch(2, center=torch.zeros(3), stdev=1.0),
        "stdev too long": lambda: init.generate_batch(2, center=0.0, stdev=torch.ones(3)),
    }
    e = raises(cases[what])
    ctx.step()
    require(e is not None, "accepted")


LATE = (
    "sense MIN",
    "sense maximize",
    "sense empty",
    "sense mixed",
    "sense None",
    "no bounds",
    "no bounds, values",
    "no fill",
    "center only",
    "symmetric only",
    "empty with center",
    "symmetric odd",
    "center too long",
    "stdev too long",
)


# -- shapes and types of the rest of a batch
def types_case(ctx, dtype, evdt, objs, extra, spelled):
    senses = ["min", "max", "min"][:objs] if objs > 1 else "max"
    want_ev = evdt or (dtype if dtype in ("float16", "float64") else "float32")

    def spell(name):
        if name is None:
            return None
        if spelled == "torch":
            return getattr(torch, name)
        return np.dtype(name) if spelled == "numpy" else name

    p = Problem(
        senses,
        nothing,
        solution_length=2,
        dtype=spell(dtype),
        eval_dtype=spell(evdt),
        eval_data_length=extra or None,
        bounds=(0, 1),
        vectorized=True,
    )
    require(p.dtype == getattr(torch, dtype) and p.eval_dtype == getattr(torch, want_ev), "types %s %s", p.dtype, p.eval_dtype)
    require(p.solution_length == 2 and p.is_multi_objective == (objs > 1) and p.eval_data_length == extra, "wrong sizes")
    require(list(p.senses) == (senses if objs > 1 else ["max"]), "senses %s", p.senses)
    for n in (1, 3):
        for way in ("generate_batch", "SolutionBatch", "empty, then set"):
            with active(Oracle(None, uniforms=UNIFORMS)):
                b = WAYS[way](p, n)
            v = look_at(p, b, n, 2, dtype, objs, extra, want_ev)
            inside(v, torch.zeros(2), torch.ones(2), FLOATS.get(dtype, 0.0), way)
            require(b.eval_shape[-1] == objs + extra if hasattr(b, "eval_shape") else True, "eval_shape %s", b.eval_shape)
            ctx.step()
        e = p.generate_batch(n, empty=True)
        require(tuple(e.values.shape) == (n, 2) and e.values.dtype == p.dtype, "empty batch %s", e.values)
        require(bool(torch.isnan(plain(e.evals)).all()), "empty batch has evaluations")
    ctx.state(dtype, want_ev, objs, extra)


# -- overridden generation
class Filled(Problem):
    def __init__(self, which, dtype, **kw):
        self.which = which
        self.calls = 0
        if dtype is object:
            super().__init__("min", dtype=object, **kw)
        else:
            super().__init__("min", solution_length=2, dtype=dtype, **kw)

    def _mark(self, n):
        self.calls += 1
        if self.dtype is object:
            return [[self.calls, i] for i in range(n)]
        return torch.tensor([[self.calls, i] for i in range(n)], dtype=self.dtype)

    def _fill(self, values):
        if self.which != "_fill":
            return super()._fill(values)
        values[:] = self._mark(len(values))

    def generate_values(self, n):
        if self.which != "generate_values":
            return super().generate_values(n)
        m = self._mark(n)
        if self.dtype is object:
            r = ObjectArray(n)
            r[:] = m
            return r
        return m

    def _evaluate_batch(self, b):
        b.set_evals(torch.arange(len(b), dtype=torch.float32))


def fill_case(ctx, which, dtype, bounded, n):
    kw = {} if not bounded else {"initial_bounds": (10, 20)}
    p = Filled(which, dtype, **kw)

    def rows(v):
        return [list(x) for x in v] if dtype is object else plain(v).to(torch.int64).tolist()

    def expect(v, call):
        require(rows(v) == [[call, i] for i in range(n)], "generated %s instead of the values of call %s", rows(v), call)
        ctx.step()

    expect(p.generate_values(n), 1)
    expect(p.generate_batch(n).values, 2)
    expect(SolutionBatch(p, n).values, 3)
    b = p.generate_batch(n)
    expect(b.values, 4)
    p.generate_batch(n, empty=True)
    require(p.calls == 4, "an empty batch was filled")
    expect(p.generate_batch(n).values, 5)
    ctx.state(which, str(dtype), bounded, n)


# -- initial populations of the searches
class Tracked(Problem):
    """Remembers everything that was evaluated."""

    def __init__(self, senses="min", feats=0, **kw):
        self.seen = []
        self.nobj = len(senses) if isinstance(senses, list) else 1
        self.feats = feats
        super().__init__(senses, eval_data_length=feats or None, store_solution_stats=False, **kw)

    def _evaluate_batch(self, b):
        v = b.values
        if self.dtype is object:
            self.seen.append([list(x) for x in v])
            x = torch.tensor([float(sum(r)) for r in v])
        else:
            self.seen.append(plain(v))
            x = plain(v).to(torch.float32).sum(dim=-1)
        ev = torch.stack([x if i % 2 == 0 else -x for i in range(self.nobj)], dim=-1)
        if self.feats:
            b.set_evals(ev, torch.stack([x] * self.feats, dim=-1))
        else:
            b.set_evals(ev)


GAUSS = ("snes", "pgpe", "cem", "xnes", "cmaes", "cmaes-sep", "pycmaes")
POP = ("ga", "ga-sbx", "ssga", "cosyne", "mapelites")


def searcher(name, p, center=None):
    real = p.dtype is not object and p.dtype.is_floating_point
    if name == "snes":
        return SNES(p, stdev_init=0.5, popsize=4, center_init=center)
    if name == "xnes":
        return XNES(p, stdev_init=0.5, popsize=4, center_init=center)
    if name == "pgpe":
        return PGPE(p, stdev_init=0.5, popsize=4, center_init=center, center_learning_rate=0.1, stdev_learning_rate=0.1)
    if name == "cem":
        return CEM(p, stdev_init=0.5, popsize=4, center_init=center, parenthood_ratio=0.5)
    if name.startswith("cmaes"):
        return CMAES(p, stdev_init=0.5, popsize=4, center_init=center, separable=name.endswith("sep"))
    if name == "pycmaes":
        def randn(*shape):
            return torch.randn(*[int(s) for s in shape]).to(torch.float64).numpy() if shape else float(torch.randn(1)[0])

        return PyCMAES(p, stdev_init=0.5, popsize=4, center_init=center, cma_options={"randn": randn, "seed": np.nan, "verbose": -9})
    mut = GaussianMutation(p, stdev=0.5) if real else None
    if name == "ga":
        ops = [TwoPointCrossOver(p, tournament_size=2)] + ([mut] if mut else [])
        return GeneticAlgorithm(p, operators=ops, popsize=4)
    if name == "ga-sbx":
        return GeneticAlgorithm(
            p, operators=[SimulatedBinaryCrossOver(p, tournament_size=2, eta=5.0), GaussianMutation(p, stdev=0.5)], popsize=4
        )
    if name == "ssga":
        s = SteadyStateGA(p, popsize=4)
        s.use(TwoPointCrossOver(p, tournament_size=2))
        if mut:
            s.use(mut)
        return s
    if name == "cosyne":
        return Cosyne(p, popsize=4, tournament_size=2, mutation_stdev=0.5)
    if name == "mapelites":
        grid = MAPElites.make_feature_grid([-10.0], [10.0], 4, dtype="float32")
        return MAPElites(p, operators=[TwoPointCrossOver(p, tournament_size=2)] + ([mut] if mut else []), feature_grid=grid)
    raise KeyError(name)


KINDS = ("initial", "vector", "strict", "strict tight", "int", "bool", "multi", "object", "none")
# which kinds of problems each family must support (the rest may be refused)
SUPPORTED = {
    **{g: ("initial", "vector") for g in GAUSS},
    "pycmaes": ("initial", "vector", "strict", "strict tight"),
    "ga": ("initial", "vector", "strict", "strict tight", "int", "multi"),
    "ga-sbx": ("initial", "vector", "strict", "strict tight", "multi"),
    "ssga": ("initial", "vector", "strict", "strict tight", "int", "multi"),
    "cosyne": ("initial", "vector", "strict", "strict tight"),
    "mapelites": ("initial", "vector", "strict", "strict tight", "int"),
}


def problem_of(kind, name):
    feats = 1 if name == "mapelites" else 0
    L = 2
    init, strict = (torch.tensor([-2.0, -2.0]), torch.tensor([3.0, 3.0])), None
    args = {"solution_length": L}
    if kind == "initial":
        args["initial_bounds"] = (-2, 3)
    elif kind == "vector":
        args["initial_bounds"] = ([-2, 1], [-1, 1])
        init = (torch.tensor([-2.0, 1.0]), torch.tensor([-1.0, 1.0]))
    elif kind == "strict":
        args["bounds"] = (-2, 3)
        strict = init
    elif kind == "strict tight":
        args["bounds"] = ([-0.1, 0.1], [0.1, 0.2])
        init = strict = (torch.tensor([-0.1, 0.1]), torch.tensor([0.1, 0.2]))
    elif kind == "int":
        args.update(bounds=(-2, 3), dtype="int64")
        strict = init
    elif kind == "bool":
        args.update(bounds=(False, True), dtype="bool")
        init = strict = (torch.zeros(2), torch.ones(2))
    elif kind == "multi":
        args.update(initial_bounds=(-2, 3))
    elif kind == "none":
        init = None
    if kind == "object":
        args = {"dtype": object}
        init = None
    p = Tracked(["min", "max"] if kind == "multi" else "min", feats, **args)
    return p, init, strict


def search_case(ctx, name, kind, steps):
    def run(chooser):
        p, init, strict = problem_of(kind, name)
        o = Oracle(chooser, normals=(0.0, -1.0, 3.0), uniforms=UNIFORMS, free=6)
        with active(o):
            e = None
            try:
                s = searcher(name, p)
                for _ in range(steps):
                    s.step()
            except Exception as err:
                e = err
                if kind in SUPPORTED[name]:
                    raise
        if kind in ("object", "none"):
            require(e is not None, "%s accepted a problem which cannot generate solutions", name)
        if e is None:
            require(len(p.seen) >= 1, "nothing was evaluated")
            for g, v in enumerate(p.seen):
                require(v.dtype == p.dtype and v.ndim == 2 and v.shape[1] == 2, "evaluated values %s", fmt(v))
                if strict is not None:
                    inside(v, *strict, 1e-5, f"evaluation {g} of {name}")
            if name in POP:
                first = p.seen[0]
                require(len(first) == 4, "first population of %s", len(first))
                inside(first, *init, 1e-5, "first population")
            require(s.population.values.dtype == p.dtype, "population of type %s", s.population.values.dtype)
            ctx.state(name, kind, p.seen)
        ctx.step()
        return None if e is None else type(e).__name__

    return run


def center_case(ctx, name, kind, given):
    """Without noise, the first population is the center: the given one or one within the bounds."""

    def run(chooser):
        p, init, strict = problem_of(kind, name)
        o = Oracle(chooser, normals=(0.0,), uniforms=UNIFORMS)
        center = None
        want = torch.tensor([0.05, 0.15])
        if given == "vector":
            center = [0.05, 0.15]
        elif given == "tensor":
            center = torch.tensor([0.05, 0.15], dtype=torch.float64)
        elif given == "solution":
            b = SolutionBatch(p, 1, empty=True)
            b.set_values(want[None])
            center = b[0]
        with active(o):
            s = searcher(name, p, center)
            e = raises(s.step)
        # Without any noise, what follows the first evaluation is degenerate and may fail.
        if e is not None and not p.seen:
            raise e
        first = p.seen[0]
        require(len(first) == 4, "first population of %s", len(first))
        require_same(first, first[:1].expand(4, 2), "noiseless population", 1e-5)
        if given == "none":
            inside(first, *init, 1e-5, "center")
        else:
            require_same(first[0], want, "center", 1e-5)
        ctx.state(name, kind, given, first)
        ctx.step()
        return first

    return run


def run(ctx):
    budget = 3 if ctx.thorough else 2
    ways = tuple(WAYS)
    for dtype, L, kind in itertools.product(DTYPES, (1, 2, 3), ("initial", "strict", "both")):
        for i, (flo, fhi) in enumerate(itertools.product(FORMS, repeat=2)):
            if dtype not in ("float32", "int64", "bool") and not (ctx.thorough or flo == fhi or "number" in (flo, fhi)):
                continue
            way = ways[i % len(ways)]
            for w in ways if ctx.thorough or L == 2 and flo == fhi else (way,):
                for n in (1, 2):
                    if n == 2 and not ctx.thorough and L == 3:
                        continue
                    ctx.case(
                        "bounds", [dtype, L, kind, flo, fhi, w, n], bounds_case, ctx, dtype, L, kind, flo, fhi, w, n, budget
                    )
    for dtype, L, n, sym, fc, fs, bounded in itertools.product(
        FLOATS, (1, 2, 3), (1, 2, 4), (False, True), FORMS, FORMS, (False, True)
    ):
        if sym and n == 1 or (n == 4 and L == 3):
            continue
        if not ctx.thorough and (dtype != "float32" or bounded) and not (fc == fs or L == 2 and "number" in (fc, fs)):
            continue
        ctx.case("gaussian", [dtype, L, n, sym, fc, fs, bounded], gaussian_case, ctx, dtype, L, n, sym, fc, fs, bounded, 1 if n == 4 else 2)
    for name, kw in refusals():
        ctx.case("refused", [name], refused_case, ctx, kw)
    for what in LATE:
        ctx.case("refused late", [what], late_case, ctx, what)
    for dtype, evdt, objs, extra, spelled in itertools.product(
        DTYPES, (None, "float16", "float32", "float64"), (1, 2, 3), (0, 1, 2), ("name", "torch", "numpy")
    ):
        ctx.case("types", [dtype, evdt, objs, extra, spelled], types_case, ctx, dtype, evdt, objs, extra, spelled)
    for which, dtype, bounded, n in itertools.product(("_fill", "generate_values"), ("float32", "int64", object), (False, True), (1, 2, 3)):
        if dtype is object and bounded:
            continue
        ctx.case("overridden", [which, str(dtype), bounded, n], fill_case, ctx, which, dtype, bounded, n)
    for name, kind in itertools.product(GAUSS + POP, KINDS):
        if name == "ga-sbx" and kind in ("int", "bool"):
            continue  # an operator for real numbers
        ctx.explore("searches", [name, kind], search_case(ctx, name, kind, 2), bound=budget)
    for name, kind, given in itertools.product(GAUSS, ("initial", "vector"), ("none", "vector", "tensor", "solution")):
        if given == "solution" and "cmaes" not in name:
            continue
        ctx.explore("centers", [name, kind, given], center_case(ctx, name, kind, given), bound=budget)
    for given in ("none", "vector", "tensor", "solution"):
        for kind in ("strict", "strict tight"):
            ctx.explore("centers", ["pycmaes", kind, given], center_case(ctx, "pycmaes", kind, given), bound=budget)
