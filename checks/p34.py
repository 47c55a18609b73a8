"""P34: constraint violations, penalties and log-barriers have their documented values."""

import itertools
import math

import torch
from evotorch import Problem
from evotorch.decorators import rowwise
from evotorch.tools import log_barrier, penalty, violation

from mc.ctx import require
from mc.util import fmt, plain, raises, require_same, same

META = {
    "bounds": "left and right sides over an 8-value grid, all comparisons and signs, all combinations of 3-4 values (or absence) of linear, step, exp, exp_inf, sharpness and inf; every placement of 0-2 batch dimensions over every argument; float32 and float64; numbers or tensors",
    "assumptions": ["at least one argument is a tensor (the dtype is unknown otherwise)", "exponents are positive", "no NaN or infinite sides"],
}
GRID = (-2.0, -0.5, 0.0, 0.25, 0.5, 1.0, 3.0, 40.0)


def ref_violation(a, op, b):
    if op == "<=":
        return 0.0 if a <= b else a - b
    if op == ">=":
        return 0.0 if a >= b else b - a
    return abs(a - b)


def ref_penalty(a, op, b, sign, linear=None, step=None, exp=None, exp_inf=None):
    v = ref_violation(a, op, b)
    p = (linear or 0.0) * v
    if v > 0 and step is not None:
        p += step
    if exp is not None and not math.isnan(exp):
        e = v**exp
        if exp_inf is not None:
            e = min(e, exp_inf)
        p += e
    return p if sign == "+" else -p


def ref_barrier(a, op, b, sign, sharpness=1.0, inf=None):
    slack = a - b if op == ">=" else b - a
    p = math.inf if slack <= 0 else -math.log(slack) / sharpness
    if inf is not None:
        p = min(p, inf)
    return p if sign == "+" else -p


def call(kind, op, sign, vals):
    vals = dict(vals)
    a, b = vals.pop("lhs"), vals.pop("rhs")
    if kind == "violation":
        return violation(a, op, b)
    return (penalty if kind == "penalty" else log_barrier)(a, op, b, penalty_sign=sign, **vals)


def refcall(kind, op, sign, vals):
    vals = dict(vals)
    a, b = vals.pop("lhs"), vals.pop("rhs")
    if kind == "violation":
        return ref_violation(a, op, b)
    return (ref_penalty if kind == "penalty" else ref_barrier)(a, op, b, sign, **vals)


def grid_case(ctx, kind, op, sign, params, dtype, form):
    """All pairs of sides, one by one and as one batch."""
    dt = getattr(torch, dtype)
    for a, b in itertools.product(GRID, repeat=2):
        given = {"lhs": a, "rhs": b, **params}
        want = torch.tensor(refcall(kind, op, sign, given), dtype=torch.float64)
        args = dict(given)
        for k in form:
            if k in args:
                args[k] = torch.tensor(args[k], dtype=dt)
        got = call(kind, op, sign, args)
        require(got.dtype == dt and got.ndim == 0, "{} gave {}", kind, got)
        require_same(got, want, f"{kind}({a} {op} {b}, sign {sign}, {params})", 1e-4 if dtype == "float32" else 1e-9)
        ctx.step()
    ps = list(itertools.product(GRID, repeat=2))
    args = {k: torch.tensor(v, dtype=dt) for k, v in params.items()}
    args["lhs"] = torch.tensor([p[0] for p in ps], dtype=dt).reshape(8, 8)
    args["rhs"] = torch.tensor([p[1] for p in ps], dtype=dt).reshape(8, 8)
    keep = {k: plain(v) for k, v in args.items()}
    got = call(kind, op, sign, args)
    want = torch.tensor([refcall(kind, op, sign, {"lhs": a, "rhs": b, **params}) for a, b in ps], dtype=torch.float64).reshape(8, 8)
    require_same(got, want, f"{kind} over the grid ({op}, {sign}, {params})", 1e-4 if dtype == "float32" else 1e-9)
    for k in args:
        require(same(args[k], keep[k]), "argument {} was altered", k)
    ctx.state((kind, op, sign, str(params), dtype, form))


ITEMS = {
    "lhs": lambda i: GRID[(3 * i + 1) % 8],
    "rhs": lambda i: GRID[(5 * i + 4) % 8] * 0.5,
    "linear": lambda i: 0.5 + i,
    "step": lambda i: 2.0 * i + 1.0,
    "exp": lambda i: (2.0, 0.5, math.nan, 3.0, 1.0, math.nan)[i % 6],
    "exp_inf": lambda i: 0.8 + 0.7 * i,
    "sharpness": lambda i: 1.0 + 0.5 * i,
    "inf": lambda i: 0.3 + 0.4 * i,
}


def batch_case(ctx, kind, op, sign, levels, B):
    n = math.prod(B)

    def val(k, i):
        lv = levels[k]
        j = 0 if lv == 0 else (i % B[-1] if lv < len(B) else i)
        return ITEMS[k](j)

    args = {}
    for k, lv in levels.items():
        shape = tuple(B[len(B) - lv:]) if lv else ()
        args[k] = torch.tensor([val(k, i) for i in range(math.prod(shape))], dtype=torch.float64).reshape(shape)
    got = call(kind, op, sign, args)
    depth = max(levels.values())
    shape = tuple(B[len(B) - depth:]) if depth else ()
    n = math.prod(shape)
    want = torch.tensor([refcall(kind, op, sign, {k: val(k, i) for k in levels}) for i in range(n)], dtype=torch.float64).reshape(shape)
    require_same(got, want, f"{kind} {op} {sign} with batch dimensions {levels} of {B}", 1e-9)
    ctx.step()
    ctx.state((kind, op, sign, tuple(levels.items()), B))


def refuse_case(ctx, kind, op, sign):
    x = torch.tensor([1.0, 2.0])
    for v in (x, torch.tensor(1.0)):
        args = {"lhs": v, "rhs": 0.5}
        if kind == "penalty":
            args["linear"] = 1.0
        require(raises(call, kind, op, sign, args) is not None, "{} accepted comparison {!r} with sign {!r}", kind, op, sign)
    ctx.state((kind, op, sign))


def fitness_case(ctx, sense, op, kind):
    """A penalized row-wise fitness: never better than the bare one, equal where nothing is violated."""
    sign = "+" if sense == "min" else "-"

    def bare(x):
        return torch.sum(x * x)

    if kind == "penalty":
        @rowwise
        def fit(x):
            return bare(x) + penalty(x[0], op, 0.5, penalty_sign=sign, linear=2.0, step=1.0, exp=2.0)
    else:
        @rowwise
        def fit(x):
            return bare(x) + log_barrier(x[0], op, 0.5, penalty_sign=sign, inf=10.0)

    prob = Problem(sense, fit, solution_length=2, initial_bounds=(-1, 1), dtype=torch.float64, eval_dtype=torch.float64)
    xs = torch.tensor(list(itertools.product((-1.0, 0.0, 0.5, 0.75, 1.5), repeat=2)), dtype=torch.float64)
    batch = prob.generate_batch(len(xs))
    batch.set_values(xs)
    prob.evaluate(batch)
    for x, e in zip(xs.tolist(), batch.evals[:, 0].tolist()):
        b = sum(v * v for v in x)
        if kind == "penalty":
            w = b + ref_penalty(x[0], op, 0.5, sign, 2.0, 1.0, 2.0)
            if ref_violation(x[0], op, 0.5) == 0:
                require(abs(e - b) < 1e-9, "satisfied constraint changed the fitness of {} to {}", x, e)
            else:
                require((e > b) if sense == "min" else (e < b), "violation improved the fitness of {}", x)
        else:
            w = b + ref_barrier(x[0], op, 0.5, sign, 1.0, 10.0)
        require(abs(e - w) < 1e-9, "fitness of {} is {}, expected {}", x, e, w)
    ctx.state((sense, op, kind))


def run(ctx):
    forms = [("lhs",), ("rhs",), ("lhs", "rhs")]
    allf = ("lhs", "rhs", "linear", "step", "exp", "exp_inf", "sharpness", "inf")
    for dtype in ("float32", "float64"):
        for op in ("<=", ">=", "=="):
            for form in forms:
                ctx.case("violations", f"{op} {dtype} {form}", grid_case, ctx, "violation", op, None, {}, dtype, form)
            for sign in "+-":
                for lin, st, ex, exi in itertools.product((None, 0.0, 2.5), (None, 1.5), (None, math.nan, 0.5, 2.0, 3.0), (None, 2.0)):
                    params = {k: v for k, v in (("linear", lin), ("step", st), ("exp", ex), ("exp_inf", exi)) if v is not None}
                    ctx.case("penalties", f"{op} {sign} {params} {dtype}", grid_case, ctx, "penalty", op, sign, params, dtype, ("lhs",))
                for form in forms + [allf]:
                    params = {"linear": 2.0, "step": 1.0, "exp": 2.0, "exp_inf": 5.0}
                    ctx.case("penalties", f"{op} {sign} {form} {dtype}", grid_case, ctx, "penalty", op, sign, params, dtype, form)
                if op == "==":
                    continue
                for sh, inf in itertools.product((None, 0.5, 1.0, 4.0), (None, 0.1, 2.0, 100.0)):
                    params = {k: v for k, v in (("sharpness", sh), ("inf", inf)) if v is not None}
                    for form in (("lhs",), allf):
                        ctx.case("log barriers", f"{op} {sign} {params} {dtype} {form}", grid_case, ctx, "log_barrier", op, sign, params, dtype, form)
    names = {"violation": ("lhs", "rhs"), "penalty": ("lhs", "rhs", "linear", "step", "exp", "exp_inf"), "log_barrier": ("lhs", "rhs", "sharpness", "inf")}
    for kind, ks in names.items():
        for op in ("<=", ">=", "=="):
            if kind == "log_barrier" and op == "==":
                continue
            for sign in "+-" if kind != "violation" else "+":
                for lv in itertools.product((0, 1, 2), repeat=len(ks)):
                    if len(ks) == 6 and not ctx.thorough and (sign == "-" or op == ">="):
                        if sum(1 for v in lv if v) > 2:
                            continue
                    for B in ((2, 3), (3, 1)) if len(ks) < 6 else ((2, 3),):
                        ctx.case("batches", f"{kind} {op} {sign} {lv} {B}", batch_case, ctx, kind, op, sign, dict(zip(ks, lv)), B)
    for kind in names:
        for op in ("<", ">", "=", "!=", "", "=<") + (("==",) if kind == "log_barrier" else ()):
            ctx.case("refusals", f"{kind} {op}", refuse_case, ctx, kind, op, "+")
        if kind != "violation":
            for sign in ("", "plus", "+-", "min"):
                ctx.case("refusals", f"{kind} sign {sign}", refuse_case, ctx, kind, "<=", sign)
    for sense in ("min", "max"):
        for op in ("<=", ">="):
            for kind in ("penalty", "log_barrier"):
                ctx.case("fitnesses", f"{sense} {op} {kind}", fitness_case, ctx, sense, op, kind)
