"""P36: the assertion helpers accept exactly what they describe."""

import itertools
import math
from typing import Any

import numpy as np
import torch
from evotorch import Problem, SolutionBatch, testing
from evotorch.tools import ObjectArray, as_read_only_tensor

from mc.ctx import require
from mc.util import raises

META = {
    "bounds": "arrays of up to 2 (thorough 3) numbers over a grid with NaN, infinities, fractions and neighbours at the edge of the tolerance, given as lists, numpy arrays, torch tensors, read-only tensors, solutions and batches of float and integer types; tolerances 0, exact and inexact; scalar, per-element and per-row bounds; all pairs of types; all pairs of small shapes",
    "assumptions": ["types which numpy can represent", "assert_allclose compares after casting to the type of what is desired, as documented"],
}

NAN, INF = math.nan, math.inf
FORMS = ("list", "tuple", "numpy", "torch", "readonly")


def make(form, vals, dt):
    if form in ("list", "tuple"):
        return (list if form == "list" else tuple)(vals)
    if form == "numpy":
        return np.array(vals, dtype=dt)
    t = torch.tensor(vals, dtype=getattr(torch, dt))
    return as_read_only_tensor(t) if form == "readonly" else t


def verdict(fn, *args, **kw):
    """True: passed; False: refused. Anything else is an unexpected exception."""
    try:
        fn(*args, **kw)
    except AssertionError:
        return False
    return True


def stored(vals, dt):
    """What the numbers become when stored with the given type."""
    return [float(v) for v in np.array(vals, dtype=dt)]


def close(a, d, rtol, atol, equal_nan=True):
    if math.isnan(a) or math.isnan(d):
        return equal_nan and math.isnan(a) and math.isnan(d)
    if math.isinf(a) or math.isinf(d):
        return a == d
    return abs(a - d) <= atol + rtol * abs(d)


def snapshot(x):
    if isinstance(x, torch.Tensor):
        return x.as_subclass(torch.Tensor).clone().numpy().tobytes()
    return np.array(x).tobytes()


def allclose_case(ctx, avals, dvals, fa, fd, da, dd, rtol, atol, equal_nan):
    a, d = make(fa, avals, da), make(fd, dvals, dd)
    before = snapshot(a), snapshot(d)
    kw = {}
    if rtol is not None:
        kw["rtol"] = rtol
    if atol is not None:
        kw["atol"] = atol
    if not equal_nan:
        kw["equal_nan"] = False
    ctx.step()
    if rtol is None and atol is None:
        e = raises(testing.assert_allclose, a, d)
        require(isinstance(e, testing.TestingError), "no tolerance given: got {!r}", e)
        return
    got = verdict(testing.assert_allclose, a, d, **kw)
    tgt = "float32" if fd in ("list", "tuple") else dd
    av = stored(stored(avals, "float32" if False else da) if fa not in ("list", "tuple") else avals, tgt)
    dv = stored(dvals, tgt)
    want = all(close(x, y, rtol or 0.0, atol or 0.0, equal_nan) for x, y in zip(av, dv))
    require(got == want, "assert_allclose({}, {}, {}) {}", a, d, kw, "passed" if got else "was refused")
    require((snapshot(a), snapshot(d)) == before, "the arguments were changed")
    ctx.state(avals, dvals, rtol, atol, equal_nan, da, dd, fa, fd)


def between_case(ctx, vals, lb, ub, atol, form, dt, bform):
    x = make(form, vals, dt)

    def bound(b):
        if isinstance(b, (int, float)):
            return b if bform == "plain" else torch.tensor(b, dtype=torch.float64 if isinstance(b, float) else torch.int64)
        if bform == "plain":
            return list(b)
        return np.array(b, dtype="float64") if bform == "numpy" else torch.tensor(b, dtype=torch.float64)

    l, u = bound(lb), bound(ub)
    before = snapshot(x), snapshot(l), snapshot(u)
    got = verdict(testing.assert_almost_between, x, l, u, **({} if atol is None else {"atol": atol}))
    lbs = lb if isinstance(lb, (list, tuple)) else [lb] * len(vals)
    ubs = ub if isinstance(ub, (list, tuple)) else [ub] * len(vals)
    tol = atol or 0.0
    want = all(lo - tol <= v <= hi + tol for v, lo, hi in zip(vals, lbs, ubs))
    require(got == want, "assert_almost_between({}, {}, {}, atol={}) {}", x, l, u, atol, "passed" if got else "was refused")
    require((snapshot(x), snapshot(l), snapshot(u)) == before, "the arguments were changed")
    ctx.step()
    ctx.state(vals, lb, ub, atol, form, dt, bform)


def between_rows_case(ctx, lb, ub, vals):
    """Bounds given per column apply to every row."""
    x = torch.tensor(vals).reshape(2, 2)
    got = verdict(testing.assert_almost_between, x, lb, ub)
    want = all(lb[j] <= float(x[i, j]) <= ub[j] for i in range(2) for j in range(2))
    require(got == want, "assert_almost_between({}, {}, {}) {}", x.tolist(), lb, ub, "passed" if got else "was refused")
    ctx.step()
    ctx.state(vals, lb, ub)


def each_case(ctx, vals, value, rtol, atol, form, dt):
    x = make(form, vals, dt)
    before = snapshot(x)
    kw = {k: v for k, v in (("rtol", rtol), ("atol", atol)) if v is not None}
    if not kw:
        e = raises(testing.assert_eachclose, x, value)
        require(isinstance(e, testing.TestingError), "no tolerance given: got {!r}", e)
        return
    got = verdict(testing.assert_eachclose, x, value, **kw)
    v = float(value)
    want = all(close(float(a), v, rtol or 0.0, atol or 0.0) for a in vals)
    require(got == want, "assert_eachclose({}, {}, {}) {}", x, value, kw, "passed" if got else "was refused")
    require(snapshot(x) == before, "the argument was changed")
    ctx.step()
    ctx.state(vals, str(value), rtol, atol, form, dt)


DTYPES = ("float32", "float64", "float16", "int64", "int32", "int16", "int8", "uint8", "bool")


def holders(dt):
    yield "numpy", np.zeros(2, dtype=dt)
    yield "torch", torch.zeros(2, dtype=getattr(torch, dt))
    yield "readonly", as_read_only_tensor(torch.zeros(2, dtype=getattr(torch, dt)))
    if dt not in ("bool",):
        p = Problem("min", lambda x: x.sum(), solution_length=2, initial_bounds=(0, 1), dtype=dt)
        b = SolutionBatch(p, 2)
        yield "batch", b
        yield "solution", b[0]


def dtype_forms(dt):
    yield dt
    yield np.dtype(dt)
    yield getattr(torch, dt)
    if dt == "float64":
        yield float
    if dt == "int64":
        yield int
    if dt == "bool":
        yield bool


def dtype_case(ctx, have, want):
    for name, x in holders(have):
        for form in dtype_forms(want):
            got = verdict(testing.assert_dtype_matches, x, form)
            require(got == (have == want), "assert_dtype_matches({} of {}, {!r}) {}", name, have, form, "passed" if got else "was refused")
            ctx.step()
    ctx.state(have, want)


def object_dtype_case(ctx):
    arr = ObjectArray(2)
    for form in (object, "object", "O", np.dtype(object), Any, "Any"):
        require(verdict(testing.assert_dtype_matches, arr, form), "an ObjectArray is not accepted as {!r}", form)
        require(not verdict(testing.assert_dtype_matches, torch.zeros(1), form), "a float tensor is accepted as {!r}", form)
    for dt in DTYPES:
        require(not verdict(testing.assert_dtype_matches, arr, dt), "an ObjectArray is accepted as {}", dt)
        ctx.step()
    ctx.state("object")


SHAPES = [(), (0,), (1,), (2,), (1, 1), (2, 1), (1, 2), (2, 0)]


def shape_case(ctx, have, want):
    base = torch.zeros(have)
    xs = [base, base.numpy(), as_read_only_tensor(base), base.tolist()]
    if 0 in have[:-1] or have == (2, 0):
        xs = xs[:-1] if have != (0,) else xs
    forms = [want, torch.Size(want)]
    if len(want) == 1:
        forms.append(want[0])
    for x in xs:
        for form in forms:
            got = verdict(testing.assert_shape_matches, x, form)
            require(got == (have == want), "assert_shape_matches({} of shape {}, {!r}) {}", type(x).__name__, have, form, "passed" if got else "was refused")
            ctx.step()
    ctx.state(have, want)


def mismatch_case(ctx, have, want):
    """Arrays of different shapes are not close to each other."""
    got = verdict(testing.assert_allclose, torch.zeros(have), torch.zeros(want), atol=0.5)
    require(not got, "assert_allclose passed for shapes {} and {}", have, want)
    ctx.step()
    ctx.state(have, want)


def solution_case(ctx, vals):
    """Solutions and batches are compared by their values."""
    p = Problem("min", lambda x: x.sum(), solution_length=2, initial_bounds=(-1, 1))
    b = SolutionBatch(p, 2, empty=True)
    b.set_values(torch.tensor(vals).reshape(2, 2))
    p.evaluate(b)
    ev = b.evals.clone()
    for other in itertools.product((0.0, 1.0), repeat=4):
        o = torch.tensor(other).reshape(2, 2)
        same = tuple(vals) == other
        require(verdict(testing.assert_allclose, b, o, atol=0.1) == same, "batch {} against {}", vals, other)
        require(verdict(testing.assert_allclose, o, b, atol=0.1) == same, "{} against batch {}", other, vals)
        require(verdict(testing.assert_allclose, b[1], o[1], atol=0.1) == (tuple(vals[2:]) == other[2:]), "solution {} against {}", vals, other)
        ctx.step(3)
    require(verdict(testing.assert_eachclose, b, 1.0, atol=0.1) == all(v == 1.0 for v in vals), "assert_eachclose on a batch with {}", vals)
    require(verdict(testing.assert_almost_between, b, 0.5, 1.5) == all(v == 1.0 for v in vals), "assert_almost_between on a batch with {}", vals)
    require(torch.equal(b.evals, ev), "the evaluations were changed")
    ctx.state(vals)


def run(ctx):
    n = 2
    grid = (0.0, 1.0, 1.125, -1.0, NAN, INF)
    for a in itertools.product(grid, repeat=n):
        for d in itertools.product(grid, repeat=n):
            for rtol, atol in ((0.125, None), (None, 0.125), (0.0625, 0.0625), (0.0, 0.0), (None, 0.0), (0.0, None)):
                for en in (True, False):
                    ctx.case("allclose values", f"{a} {d} {rtol} {atol} {en}", allclose_case, ctx, a, d, "torch", "torch", "float32", "float32", rtol, atol, en)
    for a in itertools.product((0.0, 1.0, 1.5, 2.0), repeat=1 if not ctx.thorough else 2):
        for d in itertools.product((0.0, 1.0, 2.0), repeat=len(a)):
            for fa in FORMS:
                for fd in FORMS:
                    for da in ("float32", "float64", "int64") if fa not in ("list", "tuple") else ("float32",):
                        for dd in ("float32", "float64", "int64") if fd not in ("list", "tuple") else ("float32",):
                            if da == "int64" and any(v != int(v) for v in a):
                                continue
                            for tol in ((None, None), (0.5, None), (None, 0.5), (0.0, 0.0)):
                                ctx.case("allclose forms", f"{a} {d} {fa} {fd} {da} {dd} {tol}", allclose_case, ctx, a, d, fa, fd, da, dd, *tol, True)
    for vals in itertools.product((-1.0, 0.0, 0.5, 1.0, NAN, INF), repeat=3 if ctx.thorough else 2):
        for lb in (-1, -0.5, 0.0, 0.5, -INF, [-1.0, 0.5]):
            for ub in (0.0, 0.5, 1, INF, [0.0, 1.0]):
                if len(vals) != 2 and (isinstance(lb, list) or isinstance(ub, list)):
                    continue
                for atol in (None, 0.0, 0.5):
                    for form in FORMS:
                        for bform in ("plain", "torch"):
                            ctx.case("between", f"{vals} {lb} {ub} {atol} {form} {bform}", between_case, ctx, vals, lb, ub, atol, form, "float32", bform)
    for vals in itertools.product((-1, 0, 1, 2), repeat=2):
        for lb in (-1, -0.5, 0, 0.5, 1, [-0.5, 0.5]):
            for ub in (0, 0.5, 1, 1.5, [0.5, 1.5]):
                for atol in (None, 0.5):
                    for form in ("numpy", "torch", "readonly"):
                        for dt in ("int64", "int32"):
                            for bform in ("plain", "numpy", "torch"):
                                ctx.case("between integers", f"{vals} {lb} {ub} {atol} {form} {dt} {bform}", between_case, ctx, vals, lb, ub, atol, form, dt, bform)
    for lb in ([0.0, 1.0], [0.0, 0.0]):
        for ub in ([1.0, 2.0], [1.0, 1.0]):
            for vals in itertools.product((0.0, 1.0, 2.0), repeat=4):
                ctx.case("between rows", f"{lb} {ub} {vals}", between_rows_case, ctx, lb, ub, vals)
    for vals in itertools.product((0.0, 1.0, 1.5, NAN), repeat=2):
        for value in (0.0, 1, 1.5, True, np.float32(1.5), torch.tensor(1.0), NAN):
            for tol in ((None, None), (0.0, None), (None, 0.5), (0.5, None)):
                for form in FORMS:
                    ctx.case("each", f"{vals} {value} {tol} {form}", each_case, ctx, vals, value, *tol, form, "float32")
    for vals in itertools.product((0, 1, 2), repeat=2):
        for value in (0, 0.5, 1, 1.5, 2.0, np.float64(1.5), torch.tensor(1.5), True):
            for tol in ((None, 0.25), (None, 0.5), (0.0, None)):
                for form in ("numpy", "torch", "readonly"):
                    for dt in ("int64", "int32", "uint8"):
                        ctx.case("each integer", f"{vals} {value} {tol} {form} {dt}", each_case, ctx, vals, value, *tol, form, dt)
    for have in DTYPES:
        for want in DTYPES:
            ctx.case("types", f"{have} {want}", dtype_case, ctx, have, want)
    ctx.case("types", "object", object_dtype_case, ctx)
    for have in SHAPES:
        for want in SHAPES:
            ctx.case("shapes", f"{have} {want}", shape_case, ctx, have, want)
            if have != want and have != () and want != ():
                ctx.case("shapes", f"close {have} {want}", mismatch_case, ctx, have, want)
    for vals in itertools.product((0.0, 1.0), repeat=4):
        ctx.case("solutions", f"{vals}", solution_case, ctx, vals)
