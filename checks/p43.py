"""P43: a write changes exactly the solutions it addresses; a malformed one is refused and changes nothing."""

import itertools
import math

import torch
from evotorch import Problem, SolutionBatch
from evotorch.tools import ObjectArray

from mc.ctx import require
from mc.util import plain, raises

META = {
    "bounds": "batches of 1..3 solutions of length 2, 1..2 objectives, 0 or 2 evaluation data, types float32, float64 and object; every slice with bounds and steps in a small range and every list of up to 3 indices without repetition (also negative ones); evaluations of every shape up to 3 dimensions, 0..4 rows and 0..5 columns, together with no or every shape of evaluation data; the same through single solutions and through views; generation of batches with every combination of arguments",
    "assumptions": ["the exception raised for a malformed write may be of any type unless the documentation names one"],
}

NAN = float("nan")


def problem(senses, ndata, dtype="float32", eval_dtype=None):
    kw = {} if dtype is object else {"solution_length": 2, "initial_bounds": (-1, 1)}
    if eval_dtype:
        kw["eval_dtype"] = eval_dtype
    return Filled(senses, dtype=dtype, eval_data_length=ndata, **kw)


class Filled(Problem):
    def _fill(self, values):
        if isinstance(values, ObjectArray):
            for i in range(len(values)):
                values[i] = ["start", i]
        else:
            super()._fill(values)


def start(n, senses, ndata, dtype="float32", eval_dtype=None):
    """A batch of n solutions and the reference: rows of values, rows of evaluations."""
    p = problem(list(senses), ndata, dtype, eval_dtype)
    b = SolutionBatch(p, n, empty=dtype is not object)
    m = len(senses) + ndata
    if dtype is object:
        vals = [["start", i] for i in range(n)]
    else:
        vals = [[10.0 * i + j for j in range(2)] for i in range(n)]
        b.set_values(torch.tensor(vals, dtype=p.dtype).reshape(n, 2))
    evs = [[100.0 * (i + 1) + j for j in range(m)] for i in range(n)]
    b.set_evals(torch.tensor(evs, dtype=p.eval_dtype).reshape(n, m))
    return p, b, vals, evs


def rows(x):
    return [r.tolist() if isinstance(r, torch.Tensor) else list(r) for r in plain(x)]


def alike(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    return a == b


def agree(b, vals, evs, what):
    got_v = [list(b.values[i]) for i in range(len(b))] if isinstance(b.values, ObjectArray) else rows(b.values)
    require(alike(got_v, vals), "%s: values %s, expected %s", what, got_v, vals)
    got_e = rows(b.evals)
    require(alike(got_e, evs), "%s: evaluations %s, expected %s", what, got_e, evs)


def addressed(n, sel):
    """The rows a selection addresses, in order; None if it reaches outside."""
    if sel is None:
        return list(range(n))
    if isinstance(sel, slice):
        return list(range(n))[sel]
    if any(not -n <= i < n for i in sel):
        return None
    return [i % n for i in sel]


def selections(n):
    yield None
    seen = set()
    for a, z, s in itertools.product((None, 0, 1, 2, -1, -2), (None, 0, 1, 2, 3, -1), (None, 1, 2)):
        key = tuple(range(n))[slice(a, z, s)], a is None, z is None, s
        if key not in seen:
            seen.add(key)
            yield slice(a, z, s)
    for k in range(1, n + 1):
        for t in itertools.permutations(range(n), k):
            yield list(t)
            if k < 3:
                yield [i - n for i in t]
    yield [n]
    yield [-n - 1]


def naming(sel):
    return str(sel)


def shapes():
    yield ()
    for r in range(0, 5):
        yield (r,)
        for c in range(0, 6):
            yield (r, c)
    for r in range(1, 4):
        yield (r, 1, 1)
        yield (1, r, 2)


def numbers(shape, first):
    n = 1
    for s in shape:
        n *= s
    return (torch.arange(n, dtype=torch.float32) + first).reshape(shape)


def evals_case(ctx, n, senses, ndata, sel, shape, data, eval_dtype):
    """set_evals on a batch."""
    p, b, vals, evs = start(n, senses, ndata, eval_dtype=eval_dtype)
    who = addressed(n, sel)
    k = None if who is None else len(who)
    m = len(senses)
    ok = who is not None
    if ok:
        if len(shape) == 1:
            ok = m == 1 and shape[0] == k
            width = 1
        elif len(shape) == 2:
            width = shape[1]
            ok = shape[0] == k and width in ((m,) if data is not None else (m, m + ndata))
        else:
            ok = False
    if ok and data is not None:
        ok = len(data) == 2 and tuple(data) == (k, ndata)
    e = numbers(shape, 500.0)
    d = None if data is None else numbers(data, 900.0)
    kw = {} if sel is None else {"solutions": sel}
    if isinstance(sel, list):  # torch converts the type on writing into slices only
        e, d = e.to(p.eval_dtype), None if d is None else d.to(p.eval_dtype)
    ctx.step()
    if not ok:
        exc = Exception if who is None else ValueError
        require(raises(b.set_evals, e, d, exc=exc, **kw) is not None, "evaluations of shape %s (data %s) were accepted for %s of %s solutions", shape, data, k, n)
        agree(b, vals, evs, "after a refused write")
        return
    b.set_evals(e, d, **kw)
    e2 = e.reshape(k, -1) if k else e
    for row, i in enumerate(who):
        evs[i] = e2[row].tolist()
        if d is not None:
            evs[i] = evs[i] + d[row].tolist()
        evs[i] = evs[i] + [NAN] * (m + ndata - len(evs[i]))
    agree(b, vals, evs, "after set_evals")
    ctx.state(n, m, ndata, naming(sel), shape, data)


def forget_case(ctx, n, senses, ndata, sel, dtype):
    p, b, vals, evs = start(n, senses, ndata, dtype)
    who = addressed(n, sel)
    kw = {} if sel is None else {"solutions": sel}
    ctx.step()
    if who is None:
        require(raises(b.forget_evals, exc=Exception, **kw) is not None, "solutions %s of %s were accepted", sel, n)
    else:
        b.forget_evals(**kw)
        for i in who:
            evs[i] = [NAN] * len(evs[i])
    agree(b, vals, evs, "after forget_evals")
    ctx.state(n, len(senses), ndata, naming(sel), str(dtype))


def values_case(ctx, n, sel, form, dtype):
    """set_values on a batch."""
    p, b, vals, evs = start(n, ("min",), 1, dtype)
    who = addressed(n, sel)
    kw = {} if sel is None else {"solutions": sel}
    k = 1 if who is None else len(who)
    if dtype is object:
        new = [["new", r] for r in range(k)]
        given = ObjectArray(k)
        for r in range(k):
            given[r] = new[r]
    else:
        new = [[-1.0 - 10 * r, -2.0 - 10 * r] for r in range(k)]
        given = torch.tensor(new, dtype=p.dtype).reshape(k, 2)
        if form == "wider":
            given = given.to(torch.float64)
        if form == "short":
            given = torch.zeros(k + 2, 2)
        if form == "long":
            given = torch.zeros(k, 3)
    ok = who is not None and form not in ("short", "long")
    ctx.step()
    if ok:
        b.set_values(given, **kw)
        for row, i in enumerate(who):
            vals[i] = new[row]
            evs[i] = [NAN] * len(evs[i])
        if dtype is not object and k:
            given.fill_(77.0)  # the batch keeps its own copy
    else:
        require(raises(b.set_values, given, exc=Exception, **kw) is not None, "values of shape %s were accepted for %s of %s solutions", tuple(given.shape), who, n)
    agree(b, vals, evs, "after set_values")
    ctx.state(n, naming(sel), form, str(dtype))


def solution_case(ctx, n, i, view, senses, ndata, what, arg, dtype):
    """The same through a single solution, of the batch itself or of a view."""
    p, b, vals, evs = start(n, senses, ndata, dtype)
    s = b[i] if view == "batch" else b[i:][0] if view == "rest" else b[: i + 1][i]
    m = len(senses)
    ctx.step()
    none = [NAN] * (m + ndata)
    if what == "values":
        new = {"list": [5.0, 6.0], "tensor": torch.tensor([5.0, 6.0]), "ints": [5, 6]}[arg] if dtype is not object else {"list": ["x"], "tensor": ["y", 1], "ints": [5, 6]}[arg]
        s.set_values(new)
        vals[i] = [5.0, 6.0] if dtype is not object else new
        evs[i] = none
    elif what == "long values":
        require(raises(s.set_values, [1.0, 2.0, 3.0], exc=Exception) is not None, "values of a wrong length were accepted")
    elif what in ("evals", "evaluation"):
        f = s.set_evals if what == "evals" else s.set_evaluation
        e, d = arg
        width = 1 if not isinstance(e, list) else len(e)
        nested = isinstance(e, list) and e and isinstance(e[0], list)
        bad_d = d is not None and (len(d) != ndata or (d and isinstance(d[0], list)))
        ok = not nested and not bad_d and width in ((m,) if d is not None else (m, m + ndata))
        if ok:
            f(e, d) if d is not None else f(e)
            evs[i] = (e if isinstance(e, list) else [e]) + (d or [])
            evs[i] = evs[i] + [NAN] * (m + ndata - len(evs[i]))
        else:
            require(raises(f, e, d, exc=ValueError) is not None, "evaluations %s, %s were accepted", e, d)
    elif what == "access values":
        x = s.access_values(keep_evals=arg)
        require(s.access_values(keep_evals=True) is not None, "no access")
        if dtype is object:
            require(list(x) == vals[i], "accessed %s", x)
        else:
            require(x.tolist() == vals[i], "accessed %s", x)
            x[1] = 4.0
            vals[i] = [vals[i][0], 4.0]
        if not arg:
            evs[i] = none
    elif what == "access evals":
        x = s.access_evals()
        require(alike(x.tolist(), evs[i]), "accessed %s", x)
        x[0] = 4.0
        evs[i] = [4.0] + evs[i][1:]
    agree(b, vals, evs, f"after {what} of solution {i}")
    got = s.evals.tolist()
    require(alike(got, evs[i]), "the solution reports %s, the batch %s", got, evs[i])
    require(s.is_evaluated == (not any(math.isnan(x) for x in evs[i][:m])), "is_evaluated %s with evaluations %s", s.is_evaluated, evs[i])
    ctx.state(n, i, view, m, ndata, what, str(arg), str(dtype))


def access_case(ctx, n, senses, ndata, keep, obj):
    """access_values and access_evals of a batch give the very storage."""
    p, b, vals, evs = start(n, senses, ndata)
    x = b.access_values(keep_evals=keep)
    if not keep:
        evs = [[NAN] * len(r) for r in evs]
    require(rows(x) == vals, "accessed values %s", x)
    x[n - 1, 0] = -3.0
    vals[n - 1][0] = -3.0
    agree(b, vals, evs, "after writing into the accessed values")
    m = len(senses)
    if obj is None:
        e = b.access_evals()
        require(tuple(e.shape) == (n, m + ndata), "accessed evaluations of shape %s", tuple(e.shape))
        e[0, -1] = -4.0
        evs[0][-1] = -4.0
    elif -m <= obj < m:
        e = b.access_evals(obj)
        require(tuple(e.shape) == (n,), "accessed evaluations of shape %s", tuple(e.shape))
        e[0] = -4.0
        evs[0][obj % m] = -4.0
    else:
        require(raises(b.access_evals, obj, exc=Exception) is not None, "objective %s of %s was accessed", obj, m)
    ctx.step(2)
    agree(b, vals, evs, "after writing into the accessed evaluations")
    ctx.state(n, m, ndata, keep, obj)


CENTERS = {"none": None, "number": 3.0, "vector": [3.0, -5.0], "tensor": torch.tensor([3.0, -5.0]), "long": [1.0, 2.0, 3.0]}
STDEVS = {"none": None, "tiny": 1e-6, "vector": [1e-6, 1e-6], "zero": 0.0}


def generate_case(ctx, n, empty, center, stdev, symmetric, dtype):
    """generate_batch with all combinations of its arguments."""
    p = problem("min", 1, dtype)
    c, s = CENTERS[center], STDEVS[stdev]
    kw = {"center": c, "stdev": s, "symmetric": symmetric}
    if empty is not None:
        kw["empty"] = empty
    ok = (c is None) == (s is None) and center != "long"
    if c is None and symmetric or s is not None and empty:
        ok = False
    if symmetric and n % 2:
        ok = False
    ctx.step()
    ctx.state(n, empty, center, stdev, symmetric, dtype)
    torch.manual_seed(3)
    if not ok:
        require(raises(p.generate_batch, n, exc=Exception, **kw) is not None, "accepted")
        return
    b = p.generate_batch(n, **kw)
    require(len(b) == n and tuple(b.values.shape) == (n, 2) and b.values.dtype == p.dtype, "a batch of shape %s, type %s", tuple(b.values.shape), b.values.dtype)
    require(bool(torch.isnan(plain(b.evals)).all()), "evaluated: %s", b.evals)
    x = plain(b.values)
    if c is None:
        if not empty:
            require(bool((x.abs() <= 1).all()) and (n < 2 or len(set(map(tuple, x.tolist()))) == n), "values %s", x)
        return
    want = torch.as_tensor(c, dtype=p.dtype).expand(n, 2)
    require(bool(((x - want).abs() < 1e-4).all()), "values %s around %s", x, c)
    if symmetric:
        off = x - want
        require(bool((off[0::2] + off[1::2]).abs().max() <= 2e-6), "not mirrored: %s", off)


def run(ctx):
    for n, senses, ndata in itertools.product((1, 2, 3), (("min",), ("max", "min")), (0, 2)):
        sels = list(selections(n))
        for sel, shape in itertools.product(sels, shapes()):
            if not ctx.thorough and n == 3 and isinstance(sel, list) and sel[0] < 0:
                continue
            ctx.case("evaluations", f"{n} {senses} {ndata} {sel} {shape}", evals_case, ctx, n, senses, ndata, sel, shape, None, None)
        k = n
        for sel in (None, slice(1, None), [n - 1, 0] if n > 1 else [0], [-1]):
            k = len(addressed(n, sel))
            for shape in ((k,), (k, 1), (k, 2), (k, 3), (k, 4), (k + 1, 1), (k + 1, 2)):
                for data in shapes():
                    for et in (None, "float64"):
                        ctx.case("evaluation data", f"{n} {senses} {ndata} {sel} {shape} {data} {et}", evals_case, ctx, n, senses, ndata, sel, shape, data, et)
        for sel in sels:
            for dtype in ("float32", "float64", object):
                ctx.case("forgetting", f"{n} {senses} {ndata} {sel} {dtype}", forget_case, ctx, n, senses, ndata, sel, dtype)
        for keep, obj in itertools.product((False, True), (None, 0, 1, 2, -1, -2, -3)):
            ctx.case("access", f"{n} {senses} {ndata} {keep} {obj}", access_case, ctx, n, senses, ndata, keep, obj)
        for i in range(n):
            for view, dtype in itertools.product(("batch", "rest", "front"), ("float32", "float64", object)):
                forms = [("values", a) for a in ("list", "tensor", "ints")] + [("access values", a) for a in (False, True)] + [("access evals", None)]
                if dtype is not object:
                    forms.append(("long values", None))
                for w in ("evals", "evaluation"):
                    for e, d in itertools.product((7.0, [7.0], [7.0, 8.0], [7.0, 8.0, 9.0], [7.0, 8.0, 9.0, 10.0], [[7.0]], [[7.0, 8.0]]), (None, [], [1.0], [1.0, 2.0], [1.0, 2.0, 3.0], [[1.0, 2.0]])):
                        forms.append((w, (e, d)))
                for what, arg in forms:
                    ctx.case("solutions", f"{n} {senses} {ndata} {i} {view} {what} {arg} {dtype}", solution_case, ctx, n, i, view, senses, ndata, what, arg, dtype)
    for n in (1, 2, 3):
        for sel, form, dtype in itertools.product(selections(n), ("same", "wider", "short", "long"), ("float32", "float64", object)):
            if dtype is object and form != "same" or form == "wider" and isinstance(sel, list):
                continue
            ctx.case("values", f"{n} {sel} {form} {dtype}", values_case, ctx, n, sel, form, dtype)
    for v in itertools.product((1, 2, 3, 4), (None, False, True), CENTERS, STDEVS, (False, True), ("float32", "float64")):
        ctx.case("generation", " ".join(map(str, v)), generate_case, ctx, *v)
