"""P19: rank-declared functions behave like a loop over the extra left dimensions."""

import itertools
import math

import numpy as np
import torch
from evotorch import Problem
from evotorch.decorators import expects_ndim, rowwise, vectorized

from mc.ctx import require
from mc.util import fmt, plain, raises, require_same, same

META = {
    "bounds": "1-3 arguments of declared rank 0, 1, 2 or None with 0-2 (one argument: 0-3) extra dimensions of sizes 1-3, given as tensor, non-contiguous tensor, array or number; scalar, vector, tuple and dict results; row-wise fitnesses on inputs of 1-4 dimensions",
    "assumptions": ["extra dimensions of different arguments are right-aligned and of equal sizes"],
}
F = torch.float64
CORE = {0: (), 1: (2,), 2: (2, 3)}


def reduce_(x, k):
    """A scalar depending on every element and its position."""
    x = torch.as_tensor(x)
    n = x.numel()
    w = torch.arange(1, n + 1, dtype=F).reshape(x.shape) + 0.3 * k
    return torch.sum(x * w + 0.1 * x * x)


class Fn:
    def __init__(self, ranks, out):
        self.ranks, self.out = ranks, out
        self.seen = []

    def __call__(self, *args):
        self.seen.append(args)
        total = torch.ones((), dtype=F)
        for k, (r, a) in enumerate(zip(self.ranks, args)):
            if r is None:
                total = total * (1.5 if a == "token" else 0.0)
            else:
                total = total * (reduce_(a, k) + 1 + k)
        if self.out == "scalar":
            return total
        vec = torch.stack([total, total * 2 + 1, -total])
        if self.out == "vector":
            return vec
        if self.out == "tuple":
            return total, vec
        return {"a": vec, "b": total}


def make_args(spec, B, form):
    args = []
    for k, (r, e) in enumerate(spec):
        if r is None:
            args.append("token")
            continue
        shape = tuple(B[len(B) - e:]) + CORE[r]
        n = math.prod(shape)
        base = (torch.arange(n, dtype=F) * 0.37 + k * 0.9).sin().reshape(shape)
        f = form[k % len(form)]
        if f == "array":
            args.append(base.numpy().copy())
        elif f == "strided":
            args.append(torch.stack([base + 9, base], dim=0)[1] if not shape else torch.stack([base, base + 9], dim=-1)[..., 0])
        elif f == "number" and not shape:
            args.append(float(base))
        else:
            args.append(base)
    return args


def loop(fn, spec, B, args):
    """What a loop over the extra left dimensions gives."""
    depth = max([e for r, e in spec if r is not None] + [0])
    shape = tuple(B[len(B) - depth:])
    outs = []
    for idx in itertools.product(*[range(n) for n in shape]):
        item = []
        for (r, e), a in zip(spec, args):
            if r is None:
                item.append(a)
            else:
                t = torch.as_tensor(a, dtype=F)
                item.append(t[idx[len(idx) - e:]] if e else t)
        outs.append(fn(*item))
    return shape, outs


def flat(x):
    if isinstance(x, torch.Tensor):
        return [x]
    if isinstance(x, dict):
        return [x[k] for k in sorted(x)]
    return list(x)


def combo_case(ctx, spec, B, form, out, alt):
    ranks = tuple(r for r, _ in spec)
    args = make_args(spec, B, form)
    keep = [plain(torch.as_tensor(a)) if not isinstance(a, str) else a for a in args]
    fn = Fn(ranks, out)
    dec = expects_ndim(fn, ranks) if alt else expects_ndim(*ranks)(fn)
    got = dec(*args)
    ctx.step()
    shape, outs = loop(Fn(ranks, out), spec, B, args)
    require(isinstance(got, dict) == (out == "dict") and isinstance(got, tuple) == (out == "tuple"), "result has type {}", type(got))
    for k, g in enumerate(flat(got)):
        want = torch.stack([flat(o)[k] for o in outs])
        want = want.reshape(shape + tuple(want.shape[1:]))
        require_same(g, want, f"result {k} for ranks and extra dimensions {spec} over {B}", 1e-9)
    for a, b in zip(args, keep):
        if not isinstance(a, str):
            require(same(torch.as_tensor(a), b), "an argument was altered")
    ctx.state((spec, B, form, out))


def small_case(ctx, ranks, given, allow, at_once):
    """given: number of dimensions of each argument."""
    calls = []

    def fn(*args):
        calls.append([a.ndim for a in args])
        return sum(a.sum() for a in args)

    args = [torch.arange(1, 2**n + 1, dtype=F).reshape((2,) * n) for n in given]
    dec = expects_ndim(fn, ranks, allow_smaller_ndim=allow) if at_once else expects_ndim(*ranks, allow_smaller_ndim=allow)(fn)
    small = any(g < r for g, r in zip(given, ranks))
    if small and not allow:
        require(raises(dec, *args) is not None, "ranks {} accepted arguments of {} dimensions", ranks, given)
        require(not calls, "the function ran before its arguments were refused")
    else:
        got = dec(*args)
        depth = max([g - r for g, r in zip(given, ranks)] + [0])
        outs = []
        for idx in itertools.product(range(2), repeat=depth):
            item = []
            for g, r, a in zip(given, ranks, args):
                e = max(0, g - r)
                item.append(a[idx[len(idx) - e:]] if e else a)
            outs.append(sum(a.sum() for a in item))
        require_same(got, torch.stack(outs).reshape((2,) * depth), f"ranks {ranks} on {given} dimensions", 1e-9)
        require(all(n == min(g, r) for n, g, r in zip(calls[0], given, ranks)), "the function saw {} dimensions", calls[0])
    ctx.step()
    ctx.state((ranks, given, allow))


SCALARS = {"float": 2.5, "int": 3, "bool": True, "npbool": np.bool_(False), "npfloat": np.float32(1.5), "npint": np.int64(4)}


def scalar_case(ctx, ranks, kinds, scalar):
    """Conversion of numbers: dtype of the tensors among the declared arguments, booleans stay booleans."""
    args, dts = [], set()
    for r, k in zip(ranks, kinds):
        if k == "scalar":
            args.append(SCALARS[scalar])
            continue
        a = torch.ones((2,) * (r or 0), dtype=getattr(torch, k))
        args.append(a)
        if r is not None:
            dts.add(a.dtype)
    seen = []

    def fn(*a):
        seen.append(a)
        return torch.zeros(())

    dec = expects_ndim(*ranks)(fn)
    declared = [k == "scalar" and r is not None for r, k in zip(ranks, kinds)]
    boolean = isinstance(SCALARS[scalar], (bool, np.bool_))
    bad = any(declared) and (len(dts) == 0 or (len(dts) > 1 and not boolean))
    if bad:
        require(raises(dec, *args) is not None, "the number {} was converted although the dtypes are {}", scalar, dts)
    else:
        dec(*args)
        for r, k, given, got in zip(ranks, kinds, args, seen[0]):
            if r is None or k != "scalar":
                require(got is given, "an argument needing no conversion was replaced by {}", got)
            else:
                want = torch.bool if boolean else next(iter(dts))
                require(isinstance(got, torch.Tensor) and got.dtype == want and got.ndim == 0, "{} became {} (expected dtype {})", given, got, want)
                require(float(got) == float(torch.as_tensor(given).to(want)), "{} became {}", given, got)
    ctx.step()
    ctx.state((ranks, kinds, scalar))


def array_case(ctx, rank, extra, dtype):
    seen = []

    def fn(a):
        seen.append(a)
        return a.sum()

    a = np.arange(2 ** (rank + extra)).reshape((2,) * (rank + extra)).astype(dtype)
    got = expects_ndim(rank)(fn)(a)
    want = torch.as_tensor(a.astype("float64")).reshape((2,) * extra + (-1,)).sum(dim=-1)
    require_same(got, want, "sum of an array", 1e-9)
    require(seen[0].dtype == torch.as_tensor(a).dtype, "array of {} became {}", dtype, seen[0].dtype)
    ctx.state((rank, extra, dtype))


def refuse_case(ctx, what):
    f = expects_ndim(1, 1)(lambda a, b=None: a.sum() if b is None else a.sum() + b.sum())
    x = torch.ones(2)
    if what == "list":
        require(raises(f, x, [1.0, 2.0]) is not None, "a list was accepted")
    elif what == "none":
        require(raises(f, x, None) is not None, "None was accepted as tensor")
    elif what == "string":
        require(raises(f, x, "ab") is not None, "a string was accepted")
    elif what == "mismatch":
        require(raises(f, torch.ones(2, 2), torch.ones(3, 2)) is not None, "batches of sizes 2 and 3 were combined")
    elif what == "fewer":
        require_same(f(torch.ones(3, 2)), torch.full((3,), 2.0), "call leaving out an optional argument")
    elif what == "more":
        g = expects_ndim(1)(lambda a, k=2.0: a.sum() * k)
        got = []
        e = raises(lambda: got.append(g(x, torch.tensor(5.0))))
        require(e is not None or float(got[0]) == 10.0, "the second argument was silently ignored: {}", got)
    ctx.state(what)


def random_case(ctx, kind, mode, shape):
    def fn(x):
        return torch.rand(()) + 0.0 * x.sum()

    dec = {
        "rowwise": lambda: rowwise(randomness=mode)(fn),
        "rowwise at once": lambda: rowwise(fn, randomness=mode),
        "expects_ndim": lambda: expects_ndim(1, randomness=mode)(fn),
        "expects_ndim at once": lambda: expects_ndim(fn, (1,), randomness=mode),
    }[kind]()
    x = torch.zeros(shape + (2,))
    torch.manual_seed(1)
    if mode == "error" and shape:
        require(raises(dec, x) is not None, "random numbers were drawn in a batched run although declared an error")
    else:
        vals = dec(x).reshape(-1).tolist()
        n = math.prod(shape)
        require(len(vals) == n, "got {} values", len(vals))
        distinct = len(set(vals))
        require(distinct == (n if mode == "different" else 1), "{} distinct values among {} with randomness={}", distinct, n, mode)
    ctx.state((kind, mode, shape))


# ---- row-wise fitnesses -------------------------------------------------------
def bodies():
    return {
        "norm": lambda x: torch.sqrt(torch.sum(x**2)),
        "first": lambda x: x[0] * 2 - x[-1],
        "max": lambda x: torch.max(x) - torch.argmin(x),
        "where": lambda x: torch.where(x.sum() > 0, x.prod(), -x.sum()),
        "sort": lambda x: torch.sort(x).values[0] + x.numel() * 10,
        "vec": lambda x: torch.cumsum(x, dim=0),
        "two": lambda x: torch.stack([x.sum(), x.prod()]),
    }


def rowwise_case(ctx, name, shape, layout, immediate):
    body = bodies()[name]
    f = rowwise(body) if immediate else rowwise()(body)
    n = math.prod(shape)
    x = (torch.arange(n * 3, dtype=F) * 1.7).sin().reshape(shape + (3,))
    if layout == "transposed" and len(shape) == 2:
        x = x.transpose(0, 1)
        shape = (shape[1], shape[0])
    elif layout == "expanded" and shape:
        x = x[:1].expand(shape + (3,))
    arr = x.numpy() if layout == "array" else x
    got = f(arr)
    flatx = x.reshape(-1, 3)
    want = torch.stack([body(r) for r in flatx])
    want = want.reshape(shape + tuple(want.shape[1:]))
    require_same(got, want, f"{name} on {shape}", 1e-9)
    if n > 1 and layout == "plain":
        for i in range(n):
            y = flatx.clone()
            y[i] = torch.tensor([5.0, -6.0, 7.0], dtype=F)
            g2 = f(y.reshape(shape + (3,)))
            a, b = plain(got).reshape((n,) + tuple(want.shape[len(shape):])), plain(g2).reshape((n,) + tuple(want.shape[len(shape):]))
            others = [j for j in range(n) if j != i]
            require_same(b[others], a[others], f"{name}: rows other than {i}")
            require(not same(a[i], b[i]), "{}: row {} does not matter", name, i)
    ctx.step()
    ctx.state((name, shape, layout))


def problem_case(ctx, name, n, how, multi):
    calls = []

    def count(x):
        calls.append(x.ndim)

    if multi:
        def body(x):
            return torch.stack([x.sum(), (x * x).sum()], dim=-1) if x.ndim == 1 else None
    else:
        body = bodies()[name]

    if how == "rowwise":
        fit = rowwise(body)
    elif how == "rowwise()":
        fit = rowwise()(body)
    elif how == "vectorized":
        def fit(xs):
            count(xs)
            return torch.stack([body(x) for x in xs])
        fit = vectorized(fit)
    elif how == "argument":
        def fit(xs):
            count(xs)
            return torch.stack([body(x) for x in xs])
    else:
        def fit(x):
            count(x)
            return body(x)
    kw = {"vectorized": True} if how == "argument" else {}
    prob = Problem(["min", "max"] if multi else "min", fit, solution_length=3, initial_bounds=(-1, 1), dtype=F, eval_dtype=F, **kw)
    batch = prob.generate_batch(n)
    vals = (torch.arange(n * 3, dtype=F) * 1.3).cos().reshape(n, 3)
    batch.set_values(vals)
    prob.evaluate(batch)
    want = torch.stack([body(v) for v in vals]).reshape(n, -1)
    require_same(batch.evals, want, f"evaluations through {how}", 1e-9)
    if how in ("vectorized", "argument"):
        require(calls == [2], "a vectorized fitness was called on {}", calls)
    if how == "plain":
        require(calls == [1] * n, "a per-solution fitness was called on {}", calls)
    ctx.step()
    ctx.state((name, n, how, multi))


def run(ctx):
    one = [(r, e) for r in (0, 1, 2) for e in (0, 1, 2, 3)] + [(None, 0)]
    small = [(r, e) for r in (0, 1, 2) for e in (0, 1, 2)] + [(None, 0)]
    forms = [("tensor",), ("array",), ("strided",), ("tensor", "number"), ("number", "tensor"), ("array", "tensor")]
    outs = ("scalar", "vector", "tuple", "dict")
    for s in one:
        for form in forms[:3]:
            for out in outs:
                for B in ((2, 3, 2), (3, 1, 2), (1, 1, 1)):
                    ctx.case("one argument", f"{s} {form} {out} {B}", combo_case, ctx, (s,), B, form, out, False)
    for a, b in itertools.product(small, repeat=2):
        for form in forms:
            if "number" in form and not (a[0] == 0 and a[1] == 0) and not (b[0] == 0 and b[1] == 0):
                continue
            k = form.index("number") if "number" in form else None
            if k is not None and (None in (a[0], b[0])):
                continue
            for out in outs:
                for B in ((2, 3),) if out != "vector" else ((2, 3), (3, 1), (1, 2), (2, 2)):
                    for alt in (False, True) if out == "vector" else (False,):
                        ctx.case("two arguments", f"{a} {b} {form} {out} {B} {alt}", combo_case, ctx, (a, b), B, form, out, alt)
    for spec in itertools.product(small, repeat=3):
        for out in outs if ctx.thorough else ("vector",):
            for form in (("tensor",), ("strided", "array", "tensor")):
                ctx.case("three arguments", f"{spec} {out} {form}", combo_case, ctx, spec, (2, 3), form, out, False)
                if ctx.thorough:
                    ctx.case("three arguments", f"{spec} {out} {form} (3, 2)", combo_case, ctx, spec, (3, 2), form, out, True)
    for k in (1, 2, 3):
        for ranks in itertools.product((0, 1, 2), repeat=k):
            for given in itertools.product((0, 1, 2, 3) if k < 3 else (0, 1, 2), repeat=k):
                for allow in (False, True):
                    for at_once in (False, True):
                        ctx.case("smaller ranks", f"{ranks} {given} {allow} {at_once}", small_case, ctx, ranks, given, allow, at_once)
    for k in (1, 2, 3):
        for ranks in itertools.product((None, 0, 1), repeat=k):
            for kinds in itertools.product(("scalar", "float32", "float64", "int64"), repeat=k):
                if any(r == 1 and q == "scalar" for r, q in zip(ranks, kinds)) or "scalar" not in kinds:
                    continue
                for sc in SCALARS:
                    if "int64" in kinds and sc in ("float", "npfloat"):
                        continue  # a fraction cannot be represented
                    ctx.case("numbers", f"{ranks} {kinds} {sc}", scalar_case, ctx, ranks, kinds, sc)
    for r in (0, 1, 2):
        for e in (0, 1, 2):
            for dt in ("float32", "float64", "int32", "int64", "uint8"):
                ctx.case("numbers", f"array {r} {e} {dt}", array_case, ctx, r, e, dt)
    for what in ("list", "none", "string", "mismatch", "fewer", "more"):
        ctx.case("refusals", what, refuse_case, ctx, what)
    for kind in ("rowwise", "rowwise at once", "expects_ndim", "expects_ndim at once"):
        for mode in ("error", "different", "same"):
            for shape in ((), (3,), (2, 3)):
                ctx.case("randomness", f"{kind} {mode} {shape}", random_case, ctx, kind, mode, shape)
    for name in bodies():
        for shape in ((), (1,), (3,), (2, 3), (2, 1, 3), (1, 1)):
            for layout in ("plain", "transposed", "expanded", "array"):
                for im in (True, False):
                    ctx.case("row-wise functions", f"{name} {shape} {layout} {im}", rowwise_case, ctx, name, shape, layout, im)
    for how in ("rowwise", "rowwise()", "vectorized", "argument", "plain"):
        for n in (1, 2, 4):
            for name in ("norm", "first", "max", "where", "sort"):
                ctx.case("fitnesses", f"{name} {n} {how}", problem_case, ctx, name, n, how, False)
            ctx.case("fitnesses", f"two objectives {n} {how}", problem_case, ctx, None, n, how, True)
