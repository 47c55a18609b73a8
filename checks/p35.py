"""P35: tensor helpers deliver the requested shape, type and content."""

import itertools
import math
from collections import namedtuple
from typing import Any

import numpy as np
import torch
from evotorch import Problem
from evotorch import tools as et
from evotorch.distributions import SeparableGaussian
from evotorch.tools import ObjectArray, ReadOnlyTensor

from mc import rng
from mc.ctx import require
from mc.util import fmt, plain, raises, require_same, same

META = {
    "bounds": "all makers as functions and as methods of a problem and of a distribution, over sizes of 0-3 dimensions up to 3, all dtypes given as string, torch, numpy or native type, new and given (also strided and scalar) output tensors; random makers over all answers of the random source with up to 1 (thorough 2) non-default ones, including the extremes of the integer types; conversion, clipping and limiting helpers over small grids; workloads up to 12 over up to 7 workers",
    "assumptions": ["a uniform sample may exceed a float bound by rounding (relative 1e-6; half precision 1e-2)", "lower bounds do not exceed upper bounds"],
}

DTYPES = ("float32", "float64", "float16", "int64", "int32", "int16", "int8", "uint8", "bool")
FORMS = {
    "string": lambda d: d,
    "torch": lambda d: getattr(torch, d),
    "numpy": lambda d: np.dtype(d),
}


class Owner(Problem):
    def __init__(self, dtype="float32", eval_dtype="float64", seed=None, n=3):
        super().__init__("min", lambda x: x.sum(), solution_length=n, initial_bounds=(-1, 1), dtype=dtype, eval_dtype=eval_dtype, seed=seed)


def owners():
    return {
        "function": None,
        "problem": Owner(),
        "distribution": SeparableGaussian({"mu": torch.zeros(3, dtype=torch.float64), "sigma": torch.ones(3, dtype=torch.float64)}),
    }


def default_dtype(owner, use_eval=False):
    if owner == "problem":
        return torch.float64 if use_eval else torch.float32
    return torch.float64 if owner == "distribution" else torch.float32


def content(maker, shape, dt):
    if maker == "make_zeros":
        return torch.zeros(shape, dtype=dt)
    if maker == "make_ones":
        return torch.ones(shape, dtype=dt)
    if maker == "make_nan":
        return torch.full(shape, math.nan, dtype=dt)
    if maker == "make_I":
        return torch.eye(shape[0], dtype=dt)
    return None


SIZES = [(), (0,), (1,), (3,), (2, 3), (2, 1, 2)]


def const_case(ctx, owner, maker, shape, size_form, dtype, dform):
    obj = owners()[owner]
    f = getattr(obj if obj is not None else et, maker)
    kw = {}
    if dtype is not None:
        kw["dtype"] = FORMS[dform](dtype)
    dt = default_dtype(owner) if dtype is None else getattr(torch, dtype)
    if maker == "make_I":
        args = (shape[0],) if size_form == "ints" else ((shape[0],),)
        want_shape = (shape[0], shape[0])
    elif size_form == "ints":
        args, want_shape = shape, shape
    elif size_form == "tuple":
        args, want_shape = (shape,), shape
    elif size_form == "num":
        args, want_shape = (), (2, 3)
        kw["num_solutions"] = 2
    got = f(*args, **kw)
    require(type(got) is torch.Tensor, "{} gave {}", maker, type(got))
    require(tuple(got.shape) == want_shape and got.dtype == dt, "{}{}: got {} {}", maker, (args, kw), tuple(got.shape), got.dtype)
    w = content(maker, want_shape, dt)
    if w is not None:
        require_same(got, w, f"{maker}({args}, {kw})")
    if got.numel():
        got.fill_(0)  # the result is an ordinary writable tensor
    ctx.step()
    ctx.state((owner, maker, shape, size_form, dtype, dform))


def outs(shape, dt):
    yield "plain", torch.full(shape, 7, dtype=dt)
    if shape:
        base = torch.full(tuple(shape) + (2,), 7, dtype=dt)
        yield "strided", base[..., 0]
        rows = torch.full((shape[0] + 2,) + tuple(shape[1:]), 7, dtype=dt)
        yield "rows", rows[1:-1]


def out_case(ctx, owner, maker, shape, dtype):
    obj = owners()[owner]
    f = getattr(obj if obj is not None else et, maker)
    dt = getattr(torch, dtype)
    for name, out in outs(shape, dt):
        base = out._base
        got = f(out=out)
        require(got is out or (got.data_ptr() == out.data_ptr() and got.shape == out.shape), "{}(out=...) gave another tensor", maker)
        require_same(out, content(maker, shape, dt), f"{maker}(out={name} {shape} {dtype})")
        if base is not None:
            if name == "strided":
                require_same(base[..., 1], torch.full(shape, 7, dtype=dt), "memory outside the output tensor")
            else:
                require_same(torch.stack([base[0], base[-1]]), torch.full((2,) + tuple(shape[1:]), 7, dtype=dt), "memory outside the output tensor was written")
        if owner == "function":
            e = raises(f, *((2,) if maker == "make_I" else (2, 2)), out=out)
            require(e is not None, "{} accepted a size together with an output tensor", maker)
            require(raises(f, out=out, dtype=torch.float32) is not None, "{} accepted a dtype together with an output tensor", maker)
    ctx.step()
    ctx.state((owner, maker, shape, dtype, "out"))


def eval_case(ctx, maker):
    p = Owner()
    kw = {"n": 3} if maker == "make_randint" else {}
    args = (2,) if maker != "make_tensor" else ([1, 2],)
    if maker == "as_tensor":
        args = ([1, 2],)
    got = getattr(p, maker)(*args, use_eval_dtype=True, **kw)
    require(got.dtype == torch.float64, "{}(use_eval_dtype=True) gave {}", maker, got.dtype)
    if maker != "make_randint":
        require(getattr(p, maker)(*args, **kw).dtype == torch.float32, "{} does not use the dtype of the problem", maker)
    else:
        require(getattr(p, maker)(*args, **kw).dtype == torch.int64, "make_randint does not default to int64")
    require(raises(getattr(p, maker), *args, use_eval_dtype=True, dtype="float32", **kw) is not None, "{} accepted dtype together with use_eval_dtype", maker)
    if maker not in ("make_tensor", "as_tensor", "make_I"):
        require(raises(getattr(p, maker), 2, num_solutions=3, **kw) is not None, "{} accepted size together with num_solutions", maker)
    ctx.state((maker, "eval"))


# ---- random makers ------------------------------------------------------------
DENSE = (0.25, 0.875, 0.0, 0.5, 1 - 2**-24, 0.125, 0.625, 0.75, 0.375)


def uniform_case(ctx, chooser, dtype, lb, ub, shape, how):
    dt = getattr(torch, dtype)
    o = rng.Oracle(chooser, uniforms=DENSE, wide=True, span=6)
    kw = {}
    low, high = (0, 1) if lb is None else (lb, ub)
    if lb is not None:
        kw["lb"] = torch.tensor(lb, dtype=dt) if isinstance(lb, list) else lb
        kw["ub"] = torch.tensor(ub, dtype=dt) if isinstance(ub, list) else ub
    with rng.active(o):
        if how == "out":
            out = torch.empty(shape, dtype=dt)
            got = et.make_uniform(out=out, **kw)
            require(got.data_ptr() == out.data_ptr(), "make_uniform(out=...) gave another tensor")
        elif how == "strided":
            base = torch.full(tuple(shape) + (2,), 3, dtype=dt)
            out = base[..., 0]
            got = et.make_uniform(out=out, **kw)
            require_same(base[..., 1], torch.full(shape, 3, dtype=dt), "memory outside the output")
        else:
            got = et.make_uniform(*(shape if how == "ints" else (shape,)), dtype=dtype if how == "string" else dt, **kw)
    require(tuple(got.shape) == shape and got.dtype == dt, "make_uniform gave {} {}", tuple(got.shape), got.dtype)
    lo = torch.as_tensor(low, dtype=torch.float64).expand(shape)
    hi = torch.as_tensor(high, dtype=torch.float64).expand(shape)
    g = got.to(torch.float64)
    tol = {"float16": 1e-2, "float32": 1e-6}.get(dtype, 1e-12) * (hi.abs() + lo.abs() + 1)
    if not dt.is_floating_point:
        tol = torch.zeros_like(hi)
    require(bool(((g >= lo - tol) & (g <= hi + tol)).all()), "uniform {} sample {} is outside {}..{}", dtype, fmt(got), low, high)
    return got


def uniform_all(ctx, dtype, lb, ub, shape, how, bound):
    seen = set()

    def body(ch):
        got = uniform_case(ctx, ch, dtype, lb, ub, shape, how)
        for i, v in enumerate(got.reshape(-1).tolist()):
            seen.add((i, v))
        ctx.outcome(fmt(got))

    ctx.explore("uniform makers", f"{dtype} {lb} {ub} {shape} {how}", body, bound=bound)
    return seen


def coverage_case(ctx, dtype, lb, ub):
    """Every integer of a small range is reachable, both ends included."""
    dt = getattr(torch, dtype)
    seen = set()
    from mc.explore import Chooser, dfs

    def body(ch):
        o = rng.Oracle(ch, uniforms=tuple((k + 0.5) / 24 for k in range(24)), span=12)
        with rng.active(o):
            got = et.make_uniform(1, lb=lb, ub=ub, dtype=dt)
        seen.add(int(got[0]))
        ctx.step()

    for _ in dfs(body):
        pass
    require(seen == set(range(lb, ub + 1)), "make_uniform of {} over {}..{} reaches {}", dtype, lb, ub, sorted(seen))
    ctx.state((dtype, lb, ub))


def gaussian_case(ctx, ch, dtype, center, stdev, shape, sym, how):
    dt = getattr(torch, dtype)
    o = rng.Oracle(ch)
    kw = {"symmetric": True} if sym else {}
    if center is not None:
        kw["center"] = torch.tensor(center, dtype=dt) if isinstance(center, list) else center
        kw["stdev"] = torch.tensor(stdev, dtype=dt) if isinstance(stdev, list) else stdev
    with rng.active(o):
        if how == "out":
            out = torch.empty(shape, dtype=dt)
            got = et.make_gaussian(out=out, **kw)
            require(got.data_ptr() == out.data_ptr(), "make_gaussian(out=...) gave another tensor")
        else:
            got = et.make_gaussian(*(shape if how == "ints" else (shape,)), dtype=dtype if how == "string" else dt, **kw)
    require(tuple(got.shape) == shape and got.dtype == dt, "make_gaussian gave {} {}", tuple(got.shape), got.dtype)
    c = torch.as_tensor(0.0 if center is None else center, dtype=torch.float64)
    s = torch.as_tensor(1.0 if stdev is None else stdev, dtype=torch.float64)
    z = (got.to(torch.float64) - c) / s
    if sym:
        require_same(z[0::2], -z[1::2], "symmetric pairs", 1e-2 if dtype == "float16" else 1e-5)
        z = z[0::2]
    a = sorted(z.reshape(-1).tolist())
    b = sorted(o.values("normal"))
    require_same(torch.tensor(a), torch.tensor(b), "standardized samples against the random source", 1e-2 if dtype == "float16" else 1e-5)
    ctx.outcome(fmt(got))


def randint_case(ctx, ch, dtype, n, shape, how):
    dt = torch.int64 if dtype is None else getattr(torch, dtype)
    o = rng.Oracle(ch, wide=True, span=6, uniforms=DENSE)
    num = torch.tensor(n) if isinstance(n, list) else n
    with rng.active(o):
        if how == "out":
            out = torch.empty(shape, dtype=dt)
            got = et.make_randint(out=out, n=num)
            require(got.data_ptr() == out.data_ptr(), "make_randint(out=...) gave another tensor")
        else:
            kw = {} if dtype is None else {"dtype": dtype if how == "string" else dt}
            got = et.make_randint(*(shape if how == "ints" else (shape,)), n=num, **kw)
    require(tuple(got.shape) == shape and got.dtype == dt, "make_randint gave {} {}", tuple(got.shape), got.dtype)
    top = torch.as_tensor(n, dtype=torch.float64).expand(shape)
    g = got.to(torch.float64)
    require(bool(((g >= 0) & (g <= top - 1) & (g == g.floor())).all()), "make_randint(n={}) of {} gave {}", n, dtype, fmt(got))
    ctx.outcome(fmt(got))


def generator_case(ctx, maker, owner, given):
    """Which random source is used: the given generator, else the one of the owner, else the global one."""
    kw = {"n": 50} if maker == "make_randint" else {}
    prob = Owner(seed=5) if owner == "seeded" else Owner()
    f = getattr(prob, maker) if owner != "function" else getattr(et, maker)
    own = torch.Generator().manual_seed(77)
    other = Owner(seed=77)
    if given == "generator":
        kw["generator"] = own
    elif given == "problem":
        kw["generator"] = other
    source = own if given == "generator" else other.generator if given == "problem" else prob.generator if owner == "seeded" else None
    torch.manual_seed(3)
    before = torch.random.get_rng_state()
    sb = None if source is None else source.get_state()
    pb = prob.generator.get_state() if owner == "seeded" else None
    a = f(4, 2, **kw)
    after = torch.random.get_rng_state()
    if source is None:
        require(not torch.equal(before, after), "{} did not use the global generator", maker)
        torch.manual_seed(3)
    else:
        require(torch.equal(before, after), "{} advanced the global generator although it was given another one", maker)
        require(not torch.equal(sb, source.get_state()), "{} did not use its generator", maker)
        if owner == "seeded" and given:
            require(torch.equal(pb, prob.generator.get_state()), "{} used the generator of the problem instead of the given one", maker)
        source.set_state(sb)
    b = f(4, 2, **kw)
    require_same(b, a, f"{maker} repeated from the same random state")
    c = f(4, 2, **kw)
    require(not same(b, c), "{} gave the same values twice in a row", maker)
    ctx.state((maker, owner, given))


def wrong_random_case(ctx, maker, kw):
    for how in ({}, {"out": torch.empty(2)}):
        args = () if how else (2,)
        require(raises(getattr(et, maker), *args, **kw, **how) is not None, "{} accepted {}", maker, kw)
    ctx.state((maker, str(kw)))


# ---- conversions ----------------------------------------------------------------
def conv_data():
    return {
        "list": [1, 0, 1],
        "floats": [1.5, 0.0, 2.0],
        "tuple": (1, 0, 1),
        "nested": [[1, 0], [0, 1]],
        "array": np.array([1, 0, 2], dtype="int16"),
        "tensor": torch.tensor([1.0, 0.0, 3.0], dtype=torch.float64),
        "readonly": et.as_read_only_tensor(torch.tensor([1.0, 2.0])),
        "scalar": 1,
    }


def convert_case(ctx, fname, dname, dtype, dform, owner):
    data = conv_data()[dname]
    obj = owners()[owner]
    f = getattr(obj if obj is not None else et, fname)
    kw = {} if dtype is None else {"dtype": FORMS[dform](dtype)}
    keep = plain(torch.as_tensor(data))
    got = f(data, **kw)
    if dtype is not None:
        dt = getattr(torch, dtype)
    elif obj is not None:
        dt = default_dtype(owner)
    else:
        dt = torch.as_tensor(data).dtype
    require(isinstance(got, torch.Tensor) and got.dtype == dt, "{}({}, {}) gave dtype {}, expected {}", fname, dname, kw, got.dtype, dt)
    require_same(got, keep.to(dt), f"{fname}({dname}, {kw})")
    if fname == "make_tensor":
        require(type(got) is torch.Tensor, "make_tensor gave a {}", type(got))
        if got.numel():
            got.fill_(0)
        require(same(torch.as_tensor(data), keep), "the tensor made shares memory with its source")
        ro = f(data, read_only=True, **kw)
        require(isinstance(ro, ReadOnlyTensor), "make_tensor(read_only=True) gave a {}", type(ro))
        require_same(ro, keep.to(dt), "read-only tensor")
    elif isinstance(data, torch.Tensor) and got.dtype == data.dtype:
        require(et.storage_ptr(got) == et.storage_ptr(data), "as_tensor copied although nothing had to change")
    ctx.step()
    ctx.state((fname, dname, dtype, dform, owner))


def device_case(ctx, fname, target):
    """Moving to another device (the meta device stands for one)."""
    x = torch.tensor([1.0, 2.0])
    got = et.as_tensor(x, device=target)
    require(str(got.device) == target and got.shape == x.shape, "as_tensor(tensor, device={}) is on {}", target, got.device)
    got = et.as_tensor(x, device=target, dtype="float64")
    require(str(got.device) == target and got.dtype == torch.float64, "as_tensor(tensor, device, dtype) gave {}", got)
    if target == "cpu":
        m = torch.empty(3, device="meta")
        require(raises(lambda: et.as_tensor(m, device="cpu")) is not None or str(et.as_tensor(m, device="cpu").device) == "cpu", "as_tensor left the tensor on its device")
    for obj in ("object", object, Any, "O"):
        oa = ObjectArray(2)
        if target == "cpu":
            require(isinstance(et.as_tensor([1, "a"], dtype=obj, device=target), ObjectArray), "as_tensor gave no ObjectArray")
            require(isinstance(et.make_empty(2, dtype=obj, device=target), ObjectArray), "make_empty gave no ObjectArray")
            require(et.as_tensor(oa, device=target) is oa, "as_tensor replaced an ObjectArray")
        else:
            require(raises(et.as_tensor, [1, "a"], dtype=obj, device=target) is not None, "an ObjectArray was made on {}", target)
            require(raises(et.make_empty, 2, dtype=obj, device=target) is not None, "make_empty made an ObjectArray on {}", target)
            require(raises(et.as_tensor, oa, device=target) is not None, "an ObjectArray was moved to {}", target)
    ctx.state((fname, target))


def ensure_case(ctx, owner, value, length, dtype, allow):
    p = Owner(n=3)
    kw = {"allow_scalar": allow}
    if owner == "function":
        f = et.ensure_tensor_length_and_dtype
        args = (value, length, dtype)
    else:
        f = p.ensure_tensor_length_and_dtype
        args = (value,)
        if length != 3:
            args = (value, length)
        if dtype != "float32":
            kw["dtype"] = dtype
    t = torch.as_tensor(value)
    dt = getattr(torch, dtype)
    if t.ndim == 0:
        got = f(*args, **kw)
        want = t.to(dt) if allow else t.to(dt).repeat(length)
        require(got.dtype == dt, "dtype {}", got.dtype)
        require_same(got, want, f"ensure_tensor_length_and_dtype({value}, {length}, {dtype}, {allow})")
    elif t.ndim == 1 and len(t) == length:
        got = f(*args, **kw)
        require(got.dtype == dt, "dtype {}", got.dtype)
        require_same(got, t.to(dt), "ensured tensor")
        if isinstance(value, torch.Tensor) and value.dtype == dt:
            require(et.storage_ptr(got) == et.storage_ptr(value), "a fitting tensor was copied")
    else:
        e = raises(f, *args, **kw)
        require(isinstance(e, ValueError), "shape {} was accepted for length {} ({})", tuple(t.shape), length, e)
    ctx.state((owner, str(value), length, dtype, allow))


def clip_case(ctx, x, lb, ub, copy, form):
    conv = {"list": lambda v: v, "tensor": lambda v: None if v is None else torch.tensor(v), "int": lambda v: v}[form]
    t = torch.tensor(x, dtype=torch.int64 if form == "int" else torch.float32)
    if form == "int":
        lb = None if lb is None else [int(v) for v in lb] if isinstance(lb, list) else int(lb)
        ub = None if ub is None else [int(v) for v in ub] if isinstance(ub, list) else int(ub)
    keep = plain(t)
    got = et.clip_tensor(t, conv(lb), conv(ub), ensure_copy=copy)
    want = []
    for i, v in enumerate(keep.tolist()):
        lo = -math.inf if lb is None else (lb[i] if isinstance(lb, list) else lb)
        hi = math.inf if ub is None else (ub[i] if isinstance(ub, list) else ub)
        want.append(min(max(v, lo), hi))
    require_same(got, torch.tensor(want, dtype=t.dtype), f"clip_tensor({x}, {lb}, {ub})")
    require(got.dtype == t.dtype, "clip_tensor changed the dtype to {}", got.dtype)
    if copy:
        got.fill_(9)
    elif lb is None and ub is None:
        require(got is t, "an unneeded copy was made")
    require(same(t, keep), "clip_tensor altered its argument")
    ctx.step()
    ctx.state((str(x), str(lb), str(ub), copy, form))


def modify_ref(o, t, lb, ub, ch):
    out = []
    for i, (a, b) in enumerate(zip(o, t)):
        pick = lambda v, d: d if v is None else (v[i] if isinstance(v, list) else v)
        lo, hi, c = pick(lb, -math.inf), pick(ub, math.inf), pick(ch, None)
        if c is not None:
            lo2, hi2 = a - abs(a) * c, a + abs(a) * c
            lo, hi = max(lo, lo2), min(hi, hi2)
        out.append(min(max(b, lo), hi))
    return out


def modify_case(ctx, fn, o, t, lb, ub, ch, form, in_place):
    dt = torch.float64
    conv = (lambda v: torch.tensor(v, dtype=dt) if v is not None else None) if form == "tensor" else (lambda v: torch.tensor(v, dtype=dt) if isinstance(v, list) and fn == "modify_vector" else v)
    orig, targ = torch.tensor(o, dtype=dt), torch.tensor(t, dtype=dt)
    kw = {k: conv(v) for k, v in (("lb", lb), ("ub", ub), ("max_change", ch)) if v is not None}
    keep = {k: plain(torch.as_tensor(v)) for k, v in kw.items()}
    want = torch.tensor(modify_ref(o, t, lb, ub, ch), dtype=dt)
    if in_place:
        kw["in_place"] = True
    if fn == "modify_vector" and (lb is None) != (ub is None):
        require(raises(et.modify_vector, orig, targ, **kw) is not None, "modify_vector accepted only one of lb and ub")
        return
    got = getattr(et, fn)(orig, targ, **kw)
    require_same(got, want, f"{fn}({o}, {t}, lb={lb}, ub={ub}, max_change={ch})", 1e-12)
    require_same(targ, torch.tensor(t, dtype=dt), "the target after the call")
    if in_place:
        require(got is orig, "the original was not changed in place")
    else:
        require_same(orig, torch.tensor(o, dtype=dt), "the original after the call")
    for k, v in keep.items():
        require(same(torch.as_tensor(kw[k]), v), "{} was altered", k)
    ctx.step()
    ctx.state((fn, str(o), str(t), str(lb), str(ub), str(ch), form, in_place))


def modify_batch_case(ctx, levels, limits):
    """modify_vector with batch dimensions on any of its arguments."""
    O = [[1.0, -2.0], [2.0, 0.5], [-1.0, 3.0]]
    T = [[4.0, -5.0], [1.0, 0.6], [0.0, 9.0]]
    L = [[0.9, -2.1], [1.5, 0.0], [-1.05, 2.0]]
    U = [[1.2, -1.0], [2.1, 0.52], [0.0, 3.1]]
    C = [[0.1, 0.2], [0.3, 0.05], [0.5, 0.01]]
    src = {"o": O, "t": T, "lb": L, "ub": U, "ch": C}
    val = {k: torch.tensor(src[k] if levels[k] else src[k][0], dtype=torch.float64) for k in levels}
    kw = {}
    if "b" in limits:
        kw.update(lb=val["lb"], ub=val["ub"])
    if "c" in limits:
        kw["max_change"] = val["ch"]
    used = [k for k in ("o", "t") if not (k == "o" and "c" not in limits)] + (["lb", "ub"] if "b" in limits else []) + (["ch"] if "c" in limits else [])
    got = et.modify_vector(val["o"], val["t"], **kw)
    n = 3 if any(levels[k] for k in used) else 1
    want = []
    for i in range(n):
        g = {k: src[k][i if levels[k] else 0] for k in levels}
        r = modify_ref(g["o"], g["t"], None, None, g["ch"] if "c" in limits else None)
        if "b" in limits:
            r = modify_ref(g["o"], r, g["lb"], g["ub"], None)
        want.append(r)
    w = torch.tensor(want, dtype=torch.float64)
    require_same(got, w if n == 3 else w[0], f"modify_vector batched over {levels} with {limits}", 1e-12)
    ctx.step()
    ctx.state((tuple(levels.items()), limits))


def workload_case(ctx, w, n):
    got = et.split_workload(w, n)
    require(len(got) == n and sum(got) == w, "split_workload({}, {}) = {}", w, n, got)
    require(max(got) - min(got) <= 1 and min(got) >= 0, "split_workload({}, {}) = {}", w, n, got)
    ctx.state((w, n))


def numpy_case(ctx, dname, dtype, dform):
    data = conv_data()[dname]
    kw = {} if dtype is None else {"dtype": FORMS[dform](dtype)}
    ref = torch.as_tensor(data).clone().as_subclass(torch.Tensor).numpy() if dname != "list" else np.array(data)
    if isinstance(data, torch.Tensor):
        keep = plain(data)
    got = et.numpy_copy(data, **kw)
    require(isinstance(got, np.ndarray), "numpy_copy gave {}", type(got))
    if dtype is not None:
        require(got.dtype == np.dtype(dtype), "numpy_copy gave {}", got.dtype)
        require(np.array_equal(got, np.array(ref).astype(dtype)), "numpy_copy gave {}", got)
    else:
        require(np.array_equal(got, ref), "numpy_copy gave {}", got)
    if got.ndim:
        got[...] = 1
        got[...] = 0
    if isinstance(data, torch.Tensor):
        require(same(data, keep), "numpy_copy shares memory with its source")
    elif isinstance(data, np.ndarray):
        require(not np.shares_memory(got, data), "numpy_copy shares memory with its source")
    ctx.state((dname, dtype, dform))


def like_case(ctx, kind, shape, length, dtype, device):
    src = torch.zeros((2, 3), dtype=torch.float64) if kind == "tensor" else torch.tensor(1.0) if kind == "scalar" else ObjectArray(4)
    kw = {k: v for k, v in (("shape", shape), ("length", length), ("dtype", dtype), ("device", device)) if v is not None}
    bad = shape is not None and length is not None
    if kind == "scalar" and length is not None:
        bad = True
    if kind == "objects":
        bad = bad or (isinstance(shape, tuple) and len(shape) != 1) or device == "meta" or (dtype is not None and dtype is not object)
    elif dtype is object:
        bad = True
    if bad:
        require(raises(et.empty_tensor_like, src, **kw) is not None, "empty_tensor_like({}) accepted {}", kind, kw)
        return
    got = et.empty_tensor_like(src, **kw)
    want = ((shape,) if isinstance(shape, int) else shape) if shape is not None else ((length,) + tuple(src.shape[1:])) if length is not None else tuple(src.shape) if kind != "objects" else (4,)
    if kind == "objects":
        require(isinstance(got, ObjectArray) and len(got) == want[0], "got {}", got)
    else:
        require(tuple(got.shape) == tuple(want), "empty_tensor_like gave {}, expected {}", tuple(got.shape), want)
        require(got.dtype == (torch.float32 if kind == "scalar" else torch.float64) if dtype is None else got.dtype == et.to_torch_dtype(dtype), "dtype {}", got.dtype)
        require(str(got.device) == (device or "cpu"), "device {}", got.device)
    ctx.state((kind, str(kw)))


# ---- types --------------------------------------------------------------------
NT = namedtuple("NT", "a b")


def dtype_case(ctx, name):
    kind = "b" if name == "bool" else "u" if name.startswith("u") else "i" if name.startswith("int") else "f"
    for form in (name, getattr(torch, name), np.dtype(name), getattr(np, name if name != "bool" else "bool_")):
        require(et.to_torch_dtype(form) is getattr(torch, name), "to_torch_dtype({!r}) = {}", form, et.to_torch_dtype(form))
        require(et.to_numpy_dtype(form) == np.dtype(name), "to_numpy_dtype({!r}) = {}", form, et.to_numpy_dtype(form))
        require(et.is_dtype_integer(form) == (kind in "ui"), "is_dtype_integer({!r})", form)
        require(et.is_dtype_float(form) == (kind == "f"), "is_dtype_float({!r})", form)
        require(et.is_dtype_bool(form) == (kind == "b"), "is_dtype_bool({!r})", form)
        require(et.is_dtype_real(form) == (kind in "uif"), "is_dtype_real({!r})", form)
        require(not et.is_dtype_object(form), "is_dtype_object({!r})", form)
    ctx.state(name)


def object_dtype_case(ctx):
    for form in ("object", "O", "Any", object, Any):
        require(et.is_dtype_object(form), "is_dtype_object({!r}) is False", form)
        require(et.to_numpy_dtype(form) == np.dtype(object), "to_numpy_dtype({!r})", form)
        require(raises(et.to_torch_dtype, form) is not None, "to_torch_dtype({!r}) gave a dtype", form)
    ctx.state("object")


def predicate_case(ctx):
    I, R, B = et.is_integer, et.is_real, et.is_bool
    table = [
        (3, 1, 1, 0), (-2, 1, 1, 0), (3.0, 0, 1, 0), (True, 0, 0, 1), (False, 0, 0, 1), ("3", 0, 0, 0), (None, 0, 0, 0), ([1], 0, 0, 0),
        (np.int8(1), 1, 1, 0), (np.uint64(1), 1, 1, 0), (np.float32(1), 0, 1, 0), (np.bool_(True), 0, 0, 1), (1j, 0, 0, 0),
    ]
    for d in DTYPES:
        k = "b" if d == "bool" else "f" if d.startswith("float") else "i"
        row = (int(k == "i"), int(k in "if"), int(k == "b"))
        table.append((torch.ones((), dtype=getattr(torch, d)),) + row)
        table.append((np.ones((), dtype=d),) + row)
        table.append((torch.ones(1, dtype=getattr(torch, d)), 0, 0, 0))
        table.append((np.ones((1,), dtype=d), 0, 0, 0))
        for n in (0, 1, 2):
            for v in (torch.ones(n, dtype=getattr(torch, d)), np.ones(n, dtype=d)):
                require(et.is_integer_vector(v) == bool(row[0]), "is_integer_vector({})", v)
                require(et.is_real_vector(v) == bool(row[1]), "is_real_vector({})", v)
                require(et.is_bool_vector(v) == bool(row[2]), "is_bool_vector({})", v)
        for v in (torch.ones((), dtype=getattr(torch, d)), torch.ones((2, 2), dtype=getattr(torch, d)), np.ones((1, 2), dtype=d)):
            require(not et.is_integer_vector(v) and not et.is_real_vector(v) and not et.is_bool_vector(v), "{} counted as vector", v)
    for d in (torch.bfloat16, torch.complex64):  # numpy has no bfloat16
        f = d.is_floating_point
        require(et.is_dtype_float(d) == f and et.is_dtype_real(d) == f and not et.is_dtype_integer(d) and not et.is_dtype_bool(d), "kind of {}", d)
        table.append((torch.ones((), dtype=d), 0, int(f), 0))
        table.append((torch.ones(1, dtype=d), 0, 0, 0))
        v = torch.ones(2, dtype=d)
        require(et.is_real_vector(v) == f and not et.is_integer_vector(v) and not et.is_bool_vector(v), "kind of vector {}", v)
    for v, i, r, b in table:
        require(I(v) == bool(i) and R(v) == bool(r) and B(v) == bool(b), "{!r}: is_integer {}, is_real {}, is_bool {}", v, I(v), R(v), B(v))
    items = [(3, "i"), (2.5, "f"), (True, "b"), ("x", "s"), (np.int64(2), "i")]
    for n in (1, 2, 3):
        for c in itertools.product(items, repeat=n):
            for mk in (list, tuple):
                v = mk(x for x, _ in c)
                ks = {k for _, k in c}
                require(et.is_integer_vector(v) == (ks <= {"i"}), "is_integer_vector({})", v)
                require(et.is_real_vector(v) == (ks <= {"i", "f"}), "is_real_vector({})", v)
                require(et.is_bool_vector(v) == (ks <= {"b"}), "is_bool_vector({})", v)
                ctx.step()
    for v, want in (([1], 1), ((), 1), ("ab", 0), (b"ab", 0), (3, 0), (None, 0), (torch.zeros(2), 1), (torch.tensor(1.0), 0), (np.zeros(1), 1), (np.array(1), 0), (ObjectArray(2), 1)):
        require(et.is_sequence(v) == bool(want), "is_sequence({!r})", v)
    ctx.state("predicates")


def container_values():
    a = torch.tensor([1.0, 2.0])
    b = torch.tensor([3], dtype=torch.int64)
    cyc = [a]
    cyc.append(cyc)
    d = {"x": a}
    d["self"] = d
    return {
        "tensor": (a, {"float32"}),
        "list": ([a, a * 2], {"float32"}),
        "mixed": ([a, b], {"float32", "int64"}),
        "dict": ({"p": a, "q": 3, "r": None, "s": "t"}, {"float32"}),
        "nested": ({"p": [a, (a, {"z": a})], "q": ()}, {"float32"}),
        "tuple": ((b, b), {"int64"}),
        "namedtuple": (NT(a, 2.0), {"float32"}),
        "none": ([1, 2.0, "x", None, True], set()),
        "empty": ([], set()),
        "cyclic list": (cyc, {"float32"}),
        "cyclic dict": (d, {"float32"}),
        "shared": ([a, a], {"float32"}),
    }


def container_case(ctx, name):
    c, dts = container_values()[name]
    if len(dts) > 1:
        require(raises(et.dtype_of_container, c) is not None, "conflicting dtypes were not reported")
    else:
        want = getattr(torch, next(iter(dts))) if dts else None
        require(et.dtype_of_container(c) == want, "dtype_of_container({}) = {}", name, et.dtype_of_container(c))
    require(et.device_of_container(c) == (torch.device("cpu") if dts else None), "device_of_container({})", name)
    for dt in (None, "float64", torch.float16):
        r = et.cast_tensors_in_container(c, **({} if dt is None else {"dtype": dt}))
        if dts and dt is not None:
            require(et.dtype_of_container(r) == et.to_torch_dtype(dt), "cast container has dtype {}", et.dtype_of_container(r))
        if name.startswith("cyclic"):
            require((r[1] if isinstance(r, list) else r["self"]) is r, "the cycle was lost")
        elif name == "shared":
            require(r[0] is r[1], "shared tensors were separated")
        elif name == "dict":
            require(set(r) == set(c) and r["q"] == 3 and r["r"] is None and r["s"] == "t", "cast dict is {}", r)
        elif name == "namedtuple":
            require(type(r) is NT and r.b == 2.0, "cast named tuple is {}", r)
            require_same(r.a, c.a, "cast tensor")
        elif name == "nested":
            require(type(r["p"][1]) is tuple and type(r["q"]) is tuple, "cast container is {}", r)
            require_same(r["p"][1][1]["z"], c["p"][0], "cast tensor")
        elif name == "none":
            require(list(r) == c, "cast container is {}", r)
    c2, _ = container_values()[name]
    ctx.state(name)


def radius_case(ctx, radius, n):
    s = et.stdev_from_radius(radius, n)
    require(abs(math.sqrt(n * s * s) - radius) < 1e-9, "stdev_from_radius({}, {}) = {}", radius, n, s)
    require(abs(et.to_stdev_init(solution_length=n, radius_init=radius) - s) < 1e-12, "to_stdev_init disagrees")
    require(et.to_stdev_init(solution_length=n, stdev_init=radius) == radius, "to_stdev_init changed the stdev")
    require(raises(et.to_stdev_init, solution_length=n) is not None, "to_stdev_init without anything")
    require(raises(et.to_stdev_init, solution_length=n, stdev_init=1.0, radius_init=1.0) is not None, "to_stdev_init with both")
    ctx.state((radius, n))


def rows_case(ctx, n, m):
    x = torch.arange(n * m, dtype=torch.float64).reshape(n, m) + 1
    w = torch.arange(n, dtype=torch.float64) - 1
    require_same(et.multiply_rows_by_scalars(w, x), torch.tensor([[w[i] * x[i, j] for j in range(m)] for i in range(n)], dtype=torch.float64).reshape(n, m), "rows times scalars")
    ctx.state((n, m))


def run(ctx):
    bound = 2 if ctx.thorough else 1
    for owner in ("function", "problem", "distribution"):
        for maker in ("make_zeros", "make_ones", "make_nan", "make_empty"):
            dts = (None,) + tuple(d for d in DTYPES if not (maker == "make_nan" and not d.startswith("float")))
            for dtype in dts:
                for dform in FORMS if dtype else ("string",):
                    for shape in SIZES:
                        for sf in ("ints", "tuple"):
                            if shape == () and (sf == "ints" or maker == "make_empty"):
                                continue
                            ctx.case("constant makers", f"{owner}.{maker} {shape} {sf} {dtype} {dform}", const_case, ctx, owner, maker, shape, sf, dtype, dform)
                    if owner == "problem" or owner == "distribution":
                        ctx.case("constant makers", f"{owner}.{maker} num_solutions {dtype} {dform}", const_case, ctx, owner, maker, (), "num", dtype, dform)
            if maker != "make_empty":
                for dtype in dts[1:]:
                    for shape in SIZES:
                        ctx.case("output tensors", f"{owner}.{maker} {shape} {dtype}", out_case, ctx, owner, maker, shape, dtype)
        for n in (1, 2, 3):
            for dtype in (None,) + DTYPES:
                for dform in FORMS if dtype else ("string",):
                    for sf in ("ints", "tuple"):
                        ctx.case("constant makers", f"{owner}.make_I {n} {sf} {dtype} {dform}", const_case, ctx, owner, "make_I", (n,), sf, dtype, dform)
            for dtype in DTYPES:
                ctx.case("output tensors", f"{owner}.make_I {n} {dtype}", out_case, ctx, owner, "make_I", (n, n), dtype)
    for maker in ("make_zeros", "make_ones", "make_nan", "make_empty", "make_uniform", "make_gaussian", "make_randint", "make_tensor", "as_tensor", "make_I"):
        ctx.case("owner dtypes", maker, eval_case, ctx, maker)

    ranges = {
        "float32": [(None, None), (-1.0, 2.0), ([-1.0, 0.5], [1.0, 0.5])],
        "float64": [(None, None), (-1.0, 2.0), ([-1.0, 0.5], [1.0, 0.5])],
        "float16": [(None, None), (-1.0, 2.0)],
        "int64": [(None, None), (-2, 3), ([-1, 5], [1, 5]), (0, 2**40), (7, 7)],
        "int32": [(None, None), (-2, 3), (-(2**31), 2**31 - 1)],
        "int16": [(None, None), (-30000, 30000), (-3, 2)],
        "int8": [(None, None), (-128, 127), (-100, 100), (0, 3), ([-128, -5], [127, 5])],
        "uint8": [(None, None), (0, 255), (1, 255), (200, 255), (3, 5)],
        "bool": [(None, None), (False, True), (True, True), (False, False), ([False, True], [True, True])],
    }
    for dtype, rs in ranges.items():
        for lb, ub in rs:
            for shape in ((2,), (1, 2)) if isinstance(lb, list) else ((), (2,), (2, 2)):
                for how in ("tuple", "ints", "string", "out", "strided"):
                    if shape == () and how in ("ints", "out", "strided"):
                        continue
                    uniform_all(ctx, dtype, lb, ub, shape, how, bound)
    for dtype in ("int64", "int32", "int16", "int8", "uint8"):
        for lb, ub in ((0, 1), (0, 4), (2, 7)) + (((-3, 2), (-1, -1)) if dtype != "uint8" else ()):
            ctx.case("integer coverage", f"{dtype} {lb}..{ub}", coverage_case, ctx, dtype, lb, ub)
    for dtype in ("float32", "float64", "float16"):
        for c, s in ((None, None), (2.0, 0.5), ([1.0, -1.0], [0.5, 2.0]), (0.5, [1.0, 2.0])):
            for shape in ((2,), (4, 2), (2, 2, 2)):
                for sym in (False, True):
                    for how in ("tuple", "ints", "string", "out"):
                        if sym and shape == (2,) and isinstance(c, list):
                            continue  # the two halves of a pair would have different centers
                        if sym and shape == (2,) and isinstance(s, list):
                            continue
                        ctx.explore("Gaussian makers", f"{dtype} {c} {s} {shape} {sym} {how}", lambda ch, a=(dtype, c, s, shape, sym, how): gaussian_case(ctx, ch, *a), bound=1)
    for dtype, ns in ((None, (1, 2, 5, 3.0, [2, 3])), ("int64", (3, 2**40)), ("int32", (5, 2**31)), ("int16", (7, 2**15)), ("int8", (3, 100, 128)), ("uint8", (3, 200, 256)), ("float32", (1, 5, [2, 3])), ("float64", (4,)), ("float16", (5,))):
        for n in ns:
            for shape in ((2,),) if isinstance(n, list) else ((), (2,), (2, 2)):
                for how in ("tuple", "ints", "string", "out"):
                    if shape == () and how in ("ints", "out"):
                        continue
                    ctx.explore("integer makers", f"{dtype} {n} {shape} {how}", lambda ch, a=(dtype, n, shape, how): randint_case(ctx, ch, *a), bound=bound)
    for maker in ("make_uniform", "make_gaussian", "make_randint"):
        for owner in ("function", "unseeded", "seeded"):
            for given in (None, "generator", "problem"):
                ctx.case("generators", f"{maker} {owner} {given}", generator_case, ctx, maker, owner, given)
    for maker, kw in (("make_uniform", {"lb": 0.0}), ("make_uniform", {"ub": 1.0}), ("make_gaussian", {"center": 0.0}), ("make_gaussian", {"stdev": 1.0})):
        ctx.case("generators", f"{maker} {kw}", wrong_random_case, ctx, maker, kw)

    for fname in ("as_tensor", "make_tensor"):
        for owner in ("function", "problem", "distribution"):
            for dname in conv_data():
                for dtype in (None,) + DTYPES:
                    for dform in FORMS if dtype else ("string",):
                        ctx.case("conversions", f"{owner}.{fname} {dname} {dtype} {dform}", convert_case, ctx, fname, dname, dtype, dform, owner)
    for target in ("cpu", "meta"):
        ctx.case("conversions", f"device {target}", device_case, ctx, "as_tensor", target)
    for owner in ("function", "problem"):
        for value in (1, 2.5, [1.0, 2.0, 3.0], [1, 2], torch.tensor([1.0, 2.0, 3.0]), torch.tensor(4.0), [[1.0, 2.0, 3.0]], [1.0]):
            for length in (1, 2, 3):
                for dtype in ("float32", "float64", "int64"):
                    for allow in (False, True):
                        ctx.case("conversions", f"ensure {owner} {value} {length} {dtype} {allow}", ensure_case, ctx, owner, value, length, dtype, allow)
    for dname in conv_data():
        for dtype in (None,) + DTYPES:
            for dform in FORMS if dtype else ("string",):
                ctx.case("conversions", f"numpy {dname} {dtype} {dform}", numpy_case, ctx, dname, dtype, dform)
    for kind in ("tensor", "scalar", "objects"):
        for shape in (None, (3,), (2, 2), (), 3):
            for length in (None, 1, 5):
                for dtype in (None, torch.int64, "float32", object):
                    for device in (None, "cpu", "meta"):
                        if kind == "objects" and shape == ():
                            continue
                        ctx.case("conversions", f"like {kind} {shape} {length} {dtype} {device}", like_case, ctx, kind, shape, length, dtype, device)

    for x in itertools.product((-2.0, 0.0, 3.0), repeat=2):
        for lb in (None, -1.0, 0.0, [-1.0, 1.0]):
            for ub in (None, 1.0, 2.0, [1.0, 1.0]):
                for copy in (True, False):
                    for form in ("list", "tensor", "int"):
                        ctx.case("limits", f"clip {x} {lb} {ub} {copy} {form}", clip_case, ctx, list(x), lb, ub, copy, form)
    for o in itertools.product((-2.0, 0.0, 1.0), repeat=2):
        for t in itertools.product((-3.0, 0.5, 4.0), repeat=2):
            for lb, ub in ((None, None), (-2.5, None), (None, 1.5), (-2.0, 2.0), ([-2.0, 0.0], [0.5, 3.0])):
                for ch in (None, 0.5, [0.1, 2.0]):
                    if ch is not None and lb is not None and isinstance(lb, list):
                        if any(a + abs(a) * (ch[i] if isinstance(ch, list) else ch) < lb[i] or a - abs(a) * (ch[i] if isinstance(ch, list) else ch) > ub[i] for i, a in enumerate(o)):
                            continue  # contradictory limits
                    for form in ("plain", "tensor"):
                        for fn, ip in (("modify_tensor", False), ("modify_tensor", True), ("modify_vector", False)):
                            ctx.case("limits", f"{fn} {o} {t} {lb} {ub} {ch} {form} {ip}", modify_case, ctx, fn, list(o), list(t), lb, ub, ch, form, ip)
    for lv in itertools.product((0, 1), repeat=5):
        for lim in ("b", "c", "bc"):
            ctx.case("limits", f"modify_vector {lv} {lim}", modify_batch_case, ctx, dict(zip(("o", "t", "lb", "ub", "ch"), lv)), lim)
    for w in range(0, 25 if ctx.thorough else 13):
        for n in range(1, 8):
            ctx.case("workloads", f"{w} {n}", workload_case, ctx, w, n)
    for d in DTYPES:
        ctx.case("types", d, dtype_case, ctx, d)
    ctx.case("types", "object", object_dtype_case, ctx)
    ctx.case("types", "predicates", predicate_case, ctx)
    for name in container_values():
        ctx.case("types", name, container_case, ctx, name)
    for r in (0.5, 1.0, 3.0):
        for n in (1, 2, 9):
            ctx.case("types", f"radius {r} {n}", radius_case, ctx, r, n)
    for n in (1, 2, 3):
        for m in (1, 2):
            ctx.case("types", f"rows {n} {m}", rows_case, ctx, n, m)
