"""P26: running observation statistics equal those of all observations received."""

import copy
import itertools
import pickle

import numpy as np
import torch
from evotorch.neuroevolution.net.runningnorm import RunningNorm
from evotorch.neuroevolution.net.runningstat import RunningStat

from mc.ctx import require
from mc.util import raises, require_same, sequences

META = {
    "bounds": "every sequence of 4 (thorough 5) operations out of 14 (single, batched, masked, empty updates as tensors, arrays and lists; merging other statistics; copies; reset) on observations of shape (2,), (1,), (2,2) and (), float32 and float64, with and without clipping",
    "assumptions": ["floating-point tolerance 1e-4 relative for float32", "masked-out observations may hold any value, NaN included"],
}


def row(k, shape):
    """The k-th distinct observation."""
    n = int(np.prod(shape)) if shape else 1
    v = [((k * 7 + j * 3) % 11) * 0.5 - 2.0 + 0.125 * j * k for j in range(n)]
    return np.array(v, dtype="float64").reshape(shape)


class Model:
    def __init__(self, items=()):
        self.items = list(items)


def check(rn, items, shape, tol, floor, clip, what):
    require(rn.count == len(items), "%s: %d observations counted instead of %d", what, rn.count, len(items))
    if not items:
        require(raises(rn.normalize, torch.zeros(shape)) is not None, "%s: normalization without any data", what)
        return
    x = np.stack(items)
    mean = x.mean(axis=0)
    stdev = np.sqrt(np.maximum(x.var(axis=0), floor))
    dtype = torch.float64
    require_same(torch.as_tensor(rn.mean).to(dtype), torch.tensor(mean), what + ": mean", tol=tol)
    require_same(torch.as_tensor(rn.stdev).to(dtype), torch.tensor(stdev), what + ": stdev", tol=tol)
    st = rn.stats
    require_same(st.mean.to(dtype), torch.tensor(mean), what + ": mean in stats", tol=tol)
    require_same(st.stdev.to(dtype), torch.tensor(stdev), what + ": stdev in stats", tol=tol)
    require_same(rn.sum.to(dtype), torch.tensor(x.sum(axis=0)), what + ": sum", tol=tol)
    require_same(rn.sum_of_squares.to(dtype), torch.tensor((x**2).sum(axis=0)), what + ": sum of squares", tol=tol)
    for probe in (row(5, shape), np.stack([row(3, shape), row(8, shape), row(20, shape) * 5])):
        want = (probe - mean) / stdev
        if clip is not None:
            want = np.clip(want, *clip)
        given = torch.tensor(probe)
        got = rn.normalize(given)
        require(isinstance(got, torch.Tensor), "%s: normalize gives %s for a tensor", what, type(got))
        require_same(got.to(dtype), torch.tensor(want), what + ": normalized", tol=tol * 10)
        require_same(given, torch.tensor(probe), what + ": the argument of normalize")
        got = rn.normalize(probe.copy())
        require(isinstance(got, np.ndarray), "%s: normalize gives %s for an array", what, type(got))
        require_same(torch.tensor(got).to(dtype), torch.tensor(want), what + ": normalized array", tol=tol * 10)
        require(isinstance(rn.normalize(probe.tolist(), result_as_numpy=False), torch.Tensor), "%s: result_as_numpy=False", what)
        layer = rn.to_layer()
        got = layer(torch.tensor(probe).to(rn.dtype))
        require_same(got.to(dtype), torch.tensor(want), what + ": output of the layer", tol=tol * 10)
    require(rn.count == len(items), "%s: reading changes the count", what)


OPS = [
    "single tensor",
    "single array",
    "single list",
    "batch tensor",
    "batch array",
    "batch masked tt",
    "batch masked tf",
    "batch masked ff",
    "batch masked nan",
    "empty batch",
    "merge two",
    "merge empty",
    "normalizing",
    "copy",
    "reset",
]


def history(ctx, ops, shape, dtype, clip, floor):
    tdt = {"float32": torch.float32, "float64": torch.float64}[dtype]
    tol = 2e-4 if dtype == "float32" else 1e-9
    kw = {} if floor is None else {"min_variance": floor}
    fl = 1e-2 if floor is None else floor

    def fresh():
        return RunningNorm(shape=shape, dtype=dtype, clip=clip, **kw)

    rn = fresh()
    items = []
    handed = []  # (object handed in, its contents)
    others = []  # (other statistics, its items)
    k = 0

    def nxt(n):
        nonlocal k
        out = [row(k + i, shape) for i in range(n)]
        k += n
        return out

    def hand(x):
        if isinstance(x, torch.Tensor):
            handed.append((x, x.clone()))
        elif isinstance(x, np.ndarray):
            handed.append((x, x.copy()))
        return x

    for step, op in enumerate(ops):
        what = f"after {list(ops[: step + 1])}"
        if op == "single tensor":
            (a,) = nxt(1)
            rn.update(hand(torch.tensor(a, dtype=tdt)))
            items.append(a)
        elif op == "single array":
            (a,) = nxt(1)
            rn.update(hand(a.astype(dtype)))
            items.append(a)
        elif op == "single list":
            (a,) = nxt(1)
            rn.update(a.tolist())
            items.append(a)
        elif op == "batch tensor":
            b = nxt(2)
            rn.update(hand(torch.tensor(np.stack(b), dtype=tdt)))
            items += b
        elif op == "batch array":
            b = nxt(3)
            rn.update(hand(np.stack(b).astype(dtype)))
            items += b
        elif op.startswith("batch masked"):
            b = nxt(2)
            x = torch.tensor(np.stack(b), dtype=tdt)
            pat = op.split()[-1]
            mask = {"tt": [True, True], "tf": [True, False], "ff": [False, False], "nan": [False, True]}[pat]
            if pat == "nan":
                x[0] = float("nan")
            m = torch.tensor(mask)
            before = x.clone()
            rn.update(x, m if pat != "tf" else mask)
            require(torch.equal(torch.nan_to_num(x), torch.nan_to_num(before)), "%s: the batch was modified", what)
            require(m.tolist() == mask, "%s: the mask was modified", what)
            items += [a for a, on in zip(b, mask) if on]
        elif op == "empty batch":
            rn.update(torch.zeros((0,) + tuple(shape), dtype=tdt))
        elif op == "merge two":
            b = nxt(2)
            o = RunningNorm(shape=shape, dtype="float64")
            for a in b:
                o.update(a)
            rn.update(o)
            others.append((o, list(b)))
            items += b
        elif op == "merge empty":
            rn.update(fresh())
        elif op == "normalizing":
            b = nxt(2)
            x = hand(torch.tensor(np.stack(b), dtype=tdt))
            got = rn.update_and_normalize(x)
            items += b
            z = np.stack(items)
            want = (np.stack(b) - z.mean(axis=0)) / np.sqrt(np.maximum(z.var(axis=0), fl))
            if clip is not None:
                want = np.clip(want, *clip)
            require_same(got.to(torch.float64), torch.tensor(want), what + ": update_and_normalize", tol=tol * 10)
        elif op == "copy":
            old, rn = rn, pickle.loads(pickle.dumps(rn)) if step % 2 else copy.copy(rn)
            if items:
                old.update(row(50, shape))
                old.update(row(51, shape))
        elif op == "reset":
            rn.reset()
            items = []
        for obj, want in handed:
            same = torch.equal(obj, want) if isinstance(obj, torch.Tensor) else np.array_equal(obj, want)
            require(same, "%s: an observation handed in earlier is now %s instead of %s", what, obj, want)
        if step == len(ops) - 2:
            # the caller reuses their buffers
            for obj, _ in handed:
                obj[...] = 1234.0
            handed = []
        ctx.step()
    check(rn, items, shape, tol, fl, clip, f"after {list(ops)}")
    for o, its in others:
        check(o, its, shape, 1e-9, 1e-2, None, "merged-from statistics")
    ctx.state(len(items), [round(float(v), 4) for v in np.concatenate([np.ravel(i) for i in items])] if items else [])


SOPS = ["single array", "single list", "merge two", "merge empty", "copy", "reset"]


def simple(ctx, ops):
    """The same for the simplified statistics."""
    shape = (2,)
    rs = RunningStat()
    items, handed, k = [], [], 0
    for step, op in enumerate(ops):
        what = f"after {list(ops[: step + 1])}"
        if op == "single array":
            a = row(k, shape).astype("float32")
            handed.append((a, a.copy()))
            rs.update(a)
            items.append(row(k, shape))
            k += 1
        elif op == "single list":
            rs.update(row(k, shape).tolist())
            items.append(row(k, shape))
            k += 1
        elif op == "merge two":
            o = RunningStat()
            for _ in range(2):
                o.update(row(k, shape))
                items.append(row(k, shape))
                k += 1
            rs.update(o)
            o.update(np.array([99.0, 98.0], dtype="float32"))
            require(o.count == 3, "%s: merged-from statistics count %d", what, o.count)
        elif op == "merge empty":
            rs.update(RunningStat())
        elif op == "copy":
            old, rs = rs, pickle.loads(pickle.dumps(rs)) if step % 2 else copy.copy(rs)
            old.update(row(50, shape))
        elif op == "reset":
            rs.reset()
            items = []
        for obj, want in handed:
            require(np.array_equal(obj, want), "%s: an observation handed in earlier is now %s instead of %s", what, obj, want)
        ctx.step()
    require(rs.count == len(items), "%s: %d observations counted instead of %d", list(ops), rs.count, len(items))
    probe = row(9, shape).astype("float32")
    if not items:
        require_same(torch.as_tensor(np.asarray(rs.normalize(probe))), torch.tensor(probe), "normalization without data")
        return
    x = np.stack(items)
    mean, stdev = x.mean(axis=0), np.sqrt(np.maximum(x.var(axis=0), 1e-2))
    for name, got, want in (
        ("mean", rs.mean, mean),
        ("stdev", rs.stdev, stdev),
        ("sum", rs.sum, x.sum(axis=0)),
        ("sum of squares", rs.sum_of_squares, (x**2).sum(axis=0)),
        ("normalized", rs.normalize(probe), (probe - mean) / stdev),
        ("layer", rs.to_layer()(torch.tensor(probe)).numpy(), (probe - mean) / stdev),
    ):
        require(isinstance(got, np.ndarray), "%s is a %s", name, type(got))
        require_same(torch.tensor(np.array(got)).to(torch.float64), torch.tensor(np.array(want, dtype="float64")), f"after {list(ops)}: {name}", tol=1e-3)
    require(np.array_equal(probe, row(9, shape).astype("float32")), "the argument of normalize was modified")


def misuse():
    rn = RunningNorm(shape=2, dtype="float32")
    bad = {
        "length": lambda: rn.update(torch.zeros(3)),
        "dims": lambda: rn.update(torch.zeros(1, 1, 2)),
        "batch length": lambda: rn.update(torch.zeros(4, 3)),
        "mask of a single one": lambda: rn.update(torch.zeros(2), mask=[True]),
        "mask length": lambda: rn.update(torch.zeros(3, 2), mask=[True, False]),
        "mask dims": lambda: rn.update(torch.zeros(2, 2), mask=[[True, False], [True, False]]),
    }
    for k, f in bad.items():
        e = raises(f)
        require(isinstance(e, ValueError), "%s: %s", k, repr(e))
        require(rn.count == 0, "%s: refused data are counted", k)
    other = RunningNorm(shape=3, dtype="float32")
    other.update(torch.zeros(3))
    rn.update(torch.ones(2))
    require(isinstance(raises(rn.update, other), ValueError), "statistics of another shape accepted")
    require(rn.count == 1, "refused data are counted")
    e = RunningNorm(shape=2, dtype="float32")
    require(e.to("cpu") is e, "to() the same device makes a copy")
    m = e.to("meta")
    require(m.count == 0 and str(m.device) == "meta", "moving statistics without data")
    m = rn.to("meta")
    require(m.count == 1 and str(m.device) == "meta" and rn.count == 1, "moving statistics")


def run(ctx):
    depth = 5 if ctx.thorough else 4
    for ops in sequences(OPS, 3):
        if len(set(ops)) == 1 and ops[0] == "reset":
            continue
        for shape in ((2,), (1,)):
            for dtype in ("float32", "float64"):
                ctx.case("short histories", {"ops": ops, "shape": shape, "dtype": dtype}, history, ctx, ops, shape, dtype, (-1.0, 1.5) if dtype == "float64" else None, None)
    core = [o for o in OPS if o not in ("batch array", "batch masked tt", "merge empty", "single list")]
    for ops in sequences(core, depth):
        ctx.case("histories", {"ops": ops}, history, ctx, ops, (2,), "float64", None, 0.5)
    for shape in ((2, 2), (), (1, 3)):
        for ops in sequences(OPS, 2):
            ctx.case("other shapes", {"ops": ops, "shape": shape}, history, ctx, ops, shape, "float32", (-2.0, 2.0), 0.0625)
    for d in range(1, (6 if ctx.thorough else 5)):
        for ops in sequences(SOPS, d):
            ctx.case("simple statistics", {"ops": ops}, simple, ctx, ops)
    ctx.case("misuse", {}, misuse)
