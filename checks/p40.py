"""P40: solutions, batches and containers describe themselves faithfully."""

import itertools
import re
from copy import deepcopy

import numpy as np
import torch
from evotorch import Problem, SolutionBatch
from evotorch.algorithms import SNES, GeneticAlgorithm
from evotorch.core import Solution
from evotorch.neuroevolution.net import RunningNorm, RunningStat, layers
from evotorch.operators import GaussianMutation
from evotorch.optimizers import ClipUp
from evotorch.tools import ErroneousResult, Hook, ObjectArray, as_immutable, as_read_only_tensor

from mc.ctx import require
from mc.util import plain, raises, require_same

META = {
    "bounds": "batches of 1..3 solutions of types float32, float64, int64 and object (numbers, texts, lists, tensors, dictionaries), 1..2 objectives of all senses, 0..2 evaluation data, every subset of the solutions evaluated; all indices from far below to far above the valid range, for solutions, objectives and pieces; all containers nested up to depth 2 (thorough 3)",
    "assumptions": ["how the printed text looks is left open, apart from showing the contained values"],
}


def values_of(kind, n, length):
    if kind == "object":
        pool = [[11, 12], "text13", {"k": 14}, 15, torch.tensor([16.0, 17.0]), None, np.array([18, 19])]
        return [deepcopy(pool[(i + length) % len(pool)]) for i in range(n)]
    return [[10 * (i + 1) + j for j in range(length)] for i in range(n)]


class P(Problem):
    def __init__(self, kind, senses, ndata, length):
        if kind == "object":
            super().__init__(senses, dtype=object, eval_data_length=ndata)
        else:
            super().__init__(senses, solution_length=length, initial_bounds=(-1, 1), dtype=kind, eval_data_length=ndata)
        self.kind, self.length = kind, length

    def _fill(self, values):
        for i, v in enumerate(values_of("object", len(values), self.length)):
            values[i] = v


def make(kind, n, senses, ndata, length, evaluated):
    p = P(kind, list(senses) if len(senses) > 1 else senses[0], ndata, length)
    b = SolutionBatch(p, n, empty=kind != "object")
    if kind != "object":
        b.set_values(torch.tensor(values_of(kind, n, length), dtype=getattr(torch, kind)))
    ev = torch.full((n, len(senses) + ndata), float("nan"))
    for i in range(n):
        if evaluated[i]:
            ev[i] = torch.tensor([100.0 * (i + 1) + j for j in range(ev.shape[1])])
    b.set_evals(ev)
    return p, b, ev


def same_thing(a, b):
    if isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
        return bool(torch.equal(torch.as_tensor(a).as_subclass(torch.Tensor), torch.as_tensor(b)))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return bool(np.array_equal(np.asarray(a), np.asarray(b)))
    if isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same_thing(x, y) for x, y in zip(a, b))
    if isinstance(b, dict):
        return dict(a) == b
    return a == b


def batch_case(ctx, kind, n, senses, ndata, length, evaluated):
    p, b, ev = make(kind, n, senses, ndata, length, evaluated)
    vals = values_of(kind, n, length)
    width = len(senses) + ndata
    obj = kind == "object"
    require(len(b) == n, "the batch has length {}", len(b))
    require(tuple(b.values_shape) == ((n,) if obj else (n, length)), "values_shape is {}", b.values_shape)
    require(tuple(b.eval_shape) == (n, width), "eval_shape is {}", b.eval_shape)
    require(b.solution_length == (None if obj else length), "solution_length is {}", b.solution_length)
    dt = object if obj else getattr(torch, kind)
    require(b.dtype == dt and b.values_dtype == dt, "dtype is {}, {}", b.dtype, b.values_dtype)
    require(b.eval_dtype == p.eval_dtype == (torch.float64 if kind == "float64" else torch.float32), "eval_dtype is {}", b.eval_dtype)
    require(torch.device(b.device) == torch.device("cpu"), "device is {}", b.device)
    want_sense = senses[0] if len(senses) == 1 else list(senses)
    require(list(b.senses) == list(senses) and b.objective_sense == want_sense, "senses are {}, {}", b.senses, b.objective_sense)
    require(list(p.senses) == list(senses) and p.objective_sense == want_sense, "senses of the problem are {}", p.senses)
    require_same(plain(b.evals).float(), ev, "evals")
    for i, sln in enumerate(b):
        require(isinstance(sln, Solution), "iteration gave {}", type(sln))
        for s in (sln, b[i], b[i - n]):
            require(same_thing(s.values, vals[i]), "values of solution {}: {}", i, s.values)
            require_same(plain(s.evals).float(), ev[i], "evals of the solution")
            e = plain(s.evaluation).float()
            require_same(e, ev[i] if width > 1 else ev[i, 0], "evaluation of the solution")
            require(s.is_evaluated == bool(evaluated[i]), "is_evaluated is {}", s.is_evaluated)
            require(s.dtype == dt and s.eval_dtype == b.eval_dtype and torch.device(s.device) == torch.device("cpu"), "types of the solution")
            require(list(s.senses) == list(senses) and s.objective_sense() == want_sense, "senses of the solution: {}", s.senses)
            require(tuple(s.eval_shape) == (width,), "eval_shape of the solution is {}", s.eval_shape)
            if not obj:
                require(tuple(s.shape) == tuple(s.size()) == (length,), "shape of the solution is {}", s.shape)
                require(s.ndim == s.dim() == 1 and len(s) == length, "{} dimensions, length {}", s.ndim, len(s))
                require([x.item() for x in s] == vals[i], "iteration over the solution gave {}", list(s))
                require([x.item() for x in reversed(s)] == vals[i][::-1], "reversed iteration gave {}", list(reversed(s)))
                for j in range(-length, length):
                    require(s[j].item() == vals[i][j], "element {} is {}", j, s[j])
                require(s[1:].tolist() == vals[i][1:], "elements from 1 on are {}", s[1:])
                require(raises(lambda: s[length], exc=IndexError) is not None, "element {} exists", length)
            else:
                v = vals[i]
                require(s.ndim == s.dim() == getattr(v, "ndim", 0), "{} dimensions", s.ndim)
                if isinstance(v, (list, str, dict, torch.Tensor, np.ndarray)):
                    require(len(s) == len(v), "length {}", len(s))
                    require(all(same_thing(x, y) for x, y in zip(s, v)), "iteration gave {}", list(s))
                    if not isinstance(v, dict):
                        require(same_thing(s[0], v[0]), "element 0 is {}", s[0])
            text = repr(s)
            require(text == str(s), "repr and str differ")
            for number in re.findall(r"\d+", str(v if obj else vals[i])):
                require(number in text, "{} is missing in {}", number, text)
            if evaluated[i] and ndata == 0 and len(senses) == 1:
                require(str(100 * (i + 1)) in text, "the evaluation is missing in {}", text)
            require(type(s.to_batch()) is SolutionBatch and len(s.to_batch()) == 1, "to_batch gave {}", s.to_batch())
        ctx.step(3)
    require_same(plain(b.evals).float(), ev, "evals after looking")
    for i in range(n):
        require(same_thing(b[i].values, vals[i]), "values after looking")
    pieces = b.split(n)
    text = str(pieces)
    require(text == repr(pieces), "repr and str of the pieces differ")
    ctx.state(kind, n, senses, ndata, length, evaluated)


def index_case(ctx, kind, n, senses, ndata, what):
    """Indices outside are refused with IndexError, those inside are not."""
    p, b, ev = make(kind, n, senses, ndata, 2, [1] * n)
    m = len(senses)
    if what == "solution":
        for i in range(-2 * n - 1, 2 * n + 2):
            inside = -n <= i < n
            for name, f in (("batch[i]", lambda: b[i]), ("Solution(batch, i)", lambda: Solution(b, i)), ("numpy index", lambda: b[np.int64(i)]), ("tensor index", lambda: Solution(b, torch.tensor(i)))):
                e = raises(f)
                require((e is None) if inside else isinstance(e, IndexError), "{} with i={} of {} solutions: {!r}", name, i, n, e)
                if inside:
                    require_same(plain(f().evals).float(), ev[i % n], "evals of the indexed solution")
                ctx.step()
    elif what == "objective":
        for j in range(-2 * m - 2, m + ndata + 3):
            inside = -m <= j < m
            fs = {
                "access_evals": lambda: b.access_evals(j),
                "argsort": lambda: b.argsort(j),
                "argbest": lambda: b.argbest(j),
                "argworst": lambda: b.argworst(j),
                "utility": lambda: b.utility(j),
                "take_best": lambda: b.take_best(1, obj_index=j),
                "normalize_obj_index": lambda: p.normalize_obj_index(j),
            }
            for name, f in fs.items():
                e = raises(f)
                require((e is None) if inside else isinstance(e, IndexError), "{} with objective {} of {}: {!r}", name, j, m, e)
                ctx.step()
            if inside:
                require_same(plain(b.access_evals(j)).float(), ev[:, j % m], "evals of one objective")
                require(p.normalize_obj_index(j) == j % m, "objective {} was normalized to {}", j, p.normalize_obj_index(j))
    else:
        for k in range(1, n + 2):
            pieces = b.split(k)
            require(len(pieces) == k and pieces.batch is b, "{} pieces", len(pieces))
            for i in range(-k, k):
                lo, hi = pieces.indices_of(i % k)
                require(len(pieces[i]) == hi - lo, "piece {} has {} solutions, its range is {}..{}", i, len(pieces[i]), lo, hi)
                require_same(plain(pieces[i].evals).float(), ev[lo:hi], "evals of a piece")
            for i in (k, k + 1, -k - 1):
                require(isinstance(raises(lambda: pieces[i]), IndexError), "piece {} of {} exists", i, k)
            got = [(len(piece), tuple(r)) for piece, r in pieces.iter_with_indices()]
            require(got == [(len(pieces[i]), tuple(pieces.indices_of(i))) for i in range(k)], "iter_with_indices gave {}", got)
            ctx.step()
    ctx.state(kind, n, senses, ndata, what)


def wrong_parent_case(ctx):
    for x in (None, torch.zeros(2, 2), [1, 2], "batch"):
        require(isinstance(raises(Solution, x, 0), TypeError), "a solution of {!r} was made", x)
        ctx.step()
    ctx.state("parents")


def containers(depth, tag=[0]):
    """(description, object factory, numbers which have to be shown)."""
    atoms = [("int", lambda: 41, ["41"]), ("text", lambda: "word42", ["word42"]), ("tensor", lambda: torch.tensor([43, 44]), ["43", "44"]), ("none", lambda: None, ["None"])]
    if depth == 0:
        return atoms

    out = list(atoms)
    inner = containers(depth - 1)

    def objarr(items):
        a = ObjectArray(len(items))
        for i, x in enumerate(items):
            a[i] = x
        return a

    for name, f, shown in inner:
        out.append((f"list({name})", lambda f=f: as_immutable([f(), 51]), shown + ["51"]))
        out.append((f"dict({name})", lambda f=f: as_immutable({"key52": f()}), shown + ["key52"]))
        out.append((f"objects({name})", lambda f=f: objarr([f(), 53]), shown + ["53"]))
        out.append((f"readonly objects({name})", lambda f=f: objarr([54, f()]).get_read_only_view(), shown + ["54"]))
    out.append(("set", lambda: as_immutable({55, 56}), ["55", "56"]))
    out.append(("readonly", lambda: as_read_only_tensor(torch.tensor([57, 58])), ["57", "58"]))
    return out


def container_case(ctx, name, f, shown):
    x = f()
    text = repr(x)
    if not isinstance(x, str):
        require(text == str(x) or isinstance(x, torch.Tensor), "repr and str differ: {} and {}", text, str(x))
    for s in shown:
        require(s in text, "{} is missing in the printed {}: {}", s, name, text)
    require(repr(x) == text, "printing changes the container")
    if hasattr(x, "to_string"):
        for d in range(0, 5):
            t = x.to_string(max_depth=d)
            require(isinstance(t, str) and t, "printing with depth {} gave {!r}", d, t)
            if d == 0:
                require(not any(s in t for s in shown if s.isdigit()), "depth 0 shows contents: {}", t)
        require(x.to_string(max_depth=10) == text, "the default depth shows less than depth 10")
    ctx.step()
    ctx.state(name)


def deep_case(ctx, depth, max_depth):
    """What lies deeper than the requested depth is left out, what does not is shown."""
    x = as_immutable([100])
    for i in range(1, depth):
        x = as_immutable([100 + i, x])
    t = x.to_string(max_depth=max_depth)
    for i in range(depth):
        level = depth - i  # 1: outermost
        require((str(100 + i) in t) == (level <= max_depth), "depth {} of {}: {}", max_depth, depth, t)
    ctx.step()
    ctx.state(depth, max_depth)


def others():
    p = Problem("min", lambda x: x.sum(), solution_length=2, initial_bounds=(-1, 1), seed=1)
    return {
        "problem": lambda: p,
        "batch": lambda: p.generate_batch(2),
        "algorithm": lambda: SNES(p, stdev_init=1.0),
        "algorithm after steps": lambda: _stepped(p),
        "genetic algorithm": lambda: GeneticAlgorithm(p, operators=[GaussianMutation(p, stdev=0.5)], popsize=4),
        "operator": lambda: GaussianMutation(p, stdev=0.5),
        "hook": lambda: Hook([print, len], args=[61], kwargs={"key62": 63}),
        "empty hook": lambda: Hook(),
        "error": lambda: ErroneousResult(ValueError("word64")),
        "optimizer": lambda: ClipUp(solution_length=3, dtype="float32", stepsize=0.125),
        "running norm": lambda: RunningNorm(shape=3, dtype="float32"),
        "running norm with data": lambda: _filled(RunningNorm(shape=2, dtype="float32")),
        "running stat": lambda: RunningStat(),
        "running stat with data": lambda: _filled(RunningStat()),
        "remote method": lambda: _remote(p),
        "clip layer": lambda: layers.Clip(-1.5, 2.5),
        "bin layer": lambda: layers.Bin(-1.5, 2.5),
        "slice layer": lambda: layers.Slice(1, 3),
        "round layer": lambda: layers.Round(2),
        "apply layer": lambda: layers.Apply("+", 2.5),
        "distribution": lambda: SNES(p, stdev_init=1.0)._distribution,
        "status": lambda: _stepped(p).status,
    }


SHOWN = {"hook": ["61", "key62", "63"], "error": ["word64"]}


def _stepped(p):
    s = SNES(p, stdev_init=1.0)
    s.run(2)
    return s


def _filled(x):
    x.update(torch.tensor([1.0, 2.0]) if isinstance(x, RunningNorm) else np.array([1.0, 2.0]))
    return x


def _remote(p):
    from evotorch.core import AllRemoteProblems

    return AllRemoteProblems([]).some_method


def other_case(ctx, name):
    torch.manual_seed(1)
    x = others()[name]()
    state = torch.get_rng_state()
    a, b, c = repr(x), str(x), repr(x)
    require(isinstance(a, str) and a and isinstance(b, str) and b, "printing {} gave {!r}", name, a)
    require(a == c, "printing {} twice gave {} and {}", name, a, c)
    require(torch.equal(state, torch.get_rng_state()), "printing {} consumed random numbers", name)
    for s in SHOWN.get(name, []):
        require(s in a, "{} is missing in {}", s, a)
    if name == "status":
        require(all(str(k) in a for k in x.keys()), "the printed status lacks some of {}: {}", list(x.keys()), a)
    ctx.step()
    ctx.state(name)


def run(ctx):
    for kind in ("float32", "float64", "int64", "object"):
        for n in (1, 2, 3):
            for senses in (("min",), ("max",), ("min", "max"), ("max", "max")):
                for ndata in (0, 1, 2):
                    for length in (1, 2, 3) if kind != "object" else range(7):
                        for evaluated in itertools.product((0, 1), repeat=n):
                            if not ctx.thorough and n == 3 and sum(evaluated) not in (1, 3):
                                continue
                            ctx.case("accessors", f"{kind} {n} {senses} {ndata} {length} {evaluated}", batch_case, ctx, kind, n, senses, ndata, length, evaluated)
                    for what in ("solution", "objective", "pieces"):
                        ctx.case("indices", f"{kind} {n} {senses} {ndata} {what}", index_case, ctx, kind, n, senses, ndata, what)
    ctx.case("indices", "wrong parents", wrong_parent_case, ctx)
    for name, f, shown in containers(3 if ctx.thorough else 2):
        ctx.case("printing", name, container_case, ctx, name, f, shown)
    for depth in range(1, 5):
        for d in range(0, 6):
            ctx.case("printing", f"deep {depth} {d}", deep_case, ctx, depth, d)
    for name in others():
        ctx.case("printing", name, other_case, ctx, name)
