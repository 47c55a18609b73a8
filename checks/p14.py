"""P14: fitness shaping depends only on order and prefers better solutions."""

import itertools
import math

import torch
from evotorch import Problem, SolutionBatch
from evotorch.tools import ranking

from mc import ref
from mc.ctx import require
from mc.util import plain, raises, require_same, weak_orders

META = {
    "bounds": "all fitness rankings with ties of 2..5 (thorough 6) solutions, 6 numeric embeddings each, both senses, all methods, float32/float64, flat and multi-dimensional input, function, dispatcher and batch entry points; every placement of missing evaluations among 3 solutions of 1 or 2 objectives with and without evaluation data",
    "assumptions": ["ties may be broken in any way", "a single solution has no defined rank"],
}

METHODS = ("centered", "linear", "nes", "normalized", "raw")
RANKED = ("centered", "linear", "nes")

EMBED = {
    "plain": lambda k: float(k),
    "negative": lambda k: k * 2.5 - 6.0,
    "tiny": lambda k: k * 1e-30,
    "huge": lambda k: (k - 2) * 1e37,
    "close": lambda k: 1.0 + k * 2.0**-22,
    "skewed": lambda k: -1.0 if k == 0 else 7.0**k,
}


def table(method, n):
    """The utilities that the method hands out, from worst to best."""
    return ref.shape_fitness(torch.arange(n), method, "max")


_P = {}


def via_batch(f, method, hib):
    key = (hib, f.dtype)
    if key not in _P:
        _P[key] = Problem(
            ["min", "max" if hib else "min"],
            lambda x: x,
            solution_length=1,
            initial_bounds=(0, 1),
            eval_dtype=f.dtype,
            dtype=torch.float32,
        )
    b = SolutionBatch(_P[key], len(f), empty=True)
    b.set_evals(torch.stack([torch.zeros_like(f), f], dim=1))
    m = b.utility(1, ranking_method=method)
    both = b.utility(ranking_method=method) if method != "normalized" else None
    if both is not None:
        require_same(plain(both)[:, 1], plain(m), "utility without an objective index")
        require_same(plain(b.utils(ranking_method=method))[:, 1], plain(m), "utils")
    return m


def shapes(n):
    out = [(n,)]
    if n == 4:
        out.append((2, 2))
    if n == 6:
        out += [(2, 3), (1, 3, 2)]
    if n == 2:
        out.append((2, 1))
    return out


def check(ctx, order, dtype):
    n = len(order)
    ties = len(set(order)) < n
    for emb, f in EMBED.items():
        vals = [f(k) for k in order]
        x = torch.tensor(vals, dtype=dtype)
        require(len(set(x.tolist())) == len(set(order)), "embedding %s collapses", emb)
        for method in METHODS:
            if method == "normalized" and (len(set(order)) < 2 or emb in ("tiny", "huge", "close")):
                continue
            results = {}
            for hib in (True, False):
                entries = [("rank", ranking.rank(x, method, higher_is_better=hib))]
                entries.append(("function", ranking.rankers[method](x, higher_is_better=hib)))
                entries.append(("batch", via_batch(x, method, hib)))
                for sh in shapes(n)[1:]:
                    r = ranking.rank(x.reshape(sh), method, higher_is_better=hib)
                    require(tuple(r.shape) == sh, "%s of shape %s gives shape %s", method, sh, tuple(r.shape))
                    entries.append((f"shape {sh}", r.reshape(-1)))
                lst = ranking.rank(vals, method, higher_is_better=hib) if dtype == torch.float32 else None
                if lst is not None:
                    entries.append(("list", lst))
                for name, r in entries:
                    what = f"{method} ({name}) of {vals}, higher_is_better={hib}"
                    r = plain(r)
                    require(r.dtype == dtype, "%s has type %s", what, r.dtype)
                    require(r.shape == x.shape, "%s has shape %s", what, tuple(r.shape))
                    u = r.to(torch.float64).tolist()
                    require(all(math.isfinite(v) for v in u) , "%s: %s", what, u)
                    for i, j in itertools.permutations(range(n), 2):
                        better = order[i] > order[j] if hib else order[i] < order[j]
                        if better:
                            ok = u[i] >= u[j] if method == "nes" else u[i] > u[j]
                            require(ok, "%s prefers the worse solution: %s", what, u)
                    if method in RANKED:
                        require_same(torch.tensor(sorted(u)), table(method, n), what + " hands out", tol=1e-5)
                    else:
                        sense = "max" if hib else "min"
                        tol = 1e-4 if method == "normalized" else 0.0
                        exp = ref.shape_fitness(x, method, sense)
                        require_same(r.to(torch.float64), exp, what, tol=tol)
                    if name == "function":
                        results[hib] = r
                    ctx.step()
                require_same(x, torch.tensor(vals, dtype=dtype), "the fitnesses after shaping")
            if not ties or method not in RANKED:
                neg = plain(ranking.rank(-x, method, higher_is_better=False))
                require_same(neg, results[True], f"{method}: minimizing -f and maximizing f", tol=1e-6)
                if method in RANKED:
                    exp = ref.shape_fitness(torch.tensor(order), method, "max")
                    require_same(results[True].to(torch.float64), exp, f"{method} of {vals}", tol=1e-5)
                    exp = ref.shape_fitness(torch.tensor(order), method, "min")
                    require_same(results[False].to(torch.float64), exp, f"{method} of {vals}, minimizing", tol=1e-5)
            ctx.state(method, results[True])


def unevaluated(method):
    """Missing evaluations are refused rather than ranked."""
    p = Problem("min", lambda x: x, solution_length=1, initial_bounds=(0, 1))
    for miss in itertools.product((False, True), repeat=3):
        b = SolutionBatch(p, 3, empty=True)
        b.set_evals(torch.tensor([math.nan if m else float(i) for i, m in enumerate(miss)]))
        err = raises(lambda: b.utility(ranking_method=method))
        if any(miss):
            require(isinstance(err, ValueError), "utility with missing evaluations %s: %r", miss, err)
        else:
            require(err is None, "utility failed: %r", err)


def missing(senses, ndata, types, marks, method, index, check):
    """Which missing evaluations stop the computation of utilities, and what is answered when they may not."""
    p = Problem(list(senses), solution_length=2, initial_bounds=(-1, 1), dtype=types[0], eval_dtype=types[1], eval_data_length=ndata)
    n, m = len(marks), len(senses)
    b = SolutionBatch(p, n)
    ev = torch.tensor([[float(3 * i + j * (-1) ** i) for j in range(m + ndata)] for i in range(n)], dtype=p.eval_dtype)
    for i, k in enumerate(marks):
        for j in range(m):
            if k & (1 << j):
                ev[i, j] = float("nan")
        if k & 4 and ndata:
            ev[i, m:] = float("nan")
    b.set_evals(ev)
    cols = list(range(m)) if index is None else [index]
    gone = any(math.isnan(ev[i, j]) for i in range(n) for j in cols)
    kw = {} if check is None else {"check_nans": check}
    for own in (None, False, True):
        if own is not None:
            kw["using_values_dtype"] = own
        calls = [lambda: b.utility(index, ranking_method=method, **kw)]
        if index is None:
            calls.append(lambda: b.utils(ranking_method=method, **kw))
        for t, call in enumerate(calls):
            if gone and check is not False:
                require(isinstance(raises(call), ValueError), "utilities of %s were computed", ev.tolist())
                continue
            if gone and method is not None:
                continue
            u = call()
            require(u.dtype == (p.dtype if own else p.eval_dtype), "utilities of type %s", u.dtype)
            require(tuple(u.shape) == ((n,) if index is not None or (m == 1 and t == 0) else (n, m)), "utilities of shape %s", tuple(u.shape))
            u = plain(u).reshape(n, len(cols)).to(torch.float64)
            for c, j in enumerate(cols):
                col = ev[:, j]
                want = col * (1 if senses[j] == "max" else -1) if method is None else ref.shape_fitness(col, method, senses[j])
                for i in range(n):
                    x, y = float(u[i, c]), float(want[i])
                    require(math.isnan(x) and math.isnan(y) or abs(x - y) < 1e-5, "objective %s: utilities %s, expected %s", j, u[:, c].tolist(), want.tolist())


def run(ctx):
    for senses, ndata in itertools.product((("min",), ("max",), ("min", "max")), (0, 1)):
        for n in (1, 2, 3):
            for marks in itertools.product(range(8) if n < 3 else (0, 1, 2, 4), repeat=n):
                if ndata == 0 and any(k & 4 for k in marks) or len(senses) == 1 and any(k & 2 for k in marks):
                    continue
                for method, index, nans in itertools.product((None, "centered", "nes", "raw"), (None,) + tuple(range(len(senses))), (None, True, False)):
                    if n == 1 and method not in (None, "raw"):
                        continue
                    types = ("float32", "float64") if sum(marks) % 2 else ("float64", "float32")
                    ctx.case("missing", {"senses": senses, "data": ndata, "marks": marks, "method": method, "index": index, "check": nans}, missing, senses, ndata, types, marks, method, index, nans)
    for n in range(2, (7 if ctx.thorough else 6)):
        for order in weak_orders(n):
            for dtype in (torch.float32, torch.float64):
                if n == 6 and dtype == torch.float64:
                    continue
                ctx.case("orders", {"order": order, "dtype": str(dtype)}, check, ctx, order, dtype)
    for m in (None,) + METHODS:
        ctx.case("unevaluated", {"method": m}, unevaluated, m)
    # long populations: the values handed out, whatever the arrangement
    for n in (7, 10, 33):
        for shift in range(0, n, max(1, n // 4)):
            order = tuple((i * 5 + shift) % n for i in range(n)) if n % 5 else tuple((i + shift) % n for i in range(n))
            ctx.case("long", {"n": n, "shift": shift}, long, order)


def long(order):
    for method in RANKED:
        for sense in ("max", "min"):
            r = plain(ranking.rank(torch.tensor(order, dtype=torch.float64), method, higher_is_better=sense == "max"))
            require_same(r, ref.shape_fitness(torch.tensor(order), method, sense), f"{method} of {order}", tol=1e-6)
