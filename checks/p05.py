"""P05: selecting, reordering, splitting and joining batches keeps solutions intact."""

import itertools

import numpy as np
import torch
from evotorch import Problem, SolutionBatch

from mc.ctx import require
from mc.util import plain, raises, require_same, weak_orders

META = {
    "bounds": "all fitness rankings with ties of up to 4 (quick) / 5 (thorough) solutions, both senses, one and two objectives, numeric and object solutions; all slices, all index lists up to length 3, all splits, all partitions re-joined",
    "assumptions": ["ties may be broken in any way"],
}


def never(x):
    raise RuntimeError("not to be called")


class ObjProb(Problem):
    def __init__(self, senses):
        super().__init__(senses, never, dtype=object, eval_data_length=1)

    def _fill(self, values):
        for i in range(len(values)):
            values[i] = [i]


_P = {}


def problem(kind, senses):
    key = (kind, senses)
    if key not in _P:
        if kind == "object":
            _P[key] = ObjProb(list(senses))
        elif kind == "float64":
            _P[key] = Problem(list(senses), never, solution_length=2, initial_bounds=(0, 1), dtype="float64")
        else:
            _P[key] = Problem(list(senses), never, solution_length=2, initial_bounds=(0, 1), eval_data_length=1)
    return _P[key]


def make(kind, senses, cols):
    """A batch with recognisable rows; cols: one list of fitnesses per objective."""
    p = problem(kind, senses)
    n = len(cols[0])
    b = SolutionBatch(p, n, empty=True)
    if kind == "object":
        for i in range(n):
            b[i].set_values([100 + i])
    else:
        b.set_values(torch.tensor([[100.0 + i, 200.0 + i] for i in range(n)], dtype=p.dtype))
    ev = torch.tensor(list(zip(*cols)), dtype=p.eval_dtype).reshape(n, len(cols))
    data = torch.tensor([[1000.0 + i] * p.eval_data_length for i in range(n)], dtype=p.eval_dtype)
    b.set_evals(torch.cat([ev, data.reshape(n, p.eval_data_length)], dim=1))
    return b


def rows(b, kind):
    """(identity, evaluations) of every solution of the batch."""
    out = []
    ev = plain(b.evals).tolist()
    for i in range(len(b)):
        if kind == "object":
            out.append((int(b.values[i][0]) - 100, tuple(ev[i])))
        else:
            v = plain(b.values)[i].tolist()
            require(v[1] - v[0] == 100, "row %d mixes decision values: %s", i, v)
            out.append((int(v[0]) - 100, tuple(ev[i])))
    return out


def ordering(kind, senses, cols):
    b = make(kind, senses, cols)
    n = len(b)
    all_rows = rows(b, kind)
    for j in range(len(senses)):
        f = [x if senses[j] == "max" else -x for x in cols[j]]  # larger is better
        args = [j, j - len(senses)] + ([None] if len(senses) == 1 else [])
        for a in args:
            order = b.argsort(a).tolist()
            require(sorted(order) == list(range(n)), "argsort is not a permutation: %s", order)
            require(all(f[order[i]] >= f[order[i + 1]] for i in range(n - 1)), "argsort %s of %s", order, cols[j])
            ib, iw = int(b.argbest(a)), int(b.argworst(a))
            require(f[ib] == max(f), "argbest(%s) = %d of %s (%s)", a, ib, cols[j], senses[j])
            require(f[iw] == min(f), "argworst(%s) = %d of %s (%s)", a, iw, cols[j], senses[j])
            for k in range(0, n + 1):
                if k == 0 and kind == "object":
                    continue
                best = b.take_best(k, obj_index=a)
                got = rows(best, kind)
                require(len(got) == k, "take_best(%d) took %d", k, len(got))
                ids = [i for i, _ in got]
                require(len(set(ids)) == k, "take_best took one solution twice: %s", ids)
                for i, e in got:
                    require(e == all_rows[i][1], "take_best: solution %d carries %s, not %s", i, e, all_rows[i][1])
                left = [i for i in range(n) if i not in ids]
                require(
                    all(f[i] >= f[m] for i in ids for m in left), "take_best(%d) of %s (%s): %s", k, cols[j], senses[j], ids
                )
            u = b.utility(a)
            require_same(plain(u).to(torch.float64), torch.tensor(f, dtype=torch.float64), "utility")
    us = plain(b.utils()).to(torch.float64)
    exp = torch.tensor([[x if s == "max" else -x for x, s in zip(r, senses)] for r in zip(*cols)], dtype=torch.float64)
    require_same(us, exp, "utils")
    require(rows(b, kind) == all_rows, "ordering queries changed the batch")
    if len(senses) > 1:
        require(isinstance(raises(b.argsort), ValueError), "argsort without an objective index on several objectives")
        require(isinstance(raises(b.argbest), ValueError), "argbest without an objective index on several objectives")


def base(kind, n):
    return make(kind, ("min", "max"), [[float(i * 3 % 5) for i in range(n)], [float(-i) for i in range(n)]])


def indexing(kind, n):
    b = base(kind, n)
    ref = rows(b, kind)
    ends = [None] + list(range(-n - 1, n + 2))
    for s, e, st in itertools.product(ends, ends, (None, 1, 2, 3)):
        sl = slice(s, e, st)
        got = b[sl]
        require(rows(got, kind) == ref[sl], "slice %s gives %s", sl, rows(got, kind))
    require(rows(b[...], kind) == ref, "b[...] differs")
    require([int(s.values[0]) for s in b] == [100 + i for i in range(n)], "iteration order")
    require(len(list(b)) == n, "iteration length")
    for m in range(0, 4):
        for idx in itertools.product(range(-n, n), repeat=m):
            if m == 3 and n > 3 and idx[0] < 0:
                continue
            exp = [ref[i] for i in idx]
            forms = [list(idx), torch.tensor(idx, dtype=torch.int64), np.array(idx, dtype=int)]
            if m == 0:
                forms = [torch.tensor(idx, dtype=torch.int64)]
            for f in forms:
                require(rows(b.take(f), kind) == exp, "take(%s)", f)
                require(rows(b[f], kind) == exp, "b[%s]", f)
    if kind != "object":
        for mask in itertools.product((False, True), repeat=n):
            exp = [r for r, m in zip(ref, mask) if m]
            require(rows(b[torch.tensor(mask)], kind) == exp, "mask %s", mask)
            require(rows(b.take(torch.tensor(mask)), kind) == exp, "take mask %s", mask)
    # selections by index are copies
    if n >= 2:
        t = b.take([n - 1, 0])
        t.set_evals(torch.zeros(2, 3 if kind != "float64" else 2))
        require(rows(b, kind) == ref, "writing to a taken part changed the source")
        t = b.take_best(1, obj_index=0)
        t.forget_evals()
        require(rows(b, kind) == ref, "writing to a best-of part changed the source")


def splitting(kind, n):
    b = base(kind, n)
    ref = rows(b, kind)
    for how in ("num_pieces", "max_size"):
        for k in range(1, n + 3):
            p = b.split(k) if how == "num_pieces" else b.split(max_size=k)
            sizes = [len(x) for x in p]
            if how == "num_pieces":
                require(len(p) == k, "split(%d) made %d pieces", k, len(p))
                require(max(sizes) - min(sizes) <= 1, "split(%d) sizes %s", k, sizes)
            else:
                require(max(sizes) <= k, "split(max_size=%d) sizes %s", k, sizes)
                require(len(p) == -(-n // k), "split(max_size=%d) made %d pieces", k, len(p))
            got = [r for x in p for r in rows(x, kind)]
            require(got == ref, "pieces of %s=%d hold %s", how, k, got)
            require(len(list(p.iter_with_indices())) == len(p), "iter_with_indices length")
            for i, (piece, (lo, hi)) in enumerate(p.iter_with_indices()):
                require(tuple(p.indices_of(i)) == (lo, hi), "indices_of(%d)", i)
                require(rows(piece, kind) == ref[lo:hi], "piece %d and its indices %s", i, (lo, hi))
                require(rows(p[i], kind) == ref[lo:hi], "piece %d by index", i)
            require(p.batch is b, "the pieces forget their batch")
            # joining gives the whole back, as a copy
            whole = SolutionBatch.cat([x for x in p])
            require(rows(whole, kind) == ref, "joining the pieces of %s=%d gives %s", how, k, rows(whole, kind))
            # pieces are views
            w = whole.split(k) if how == "num_pieces" else whole.split(max_size=k)
            for i in range(len(w)):
                if len(w[i]):
                    w[i].forget_evals()
                    lo, hi = w.indices_of(i)
                    nan = torch.isnan(plain(whole.evals)).any(dim=1).tolist()
                    require(nan == [j < hi for j in range(n)], "piece %d is not the view %s", i, (lo, hi))
            require(rows(b, kind) == ref, "a joined batch shares storage with its sources")
    for kw in ({}, {"num_pieces": 2, "max_size": 1}):
        require(isinstance(raises(lambda: b.split(**kw)), ValueError), "split(%s) accepted", kw)


def joining(kind, sizes):
    """cat/concat of consecutive parts in every order."""
    n = sum(sizes)
    b = base(kind, n)
    ref = rows(b, kind)
    cuts = [0] + list(itertools.accumulate(sizes))
    parts = [b[cuts[i] : cuts[i + 1]] for i in range(len(sizes))]
    for perm in itertools.permutations(range(len(sizes))):
        exp = [r for i in perm for r in ref[cuts[i] : cuts[i + 1]]]
        seq = [parts[i] for i in perm]
        for got in (
            SolutionBatch.cat(seq),
            SolutionBatch.cat(iter(seq)),
            seq[0].concat(seq[1:]),
            SolutionBatch(merging_of=seq),
        ):
            require(rows(got, kind) == exp, "joining %s in order %s gives %s", sizes, perm, rows(got, kind))
            require(list(got.senses) == list(b.senses), "senses after joining: %s", got.senses)
        if len(seq) == 2:
            require(rows(seq[0].concat(seq[1]), kind) == exp, "concat of two")
        got.forget_evals()
        require(rows(b, kind) == ref, "joined batches share storage with their parts")


def chain(chooser, ctx, kind, n, depth):
    """Selections of selections: rows stay intact whatever the history."""
    b = base(kind, n)
    ref = rows(b, kind)
    table = dict(ref)
    cur, want = b, ref
    names = []
    for _ in range(depth):
        m = len(cur)
        ops = {"reverse": lambda: (cur[list(range(m))[::-1]], want[::-1])}
        ops["tail"] = lambda: (cur[m // 2 :], want[m // 2 :])
        ops["step"] = lambda: (cur[::2], want[::2])
        ops["dup"] = lambda: (cur.take([0, m - 1, 0]), [want[0], want[m - 1], want[0]])
        ops["cat"] = lambda: (cur.concat(cur[:1]), want + want[:1])
        ops["piece"] = lambda: (cur.split(2)[0], want[: (m + 1) // 2])
        ops["sort"] = lambda: (cur[cur.argsort(0)], None)
        ops["best"] = lambda: (cur.take_best(max(1, m - 1), obj_index=1), None)
        ops["clone"] = lambda: (cur.clone(), want)
        name = chooser.pick(list(ops), "op")
        names.append(name)
        cur, want2 = ops[name]()
        got = rows(cur, kind)
        if want2 is None:
            # ties only between copies of the same solution: the outcome is determined
            if name == "sort":
                want2 = sorted(want, key=lambda r: r[1][0])
            else:
                want2 = sorted(want, key=lambda r: -r[1][1])[: max(1, m - 1)]
                got_, want_ = sorted(got), sorted(want2)
                require(got_ == want_, "%s: %s, expected %s", names, got, want2)
                want2 = got
        require(got == want2, "%s: %s, expected %s", names, got, want2)
        require(all(table[i] == e for i, e in got), "%s separated values from evaluations", names)
        want = want2
        ctx.step()
        ctx.state(kind, [i for i, _ in got])
    return names


def run(ctx):
    nmax = 5 if ctx.thorough else 4
    for kind in ("float", "float64", "object"):
        for n in range(1, nmax + 1):
            if kind != "float" and n > 3:
                continue
            for order in weak_orders(n):
                for s in ("min", "max"):
                    cols = [[float(x) for x in order]]
                    ctx.case("order1", {"kind": kind, "sense": s, "f": order}, ordering, kind, (s,), cols)
        for senses in (("min", "max"), ("max", "min"), ("min", "min")):
            n = 3 if kind == "float" else 2
            for o1 in weak_orders(n):
                for o2 in weak_orders(n):
                    cols = [[float(x) for x in o1], [float(x) - 1.5 for x in o2]]
                    ctx.case("order2", {"kind": kind, "senses": senses, "f": [o1, o2]}, ordering, kind, senses, cols)
    # differences that only the evaluation type can resolve
    for perm in itertools.permutations(range(3)):
        for s in ("min", "max"):
            cols = [[1.0 + 1e-12 * x for x in perm]]
            ctx.case("order1", {"kind": "float64", "sense": s, "tiny": perm}, ordering, "float64", (s,), cols)
            cols = [[[1e30, -1e30, float("inf")][x] for x in perm]]
            ctx.case("order1", {"kind": "float64", "sense": s, "huge": perm}, ordering, "float64", (s,), cols)
    for kind in ("float", "float64", "object"):
        for n in range(1, nmax + 1):
            ctx.case("index", {"kind": kind, "n": n}, indexing, kind, n)
        for n in range(1, nmax + 3):
            ctx.case("split", {"kind": kind, "n": n}, splitting, kind, n)
        for k in range(1, 4):
            for sizes in itertools.product(range(1, 4), repeat=k):
                ctx.case("join", {"kind": kind, "sizes": sizes}, joining, kind, sizes)
        for n in (1, 2, 3, 5):
            d = 4 if ctx.thorough else 3
            ctx.explore("chain", {"kind": kind, "n": n, "depth": d}, lambda c, k=kind, n=n: chain(c, ctx, k, n, d))
