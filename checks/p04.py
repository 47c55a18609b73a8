"""P04: evaluations never outlive decision values. Operation histories on batches, slices and solutions."""

import copy
import math
import pickle

import torch
from evotorch import Problem, Solution, SolutionBatch

from mc.ctx import require
from mc.util import plain, raises, require_same

META = {
    "bounds": "all operation histories of depth 3 (quick) / 4 (thorough) on a root batch of 3 solutions with all views created on the way; float, two-objective with evaluation data, integer and object problems",
}

NAN = math.nan
N = 3


def never(x):
    raise RuntimeError("not to be called")


class ObjProb(Problem):
    def __init__(self):
        super().__init__("min", never, dtype=object, eval_data_length=1)

    def _fill(self, values):
        for i in range(len(values)):
            values[i] = ["init", i]


PROBLEMS = {}


def problem(kind):
    if kind not in PROBLEMS:
        if kind == "float":
            PROBLEMS[kind] = Problem("min", never, solution_length=2, initial_bounds=(-1, 1))
        elif kind == "multi":
            PROBLEMS[kind] = Problem(
                ["min", "max"], never, solution_length=2, initial_bounds=(-1, 1), eval_data_length=1
            )
        elif kind == "int":
            PROBLEMS[kind] = Problem("max", never, solution_length=2, dtype="int64", bounds=(0, 10**6), eval_data_length=1)
        else:
            PROBLEMS[kind] = ObjProb()
    return PROBLEMS[kind]


class World:
    """The real objects side by side with the model.

    A model storage is a list of rows [values, evals]; a model view is (storage, row numbers).
    """

    def __init__(self, kind):
        self.kind = kind
        self.prob = problem(kind)
        self.counter = 0
        self.nobj = len(self.prob.senses)
        self.ndata = self.prob.eval_data_length
        self.width = self.nobj + self.ndata
        batch = SolutionBatch(self.prob, N, empty=True)
        self.views = []  # [real, storage, rows, is_solution]
        store = []
        for i in range(N):
            store.append([self.value(), [NAN] * self.width])
        if kind == "object":
            for i in range(N):
                batch[i].set_values(store[i][0])
        else:
            batch.set_values(torch.tensor([r[0] for r in store], dtype=self.prob.dtype))
        self.add(batch, store, list(range(N)), False)

    def add(self, real, store, rows, is_sln):
        self.views.append([real, store, rows, is_sln])

    def value(self):
        self.counter += 1
        if self.kind == "object":
            return [self.counter, [self.counter + 100]]
        return [self.counter, self.counter + 1000]

    def evalrow(self):
        self.counter += 1
        return [float(self.counter + 10 * j) for j in range(self.width)]

    # -- comparison
    def check(self):
        for k, (real, store, rows, is_sln) in enumerate(self.views):
            b = real.to_batch() if is_sln else real
            require(len(b) == len(rows), "view %d has length %d, expected %d", k, len(b), len(rows))
            ev = plain(b.evals)
            want = torch.tensor([store[r][1] for r in rows], dtype=torch.float64).reshape(len(rows), self.width)
            require_same(ev, want, f"evaluations of view {k}")
            if self.kind == "object":
                got = [unwrap(b.values[i]) for i in range(len(rows))]
                exp = [store[r][0] for r in rows]
                require(got == exp, "values of view %d: %s, expected %s", k, got, exp)
            else:
                want = torch.tensor([store[r][0] for r in rows]).reshape(len(rows), 2)
                require_same(plain(b.values), want, f"values of view {k}")
            for i, r in enumerate(rows):
                sln = real if is_sln else b[i]
                exp = not any(math.isnan(e) for e in store[r][1][: self.nobj])
                require(sln.is_evaluated == exp, "is_evaluated of solution %d of view %d is %s", i, k, sln.is_evaluated)

    def snapshot(self):
        ids = {}
        out = []
        for real, store, rows, is_sln in self.views:
            sid = ids.setdefault(id(store), len(ids))
            out.append([sid, rows, is_sln, [[not math.isnan(e) for e in store[r][1]] for r in rows]])
        return out

    # -- operations
    def wr(self, rows):
        """New decision values for the rows, in the form expected by set_values of a batch."""
        vals = [self.value() for _ in rows]
        if self.kind == "object":
            return vals, vals
        return vals, torch.tensor(vals, dtype=self.prob.dtype).reshape(len(vals), 2)

    def set_rows(self, store, rows, vals):
        for r, v in zip(rows, vals):
            store[r][0] = copy.deepcopy(v)
            store[r][1] = [NAN] * self.width

    def ops(self, k):
        """All operations on view k, as (name, function)."""
        real, store, rows, is_sln = self.views[k]
        n = len(rows)
        out = []

        def op(f):
            out.append((f.__name__, f))
            return f

        if is_sln:
            r = rows[0]

            @op
            def sln_set_values():
                v = self.value()
                real.set_values(v if self.kind == "object" else torch.tensor(v, dtype=self.prob.dtype))
                self.set_rows(store, [r], [v])

            @op
            def sln_set_evals():
                e = self.evalrow()
                if self.ndata:
                    real.set_evals(torch.tensor(e[: self.nobj]), torch.tensor(e[self.nobj :]))
                else:
                    real.set_evals(torch.tensor(e))
                store[r][1] = e

            @op
            def sln_set_evaluation_only():
                e = self.evalrow()
                if self.nobj == 1:
                    real.set_evaluation(e[0])
                else:
                    real.set_evals(torch.tensor(e[: self.nobj]))
                store[r][1] = e[: self.nobj] + [NAN] * self.ndata

            @op
            def sln_access_values():
                v = self.value()
                x = real.access_values()
                if self.kind == "object":
                    v = copy.deepcopy(store[r][0])
                else:
                    x[:] = torch.tensor(v, dtype=self.prob.dtype)
                self.set_rows(store, [r], [v])

            @op
            def sln_access_values_keep():
                real.access_values(keep_evals=True)

            @op
            def sln_access_evals():
                e = self.evalrow()
                real.access_evals()[:] = torch.tensor(e)
                store[r][1] = e

            @op
            def sln_clone():
                self.add(real.clone(), [copy.deepcopy(store[r])], [0], True)

            @op
            def sln_pickle():
                self.add(pickle.loads(pickle.dumps(real)), [copy.deepcopy(store[r])], [0], True)

            @op
            def sln_to_batch():
                self.add(real.to_batch(), store, rows, False)

            return out

        @op
        def set_values():
            vals, arg = self.wr(rows)
            real.set_values(arg)
            self.set_rows(store, rows, vals)

        @op
        def set_values_list():
            vals, arg = self.wr([rows[0]])
            real.set_values(arg, solutions=[0])
            self.set_rows(store, [rows[0]], vals)

        @op
        def set_values_slice():
            vals, arg = self.wr(rows[-1:])
            real.set_values(arg, solutions=slice(n - 1, None))
            self.set_rows(store, rows[-1:], vals)

        @op
        def set_evals():
            es = [self.evalrow() for _ in rows]
            if self.ndata:
                real.set_evals(
                    torch.tensor([e[: self.nobj] for e in es]), torch.tensor([e[self.nobj :] for e in es])
                )
            elif self.nobj == 1:
                real.set_evals(torch.tensor([e[0] for e in es]))
            else:
                real.set_evals(torch.tensor(es))
            for r, e in zip(rows, es):
                store[r][1] = e

        @op
        def set_evals_only():
            es = [self.evalrow() for _ in rows]
            real.set_evals(torch.tensor([e[: self.nobj] for e in es]))
            for r, e in zip(rows, es):
                store[r][1] = e[: self.nobj] + [NAN] * self.ndata

        @op
        def set_evals_joint_last():
            e = self.evalrow()
            real.set_evals(torch.tensor([e]), solutions=[n - 1])
            store[rows[-1]][1] = e

        @op
        def set_evals_slice():
            e = self.evalrow()
            real.set_evals(torch.tensor([e]), solutions=slice(0, 1))
            store[rows[0]][1] = e

        @op
        def access_values_write():
            x = real.access_values()
            v = self.value()
            if self.kind == "object":
                x[0] = v
            else:
                x[0] = torch.tensor(v, dtype=self.prob.dtype)
            for r in rows:
                store[r][1] = [NAN] * self.width
            store[rows[0]][0] = copy.deepcopy(v)

        @op
        def access_values_keep():
            real.access_values(keep_evals=True)

        @op
        def access_evals_write():
            e = self.evalrow()
            real.access_evals()[0] = torch.tensor(e)
            store[rows[0]][1] = e

        @op
        def forget():
            real.forget_evals()
            for r in rows:
                store[r][1] = [NAN] * self.width

        @op
        def forget_first():
            real.forget_evals(solutions=[0])
            store[rows[0]][1] = [NAN] * self.width

        @op
        def slice_tail():
            self.add(real[n // 2 :], store, rows[n // 2 :], False)

        @op
        def slice_step():
            self.add(real[::2], store, rows[::2], False)

        @op
        def pick():
            idx = [n - 1, 0]
            self.add(real[idx], [copy.deepcopy(store[rows[i]]) for i in idx], [0, 1], False)

        @op
        def clone():
            self.add(real.clone(), [copy.deepcopy(store[r]) for r in rows], list(range(n)), False)

        @op
        def pickled():
            self.add(pickle.loads(pickle.dumps(real)), [copy.deepcopy(store[r]) for r in rows], list(range(n)), False)

        @op
        def solution_last():
            self.add(real[-1], store, [rows[-1]], True)

        @op
        def solution_first():
            self.add(real[0], store, [rows[0]], True)

        @op
        def cat():
            both = rows + rows[:1]
            self.add(
                SolutionBatch.cat([real, real[:1]]), [copy.deepcopy(store[r]) for r in both], list(range(n + 1)), False
            )

        @op
        def split_last():
            p = real.split(2) if n >= 2 else real.split(1)
            a, b = p.indices_of(len(p) - 1)
            self.add(p[-1], store, rows[a:b], False)

        @op
        def take():
            self.add(real.take([0]), copy.deepcopy([store[rows[0]]]), [0], False)

        return out


def unwrap(x):
    """Plain python lists from the (immutable) containers of an object batch."""
    if isinstance(x, (str, int, float)):
        return x
    return [unwrap(e) for e in x]


def run_history(ctx, kind, first, depth):
    def run(chooser):
        w = World(kind)
        w.check()
        names = []
        for i in range(depth):
            ops = []
            for k in range(len(w.views)):
                ops += [(k, name, f) for name, f in w.ops(k)]
            if i == 0:
                k, name, f = ops[first]
            else:
                k, name, f = ops[chooser.choose(len(ops), "operation")]
            f()
            ctx.step()
            names.append([k, name])
            try:
                w.check()
            except AssertionError as e:
                raise type(e)(f"after {names}: {e}")
            ctx.state(kind, w.snapshot())
        return names

    return run


def bad_arguments(kind):
    """Misuse is refused and changes nothing."""
    w = World(kind)
    b = w.views[0][0]
    b.set_evals(torch.tensor([w.evalrow() for _ in range(N)]))
    ev = plain(b.evals)
    for i in (N, N + 5, -N - 1, -N - 7):
        require(isinstance(raises(lambda: b[i]), IndexError), "index %d of a batch of %d is accepted", i, N)
    for i in range(-N, N):
        require_same(plain(b[i].evals), ev[i], f"evals of solution {i}")
    for j in (w.nobj, w.nobj + 1, -w.nobj - 1):
        for f in (lambda: b.access_evals(j), lambda: b.argbest(j), lambda: b.argsort(j), lambda: b.utility(j)):
            require(isinstance(raises(f), IndexError), "objective index %d is accepted", j)
    wrong = [
        lambda: b.set_evals(torch.zeros(N + 1, w.nobj)),
        lambda: b.set_evals(torch.zeros(N - 1, w.nobj)),
        lambda: b.set_evals(torch.zeros(N, w.width + 1)),
        lambda: b.set_evals(torch.zeros(N, w.nobj), torch.zeros(N, w.ndata + 1)),
        lambda: b.set_evals(torch.zeros(N, w.nobj), torch.zeros(N + 1, w.ndata)),
        lambda: b.set_evals(torch.zeros(2, w.nobj), solutions=[0]),
        lambda: b.set_evals(torch.zeros(2, w.nobj), solutions=slice(0, 1)),
        lambda: b.set_evals(torch.zeros(N, 1, 1)),
    ]
    for i, f in enumerate(wrong):
        require(raises(f) is not None, "malformed evaluations (case %d) are accepted", i)
        require_same(plain(b.evals), ev, f"evaluations after refused call {i}")
    require(raises(lambda: b.values.__setitem__(0, 0)) is not None, "values are writable")
    require(raises(lambda: b.evals.__setitem__(0, 0)) is not None, "evals are writable")
    require_same(plain(b.evals), ev, "evaluations after refused writes")
    for cols in (None, 0, -1):
        got = plain(b.access_evals(cols))
        exp = ev if cols is None else ev[:, : w.nobj][:, cols]
        require_same(got, exp, "access_evals")


def fresh(kind, how):
    """A batch that was never evaluated reports missing evaluations only."""
    p = problem(kind)
    if how == "generate":
        b = p.generate_batch(4)
    elif how == "ctor":
        b = SolutionBatch(p, 4)
    elif how == "like":
        src = SolutionBatch(p, 4)
        src.set_evals(torch.zeros(4, len(p.senses) + p.eval_data_length))
        b = SolutionBatch(like=src, empty=True)
        require(len(b) == 4, "length of a batch made like another: %d", len(b))
    elif how == "like_filled":
        src = SolutionBatch(p, 4, empty=True)
        src.set_evals(torch.zeros(4, len(p.senses) + p.eval_data_length))
        b = SolutionBatch(p, popsize=2, like=src)
        require(len(b) == 2, "length of a batch made like another: %d", len(b))
    else:
        src = SolutionBatch(p, 4)
        src.set_evals(torch.zeros(4, len(p.senses) + p.eval_data_length))
        b = SolutionBatch(like=src, popsize=3, empty=True)
        require(len(b) == 3, "length of a batch made like another: %d", len(b))
    require(bool(torch.isnan(plain(b.evals)).all()), "a fresh batch has evaluations: %s", b.evals)
    require(plain(b.evals).shape == (len(b), len(p.senses) + p.eval_data_length), "evals shape %s", b.evals.shape)


def run(ctx):
    depth = 4 if ctx.thorough else 3
    kinds = ["float", "multi", "int", "object"]
    for kind in kinds:
        ctx.case("misuse", {"kind": kind}, bad_arguments, kind)
        for how in ("generate", "ctor", "like", "like_filled", "like_shorter"):
            ctx.case("fresh", {"kind": kind, "how": how}, fresh, kind, how)
    for kind in kinds:
        nops = len(World(kind).ops(0))
        for first in range(nops):
            dep = depth if kind in ("multi", "object") else min(depth, 3)
            ctx.explore("histories", {"kind": kind, "first": first, "depth": dep}, run_history(ctx, kind, first, dep))
