"""P01: parallel evaluation, all completion orders."""

import torch
from evotorch import Problem, SolutionBatch
from evotorch.decorators import vectorized

from mc import fakeray
from mc.ctx import require
from mc.util import plain, product, require_same

META = {
    "bounds": "1..3 workers (4 thorough), populations 1..6, every sub-batch count/size, all completion orders of all pieces, 1-2 evaluations, one injected worker failure",
    "assumptions": ["workers do not communicate with each other", "a worker handles its calls in FIFO order"],
}

LOG = []
FAIL = {"on": None}


def key(row):
    return tuple(float(v) for v in row)


def note(rows):
    for row in rows:
        LOG.append((fakeray.world().in_actor, key(row)))
        if FAIL["on"] is not None and key(row) == FAIL["on"]:
            raise ValueError("the simulator crashed")


def ref(rows):
    """fitness (2 columns) and evaluation data of each row"""
    rows = rows.to(torch.float64)
    f1 = rows @ torch.tensor([1.0, 10.0, 100.0], dtype=torch.float64)[: rows.shape[1]]
    f2 = (rows**2).sum(dim=1) - 5 * rows[:, 0]
    return f1, f2, rows[:, 0] * 2 + 1


def f_single(x):
    note([x])
    return ref(x[None])[0][0].to(torch.float32)


@vectorized
def f_vec(xs):
    note(xs)
    return ref(xs)[0].to(torch.float32)


@vectorized
def f_multi(xs):
    note(xs)
    a, b, d = ref(xs)
    return torch.stack([a, b], dim=1).to(torch.float32), d[:, None].to(torch.float32)


def f_multi_single(x):
    note([x])
    a, b, d = ref(x[None])
    return torch.stack([a, b], dim=1)[0].to(torch.float32), d.to(torch.float32)


def f_obj(x):
    LOG.append((fakeray.world().in_actor, tuple(x)))
    return float(sum(v * 10**i for i, v in enumerate(x)))


class SubProblem(Problem):
    """A problem defined by overriding the batch evaluation method."""

    def __init__(self, **kw):
        super().__init__("max", solution_length=3, initial_bounds=(-1, 1), eval_data_length=1, **kw)

    def _evaluate_batch(self, batch):
        note(batch.values)
        a, b, d = ref(plain(batch.values))
        batch.set_evals(a.to(torch.float32), d[:, None].to(torch.float32))


class ObjProblem(Problem):
    def __init__(self, **kw):
        super().__init__("min", f_obj, dtype=object, **kw)

    def _fill(self, values):
        for i in range(len(values)):
            values[i] = [i]


def make(kind, kw):
    if kind == "single":
        return Problem("min", f_single, solution_length=3, initial_bounds=(-1, 1), **kw)
    if kind == "vec":
        return Problem("max", f_vec, solution_length=3, initial_bounds=(-1, 1), **kw)
    if kind == "multi":
        return Problem(["min", "max"], f_multi, solution_length=3, initial_bounds=(-1, 1), eval_data_length=1, **kw)
    if kind == "multi_single":
        return Problem(
            ["min", "max"], f_multi_single, solution_length=3, initial_bounds=(-1, 1), eval_data_length=1, **kw
        )
    if kind == "sub":
        return SubProblem(**kw)
    raise AssertionError(kind)


def expected(kind, values):
    a, b, d = ref(values)
    if kind in ("single", "vec"):
        return a[:, None]
    if kind == "sub":
        return torch.stack([a, d], dim=1)
    return torch.stack([a, b, d], dim=1)


def values_of(n, base):
    # small integers: float32 arithmetic on them is exact
    return torch.tensor([[(base + i) % 7, (base * 2 + i * 3) % 5, i] for i in range(n)], dtype=torch.float32)




def run_config(ctx, d):
    def run(chooser):
        w = fakeray.reset(chooser)
        torch.manual_seed(1)
        LOG.clear()
        FAIL["on"] = None
        kw = {"num_actors": d["actors"]}
        if d["sub"] is not None:
            kw[d["sub"][0]] = d["sub"][1]
        prob = make(d["kind"], kw)
        n = d["n"]
        for rnd in range(d.get("rounds", 1)):
            vals = values_of(n, rnd + 1)
            LOG.clear()
            if d.get("slice") is not None:
                big = SolutionBatch(prob, n + 2, empty=True)
                big.set_values(values_of(n + 2, 4))
                big.set_evals(torch.full((n + 2, len(prob.senses)), -7.0), *([torch.full((n + 2, 1), -8.0)] if prob.eval_data_length else []))
                batch = big[1 : n + 1]
            else:
                big = None
                batch = prob.generate_batch(n)
            batch.set_values(vals)
            prob.evaluate(batch)
            ctx.step(n)
            require_same(plain(batch.values), vals, "decision values after the evaluation")
            require_same(plain(batch.evals), expected(d["kind"], vals), "evaluation results", 1e-6)
            require(
                sorted(k for _, k in LOG) == sorted(key(v) for v in vals),
                "solutions evaluated: %s, requested: %s",
                sorted(k for _, k in LOG),
                sorted(key(v) for v in vals),
            )
            if big is not None:
                require_same(plain(big.evals)[1 : n + 1], expected(d["kind"], vals), "results seen via the parent", 1e-6)
                require(bool((plain(big.evals)[[0, -1]] <= -7).all()), "neighbouring rows were overwritten")
            ctx.state(d["kind"], sorted(map(str, LOG)), batch.evals)
        return [w.log, sorted(map(str, LOG))]

    return run


def run_failure(ctx, d):
    """One solution makes its worker fail; the next evaluation must be right."""

    def run(chooser):
        fakeray.reset(chooser)
        torch.manual_seed(1)
        FAIL["on"] = None
        LOG.clear()
        kw = {"num_actors": d["actors"], "subbatch_size": 1}
        prob = make(d["kind"], kw)
        n = d["n"]
        vals = values_of(n, 1)
        batch = prob.generate_batch(n)
        batch.set_values(vals)
        FAIL["on"] = key(vals[d["bad"]])
        err = None
        try:
            prob.evaluate(batch)
        except Exception as e:
            err = e
        require(err is not None, "the failure of a worker was swallowed")
        FAIL["on"] = None
        vals = values_of(n, 2)
        batch2 = prob.generate_batch(n)
        batch2.set_values(vals)
        LOG.clear()
        prob.evaluate(batch2)
        ctx.step(2 * n)
        require_same(plain(batch2.evals), expected(d["kind"], vals), "results after a recovered failure", 1e-6)
        ctx.state("failure", d["bad"], batch2.evals)
        return sorted(map(str, LOG))

    return run


def run_object(ctx, d):
    def run(chooser):
        fakeray.reset(chooser)
        LOG.clear()
        kw = {"num_actors": d["actors"]}
        if d["sub"] is not None:
            kw[d["sub"][0]] = d["sub"][1]
        prob = ObjProblem(**kw)
        batch = prob.generate_batch(d["n"])
        want = []
        for i in range(d["n"]):
            sln = [(i * 3) % 4, i]
            batch[i].set_values(sln)
            want.append(sum(v * 10**j for j, v in enumerate(sln)))
        prob.evaluate(batch)
        ctx.step(d["n"])
        require_same(plain(batch.evals)[:, 0], torch.tensor(want, dtype=torch.float64), "evaluation of objects", 1e-6)
        require(len(LOG) == d["n"], "%d evaluations for %d solutions", len(LOG), d["n"])
        ctx.state("object", batch.evals, sorted(map(str, LOG)))
        return sorted(map(str, LOG))

    return run


def run_solution(ctx, d):
    def run(chooser):
        fakeray.reset(chooser)
        torch.manual_seed(1)
        LOG.clear()
        FAIL["on"] = None
        prob = make(d["kind"], {"num_actors": d["actors"]})
        batch = prob.generate_batch(3)
        vals = values_of(3, 1)
        batch.set_values(vals)
        sln = batch[d["i"]]
        prob.evaluate(sln)
        ctx.step()
        exp = torch.full((3, plain(batch.evals).shape[1]), float("nan"))
        exp[d["i"]] = expected(d["kind"], vals)[d["i"]].to(exp.dtype)
        require_same(plain(batch.evals), exp, "evaluation of a single solution of a batch", 1e-6)
        require_same(plain(sln.evals), exp[d["i"]], "evals of the solution", 1e-6)
        require(len(LOG) == 1, "%d evaluations for one solution", len(LOG))
        ctx.state("solution", batch.evals)

    return run


def run(ctx):
    actors = [1, 2, 3, 4] if ctx.thorough else [1, 2, 3]
    nmax = 7 if ctx.thorough else 6
    for kind in ["single", "vec", "multi", "multi_single", "sub"]:
        for a in actors:
            for n in range(1, nmax + 1):
                subs = [None]
                subs += [("num_subbatches", k) for k in range(1, n + 1)]
                subs += [("subbatch_size", k) for k in range(1, n + 2)]
                for s in subs:
                    d = {"kind": kind, "actors": a, "n": n, "sub": s}
                    ctx.explore("orders", d, run_config(ctx, d))
    for kind in ["multi", "sub"]:
        for a in [1, 2, 3]:
            for n in [2, 3, 4]:
                for s in [None, ("num_subbatches", 2), ("subbatch_size", 1), ("subbatch_size", 2)]:
                    d = {"kind": kind, "actors": a, "n": n, "sub": s, "rounds": 2}
                    ctx.explore("two_rounds", d, run_config(ctx, d))
                    d = {"kind": kind, "actors": a, "n": n, "sub": s, "slice": True}
                    ctx.explore("slices", d, run_config(ctx, d))
    for kind in ["single", "multi"]:
        for a in [1, 2, 3]:
            for n in [2, 3, 4]:
                for bad in range(n):
                    d = {"kind": kind, "actors": a, "n": n, "bad": bad}
                    ctx.explore("worker_failure", d, run_failure(ctx, d))
    for a in [1, 2, 3]:
        for n in [1, 2, 3, 4]:
            for s in [None, ("num_subbatches", 2), ("subbatch_size", 1), ("subbatch_size", 3)]:
                if s == ("num_subbatches", 2) and n < 2:
                    continue
                d = {"actors": a, "n": n, "sub": s}
                ctx.explore("objects", d, run_object(ctx, d))
    for d in product(kind=["single", "vec", "multi", "sub"], actors=[1, 2], i=[0, 1, 2]):
        ctx.explore("single_solution", d, run_solution(ctx, d))
