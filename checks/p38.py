"""P38: calls on all workers, fields of workers, preparation and shared attributes."""

import itertools
import pickle

import torch
from evotorch import Problem
from evotorch.distributions import SeparableGaussian

from mc import fakeray
from mc.ctx import require
from mc.util import raises

META = {
    "bounds": "2..3 workers; histories of up to 3 (thorough 4) operations among calls on all problems and environments, reading and writing fields of one worker, evaluations, gradients, copies and killing of the workers; failures at every worker; all completion orders of evaluations with 2 (thorough 3) pieces pending",
    "assumptions": ["each worker executes its calls one after the other in the order they were sent, as Ray actors do"],
}


class Env:
    def __init__(self, owner):
        self.owner = owner
        self.calls = []

    def act(self, a, *, b=0):
        self.calls.append((a, b))
        return (self.owner, "env", a, b, len(self.calls))

    def refuse(self, which):
        if self.owner == which:
            raise KeyError("the environment refuses")
        return self.owner


class Box:
    def __init__(self):
        self.inner = 0


def mark(problem):
    problem.marks.append(("hook", problem.actor_index, problem.prepared_count))


class Rem(Problem):
    def __init__(self, n, nonserialized=True, **kw):
        self.calls = []
        self.box = Box()
        self.level = 0
        self.marks = []
        self.prepared_count = 0
        self.resource = None
        self.shared = {"table": [1, 2, 3]}
        self.nonserialized = nonserialized
        self.env = None
        super().__init__("min", solution_length=2, initial_bounds=(-1, 1), num_actors=n, seed=3, **kw)

    def get_env(self):
        if self.env is None:
            self.env = Env(self.actor_index)
        return self.env

    def act(self, a, *, b=0):
        self.calls.append((a, b))
        return (self.actor_index, "problem", a, b, len(self.calls))

    def refuse(self, which):
        if self.actor_index == which:
            raise KeyError("the worker refuses")
        return self.actor_index

    @property
    def _shared_attribs(self):
        return ["shared"]

    @property
    def _nonserialized_attribs(self):
        return ["resource"] + (["shared"] if self.nonserialized else [])

    def _prepare(self):
        self.prepared_count += 1
        self.resource = object()
        self.marks.append(("prepare", self.actor_index))

    def _evaluate_batch(self, batch):
        assert self.resource is not None, "the problem evaluates before being prepared"
        assert self.shared is not None and self.shared["table"] == [1, 2, 3], "the shared attribute has not arrived"
        assert self.prepared_count == 1, "prepared %d times" % self.prepared_count
        self.marks.append(("evaluate", len(batch)))
        batch.set_evals(batch.values.sum(dim=1) + self.level)


OPS = ("call", "call env", "set", "set nested", "get", "evaluate", "gradients", "kill", "pickle", "clone", "accessor kept")


def dist():
    return SeparableGaussian({"mu": torch.zeros(2), "sigma": torch.ones(2)})


class Model:
    """What each worker is expected to hold."""

    def __init__(self, n):
        self.n = n
        self.reset()

    def reset(self):
        self.calls = [0] * self.n
        self.env = [0] * self.n
        self.level = [0] * self.n
        self.inner = [0] * self.n


def history_case(ctx, ops, n, nonserialized, hook):
    w = fakeray.reset()
    p = Rem(n, nonserialized)
    if hook:
        p.remote_hook.append(mark)
    m = Model(n)
    generation = 0  # index of the first worker of the current generation
    alive = False
    k = 0
    kept = None
    for op in ops:
        k += 1
        if op in ("kill", "pickle", "clone"):
            source = p
            if op == "kill":
                p.kill_actors()
            elif op == "pickle":
                p = pickle.loads(pickle.dumps(p))
            else:
                p = p.clone()
            if nonserialized and op != "kill":
                p.shared = source.shared  # left out of copies on request: the user provides it again
            m.reset()
            alive = False
            kept = None
        else:
            if not alive:
                generation = len(w.actors)
                alive = True
            if op == "call":
                got = p.all_remote_problems().act(k, b=-k)
                for i in range(n):
                    m.calls[i] += 1
                want = [(i, "problem", k, -k, m.calls[i]) for i in range(n)]
                require(got == want, "{}: got {}, expected {}", op, got, want)
            elif op == "call env":
                got = p.all_remote_envs().act(k)
                for i in range(n):
                    m.env[i] += 1
                want = [(i, "env", k, 0, m.env[i]) for i in range(n)]
                require(got == want, "{}: got {}, expected {}", op, got, want)
            elif op == "accessor kept":
                if kept is None:
                    kept = p.all_remote_problems()
                got = kept.act("kept")
                for i in range(n):
                    m.calls[i] += 1
                want = [(i, "problem", "kept", 0, m.calls[i]) for i in range(n)]
                require(got == want, "{}: got {}, expected {}", op, got, want)
            elif op == "evaluate":
                b = p.generate_batch(2 * n)
                p.evaluate(b)
                got = (b.evals[:, 0] - b.values.sum(dim=1)).round().tolist()
                require(sorted(got) == sorted(float(v) for v in m.level for _ in range(2)), "evaluations {} do not fit the workers' levels {}", got, m.level)
            elif op == "gradients":
                res = p.sample_and_compute_gradients(dist(), 2 * n, ranking_method="centered")
                require(sum(r["num_solutions"] for r in res) == 2 * n, "gradients of {}", [r["num_solutions"] for r in res])
            else:
                p.all_remote_problems()  # makes sure that the workers exist
                i = k % n
                actor = p.actors[i]
                import ray

                if op == "set":
                    ray.get(actor.set.remote("level" if k % 2 else ["level"], 10 * k))
                    m.level[i] = 10 * k
                elif op == "set nested":
                    ray.get(actor.set.remote("box.inner" if k % 2 else ["box", "inner"], k))
                    m.inner[i] = k
                for j in range(n):
                    got = (ray.get(p.actors[j].get.remote("level")), ray.get(p.actors[j].get.remote(["box", "inner"])), ray.get(p.actors[j].get.remote("box.inner")))
                    want = (m.level[j], m.inner[j], m.inner[j])
                    require(got == want, "worker {} holds {}, expected {}", j, got, want)
            for j in range(n):
                q = w.actors[generation + j].obj._problem
                require(q.actor_index == j, "worker {} has index {}", j, q.actor_index)
                marks = q.marks
                if hook:
                    require(marks and marks[0] == ("hook", j, 0) and sum(x[0] == "hook" for x in marks) == 1, "worker {}: the remote hook did not run exactly once and first: {}", j, marks)
                require(q.prepared_count <= 1, "worker {} was prepared {} times", j, q.prepared_count)
                require(len(q.calls) == m.calls[j], "worker {} received {} calls, expected {}", j, len(q.calls), m.calls[j])
        require(p.calls == [] and p.level == 0 and p.box.inner == 0, "the main problem was changed by operations on its workers")
        require(all(x[0] != "hook" for x in p.marks), "the remote hook ran in the main process")
        ctx.step()
        ctx.state(ops[:k], m.calls, m.env, m.level, m.inner, alive)


def failure_case(ctx, n, which, on_env, after):
    fakeray.reset()
    p = Rem(n)
    for _ in range(after):
        p.evaluate(p.generate_batch(n))
    acc = p.all_remote_envs() if on_env else p.all_remote_problems()
    e = raises(acc.refuse, which)
    if which < n:
        require(e is not None and "refuses" in str(e), "the failure of worker {} surfaced as {!r}", which, e)
    else:
        require(e is None and acc.refuse(which) == list(range(n)), "no worker failed, yet {!r}", e)
    # everything still works
    got = p.all_remote_problems().act(1)
    require([g[0] for g in got] == list(range(n)), "after a failure the workers answer {}", got)
    b = p.generate_batch(3)
    p.evaluate(b)
    require(bool(torch.isfinite(b.evals).all()), "evaluations are missing after a failure")
    ctx.step(3)
    ctx.state(n, which, on_env, after)


def order_case(ctx, ch, n, pieces, nonserialized):
    """Preparation and sharing precede the first evaluation in every completion order."""
    w = fakeray.reset(ch)
    p = Rem(n, nonserialized, num_subbatches=pieces)
    p.remote_hook.append(mark)
    b = p.generate_batch(pieces)
    p.evaluate(b)
    require(torch.equal(b.evals[:, 0], b.values.sum(dim=1)), "wrong evaluations")
    got = p.all_remote_problems().act(7)
    require(got == [(i, "problem", 7, 0, 1) for i in range(n)], "workers answered {}", got)
    evaluated = 0
    for a in w.actors:
        marks = a.obj._problem.marks
        require(marks[0] == ("hook", a.index, 0), "worker {}: {}", a.index, marks)
        evs = [x for x in marks if x[0] == "evaluate"]
        evaluated += sum(x[1] for x in evs)
        if evs:
            require(marks[1] == ("prepare", a.index), "worker {}: {}", a.index, marks)
    require(evaluated == pieces, "{} solutions were evaluated by the workers, expected {}", evaluated, pieces)
    ctx.outcome([len(a.obj._problem.marks) for a in w.actors])
    ctx.step(2)


def alone_case(ctx, op):
    """Without workers, the problem itself is prepared, once."""
    fakeray.reset()
    p = Rem(0, False)
    b = p.generate_batch(2)
    p.evaluate(b)
    p.evaluate(b)
    require(p.prepared_count == 1, "prepared {} times", p.prepared_count)
    require(p.actors is None, "workers were created")
    ctx.step(2)


def remote_refused_case(ctx, name):
    """A worker does not have workers of its own."""
    w = fakeray.reset()
    p = Rem(2)
    p.evaluate(p.generate_batch(2))
    q = w.actors[1].obj._problem
    require(raises(getattr(q, name), exc=RuntimeError) is not None, "{} worked on a worker", name)
    require(len(w.actors) == 2, "workers of workers were created")
    ctx.step()
    ctx.state(name)


def run(ctx):
    depth = 4 if ctx.thorough else 3
    for n in (2, 3):
        for ops in itertools.product(OPS, repeat=depth):
            if n == 3 and not ctx.thorough and ops[0] in ("pickle", "clone", "kill"):
                continue
            for nons, hook in ((True, True), (False, False)):
                if ctx.thorough and n == 3 and nons:
                    continue
                ctx.case("histories", f"{n} {ops} {nons} {hook}", history_case, ctx, ops, n, nons, hook)
    for n in (2, 3):
        for which in range(n + 1):
            for on_env in (True, False):
                for after in (0, 1):
                    ctx.case("failures", f"{n} {which} {on_env} {after}", failure_case, ctx, n, which, on_env, after)
    for n in (2, 3):
        for pieces in (2, 3, 4) if not ctx.thorough else (2, 3, 4, 5):
            for nons in (True, False):
                ctx.explore("orders", f"{n} {pieces} {nons}", lambda ch, n=n, pieces=pieces, nons=nons: order_case(ctx, ch, n, pieces, nons))
    ctx.case("alone", "evaluate", alone_case, ctx, "evaluate")
    for name in ("all_remote_problems", "all_remote_envs", "kill_actors"):
        ctx.case("alone", name, remote_refused_case, ctx, name)
