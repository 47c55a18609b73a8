"""P37: workers are allocated as requested."""

import itertools
import math
import os
import pickle

import torch
from evotorch import Problem, SolutionBatch

from mc import fakeray
from mc.ctx import require
from mc.util import raises

META = {
    "bounds": "clusters with 1..4 CPUs (also fractional) and 0..4 GPUs (also fractional, also none reported); all documented values of num_actors and num_gpus_per_actor and an undocumented one; actor configurations with and without resources; main device cpu and another; histories of up to 3 (thorough 4) operations among evaluating, killing, copying, calling all workers",
    "assumptions": ["the available resources are what Ray reports", "without workers, the GPUs per worker have no meaning"],
}

CPUS = (1.0, 2.0, 3.0, 2.5)
GPUS = (None, 0.0, 0.5, 1.0, 1.5, 2.0, 4.0)
ACTORS = (None, 0, 1, 2, 3, 2.0, "max", "num_cpus", "num_gpus", "num_devices", "some")
PER = (None, 0, 1, 2, 0.5, "max", "all", "none")
CONFIGS = (None, {}, {"num_cpus": 0.5}, {"num_gpus": 1}, {"num_gpus": 0.25, "num_cpus": 2})


def f(x):
    return x.sum()


def wanted(cpu, gpu, num_actors, per, config, device):
    """(number of workers, GPUs per worker) or the string 'error' or 'either' (not documented)."""
    has = bool(gpu) and gpu >= 1e-4
    conflict = per is not None or (config is not None and "num_gpus" in config)
    g = per
    if num_actors is None:
        n = 0
    elif num_actors in ("max", "num_cpus"):
        n = math.ceil(cpu)
    elif num_actors == "num_gpus":
        if not has or conflict:
            return "error"
        n = math.ceil(gpu)
        g = gpu / n
    elif num_actors == "num_devices":
        if conflict:
            return "error"
        if device == "meta":
            n, g = 0, None
        elif not has:
            n, g = math.ceil(cpu), None
        else:
            n = math.ceil(min(cpu, gpu))
            g = 1 if n <= gpu else gpu / n
    elif num_actors == "some":
        return "error"
    else:
        n = int(num_actors)
    if n < 2:
        if per is not None:
            return "either"  # documented to be left as None
        return 0, None
    if device == "meta":
        return "error"
    if per is not None and config is not None and "num_gpus" in config:
        return "error"
    if per == "none":
        return "error"
    if g == "max":
        g = gpu / n if has else None
    if g == "all":
        g = None
    return n, g


def build(cpu, gpu, num_actors, per, config, device):
    w = fakeray.reset()
    w.resources = {"CPU": cpu, **({} if gpu is None else {"GPU": gpu})}
    kw = {}
    if device is not None:
        kw["device"] = device
    return w, Problem("min", f, solution_length=2, initial_bounds=(-1, 1), num_actors=num_actors, num_gpus_per_actor=per, actor_config=config, seed=None if device == "meta" else 1, **kw)


def options_of(actor):
    o = {k: v for k, v in actor.opts.items()}
    if not o.get("num_gpus"):
        o.pop("num_gpus", None)
    return {k: float(v) for k, v in o.items()}


def request_case(ctx, cpu, gpu, num_actors, per, config, device):
    given = None if config is None else dict(config)
    want = wanted(cpu, gpu, num_actors, per, config, device)
    box = []
    e = raises(lambda: box.append(build(cpu, gpu, num_actors, per, given, device)))
    ctx.step()
    if want == "error":
        require(isinstance(e, ValueError), "the request was expected to be refused with a ValueError, got {!r}", e)
        return
    if want == "either":
        if e is None:
            require(box[0][1].num_actors == 0, "{} workers are planned", box[0][1].num_actors)
        return
    require(e is None, "the request was refused: {!r}", e)
    w, p = box[0]
    n, g = want
    require(p.num_actors == n, "{} workers are planned, expected {}", p.num_actors, n)
    require(p.actors is None and not w.actors, "workers exist before they are needed")
    require(given == config, "the given configuration was changed to {}", given)
    if device == "meta":
        return
    batch = p.generate_batch(5)
    p.evaluate(batch)
    require(torch.equal(batch.evals[:, 0], batch.values.sum(dim=1)), "wrong evaluations")
    if n == 0:
        require(p.actors is None and not w.actors, "workers were created although none were requested")
        return
    require(len(p.actors) == n == len(w.actors), "{} workers were created, expected {}", len(w.actors), n)
    opts = {k: float(v) for k, v in (config or {}).items()}
    if g is not None and g != 0:
        opts["num_gpus"] = float(g)
    for a in w.actors:
        require(options_of(a) == opts, "worker {} was created with {}, expected {}", a.index, a.opts, opts)
        require(a.obj._problem.actor_index == a.index and a.obj._problem.is_remote and not a.obj._problem.is_main, "worker {} does not know its index", a.index)
    require(p.is_main and not p.is_remote and p.actor_index is None, "the main problem takes itself for a worker")
    require(given == config, "the given configuration was changed to {}", given)
    ctx.state(cpu, gpu, str(num_actors), str(per), str(config), device)


OPS = ("evaluate", "kill", "pickle", "clone", "call all", "gradients")


class Plain(Problem):
    def who(self):
        return self.actor_index


def history_case(ctx, ops, num_actors, per, config):
    """Workers appear when needed, in the planned number, and only once."""
    w = fakeray.reset()
    w.resources = {"CPU": 3.0, "GPU": 3.0}
    n = 3 if num_actors in ("max", "num_gpus") else num_actors
    p = Plain("min", f, solution_length=2, initial_bounds=(-1, 1), num_actors=num_actors, num_gpus_per_actor=per, actor_config=config, seed=1)
    total = alive = killed = 0
    from evotorch.distributions import SeparableGaussian

    for op in ops:
        if op == "evaluate":
            b = p.generate_batch(4)
            p.evaluate(b)
            require(torch.equal(b.evals[:, 0], b.values.sum(dim=1)), "wrong evaluations")
        elif op == "gradients":
            p.sample_and_compute_gradients(SeparableGaussian({"mu": torch.zeros(2), "sigma": torch.ones(2)}), 4, ranking_method="centered")
        elif op == "call all":
            got = p.all_remote_problems().who()
            require(got == list(range(n)), "workers answered {}", got)
        elif op == "kill":
            p.kill_actors()
        elif op == "pickle":
            p = pickle.loads(pickle.dumps(p))
        else:
            p = p.clone()
        if op in ("evaluate", "gradients", "call all") and alive == 0:
            alive = n
            total += n
        elif op == "kill":
            killed += alive
            alive = 0
        elif op in ("pickle", "clone"):
            alive = 0  # the copy has no workers of its own yet
        require(p.num_actors == n, "{} workers are planned after {}", p.num_actors, op)
        require((0 if p.actors is None else len(p.actors)) == alive, "the problem has {} workers after {}, expected {}", p.actors, op, alive)
        require(len(w.actors) == total, "{} workers were created so far, expected {}", len(w.actors), total)
        require(w.killed == killed, "{} workers were killed so far, expected {}", w.killed, killed)
        ctx.step()
        ctx.state(ops, op, alive, total)
    first = options_of(w.actors[0]) if w.actors else None
    for a in w.actors:
        require(options_of(a) == first, "later workers were created with {}, the first ones with {}", a.opts, first)


def visible_case(ctx, per, set_before):
    """Only with "all" the worker is given sight of every GPU."""
    old = os.environ.get("CUDA_VISIBLE_DEVICES")
    try:
        if set_before:
            os.environ["CUDA_VISIBLE_DEVICES"] = "0"
        else:
            os.environ.pop("CUDA_VISIBLE_DEVICES", None)
        w = fakeray.reset()
        w.resources = {"CPU": 2.0, "GPU": 2.0}
        p = Problem("min", f, solution_length=2, initial_bounds=(-1, 1), num_actors=2, num_gpus_per_actor=per, seed=1)
        require(("CUDA_VISIBLE_DEVICES" in os.environ) == set_before, "the main process' view of the GPUs was changed")
        p.evaluate(p.generate_batch(2))
        now = "CUDA_VISIBLE_DEVICES" in os.environ
        require(now == (set_before and per != "all"), "with {} the worker's restriction of the GPUs is {}", per, "kept" if now else "removed")
    finally:
        if old is None:
            os.environ.pop("CUDA_VISIBLE_DEVICES", None)
        else:
            os.environ["CUDA_VISIBLE_DEVICES"] = old
    ctx.step()
    ctx.state(str(per), set_before)


def run(ctx):
    for cpu in CPUS + ((4.0, 1.5) if ctx.thorough else ()):
        for gpu in GPUS + ((3.0, 2.5) if ctx.thorough else ()):
            for num_actors in ACTORS:
                for per in PER:
                    for config in CONFIGS:
                        for device in (None, "cpu", "meta") if config is None else (None, "meta"):
                            ctx.case("requests", f"{cpu} {gpu} {num_actors} {per} {config} {device}", request_case, ctx, cpu, gpu, num_actors, per, config, device)
    depth = 4 if ctx.thorough else 3
    for ops in itertools.product(OPS, repeat=depth):
        for num_actors, per, config in ((2, None, None), (3, 0.5, {"num_cpus": 1}), ("max", "max", None), ("num_gpus", None, {"num_cpus": 0.5})):
            ctx.case("histories", f"{ops} {num_actors} {per}", history_case, ctx, ops, num_actors, per, config)
    for per in (None, 1, "max", "all"):
        for s in (True, False):
            ctx.case("visible GPUs", f"{per} {s}", visible_case, ctx, per, s)
