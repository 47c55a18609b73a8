"""P02: distributed gradient estimation, all completion orders."""

import math

import torch
from evotorch import Problem
from evotorch.algorithms import CEM, PGPE, SNES, XNES
from evotorch.distributions import ExpGaussian, ExpSeparableGaussian, SeparableGaussian, SymmetricSeparableGaussian

from mc import fakeray, ref
from mc.ctx import Violation, require
from mc.util import plain, product, require_same

META = {
    "bounds": "2-3 workers, populations 1..8, default/num_subbatches/subbatch_size splits, 4 distribution kinds, all ranking methods, both averaging modes, adaptive sampling thresholds, up to 2 generations, all completion orders",
    "assumptions": ["workers do not communicate with each other", "a worker handles its calls in FIFO order"],
}

LOG = {}
L = 2


def fitness(xs):
    # distinct fitnesses almost surely; not symmetric
    return (xs[:, 0] - 0.3) ** 2 + 2.0 * (xs[:, 1] + 0.7) ** 2 + 0.1 * xs[:, 0]


class Prob(Problem):
    """A problem whose workers count interactions: 2 per evaluated solution."""

    def __init__(self, sense, nobj=1, **kw):
        self.count = 0
        senses = sense if nobj == 1 else ["min", sense]
        super().__init__(senses, solution_length=L, initial_bounds=(-1, 1), **kw)

    def _evaluate_batch(self, batch):
        xs = plain(batch.values)
        w = fakeray.world()
        LOG.setdefault((w.in_actor, w.num_calls), []).append(xs)
        self.count += 2 * len(xs)
        f = fitness(xs)
        if len(self.senses) == 1:
            batch.set_evals(f)
        else:
            batch.set_evals(torch.stack([torch.arange(len(xs)).to(f) * 3 - f, f], dim=1))

    def _get_local_interaction_count(self):
        return self.count


DISTS = {
    "sep": SeparableGaussian,
    "sym": SymmetricSeparableGaussian,
    "expsep": ExpSeparableGaussian,
    "exp": ExpGaussian,
}


def params_of(kind):
    p = {"mu": torch.tensor([0.5, -0.25]), "sigma": torch.tensor([0.8, 1.5])}
    if kind in ("sep", "sym"):
        by = "num_directions" if kind == "sym" else "num_solutions"
        p["divide_mu_grad_by"] = by
        p["divide_sigma_grad_by"] = by
    if kind == "exp":
        p["sigma"] = torch.tensor([[0.8, 0.1], [0.1, 1.5]])
    return p


def match(got, want, what):
    """The two lists of gradient dictionaries agree up to their order."""
    left = list(want)
    for g in got:
        for i, w in enumerate(left):
            if set(g["gradients"]) == set(w["gradients"]) and all(
                torch.allclose(ref.t64(g["gradients"][k]), w["gradients"][k], rtol=1e-3, atol=1e-4)
                for k in w["gradients"]
            ):
                if g["num_solutions"] == w["num_solutions"] and abs(g["mean_eval"] - w["mean_eval"]) < 1e-3:
                    del left[i]
                    break
        else:
            raise Violation(f"{what}: a reported result corresponds to no worker's samples: {g}; expected {want}")
    require(not left, "%s: results of some workers are missing: %s", what, left)


def task_results(kind, p, method, sense):
    out = []
    for key, pieces in LOG.items():
        xs = torch.cat(pieces)
        f = fitness(xs)
        out.append(
            {
                "gradients": ref.gradient(kind, p, xs, f, method, sense),
                "num_solutions": len(xs),
                "mean_eval": float(f.mean()),
                "rounds": len(pieces),
                "share": len(pieces[0]),
            }
        )
    return out


def run_shares(ctx, d):
    def run(chooser):
        fakeray.reset(chooser)
        LOG.clear()
        torch.manual_seed(3)
        kw = {"num_actors": d["actors"]}
        if d["sub"] is not None:
            kw[d["sub"][0]] = d["sub"][1]
        prob = Prob(d["sense"], d.get("nobj", 1), **kw)
        even = d["kind"] == "sym"
        p = params_of(d["kind"])
        dist = DISTS[d["kind"]](dict(p), dtype=torch.float32)
        args = {}
        if d.get("inter") is not None:
            args = {"num_interactions": d["inter"], "popsize_max": d["pmax"]}
        if d.get("nobj", 1) > 1:
            args["obj_index"] = 1
        stats = d.get("stats", True)
        res = prob.sample_and_compute_gradients(
            dist, d["n"], ranking_method=d["method"], ensure_even_popsize=even, with_stats=stats, **args
        )
        ctx.step(d["n"])
        want = task_results(d["kind"], p, d["method"], d["sense"])
        if not stats:
            for g in res:
                require(set(g) == set(want[0]["gradients"]), "without stats, only gradients are expected: %s", set(g))
            want = [dict(w, num_solutions=0, mean_eval=0) for w in want]
            res = [{"gradients": g, "num_solutions": 0, "mean_eval": 0} for g in res]
        match(res, want, "remote gradients")
        shares = [w["share"] for w in want]
        if even:
            require(all(s % 2 == 0 for s in shares), "odd share with symmetric sampling: %s", shares)
            require(d["n"] <= sum(shares) <= d["n"] + len(shares), "shares %s for %d samples", shares, d["n"])
            require(max(shares) - min(shares) <= 2, "unbalanced shares %s", shares)
        else:
            require(sum(shares) == d["n"], "shares %s for %d samples", shares, d["n"])
            require(max(shares) - min(shares) <= 1, "unbalanced shares %s", shares)
        for key, pieces in LOG.items():
            share, m = len(pieces[0]), len(pieces)
            require(all(len(x) == share for x in pieces), "rounds of different sizes: %s", [len(x) for x in pieces])
            if even:
                for x in pieces:
                    mid = (x[0::2] + x[1::2]) / 2
                    require_same(mid, p["mu"].expand_as(mid), "mirror pairs", 1e-5)
            if d.get("inter") is None:
                require(m == 1, "%d rounds of sampling without an interaction threshold", m)
                continue
            t = d["inter"] * share / d["n"]
            done = 2 * share * m
            before = 2 * share * (m - 1)
            cap = math.inf if d["pmax"] is None else math.ceil(d["pmax"] * share / d["n"])
            require(done >= t or share * m >= cap, "stopped after %d interactions, threshold %g", done, t)
            require(m == 1 or before <= math.ceil(t), "went on after %d interactions, threshold %g", before, t)
            require(m == 1 or share * (m - 1) < cap, "went on beyond the maximum population size %s", cap)
        ctx.state(d["kind"], sorted(shares), [sorted(x["mean_eval"] for x in want)])
        return [r["mean_eval"] for r in res]

    return run


ALGS = {
    "pgpe": (PGPE, "sym", {"divide_mu_grad_by": "num_directions", "divide_sigma_grad_by": "num_directions"}, "centered"),
    "pgpe_nonsym": (
        PGPE,
        "sep",
        {"divide_mu_grad_by": "num_solutions", "divide_sigma_grad_by": "num_solutions"},
        "centered",
    ),
    "snes": (SNES, "expsep", {}, "nes"),
    "cem": (CEM, "sep", {"parenthood_ratio": 0.5}, None),
    "xnes": (XNES, "exp", {}, "nes"),
}


def run_step(ctx, d):
    def run(chooser):
        fakeray.reset(chooser)
        LOG.clear()
        torch.manual_seed(5)
        cls, kind, extra, method = ALGS[d["alg"]]
        prob = Prob(d["sense"], num_actors=d["actors"])
        kw = {"popsize": d["n"], "distributed": True, "popsize_weighted_grad_avg": d["weighted"]}
        kw["center_init"] = torch.tensor([0.5, -0.25])
        kw["stdev_init"] = torch.tensor([0.8, 1.5])
        if d.get("inter"):
            kw["num_interactions"] = d["inter"]
            kw["popsize_max"] = 3 * d["n"]
        lr_mu = lr_sigma = 1.0
        opt = None
        change = None
        if d["alg"] == "cem":
            kw["parenthood_ratio"] = 0.5
        else:
            lr_mu, lr_sigma = 0.4, 0.3
            kw["center_learning_rate"], kw["stdev_learning_rate"] = lr_mu, lr_sigma
        if d["alg"] in ("snes", "xnes"):
            kw["scale_learning_rate"] = False
        if d["alg"].startswith("pgpe"):
            change = 0.2
            kw["symmetric"] = d["alg"] == "pgpe"
            kw["optimizer"] = d["opt"]
            opt = {"clipup": ref.RefClipUp(lr_mu), "adam": ref.RefAdam(lr_mu), None: None}[d["opt"]]
        alg = cls(prob, **kw)
        mu, sigma = kw["center_init"], kw["stdev_init"]
        for step in range(d.get("steps", 1)):
            LOG.clear()
            alg.step()
            ctx.step(d["n"])
            p = dict(extra, mu=mu, sigma=sigma)
            rs = task_results(kind, p, method, d["sense"])
            total = sum(r["num_solutions"] for r in rs)
            weighted = d["weighted"] if d["weighted"] is not None else d.get("inter") is None
            avg = {}
            for r in rs:
                w = r["num_solutions"] / total if weighted else 1 / len(rs)
                for k, g in r["gradients"].items():
                    avg[k] = avg.get(k, 0) + w * g
            new_mu, new_sigma = ref.update(kind, p, avg, lr_mu, lr_sigma, opt)
            if change is not None:
                new_sigma = ref.limit(sigma, new_sigma, change=change)
            require_same(plain(alg.status["center"]), new_mu, "center after the step", 1e-4)
            require_same(plain(alg.status["stdev"]), new_sigma, "spread after the step", 1e-4)
            mean = sum(r["mean_eval"] * r["num_solutions"] for r in rs) / total
            require(abs(alg.status["mean_eval"] - mean) < 1e-3, "mean_eval %s, expected %s", alg.status["mean_eval"], mean)
            mu, sigma = plain(alg.status["center"]), plain(alg.status["stdev"])
            ctx.state(d["alg"], mu, sigma)
        return "done"  # order independence is implied by the comparison with the reference

    return run


def run(ctx):
    actors = [2, 3, 4] if ctx.thorough else [2, 3]
    nmax = 9 if ctx.thorough else 7
    for kind, sense, a in [(k, s, a) for k in DISTS for s in ("min", "max") for a in actors]:
        for n in range(1, nmax + 1):
            subs = [None]
            subs += [("num_subbatches", k) for k in (1, 2, 4)]
            subs += [("subbatch_size", k) for k in (1, 2, 3) if n % k == 0 and (k % 2 == 0 or kind != "sym")]
            for s in subs:
                # with a single sample per task, the raw fitness is the only usable shaping
                methods = ["raw"] if kind != "expsep" else ["nes"]
                small = min(n // a if s is None else (n // s[1] if s[0] == "num_subbatches" else s[1]), n)
                if small >= 2 and kind != "expsep":
                    methods += ["nes"]
                if kind == "sym" or small >= 2:
                    methods += ["centered"]
                if sense == "min" and s is None and small >= 2:
                    methods += ["linear", "normalized"]
                for m in methods:
                    d = {"kind": kind, "sense": sense, "actors": a, "n": n, "sub": s, "method": m}
                    ctx.explore("shares", d, run_shares(ctx, d))
    for d in product(kind=["sep", "sym"], sense=["max"], actors=[2, 3], n=[6, 7], sub=[None], method=["centered"], nobj=[2]):
        ctx.explore("objective_index", d, run_shares(ctx, d))
    for d in product(kind=["sep", "expsep"], sense=["min"], actors=[2, 3], n=[6], sub=[None], method=["nes"], stats=[False]):
        ctx.explore("without_stats", d, run_shares(ctx, d))
    for d in product(
        kind=["sep", "sym"],
        sense=["min"],
        actors=[2, 3],
        n=[4, 5, 6],
        sub=[None, ("num_subbatches", 2)],
        method=["raw"],
        inter=[1, 9, 15, 27],
        pmax=[None, 6, 11],
    ):
        ctx.explore("adaptive", d, run_shares(ctx, d))
    for alg in ALGS:
        for d in product(
            alg=[alg],
            sense=["min", "max"],
            actors=[2, 3],
            n=[4, 6, 8] if alg != "cem" else [8, 12, 14],
            weighted=[None, True, False],
            opt=[None, "clipup", "adam"] if alg.startswith("pgpe") else [None],
            inter=[None, 19],
        ):
            if d["n"] // d["actors"] < (2 if alg != "cem" else 4):
                continue
            if d["inter"] and d["sense"] == "max":
                continue
            ctx.explore("steps", d, run_step(ctx, d))
        d = {"alg": alg, "sense": "min", "actors": 2, "n": 8, "weighted": None, "opt": None, "inter": None, "steps": 2}
        ctx.explore("two_generations", d, run_step(ctx, d))
        d = dict(d, sense="max", n=10, weighted=True)
        ctx.explore("two_generations", d, run_step(ctx, d))
