"""P16: distribution-based searches obey their step rule and spread limits at every step."""

import itertools
import math

import torch
from evotorch import Problem
from evotorch.algorithms import CEM, PGPE, SNES, XNES

from mc import ref, rng
from mc.ctx import require
from mc.util import plain, raises, require_same

META = {
    "bounds": "PGPE, SNES, CEM, XNES over 4 (thorough 5) generations with 4-6 samples in 2 dimensions; all optimizers, rankings, both senses, limits as scalar and vector; every answer of the normal source from a 4-value domain with up to 1 (thorough 2) non-default ones",
    "assumptions": [
        "a relative-change limit and an absolute limit that contradict each other are not combined",
        "floating-point tolerance 1e-4 relative",
    ],
}


def fitness(x):
    a, b = x[..., 0], x[..., 1]
    return a * a * 1.5 - b * 3.0 + a * b * 0.7 + torch.sin(3 * b)


class Prob(Problem):
    def __init__(self, sense, dtype="float64", nobj=1, seed=None):
        senses = sense if nobj == 1 else ["max", sense]
        super().__init__(senses, solution_length=2, initial_bounds=(-1.0, 1.5), dtype=dtype, eval_dtype=dtype, seed=seed)
        self.interactions = 0
        self.per_solution = 3
        self.after_eval_hook.append(self.report)

    def report(self, batch):
        return {"total_interaction_count": self.interactions}

    def _evaluate_batch(self, batch):
        f = fitness(batch.values)
        self.interactions += self.per_solution * len(batch)
        if len(self.senses) == 2:
            f = torch.stack([-f * 2 + 1, f], dim=1)
        batch.set_evals(f)


KIND = {"pgpe": "sym", "pgpe1": "sep", "snes": "expsep", "cem": "sep", "xnes": "exp"}


def build(alg, prob, conf):
    conf = dict(conf)
    if alg in ("pgpe", "pgpe1"):
        return PGPE(prob, symmetric=alg == "pgpe", **conf)
    return {"snes": SNES, "cem": CEM, "xnes": XNES}[alg](prob, **conf)


def ref_optimizer(conf, lr, default):
    name = conf.get("optimizer", default)
    oc = conf.get("optimizer_config") or {}
    if name is None:
        return None
    if name == "adam":
        return ref.RefAdam(lr, b1=oc.get("beta1", 0.9), b2=oc.get("beta2", 0.999))
    if name == "clipup":
        return ref.RefClipUp(lr, momentum=oc.get("momentum", 0.9), max_speed=oc.get("max_speed"))
    if name == "sgd":
        return ref.RefSGD(lr, momentum=oc.get("momentum", 0.0))
    raise AssertionError(name)


def expected_setup(alg, conf, popsize):
    """(gradient options, ranking, center lr, stdev lr, optimizer, limits) from the documentation."""
    n = 2
    if alg in ("pgpe", "pgpe1"):
        div = "num_directions" if alg == "pgpe" else "num_solutions"
        opts = {"divide_mu_grad_by": div, "divide_sigma_grad_by": div}
        lr, slr = conf["center_learning_rate"], conf["stdev_learning_rate"]
        rank = conf.get("ranking_method", "centered")
        opt = ref_optimizer(conf, lr, "clipup")
        change = conf.get("stdev_max_change", 0.2)
    elif alg == "cem":
        opts = {"parenthood_ratio": conf["parenthood_ratio"]}
        lr = slr = 1.0
        rank, opt = None, None
        change = conf.get("stdev_max_change")
    else:
        opts = {}
        lr = conf.get("center_learning_rate", 1.0)
        if alg == "snes":
            slr0 = 0.2 * (3 + math.log(n)) / math.sqrt(n)
        else:
            slr0 = 0.6 * (3 + math.log(n)) / (n * math.sqrt(n))
        slr = conf.get("stdev_learning_rate")
        if slr is None:
            slr = slr0
        elif conf.get("scale_learning_rate", True):
            slr = slr * slr0
        rank = conf.get("ranking_method", "nes")
        opt = ref_optimizer(conf, lr, None)
        change = conf.get("stdev_max_change")
    return opts, rank, lr, slr, opt, (conf.get("stdev_min"), conf.get("stdev_max"), change)


def vec(x):
    return None if x is None else torch.tensor(x, dtype=torch.float64)


def search(ctx, alg, conf, sense, steps, dtype="float64", nobj=1, change_lr=False):
    def run(chooser):
        prob = Prob(sense, dtype=dtype, nobj=nobj)
        c = dict(conf)
        if nobj == 2:
            c["obj_index"] = 1
        o = rng.Oracle(chooser)
        with rng.active(o):
            s = build(alg, prob, c)
            opts, rank, lr, slr, opt, (lo, hi, change) = expected_setup(alg, conf, None)
            tol = 1e-6 if dtype == "float64" else 2e-4
            mu = vec(conf["center_init"])
            stdev = conf.get("stdev_init")
            if stdev is None:
                stdev = math.sqrt(conf["radius_init"] ** 2 / 2)
            sigma = vec(stdev).expand(2)
            if alg == "xnes":
                sigma = torch.diag(sigma)
            popsize = conf.get("popsize")
            if popsize is None:
                popsize = int(4 + math.floor(3 * math.log(2)))
            prev = None
            log = []
            for t in range(steps):
                if change_lr and t == 2 and opt is not None:
                    s.optimizer.param_groups[0]["lr"] = lr * 0.5
                    opt.lr = lr * 0.5
                mark = len(o.values("normal"))
                s.step()
                if prev is not None:
                    x, f = prev
                    grads = ref.gradient(KIND[alg], {"mu": mu, "sigma": sigma, **opts}, x, f, rank, sense)
                    new_mu, new_sigma = ref.update(KIND[alg], {"mu": mu, "sigma": sigma}, grads, lr, slr, opt)
                    if lo is not None or hi is not None or change is not None:
                        new_sigma = ref.limit(sigma, new_sigma, vec(lo), vec(hi), vec(change))
                        if lo is not None:
                            require(bool((plain(s.status["stdev"]).to(torch.float64) >= vec(lo) - 1e-6).all()), "generation %d: spread %s is below %s", t, s.status["stdev"], lo)
                        if hi is not None:
                            require(bool((plain(s.status["stdev"]).to(torch.float64) <= vec(hi) + 1e-6).all()), "generation %d: spread %s is above %s", t, s.status["stdev"], hi)
                        if change is not None:
                            rel = ((plain(s.status["stdev"]).to(torch.float64) - sigma) / sigma).abs()
                            require(bool((rel <= vec(change) + 1e-4).all()), "generation %d: spread changes by %s", t, rel.tolist())
                    if not bool(torch.isfinite(new_mu).all() and torch.isfinite(new_sigma).all()):
                        return "undefined"
                    mu, sigma = new_mu, new_sigma
                got_mu, got_sigma = plain(s.status["center"]).to(torch.float64), plain(s.status["stdev"]).to(torch.float64)
                require_same(got_mu, mu, f"generation {t}: center", tol=tol)
                require_same(got_sigma, sigma, f"generation {t}: spread", tol=tol)
                mu, sigma = got_mu, got_sigma  # do not let rounding accumulate
                pop = s.population
                require(len(pop) == popsize, "generation %d: %d solutions, not %d", t, len(pop), popsize)
                x = plain(pop.values).to(torch.float64)
                f = plain(pop.evals).to(torch.float64)[:, nobj - 1]
                require_same(f, fitness(x), f"generation {t}: fitnesses of the population", tol=tol)
                # the population is drawn from this very distribution
                A = torch.diag(sigma) if sigma.ndim == 1 else sigma
                scales = torch.linalg.svdvals(A)
                if float(scales.min()) < 1e-3 or float(scales.max()) > 1e3 or float(mu.abs().max()) > 1e3:
                    return log  # collapsed or exploded: nothing can be said with floating-point numbers
                z = torch.linalg.solve(A, (x - mu).T).T
                drawn = o.values("normal")[mark:]
                if alg == "pgpe":
                    require_same(z[0::2], -z[1::2], f"generation {t}: mirror pairs", tol=1e-3)
                    zz, dd = sorted(v for v in z[0::2].abs().reshape(-1).tolist()), sorted(abs(v) for v in drawn)
                else:
                    zz, dd = sorted(z.reshape(-1).tolist()), sorted(drawn)
                require(len(zz) == len(dd), "generation %d: %d noise values for %d elements", t, len(dd), len(zz))
                require_same(torch.tensor(zz), torch.tensor(dd), f"generation {t}: noise behind the population", tol=1e-3)
                me = float(s.status["mean_eval"])
                require(abs(me - float(f.mean())) <= 1e-4 * max(1, abs(me)), "generation %d: mean_eval %s, not %s", t, me, float(f.mean()))
                log.append([got_mu, got_sigma])
                # ranking with ties is open: stop there
                if rank not in (None, "raw", "normalized") and len(set(f.tolist())) < len(f):
                    return log
                if alg == "cem" and len(set(f.tolist())) < len(f):
                    return log
                prev = (x, f)
                ctx.step()
                ctx.state(alg, got_mu, got_sigma)
        return log

    return run


def interactions(alg, conf, per, target, cap):
    """With num_interactions, sub-populations are added until the interactions or the cap are reached."""
    prob = Prob("min", seed=3)
    prob.per_solution = per
    conf = dict(conf)
    ps = conf["popsize"]
    s = build(alg, prob, {**conf, "num_interactions": target, "popsize_max": cap})
    before = 0
    for t in range(4):
        s.step()
        made = prob.interactions - before
        before = prob.interactions
        n = len(s.population)
        require(n % ps == 0 and n >= ps, "%d solutions with sub-populations of %d", n, ps)
        require(made == n * per, "%d solutions reported, %d interactions made", n, made)
        require(s.status["popsize"] == n, "popsize %s reported for %d solutions", s.status["popsize"], n)
        capped = cap is not None and n >= cap
        require(made >= target or capped, "stopped after %d of %d interactions with %d solutions", made, target, n)
        if n > ps:
            less = n - ps
            require(less * per <= target and not (cap is not None and less >= cap), "went on after %d solutions", less)
        x, f = plain(s.population.values), plain(s.population.evals)[:, 0]
        require_same(f, fitness(x), "fitnesses of the joined population", tol=1e-6)
        require(len({tuple(r) for r in x.tolist()}) == n, "sub-populations repeat each other")
        mu, sigma = plain(s.status["center"]), plain(s.status["stdev"])
        if t > 0:
            opts, rank, lr, slr, opt, (lo, hi, change) = setup
            grads = ref.gradient(KIND[alg], {"mu": pmu, "sigma": psigma, **opts}, px, pf, rank, "min")
            wmu, wsig = ref.update(KIND[alg], {"mu": pmu, "sigma": psigma}, grads, lr, slr, opt)
            if change is not None:
                wsig = ref.limit(psigma, wsig, None, None, vec(change))
            require_same(mu, wmu, f"generation {t}: center", tol=1e-6)
            require_same(sigma, wsig, f"generation {t}: spread", tol=1e-6)
        else:
            setup = expected_setup(alg, conf, ps)
        px, pf, pmu, psigma = x, f, mu, sigma


def construction():
    p = Prob("min", dtype="float32")
    base = dict(popsize=4, center_learning_rate=0.1, stdev_learning_rate=0.1)
    bad = {
        "odd": lambda: PGPE(p, **{**base, "popsize": 5}, stdev_init=1.0),
        "no spread": lambda: PGPE(p, **base),
        "both spreads": lambda: PGPE(p, **base, stdev_init=1.0, radius_init=1.0),
        "length": lambda: PGPE(p, **base, stdev_init=[1.0, 1.0, 1.0]),
        "center length": lambda: PGPE(p, **base, stdev_init=1.0, center_init=[1.0, 1.0, 1.0]),
        "bounded": lambda: PGPE(Problem("min", fitness, solution_length=2, bounds=(-1, 1)), **base, stdev_init=1.0),
        "objects": lambda: SNES(Problem("min", fitness, dtype=object), stdev_init=1.0),
        "objective": lambda: SNES(Prob("min", nobj=2), stdev_init=1.0, obj_index=2),
        "no objective": lambda: SNES(Prob("min", nobj=2), stdev_init=1.0),
        "weighting": lambda: PGPE(p, **base, stdev_init=1.0, popsize_weighted_grad_avg=True),
    }
    for k, f in bad.items():
        require(raises(f) is not None, "%s accepted", k)
    for r in (1.0, 4.5):
        s = SNES(p, radius_init=r)
        require_same(plain(s.status["stdev"]), torch.full((2,), math.sqrt(r * r / 2)), "stdev of a radius", tol=1e-5)
    for st in (0.5, [0.5, 2.0]):
        for cls, kw in ((SNES, {}), (CEM, {"popsize": 4, "parenthood_ratio": 0.5})):
            s = cls(p, stdev_init=st, **kw)
            want = torch.tensor(st if isinstance(st, list) else [st, st])
            require_same(plain(s.status["stdev"]), want, "initial spread", tol=1e-6)
            c = plain(s.status["center"])
            require(bool((c >= -1).all() and (c <= 1.5).all()), "initial center %s", c)
    s = XNES(p, stdev_init=[0.5, 2.0], center_init=3.0)
    require_same(plain(s.status["stdev"]), torch.diag(torch.tensor([0.5, 2.0])), "initial spread of XNES", tol=1e-6)
    require_same(plain(s.status["center"]), torch.tensor([3.0, 3.0]), "initial center", tol=1e-6)
    given = torch.tensor([0.25, 0.75])
    s = PGPE(p, **base, stdev_init=1.0, center_init=given)
    s.run(3)
    require_same(given, torch.tensor([0.25, 0.75]), "the given initial center after the run")
    require(not torch.equal(plain(s.status["center"]), given), "the center does not move")


def run(ctx):
    C = {"center_init": [0.5, -0.75]}
    pg = {**C, "popsize": 4, "center_learning_rate": 0.3, "stdev_learning_rate": 0.2, "stdev_init": [0.5, 1.25]}
    confs = {"pgpe": [], "pgpe1": [], "snes": [], "cem": [], "xnes": []}
    for opt in (None, "adam", "clipup", "sgd"):
        for rank in (None, "centered", "linear", "nes", "normalized", "raw"):
            confs["pgpe"].append({**pg, "optimizer": opt, "ranking_method": rank})
    confs["pgpe"].append(pg)
    confs["pgpe"].append({**pg, "popsize": 6, "optimizer": "clipup", "optimizer_config": {"max_speed": 0.35, "momentum": 0.5}})
    confs["pgpe"].append({**pg, "optimizer": "adam", "optimizer_config": {"beta1": 0.5, "beta2": 0.75}})
    confs["pgpe"].append({**pg, "optimizer": "sgd", "optimizer_config": {"momentum": 0.5}})
    lims = [
        {"stdev_max_change": None},
        {"stdev_max_change": 0.05},
        {"stdev_max_change": [0.3, 0.02]},
        {"stdev_max_change": None, "stdev_min": 0.45},
        {"stdev_max_change": None, "stdev_min": [0.49, 1.2]},
        {"stdev_max_change": None, "stdev_max": 1.3},
        {"stdev_max_change": None, "stdev_max": [0.51, 1.26]},
        {"stdev_max_change": 0.1, "stdev_min": 0.48, "stdev_max": [0.6, 1.3]},
        {"stdev_max_change": [0.01, 0.5], "stdev_min": [0.1, 1.2], "stdev_max": 1.3},
    ]
    for lm in lims:
        confs["pgpe"].append({**pg, "stdev_learning_rate": 0.9, **lm})
        confs["pgpe1"].append({**pg, "stdev_learning_rate": 0.9, "optimizer": None, **lm})
        confs["snes"].append({**C, "popsize": 4, "stdev_init": [0.5, 1.25], **lm})
        confs["cem"].append({**C, "popsize": 5, "parenthood_ratio": 0.5, "stdev_init": [0.5, 1.25], **lm})
    for rank in (None, "centered", "nes"):
        confs["pgpe1"].append({**pg, "popsize": 5, "ranking_method": rank})
    for rank in ("nes", "centered", "linear", "normalized", None, "raw"):
        confs["snes"].append({**C, "popsize": 4, "stdev_init": 0.8, "ranking_method": rank})
        confs["xnes"].append({**C, "popsize": 4, "stdev_init": 0.8, "ranking_method": rank})
    for alg in ("snes", "xnes"):
        confs[alg].append({**C, "stdev_init": 0.8})
        confs[alg].append({**C, "radius_init": 1.5, "center_learning_rate": 0.5, "stdev_learning_rate": 0.5})
        confs[alg].append({**C, "stdev_init": [0.5, 2.0], "stdev_learning_rate": 0.3, "scale_learning_rate": False})
        for opt in ("adam", "clipup", "sgd"):
            confs[alg].append({**C, "popsize": 5, "stdev_init": 0.8, "optimizer": opt, "center_learning_rate": 0.4})
    for ratio in (0.4, 0.5, 0.75, 1.0):
        confs["cem"].append({**C, "popsize": 6, "parenthood_ratio": ratio, "radius_init": 2.0})
    steps = 5 if ctx.thorough else 4
    for alg, lst in confs.items():
        for i, conf in enumerate(lst):
            for sense in ("min", "max"):
                desc = {"alg": alg, "conf": conf, "sense": sense}
                ctx.explore("search", desc, search(ctx, alg, conf, sense, steps), bound=2 if ctx.thorough else 1)
        conf = lst[0]
        ctx.explore("float32", {"alg": alg}, search(ctx, alg, conf, "min", steps, dtype="float32"), bound=1)
        ctx.explore("second objective", {"alg": alg}, search(ctx, alg, conf, "max", steps, nobj=2), bound=1)
    for opt in ("adam", "clipup", "sgd"):
        conf = {**pg, "optimizer": opt}
        ctx.explore("new rate", {"optimizer": opt}, search(ctx, "pgpe", conf, "max", steps, change_lr=True), bound=1)
    inter = {
        "pgpe": {**pg, "popsize": 2},
        "pgpe1": {**pg, "popsize": 3, "optimizer": "adam"},
        "snes": {**C, "popsize": 3, "stdev_init": 0.8},
        "cem": {**C, "popsize": 4, "parenthood_ratio": 0.5, "stdev_init": 0.8},
        "xnes": {**C, "popsize": 3, "stdev_init": 0.8},
    }
    for alg, conf in inter.items():
        for per, target, cap in itertools.product((1, 3), (1, 7, 20, 24), (None, 4, 9, 12)):
            ctx.case("interactions", {"alg": alg, "per": per, "target": target, "cap": cap}, interactions, alg, conf, per, target, cap)
    ctx.case("construction", {}, construction)
