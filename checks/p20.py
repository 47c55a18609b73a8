"""P20: CMA-ES follows the published update at every generation."""

import itertools
import math

import torch
from evotorch import Problem
from evotorch.algorithms import CMAES, PyCMAES

from mc import rng
from mc.ctx import require
from mc.util import plain, raises, require_same

META = {
    "bounds": "all rankings of 3..4 solutions over 2 generations and all rankings with up to 2 (thorough 3) departures from the default one over 3 generations of 4..6 solutions, in 1..3 dimensions, full and separable, active or not, both senses, all learning-rate options and spread limits; normal draws from a fixed domain with several default patterns and up to 1 non-default draw",
    "assumptions": [
        "the factor of the covariance used for sampling and for whitening is the lower-triangular one",
        "with separable=True and a stalled path both published weightings of the rank-one term are accepted",
        "floating-point tolerance 1e-4 relative (the recombination weights are computed in single precision)",
    ],
}


class Ranked(Problem):
    """Fitnesses that realise a chosen ranking of each generation's population."""

    def __init__(self, d, sense, nobj=1, dtype="float64"):
        senses = sense if nobj == 1 else ["max", sense]
        super().__init__(senses, solution_length=d, initial_bounds=(-1.0, 1.5), dtype=dtype, eval_dtype=dtype, seed=1)
        self.order = None
        self.calls = 0

    def _evaluate_batch(self, batch):
        self.calls += 1
        n = len(batch)
        order = self.order or list(range(n))
        f = torch.zeros(n, dtype=self.eval_dtype)
        for rank, i in enumerate(order):
            f[i] = rank * 1.5 - 2.0
        sign = 1.0 if self.senses[-1] == "min" else -1.0
        f = f * sign
        if len(self.senses) == 2:
            f = torch.stack([torch.arange(n, dtype=self.eval_dtype), f], dim=1)
        batch.set_evals(f)


def f64(x):
    return torch.as_tensor(x, dtype=torch.float64)


class Ref:
    """The update of the tutorial paper (with the parameter settings of pycma)."""

    def __init__(self, d, conf, popsize):
        lam = popsize
        self.d, self.lam = d, lam
        mu = lam // 2
        raw = [math.log((lam + 1) / 2) - math.log(i + 1) for i in range(lam)]
        pos, neg = raw[:mu], raw[mu:]
        mueff = sum(pos) ** 2 / sum(w * w for w in pos)
        sep = conf.get("separable", False)
        self.sep = sep

        def given(name, default):
            v = conf.get(name)
            return (default() if v is None else v) * conf.get(name + "_ratio", 1.0)

        self.cs = given("c_sigma", lambda: (mueff + 2) / (d + mueff + 3))
        self.ds = given("damp_sigma", lambda: 1 + 2 * max(0, math.sqrt((mueff - 1) / (d + 1)) - 1) + self.cs)
        if sep:
            self.cc = given("c_c", lambda: (1 + 1 / d + mueff / d) / (d**0.5 + 1 / d + 2 * mueff / d))
            self.c1 = given("c_1", lambda: 1 / (d + 2 * math.sqrt(d) + mueff / d))
            self.cmu = given("c_mu", lambda: (0.25 + mueff + 1 / mueff - 2) / (d + 4 * math.sqrt(d) + mueff / 2))
        else:
            self.cc = given("c_c", lambda: (4 + mueff / d) / (d + 4 + 2 * mueff / d))
            self.c1 = given("c_1", lambda: min(1, lam / 6) * 2 / ((d + 1.3) ** 2 + mueff))
            self.cmu = given("c_mu", lambda: min(1 - self.c1, 2 * (0.25 + mueff - 2 + 1 / mueff) / ((d + 2) ** 2 + mueff)))
        self.cm = conf.get("c_m", 1.0)
        self.mueff, self.mu = mueff, mu
        pos = [w / sum(pos) for w in pos]
        if conf.get("active", True):
            mneg = sum(neg) ** 2 / sum(w * w for w in neg)
            alpha = min(1 + self.c1 / self.cmu, 1 + 2 * mneg / (mueff + 2), (1 - self.cmu - self.c1) / (d * self.cmu))
            s = sum(abs(w) for w in neg)
            neg = [alpha * w / s for w in neg]
        else:
            neg = [0.0 for _ in neg]
        self.w = pos + neg
        self.chi = math.sqrt(d) * (1 - 1 / (4 * d) + 1 / (21 * d * d))
        self.squared = conf.get("csa_squared", False)
        self.lo, self.hi = conf.get("stdev_min"), conf.get("stdev_max")
        self.freq = 1
        if conf.get("limit_C_decomposition", True):
            self.freq = max(1, math.floor(1 / (10 * d * max(self.c1 + self.cmu, 1e-9))))

    def start(self, m, sigma):
        I = torch.eye(self.d, dtype=torch.float64)
        z = torch.zeros(self.d, dtype=torch.float64)
        return {"m": f64(m).reshape(-1), "sigma": float(sigma), "C": I, "A": I, "ps": z, "pc": z, "t": 0}

    def next(self, st, X, order):
        """Possible successors of a state, given the population and its ranking (best first)."""
        d = self.d
        A, C = st["A"], st["C"]
        Y = (X - st["m"]) / st["sigma"]
        Z = torch.linalg.solve_triangular(A, Y.T, upper=False).T
        w = torch.zeros(self.lam, dtype=torch.float64)
        for rank, i in enumerate(order):
            w[i] = self.w[rank]
        top = order[: self.mu]
        wt = f64(self.w[: self.mu]).unsqueeze(-1)
        yw = (wt * Y[top]).sum(0)
        zw = (wt * Z[top]).sum(0)
        m = st["m"] + self.cm * st["sigma"] * yw
        ps = (1 - self.cs) * st["ps"] + math.sqrt(self.cs * (2 - self.cs) * self.mueff) * zw
        norm = float(ps.norm())
        e = (norm**2 / d - 1) / 2 if self.squared else norm / self.chi - 1
        sigma = st["sigma"] * math.exp(self.cs / self.ds * e)
        t = st["t"] + 1
        measure = norm**2 / (1 - (1 - self.cs) ** (2 * t)) / d
        limit = 2 + 4 / (d + 1)
        hs = [1.0] if measure < limit - 1e-9 else [0.0] if measure > limit + 1e-9 else [0.0, 1.0]
        out = []
        for h in hs:
            pc = (1 - self.cc) * st["pc"] + h * math.sqrt(self.cc * (2 - self.cc) * self.mueff) * yw
            delta = (1 - h) * self.cc * (2 - self.cc)
            wo = torch.where(w >= 0, w, w * d / (Z * Z).sum(-1).clamp(min=1e-300))
            rmu = torch.einsum("n,ni,nj->ij", wo, Y, Y)
            if self.sep:
                for c1pc in {self.c1, self.c1 * (1 - delta)}:
                    for total in {float(w.sum()), float(wo.sum())}:
                        C2 = (1 - self.c1 * (1 - delta) - self.cmu * total) * C + c1pc * torch.outer(pc, pc) + self.cmu * rmu
                        out.append((torch.diag(torch.diag(C2)), pc))
            else:
                C2 = (1 - self.c1 * (1 - delta) - self.cmu * float(w.sum())) * C + self.c1 * torch.outer(pc, pc) + self.cmu * rmu
                out.append((C2, pc))
        res = []
        for C2, pc in out:
            if self.lo is not None or self.hi is not None:
                sd = sigma * torch.sqrt(torch.diag(C2))
                k = torch.clamp(sd, min=self.lo, max=self.hi) / sd
                C2 = C2 * torch.outer(k, k)
            A2 = A
            if t % self.freq == 0:
                A2 = torch.linalg.cholesky(C2)
            res.append({"m": m, "sigma": sigma, "C": C2, "A": A2, "ps": ps, "pc": pc, "t": t})
        return res


PATTERNS = {
    "mild": (-1.0, 0.5, 1.75, -0.25),
    "one-sided": (1.5, 0.75, 2.0, 1.25, 0.5),
    "wide": (-2.5, 3.0, 0.125, -1.5, 2.25),
}


def search(ctx, d, popsize, conf, sense, steps, pattern, nobj=1, permute=True, free_draws=0, center="list"):
    perms = None

    def go(chooser):
        normals = PATTERNS[pattern]
        prob = Ranked(d, sense, nobj)
        o = rng.Oracle(chooser if free_draws else None, normals=normals, free=None)
        m0 = [0.5, -1.25, 2.0][:d]
        c = dict(conf)
        if nobj == 2:
            c["obj_index"] = 1
        with rng.active(o):
            given = m0
            if center == "tensor":
                given = torch.tensor(m0, dtype=torch.float64)
            elif center == "solution":
                b = prob.generate_batch(1)
                b.set_values(torch.tensor([m0], dtype=torch.float64))
                given = b[0]
            o.draws.clear()
            s = CMAES(prob, stdev_init=0.8, popsize=popsize, center_init=given, **c)
            lam = popsize if popsize is not None else 4 + int(math.floor(3 * math.log(d)))
            require(len(s.population) == lam and s.popsize == lam, "population of %d, expected %d", len(s.population), lam)
            ref = Ref(d, conf, lam)
            beliefs = [ref.start(m0, 0.8)]
            all_perms = list(itertools.permutations(range(lam))) if permute else None
            log = []
            for t in range(steps):
                if all_perms is not None:
                    prob.order = list(all_perms[chooser.choose(len(all_perms), "ranking")])
                else:
                    prob.order = [(i * 2 + t) % lam if lam % 2 else (lam - 1 - i + t) % lam for i in range(lam)]
                mark = len(o.draws)
                calls = prob.calls
                s.step()
                ctx.step()
                require(prob.calls == calls + 1, "%d evaluations in one generation", prob.calls - calls)
                X = plain(s.population.values).to(torch.float64)
                drawn = sorted(v for k, _, vals in o.draws[mark:] if k == "normal" for v in vals)
                # the samples come from the current distribution
                ok = []
                for st in beliefs:
                    Z = torch.linalg.solve_triangular(st["A"], ((X - st["m"]) / st["sigma"]).T, upper=False).T
                    zs = sorted(Z.reshape(-1).tolist())
                    if len(zs) == len(drawn) and all(abs(a - b) < 1e-3 for a, b in zip(zs, drawn)):
                        ok.append(st)
                require(ok, "generation %d: the population is not drawn from mean %s, step size %s, covariance %s", t + 1, beliefs[0]["m"].tolist(), beliefs[0]["sigma"], (beliefs[0]["A"] @ beliefs[0]["A"].T).tolist())
                succ = [n for st in ok for n in ref.next(st, X, prob.order)]
                center_now = plain(s.status["center"]).to(torch.float64)
                sig = s.status["stepsize"]
                require(tuple(center_now.shape) == (d,), "center of shape %s", tuple(center_now.shape))
                good = []
                for n in succ:
                    if torch.allclose(n["m"], center_now, rtol=5e-4, atol=2e-5) and abs(n["sigma"] - sig) <= 5e-4 * n["sigma"]:
                        good.append(n)
                require(good, "generation %d: center %s and step size %s, expected %s and %s", t + 1, center_now.tolist(), sig, succ[0]["m"].tolist(), succ[0]["sigma"])
                beliefs = good
                C = plain(s.C).to(torch.float64)
                if C.ndim == 1:
                    C = torch.diag(C)
                close = [n for n in beliefs if torch.allclose(n["C"], C, rtol=5e-4, atol=2e-5)]
                require(close, "generation %d: covariance %s, expected %s", t + 1, C.tolist(), beliefs[0]["C"].tolist())
                beliefs = close[:1]
                require(torch.allclose(C, C.T, atol=1e-10), "covariance not symmetric")
                require(float(torch.linalg.eigvalsh(C).min()) > -1e-10, "covariance not positive semi-definite: %s", C.tolist())
                sd = sig * torch.sqrt(torch.diag(C))
                lo, hi = conf.get("stdev_min"), conf.get("stdev_max")
                require(lo is None or bool((sd >= lo * (1 - 1e-4)).all()), "standard deviations %s below the limit %s", sd.tolist(), lo)
                require(hi is None or bool((sd <= hi * (1 + 1e-4)).all()), "standard deviations %s above the limit %s", sd.tolist(), hi)
                log.append([center_now.tolist(), sig])
                ctx.state(log[-1])
            return log

    del perms
    return go


def long_limits(ctx, conf, seed, sense):
    """Spread limits over a longer run on a correlated landscape: never an error, always respected."""
    from evotorch import Problem as Pb

    def f(x):
        y = 1000 * x.sum(dim=-1) ** 2 + x[:, 0] - x[:, 1]
        return y if sense == "min" else -y

    p = Pb(sense, f, vectorized=True, solution_length=3, initial_bounds=(-1, 1), seed=seed)
    s = CMAES(p, stdev_init=0.3, **conf)
    for _ in range(25):
        s.step()
        ctx.step()
        C = plain(s.C)
        sd = s.status["stepsize"] * torch.sqrt(C if C.ndim == 1 else torch.diag(C))
        lo, hi = conf.get("stdev_min"), conf.get("stdev_max")
        require(lo is None or bool((sd >= lo * (1 - 1e-3)).all()), "standard deviations %s below %s", sd.tolist(), lo)
        require(hi is None or bool((sd <= hi * (1 + 1e-3)).all()), "standard deviations %s above %s", sd.tolist(), hi)
        require(bool(torch.isfinite(plain(s.population.values)).all()), "non-finite population")


def invariance(ctx, conf, transform, shift):
    """Order-preserving changes of the fitness and a reflected sense leave the search unchanged."""

    def run(f, sense, offset):
        p = Problem(sense, f, vectorized=True, solution_length=2, initial_bounds=(-1, 1), dtype="float64", seed=7)
        s = CMAES(p, stdev_init=0.5, popsize=5, center_init=[0.3 + offset, -0.6 + offset], **conf)
        out = []
        for _ in range(6):
            s.step()
            ctx.step()
            out.append((plain(s.population.values) - offset, s.status["stepsize"]))
        return out

    def base(x):
        return (x[:, 0] - 0.2) ** 2 * 3 + (x[:, 1] + 0.4) ** 2 + 0.3 * x[:, 0] * x[:, 1]

    a = run(base, "min", 0.0)
    if transform == "negated":
        b = run(lambda x: -base(x), "max", 0.0)
    elif transform == "exp":
        b = run(lambda x: torch.exp(base(x)), "min", 0.0)
    elif transform == "shifted":
        b = run(lambda x: base(x - shift), "min", shift)
    for (x, s1), (y, s2) in zip(a, b):
        require_same(x, y, f"population under a {transform} fitness", 1e-6)
        require(abs(s1 - s2) < 1e-6, "step size under a %s fitness", transform)


def construction(ctx):
    mk = lambda **kw: Problem("min", lambda x: x.sum(-1), vectorized=True, initial_bounds=(-1, 1), seed=1, **kw)
    for d in (1, 2, 5, 12):
        s = CMAES(mk(solution_length=d), stdev_init=1.0)
        want = 4 + int(math.floor(3 * math.log(d)))
        require(len(s.population) == want, "default population size %d for length %d, expected %d", len(s.population), d, want)
        s.run(2)
        ctx.step(2)
    p = mk(solution_length=3)
    require(raises(CMAES, p, stdev_init=1.0, center_init=[1.0, 2.0]) is not None, "a center of the wrong length was accepted")
    require(raises(CMAES, p, stdev_init=1.0, center_init=[[1.0, 2.0, 3.0], [1.0, 2.0, 3.0]]) is not None, "a matrix was accepted as center")
    q = Problem("min", lambda x: x.sum(-1), vectorized=True, bounds=(-1, 1), solution_length=2)
    require(raises(CMAES, q, stdev_init=1.0) is not None, "a bounded problem was accepted")
    x = torch.tensor([0.5, 1.0, 1.5])
    s = CMAES(p, stdev_init=1.0, center_init=x)
    s.run(3)
    require(x.tolist() == [0.5, 1.0, 1.5], "the given center was changed")


def pycma(ctx, conf, sense, nobj, bounds):
    """PyCMAES hands each population with the right scores to the wrapped strategy."""
    seen = []

    class P(Problem):
        def __init__(self):
            kw = {"bounds": bounds} if bounds and None not in bounds else {"initial_bounds": (0.3, 0.6) if bounds else (-1.0, 1.5)}
            super().__init__(sense if nobj == 1 else ["max", sense], solution_length=3, seed=5, **kw)

        if bounds and None in bounds:  # bounded on one side only
            lower_bounds = property(lambda self: None if bounds[0] is None else torch.full((3,), bounds[0]))
            upper_bounds = property(lambda self: None if bounds[1] is None else torch.full((3,), bounds[1]))

        def _evaluate_batch(self, batch):
            x = batch.values
            f = (x - 0.4).pow(2).sum(-1)
            f = f if sense == "min" else -f
            seen.append(plain(x).clone())
            batch.set_evals(f if nobj == 1 else torch.stack([x[:, 0], f], dim=1))

    def go():
        seen.clear()
        c = dict(conf)
        if nobj == 2:
            c["obj_index"] = 1
        s = PyCMAES(P(), stdev_init=0.4, **c)
        lo = float("inf")
        for _ in range(8):
            s.step()
            ctx.step()
            x = plain(s.population.values)
            require_same(x, seen[-1], "population of PyCMAES")
            if bounds:
                require(bounds[0] is None or bool((x >= bounds[0]).all()), "population below the bounds")
                require(bounds[1] is None or bool((x <= bounds[1]).all()), "population above the bounds")
            if "popsize" in conf:
                require(len(x) == conf["popsize"], "population size %d", len(x))
            f = (x - 0.4).pow(2).sum(-1)
            lo = min(lo, float(f.min()))
            c_now = plain(s.status["center"])
            require(tuple(c_now.shape) == (3,) and bool(torch.isfinite(c_now).all()), "center %s", c_now)
        for _ in range(40):
            s.step()
            ctx.step()
        d = float((plain(s.status["center"]) - 0.4).norm())
        require(d < 0.1, "after 48 generations on a sphere the center is %.3f away from the optimum", d)
        return [x.tolist() for x in seen]

    torch.manual_seed(0)
    a = go()
    b = go()
    require(a == b, "two equally seeded runs of PyCMAES differ")


def run(ctx):
    base_confs = [
        {},
        {"separable": True},
        {"active": False},
        {"separable": True, "active": False},
        {"csa_squared": True},
        {"c_m": 0.5},
    ]
    more = [
        {"c_sigma": 0.4},
        {"c_sigma_ratio": 0.5},
        {"damp_sigma": 1.7},
        {"damp_sigma_ratio": 0.6},
        {"c_c": 0.35},
        {"c_c_ratio": 0.7},
        {"c_1": 0.1},
        {"c_1_ratio": 0.5},
        {"c_mu": 0.15},
        {"c_mu_ratio": 0.4},
        {"c_1": 0.05, "c_mu": 0.2, "c_c": 0.5, "c_sigma": 0.3, "damp_sigma": 1.2},
        {"c_1_ratio": 0.05, "c_mu_ratio": 0.05},
        {"c_1_ratio": 0.05, "c_mu_ratio": 0.05, "limit_C_decomposition": False},
        {"c_1_ratio": 0.05, "c_mu_ratio": 0.05, "separable": True},
        {"limit_C_decomposition": False},
        {"stdev_min": 0.7},
        {"stdev_max": 0.85},
        {"stdev_min": 0.75, "stdev_max": 0.82},
        {"stdev_min": 0.75, "stdev_max": 0.82, "separable": True},
        {"stdev_max": 0.3, "c_m": 0.8, "active": False},
        {"separable": True, "c_1": 0.2, "c_mu": 0.2, "c_c": 0.4},
    ]
    for conf in base_confs:
        for d, lam in ((1, 4), (2, 3), (2, 4), (3, 4)):
            for sense in ("min", "max"):
                desc = {"d": d, "popsize": lam, "conf": conf, "sense": sense, "pattern": "mild"}
                ctx.explore("all rankings", desc, search(ctx, d, lam, conf, sense, 2, "mild"), bound=None)
    for conf in base_confs + more:
        for d, lam in ((2, 5), (3, 4)) + (((3, 6),) if ctx.thorough else ()):
            for pattern in PATTERNS:
                sense = "min" if d == 2 else "max"
                desc = {"d": d, "popsize": lam, "conf": conf, "sense": sense, "pattern": pattern}
                ctx.explore("rankings over generations", desc, search(ctx, d, lam, conf, sense, 3, pattern), bound=2 if ctx.thorough and lam < 5 else 1)
                desc = {"d": d, "popsize": lam + 2, "conf": conf, "sense": sense, "pattern": pattern, "free draws": True}
                if ctx.thorough or conf in base_confs or pattern == "wide":
                    ctx.explore("draws", desc, search(ctx, d, lam + 2, conf, sense, 3, pattern, permute=False, free_draws=1), bound=1)
                desc = {"d": d, "conf": conf, "sense": sense, "pattern": pattern, "steps": 8}
                ctx.explore("long", desc, search(ctx, d, None, conf, sense, 8, pattern, permute=False, center="tensor" if d == 2 else "solution"), bound=0)
    for conf in base_confs:
        desc = {"conf": conf, "second": True}
        ctx.explore("second objective", desc, search(ctx, 2, 4, conf, "max", 2, "mild", nobj=2), bound=1)
    for conf in ({"stdev_max": 0.2}, {"stdev_max": 0.5}, {"stdev_min": 0.3, "stdev_max": 0.4}, {"stdev_min": 0.25}, {"stdev_max": 0.2, "separable": True}):
        for seed in range(8):
            for sense in ("min", "max"):
                ctx.case("limits over a long run", {"conf": conf, "seed": seed, "sense": sense}, long_limits, ctx, conf, seed, sense)
    for conf in base_confs + more:
        for transform in ("negated", "exp", "shifted"):
            ctx.case("invariance", {"conf": conf, "transform": transform}, invariance, ctx, conf, transform, 2.0)
    for conf in ({}, {"popsize": 5}, {"separable": True}, {"stdev_max": 0.6}, {"stdev_min": 0.001}, {"center_init": [0.0, 1.0, -1.0]}):
        for sense, nobj, bounds in itertools.product(("min", "max"), (1, 2), (None, (-1.5, 2.0), (0.2, None), (None, 0.7))):
            if bounds and None in bounds and "center_init" in conf:
                continue  # outside of these bounds
            ctx.case("pycma", {"conf": conf, "sense": sense, "nobj": nobj, "bounds": bounds}, pycma, ctx, conf, sense, nobj, bounds)
    ctx.case("construction", {}, construction, ctx)
