"""P15: search distributions sample around their own center and estimate the documented gradients."""

import itertools
import math

import torch
from evotorch.distributions import (
    ExpGaussian,
    ExpSeparableGaussian,
    SeparableGaussian,
    SymmetricSeparableGaussian,
    make_functional_grad_estimator,
    make_functional_sampler,
)
from evotorch.optimizers import SGD, Adam, ClipUp

from mc import ref, rng
from mc.ctx import require
from mc.util import plain, raises, require_same

META = {
    "bounds": "populations of 2..4 samples in 2 dimensions, all samples on a 2- or 3-point noise grid, all fitness orders, both senses, all rankings, divisors and parenthood ratios; sampling with all answers of the normal source from a 4-value domain (up to 2 non-default ones); gradients batched over up to 2 extra dimensions; functional samplers and estimators called with every combination of positional and named parameters",
    "assumptions": ["floating-point tolerance 1e-4 relative"],
}

CLS = {"sep": SeparableGaussian, "sym": SymmetricSeparableGaussian, "expsep": ExpSeparableGaussian, "exp": ExpGaussian}

MU = [0.5, -1.0]
SIGMA = {"vec": [0.5, 2.0], "one": [1.0, 1.0], "mat": [[1.0, 0.5], [-0.25, 2.0]]}
METHODS = (None, "raw", "centered", "linear", "nes", "normalized")
DIVS = (None, "num_solutions", "num_directions", "total_weight", "weight_stdev")


def params(kind, sig, dtype=torch.float64, **kw):
    s = torch.tensor(SIGMA[sig], dtype=dtype)
    return {"mu": torch.tensor(MU, dtype=dtype), "sigma": s, **kw}


def scale(mu, sigma, z):
    if sigma.ndim == 2:
        return mu + z @ sigma.T
    return mu + z * sigma


def close(got, want, what):
    for k, v in want.items():
        require(k in got, "%s: no gradient for %s, only %s", what, k, sorted(got))
        require_same(plain(got[k]).to(torch.float64), v, f"{what}: gradient for {k}", tol=1e-4 if got[k].dtype == torch.float32 else 1e-7)
    require(set(got) == set(want), "%s: gradients for %s", what, sorted(got))


def symmetric(z):
    return torch.stack([z, -z], dim=1).reshape(-1, z.shape[-1])


def gradients(ctx, kind, sig, opts, zs, fit_list, methods, dtype=torch.float64):
    for z in zs:
        z = torch.tensor(z, dtype=dtype).reshape(-1, 2)
        if kind == "sym":
            z = symmetric(z)
        p = params(kind, sig, dtype, **opts)
        dist = CLS[kind](dict(p))
        x = scale(p["mu"], p["sigma"], z)
        n = len(x)
        for fits in fit_list:
            f = torch.tensor(fits, dtype=dtype)
            for method in methods:
                if method == "normalized" and len(set(fits)) < 2:
                    continue
                for sense in ("max", "min"):
                    x0 = x.clone()
                    got = dist.compute_gradients(x0, f.clone(), objective_sense=sense, ranking_method=method)
                    want = ref.gradient(kind, p, x, f, method, sense)
                    if any(not bool(torch.isfinite(v).all()) for v in want.values()):
                        continue  # no weight at all: the estimator is undefined
                    what = f"{kind} {opts} {method}/{sense} samples {x.tolist()} fitnesses {fits}"
                    close(got, want, what)
                    require_same(x0, x, "the samples after the gradient estimation")
                    other = "min" if sense == "max" else "max"
                    neg = dist.compute_gradients(x0, -f, objective_sense=other, ranking_method=method)
                    close(neg, {k: plain(v).to(torch.float64) for k, v in got.items()}, what + " reversed")
                    ctx.step(2)
                    ctx.state(kind, opts, method, sense, fits, z)
        for k, v in p.items():
            if isinstance(v, torch.Tensor):
                require_same(plain(dist.parameters[k]), torch.diag(v) if kind == "exp" and k == "sigma" and v.ndim == 1 else v, k)


def sampling(ctx, kind, sig, n, dtype, how):
    def run(chooser):
        p = params(kind, sig, dtype)
        dist = CLS[kind](dict(p))
        o = rng.Oracle(chooser)
        gen = torch.Generator()
        with rng.active(o):
            if how == "num":
                x = dist.sample(n)
            elif how == "gen":
                x = dist.sample(n, generator=gen)
            else:
                out = torch.full((n, 2), 99.0, dtype=dtype)
                x = dist.sample(out=out)
                require(x is out, "sample(out=...) returns another tensor")
        require(x.shape == (n, 2) and x.dtype == dtype, "samples %s %s", tuple(x.shape), x.dtype)
        A = torch.diag(p["sigma"]) if p["sigma"].ndim == 1 else p["sigma"]
        z = torch.linalg.solve(A.to(torch.float64), (plain(x).to(torch.float64) - p["mu"].to(torch.float64)).T).T
        drawn = o.values("normal")
        if kind == "sym":
            require_same(z[0::2], -z[1::2], f"mirror pairs of {z.tolist()}", tol=1e-5)
            used = z[0::2].reshape(-1)
        else:
            used = z.reshape(-1)
        got = sorted(used.tolist())
        want = sorted(drawn)
        if kind == "sym":
            # either end of a pair may be the drawn one
            got, want = sorted(abs(v) for v in got), sorted(abs(v) for v in want)
        require(len(want) == len(got), "%d numbers were drawn for %d elements", len(want), len(got))
        require_same(torch.tensor(got), torch.tensor(want), f"{kind}: standardized samples {z.tolist()} of noises {drawn}", tol=1e-5)
        if how == "gen":
            gens = [g for k, g, v in o.draws if k == "normal"]
            require(all(g is gen for g in gens), "the given generator is not used: %s", gens)
        require_same(plain(dist.parameters["mu"]), p["mu"], "mu after sampling")
        ctx.step()
        ctx.state(kind, z)
        return plain(x)

    return run


def updates(ctx, kind, sig, dtype):
    """update_parameters: learning rates and optimizers."""
    p = params(kind, sig, dtype)
    grid = [[0.0, 0.0], [1.0, -0.5], [-2.0, 0.25]]
    mats = [[[0.0, 0.0], [0.0, 0.0]], [[0.5, 0.25], [0.25, -1.0]], [[-0.75, 0.1], [0.1, 0.3]]]
    n1, n2 = ("d", "M") if kind == "exp" else ("mu", "sigma")
    sgrads = mats if kind == "exp" else grid
    tol = 1e-4 if dtype == torch.float32 else 1e-8
    for g, s in itertools.product(grid, sgrads):
        grads = {n1: torch.tensor(g, dtype=dtype), n2: torch.tensor(s, dtype=dtype)}
        for opt in (None, "adam", "clipup", "sgd"):
            dist = CLS[kind](dict(p))
            cur = {k: v.clone() for k, v in p.items()}
            rf = {"adam": ref.RefAdam(0.3), "clipup": ref.RefClipUp(0.3), "sgd": ref.RefSGD(0.3, 0.5), None: None}[opt]
            o = None
            if opt == "adam":
                o = Adam(solution_length=2, dtype=dtype, stepsize=0.3)
            elif opt == "clipup":
                o = ClipUp(solution_length=2, dtype=dtype, stepsize=0.3)
            elif opt == "sgd":
                o = SGD(solution_length=2, dtype=dtype, stepsize=0.3, momentum=0.5)
            for _ in range(3):
                lrs = {"sigma": 0.2}
                opts = {}
                if o is None:
                    lrs["mu"] = 0.7
                else:
                    opts["mu"] = o
                args = (dict(lrs), dict(opts))
                new = dist.update_parameters(grads, learning_rates=args[0], optimizers=args[1])
                require(args == (lrs, opts), "update_parameters altered its arguments: %s", args)
                wmu, wsig = ref.update(kind, cur, {k: v.to(torch.float64) for k, v in grads.items()}, 0.7, 0.2, rf)
                require_same(plain(new.mu).to(torch.float64), wmu, f"{kind}/{opt}: new center", tol=tol)
                require_same(plain(new.sigma).to(torch.float64), wsig, f"{kind}/{opt}: new spread", tol=tol)
                if kind == "exp":
                    eye = plain(new.sigma).to(torch.float64) @ plain(new.A_inv).to(torch.float64)
                    require_same(eye, torch.eye(2), "sigma times its inverse", tol=1e-3)
                old = torch.diag(cur["sigma"]) if kind == "exp" and cur["sigma"].ndim == 1 else cur["sigma"]
                require_same(plain(dist.sigma), old, "the old distribution after the update", tol=tol)
                cur = {"mu": plain(new.mu), "sigma": plain(new.sigma)}
                dist = new
                ctx.step()
                ctx.state(kind, opt, cur)


def replacing(kind, sig):
    """New parameters, by assignment or in a copy, take full effect and nothing else changes."""
    new_sig = torch.tensor([3.0, 0.25], dtype=torch.float64)
    if kind == "exp":
        new_sig = torch.tensor([[3.0, 1.0], [0.5, 0.25]], dtype=torch.float64)
    new_mu = torch.tensor([7.0, 8.0], dtype=torch.float64)
    z = torch.tensor([[1.0, -0.5], [0.25, 2.0], [-1.0, 1.0]], dtype=torch.float64)
    z = symmetric(z) if kind == "sym" else z
    f = torch.tensor([3.0, 1.0, 2.0, 0.5, 7.0, -1.0][: len(z)], dtype=torch.float64)

    def probe(d, mu, sigma, what):
        x = scale(mu, sigma, z)
        got = d.compute_gradients(x, f, objective_sense="max", ranking_method="centered")
        want = ref.gradient(kind, {"mu": mu, "sigma": sigma}, x, f, "centered", "max")
        close(got, want, what)

    for what in ("sigma", "mu", "both"):
        for way in ("copy", "set"):
            p = params(kind, sig)
            given = dict(p)
            d = CLS[kind](given)
            require(set(given) == set(p) and all(given[k] is p[k] for k in p), "the given parameters were altered: %s", given)
            mu = new_mu if what in ("mu", "both") else p["mu"]
            sg = new_sig if what in ("sigma", "both") else p["sigma"]
            if way == "copy":
                kw = {}
                if what in ("mu", "both"):
                    kw["mu"] = new_mu
                if what in ("sigma", "both"):
                    kw["sigma"] = new_sig
                e = d.modified_copy(**kw)
                probe(d, p["mu"], p["sigma"], f"{kind}: original after modified_copy({what})")
            else:
                e = d
                if what in ("mu", "both"):
                    e.mu = new_mu
                if what in ("sigma", "both"):
                    e.sigma = new_sig
            probe(e, mu, sg, f"{kind}: after {way} of {what}")
            require(e.dtype == torch.float64, "dtype %s", e.dtype)
    d = CLS[kind](params(kind, sig))
    e = d.modified_copy(dtype="float32")
    require(e.dtype == torch.float32 and e.mu.dtype == torch.float32 and e.sigma.dtype == torch.float32, "float32 copy")
    require(d.mu.dtype == torch.float64, "the original was cast")
    e = CLS[kind](params(kind, sig), dtype=torch.float32)
    require(e.sample(2).dtype == torch.float32, "type of samples")


def entropy(kind):
    for mu0, mu1 in itertools.product([[0.0, 0.0], [1.0, -2.0]], repeat=2):
        for s0, s1 in itertools.product([[1.0, 1.0], [0.5, 3.0]], repeat=2):
            a = CLS[kind]({"mu": torch.tensor(mu0), "sigma": torch.tensor(s0)})
            b = CLS[kind]({"mu": torch.tensor(mu1), "sigma": torch.tensor(s1)})
            want = sum(
                math.log(s1[i] / s0[i]) + (s0[i] ** 2 + (mu0[i] - mu1[i]) ** 2) / (2 * s1[i] ** 2) - 0.5 for i in range(2)
            )
            got = float(a.relative_entropy(b))
            require(abs(got - want) < 1e-4, "relative entropy of %s,%s to %s,%s: %s, expected %s", mu0, s0, mu1, s1, got, want)


def moving(kind, sig, dtype, device):
    """A distribution brought to another device: all of it, the original left alone; the same device gives itself."""
    p = params(kind, sig)
    d = CLS[kind](p, dtype=dtype, device="cpu")
    names = set(d.parameters)
    before = {k: plain(v) if isinstance(v, torch.Tensor) else v for k, v in d.parameters.items()}
    e = d.to(device)
    require((e is d) == (torch.device(device) == torch.device("cpu")), "moving to %s gave %s", device, "itself" if e is d else "a copy")
    require(type(e) is type(d) and e.dtype == dtype and e.solution_length == d.solution_length, "a %s of type %s, length %s", type(e).__name__, e.dtype, e.solution_length)
    require(torch.device(e.device) == torch.device(device), "device %s", e.device)
    require(set(e.parameters) == names, "parameters %s, expected %s", set(e.parameters), names)
    for k, v in e.parameters.items():
        if isinstance(v, torch.Tensor):
            require(v.device.type == torch.device(device).type and v.dtype == dtype and v.shape == before[k].shape, "%s on %s of type %s", k, v.device, v.dtype)
            if v.device.type == "cpu":
                require_same(v, before[k], k)
    for k, v in d.parameters.items():
        if isinstance(v, torch.Tensor):
            require_same(v, before[k], "the original's " + k)
    require(torch.device(d.device) == torch.device("cpu"), "the original moved to %s", d.device)
    if torch.device(device).type == "cpu":
        torch.manual_seed(3)
        a = d.sample(4)
        torch.manual_seed(3)
        require_same(e.sample(4), a, "samples")


def calls(kind, what, npos, names, sense_at, rank_at, missing):
    """Functional samplers and estimators: parameters all by position or all by name, everything else refused."""
    C = CLS[kind]
    par = {"mu": torch.tensor(MU, dtype=torch.float64), "sigma": torch.tensor(SIGMA["mat" if kind == "exp" else "vec"], dtype=torch.float64)}
    pos = [par["mu"], par["sigma"], torch.ones(2, dtype=torch.float64)][:npos]
    kw = {k: par.get(k, torch.ones(2, dtype=torch.float64)) for k in names}
    ok = (npos == 2 and not names) or (npos == 0 and sorted(names) == ["mu", "sigma"])
    x = torch.tensor([[1.0, 2.0], [0.0, -1.0], [0.5, 0.25], [3.0, 1.0]], dtype=torch.float64)
    f = (x**2).sum(dim=-1)
    if what == "sample":
        g = make_functional_sampler(C, required_parameters=["mu", "sigma"])
        run = lambda: g(4, *pos, **kw)
        d = C(par, dtype=torch.float64)
        torch.manual_seed(5)
        want = d.sample(4)
    else:
        inits = {"required_parameters": ["mu", "sigma"], "objective_sense": None}
        if sense_at in ("init", "both"):
            inits["objective_sense"] = "min" if sense_at == "init" else "max"
        if rank_at in ("init", "both"):
            inits["ranking_method"] = "centered" if rank_at == "init" else "raw"
        if sense_at in ("call", "both"):
            kw["objective_sense"] = "min"
        if rank_at in ("call", "both"):
            kw["ranking_method"] = "centered"
        ok = ok and sense_at != "none" and not missing
        d = C(par, dtype=torch.float64)
        method = None if rank_at == "none" else "centered"
        if what == "given":
            g = make_functional_grad_estimator(C, **inits)
            args = [x, f[:3] if missing else f]
            want = d.compute_gradients(x, f, objective_sense="min", ranking_method=method)
        else:
            seen = []

            def function(z):
                seen.append(z)
                return (z**2).sum(dim=-1)

            if missing:
                return
            g = make_functional_grad_estimator(C, function=function, return_samples=True, return_fitnesses=True, **inits)
            args = [4]
        run = lambda: g(*args, *pos, **kw)
    torch.manual_seed(5)
    if not ok:
        require(raises(run, exc=(TypeError, ValueError, KeyError)) is not None, "accepted")
        return
    got = run()
    if what == "sampled":
        require(len(seen) == 1, "the function was called %s times", len(seen))
        z = plain(got.samples)
        require_same(plain(got.fitnesses), (z**2).sum(dim=-1), "fitnesses")
        want = d.compute_gradients(z, (z**2).sum(dim=-1), objective_sense="min", ranking_method=method)
        torch.manual_seed(5)
        got = got.grads
    if what == "sample":
        require_same(plain(got), want, "samples")
    else:
        require(set(got) == set(want), "gradients of %s", set(got))
        for k in want:
            require_same(plain(got[k]), want[k], k, 1e-6)


def covariance(sig):
    """The covariance is that of the samples: summed over the images of the unit vectors of noise."""
    p = params("exp", sig)
    d = CLS["exp"](p)
    for what in ("as given", "after an update", "after two updates"):
        images = d.to_global_coordinates(torch.eye(len(p["mu"]), dtype=torch.float64)) - d.mu
        want = sum(torch.outer(v, v) for v in images)
        require(torch.allclose(d.cov, want, atol=1e-9), "covariance %s: %s, that of the samples is %s", what, d.cov.tolist(), want.tolist())
        x = d.to_local_coordinates(images + d.mu)
        require(torch.allclose(x, torch.eye(len(p["mu"]), dtype=torch.float64), atol=1e-7), "local coordinates %s: %s", what, x.tolist())
        M = torch.tensor([[0.5, 0.25], [0.25, -1.0]], dtype=torch.float64) if what == "as given" else torch.tensor([[-0.5, 1.0], [1.0, 0.25]], dtype=torch.float64)
        d = d.update_parameters({"d": torch.tensor([1.0, -2.0], dtype=torch.float64), "M": M}, learning_rates={"mu": 0.5, "sigma": 0.5})


def misuse(kind):
    mu, s = torch.zeros(2), torch.ones(2)
    C = CLS[kind]
    bad = {
        "no sigma": lambda: C({"mu": mu}),
        "no mu": lambda: C({"sigma": s}),
        "unknown": lambda: C({"mu": mu, "sigma": s, "gamma": 1.0}),
        "lengths": lambda: C({"mu": mu, "sigma": torch.ones(3)}),
        "solution length": lambda: C({"mu": mu, "sigma": s}, solution_length=3),
    }
    d = C({"mu": mu, "sigma": s})
    bad["both sizes"] = lambda: d.sample(2, out=torch.zeros(2, 2))
    bad["no size"] = lambda: d.sample()
    bad["columns"] = lambda: d.sample(out=torch.zeros(2, 3))
    bad["dims"] = lambda: d.sample(out=torch.zeros(2))
    bad["sense"] = lambda: d.compute_gradients(torch.zeros(2, 2), torch.zeros(2), objective_sense="up")
    bad["counts"] = lambda: d.compute_gradients(torch.zeros(2, 2), torch.zeros(3), objective_sense="max")
    if kind == "sym":
        bad["odd"] = lambda: d.sample(3)
    for name, f in bad.items():
        require(raises(f) is not None, "%s: %s accepted", kind, name)


def estimator(ctx, kind, method, sense, batch, opts):
    """The functional estimator on batched arguments is the distribution's estimator item by item."""
    n = 4
    L = 2
    nb = math.prod(batch)
    base = torch.tensor(list(itertools.product((-1.0, 0.5, 1.5), repeat=2)), dtype=torch.float64)
    mus = torch.stack([torch.tensor(MU, dtype=torch.float64) + k for k in range(nb)])
    sigs = torch.stack([torch.tensor(SIGMA["vec"], dtype=torch.float64) * (1 + 0.5 * k) for k in range(nb)])
    if kind == "exp":
        sigs = torch.stack([torch.tensor(SIGMA["mat"], dtype=torch.float64) * (1 + 0.5 * k) for k in range(nb)])
    zs, fs = [], []
    for k in range(nb):
        z = base[[(3 * k + 2 * i + k * i) % 9 for i in range(n // 2 if kind == "sym" else n)]]
        zs.append(symmetric(z) if kind == "sym" else z)
        fs.append(torch.tensor([float((i * 3 + k) % 5) + 0.1 * i for i in range(n)], dtype=torch.float64))
    xs = torch.stack([scale(mus[k], sigs[k], zs[k]) for k in range(nb)])
    fs = torch.stack(fs)
    est = make_functional_grad_estimator(
        CLS[kind], required_parameters=["mu", "sigma"], objective_sense=sense, ranking_method=method, fixed_parameters=opts
    )
    X = xs.reshape(*batch, n, L)
    Fs = fs.reshape(*batch, n)
    M = mus.reshape(*batch, L)
    S = sigs.reshape(*batch, *sigs.shape[1:])
    for kw in ({}, {"kw": True}, {"override": True}):
        if kw.get("kw"):
            g = est(X, Fs, mu=M, sigma=S)
        elif kw.get("override"):
            other = make_functional_grad_estimator(CLS[kind], required_parameters=["mu", "sigma"], fixed_parameters=opts)
            g = other(X, Fs, M, S, objective_sense=sense, ranking_method=method)
        else:
            g = est(X, Fs, M, S)
        for k in range(nb):
            want = ref.gradient(kind, {"mu": mus[k], "sigma": sigs[k], **opts}, xs[k], fs[k], method, sense)
            for key, w in want.items():
                got = plain(g[key]).reshape(nb, *w.shape)[k]
                require_same(got, w, f"{kind} {method} {sense} item {k} of {batch}: {key}", tol=1e-6)
    # broadcasting: one center for all items
    g = est(X, Fs, M.reshape(nb, L)[0], S.reshape(nb, *sigs.shape[1:])[0])
    for k in range(nb):
        want = ref.gradient(kind, {"mu": mus[0], "sigma": sigs[0], **opts}, xs[k], fs[k], method, sense)
        for key, w in want.items():
            got = plain(g[key]).reshape(nb, *w.shape)[k]
            require_same(got, w, f"{kind} broadcast item {k} of {batch}: {key}", tol=1e-6)
    ctx.step(4)


def own_function(kind, sense, method):
    """An estimator with its own fitness function reports consistent samples, fitnesses, gradients."""
    fn = lambda xs: (xs**3).sum(dim=-1)
    opts = {} if kind != "sep" else {"divide_mu_grad_by": "num_solutions"}
    est = make_functional_grad_estimator(
        CLS[kind],
        function=fn,
        required_parameters=["mu", "sigma"],
        objective_sense=sense,
        ranking_method=method,
        return_samples=True,
        return_fitnesses=True,
        fixed_parameters=opts,
    )
    mus = torch.tensor([MU, [2.0, 1.0], [-1.0, 0.0]], dtype=torch.float64)
    sig = torch.tensor(SIGMA["mat" if kind == "exp" else "vec"], dtype=torch.float64)
    res = est(6, mus, sig)
    require(res.samples.shape == (3, 6, 2) and res.fitnesses.shape == (3, 6), "shapes %s", res.samples.shape)
    require_same(plain(res.fitnesses), fn(plain(res.samples)), "fitnesses of the samples", tol=1e-9)
    for k in range(3):
        x = plain(res.samples)[k]
        if kind == "sym":
            require_same(x[0::2] + x[1::2], (2 * mus[k]).expand(3, 2), "mirror pairs", tol=1e-6)
        want = ref.gradient(kind, {"mu": mus[k], "sigma": sig, **opts}, x, fn(x), method, sense)
        for key, w in want.items():
            require_same(plain(res.grads[key])[k], w, f"{kind} item {k}: {key}", tol=1e-6)
    require(not torch.equal(res.samples[0] - mus[0], res.samples[1] - mus[1]), "batch items share their noise")


def sampler(kind, n):
    """Functional sampling is affine in its noise, per batch item, and mirrored when symmetric."""
    s = make_functional_sampler(CLS[kind], required_parameters=["mu", "sigma"])
    sigs = SIGMA["mat" if kind == "exp" else "vec"]
    sig = torch.tensor(sigs, dtype=torch.float64)
    mus = torch.tensor([MU, [5.0, 6.0], [-3.0, 0.0]], dtype=torch.float64)
    zero = torch.zeros(3, 2, dtype=torch.float64)
    one = torch.eye(2, dtype=torch.float64) if kind == "exp" else torch.ones(2, dtype=torch.float64)
    torch.manual_seed(5)
    x = s(n, mus, sig)
    torch.manual_seed(5)
    z = s(n, zero, one)
    torch.manual_seed(5)
    kw = s(n, mu=mus, sigma=sig)
    require(x.shape == (3, n, 2), "shape %s", tuple(x.shape))
    require_same(plain(kw), plain(x), "keyword arguments")
    for k in range(3):
        require_same(plain(x)[k], scale(mus[k], sig, plain(z)[k]), f"{kind}: samples of item {k}", tol=1e-6)
        if kind == "sym":
            require_same(plain(z)[k][0::2], -plain(z)[k][1::2], "mirror pairs", tol=1e-9)
    rows = [tuple(r) for r in plain(z).abs().reshape(-1, 2).tolist()]
    need = 3 * n // 2 if kind == "sym" else 3 * n
    require(len(set(rows)) == need, "%s: %d different noise vectors, expected %d", kind, len(set(rows)), need)


def run(ctx):
    g2 = (-1.0, 0.5, 2.0)
    fits2 = [(0.0, 1.0), (1.0, 0.0), (2.0, -5.0)]
    fits3 = list(itertools.permutations((0.0, 1.0, 5.0)))
    fits4 = list(itertools.permutations((-1.0, 0.0, 2.0, 7.0)))
    ties4 = [f for f in itertools.product((0.0, 1.0, 3.0), repeat=4)]
    for kind in CLS:
        sigs = ("vec", "one") + (("mat",) if kind == "exp" else ())
        optlist = [{}]
        if kind in ("sep", "sym"):
            optlist += [{"divide_mu_grad_by": a, "divide_sigma_grad_by": b} for a in DIVS[1:] for b in DIVS[1:]]
            optlist += [{"divide_mu_grad_by": a} for a in DIVS[1:]]
            optlist += [{"divide_sigma_grad_by": a} for a in DIVS[1:]]
        for sig in sigs:
            for opts in optlist:
                zs = [((0.5, -1.0), (2.0, 0.5))] if kind == "sym" else [((0.5, -1.0), (2.0, 0.5), (-1.0, 1.5), (0.25, 0.0))]
                fl = fits4 if ctx.thorough or not opts else fits4[::5]
                ctx.case("orders", {"kind": kind, "sigma": sig, "opts": opts}, gradients, ctx, kind, sig, opts, zs, fl, METHODS)
                if len(opts) != 1:
                    m = (None, "raw", "normalized")
                    fl = ties4 if ctx.thorough else ties4[::4]
                    ctx.case("ties", {"kind": kind, "sigma": sig, "opts": opts}, gradients, ctx, kind, sig, opts, zs, fl, m)
            n = 2
            allz = list(itertools.product(g2, repeat=2 * n))
            fl = fits4[3:20:8] if kind == "sym" else fits2
            for i in range(0, len(allz), 27):
                ctx.case("grid", {"kind": kind, "sigma": sig, "chunk": i}, gradients, ctx, kind, sig, {}, allz[i : i + 27], fl, METHODS)
            if kind != "sym":
                allz = list(itertools.product(g2[:2], repeat=6))
                for i in range(0, len(allz), 16):
                    ctx.case("grid", {"kind": kind, "sigma": sig, "n": 3, "chunk": i}, gradients, ctx, kind, sig, {}, allz[i : i + 16], fits3[1:6:2], METHODS)
        zs = [((0.5, -1.0), (2.0, 0.5))] if kind == "sym" else [((0.5, -1.0), (2.0, 0.5), (-1.0, 1.5), (0.25, 0.0))]
        ctx.case("float32", {"kind": kind}, gradients, ctx, kind, "vec", {}, zs, fits4, METHODS, torch.float32)
        if kind in ("sep", "sym"):
            for ratio in (0.5, 0.75, 0.8, 1.0):
                opts = {"parenthood_ratio": ratio}
                ctx.case("elites", {"kind": kind, "ratio": ratio}, gradients, ctx, kind, "vec", opts, zs, fits4, METHODS)
        for sig in sigs:
            for dtype in (torch.float32, torch.float64):
                for how in ("num", "out", "gen"):
                    n = 4 if kind == "sym" else 3
                    ctx.explore(
                        "sampling",
                        {"kind": kind, "sigma": sig, "dtype": str(dtype), "how": how},
                        sampling(ctx, kind, sig, n, dtype, how),
                        bound=3 if ctx.thorough else 2,
                    )
                ctx.case("updates", {"kind": kind, "sigma": sig, "dtype": str(dtype)}, updates, ctx, kind, sig, dtype)
                for device in ("cpu", "cpu:0", "meta"):
                    ctx.case("moving", {"kind": kind, "sigma": sig, "dtype": str(dtype), "device": device}, moving, kind, sig, dtype, device)
            ctx.case("replacing", {"kind": kind, "sigma": sig}, replacing, kind, sig)
        if kind == "exp":
            for sig in sigs:
                ctx.case("covariance", {"sigma": sig}, covariance, sig)
        else:
            ctx.case("entropy", {"kind": kind}, entropy, kind)
        ctx.case("misuse", {"kind": kind}, misuse, kind)
        names = [(), ("mu",), ("sigma",), ("mu", "sigma"), ("sigma", "mu"), ("mu", "tau"), ("tau",), ("mu", "sigma", "tau")]
        for npos, n in itertools.product(range(4), names):
            ctx.case("calls", {"kind": kind, "what": "sample", "positional": npos, "named": n}, calls, kind, "sample", npos, n, None, None, False)
            for what, sense_at, rank_at, missing in itertools.product(("given", "sampled"), ("none", "init", "call", "both"), ("none", "init", "call", "both"), (False, True)):
                ctx.case("calls", {"kind": kind, "what": what, "positional": npos, "named": n, "sense": sense_at, "ranking": rank_at, "fewer": missing}, calls, kind, what, npos, n, sense_at, rank_at, missing)
        for method in METHODS:
            for sense in ("max", "min"):
                for batch in ((1,), (3,), (2, 2)):
                    for opts in ([{}] if kind.startswith("exp") else [{}, {"divide_mu_grad_by": "num_solutions"}]):
                        ctx.case(
                            "estimator",
                            {"kind": kind, "method": method, "sense": sense, "batch": batch, "opts": opts},
                            estimator, ctx, kind, method, sense, batch, opts,
                        )
                ctx.case("own", {"kind": kind, "method": method, "sense": sense}, own_function, kind, sense, method)
        for n in (2, 4, 6):
            ctx.case("sampler", {"kind": kind, "n": n}, sampler, kind, n)
