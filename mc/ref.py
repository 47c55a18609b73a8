"""Reference implementations (float64), written from the documentation and papers."""

import math

import torch

F = torch.float64


def t64(x):
    x = torch.as_tensor(x)
    return torch.clone(x.as_subclass(torch.Tensor).detach()).to(F)


# ---- fitness shaping -------------------------------------------------------
def shape_fitness(fits, method, sense):
    """Utilities, assuming no ties for the rank-based methods."""
    f = t64(fits)
    if sense == "min":
        f = -f
    n = len(f)
    order = sorted(range(n), key=lambda i: float(f[i]))
    rank = [0] * n
    for r, i in enumerate(order):
        rank[i] = r  # 0: worst
    if method in (None, "raw"):
        return f
    if method == "centered":
        return torch.tensor([r / (n - 1) - 0.5 for r in rank], dtype=F)
    if method == "linear":
        return torch.tensor([r / (n - 1) for r in rank], dtype=F)
    if method == "nes":
        w = [max(0.0, math.log(n / 2 + 1) - math.log(n - r)) for r in rank]
        s = sum(w)
        return torch.tensor([x / s - 1 / n for x in w], dtype=F)
    if method == "normalized":
        m = sum(f.tolist()) / n
        sd = math.sqrt(sum((x - m) ** 2 for x in f.tolist()) / (n - 1))
        return torch.tensor([(x - m) / sd for x in f.tolist()], dtype=F)
    raise AssertionError(method)


# ---- gradients ---------------------------------------------------------------
def _div(grad, how, w):
    n = len(w)
    if how is None:
        return grad
    if how == "num_solutions":
        return grad / n
    if how == "num_directions":
        return grad / (n // 2)
    if how == "total_weight":
        return grad / w.abs().sum()
    if how == "weight_stdev":
        return grad / w.std()
    raise AssertionError(how)


def gradient(kind, params, samples, fits, method, sense):
    """kind: sep, sym, expsep, exp. params: mu, sigma and options."""
    x = t64(samples)
    w = shape_fitness(fits, method, sense)
    mu, sigma = t64(params["mu"]), t64(params["sigma"])
    n = len(w)
    if kind in ("sep", "sym") and params.get("parenthood_ratio") is not None:
        k = math.floor(n * params["parenthood_ratio"])
        best = sorted(range(n), key=lambda i: -float(w[i]))[:k]
        e = x[best]
        m = e.sum(dim=0) / k
        sd = ((e - m) ** 2).sum(dim=0).div(k - 1).sqrt() if k > 1 else torch.full_like(m, math.nan)
        return {"mu": m - mu, "sigma": sd - sigma}
    if kind in ("sep", "sym"):
        if method not in ("centered", "normalized"):
            w = w - w.mean()
        dm, ds = params.get("divide_mu_grad_by"), params.get("divide_sigma_grad_by")
        if kind == "sep":
            z = x - mu
            gm = sum(w[i] * z[i] for i in range(n))
            gs = sum(w[i] * (z[i] ** 2 - sigma**2) / sigma for i in range(n))
        else:
            gm = gs = torch.zeros_like(mu)
            for i in range(0, n, 2):
                z = x[i] - mu
                gm = gm + (w[i] - w[i + 1]) / 2 * z
                gs = gs + (w[i] + w[i + 1]) / 2 * (z**2 - sigma**2) / sigma
        return {"mu": _div(gm, dm, w), "sigma": _div(gs, ds, w)}
    if kind == "expsep":
        if method != "nes":
            w = w / w.abs().sum()
        z = x - mu
        return {
            "mu": sum(w[i] * z[i] for i in range(n)),
            "sigma": sum(w[i] * ((z[i] / sigma) ** 2 - 1) for i in range(n)),
        }
    if kind == "exp":
        if method not in ("centered", "normalized"):
            w = w - w.mean()
        A = torch.diag(sigma) if sigma.ndim == 1 else sigma
        s = torch.linalg.solve(A, (x - mu).T).T
        eye = torch.eye(len(mu), dtype=F)
        return {
            "d": sum(w[i] * s[i] for i in range(n)),
            "M": sum(w[i] * (torch.outer(s[i], s[i]) - eye) for i in range(n)),
        }
    raise AssertionError(kind)


def update(kind, params, grads, lr_mu, lr_sigma, optimizer=None):
    """New (mu, sigma). optimizer: object with ascent(grad) or None."""
    mu, sigma = t64(params["mu"]), t64(params["sigma"])
    g = grads["d"] if kind == "exp" else grads["mu"]
    dmu = optimizer.ascent(g) if optimizer is not None else lr_mu * g
    if kind in ("sep", "sym"):
        return mu + dmu, sigma + lr_sigma * grads["sigma"]
    if kind == "expsep":
        return mu + dmu, sigma * torch.exp(0.5 * lr_sigma * grads["sigma"])
    A = torch.diag(sigma) if sigma.ndim == 1 else sigma
    return mu + A @ dmu, A @ torch.linalg.matrix_exp(0.5 * lr_sigma * grads["M"])


def limit(old, new, lo=None, hi=None, change=None):
    """Elementwise limits, given that `old` itself is within lo..hi."""
    old, new = t64(old), t64(new)
    n = old.numel()

    def vec(x, default):
        return torch.full((n,), default, dtype=F) if x is None else t64(x).expand(n)

    lo_, hi_ = vec(lo, -math.inf), vec(hi, math.inf)
    if change is not None:
        c = t64(change).expand(n)
        lo_ = torch.maximum(lo_, old - old.abs() * c)
        hi_ = torch.minimum(hi_, old + old.abs() * c)
    return torch.maximum(torch.minimum(new, hi_), lo_)


# ---- optimizers ----------------------------------------------------------------
class RefAdam:
    def __init__(self, lr=0.001, b1=0.9, b2=0.999, eps=1e-8, amsgrad=False):
        self.lr, self.b1, self.b2, self.eps, self.amsgrad = lr, b1, b2, eps, amsgrad
        self.m = self.v = self.vmax = None
        self.t = 0

    def ascent(self, g):
        g = t64(g)
        if self.m is None:
            self.m, self.v, self.vmax = torch.zeros_like(g), torch.zeros_like(g), torch.zeros_like(g)
        self.t += 1
        self.m = self.b1 * self.m + (1 - self.b1) * g
        self.v = self.b2 * self.v + (1 - self.b2) * g * g
        self.vmax = torch.maximum(self.vmax, self.v)
        mh = self.m / (1 - self.b1**self.t)
        vh = (self.vmax if self.amsgrad else self.v) / (1 - self.b2**self.t)
        return self.lr * mh / (vh.sqrt() + self.eps)


class RefSGD:
    """Momentum in the torch form: velocity = m * velocity + (1 - dampening) * g, step = lr * velocity."""

    def __init__(self, lr, momentum=0.0, dampening=0.0, nesterov=False):
        self.lr, self.momentum, self.dampening, self.nesterov = lr, momentum, dampening, nesterov
        self.v = None

    def ascent(self, g):
        g = t64(g)
        if self.momentum == 0:
            return self.lr * g
        self.v = g if self.v is None else self.momentum * self.v + (1 - self.dampening) * g
        return self.lr * (g + self.momentum * self.v if self.nesterov else self.v)


class RefClipUp:
    def __init__(self, lr, momentum=0.9, max_speed=None):
        self.lr, self.momentum = lr, momentum
        self.max_speed = 2 * lr if max_speed is None else max_speed
        self.v = None

    def ascent(self, g):
        g = t64(g)
        if self.v is None:
            self.v = torch.zeros_like(g)
        norm = math.sqrt(float((g * g).sum()))
        step = g / norm * self.lr if norm > 0 else torch.zeros_like(g)
        v = self.momentum * self.v + step
        speed = math.sqrt(float((v * v).sum()))
        if speed > self.max_speed:
            v = v * (self.max_speed / speed)
        self.v = v
        return v.clone()
