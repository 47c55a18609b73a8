"""Small helpers shared by the checks."""

import itertools
import math

import torch

from .ctx import Violation, require


def plain(x):
    """A detached ordinary tensor with the contents of x."""
    return torch.clone(x.as_subclass(torch.Tensor).detach())


def same(a, b, tol=0.0):
    """Equality of tensors with NaN equal to NaN."""
    a = a.as_subclass(torch.Tensor).detach()
    b = b.as_subclass(torch.Tensor).detach()
    if a.shape != b.shape:
        return False
    if a.numel() == 0:
        return True
    if tol == 0.0 and a.dtype == b.dtype and not a.dtype.is_floating_point:
        return bool(torch.equal(a, b))
    a, b = a.to(torch.float64), b.to(torch.float64)
    return bool(torch.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))


def require_same(a, b, what, tol=0.0):
    if not isinstance(a, torch.Tensor):
        a = torch.as_tensor(a)
    if not isinstance(b, torch.Tensor):
        b = torch.as_tensor(b)
    if not same(a, b, tol):
        raise Violation(f"{what}: got {fmt(a)}, expected {fmt(b)}")


def fmt(x):
    if isinstance(x, torch.Tensor):
        return f"{list(x.shape)}{x.as_subclass(torch.Tensor).detach().tolist()}"
    return repr(x)


def raises(fn, *args, exc=Exception, **kwargs):
    """The exception raised by fn(...), or None."""
    try:
        fn(*args, **kwargs)
    except exc as e:
        return e
    return None


def product(**kw):
    keys = list(kw)
    for vals in itertools.product(*kw.values()):
        yield dict(zip(keys, vals))


def sequences(alphabet, depth):
    """All sequences of length exactly `depth`."""
    return itertools.product(alphabet, repeat=depth)


def weak_orders(n):
    """All rankings of n items with ties (levels are 0..k without gaps)."""
    for t in itertools.product(range(n), repeat=n):
        if set(t) == set(range(max(t) + 1)):
            yield t
