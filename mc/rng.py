"""A random source whose answers are enumerated instead of drawn.

While the oracle is active, the random functions of torch take each random element from a small
domain. Element number i has a default answer that depends on i only (so that the default run is
not degenerate); every other domain value is an alternative of the exploration. All draws are
recorded together with the generator that was asked for them.
"""

import contextlib

import torch

NORMALS = (-1.0, 0.5, 1.75, -0.25)
UNIFORMS = (0.25, 0.875, 0.0, 0.5)


class Oracle:
    def __init__(self, chooser=None, normals=NORMALS, uniforms=UNIFORMS, free=None, span=4, wide=False):
        self.chooser = chooser
        self.normals = tuple(normals)
        self.uniforms = tuple(uniforms)
        self.free = free  # number of elements which are choice points (None: all of them)
        self.span = span  # number of answers to "any integer"
        self.wide = wide  # answer "any integer" also by the extremes of the type
        self.draws = []  # (kind, generator, values)
        self.count = 0

    # -- single elements
    def index(self, n, kind):
        """Index of the answer among n possible ones."""
        self.count += 1
        k = 0
        if self.chooser is not None and (self.free is None or self.count <= self.free) and n > 1:
            k = self.chooser.choose(n, kind)
        return (self.count * 7 // 3 + k) % n

    def normal(self):
        return self.normals[self.index(len(self.normals), "normal")]

    def uniform(self):
        return self.uniforms[self.index(len(self.uniforms), "uniform")]

    # -- tensors
    def fill(self, shape, f, kind, generator, dtype=torch.float64):
        n = 1
        for s in shape:
            n *= int(s)
        vals = [f() for _ in range(n)]
        self.draws.append((kind, generator, vals))
        return torch.tensor(vals, dtype=dtype).reshape(tuple(shape))

    def normals_like(self, shape, generator):
        return self.fill(shape, self.normal, "normal", generator)

    def uniforms_like(self, shape, generator):
        return self.fill(shape, self.uniform, "uniform", generator)

    def ints_like(self, shape, n, generator):
        return self.fill(shape, lambda: self.index(n, "int"), "int" if n > 1 else "zero", generator, torch.int64)

    def permutation(self, n, generator):
        left = list(range(n))
        out = []
        while left:
            out.append(left.pop(self.index(len(left), "perm")))
        self.draws.append(("perm", generator, list(out)))
        return out

    def values(self, kind):
        return [v for k, _, vals in self.draws if k == kind for v in vals]


def _size(args, kw):
    size = kw.pop("size", None)
    if size is None:
        size = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list, torch.Size)) else args
    return tuple(int(s) for s in size)


def _finish(x, out, dtype, kw, default=None):
    if out is not None:
        return out.copy_(x)
    dtype = dtype or default or torch.get_default_dtype()
    return x.to(dtype)


def _plain(t):
    return t.as_subclass(torch.Tensor) if isinstance(t, torch.Tensor) else t


@contextlib.contextmanager
def active(oracle):
    o = oracle
    T = torch.Tensor

    def t_normal_(self, mean=0.0, std=1.0, *, generator=None):
        z = o.normals_like(self.shape, generator)
        self.copy_(_plain(z) * std + mean)
        return self

    def t_uniform_(self, *args, generator=None, **kw):
        lo = args[0] if len(args) > 0 else kw.get("from", 0.0)
        hi = args[1] if len(args) > 1 else kw.get("to", 1.0)
        u = o.uniforms_like(self.shape, generator)
        self.copy_(u * (hi - lo) + lo)
        return self

    def t_random_(self, *args, generator=None, **kw):
        if len(args) == 0 and o.wide and self.dtype not in (torch.bool, torch.float16, torch.float32, torch.float64):
            top = torch.iinfo(self.dtype).max
            dom = tuple(range(o.span)) + (top, top - 1, top // 2, top // 2 + 1)
            self.copy_(o.fill(self.shape, lambda: dom[o.index(len(dom), "int")], "int", generator, torch.int64))
            return self
        if len(args) == 0:
            lo, hi = 0, min(o.span, 2) if self.dtype == torch.bool else o.span
        elif len(args) == 1:
            lo, hi = 0, int(args[0])
        else:
            lo, hi = int(args[0]), int(args[1])
        self.copy_(o.ints_like(self.shape, hi - lo, generator) + lo)
        return self

    def t_bernoulli_(self, p=0.5, *, generator=None):
        u = o.uniforms_like(self.shape, generator)
        self.copy_(u < p)
        return self

    def t_exponential_(self, lambd=1.0, *, generator=None):
        u = o.uniforms_like(self.shape, generator)
        self.copy_(-torch.log(1 - u) / lambd)
        return self

    def normal(mean, std=1.0, size=None, *, generator=None, out=None, dtype=None, **kw):
        if size is not None:
            shape = tuple(size)
        else:
            shapes = [m.shape for m in (mean, std) if isinstance(m, torch.Tensor)]
            shape = torch.broadcast_shapes(*shapes)
        z = o.normals_like(shape, generator)
        x = z * _plain(std) + _plain(mean)
        like = mean if isinstance(mean, torch.Tensor) else std
        return _finish(x, out, dtype, kw, like.dtype if isinstance(like, torch.Tensor) else None)

    def randn(*args, generator=None, out=None, dtype=None, **kw):
        return _finish(o.normals_like(_size(args, kw), generator), out, dtype, kw)

    def rand(*args, generator=None, out=None, dtype=None, **kw):
        return _finish(o.uniforms_like(_size(args, kw), generator), out, dtype, kw)

    def randn_like(t, *, dtype=None, generator=None, **kw):
        return _finish(o.normals_like(t.shape, generator), None, dtype, kw, t.dtype)

    def rand_like(t, *, dtype=None, generator=None, **kw):
        return _finish(o.uniforms_like(t.shape, generator), None, dtype, kw, t.dtype)

    def _bounds(args, kw):
        args = list(args)
        low, high = kw.pop("low", None), kw.pop("high", None)
        nums = [a for a in args if not isinstance(a, (tuple, list, torch.Size))]
        rest = [a for a in args if isinstance(a, (tuple, list, torch.Size))]
        if high is None and low is None:
            low, high = (0, nums[0]) if len(nums) == 1 else nums[:2]
        elif low is None:
            low = nums[0] if nums else 0
        elif high is None:
            high = nums[0]
        return int(low), int(high), rest

    def randint(*args, generator=None, out=None, dtype=None, **kw):
        lo, hi, rest = _bounds(args, kw)
        shape = _size(rest, kw)
        return _finish(o.ints_like(shape, hi - lo, generator) + lo, out, dtype, kw, torch.int64)

    def randint_like(t, *args, dtype=None, generator=None, **kw):
        lo, hi, _ = _bounds(args, kw)
        return _finish(o.ints_like(t.shape, hi - lo, generator) + lo, None, dtype, kw, t.dtype)

    def randperm(n, *, generator=None, out=None, dtype=None, **kw):
        return _finish(torch.tensor(o.permutation(int(n), generator), dtype=torch.int64), out, dtype, kw, torch.int64)

    def bernoulli(x, p=None, *, generator=None, out=None):
        u = o.uniforms_like(x.shape, generator)
        return _finish(u < (_plain(x) if p is None else p), out, None, {}, x.dtype)

    def multinomial(w, num_samples, replacement=False, *, generator=None, out=None):
        w = _plain(w)
        rows = w.reshape(-1, w.shape[-1])
        res = []
        for r in rows:
            left = [i for i in range(len(r)) if float(r[i]) > 0]
            picks = []
            for _ in range(num_samples):
                i = left[o.index(len(left), "pick")]
                picks.append(i)
                if not replacement:
                    left.remove(i)
            o.draws.append(("pick", generator, list(picks)))
            res.append(picks)
        return _finish(torch.tensor(res).reshape(tuple(w.shape[:-1]) + (num_samples,)), out, torch.int64, {})

    methods = {
        "normal_": t_normal_,
        "uniform_": t_uniform_,
        "random_": t_random_,
        "bernoulli_": t_bernoulli_,
        "exponential_": t_exponential_,
        "bernoulli": lambda self, p=None, *, generator=None: bernoulli(self, p, generator=generator),
        "multinomial": lambda self, n, replacement=False, *, generator=None: multinomial(
            self, n, replacement, generator=generator
        ),
    }
    functions = {
        "normal": normal,
        "randn": randn,
        "rand": rand,
        "randn_like": randn_like,
        "rand_like": rand_like,
        "randint": randint,
        "randint_like": randint_like,
        "randperm": randperm,
        "bernoulli": bernoulli,
        "multinomial": multinomial,
    }
    saved_m = {k: T.__dict__.get(k) for k in methods}
    saved_f = {k: getattr(torch, k) for k in functions}
    try:
        for k, f in methods.items():
            setattr(T, k, f)
        for k, f in functions.items():
            setattr(torch, k, f)
        yield o
    finally:
        for k, old in saved_m.items():
            if old is None:
                delattr(T, k)
            else:
                setattr(T, k, old)
        for k, old in saved_f.items():
            setattr(torch, k, old)
