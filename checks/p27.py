"""P27: a parameter vector determines a network, alone or batched, without state leaks."""

import itertools
from copy import deepcopy

import gymnasium as gym
import numpy as np
import torch
from evotorch import Problem, SolutionBatch
from evotorch.neuroevolution import NEProblem
from evotorch.neuroevolution.net import (
    Policy,
    RunningNorm,
    RunningStat,
    StatefulModule,
    count_parameters,
    device_of_module,
    fill_parameters,
    make_functional_module,
    parameter_vector,
    str_to_net,
)
from evotorch.neuroevolution.net.rl import ActClipWrapperModule, ObsNormWrapperModule
from evotorch.neuroevolution.net.statefulmodule import ensure_stateful
from evotorch.neuroevolution.net.vecrl import reset_tensors
from evotorch.tools import as_read_only_tensor
from torch import nn

from mc.ctx import require
from mc.util import fmt, plain, raises, require_same, same

META = {
    "bounds": "14 network kinds; all histories of up to 3 (thorough 4) operations (steps, full and partial resets in all index forms, parameter replacement of all or some items with and without reset) of policies with 1..3 items and of a single one, each followed by two steps; stateful wrappers over histories of up to 5 operations; networks made by a problem in histories of up to 3 operations",
    "assumptions": ["networks keep no other state than the hidden state of the documented protocol, except where they offer reset()"],
}
TOL = 1e-5


class Tied(nn.Module):
    """The same weights are used twice."""

    def __init__(self):
        super().__init__()
        self.a = nn.Linear(2, 2)
        self.b = self.a
        self.c = nn.Linear(2, 1)

    def forward(self, x):
        return self.c(torch.tanh(self.b(torch.tanh(self.a(x)))))


class Buffered(nn.Module):
    def __init__(self):
        super().__init__()
        self.register_buffer("scale", torch.tensor([2.0, -3.0]))
        self.lin = nn.Linear(2, 2)

    def forward(self, x):
        return self.lin(x * self.scale) + self.scale


class Nested(nn.Module):
    """A hidden state of nested containers."""

    def __init__(self):
        super().__init__()
        self.w = nn.Parameter(torch.zeros(2))
        self.s = nn.Parameter(torch.zeros(()))

    def forward(self, x, h=None):
        if h is None:
            z = torch.zeros_like(x)
            h = {"a": [z, (z,)], "b": z[..., 0]}
        a, b = h["a"][0] * 0.5 + x * self.w, h["a"][1][0] + self.s
        c = h["b"] * 2 + x[..., 1]
        return a + b + c.unsqueeze(-1), {"a": [a, (b,)], "b": c}


def make(kind):
    if kind == "tied":
        net = Tied()
    elif kind == "buffered":
        net = Buffered()
    elif kind == "nested":
        net = Nested()
    elif kind == "sequential":
        net = nn.Sequential(nn.Linear(2, 2), nn.Tanh(), nn.Linear(2, 1, bias=False))
    elif kind == "double":
        net = nn.Linear(2, 2).double()
    else:
        net = str_to_net(KINDS[kind])
    return net


KINDS = {
    "linear": "Linear(2, 3)",
    "layers": "Linear(2, 2) >> Tanh() >> Linear(2, 1, bias=False)",
    "rnn": "RNN(2, 2)",
    "lstm": "LSTM(2, 2)",
    "rnn chain": "Linear(2, 2) >> RNN(2, 3, 'sigmoid') >> Linear(3, 1)",
    "two recurrent": "LSTM(2, 2) >> Tanh() >> RNN(2, 2)",
    "feed forward": "FeedForwardNet(2, [(3, 'tanh'), (2, None, False)])",
    "control": "StructuredControlNet(in_features=2, out_features=2, num_layers=1, hidden_size=2)",
    "locomotor": "LocomotorNet(in_features=2, out_features=2, num_sinusoids=2)",
    "tied": None,
    "buffered": None,
    "nested": None,
    "sequential": None,
    "double": None,
}
RECURRENT = ("rnn", "lstm", "rnn chain", "two recurrent", "nested")


def vec(kind, n, salt):
    dt = torch.float64 if kind == "double" else torch.float32
    return torch.sin(torch.arange(n, dtype=torch.float64) * 1.3 + salt * 2.1 + 0.4).to(dt)


def obs(kind, t, item):
    dt = torch.float64 if kind == "double" else torch.float32
    return torch.tensor([np.cos(t * 1.1 + item), np.sin(t * 0.7 - item) * 1.5], dtype=dt)


class One:
    """The reference: one network filled with one vector, and its hidden state."""

    def __init__(self, kind, vector):
        self.kind, self.h = kind, None
        self.net = make(kind)
        self.fill(vector)

    def fill(self, vector):
        # by the order of the parameters
        i = 0
        with torch.no_grad():
            for p in self.net.parameters():
                p.copy_(vector[i : i + p.numel()].reshape(p.shape))
                i += p.numel()
        assert i == len(vector)

    def reset(self):
        self.h = None
        if hasattr(self.net, "reset"):
            self.net.reset()

    def __call__(self, x):
        with torch.no_grad():
            r = self.net(x) if self.h is None else self.net(x, self.h)
        if isinstance(r, tuple):
            r, self.h = r
        return r


def numel(kind):
    return sum(p.numel() for p in make(kind).parameters())


# ---- flat vectors ----------------------------------------------------------------
def flat_case(ctx, kind, salt):
    n = numel(kind)
    v = vec(kind, n, salt)
    keep = plain(v)
    net = make(kind)
    require(count_parameters(net) == n, "count_parameters gives {} instead of {}", count_parameters(net), n)
    fill_parameters(net, v)
    require_same(parameter_vector(net), v, "vector read back")
    one = One(kind, v)
    x = obs(kind, 0, 0)
    y = one(x)

    def first(r):
        return r[0] if isinstance(r, tuple) else r

    with torch.no_grad():
        require_same(first(net(x)), y, "output of the filled network", TOL)
    # the vector read back is the caller's own
    r = parameter_vector(net)
    r.zero_()
    require_same(parameter_vector(net), v, "network after writing into the vector read back")
    # the network does not keep the vector it was filled with
    v.zero_()
    require_same(parameter_vector(net), keep, "network after writing into the vector it was filled with")
    v = keep.clone()
    for bad in (v[:-1], torch.cat([v, v[:1]]), v[:0], torch.cat([v, v])):
        e = raises(fill_parameters, make(kind), bad)
        require(e is not None, "a vector of length {} was accepted for {} parameters", len(bad), n)
    ro = as_read_only_tensor(v)
    fill_parameters(net, ro)
    require_same(parameter_vector(net), v, "filled from a read-only vector")
    require(str(device_of_module(net)) == "cpu", "device_of_module gives {}", device_of_module(net))
    # functional form
    source = make(kind)
    fill_parameters(source, vec(kind, n, 9))
    before = parameter_vector(source)
    for kw in ({}, {"disable_autograd_tracking": True}):
        f = make_functional_module(source, **kw)
        require(f.parameter_length == n, "parameter_length is {}", f.parameter_length)
        source2 = parameter_vector(source)
        with torch.no_grad():
            require_same(first(f(v, x)), y, "output of the functional form", TOL)
        require_same(v, keep, "parameter vector after the call")
        require_same(parameter_vector(source), source2, "the source network after the call")
        fill_parameters(source, vec(kind, n, 11))  # the functional form has no more to do with it
        with torch.no_grad():
            if kind == "locomotor":
                f.reset() if hasattr(f, "reset") else None
                f = make_functional_module(make(kind), **kw)
            require_same(first(f(v, x)), y, "output of the functional form after the source changed", TOL)
            w = vec(kind, n, salt + 1)
            if kind == "locomotor":
                f = make_functional_module(make(kind), **kw)
            require_same(first(f(w, x)), One(kind, w)(x), "output of the functional form with another vector", TOL)
        for bad in (v[:-1], torch.cat([v, v[:1]]), v.reshape(1, -1)):
            require(raises(f, bad, x) is not None, "parameters of shape {} were accepted", tuple(bad.shape))
        g = v.clone().requires_grad_(True)
        out = first(f(g, x)).sum()
        require(out.requires_grad == (not kw), "gradient tracking is {} with {}", out.requires_grad, kw)
        if not kw:
            (grad,) = torch.autograd.grad(out, g)
            net2 = make(kind)
            fill_parameters(net2, v)
            if kind != "locomotor":
                net2.zero_grad()
                first(net2(x)).sum().backward()
                ref = torch.cat([p.grad.reshape(-1) if p.grad is not None else torch.zeros(p.numel(), dtype=p.dtype) for p in net2.parameters()])
                require_same(grad, ref, "gradient by the parameter vector", 1e-4)
    f = make_functional_module(make(kind))
    bs = [b for b in make(kind).buffers()]
    got = list(f.buffers)
    require(len(got) == len(bs) and all(isinstance(b, torch.Tensor) and same(b, c) for b, c in zip(got, bs)), "buffers of the functional form: {}", got)
    ctx.step()
    ctx.state((kind, salt))


def functional_sequence_case(ctx, kind, salt, length):
    """The functional form of a recurrent network, with explicitly passed hidden states."""
    v = vec(kind, numel(kind), salt)
    f = make_functional_module(make(kind))
    one = One(kind, v)
    h = None
    for t in range(length):
        x = obs(kind, t, salt)
        with torch.no_grad():
            r = f(v, x) if h is None else f(v, x, h)
        if isinstance(r, tuple):
            r, h = r
        require_same(r, one(x), f"output at time {t}", TOL)
        ctx.step()
    ctx.state((kind, salt, length))


# ---- stateful wrapper -------------------------------------------------------------
def stateful_case(ctx, kind, word, again):
    n = numel(kind)
    v = vec(kind, n, 1)
    net = make(kind)
    fill_parameters(net, v)
    s = StatefulModule(net)
    if again:
        require(ensure_stateful(s) is s, "an already stateful module was wrapped")
        s = ensure_stateful(net)
    one = One(kind, v)
    t = 0
    for c in word:
        if c == "r":
            s.reset()
            one.reset()
        else:
            x = obs(kind, t, 0)
            with torch.no_grad():
                y = s(x)
            require(isinstance(y, torch.Tensor), "the stateful module gave {}", type(y))
            require_same(y, one(x), f"output at time {t} of {word}", TOL)
            t += 1
        ctx.step()
    ctx.state((kind, word, again))


# ---- policies ---------------------------------------------------------------------
def forms(items, B):
    """All ways of denoting a set of items."""
    mask = [i in items for i in range(B)]
    yield "list", list(items)
    yield "tuple", tuple(items)
    yield "tensor", torch.tensor(list(items), dtype=torch.int64)
    yield "array", np.array(list(items), dtype="int64")
    yield "mask", mask
    yield "mask tensor", torch.tensor(mask)
    yield "mask array", np.array(mask)
    if len(items) == 1:
        yield "int", items[0]


def apply_op(kind, op, pol, ones, st):
    B = len(ones)
    what = op[0]
    if what == "step":
        xs = torch.stack([obs(kind, st["t"], i) for i in range(B)]) if st["batched"] else obs(kind, st["t"], 0)
        keep = plain(xs)
        with torch.no_grad():
            y = pol(xs)
        want = torch.stack([o(obs(kind, st["t"], i)) for i, o in enumerate(ones)])
        require(isinstance(y, torch.Tensor), "the policy gave {}", type(y))
        require_same(y, want if st["batched"] else want[0], f"actions at time {st['t']}", TOL)
        require(same(xs, keep), "the observations were altered")
        for a, b in st["outs"]:
            require(same(a, b), "an earlier action changed from {} to {}", fmt(b), fmt(a))
        st["outs"].append((y, plain(y)))
        st["t"] += 1
    elif what == "reset":
        if op[1] is None:
            pol.reset()
            for o in ones:
                o.reset()
        else:
            pol.reset(op[1])
            for i in op[2]:
                ones[i].reset()
    elif what == "set":
        st["k"] += 1
        v = torch.stack([vec(kind, st["n"], 20 + 3 * st["k"] + i) for i in range(B)]) if st["batched"] else vec(kind, st["n"], 20 + st["k"])
        given = v
        st["given"].append((given, plain(given)))
        pol.set_parameters(given, reset=op[1])
        for i, o in enumerate(ones):
            o.fill(v[i] if st["batched"] else v)
            if op[1]:
                o.reset()
    elif what == "some":
        st["k"] += 1
        v = torch.stack([vec(kind, st["n"], 40 + 3 * st["k"] + i) for i in op[2]])
        row = v[0] if isinstance(op[1], int) else v
        pol.set_parameters(row, op[1], reset=op[3])
        for j, i in enumerate(op[2]):
            ones[i].fill(v[j])
            if op[3]:
                ones[i].reset()
    require(len(st["given"]) == 0 or all(same(a, b) for a, b in st["given"]), "a parameter tensor of the caller was altered by {}", op[0])


def policy_case(ctx, kind, B, word, ops):
    n = numel(kind)
    net = make(kind)
    pol = Policy(net)
    require(pol.parameter_length == n, "parameter_length is {}", pol.parameter_length)
    e = raises(pol, obs(kind, 0, 0))
    require(isinstance(e, ValueError), "a policy without parameters acted ({})", e)
    params = vec(kind, n, 0) if B == 0 else torch.stack([vec(kind, n, i) for i in range(B)])
    st = {"t": 0, "k": 0, "n": n, "outs": [], "given": [(params, plain(params))], "batched": B > 0}
    pol.set_parameters(params)
    ones = [One(kind, params if B == 0 else params[i]) for i in range(max(B, 1))]
    for w in word:
        apply_op(kind, ops[w], pol, ones, st)
        ctx.step()
    for _ in range(2):
        apply_op(kind, ("step",), pol, ones, st)
        ctx.step()
    got = pol.parameters
    want = torch.stack([parameter_vector(o.net) for o in ones])
    require_same(got if B else got.unsqueeze(0), want, "parameters of the policy")
    ctx.state((kind, B, word))


def policy_ops(kind, B):
    """The operations of a history: (name, ...)."""
    if B == 0:
        return [("step",), ("reset", None), ("set", True), ("set", False)]
    ops = [("step",), ("reset", None), ("set", True), ("set", False)]
    if kind == "locomotor":
        return ops
    ops.append(("reset", torch.tensor([i == B - 1 for i in range(B)]), (B - 1,)))
    ops.append(("some", [B - 1], (B - 1,), True))
    ops.append(("some", torch.tensor([i == 0 for i in range(B)]), (0,), False))
    if B > 1:
        ops.append(("reset", [0, B - 1], (0, B - 1)))
    return ops


def index_case(ctx, kind, B, items, form, copy):
    idx = dict(forms(items, B))[form]
    n = numel(kind)
    pol = Policy(make(kind))
    params = torch.stack([vec(kind, n, i) for i in range(B)])
    pol.set_parameters(params)
    ones = [One(kind, params[i]) for i in range(B)]
    st = {"t": 0, "k": 0, "n": n, "outs": [], "given": [(params, plain(params))], "batched": True}
    for op in (("step",), ("step",)):
        apply_op(kind, op, pol, ones, st)
    if copy == "no copy":
        st["outs"].clear()
        pol.reset(idx, copy=False)
        for i in items:
            ones[i].reset()
    elif copy == "copy":
        apply_op(kind, ("reset", idx, items), pol, ones, st)
    else:
        apply_op(kind, ("some", idx, items, copy == "replace"), pol, ones, st)
    for op in (("step",), ("step",)):
        apply_op(kind, op, pol, ones, st)
    ctx.state((kind, B, items, form, copy))


def own_state_case(ctx, kind):
    """A network which manages its state itself, in a batch, with one item starting anew."""
    n = numel(kind)
    params = torch.stack([vec(kind, n, i) for i in range(2)])
    pol = Policy(make(kind))
    pol.set_parameters(params)
    ones = [One(kind, params[i]) for i in range(2)]
    st = {"t": 0, "k": 0, "n": n, "outs": [], "given": [], "batched": True}
    for op in (("step",), ("step",), ("reset", [0], (0,)), ("step",)):
        apply_op(kind, op, pol, ones, st)
    ctx.state((kind, "own state"))


def reset_tensors_case(ctx, items, form, B):
    idx = dict(forms(items, B))[form]
    a = torch.arange(B * 2, dtype=torch.float32).reshape(B, 2) + 1
    b = torch.arange(B, dtype=torch.float32) + 1
    c = torch.ones((B, 1, 2))
    x = [a, {"k": b, "s": "text", "n": None, "i": 3}, (c, b"bytes")]
    reset_tensors(x, idx)
    for t, w in ((a, torch.arange(B * 2, dtype=torch.float32).reshape(B, 2) + 1), (b, torch.arange(B, dtype=torch.float32) + 1), (c, torch.ones((B, 1, 2)))):
        for i in items:
            w[i] = 0
        require_same(t, w, f"tensors after resetting {items} given as {form}")
    ctx.state((items, form, B))


def export_case(ctx, kind, source, length):
    """The module exported for a vector acts like the policy with that vector and has its own parameters."""
    n = numel(kind)
    v = vec(kind, n, 5)
    given = as_read_only_tensor(v) if source == "read-only" else v
    pol = Policy(make(kind))
    net = pol.to_torch_module(given)
    require(isinstance(net, nn.Module), "exported {}", type(net))
    one = One(kind, v)
    s = ensure_stateful(net)
    for t in range(length):
        x = obs(kind, t, 1)
        with torch.no_grad():
            require_same(s(x), one(x), f"output of the exported module at time {t}", TOL)
    for p in net.parameters():
        require(type(p) is nn.Parameter and p.requires_grad, "a parameter of the exported module is {}", type(p))
    require_same(parameter_vector(pol.wrapped_module), parameter_vector(pol.wrapped_module), "wrapped module")
    w = plain(v)
    with torch.no_grad():
        for p in net.parameters():
            p.add_(1.0)
    require_same(v, w, "the vector after training the exported module")
    v.zero_()
    require_same(parameter_vector(net), w + 1.0, "the exported module after writing into the vector", TOL)
    other = pol.to_torch_module(w)
    require_same(parameter_vector(other), w, "a second exported module")
    require_same(parameter_vector(net), w + 1.0, "the first exported module after exporting another", TOL)
    ctx.state((kind, source, length))


def policy_source_case(ctx, form):
    if form == "string":
        pol = Policy("Linear(a, b[0]) >> Tanh()", a=2, b=(3,))
    elif form == "class":
        pol = Policy(nn.Linear, in_features=2, out_features=3)
    elif form == "function":
        pol = Policy(lambda k: nn.Sequential(nn.Linear(2, k), nn.Tanh()), k=3)
    else:
        pol = Policy(nn.Linear(2, 3))
        require(raises(Policy, nn.Linear(2, 3), k=3) is not None, "arguments for an instantiated network were accepted")
    require(pol.parameter_length == 9, "parameter_length {}", pol.parameter_length)
    pol.set_parameters(torch.zeros(9))
    require_same(pol(torch.ones(2)), torch.zeros(3), "zero network")
    require(raises(pol.set_parameters, torch.ones(2, 9), None) is None, "two-dimensional parameters were refused")
    require(raises(Policy, 3) is not None, "a number was accepted as a network")
    p2 = Policy(nn.Linear(2, 3))
    require(raises(p2.set_parameters, torch.ones(1, 9), [0]) is not None, "indices were accepted before the first parameters")
    ctx.state(form)


# ---- problems --------------------------------------------------------------------
def probe(net):
    """A fitness which identifies the parameters of the network."""
    v = parameter_vector(net).to(torch.float64)
    s = ensure_stateful(net)
    s.reset()
    with torch.no_grad():
        dt = next(net.parameters()).dtype
        out = [s(torch.tensor([0.3, -0.7], dtype=dt)), s(torch.tensor([1.1, 0.2], dtype=dt))]
    return float(sum(float(o.sum()) * (k + 1) for k, o in enumerate(out)) + float((v * torch.arange(1, len(v) + 1)).sum()))


def expected(kind, v):
    o = One(kind, v)
    dt = next(o.net.parameters()).dtype
    out = [o(torch.tensor([0.3, -0.7], dtype=dt)), o(torch.tensor([1.1, 0.2], dtype=dt))]
    return float(sum(float(y.sum()) * (k + 1) for k, y in enumerate(out)) + float((v.to(torch.float64) * torch.arange(1, len(v) + 1)).sum()))


class SubNE(NEProblem):
    def _evaluate_network(self, network):
        return probe(network)


def nesource(kind, source):
    if source == "module":
        return make(kind)
    if source == "callable":
        return lambda: make(kind)
    return KINDS[kind]


def ne_case(ctx, kind, source, how, word):
    n = numel(kind)
    net = nesource(kind, source)
    p = SubNE("min", net) if how == "method" else NEProblem("min", net, probe)
    require(p.solution_length == n, "solution_length {} instead of {}", p.solution_length, n)
    require(p.dtype == (torch.float64 if kind == "double" else torch.float32), "dtype {}", p.dtype)
    made = []
    k = 0
    for c in word:
        k += 1
        if c == "e":  # evaluate a population
            batch = SolutionBatch(p, popsize=2, empty=True)
            vals = torch.stack([vec(kind, n, 50 + 2 * k + i) for i in range(2)])
            batch.set_values(vals)
            p.evaluate(batch)
            for i in range(2):
                w = expected(kind, vals[i])
                require(abs(float(batch.evals[i, 0]) - w) < 1e-3, "fitness {} of solution {} is not {}", float(batch.evals[i, 0]), i, w)
        else:  # make a network from a vector, a solution or a list
            v = vec(kind, n, 70 + k)
            if c == "v":
                given = v.clone()
                m = p.make_net(given)
                given.zero_()
            elif c == "l":
                m = p.make_net(v.tolist())
            else:
                b = SolutionBatch(p, popsize=2, empty=True)
                b.set_values(torch.stack([v, v * 0]))
                b.set_evals(torch.tensor([1.0, 2.0]))
                m = p.make_net(b[0])
                require_same(b.evals[:, 0], torch.tensor([1.0, 2.0]), "evaluations after making a network of a solution")
                b.set_values(torch.zeros(2, n, dtype=v.dtype))
            made.append((m, v))
        for m, v in made:
            require_same(parameter_vector(m), v, "a network made earlier")
            one = One(kind, v)
            with torch.no_grad():
                m2 = deepcopy(m)
                r = m2(obs(kind, 0, 0))
                r = r[0] if isinstance(r, tuple) else r
            require_same(r, one(obs(kind, 0, 0)), f"first output of a network made earlier ({word})", TOL)
        ctx.step()
    ctx.state((kind, source, how, word))


def args_ne_case(ctx, form):
    """Network arguments reach the network."""
    if form == "string":
        p = NEProblem("max", "Linear(a, b)", probe, network_args={"a": 2, "b": 4})
    else:
        p = NEProblem("max", lambda a, b: nn.Linear(a, b), probe, network_args={"a": 2, "b": 4})
    require(p.solution_length == 12, "solution_length {}", p.solution_length)
    net = p.make_net(torch.zeros(12))
    require(tuple(net.weight.shape) == (4, 2), "network {}", net)
    ctx.state(form)


def wrapper_case(ctx, kind, which, stats, word):
    n = numel(kind)
    if kind == "double":
        return
    v = vec(kind, n, 3)
    net = make(kind)
    fill_parameters(net, v)
    mean, std = torch.zeros(2), torch.ones(2)
    seen = [torch.tensor([1.0, 2.0]), torch.tensor([3.0, -2.0]), torch.tensor([2.0, 6.0])]
    m = net
    if "n" in which:
        if stats == "stat":
            rs = RunningStat()
            for s in seen:
                rs.update(s.numpy())
        else:
            rs = RunningNorm(shape=(2,), dtype="float32", device="cpu")
            rs.update(torch.stack(seen))
        mean, std = torch.as_tensor(rs.mean), torch.as_tensor(rs.stdev)
        m = ObsNormWrapperModule(m, rs)
        for s in seen:  # the exported normalization is a snapshot
            rs.update((s * 3).numpy() if stats == "stat" else s * 3)
    y0 = One(kind, v)(obs(kind, 0, 0))
    k = y0.numel()
    low, high = np.full(k, -0.25, dtype="float32"), np.full(k, 0.4, dtype="float32")
    if "c" in which:
        m = ActClipWrapperModule(m, gym.spaces.Box(low=low, high=high))
        require(raises(ActClipWrapperModule, net, gym.spaces.Discrete(3)) is not None, "a discrete space was accepted for clipping")
    one = One(kind, v)
    s = ensure_stateful(m)
    t = 0
    for c in word:
        if c == "r":
            s.reset()
            one.reset()
            continue
        x = obs(kind, t, 0) * 2
        want = one((x - mean) / std if "n" in which else x)
        if "c" in which:
            want = torch.minimum(torch.maximum(want, torch.as_tensor(low)), torch.as_tensor(high))
        with torch.no_grad():
            require_same(s(x), want, f"wrapped network at time {t} of {word}", 1e-4)
        t += 1
        ctx.step()
    ctx.state((kind, which, stats, word))


def run(ctx):
    for kind in KINDS:
        for salt in (0, 1):
            ctx.case("flat vectors", f"{kind} {salt}", flat_case, ctx, kind, salt)
    for kind in RECURRENT:
        for salt in (0, 1, 2):
            ctx.case("flat vectors", f"sequence {kind} {salt}", functional_sequence_case, ctx, kind, salt, 5)
    for kind in KINDS:
        for k in range(1, 7 if ctx.thorough else 6):
            for word in itertools.product("sr", repeat=k):
                for again in (False, True) if k <= 3 else (False,):
                    ctx.case("stateful", f"{kind} {''.join(word)} {again}", stateful_case, ctx, kind, "".join(word), again)
    for kind in KINDS:
        for B in (0, 1, 2, 3):
            ops = policy_ops(kind, B)
            deep = kind in RECURRENT or kind == "locomotor"
            top = (4 if B in (0, 2) else 3) if ctx.thorough else 3
            for k in range(0, (top if deep else 2) + 1):
                for word in itertools.product(range(len(ops)), repeat=k):
                    ctx.case("policies", f"{kind} B={B} {word}", policy_case, ctx, kind, B, word, ops)
    for kind in RECURRENT:
        for B in (1, 2, 3):
            for r in range(1, B + 1):
                for items in itertools.combinations(range(B), r):
                    for form, _ in forms(items, B):
                        for copy in ("copy", "no copy", "replace", "replace without reset"):
                            ctx.case("index forms", f"{kind} {B} {items} {form} {copy}", index_case, ctx, kind, B, items, form, copy)
    for B in (1, 2, 3, 4):
        for r in range(1, B + 1):
            for items in itertools.combinations(range(B), r):
                for form, _ in forms(items, B):
                    ctx.case("index forms", f"tensors {B} {items} {form}", reset_tensors_case, ctx, items, form, B)
    ctx.case("own state in a batch", "locomotor", own_state_case, ctx, "locomotor")
    for kind in KINDS:
        for source in ("tensor", "read-only"):
            for length in (1, 3):
                ctx.case("exported modules", f"{kind} {source} {length}", export_case, ctx, kind, source, length)
    for form in ("string", "class", "function", "module"):
        ctx.case("exported modules", f"source {form}", policy_source_case, ctx, form)
    for kind in KINDS:
        for source in ("module", "callable", "string"):
            if source == "string" and KINDS[kind] is None:
                continue
            for how in ("method", "function"):
                for k in (1, 2, 3):
                    for word in itertools.product("evls" if k < 3 or ctx.thorough else "ev", repeat=k):
                        ctx.case("problems", f"{kind} {source} {how} {''.join(word)}", ne_case, ctx, kind, source, how, "".join(word))
    for form in ("string", "callable"):
        ctx.case("problems", f"arguments {form}", args_ne_case, ctx, form)
    for kind in KINDS:
        for which in ("n", "c", "nc"):
            for stats in ("stat", "norm") if "n" in which else ("stat",):
                for k in (1, 2, 3, 4):
                    for word in itertools.product("sr", repeat=k):
                        ctx.case("wrappers", f"{kind} {which} {stats} {''.join(word)}", wrapper_case, ctx, kind, which, stats, "".join(word))
