"""P31: the fitness of a network is its average loss over the announced mini-batches."""

import itertools

import torch
from evotorch.neuroevolution import SupervisedNE
from torch import nn
from torch.utils.data import DataLoader, Dataset, TensorDataset

from mc import fakeray, rng
from mc.ctx import require
from mc.util import plain, raises, require_same

META = {
    "bounds": "data sets of 1..4 samples, mini-batch sizes 1..4, 1..3 mini-batches, common and individual, populations 1..3, 1..3 evaluations, all shuffles of the first passes, up to 3 workers with all completion orders",
    "assumptions": ["the loss function sees one network on one mini-batch at a time"],
}
CALLS = []


def loss_func(y_hat, y):
    CALLS.append((fakeray.world().in_actor, plain(y_hat), plain(y)))
    return torch.mean((y_hat - y) ** 2)


def float_loss(y_hat, y):
    return float(loss_func(y_hat, y))


class Own(SupervisedNE):
    """Everything through the documented override points."""

    mb = 2

    def _make_dataloader(self):
        return DataLoader(self.dataset, shuffle=True, batch_size=self.mb)

    def _loss(self, y_hat, y):
        return loss_func(y_hat, y)


class Rows(Dataset):
    def __init__(self, x, y):
        self.x, self.y = x, y

    def __len__(self):
        return len(self.x)

    def __getitem__(self, i):
        return self.x[i], self.y[i]


def data(n, outs):
    x = torch.tensor([[1.0 + i, (-0.5) ** i] for i in range(n)])
    y = torch.tensor([[10.0 * (i + 1) + j for j in range(outs)] for i in range(n)])
    return x, y


class PermOracle(rng.Oracle):
    """Only the shuffles are open."""

    def index(self, n, kind):
        self.count += 1
        if kind == "perm" and n > 1 and self.chooser is not None and (self.free is None or len([1 for d in self.draws if d[0] == "perm"]) < self.free):
            return self.chooser.choose(n, kind)
        return 0 if kind == "perm" else self.count % n


def params(n, outs, k):
    return [[0.5 * (i + 1) + 0.125 * j - 0.25 * k + 0.03125 * i * j for j in range(3 * outs)] for i in range(n)]


def outputs(w, x, outs):
    w = torch.tensor(w)
    return x @ w[: 2 * outs].reshape(outs, 2).t() + w[2 * outs :]


def make(n, outs, mb, count, common, form, **kw):
    x, y = data(n, outs)
    if form == "own":
        cls = type("Own%d" % mb, (Own,), {"mb": mb})
        globals()["Own%d" % mb] = cls
        cls.__module__ = __name__
        return cls(TensorDataset(x, y), f"Linear(2, {outs})", num_minibatches=count, common_minibatch=common, **kw)
    net = f"Linear(2, {outs})" if form != "module" else nn.Linear(2, outs)
    ds = Rows(x, y) if form == "rows" else TensorDataset(x, y)
    return SupervisedNE(ds, net, float_loss if form == "rows" else loss_func, minibatch_size=mb, num_minibatches=count, common_minibatch=common, **kw)


def identify(values, x, outs, n):
    """Which network on which samples each recorded call is about."""
    out = []
    for actor, y_hat, y in CALLS:
        ids = [int(round((float(v[0]) - 10.0) / 10.0)) for v in y]
        require(all(0 <= i < n for i in ids) and len(set(ids)) == len(ids), "targets {}", y.tolist())
        require(bool((y == data(n, outs)[1][ids]).all()), "targets {} do not belong to the data", y.tolist())
        who = [i for i, w in enumerate(values) if torch.allclose(outputs(w, x[ids], outs), y_hat, atol=1e-4)]
        require(len(who) == 1, "outputs {} for samples {} fit to the networks {}", y_hat.tolist(), ids, who)
        out.append((actor, who[0], ids))
    return out


def check_stream(stream, n, mb, what):
    """Each pass over the data covers every sample once, in mini-batches of the announced size."""
    at = 0
    while at < len(stream):
        left = n
        seen = []
        while left > 0 and at < len(stream):
            size = min(mb, left)
            require(len(stream[at]) == size, "{}: mini-batch {} of size {}, expected {} (all: {})", what, at, len(stream[at]), size, stream)
            seen += stream[at]
            left -= size
            at += 1
        require(len(set(seen)) == len(seen), "{}: samples {} within one pass", what, seen)


def case(ctx, section, n, outs, mb, count, common, form, sizes, free, kw):
    x, _ = data(n, outs)
    actors = kw.get("num_actors", 0)

    def body(chooser):
        w = fakeray.reset(chooser if actors else None)
        p = make(n, outs, mb, 1 if count is None else count, common, form, **kw) if count is not None else make(n, outs, mb, None, common, form, **kw)
        c = 1 if count is None else count
        require(p.solution_length == 3 * outs and p.senses == ["min"], "length {}, senses {}", p.solution_length, p.senses)
        streams = {}
        oracle = PermOracle(chooser, free=free)
        for k, size in enumerate(sizes):
            CALLS.clear()
            b = p.generate_batch(size)
            values = params(size, outs, k)
            b.set_values(torch.tensor(values))
            with rng.active(oracle):
                p.evaluate(b)
            calls = identify(values, x, outs, n)
            for i in range(size):
                mine = [ids for _, who, ids in calls if who == i]
                require(len(mine) == c, "network {} was used on {} mini-batches, expected {}", i, len(mine), c)
                want = sum(float(torch.mean((outputs(values[i], x[ids], outs) - data(n, outs)[1][ids]) ** 2)) for ids in mine) / c
                got = float(b.evals[i, 0])
                require(abs(got - want) <= 1e-3 * max(1.0, abs(want)), "fitness of network {} is {}, its average loss is {}", i, got, want)
            if common:
                # pieces: consecutive networks evaluated together; all of them see the same mini-batches
                if not actors:
                    first = [ids for _, who, ids in calls if who == 0]
                    for i in range(size):
                        mine = [ids for _, who, ids in calls if who == i]
                        require(mine == first, "networks 0 and {} saw {} and {}", i, first, mine)
                    streams.setdefault(None, []).extend(first)
                else:
                    by_piece = {}
                    for actor, who, ids in calls:
                        by_piece.setdefault((actor, who // kw.get("subbatch_size", 99) if "subbatch_size" in kw else actor), {}).setdefault(who, []).append(ids)
                    for (actor, _), nets in by_piece.items():
                        lists = list(nets.values())
                        require(all(m == lists[0] for m in lists), "networks evaluated together saw {}", nets)
                        streams.setdefault(str(actor), []).extend(lists[0])
            else:
                for actor, _, ids in calls:
                    streams.setdefault(str(actor), []).append(ids)
        for a, s in streams.items():
            check_stream(s, n, mb, f"stream {a}")
        ctx.step(sum(sizes))
        ctx.state((n, outs, mb, count, common, form, sizes, tuple(sorted(kw.items()))))
        ctx.outcome(tuple(tuple(tuple(i) for i in s) for s in streams.values()))

    ctx.explore(section, f"n={n} outs={outs} mb={mb} count={count} common={common} {form} {sizes} {sorted(kw.items())}", body)


def minibatch_case(ctx, n, mb, draws):
    """get_minibatch() continues the passes, also in between evaluations."""

    def body(chooser):
        fakeray.reset()
        p = make(n, 1, mb, 1, True, "func")
        x, y = data(n, 1)
        stream = []
        with rng.active(PermOracle(chooser, free=2)):
            for k in range(draws):
                if k == 1:
                    CALLS.clear()
                    b = p.generate_batch(2)
                    b.set_values(torch.tensor(params(2, 1, 0)))
                    p.evaluate(b)
                    stream.append(identify(params(2, 1, 0), x, 1, n)[0][2])
                mx, my = p.get_minibatch()
                ids = [int(round(float(v[0]) / 10 - 1)) for v in my]
                require_same(plain(mx), x[ids], "inputs", 0.0)
                stream.append(ids)
        check_stream(stream, n, mb, "stream")
        ctx.state((n, mb, draws))

    ctx.explore("mini-batches", f"{n} {mb} {draws}", body)


def refusal_case(ctx, what):
    x, y = data(2, 1)
    ds = TensorDataset(x, y)

    def go(p):
        p.evaluate(p.generate_batch(1))

    bad = {
        "no loss": lambda: go(SupervisedNE(ds, "Linear(2, 1)", minibatch_size=1)),
        "no size": lambda: go(SupervisedNE(ds, "Linear(2, 1)", loss_func)),
    }
    require(raises(bad[what]) is not None, "{} was accepted", what)
    ctx.state(what)


def run(ctx):
    for n in (1, 2, 3, 4):
        for mb in (1, 2, 3, 4):
            if mb > n + 1:
                continue
            for count in (None, 1, 2, 3):
                for common in (True, False):
                    for form in ("func", "own", "rows", "module"):
                        for sizes in ((1,), (3,), (2, 1), (1, 2, 3)):
                            if not ctx.thorough and form != "func" and (n == 4 or sizes == (3,)):
                                continue
                            free = {1: 3, 2: 3, 3: 2, 4: 1}[n] if form == "func" else 1
                            case(ctx, "losses", n, 1 if form != "rows" else 2, mb, count, common, form, sizes, free, {})
    for n in (2, 3):
        for mb in (1, 2):
            for count in (1, 2):
                for common in (True, False):
                    for kw in ({"num_actors": 2}, {"num_actors": 2, "subbatch_size": 1}, {"num_actors": 3}, {"num_actors": 2, "subbatch_size": 2}):
                        for sizes in ((1,), (3,), (2, 3), (4,)):
                            if not ctx.thorough and kw["num_actors"] == 3 and n == 3:
                                continue
                            case(ctx, "workers", n, 1, mb, count, common, "func", sizes, 1 if n == 2 else 0, kw)
    for n in (2, 3):
        for mb in (1, 2, 3):
            for draws in (1, 2, 4):
                minibatch_case(ctx, n, mb, draws)
    for what in ("no loss", "no size"):
        ctx.case("declarations", what, refusal_case, ctx, what)
