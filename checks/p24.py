"""P24: object-valued storage behaves like an array with isolated elements."""

import copy
import itertools
import pickle

import numpy as np
import torch
from evotorch import Problem, SolutionBatch
from evotorch.algorithms import GeneticAlgorithm
from evotorch.tools import ObjectArray, as_immutable, make_tensor

from checks.p23 import immutable_everywhere, objects, shape_of, wreck
from mc import fakeray
from mc.ctx import require
from mc.util import plain, raises, require_same

META = {
    "bounds": "all operation sequences of depth 3 (thorough 4) over arrays of length 3 (and depth 2 / 3 for lengths 1 and 2) with up to 4 live handles (slices, copies, read-only views) and 7 element types; object-valued problems with every order of up to 4 fitnesses, both senses, 0/2/3 actors under every arrival order, and the genetic algorithm against its numeric twin",
    "assumptions": ["the outcome of operations on a misused array (wrong lengths, multi-dimensional indices) is only required to be an error without effect"],
}

KINDS = ("scalar", "list", "numpy", "tensor", "dict", "nested", "objects")


def value(kind, i):
    return {
        "scalar": lambda: (i, f"s{i}", None if i % 2 else 0.5)[i % 3],
        "list": lambda: [i, [i + 0.5]],
        "numpy": lambda: np.array([i, i + 1]),
        "tensor": lambda: torch.tensor([float(i)]),
        "dict": lambda: {"a": i, "b": {"c": [i]}},
        "nested": lambda: [{"t": torch.tensor([i]), "n": np.array([i])}, (i, [i])],
        "objects": lambda: objects([i, [i]]),
    }[kind]()


class Handle:
    """Model of an object array: positions within a shared list."""

    def __init__(self, real, store, idx, ro=False):
        self.real, self.store, self.idx, self.ro = real, store, list(idx), ro

    def items(self):
        return [self.store[i] for i in self.idx]

    def copy(self, real, pos, ro=None):
        items = self.items()
        return Handle(real, [items[i] for i in pos], range(len(pos)), self.ro if ro is None else ro)


SLICES = {"[:]": slice(None), "[1:]": slice(1, None), "[::2]": slice(None, None, 2), "[:-1]": slice(None, -1), "[1:1]": slice(1, 1)}


def history(chooser, ctx, n, kind, depth, first):
    serial = itertools.count(1)

    def fresh(k=1):
        """k values, as they are and as they look."""
        vals = [value(kind, next(serial)) for _ in range(k)]
        return vals, [look(v) for v in vals]

    real = ObjectArray(n)
    hs = [Handle(real, [None] * n, range(n))]
    vals, looks = fresh(n)
    real[:] = vals
    hs[0].store[:] = looks
    wreck(vals)
    names = []
    check(hs, names)
    for d in range(depth):
        h = hs[chooser.choose(len(hs), "handle")] if d else hs[0]
        m = len(h.idx)
        ops = {}

        def write(positions, assign, k=None):
            def go():
                vals, looks = fresh(len(positions) if k is None else k)
                refused = raises(lambda: assign(vals))
                if h.ro:
                    require(refused is not None, "%s: a read-only array was written to", names)
                elif refused is not None:
                    raise refused
                else:
                    for p, l in zip(positions, looks):
                        h.store[h.idx[p]] = l
                wreck(vals)

            return go

        def new(make, model):
            def go():
                r = make()
                if len(hs) < 4:
                    hs.append(model(r))
                else:
                    check([model(r)], names)

            return go

        if m:
            for p in {0, m - 1, -1}:
                ops[f"set {p}"] = write([p], lambda v, p=p: h.real.__setitem__(p, v[0]))
            ops["set_item 0"] = write([0], lambda v: h.real.set_item(torch.tensor(0), v[0]))
        for label, sl in SLICES.items():
            pos = list(range(m))[sl]
            if len(pos) or label == "[1:1]":
                ops[f"set {label}"] = write(pos, lambda v, sl=sl: h.real.__setitem__(sl, v))
            ops[f"get {label}"] = new(lambda sl=sl: h.real[sl], lambda r, pos=pos: Handle(r, h.store, [h.idx[i] for i in pos], h.ro))
        if m >= 2:
            ops["set [[-1,0]]"] = write([m - 1, 0], lambda v: h.real.__setitem__([-1, 0], v))
            ops["set by generator"] = write(list(range(m)), lambda v: h.real.__setitem__(slice(None), (x for x in v)))
            mask = torch.arange(m) % 2 == 0
            pos = [i for i in range(m) if i % 2 == 0]
            ops["set mask"] = write(pos, lambda v: h.real.__setitem__(mask, v))
            ops["get mask"] = new(lambda: h.real[mask], lambda r: h.copy(r, pos))
            ops["get [[-1,0,-1]]"] = new(lambda: h.real[[-1, 0, -1]], lambda r: h.copy(r, [m - 1, 0, m - 1]))
            ops["slice_of [1:]"] = new(
                lambda: ObjectArray(slice_of=(h.real, slice(1, None))), lambda r: Handle(r, h.store, h.idx[1:], h.ro)
            )
            ops["slice_of indices"] = new(lambda: ObjectArray(slice_of=(h.real, torch.tensor([m - 1, 0]))), lambda r: h.copy(r, [m - 1, 0]))

            def shift(dst, src):
                def go():
                    items = h.items()
                    moved = items[src]
                    e = raises(lambda: h.real.__setitem__(dst, h.real[src]))
                    require((e is not None) == h.ro, "%s: shifting: %s", names, e)
                    if not h.ro:
                        for p, l in zip(list(range(m))[dst], moved):
                            h.store[h.idx[p]] = l

                return go

            ops["x[1:] = x[:-1]"] = shift(slice(1, None), slice(None, -1))
            ops["x[:-1] = x[1:]"] = shift(slice(None, -1), slice(1, None))
        for o in hs:
            if o is not h and len(o.idx) == m and m:

                def assign(o=o):
                    items = o.items()
                    e = raises(lambda: h.real.__setitem__(slice(None), o.real))
                    require((e is not None) == h.ro, "%s: assigning another array: %s", names, e)
                    if not h.ro:
                        for p, l in enumerate(items):
                            h.store[h.idx[p]] = l

                ops[f"x[:] = handle {hs.index(o)}"] = assign
        whole = list(range(m))
        ops["copy"] = new(lambda: copy.copy(h.real), lambda r: h.copy(r, whole))
        ops["pickle"] = new(lambda: pickle.loads(pickle.dumps(h.real)), lambda r: h.copy(r, whole))
        ops["read-only view"] = new(lambda: h.real.get_read_only_view(), lambda r: Handle(r, h.store, h.idx, True))
        ops["repeat"] = new(lambda: h.real.repeat(2), lambda r: h.copy(r, whole * 2, False))
        ops["numpy and back"] = new(lambda: ObjectArray.from_numpy(h.real.numpy()), lambda r: h.copy(r, whole, False))
        keys = list(ops)
        if d == 0:
            name = keys[first] if first < len(keys) else None
            if name is None:
                return None
        else:
            name = chooser.pick(keys, "op")
        names.append((hs.index(h), name))
        ops[name]()
        ctx.step()
        check(hs, names)
    ctx.state(n, [[h.store, h.idx, h.ro] for h in hs])
    return [h.items() for h in hs]


def look(v):
    return shape_of(v)


def check(hs, names):
    for k, h in enumerate(hs):
        r = h.real
        items = h.items()
        require(len(r) == len(items) and tuple(r.shape) == (len(items),) and r.numel() == len(items) and r.ndim == 1, "%s: handle %d has length %d, expected %d", names, k, len(r), len(items))
        got = [look(x) for x in r]
        require(got == items, "%s: handle %d holds %s, expected %s", names, k, got, items)
        require(r.is_read_only == h.ro, "%s: handle %d: read-only %s", names, k, r.is_read_only)
        if items:
            require(look(r[0]) == items[0] and look(r[-1]) == items[-1], "%s: handle %d: reads by index", names, k)
            require(isinstance(raises(lambda: r[len(items)]), IndexError), "%s: handle %d: reading behind the end", names, k)
        for x in r:
            immutable_everywhere(x, f"{names}: an element of handle {k}")


def misuse(ctx, n, kind):
    a = ObjectArray(n)
    a[:] = [value(kind, i) for i in range(n)]
    before = [look(x) for x in a]
    for label, fn in {
        "too many": lambda: a.__setitem__(slice(None), [value(kind, 9)] * (n + 1)),
        "too few": lambda: a.__setitem__(slice(None), [value(kind, 9)] * (n - 1)),
        "not iterable": lambda: a.__setitem__(slice(None), 3),
        "behind the end": lambda: a.__setitem__(n, 3),
        "unsupported object": lambda: a.__setitem__(0, object()),
        "unsupported nested": lambda: a.__setitem__(0, [1, object()]),
        "matrix of indices": lambda: a.__setitem__(torch.tensor([[0]]), [1]),
        "repeat twice": lambda: a.repeat(2, 2),
        "both": lambda: ObjectArray(2, slice_of=(a, slice(None))),
        "none": lambda: ObjectArray(),
    }.items():
        require(raises(fn) is not None, "%s: no error", label)
        require([look(x) for x in a] == before, "%s: the contents changed to %s", label, [look(x) for x in a])
        ctx.step()
    for k in (0, 1, 2, 3):
        for arg in (k, (k,), [k], torch.Size([k])):
            got = [look(x) for x in a.repeat(arg)]
            require(got == before * k, "repeat(%s) gave %s", arg, got)
    e = ObjectArray(0)
    require(len(e) == 0 and len(e[:]) == 0 and list(e) == [], "an empty array")
    t = make_tensor([value(kind, i) for i in range(n)], dtype=object)
    require([look(x) for x in t] == before, "make_tensor gave %s", [look(x) for x in t])
    t = make_tensor([value(kind, i) for i in range(n)], dtype=object, read_only=True)
    require([look(x) for x in t] == before and t.is_read_only, "make_tensor(read_only=True) gave %s", [look(x) for x in t])


# ---- problems -----------------------------------------------------------

FORMS = {
    "list": (lambda k: [k, [k + 1]], lambda v: v[0] + v[1][0]),
    "dict": (lambda k: {"x": k, "y": np.array([k + 1])}, lambda v: v["x"] + int(v["y"][0])),
    "string": (lambda k: "a" * k, lambda v: 2 * len(v) + 1),
    "numpy": (lambda k: np.arange(k, k + 2), lambda v: int(v.sum())),
    "tensor": (lambda k: torch.tensor([k, k + 1]), lambda v: int(v.sum())),
    "number": (lambda k: k, lambda v: 2 * v + 1),
}


class Objects(Problem):
    def __init__(self, form, sense, **kw):
        self.form = form
        self.next = 0
        super().__init__(sense, dtype=object, **kw)

    def _fill(self, values):
        for i in range(len(values)):
            values[i] = FORMS[self.form][0](self.next % 5)
            self.next += 3

    def _evaluate(self, s):
        s.set_evals(float(FORMS[self.form][1](s.values)))


class Numbers(Problem):
    def __init__(self, sense, **kw):
        self.next = 0
        super().__init__(sense, solution_length=1, initial_bounds=(0, 1), dtype="int64", **kw)

    def _fill(self, values):
        for i in range(len(values)):
            values[i] = self.next % 5
            self.next += 3

    def _evaluate(self, s):
        s.set_evals(float(2 * int(s.values[0]) + 1))


def code(form, v):
    """The number a solution stands for."""
    return (FORMS[form][1](v) - 1) // 2


def ids(form, b):
    return [code(form, v) for v in b.values]


def twin(ctx, form, sense, order, actors):
    def body(chooser):
        fakeray.reset(chooser)
        kw = {} if not actors else {"num_actors": actors, "num_subbatches": actors}
        p, q = Objects(form, sense, **kw), Numbers(sense)
        n = len(order)
        b, c = p.generate_batch(n), q.generate_batch(n)
        require(ids(form, b) == plain(c.values).reshape(-1).tolist(), "initial solutions differ: %s", ids(form, b))
        src = [FORMS[form][0](k) for k in order]
        b.set_values(src)
        wreck(src)
        c.set_values(torch.tensor(order).reshape(n, 1))
        require(ids(form, b) == list(order), "set_values stored %s, expected %s", ids(form, b), order)
        p.evaluate(b)
        q.evaluate(c)
        require_same(plain(b.evals), plain(c.evals), "evaluations")
        ctx.step(2)
        require(b.argsort().tolist() == c.argsort().tolist() or len(set(order)) < n, "argsort")
        require(int(b.argbest()) == int(c.argbest()) or len(set(order)) < n, "argbest")
        for k in range(1, n + 1):
            require(sorted(ids(form, b.take_best(k))) == sorted(plain(c.take_best(k).values).reshape(-1).tolist()), "take_best(%d)", k)
        for key in ("best", "worst", "best_eval", "worst_eval"):
            x, y = p.status[key], q.status[key]
            if key.endswith("eval"):
                require(x == y, "status %s: %s, expected %s", key, x, y)
            else:
                require(code(form, x.values) == int(y.values[0]), "status %s: %s, expected %s", key, x, y)
                require_same(plain(x.evals), plain(y.evals), "evals of the " + key)
        # later changes to the batch do not reach the recorded best
        was = code(form, p.status["best"].values)
        b.set_values([FORMS[form][0](7)] * n)
        require(code(form, p.status["best"].values) == was, "the recorded best changed with the batch")
        require(bool(torch.isnan(plain(b.evals)).all()), "evaluations outlived the values")
        # solutions, clones
        b2 = SolutionBatch.cat([b, p.generate_batch(1)])
        s = b2[0]
        s.set_values(FORMS[form][0](2))
        require(ids(form, b2)[:2] == ([2, 7] + [7])[: 2] if n > 1 else ids(form, b2)[0] == 2, "writing via a solution gave %s", ids(form, b2))
        require(ids(form, b) == [7] * n, "joined batches share their objects' slots: %s", ids(form, b))
        cl = pickle.loads(pickle.dumps(b2)) if not actors else b2.clone()
        require(ids(form, cl) == ids(form, b2), "the copy holds %s, expected %s", ids(form, cl), ids(form, b2))
        cl[0].set_values(FORMS[form][0](4))
        require(ids(form, b2)[0] == 2, "writing into the copy changed its original")
        v = b2.access_values()
        v[1] = FORMS[form][0](3)
        require(ids(form, b2)[1] == 3, "access_values did not give access")
        require(raises(lambda: b2.values.__setitem__(0, 1)) is not None, "`values` of an object batch could be written")
        ctx.step(6)
        ctx.state(form, sense, order)
        return ids(form, b2)

    return body


def ga(ctx, form, sense, elitist, gens, actors):
    def body(chooser):
        fakeray.reset(chooser)

        def grow_objects(values):
            out = ObjectArray(len(values))
            out[:] = [FORMS[form][0]((code(form, v) * 3 + 1) % 7) for v in values]
            return out

        def grow_numbers(values):
            return (values * 3 + 1) % 7

        kw = {} if not actors else {"num_actors": actors}
        p, q = Objects(form, sense, **kw), Numbers(sense)
        a = GeneticAlgorithm(p, operators=[grow_objects], popsize=4, elitist=elitist, re_evaluate=False)
        b = GeneticAlgorithm(q, operators=[grow_numbers], popsize=4, elitist=elitist, re_evaluate=False)
        for g in range(gens):
            a.step()
            b.step()
            x, y = ids(form, a.population), plain(b.population.values).reshape(-1).tolist()
            require(sorted(x) == sorted(y), "generation %d: %s, the numeric twin has %s", g, x, y)
            require([2 * i + 1 for i in x] == plain(a.population.evals).reshape(-1).tolist(), "generation %d: evaluations %s of %s", g, a.population.evals, x)
            require(a.status["best_eval"] == b.status["best_eval"] and a.status["mean_eval"] == b.status["mean_eval"], "status in generation %d", g)
            ctx.step(2)
            ctx.state(form, x)
        return x

    return body


def run(ctx):
    plans = [(3, 3 if not ctx.thorough else 4, KINDS[1:2] if not ctx.thorough else ("nested",)), (3, 2, KINDS), (1, 2, KINDS), (2, 2, KINDS), (2, 3, ("numpy", "scalar"))]
    for n, depth, kinds in plans:
        for kind in kinds:
            for first in range(40):
                ctx.explore("history", {"n": n, "kind": kind, "depth": depth, "first": first}, lambda c, n=n, k=kind, d=depth, f=first: history(c, ctx, n, k, d, f))
    for n in (1, 2, 3):
        for kind in KINDS:
            ctx.case("misuse", {"n": n, "kind": kind}, misuse, ctx, n, kind)
    orders = [o for n in (1, 2, 3) for o in itertools.product(range(3), repeat=n)] + list(itertools.permutations(range(4)))
    for form in FORMS:
        for sense in ("min", "max"):
            for o in orders:
                for actors in (0, 2, 3):
                    if actors and (len(o) < 3 or form in ("number", "tensor")) and not ctx.thorough:
                        continue
                    ctx.explore("problem", {"form": form, "sense": sense, "values": o, "actors": actors}, twin(ctx, form, sense, o, actors))
            for elitist in (True, False):
                for actors in (0, 2):
                    ctx.explore("ga", {"form": form, "sense": sense, "elitist": elitist, "actors": actors}, ga(ctx, form, sense, elitist, 3, actors), max_runs=None, bound=2)
