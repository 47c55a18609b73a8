"""P25: contiguous batched containers behave like independent Python containers."""

import itertools

import numpy as np
import torch
from evotorch.tools.structures import CBag, CDict, CList, CMemory

from mc import rng
from mc.ctx import require
from mc.util import raises

META = {
    "bounds": "all operation sequences of depth 2-3 (lists 4; thorough one more) over memories, dictionaries and lists with batch shapes none, (2,), (2,2) and (2,3), value shapes () and (2,), 2-4 keys with and without offset and multi-part keys, list capacities 1..3, all masks, keys out of range in masked-out and in unmasked items; bags filled in every way with up to 3 values and emptied under every scripted shuffle, and with a generator given in 4 ways",
    "assumptions": [
        "verify=True (with verify=False misuse is undefined), except that valid sequences are also run with verify=False",
        "results of pop at masked-out items, values of absent keys, and integer division are unspecified",
    ],
}


def items_of(batch):
    return list(itertools.product(*[range(n) for n in batch])) if batch else [()]


def spread(batch, per_item, dtype=None):
    """A tensor of shape batch + shape of the entries, from a list with an entry per batch item."""
    a = np.array(per_item)
    return torch.tensor(a.reshape(tuple(batch) + a.shape[1:]), dtype=dtype)


def near(got, want, what, *args):
    got = got.to(torch.float64).numpy() if isinstance(got, torch.Tensor) else np.asarray(got, dtype="float64")
    want = np.asarray(want, dtype="float64")
    require(got.shape == want.shape and np.allclose(got, want, rtol=1e-5, atol=1e-6), what + ": %s instead of %s", *args, got.tolist(), want.tolist())


def masks(batch):
    """None and every mask (for large batches, a covering subset)."""
    n = len(items_of(batch))
    if n <= 2:
        return [None] + list(itertools.product([True, False], repeat=n))
    return [None, (True,) * n, (False,) * n, tuple(i % 2 == 0 for i in range(n)), tuple(i == 0 for i in range(n)), tuple(i < n - 1 for i in range(n))]


def where_of(batch, mask, as_list):
    if mask is None:
        return None
    t = spread(batch, list(mask), torch.bool)
    return t.tolist() if as_list else t


OPS = ["set", "add", "subtract", "multiply", "divide", "circular"]


def apply(op, old, v):
    if op == "set":
        return v
    if op == "add":
        return old + v
    if op == "subtract":
        return old - v
    if op == "multiply":
        return old * v
    if op == "divide":
        return old / v
    return np.mod(old + v, 3.0)


class Mem:
    """A memory and its model."""

    def __init__(self, cfg, fill):
        self.batch, self.vshape, self.keys, self.offset = cfg["batch"], tuple(cfg["value"]), cfg["keys"], cfg["offset"]
        self.items = items_of(self.batch)
        ko = self.offset
        rngs = [range(n) for n in self.keys] if isinstance(self.keys, tuple) else [range(self.keys)]
        if isinstance(self.keys, tuple):
            offs = [0] * len(rngs) if ko is None else ([ko] * len(rngs) if isinstance(ko, int) else list(ko))
            self.valid = [tuple(a + o for a, o in zip(k, offs)) for k in itertools.product(*rngs)]
            self.bad = [tuple(a + o for a, o in zip((-1, 0), offs)), tuple(a + o for a, o in zip((0, self.keys[1]), offs))]
        else:
            o = ko or 0
            self.valid = [k + o for k in rngs[0]]
            self.bad = [o - 1, o + self.keys]
        kw = dict(num_keys=self.keys, key_offset=ko, verify=cfg.get("verify", True))
        if self.batch:
            kw["batch_shape"] = tuple(self.batch) if len(self.batch) > 1 else self.batch[0]
        kw["dtype"] = cfg.get("dtype", torch.float32)
        self.kw = kw
        self.fill = fill

    def key(self, pattern):
        """('one', k): the same for all; ('each', start): differing."""
        kind, k = pattern
        if kind == "one":
            return [self.valid[k]] * len(self.items), self.valid[k]
        ks = [self.valid[(k + i) % len(self.valid)] for i in range(len(self.items))]
        return ks, ks

    def value(self, n, shape):
        """Values, nonzero powers of two with signs."""
        pow2 = [0.5, 2.0, -1.0, 4.0, -0.25, 1.0]
        size = int(np.prod(self.vshape)) if self.vshape else 1
        if shape == "scalar":
            v = pow2[n % 6]
            return [np.full(self.vshape, v)] * len(self.items), v
        if shape == "one":
            v = np.array([pow2[(n + j) % 6] for j in range(size)]).reshape(self.vshape)
            return [v] * len(self.items), v
        vs = [np.array([pow2[(n + j + 2 * i) % 6] for j in range(size)]).reshape(self.vshape) for i in range(len(self.items))]
        return vs, np.stack(vs)


def memory_history(ctx, kind, cfg, ops):
    m = Mem(cfg, 1.5)
    if kind == "memory":
        obj = CMemory(*m.vshape, fill_with=1.5, **m.kw)
        model = [{k: np.full(m.vshape, 1.5) for k in m.valid} for _ in m.items]
    else:
        obj = CDict(*m.vshape, **m.kw)
        model = [{} for _ in m.items]
    for i, (op, kpat, vshape, mask) in enumerate(ops):
        what = f"after {ops[: i + 1]}"
        mask_on = [True] * len(m.items) if mask is None else list(mask)
        wh = where_of(m.batch, mask, as_list=i % 2 == 0)
        bad = False
        if op == "clear":
            obj.clear() if mask is None else obj.clear(where=wh)
            for d, on in zip(model, mask_on):
                if on:
                    d.clear()
        else:
            if kpat[0] == "bad":
                # a key out of range in the items which are masked out (or in one that is not)
                ks, _ = m.key(("each", 0))
                ks = [m.bad[j % len(m.bad)] if not on else k for j, (k, on) in enumerate(zip(ks, mask_on))]
                if kpat[1]:
                    j = kpat[1] % len(ks)
                    ks[j] = m.bad[0]
                    bad = mask_on[j]
                given_k = ks
            else:
                ks, given_k = m.key(kpat)
            if kpat[0] == "one":
                key = torch.tensor(given_k) if i % 2 else given_k
            else:
                key = spread(m.batch, [list(k) if isinstance(k, tuple) else k for k in given_k], torch.int64)
                key = key if i % 2 else key.tolist()
            vs, given = m.value(i + (3 if kpat[1] else 0), vshape)
            if vshape == "all":
                value = spread(m.batch, list(given), obj.dtype)
            else:
                value = torch.tensor(given, dtype=obj.dtype)
            if i % 2 and vshape != "scalar":
                value = value.tolist()
            elif vshape == "scalar":
                value = given
            f = {"set": obj.set_, "add": obj.add_, "subtract": obj.subtract_, "multiply": obj.multiply_, "divide": obj.divide_}.get(op)
            if op == "circular":
                call = lambda: obj.add_circular_(key, value, 3, wh)
            elif op == "set" and mask is None:
                call = lambda: obj.__setitem__(key, value)
            else:
                call = lambda: f(key, value) if mask is None else f(key, value, where=wh)
            if bad:
                require(isinstance(raises(call), (KeyError, IndexError)), "%s: a key out of range is accepted", what)
            else:
                call()
                for d, k, v, on in zip(model, ks, vs, mask_on):
                    if on:
                        if op == "set":
                            d[k] = v
                        elif k in d:
                            d[k] = apply(op, d[k], v)
        if i == len(ops) - 1 or bad:
            look(obj, model, m, kind, what)
        ctx.step()
    for k in m.bad:
        require(isinstance(raises(obj.get, k), (KeyError, IndexError)), "a key out of range (%s) can be read", k)
    ctx.state(kind, [sorted((str(k), np.round(v, 3).tolist()) for k, v in d.items()) for d in model])


def look(obj, model, m, kind, what):
    flat = lambda t: t.reshape((len(m.items),) + tuple(t.shape[len(m.batch) :]))
    for pat in [("one", j) for j in range(len(m.valid))] + ([("each", 1)] if m.batch else []):
        ks, given = m.key(pat)
        key = given if pat[0] == "one" else spread(m.batch, [list(k) if isinstance(k, tuple) else k for k in given], torch.int64)
        got = flat(obj[key])
        require(got.dtype == obj.dtype, "%s: result of type %s", what, got.dtype)
        for j, k in enumerate(ks):
            if k in model[j]:
                near(got[j], model[j][k], what + ": item %d key %s", j, k)
        if kind == "dict":
            has = flat(obj.contains(key)).tolist()
            require(has == [k in d for k, d in zip(ks, model)], "%s: contains(%s) says %s", what, given, has)
            alt = flat(obj.get(key, 77.0))
            for j, k in enumerate(ks):
                near(alt[j], model[j].get(k, np.full(m.vshape, 77.0)), what + ": item %d key %s with a default", j, k)


# ------------------------------------------------------------------ lists


def list_history(ctx, cap, batch, vshape, ops, verify, dtype):
    kw = {"batch_shape": tuple(batch)} if batch else {}
    lst = CList(*vshape, max_length=cap, verify=verify, dtype=dtype, **kw)
    its = items_of(batch)
    model = [[] for _ in its]
    n = 0
    require(lst.max_length == cap and lst.is_batched == bool(batch) and tuple(lst.batch_shape) == tuple(batch), "shape of the list")

    def make(per_item):
        nonlocal n
        size = int(np.prod(vshape)) if vshape else 1
        out = []
        for i in range(len(its)):
            n += 1
            out.append(np.array([float((n * 3 + j) % 50) for j in range(size)]).reshape(vshape))
        if not per_item:
            out = [out[0]] * len(its)
            return out, torch.tensor(out[0], dtype=dtype)
        return out, spread(batch, out, dtype)

    def alter(op, old, v):
        if op == "divide":
            return old / 2
        return old * 2 if op == "multiply" else (old + 3 if op == "add" else (old - 1 if op == "subtract" else v))

    for i, (op, mask, idx) in enumerate(ops):
        what = f"after {ops[: i + 1]}"
        on = [True] * len(its) if mask is None else list(mask)
        wh = where_of(batch, mask, as_list=i % 2 == 1)
        args = {} if mask is None else {"where": wh}
        if op in ("append", "appendleft"):
            vs, value = make(bool(batch) and i % 2 == 0)
            ok = all(len(l) < cap for l, o in zip(model, on) if o)
            name = "append_" if op == "append" else "appendleft_"
            if op == "append" and i % 2:
                name = "push_"
            call = lambda: getattr(lst, name)(value, **args)
            if ok:
                call()
                for l, o, v in zip(model, on, vs):
                    if o:
                        l.insert(0, v) if op == "appendleft" else l.append(v)
            elif verify:
                require(isinstance(raises(call), IndexError), "%s: adding to a full list is accepted", what)
            else:
                return
        elif op in ("pop", "popleft"):
            ok = all(l for l, o in zip(model, on) if o)
            call = lambda: getattr(lst, op + "_")(**args)
            if ok:
                got = call()
                got = got.reshape((len(its),) + tuple(vshape))
                for j, (l, o) in enumerate(zip(model, on)):
                    if o:
                        near(got[j], l.pop(-1 if op == "pop" else 0), what + ": item %d popped", j)
            elif verify:
                require(isinstance(raises(call), IndexError), "%s: popping from an empty list is accepted", what)
            else:
                return
        elif op == "clear":
            lst.clear(**args)
            for l, o in zip(model, on):
                if o:
                    l.clear()
        else:
            ok = all(-len(l) <= idx < len(l) for l, o in zip(model, on) if o)
            vs, value = make(bool(batch))
            if op == "set":
                call = (lambda: lst.__setitem__(idx, value)) if mask is None else (lambda: lst.set_(idx, value, where=wh))
            else:
                operand = {"multiply": 2, "add": 3, "subtract": 1, "divide": 2}[op]
                call = lambda: getattr(lst, op + "_")(idx, operand, **args)
            if ok:
                call()
                for l, o, v in zip(model, on, vs):
                    if o:
                        l[idx] = alter(op, l[idx], v)
            elif verify:
                require(isinstance(raises(call), IndexError), "%s: index %d is accepted", what, idx)
            else:
                return
        length = lst.length
        require(tuple(length.shape) == tuple(batch), "%s: length of shape %s", what, tuple(length.shape))
        require(length.reshape(-1).tolist() == [len(l) for l in model], "%s: lengths %s instead of %s", what, length.tolist(), [len(l) for l in model])
        if i < len(ops) - 1:
            ctx.step()
            continue
        for k in list(range(-cap - 1, cap + 2)) + [2 * cap]:
            got = lst.get(k, 88).reshape((len(its),) + tuple(vshape))
            for j, l in enumerate(model):
                near(got[j], l[k] if -len(l) <= k < len(l) else np.full(vshape, 88.0), what + ": item %d index %d", j, k)
            if all(-len(l) <= k < len(l) for l in model):
                got = lst[k].reshape((len(its),) + tuple(vshape))
                for j, l in enumerate(model):
                    near(got[j], l[k], what + ": item %d index %d without default", j, k)
            elif verify:
                require(isinstance(raises(lst.get, k), IndexError), "%s: index %d can be read from lists of lengths %s", what, k, [len(l) for l in model])
        if batch:
            # an own index per item
            ks = [-1 - (j % 2) for j in range(len(its))]
            got = lst.get(spread(batch, ks, torch.int64), 88).reshape((len(its),) + tuple(vshape))
            for j, (l, k) in enumerate(zip(model, ks)):
                near(got[j], l[k] if -len(l) <= k else np.full(vshape, 88.0), what + ": item %d index %d of its own", j, k)
        ctx.step()
    ctx.state(cap, [[np.round(v, 3).tolist() for v in l] for l in model])


# ------------------------------------------------------------------ bags


def bag(ctx, cap, batch, vrange, pushes, dtype):
    def run(chooser):
        o = rng.Oracle(chooser, span=12)
        kw = {"batch_shape": tuple(batch)} if batch else {}
        if vrange is not None:
            kw["value_range"] = vrange
        with rng.active(o):
            b = CBag(max_length=cap, dtype=dtype, **kw)
            its = items_of(batch)
            log = []
            for rnd in range(2):
                model = [[] for _ in its]
                for i, (v, mask) in enumerate(pushes):
                    vs = [v] * len(its) if i % 2 else [pushes[(i + j) % len(pushes)][0] for j in range(len(its))]
                    on = [True] * len(its) if mask is None else list(mask)
                    value = torch.tensor(v) if i % 2 else spread(batch, vs, torch.int64)
                    args = {} if mask is None else {"where": where_of(batch, mask, False)}
                    ok = all(len(m) < cap for m, x in zip(model, on) if x)
                    if not ok:
                        require(isinstance(raises(b.push_, value, **args), IndexError), "pushing into a full bag is accepted")
                        continue
                    b.push_(value, **args)
                    for m, x, w in zip(model, on, vs):
                        if x:
                            m.append(w)
                    require(b.length.reshape(-1).tolist() == [len(m) for m in model], "lengths %s", b.length.tolist())
                first = True
                while any(model):
                    on = [bool(m) for m in model]
                    if first and len(its) > 1:
                        on = [x and j % 2 == 0 for j, x in enumerate(on)]
                        if not any(on):
                            on = [bool(m) for m in model]
                    first = False
                    got = b.pop_(where=spread(batch, on, torch.bool)) if not all(on) else b.pop_()
                    require(got.dtype == b.dtype and tuple(got.shape) == tuple(batch), "pop gives %s", got)
                    for j, (m, x, g) in enumerate(zip(model, on, got.reshape(-1).tolist())):
                        if x:
                            require(g in m, "item %d of the bag gave %s, it holds %s", j, g, m)
                            m.remove(g)
                    log.append(got)
                    require(b.length.reshape(-1).tolist() == [len(m) for m in model], "lengths %s instead of %s", b.length.tolist(), [len(m) for m in model])
                    require(raises(b.push_, 0) is not None, "pushing after sampling is accepted")
                    ctx.step()
                require(isinstance(raises(b.pop_), IndexError), "popping from an empty bag is accepted")
                b.clear()
                require(b.length.reshape(-1).tolist() == [0] * len(its), "lengths %s after clearing", b.length.tolist())
        ctx.state(log)
        return log

    return run


def large_bag(cap, dtype):
    b = CBag(max_length=cap, batch_size=2, dtype=dtype)
    for v in range(cap):
        b.push_(v)
    got = torch.stack([b.pop_() for _ in range(cap)])
    for j in range(2):
        require(sorted(got[:, j].tolist()) == list(range(cap)), "a bag of 0..%d gave %s", cap - 1, got[:, j].tolist())


def bools(ctx, batch, seq):
    """Boolean memories: adding is 'or', multiplying is 'and'."""
    mem = CMemory(num_keys=2, batch_shape=batch, dtype=torch.bool, fill_with=False)
    its = items_of(batch)
    model = [[False, False] for _ in its]
    for op, key, value, mask in seq:
        on = [True] * len(its) if mask is None else list(mask)
        getattr(mem, op + "_")(key, value, where_of(batch, mask, False))
        for m, x in zip(model, on):
            if x:
                m[key] = {"set": value, "add": m[key] or value, "multiply": m[key] and value}[op]
        for k in range(2):
            require(mem[k].reshape(-1).tolist() == [m[k] for m in model], "after %s: key %d is %s instead of %s", seq, k, mem[k].tolist(), [m[k] for m in model])
    ctx.step(len(seq))
    ctx.state(model)


def misuse():
    bad = {
        "short keys": lambda: CMemory(num_keys=[3]),
        "offset length": lambda: CMemory(num_keys=(2, 2), key_offset=(1,)),
        "offset list": lambda: CMemory(num_keys=2, key_offset=[1]),
        "two batch shapes": lambda: CMemory(num_keys=2, batch_shape=2, batch_size=2),
        "key shape": lambda: CMemory(num_keys=2, batch_size=2, fill_with=0)[[0, 1, 0]],
        "value shape": lambda: CMemory(3, num_keys=2, batch_size=2).set_(0, [1.0, 2.0]),
        "where shape": lambda: CMemory(num_keys=2, batch_size=2).set_(0, 1.0, where=[True]),
        "bag dtype": lambda: CBag(max_length=3, dtype=torch.float32),
        "in dict": lambda: 1 in CDict(num_keys=3),
        "in list": lambda: 1 in CList(max_length=3),
    }
    for k, f in bad.items():
        require(raises(f) is not None, "%s accepted", k)
    d = CDict(num_keys=3, batch_size=(2, 2))
    require(d.is_batched and not CDict(num_keys=2).is_batched and d.batch_ndim == 2, "is_batched")


class Holder:
    def __init__(self, generator):
        self.generator = generator


def own_generator(ctx, cap, batch, form, seed, dtype):
    """A bag with its own source of randomness: the same draws as another such bag, none of the global ones."""
    n = len(items_of(batch))

    def drawn(s, noise):
        g = torch.Generator()
        g.manual_seed(s)
        given = {"generator": g, "holder": Holder(g), "empty holder": Holder(None), "none": None}[form]
        kw = {"batch_shape": tuple(batch)} if batch else {}
        b = CBag(max_length=cap, generator=given, dtype=dtype, **kw)
        if form in ("empty holder", "none"):
            torch.manual_seed(s)
        else:
            torch.manual_seed(1000 + noise)
        before = torch.random.get_rng_state()
        for v in range(cap):
            b.push_(v)
        out = [b.pop_() for _ in range(cap)]
        ctx.step(2 * cap)
        used = not torch.equal(before, torch.random.get_rng_state())
        mine = not torch.equal(g.get_state(), torch.Generator().manual_seed(s).get_state())
        return torch.stack(out).reshape(cap, n).T.tolist(), used, mine

    a, used, mine = drawn(seed, 0)
    b, _, _ = drawn(seed, 1)
    require(a == b, "two bags with equal generators gave %s and %s", a, b)
    require(all(sorted(r) == list(range(cap)) for r in a), "drawn %s", a)
    own = form in ("generator", "holder")
    if cap > 1:
        require(used == (not own), "%s: the global generator was %s", form, "used" if used else "not used")
        require(mine == own, "%s: the generator given was %s", form, "used" if mine else "not used")
    ctx.state(cap, batch, form, seed, a)


def accessors(kind, batch, vshape, dtype):
    """What a structure tells about itself is what it was declared to be."""
    kw = {"dtype": dtype}
    if batch:
        kw["batch_size" if len(batch) == 1 else "batch_shape"] = batch[0] if len(batch) == 1 else tuple(batch)
    for given in (vshape, (tuple(vshape),)) if vshape else (vshape,):
        if kind == "memory":
            x = CMemory(*given, num_keys=3, fill_with=0, **kw)
        elif kind == "dict":
            x = CDict(*given, num_keys=3, **kw)
        else:
            x = CList(*given, max_length=3, **kw)
        require(tuple(x.value_shape) == tuple(vshape) and x.value_ndim == len(vshape), "value shape %s, %s", x.value_shape, x.value_ndim)
        require(tuple(x.batch_shape) == tuple(batch) and x.batch_ndim == len(batch) and x.is_batched == bool(batch), "batch shape %s, %s", x.batch_shape, x.is_batched)
        require(x.dtype == dtype and torch.device(x.device) == torch.device("cpu"), "of type %s on %s", x.dtype, x.device)
        require(tuple(x.data.shape) == tuple(batch) + (3,) + tuple(vshape) and x.data.dtype == dtype, "data of shape %s", tuple(x.data.shape))
        v = x.prepare_value_tensor(2)
        require(tuple(v.shape) == tuple(batch) + tuple(vshape) and v.dtype == dtype and bool((v == 2).all()), "prepared value %s", v)
        if batch:
            w = x.prepare_where_tensor(spread(batch, [j % 2 == 0 for j in range(len(items_of(batch)))]))
            require(tuple(w.shape) == tuple(batch) and w.dtype == torch.bool and w.reshape(-1).tolist() == [j % 2 == 0 for j in range(len(items_of(batch)))], "prepared mask %s", w)


def words(alphabet, depth):
    return itertools.product(alphabet, repeat=depth)


def run(ctx):
    T = ctx.thorough

    def cfg(batch=(), value=(), keys=3, offset=None, **kw):
        return dict(batch=batch, value=value, keys=keys, offset=offset, **kw)

    def alphabet(c, kind, small):
        ms = masks(c["batch"])
        ops = OPS if kind == "memory" else OPS[:5]
        if small:
            ops = ops[:2] + ops[-2:-1] if kind == "memory" else ["set", "add"]
        out = [(op, k, v, m) for op in ops for k in (("one", 1), ("each", 1)) for v in ("scalar", "one", "all") for m in ms]
        if small:
            out = [x for i, x in enumerate(out) if x[2] != "one" and (i % 2 == 0 or x[3] is None)]
        out += [("set", ("bad", b), "all", m) for b in (0, 1, 2) for m in ms if m is not None or b]
        out += [("add", ("bad", b), "scalar", m) for b in (0, 1) for m in ms if m is not None or b]
        if small:
            out = out[:-4]
        if kind == "dict":
            out += [("clear", None, None, m) for m in ms]
        return out

    single = [
        cfg(),
        cfg(value=(2,)),
        cfg(batch=(2,)),
        cfg(batch=(2,), value=(2,), offset=1),
        cfg(batch=(2,), keys=(2, 2), value=(2,)),
        cfg(batch=(2,), keys=(2, 2), offset=(1, -3)),
        cfg(keys=(2, 3), offset=2),
        cfg(batch=(2, 2)),
        cfg(batch=(2, 3), value=(2,), keys=2),
        cfg(batch=(3, 2), keys=(2, 2), offset=-1),
        cfg(batch=(2,), keys=2, offset=-5),
        cfg(batch=(2, 2, 2), keys=2),
        cfg(batch=(2,), dtype=torch.float64),
    ]
    for kind in ("memory", "dict"):
        for c in single:
            for op in alphabet(c, kind, False):
                # every operation after a filling one
                pre = ("set", ("each", 0), "all", None)
                ctx.case("single operations", {"kind": kind, "cfg": {k: str(v) for k, v in c.items()}, "op": op}, memory_history, ctx, kind, c, [pre, op, op])
        for c in (cfg(), cfg(batch=(2,)), cfg(batch=(2,), keys=(2, 2), offset=(1, -3)), cfg(batch=(2, 2), value=(2,), offset=1)):
            alpha = alphabet(c, kind, True)
            for ops in words(alpha, 2):
                ctx.case("histories", {"kind": kind, "cfg": {k: str(v) for k, v in c.items()}, "ops": ops}, memory_history, ctx, kind, c, list(ops))
        c = cfg(batch=(2,))
        alpha = [("set", ("each", 1), "all", None), ("set", ("one", 0), "scalar", (True, False)), ("add", ("one", 1), "scalar", None), ("multiply", ("each", 0), "all", (False, True)), ("set", ("bad", 0), "all", (False, True))]
        alpha += [("clear", None, None, (True, False)), ("clear", None, None, None)] if kind == "dict" else [("subtract", ("one", 1), "one", None), ("divide", ("each", 1), "all", (True, False)), ("circular", ("one", 0), "scalar", (True, True))]
        for ops in words(alpha, 5 if T else 4):
            ctx.case("long histories", {"kind": kind, "ops": ops}, memory_history, ctx, kind, c, list(ops))
    for batch in ((2,), (2, 2)):
        alpha = [(op, k, v, m) for op in ("set", "add", "multiply") for k in (0, 1) for v in (True, False) for m in masks(batch)[:4]]
        for seq in words(alpha, 2):
            ctx.case("booleans", {"batch": batch, "seq": seq}, bools, ctx, batch, seq)

    for cap in (1, 2, 3):
        for batch in ((), (2,)):
            ms = [None] if not batch else [None, (True, False), (False, True)]
            ends = [(op, m, None) for op in ("append", "appendleft", "pop", "popleft") for m in ms]
            depth = (5 if batch else 7) if T else ((4 if cap == 2 else 3) if batch else 6)
            for ops in itertools.chain.from_iterable(words(ends, d) for d in range(1, depth + 1)):
                ctx.case("lists: ends", {"cap": cap, "batch": batch, "ops": ops}, list_history, ctx, cap, batch, (), list(ops), True, torch.float32)
            mid = [("append", None, None), ("append", ms[-1], None), ("popleft", ms[-1], None), ("appendleft", None, None), ("clear", ms[-1], None)]
            mid = list(dict.fromkeys(mid))
            mid += [(op, m, i) for op, i in (("set", 0), ("set", -1), ("set", 1), ("add", -2), ("multiply", 2), ("subtract", 3), ("set", -4)) for m in ms[:2]]
            for ops in itertools.chain(words(mid, 1), words(mid, 2), words(mid, 3), words(mid, 4) if T else ()):
                if len(ops) == 2 and ops[0][0] == "append":
                    for m, i in itertools.product(ms, (0, -1, 1, -2)):
                        ctx.case("lists: elements", {"cap": cap, "batch": batch, "ops": ops, "divided": (m, i)}, list_history, ctx, cap, batch, (2,), [*ops, ("divide", m, i)], True, torch.float64)
                for vshape, dtype in (((), torch.int64), ((2,), torch.float64)) if len(ops) < 3 else (((), torch.float32),):
                    ctx.case("lists: elements", {"cap": cap, "batch": batch, "ops": ops, "value": vshape}, list_history, ctx, cap, batch, vshape, list(ops), True, dtype)
    for batch in ((2, 2), (2, 3), (1,)):
        ms = masks(batch)
        ends = [(op, m, None) for op in ("append", "appendleft", "pop", "popleft", "clear") for m in ms[:4] if m is None or any(m)]
        for ops in itertools.chain(words(ends, 1), words(ends, 2), words(ends, 3)):
            ctx.case("lists: batches", {"batch": batch, "ops": ops}, list_history, ctx, 2, batch, (2,), list(ops), True, torch.float32)
    ends = [(op, m, None) for op in ("append", "appendleft", "pop", "popleft") for m in (None, (True, False), (False, True))]
    for ops in words(ends, 3):
        ctx.case("lists: unverified", {"ops": ops}, list_history, ctx, 2, (2,), (), list(ops), False, torch.float32)

    for batch in ((), (2,), (2, 2)):
        n = len(items_of(batch))
        ms = [None] if not batch else [None, tuple(j == 0 for j in range(n)), tuple(j > 0 for j in range(n))]
        for cap, vrange in ((3, None), (2, None), (3, (0, 5)), (3, (5, 8)), (3, (1, 4)), (3, (-3, 0)), (2, (-1, 2))):
            lo, hi = vrange or (0, cap)
            for vals in ([lo], [lo, hi - 1], [lo + 1, lo + 1], [lo, lo + 1, hi - 1], [lo, lo, lo + 1], [lo, lo + 1, lo + 1, lo]):
                for mk in words(ms, 1 if len(batch) == 2 else min(2, len(vals))):
                    pushes = [(v, mk[i % len(mk)]) for i, v in enumerate(vals)]
                    for dtype in (torch.int64, torch.int16) if not batch else (torch.int64,):
                        desc = {"cap": cap, "batch": batch, "range": vrange, "pushes": pushes, "dtype": str(dtype)}
                        ctx.explore("bags", desc, bag(ctx, cap, batch, vrange, pushes, dtype), bound=(3 if T else 2) if not batch else 1)
    for cap in (4, 200, 400):
        for dtype in (torch.int16, torch.int32, torch.int64):
            ctx.case("large bags", {"cap": cap, "dtype": str(dtype)}, large_bag, cap, dtype)
    for cap, batch, form, seed, dtype in itertools.product((1, 2, 3, 4), ((), (2,), (2, 2)), ("generator", "holder", "empty holder", "none"), range(4), (torch.int64, torch.int16)):
        ctx.case("own generators", {"cap": cap, "batch": batch, "form": form, "seed": seed, "dtype": str(dtype)}, own_generator, ctx, cap, batch, form, seed, dtype)
    for kind, batch, vshape, dtype in itertools.product(("memory", "dict", "list"), ((), (2,), (2, 3)), ((), (2,), (2, 3)), (torch.float32, torch.float64, torch.int64)):
        ctx.case("accessors", {"kind": kind, "batch": batch, "value": vshape, "dtype": str(dtype)}, accessors, kind, batch, vshape, dtype)
    ctx.case("misuse", {}, misuse)
