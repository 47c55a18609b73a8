"""P23: read-only tensors and immutable containers cannot be changed via their API."""

import copy
import itertools
import operator
import pickle

import numpy as np
import torch
import torch.nn.functional as F
import torch.overrides as ov
from evotorch.tools import ObjectArray, as_immutable, as_read_only_tensor, mutable_copy, read_only_tensor
from evotorch.tools.immutable import ImmutableDict, ImmutableList, ImmutableSet
from evotorch.tools.readonlytensor import ReadOnlyTensor

from mc.ctx import require
from mc.util import raises

META = {
    "bounds": "every function overridable by tensor subclasses (about 1470, by introspection) x 6 tensors x 20 argument patterns; every view-producing one of them followed by 30 mutators, and by every second view; all container graphs of 2 nodes with 2 slots, all nestings up to depth 2; every public member of the containers with a small argument domain",
    "assumptions": [
        "deliberate escapes (as_subclass, _base, dlpack, raw storages, the unbound torch.Tensor.numpy and set_) are not supported operations",
        "tuples become immutable lists, and lists when copied back",
    ],
}

KINDS = {
    "float": lambda: torch.tensor([[0.25, 0.5], [0.75, -0.5]]),
    "vector": lambda: torch.tensor([0.25, 0.75, -0.5]),
    "int": lambda: torch.tensor([[1, 2], [3, 0]]),
    "bool": lambda: torch.tensor([True, False]),
    "complex": lambda: torch.tensor([1 + 2j, 3 - 1j]),
    "scalar": lambda: torch.tensor(0.5),
}


def c(r):
    return r.as_subclass(torch.Tensor).clone()


I0 = torch.zeros(0, dtype=torch.int64)
PATTERNS = [
    lambda r: ((r,), {}),
    lambda r: ((r, c(r)), {}),
    lambda r: ((r, 0), {}),
    lambda r: ((r, 0.5), {}),
    lambda r: ((r, 0, 1), {}),
    lambda r: ((r, torch.zeros_like(c(r))), {}),
    lambda r: ((r, r, r), {}),
    lambda r: ((c(r),), {"out": r}),
    lambda r: ((c(r), c(r)), {"out": r}),
    lambda r: ((c(r), 0), {"out": (r, I0.clone())}),
    lambda r: ((c(r),), {"out": (r, I0.clone())}),
    lambda r: ((r,), {"inplace": True}),
    lambda r: ((c(r), r), {}),
    lambda r: ((r, (2, 2)), {}),
    lambda r: ((r, torch.float64), {}),
    lambda r: ((r, 0, torch.tensor([0]), c(r)[:1]), {}),
    lambda r: ((r, 0, torch.tensor([0]), 1.0), {}),
    lambda r: ((r, torch.zeros_like(c(r), dtype=torch.bool), 1), {}),
    lambda r: ((r, torch.ones_like(c(r), dtype=torch.bool), 1), {}),
    lambda r: ((r, (torch.tensor([0]),), torch.tensor(7)), {}),
]

# Escape hatches of torch itself (see the assumptions), and torch.Tensor.index, which does not terminate on scalars.
ESCAPES = {"_base.__get__", "numpy", "set_", "as_subclass", "index", "__dlpack__", "storage", "untyped_storage"}


def functions():
    found = {}
    for lst in ov.get_overridable_functions().values():
        for f in lst:
            name = ov.resolve_name(f) or getattr(f, "__name__", str(f))
            if not (name.startswith("torch.Tensor.") and name[len("torch.Tensor.") :] in ESCAPES):
                found[name] = f
    return sorted(found.items())


def parts(res, depth=0):
    if isinstance(res, (torch.Tensor, np.ndarray)):
        yield res
    elif isinstance(res, (tuple, list)) and depth < 3:
        for x in res:
            yield from parts(x, depth + 1)


def shares(x, t):
    if isinstance(x, np.ndarray):
        return x.size > 0 and np.shares_memory(x, t.detach().numpy())
    try:
        return x.numel() > 0 and x.untyped_storage().data_ptr() == t.untyped_storage().data_ptr()
    except (RuntimeError, NotImplementedError):
        return False


def protected(x):
    return (not x.flags.writeable) if isinstance(x, np.ndarray) else isinstance(x, ReadOnlyTensor)


def attempt(what, t, before, r, fn):
    """Run fn, which may be refused; contents must stay and views must be protected. Returns the views."""
    try:
        res = fn()
    except Exception:
        res = None
    plain_r = r.as_subclass(torch.Tensor)
    require(torch.equal(t, before), "%s changed the contents to %s", what, t)
    require(
        plain_r.shape == before.shape and plain_r.data_ptr() == t.data_ptr() and plain_r.dtype == before.dtype,
        "%s changed what the read-only tensor refers to", what,
    )
    views = []
    for x in parts(res):
        if shares(x, t):
            require(protected(x), "%s gave an unprotected view of type %s", what, type(x).__name__)
            views.append(x)
    return views


def api(ctx, names):
    fs = dict(functions())
    for name in names:
        views = set()
        for kind, make in KINDS.items():
            for k, pattern in enumerate(PATTERNS):
                t = make()
                before = t.clone()
                r = as_read_only_tensor(t)
                try:
                    a, kw = pattern(r)
                except IndexError:  # not applicable to a scalar
                    continue
                got = attempt(f"{name} on {kind} with argument pattern {k}", t, before, r, lambda: fs[name](*a, **kw))
                ctx.step()
                if got and k < 7 or got and 13 <= k <= 14:
                    views.add((kind, k))
                    ctx.state(name, kind, k, len(got))
        for kind, k in sorted(views):
            second(ctx, name, fs[name], kind, k)


def mutators(x, dst):
    """Ways to write into x."""
    one = torch.ones((), dtype=dst.dtype)
    yield "x[...] = 1", lambda: operator.setitem(x, ..., 1)
    yield "x[0] = 1", lambda: operator.setitem(x, 0, 1)
    for op in ("iadd", "isub", "imul", "ipow", "itruediv", "ifloordiv", "imod", "iand", "ior", "ixor", "ilshift", "irshift", "imatmul"):
        yield op, lambda op=op: getattr(operator, op)(x, 3)
    if isinstance(x, np.ndarray):
        yield "fill", lambda: x.fill(1)
        yield "out", lambda: np.add(x, 1, out=x)
        yield "sort", lambda: x.sort()
        yield "copyto", lambda: np.copyto(x, 1)
        yield "setflags+fill", lambda: x.fill(1)
        return
    for m in ("add_", "mul_", "fill_", "copy_"):
        yield m, lambda m=m: getattr(x, m)(one)
        yield "torch.Tensor." + m, lambda m=m: getattr(torch.Tensor, m)(x, one)
    for m in ("zero_", "neg_", "sqrt_", "sin_"):
        yield m, lambda m=m: getattr(x, m)()
    yield "torch.relu_", lambda: torch.relu_(x)
    yield "F.relu inplace", lambda: F.relu(x, True)
    yield "out", lambda: torch.add(c(x), 1, out=x)
    yield "x.real =", lambda: setattr(x, "real", torch.ones(x.shape))
    yield "x.imag =", lambda: setattr(x, "imag", torch.ones(x.shape))
    yield "x.data[...] =", lambda: operator.setitem(x.data, ..., 1)
    yield "x.T[...] =", lambda: operator.setitem(x.T, ..., 1)
    yield "x.numpy()[...] =", lambda: operator.setitem(x.numpy(), ..., 1)
    yield "np.asarray(x)[...] =", lambda: operator.setitem(np.asarray(x), ..., 1)
    yield "np.add out", lambda: np.add(np.asarray(x), 1, out=np.asarray(x))
    yield "detach().fill_", lambda: x.detach().fill_(1)
    yield "view(-1)[0] =", lambda: operator.setitem(x.view(-1), 0, 1)
    yield "reshape(-1)[0] =", lambda: operator.setitem(x.reshape(-1), 0, 1)
    yield "iteration", lambda: [y.fill_(1) for y in x]
    yield "unbind", lambda: [y.fill_(1) for y in x.unbind()]
    yield "copy.copy view", lambda: copy.copy(x)


SECOND = {
    "[0]": lambda x: x[0],
    "[...]": lambda x: x[...],
    "[None]": lambda x: x[None],
    "view(-1)": lambda x: x.view(-1),
    "reshape(-1)": lambda x: x.reshape(-1),
    "T": lambda x: x.T,
    "detach": lambda x: x.detach(),
    "data": lambda x: x.data,
    "numpy": lambda x: x.numpy(),
    "asarray": lambda x: np.asarray(x),
    "unbind": lambda x: x.unbind(),
    "list": lambda x: list(x),
    "expand": lambda x: x.expand(3, *x.shape),
    "real": lambda x: x.real,
    "as_tensor": lambda x: torch.as_tensor(x),
    "flatten": lambda x: torch.flatten(x),
    "contiguous": lambda x: x.contiguous(),
    "to": lambda x: x.to("cpu"),
    "split": lambda x: torch.split(x, 1),
    "diagonal": lambda x: torch.diagonal(x),
}


def second(ctx, name, f, kind, k):
    t = KINDS[kind]()
    before = t.clone()
    r = as_read_only_tensor(t)
    a, kw = PATTERNS[k](r)
    views = [x for x in parts(f(*a, **kw)) if shares(x, t)][:2]
    for x in views:
        for label, fn in mutators(x, t):
            attempt(f"{label} on a view by {name} of {kind}", t, before, r, fn)
            ctx.step()
        if isinstance(x, np.ndarray):
            continue
        for label, fn in SECOND.items():
            for y in attempt(f"{label} of a view by {name} of {kind}", t, before, r, lambda: fn(x)):
                if isinstance(y, np.ndarray):
                    attempt("writing", t, before, r, lambda: y.fill(1))
                else:
                    attempt("writing", t, before, r, lambda: y.fill_(1))
                    attempt("writing", t, before, r, lambda: operator.setitem(y, ..., 1))
            ctx.step()


def rot_values(ctx, kind):
    """Direct use: mutators, copies, pickling."""
    t = KINDS[kind]()
    before = t.clone()
    r = as_read_only_tensor(t)
    for label, fn in mutators(r, t):
        attempt(label, t, before, r, fn)
        ctx.step()
    for label, fn in SECOND.items():
        attempt(label, t, before, r, lambda: fn(r))
    for label, fn, ro in (
        ("clone()", lambda: r.clone(), False),
        ("clone(preserve_read_only=True)", lambda: r.clone(preserve_read_only=True), True),
        ("copy.copy", lambda: copy.copy(r), True),
        ("copy.deepcopy", lambda: copy.deepcopy(r), True),
        ("pickle", lambda: pickle.loads(pickle.dumps(r)), True),
        ("mutable_copy", lambda: mutable_copy(r), False),
        ("as_immutable of a tensor", lambda: as_immutable(t), True),
    ):
        x = fn()
        require(torch.equal(x.as_subclass(torch.Tensor), before) and x.dtype == t.dtype, "%s gave %s", label, x)
        require(isinstance(x, ReadOnlyTensor) == ro, "%s gave a %s", label, type(x).__name__)
        require(not shares(x, t), "%s shares its memory with the original", label)
        if not ro:
            x.fill_(1)
            require(torch.equal(t, before), "writing into %s changed the original", label)
        else:
            require(raises(lambda: x.fill_(1)) is not None and raises(lambda: operator.setitem(x, ..., 1)) is not None, "%s was modifiable", label)
        ctx.step()
    # documented equivalences to torch.as_tensor
    for x in (t.tolist(), t.numpy().copy(), t):
        q = read_only_tensor(x)
        require(isinstance(q, ReadOnlyTensor) and torch.equal(q.as_subclass(torch.Tensor), torch.as_tensor(x)), "read_only_tensor(%s) = %s", x, q)
    if kind in ("float", "vector", "int"):
        for a, b in itertools.product((0, 1, -1), repeat=2):
            exp = before + a * before - b
            got = r + a * r - b
            require(torch.equal(got.as_subclass(torch.Tensor), exp), "arithmetic gave %s, expected %s", got, exp)
        idx = torch.tensor([1, 0])
        picked = r[idx]
        require(torch.equal(picked.as_subclass(torch.Tensor), before[idx]), "index selection gave %s", picked)
        require(not isinstance(picked, ReadOnlyTensor), "an index-selected copy must be an ordinary tensor")
        picked.fill_(1)
        require(torch.equal(t, before), "writing into an index-selected copy changed the original")


# ---- containers --------------------------------------------------------


def shape_of(x, seen=None):
    """Structure, data and sharing of nested containers, whatever their mutability."""
    if seen is None:
        seen = {}
    if x is None or isinstance(x, (str, int, float, complex, bool)):
        return x
    if id(x) in seen:
        return ("ref", seen[id(x)][0])
    n = len(seen)
    seen[id(x)] = (n, x)
    if isinstance(x, torch.Tensor):
        return ("tensor", n, str(x.dtype), x.as_subclass(torch.Tensor).tolist())
    if isinstance(x, np.ndarray) and x.dtype != object:
        return ("numpy", n, str(x.dtype), x.tolist())
    if isinstance(x, (np.ndarray, ObjectArray)):
        return ("objects", n, [shape_of(y, seen) for y in x])
    if isinstance(x, (dict, ImmutableDict)):
        return ("dict", n, [(k, shape_of(v, seen)) for k, v in x.items()])
    if isinstance(x, (set, ImmutableSet)):
        return ("set", n, sorted((shape_of(y, seen) for y in x), key=repr))
    if isinstance(x, (list, tuple, ImmutableList)):
        return ("list", n, [shape_of(y, seen) for y in x])
    raise AssertionError(f"unexpected {type(x)}")


def everything(x, seen=None):
    """All containers and arrays within x."""
    if seen is None:
        seen = {}
    if x is None or isinstance(x, (str, int, float, complex, bool)) or id(x) in seen:
        return []
    seen[id(x)] = x
    out = [x]
    if isinstance(x, torch.Tensor) or (isinstance(x, np.ndarray) and x.dtype != object):
        return out
    for y in x.values() if isinstance(x, (dict, ImmutableDict)) else x:
        out += everything(y, seen)
    return out


def immutable_everywhere(x, what):
    for y in everything(x):
        ok = (
            isinstance(y, (ReadOnlyTensor, ImmutableList, ImmutableDict, ImmutableSet))
            or isinstance(y, ObjectArray) and y.is_read_only
            or isinstance(y, np.ndarray) and y.dtype != object and not y.flags.writeable
        )
        require(ok, "%s contains a modifiable %s", what, type(y).__name__)
        if isinstance(y, ImmutableList):
            for fn in (lambda: operator.setitem(y, 0, 9), lambda: operator.delitem(y, 0), lambda: y.append(9)):
                require(raises(fn) is not None, "%s: an item of a list could be replaced", what)
        elif isinstance(y, ImmutableDict):
            for fn in (lambda: operator.setitem(y, "a", 9), lambda: operator.delitem(y, "a"), lambda: y.update(a=9), lambda: y.pop("a")):
                require(raises(fn) is not None, "%s: an item of a dictionary could be replaced", what)
        elif isinstance(y, ImmutableSet):
            for fn in (lambda: y.add(9), lambda: y.discard(9)):
                require(raises(fn) is not None, "%s: the items of a set could be changed", what)
        elif isinstance(y, ObjectArray) and len(y) > 0:
            for fn in (lambda: operator.setitem(y, 0, 9), lambda: operator.setitem(y, slice(None), [9] * len(y)), lambda: y.set_item(0, 9)):
                require(raises(fn) is not None, "%s: an item of an object array could be replaced", what)


def mutable_everywhere(x, what):
    for y in everything(x):
        ok = (
            type(y) in (torch.Tensor, list, dict, set)
            or isinstance(y, np.ndarray) and y.flags.writeable
        )
        require(ok, "%s contains a %s", what, type(y).__name__)


def wreck(x):
    """Overwrite all that can be overwritten."""
    for y in everything(x):
        if isinstance(y, torch.Tensor):
            if y.numel() and not isinstance(y, ReadOnlyTensor):
                y.fill_(77)
        elif isinstance(y, np.ndarray) and y.dtype != object:
            if y.flags.writeable:
                y.fill(77)
        elif isinstance(y, (np.ndarray, ObjectArray)):
            for i in range(len(y) if (y.flags.writeable if isinstance(y, np.ndarray) else not y.is_read_only) else 0):
                y[i] = 77
        elif isinstance(y, list):
            y.clear()
        elif isinstance(y, dict):
            y.clear()
        elif isinstance(y, set):
            y.clear()


def container(ctx, make):
    what = "the immutable form"
    x = make()
    src = shape_of(x)
    im = as_immutable(x)
    require(shape_of(im) == src, "%s is %s, the original %s", what, shape_of(im), src)
    immutable_everywhere(im, what)
    require(as_immutable(im) is im, "an immutable object is not its own immutable form")
    wreck(x)
    require(shape_of(im) == src, "%s changed together with its source: %s, expected %s", what, shape_of(im), src)
    ctx.step(3)
    for label, fn in (("pickling", lambda: pickle.loads(pickle.dumps(im))), ("deepcopy", lambda: copy.deepcopy(im)), ("clone", lambda: clone(im)), ("copy", lambda: copy.copy(im))):
        y = fn()
        require(shape_of(y) == src, "after %s: %s, expected %s", label, shape_of(y), src)
        immutable_everywhere(y, "the result of " + label)
        ctx.step()
    m = mutable_copy(im)
    require(shape_of(m) == src, "the mutable copy is %s, expected %s", shape_of(m), src)
    mutable_everywhere(m, "the mutable copy")
    again = as_immutable(m)
    require(shape_of(again) == src, "back and forth gave %s, expected %s", shape_of(again), src)
    wreck(m)
    require(shape_of(im) == src, "changing the mutable copy changed %s: %s", what, shape_of(im))
    require(shape_of(again) == src, "changing the mutable copy changed its own immutable form")
    m2 = im.clone()
    require(shape_of(m2) == src, "clone() is %s, expected %s", shape_of(m2), src)
    wreck(m2)
    require(shape_of(im) == src, "changing clone() changed %s: %s", what, shape_of(im))
    ctx.step(4)
    ctx.state(src)


def clone(x):
    return x.clone(preserve_read_only=True)


def graph(kinds, slots):
    """Nodes with two slots each; a slot refers to a scalar, a shared array, or a node."""
    arr = np.array([1.5, 2.5])
    nodes = [[] if k == "list" else {} if k == "dict" else np.empty(2, dtype=object) for k in kinds]
    for i, k in enumerate(kinds):
        for j in range(2):
            s = slots[2 * i + j]
            v = 5 if s == "s" else arr if s == "a" else nodes[s]
            if k == "list":
                nodes[i].append(v)
            elif k == "dict":
                nodes[i]["ab"[j]] = v
            else:
                nodes[i][j] = v
    return nodes[0]


def leaves():
    return {
        "int": lambda: 3,
        "none": lambda: None,
        "str": lambda: "x",
        "float": lambda: 2.5,
        "bool": lambda: True,
        "tensor": lambda: torch.tensor([1.0, 2.0]),
        "empty tensor": lambda: torch.zeros(0),
        "numpy": lambda: np.array([1, 2]),
        "matrix": lambda: np.array([[1.0], [2.0]]),
        "objects": lambda: objects([1, [2]]),
        "write-protected numpy": lambda: locked(np.array([1, 2])),
        "write-protected objects": lambda: locked(objects([1, [2]])),
        "ObjectArray": lambda: oarray([4, [5], torch.tensor([6.0])]),
        "read-only ObjectArray": lambda: oarray([4, {"k": 1}]).get_read_only_view(),
    }


def objects(items):
    x = np.empty(len(items), dtype=object)
    for i, y in enumerate(items):
        x[i] = y
    return x


def locked(x):
    x.flags.writeable = False
    return x


def oarray(items):
    x = ObjectArray(len(items))
    for i, y in enumerate(items):
        x[i] = y
    return x


def wrappers():
    return {
        "list": lambda *xs: list(xs),
        "tuple": lambda *xs: tuple(xs),
        "dict": lambda *xs: {f"k{i}": x for i, x in enumerate(xs)},
        "dict of tuple keys": lambda *xs: {(i, "a", (i,)): x for i, x in enumerate(xs)},
        "dict of integer keys": lambda *xs: {7 + i: x for i, x in enumerate(xs)},
        "objects": lambda *xs: objects(list(xs)),
    }


def nested(ctx, spec):
    """spec: (wrapper, [specs or leaf names])."""

    def make():
        L, W = leaves(), wrappers()

        def rec(s):
            return L[s]() if isinstance(s, str) else W[s[0]](*[rec(q) for q in s[1]])

        return rec(spec)

    container(ctx, make)


def protected_pieces(ctx):
    """A read-only object array: slices, views, copies, iteration; also made by the constructor."""
    base = oarray([1, [2], {"a": 3}])
    v = base.get_read_only_view()
    ways = {
        "[:]": lambda: v[:],
        "[1:]": lambda: v[1:],
        "[::2]": lambda: v[::2],
        "[[0, 2]]": lambda: v[[0, 2]],
        "mask": lambda: v[torch.tensor([True, False, True])],
        "slice_of": lambda: ObjectArray(slice_of=(v, slice(0, 2))),
        "slice_of indices": lambda: ObjectArray(slice_of=(v, [0, 2])),
        "get_read_only_view": lambda: v.get_read_only_view(),
        "copy": lambda: copy.copy(v),
        "deepcopy": lambda: copy.deepcopy(v),
        "clone": lambda: v.clone(preserve_read_only=True),
        "pickle": lambda: pickle.loads(pickle.dumps(v)),
        "as_immutable": lambda: as_immutable(base),
        "as_read_only_tensor": lambda: as_read_only_tensor(base),
        "read_only_tensor": lambda: read_only_tensor(base),
        "[:][1:]": lambda: v[:][1:],
    }
    for label, fn in ways.items():
        x = fn()
        require(x.is_read_only, "%s of a read-only object array is modifiable", label)
        immutable_everywhere(x, label)
        ctx.step()
    for label, fn in {"clone": lambda: v.clone(), "numpy": lambda: v.numpy(), "mutable_copy": lambda: mutable_copy(v)}.items():
        x = fn()
        mutable_everywhere(x, label)
        wreck(x)
        require(shape_of(v) == ("objects", 0, [1, ("list", 1, [2]), ("dict", 2, [("a", 3)])]), "changing %s changed the view: %s", label, shape_of(v))
        ctx.step()


ARGS = [(), (0,), (-1,), ("a",), (9,), ([9],), ({"a": 9},), (0, 9), ("a", 9), (slice(0, 1), [9]), ({9},), (slice(None),)]
FORBIDDEN = {"__init__", "__new__", "__setattr__", "__delattr__", "__setstate__", "__class__", "__init_subclass__", "__dict__", "__getattribute__", "__del__", "__getstate__", "__reduce__", "__reduce_ex__"}


def members(ctx, which):
    makers = {
        "list": lambda: as_immutable([1, [2], np.array([3])]),
        "dict": lambda: as_immutable({"a": 1, "b": [2]}),
        "set": lambda: as_immutable({1, 2, "a"}),
        "objects": lambda: oarray([1, [2], {"a": 3}]).get_read_only_view(),
    }
    x = makers[which]()
    before = shape_of(x)
    names = [n for n in dir(x) if (not n.startswith("_") or (n.startswith("__") and n.endswith("__"))) and n not in FORBIDDEN]
    for n in names:
        for a in ARGS:
            try:
                f = getattr(x, n)
                res = f(*copy.deepcopy(a)) if callable(f) else f
                if hasattr(res, "__next__"):
                    res = list(res)
                if isinstance(res, (list, dict, set, np.ndarray, ObjectArray)):
                    wreck(res) if not getattr(res, "is_read_only", False) else None
            except Exception:
                pass
            ctx.step()
            require(shape_of(x) == before, "%s%s changed the contents to %s", n, a, shape_of(x))
    for n in dir(operator):
        if n.startswith("_"):
            continue
        for a in ARGS:
            y = x
            try:
                y = getattr(operator, n)(y, *copy.deepcopy(a))
            except Exception:
                pass
            ctx.step()
            require(shape_of(x) == before, "operator.%s%s changed the contents to %s", n, a, shape_of(x))


def generators(ctx, n, kind):
    """Items which live only while being converted must not be mixed up."""
    item = {
        "list": lambda i: [i],
        "dict": lambda i: {"a": i},
        "numpy": lambda i: np.array([i, i]),
        "tensor": lambda i: torch.tensor([i]),
        "nested": lambda i: [[i], {"b": [i]}],
        "objects": lambda i: objects([[i]]),
    }[kind]
    exp = shape_of([item(i) for i in range(n)])
    for label, fn in (
        ("as_immutable", lambda: as_immutable(item(i) for i in range(n))),
        ("ImmutableList", lambda: ImmutableList(item(i) for i in range(n))),
    ):
        got = fn()
        require(shape_of(got) == exp, "%s of a generator gave %s, expected %s", label, shape_of(got), exp)
        ctx.step()
    d = ImmutableDict((f"k{i}", item(i)) for i in range(n))
    require(shape_of(list(d.values())) == exp, "ImmutableDict of a generator gave %s", shape_of(d))
    a = ObjectArray(n)
    a[:] = (item(i) for i in range(n))
    require(shape_of(list(a)) == exp, "ObjectArray filled by a generator gave %s", shape_of(a))
    ctx.state(exp)


def run(ctx):
    names = [n for n, _ in functions()]
    for i in range(0, len(names), 12):
        ctx.case("api", {"from": names[i]}, api, ctx, names[i : i + 12])
    for kind in KINDS:
        ctx.case("tensor", {"kind": kind}, rot_values, ctx, kind)
    # container graphs with sharing and cycles
    nk = ("list", "dict", "objects")
    for kinds in itertools.product(nk, repeat=2):
        for s in itertools.product(("s", "a", 0, 1), repeat=4):
            ctx.case("graph", {"kinds": kinds, "slots": s}, container, ctx, lambda kinds=kinds, s=s: graph(kinds, s))
    if ctx.thorough:
        for kinds in itertools.product(nk, repeat=3):
            for s in itertools.product(("a", 0, 1, 2), repeat=6):
                ctx.case("graph3", {"kinds": kinds, "slots": s}, container, ctx, lambda kinds=kinds, s=s: graph(kinds, s))
    L, W = list(leaves()), list(wrappers())
    for w in W:
        ctx.case("nested", {"spec": [w, []]}, nested, ctx, (w, []))
        for a, b in itertools.product(L, repeat=2):
            ctx.case("nested", {"spec": [w, [a, b]]}, nested, ctx, (w, [a, b]))
        for w2 in W:
            for a, b in itertools.product(L, repeat=2) if ctx.thorough else [(a, L[(i + 5) % len(L)]) for i, a in enumerate(L)]:
                spec = (w, [(w2, [a, b]), b])
                ctx.case("nested", {"spec": spec}, nested, ctx, spec)
    for items in (set(), {1}, {1, "a"}, {2.5, True, "b"}):
        ctx.case("sets", {"items": sorted(map(str, items))}, container, ctx, lambda items=items: set(items))
        ctx.case("sets", {"nested": sorted(map(str, items))}, container, ctx, lambda items=items: [set(items), {"a": set(items)}])
    ctx.case("pieces", {}, protected_pieces, ctx)
    for which in ("list", "dict", "set", "objects"):
        ctx.case("members", {"of": which}, members, ctx, which)
    for n in (1, 2, 5, 20, 100):
        for kind in ("list", "dict", "numpy", "tensor", "nested", "objects"):
            ctx.case("generators", {"n": n, "kind": kind}, generators, ctx, n, kind)
