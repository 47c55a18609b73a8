"""P17: optimizers follow their update rule for every gradient sequence."""

import torch
from evotorch.algorithms.functional import adam, adam_ask, adam_tell, clipup, clipup_ask, clipup_tell, sgd, sgd_ask, sgd_tell
from evotorch.algorithms.functional.misc import get_functional_optimizer
from evotorch.optimizers import SGD, Adam, ClipUp, get_optimizer_class

from mc import ref
from mc.ctx import require
from mc.util import plain, raises, require_same

META = {
    "bounds": "all sequences of 4 (thorough 5) gradients and hyper-parameter changes from an alphabet of 7-8, for 17 stateful and 11 functional optimizer configurations, float32 and float64",
}

GRADS = {
    "zero": [0.0, 0.0, 0.0],
    "unit": [1.0, 0.0, 0.0],
    "back": [-3.0, 0.0, 0.5],
    "diag": [0.3, -0.4, 1.2],
    "big": [2000.0, 100.0, -700.0],
    "small": [1e-5, -2e-5, 0.0],
}

STATEFUL = {
    "adam": ("adam", {"stepsize": 0.1}, dict(lr=0.1)),
    "adam-default": ("adam", {}, dict()),
    "adam-betas": ("adam", {"stepsize": 0.5, "beta1": 0.5, "beta2": 0.75}, dict(lr=0.5, b1=0.5, b2=0.75)),
    "adam-eps": ("adam", {"stepsize": 0.1, "epsilon": 0.5}, dict(lr=0.1, eps=0.5)),
    "adam-ams": (
        "adam",
        {"stepsize": 0.1, "amsgrad": True, "beta1": 0.8, "beta2": 0.3},
        dict(lr=0.1, amsgrad=True, b1=0.8, b2=0.3),
    ),
    "adam-noams": ("adam", {"stepsize": 0.1, "amsgrad": False}, dict(lr=0.1)),
    "sgd": ("sgd", {"stepsize": 0.25}, dict(lr=0.25)),
    "sgd-mom": ("sgd", {"stepsize": 0.25, "momentum": 0.5}, dict(lr=0.25, momentum=0.5)),
    "sgd-damp": (
        "sgd",
        {"stepsize": 0.25, "momentum": 0.5, "dampening": 0.75},
        dict(lr=0.25, momentum=0.5, dampening=0.75),
    ),
    "sgd-nest": (
        "sgd",
        {"stepsize": 0.25, "momentum": 0.5, "nesterov": True},
        dict(lr=0.25, momentum=0.5, nesterov=True),
    ),
    "sgd-zero-mom": ("sga", {"stepsize": 0.25, "momentum": 0.0}, dict(lr=0.25)),
    "clipup": ("clipup", {"stepsize": 0.5}, dict(lr=0.5)),
    "clipup-fast": ("clipsgd", {"stepsize": 0.5, "max_speed": 0.75}, dict(lr=0.5, max_speed=0.75)),
    "clipup-slow": ("clipsga", {"stepsize": 0.5, "max_speed": 0.3}, dict(lr=0.5, max_speed=0.3)),
    "clipup-nomom": ("clipup", {"stepsize": 0.5, "momentum": 0.0}, dict(lr=0.5, momentum=0.0)),
    "clipup-mom1": (
        "clipup",
        {"stepsize": 0.5, "momentum": 1.0, "max_speed": 1.2},
        dict(lr=0.5, momentum=1.0, max_speed=1.2),
    ),
    "clipup-mom": ("clipup", {"stepsize": 0.2, "momentum": 0.5}, dict(lr=0.2, momentum=0.5)),
}

REFS = {"adam": ref.RefAdam, "sgd": ref.RefSGD, "sga": ref.RefSGD}
CLASSES = {"adam": Adam, "sgd": SGD, "sga": SGD}


def construct(kind, conf, dtype, way):
    n = {"solution_length": 3, "dtype": dtype, "device": "cpu"}
    if way == "class":
        return CLASSES.get(kind, ClipUp)(**n, **conf)
    if way == "factory":
        return get_optimizer_class(kind, dict(conf))(**n)
    return get_optimizer_class(kind)(**n, **conf)


def tol_of(dtype):
    return 2e-4 if dtype == torch.float32 else 1e-9


def stateful(ctx, name, dtype, way, depth):
    kind, conf, rconf = STATEFUL[name]
    is_clip = kind.startswith("clip")

    def run(chooser):
        opt = construct(kind, conf, dtype, way)
        rf = REFS.get(kind, ref.RefClipUp)(**rconf)
        moves = list(GRADS) + ["lr"] + (["max_speed", "momentum"] if is_clip else [])
        kept = []
        names = []
        for _ in range(depth):
            mv = chooser.pick(moves, "move")
            names.append(mv)
            group = opt.contained_optimizer.param_groups[0]
            if mv in ("lr", "max_speed", "momentum"):
                new = {"lr": rf.lr * 0.5, "max_speed": 0.4, "momentum": 0.25}[mv]
                group[mv] = new
                require(group[mv] == new, "%s reads back as %s", mv, group[mv])
                setattr(rf, mv, new)
                continue
            g = torch.tensor(GRADS[mv], dtype=dtype)
            arg = g.clone()
            step = opt.ascent(arg)
            want = rf.ascent(g)
            require(step.dtype == dtype and step.shape == (3,), "step %s", step)
            err = (plain(step).to(torch.float64) - want).abs().max() / max(1e-3, float(want.abs().max()))
            require(float(err) <= tol_of(dtype), "%s after %s: step %s, expected %s", name, names, step.tolist(), want.tolist())
            require_same(arg, g, "the gradient after the step")
            if is_clip:
                speed = float(plain(step).to(torch.float64).norm())
                require(speed <= rf.max_speed * (1 + 1e-5), "%s after %s: speed %s > %s", name, names, speed, rf.max_speed)
            kept.append((step, plain(step)))
            ctx.step()
            ctx.state(name, want)
        for s, old in kept:
            require_same(plain(s), old, "an earlier step after later ones")
        return names

    return run


FUNCTIONAL = {
    "adam": (adam, adam_ask, adam_tell, {"center_learning_rate": 0.1}, ref.RefAdam, dict(lr=0.1)),
    "adam-default": (adam, adam_ask, adam_tell, {}, ref.RefAdam, {}),
    "adam-betas": (
        adam,
        adam_ask,
        adam_tell,
        {"center_learning_rate": 0.5, "beta1": 0.5, "beta2": 0.75},
        ref.RefAdam,
        dict(lr=0.5, b1=0.5, b2=0.75),
    ),
    "adam-eps": (adam, adam_ask, adam_tell, {"center_learning_rate": 0.1, "epsilon": 0.5}, ref.RefAdam, dict(lr=0.1, eps=0.5)),
    "sgd": (sgd, sgd_ask, sgd_tell, {"center_learning_rate": 0.25}, ref.RefSGD, dict(lr=0.25)),
    "sgd-mom": (
        sgd,
        sgd_ask,
        sgd_tell,
        {"center_learning_rate": 0.25, "momentum": 0.5},
        ref.RefSGD,
        dict(lr=0.25, momentum=0.5),
    ),
    "clipup": (clipup, clipup_ask, clipup_tell, {"center_learning_rate": 0.5}, ref.RefClipUp, dict(lr=0.5)),
    "clipup-speed": (clipup, clipup_ask, clipup_tell, {"max_speed": 0.8}, ref.RefClipUp, dict(lr=0.4, max_speed=0.8)),
    "clipup-both": (
        clipup,
        clipup_ask,
        clipup_tell,
        {"center_learning_rate": 0.5, "max_speed": 0.3, "momentum": 0.5},
        ref.RefClipUp,
        dict(lr=0.5, max_speed=0.3, momentum=0.5),
    ),
    "clipup-nomom": (
        clipup,
        clipup_ask,
        clipup_tell,
        {"center_learning_rate": 0.5, "momentum": 0.0},
        ref.RefClipUp,
        dict(lr=0.5, momentum=0.0),
    ),
}


def functional(ctx, name, dtype, depth):
    init, ask, tell, conf, rcls, rconf = FUNCTIONAL[name]

    def run(chooser):
        center = torch.tensor([1.0, -2.0, 0.25], dtype=dtype)
        state = init(center_init=center.clone(), **conf)
        rf = rcls(**rconf)
        pos = center.to(torch.float64)
        require_same(ask(state), center, "the first center")
        names = []
        scale = 1.0
        for _ in range(depth):
            mv = chooser.pick(list(GRADS), "gradient")
            names.append(mv)
            g = torch.tensor(GRADS[mv], dtype=dtype)
            before = [plain(x) for x in state]
            new = tell(state, follow_grad=g)
            for a, b in zip(state, before):
                require_same(plain(a), b, f"a field of the old state after {names}")
            state = new
            pos = pos + rf.ascent(g)
            got = plain(ask(state))
            require(got.dtype == dtype and got.shape == (3,), "center %s", got)
            scale = max(scale, float(pos.abs().max()))
            err = (got.to(torch.float64) - pos).abs().max() / scale
            require(float(err) <= tol_of(dtype), "%s after %s: center %s, expected %s", name, names, got.tolist(), pos.tolist())
            ctx.step()
            ctx.state(name, pos)
        return names

    return run


def invalid():
    """Bad hyper-parameters are refused, at construction and later; a refused one changes nothing."""
    n = {"solution_length": 3, "dtype": torch.float32}
    bad = [
        (ClipUp, {"stepsize": -0.1}),
        (ClipUp, {"stepsize": 0.1, "momentum": -0.1}),
        (ClipUp, {"stepsize": 0.1, "momentum": 1.1}),
        (ClipUp, {"stepsize": 0.1, "max_speed": -1.0}),
        (Adam, {"stepsize": -0.1}),
        (Adam, {"beta1": 0.9}),
        (Adam, {"beta2": 0.9}),
        (Adam, {"beta1": 1.5, "beta2": 0.9}),
        (Adam, {"beta1": 0.5, "beta2": -0.9}),
        (Adam, {"epsilon": -1.0}),
        (SGD, {"stepsize": -0.1}),
        (SGD, {"stepsize": 0.1, "momentum": -1.0}),
        (SGD, {"stepsize": 0.1, "nesterov": True}),
    ]
    for cls, kw in bad:
        require(isinstance(raises(lambda: cls(**n, **kw)), ValueError), "%s(%s) is accepted", cls.__name__, kw)
    opt = ClipUp(**n, stepsize=0.1, momentum=0.5, max_speed=0.3)
    good = {"lr": 0.1, "momentum": 0.5, "max_speed": 0.3}
    group = opt.param_groups[0]
    require(dict(group) == good and len(group) == 3, "parameter group %s", dict(group))
    for key, values in {"lr": [-0.1, -5.0], "momentum": [-0.1, 1.01, 7.0], "max_speed": [-0.1, -3.0]}.items():
        for v in values:
            err = raises(lambda: group.__setitem__(key, v))
            require(isinstance(err, ValueError), "%s = %s is accepted", key, v)
            require(dict(group) == good, "a refused value changed the parameters: %s", dict(group))
    require(raises(lambda: group.__setitem__("weight_decay", 0.1)) is not None, "an unknown parameter is accepted")
    for key, values in {"lr": [0.0, 0.7], "momentum": [0.0, 1.0], "max_speed": [0.0, 2.0]}.items():
        for v in values:
            group[key] = v
            require(group[key] == v, "%s = %s reads back as %s", key, v, group[key])
    for name in ("rmsprop", "", "Adam"):
        require(isinstance(raises(lambda: get_optimizer_class(name)), ValueError), "optimizer %r accepted", name)
        require(isinstance(raises(lambda: get_functional_optimizer(name)), ValueError), "optimizer %r accepted", name)
    require(isinstance(raises(lambda: clipup(center_init=torch.zeros(2))), ValueError), "ClipUp without any speed")
    for g in ([1.0, 2.0], [1.0] * 4, [[1.0, 2.0, 3.0]]):
        for cls in (ClipUp, Adam, SGD):
            o = cls(**n, stepsize=0.1)
            require(isinstance(raises(lambda: o.ascent(torch.tensor(g))), ValueError), "gradient %s accepted", g)


def scalars_and_lists():
    """Scalars are repeated, lists converted, and the factory does not alter its configuration."""
    n = {"solution_length": 3, "dtype": torch.float32}
    for cls in (ClipUp, Adam, SGD):
        a, b, c = (cls(**n, stepsize=0.1) for _ in range(3))
        x = a.ascent(2.0)
        require_same(x, b.ascent(torch.full((3,), 2.0)), f"{cls.__name__} with a scalar")
        require_same(x, c.ascent([2.0, 2.0, 2.0]), f"{cls.__name__} with a list")
    conf = {"stepsize": 0.1}
    f = get_optimizer_class("clipup", conf)
    o1 = f(**n)
    o2 = f(**n, stepsize=0.4)
    require(conf == {"stepsize": 0.1}, "the configuration was altered: %s", conf)
    require(o1.param_groups[0]["lr"] == 0.1 and o2.param_groups[0]["lr"] == 0.4, "factory arguments")
    table = {"adam": adam, "clipup": clipup, "sgd": sgd, "sga": sgd, "momentum": sgd}
    for k, v in table.items():
        require(get_functional_optimizer(k).initialize is v, "functional optimizer %s", k)
    trio = (adam, adam_ask, adam_tell)
    o = get_functional_optimizer(trio)
    require((o.initialize, o.ask, o.tell) == trio, "custom functional optimizer")


def run(ctx):
    ctx.case("invalid", {}, invalid)
    ctx.case("forms", {}, scalars_and_lists)
    depth = 5 if ctx.thorough else 4
    for i, name in enumerate(STATEFUL):
        for dtype in (torch.float32, torch.float64):
            way = ("class", "factory", "bare")[i % 3]
            d = depth if dtype == torch.float32 else 3
            ctx.explore("stateful", {"name": name, "dtype": str(dtype), "way": way}, stateful(ctx, name, dtype, way, d))
    for name in FUNCTIONAL:
        for dtype in (torch.float32, torch.float64):
            d = depth if dtype == torch.float32 else 3
            ctx.explore("functional", {"name": name, "dtype": str(dtype)}, functional(ctx, name, dtype, d))
