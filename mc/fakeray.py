"""In-process replacement of the Ray entry points, with explorable completion order.

Actors have FIFO queues. A call is executed when somebody waits for it. Among the
calls being waited for, which one completes first is a choice point. Arguments and
results travel pickled (numpy buffers arrive read-only, as with Ray). Each actor has
its own global random states (python, numpy, torch).
"""

import inspect
import pickle
import random

import numpy as np
import ray
import torch
from ray import cloudpickle


class World:
    """Everything that lives 'in the cluster' during one run."""

    def __init__(self, chooser=None):
        self.entropy = 0  # changes what an unseeded worker process draws
        self.chooser = chooser
        self.actors = []
        self.num_calls = 0
        self.in_actor = None
        self.killed = 0
        self.log = []  # (actor index, method name) in execution order
        self.max_order_points = 0
        self.resources = {"CPU": 3.0}  # what the cluster reports as available


_world = World()


def reset(chooser=None):
    global _world
    _world = World(chooser)
    return _world


def world():
    return _world


def _transfer(x):
    buffers = []
    data = cloudpickle.dumps(x, protocol=5, buffer_callback=buffers.append)
    return pickle.loads(data, buffers=[bytes(b.raw()) for b in buffers])


class ObjectRef:
    _count = 0

    def __init__(self):
        ObjectRef._count += 1
        self.uid = ObjectRef._count
        self.done = False
        self.value = None
        self.error = None
        self.actor = None

    def __reduce__(self):
        return (_ref_by_id, (id(self),))

    def __hash__(self):
        return hash(self.uid)

    def __eq__(self, other):
        return isinstance(other, ObjectRef) and other.uid == self.uid


def _ref_by_id(i):
    for ref in _live_refs:
        if id(ref) == i:
            return ref
    raise RuntimeError("unknown object reference")


_live_refs = []


def _rng_get():
    return random.getstate(), np.random.get_state(), torch.get_rng_state()


def _rng_set(s):
    random.setstate(s[0])
    np.random.set_state(s[1])
    torch.set_rng_state(s[2])


class _Actor:
    def __init__(self, cls, args, kwargs):
        self.index = len(_world.actors)
        _world.actors.append(self)
        self.queue = []
        self.cls = cls
        self.alive = True
        self.busy = False
        self.obj = None
        # an unseeded worker process starts with its own entropy
        main = _rng_get()
        random.seed(10_000 + self.index + 100 * _world.entropy)
        np.random.seed(20_000 + self.index + 100 * _world.entropy)
        torch.manual_seed(30_000 + self.index + 100 * _world.entropy)
        self.rng = _rng_get()
        _rng_set(main)
        init = ObjectRef()
        init.actor = self
        data = _transfer((args, kwargs))
        self.queue.append((init, "__init__", data, lambda: self._init(cls, data)))

    def _init(self, cls, data):
        args, kwargs = data
        self.obj = cls(*[_resolve(a) for a in args], **{k: _resolve(v) for k, v in kwargs.items()})

    def call(self, name, args, kwargs):
        ref = ObjectRef()
        ref.actor = self
        if not self.alive:
            ref.done = True
            ref.error = RuntimeError("the actor is dead")
            return ref
        data = _transfer((args, kwargs))

        def fn():
            a, k = data
            if self.obj is None:
                raise RuntimeError("the actor died during its creation") from self.init_error
            return getattr(self.obj, name)(*[_resolve(x) for x in a], **{n: _resolve(v) for n, v in k.items()})

        self.queue.append((ref, name, data, fn))
        return ref

    init_error = None

    def run_one(self):
        ref, name, _, fn = self.queue.pop(0)
        if self.busy:
            raise RuntimeError("deadlock: an actor waits for itself")
        outer, outer_actor = _rng_get(), _world.in_actor
        _rng_set(self.rng)
        _world.in_actor = self.index
        self.busy = True
        try:
            ref.value = _transfer(fn())
        except Exception as e:
            ref.error = e
            if name == "__init__":
                self.init_error = e
        finally:
            self.busy = False
            self.rng = _rng_get()
            _rng_set(outer)
            _world.in_actor = outer_actor
        ref.done = True
        _world.num_calls += 1
        _world.log.append((self.index, name))

    def run_until(self, ref):
        while not ref.done:
            if not self.alive or not self.queue:
                ref.done = True
                ref.error = RuntimeError("the actor died before finishing the call")
                return
            self.run_one()

    def position(self, ref):
        for i, (r, *_rest) in enumerate(self.queue):
            if r is ref:
                return i
        return -1

    def kill(self):
        self.alive = False
        for r, *_rest in self.queue:
            r.done = True
            r.error = RuntimeError("the actor was killed")
        self.queue = []
        _world.killed += 1


class _Method:
    def __init__(self, actor, name):
        self._actor = actor
        self._name = name

    def remote(self, *args, **kwargs):
        fn = getattr(self._actor.cls, self._name, None)
        if fn is not None:  # Ray, too, refuses a call that does not fit right at the call site
            inspect.signature(fn).bind(None, *args, **kwargs)
        return self._actor.call(self._name, args, kwargs)

    def options(self, **_):
        return self


class ActorHandle:
    def __init__(self, actor):
        self.__dict__["_mc_actor"] = actor

    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__"):
            raise AttributeError(name)
        return _Method(self._mc_actor, name)

    def __reduce__(self):
        return (_handle_by_index, (self._mc_actor.index,))

    def __hash__(self):
        return hash(id(self._mc_actor))

    def __eq__(self, other):
        return isinstance(other, ActorHandle) and other._mc_actor is self._mc_actor


def _handle_by_index(i):
    return ActorHandle(_world.actors[i])


class ActorClass:
    def __init__(self, cls, opts=None):
        self._mc_cls = cls
        self._mc_opts = opts or {}
        self.__name__ = getattr(cls, "__name__", "Actor")
        self.__doc__ = getattr(cls, "__doc__", None)

    def options(self, **opts):
        return ActorClass(self._mc_cls, {**self._mc_opts, **opts})

    def remote(self, *args, **kwargs):
        actor = _Actor(self._mc_cls, args, kwargs)
        actor.opts = dict(self._mc_opts)
        return ActorHandle(actor)


class RemoteFunction:
    def __init__(self, fn):
        self._fn = fn

    def options(self, **_):
        return self

    def remote(self, *args, **kwargs):
        # every task runs in a fresh worker
        class _Task:
            def call(_self, *a, **k):
                return self._fn(*a, **k)

        return ActorHandle(_Actor(_Task, (), {})).call.remote(*args, **kwargs)


def remote(*args, **kwargs):
    if len(args) == 1 and not kwargs and callable(args[0]):
        return ActorClass(args[0]) if isinstance(args[0], type) else RemoteFunction(args[0])

    def deco(x):
        return ActorClass(x, dict(kwargs)) if isinstance(x, type) else remote(x)

    return deco


def _resolve(x):
    return get(x) if isinstance(x, ObjectRef) else x


def put(x):
    ref = ObjectRef()
    ref.value = _transfer(x)
    ref.done = True
    _live_refs.append(ref)
    del _live_refs[:-256]
    return ref


def get(refs, *, timeout=None, **_):
    if isinstance(refs, ObjectRef):
        if not refs.done:
            refs.actor.run_until(refs)
        if refs.error is not None:
            raise refs.error
        return _transfer(refs.value)
    return [get(r) for r in refs]


def wait(refs, *, num_returns=1, timeout=None, fetch_local=True, **_):
    refs = list(refs)
    ready = []
    pending = list(refs)
    while len(ready) < min(num_returns, len(refs)):
        cand, seen = [], {}
        for r in pending:
            if r.done:
                cand.append(r)
            else:
                pos = r.actor.position(r)
                cur = seen.get(r.actor)
                if cur is None or pos < cur[0]:
                    seen[r.actor] = (pos, r)
        cand = [r for r in pending if r.done or seen[r.actor][1] is r]
        if len(cand) > 1 and _world.chooser is not None:
            _world.max_order_points += 1
            r = cand[_world.chooser.choose(len(cand), "completes first")]
        else:
            r = cand[0]
        if not r.done:
            r.actor.run_until(r)
        ready.append(r)
        pending.remove(r)
    return ready, pending


def kill(handle, *, no_restart=True):
    handle._mc_actor.kill()


def install():
    if getattr(ray, "_mc_installed", False):
        return
    ray._mc_installed = True
    ray.remote = remote
    ray.get = get
    ray.put = put
    ray.wait = wait
    ray.kill = kill
    ray.ObjectRef = ObjectRef
    ray.init = lambda *a, **k: None
    ray.shutdown = lambda *a, **k: None
    ray.is_initialized = lambda: True
    ray.available_resources = lambda: dict(_world.resources)
    ray.cluster_resources = lambda: dict(_world.resources)
    ray.nodes = lambda: [{"Alive": True, "Resources": dict(_world.resources)}]
    import ray._private.usage.usage_lib as ul

    ul.record_library_usage = lambda *a, **k: None
