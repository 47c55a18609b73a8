"""P29: a vectorized environment is its sub-environments stepped one by one."""

import itertools
import math

import gymnasium as gym
import numpy as np
import torch
from evotorch.neuroevolution.net import vecrl
from evotorch.neuroevolution.net.rl import reset_env, take_step_in_env
from evotorch.neuroevolution.net.vecrl import SyncVectorEnv, TorchWrapper, make_gym_env, make_vector_env
from gymnasium.spaces import Box, Discrete, MultiBinary

from mc.ctx import require
from mc.util import fmt, plain, raises, require_same, same

META = {
    "bounds": "all end patterns of 1 sub-environment over 6 steps, 2 over 4 (thorough 5), 3 over 3 (thorough 4), ends by termination, truncation or both, episode limits none/1/2/3, bare, wrapped and made by name, both interfaces, a second reset after every number of steps; wrapped foreign environments of both interfaces, with arrays and tensors, and flags of 3 types",
    "assumptions": ["sub-environments are deterministic functions of their episode, time and action"],
}
gym.logger.min_level = gym.logger.ERROR if hasattr(gym.logger, "ERROR") else 40


class Sub(gym.Env):
    """Logs its calls; ends episodes where its script says so."""

    log = None  # the list of all calls: (env, what, ...)
    count = 0

    def __init__(self, ident=None, script=(), acts="box", obs_dtype="float32", info="num"):
        if ident is None:
            ident = Sub.count
            Sub.count += 1
        self.ident, self.acts, self.infos = ident, acts, info
        self.script = SCRIPTS[ident] if SCRIPTS else script
        self.observation_space = Box(low=-100, high=100, shape=(3,), dtype=obs_dtype)
        self.action_space = Discrete(3) if acts == "discrete" else Box(low=np.array([-1.0, -0.5], dtype="float32"), high=np.array([1.0, 0.5], dtype="float32"))
        self.episode, self.t, self.total = -1, 0, 0
        self.closed = 0

    def obs(self):
        return np.array([self.ident + 1, self.episode, self.t], dtype=self.observation_space.dtype)

    def info(self):
        if self.infos == "num":
            return {"a": float(self.ident), "b": np.array([self.t, self.episode])}
        if self.infos == "uneven":
            return {"only%d" % self.ident: self.t, "text": "x%d" % self.t, "shape": np.zeros(self.ident + 1)}
        return {}

    def reset(self, *, seed=None, options=None):
        self.episode += 1
        self.t = 0
        Sub.log.append((self.ident, "reset", seed, options))
        return self.obs(), self.info()

    def step(self, action):
        end = self.script[self.total] if self.total < len(self.script) else 0
        self.total += 1
        self.t += 1
        a = np.array(action, dtype="float64").reshape(-1)
        Sub.log.append((self.ident, "step", tuple(a.tolist()), np.shape(action)))
        r = float(a.sum()) * 10 + self.ident + 0.125 * self.t
        return self.obs(), r, bool(end & 1), bool(end & 2), self.info()

    def close(self):
        self.closed += 1
        Sub.log.append((self.ident, "close"))


SCRIPTS = {}
gym.register(id="McSub-v0", entry_point=Sub, disable_env_checker=True, order_enforce=False)


class Model:
    """One sub-environment and its episode limit."""

    def __init__(self, ident, script, limit):
        self.ident, self.script, self.limit = ident, script, limit
        self.total, self.episode, self.t, self.left = 0, -1, 0, None

    def reset(self):
        self.episode += 1
        self.t = 0
        self.left = self.limit
        return (self.ident + 1, self.episode, 0)

    def step(self, a):
        """-> observation (None: dummy), reward, terminated, truncated, stepped"""
        if self.left == 0:
            return None, math.nan, True, True, False
        end = self.script[self.total] if self.total < len(self.script) else 0
        self.total += 1
        self.t += 1
        r = sum(a) * 10 + self.ident + 0.125 * self.t
        obs = (self.ident + 1, self.episode, self.t)
        if end:
            if self.left is not None:
                self.left -= 1
            if self.left != 0:
                self.episode += 1
                self.t = 0
                obs = (self.ident + 1, self.episode, 0)
        return obs, r, bool(end & 1), bool(end & 2), True


def action(acts, t, i):
    return float((t + 2 * i) % 3) if acts == "discrete" else [0.25 * ((t + i) % 3) - 0.25, 0.5 - 0.25 * ((t * 2 + i) % 4)]


def build(N, scripts, limit, acts, form, obs_dtype="float32", info="num", device=None):
    """-> the environment and how to call it"""
    Sub.log = []
    SCRIPTS.clear()
    if form.startswith("named"):
        SCRIPTS.update(enumerate(scripts))
        Sub.count = 0
        kw = {"num_episodes": limit, "empty_info": info == "empty", "device": device}
        if form == "named vector":
            env = make_vector_env("gym::McSub-v0", num_envs=N, force_classic_api=True, discrete_to_continuous_act=True, gym_kwargs=kw, acts=acts, obs_dtype=obs_dtype)
        else:
            env = make_gym_env("McSub-v0", num_envs=N, acts=acts, obs_dtype=obs_dtype, **kw)
        Sub.log.clear()
        return env
    env = SyncVectorEnv([lambda i=i: Sub(i, scripts[i], acts, obs_dtype, info) for i in range(N)], num_episodes=limit, empty_info=info == "empty", device=device)
    if form == "wrapped":
        return TorchWrapper(env)
    if form == "classic":
        return TorchWrapper(env, force_classic_api=True, discrete_to_continuous_act=True, clip_actions=True)
    return env


def check_obs(got, want, dtype):
    for i, w in enumerate(want):
        g = [float(v) for v in got[i]]
        if w is None:
            require(all(math.isnan(v) for v in g) if dtype.startswith("float") else all(v == 0 for v in g), "observation {} of a finished sub-environment is {}", i, g)
        else:
            require(g == [float(v) for v in w], "observation {} is {}, expected {}", i, g, w)


def check_info(info, models_info, kind):
    if kind == "empty":
        require(info == {}, "info is {}", info)
        return
    keys = set()
    for d in models_info:
        keys |= set(d)
    require(set(info) == keys, "info has keys {}, expected {}", sorted(info), sorted(keys))
    for k in keys:
        require(len(info[k]) == len(models_info), "info[{}] has {} items", k, len(info[k]))
        for i, d in enumerate(models_info):
            if k in d:
                require(np.array_equal(np.asarray(info[k][i]), np.asarray(d[k])) or str(info[k][i]) == str(d[k]), "info[{}][{}] is {}, expected {}", k, i, info[k][i], d[k])
            else:
                require(info[k][i] is None, "info[{}][{}] is {}", k, i, info[k][i])


def model_info(m, kind, dead=False):
    if dead:
        return {}
    if kind == "num":
        return {"a": float(m.ident), "b": np.array([m.t, m.episode])}
    if kind == "uneven":
        return {"only%d" % m.ident: m.t, "text": "x%d" % m.t, "shape": np.zeros(m.ident + 1)}
    return {}


def vector_case(ctx, N, T, limit, acts, form, info, obs_dtype, device, again, block):
    scripts_all, lo, hi = block
    for idx in range(lo, hi):
        scripts = scripts_all[idx]
        env = build(N, scripts, limit, acts, form, obs_dtype, info, device)
        classic = form in ("classic", "named vector")
        torchy = form not in ("bare",) or device is not None
        models = [Model(i, scripts[i], limit) for i in range(N)]

        def do_reset():
            Sub.log.clear()
            r = env.reset()
            obs = r if classic else r[0]
            require(isinstance(obs, torch.Tensor) == torchy, "observations are a {}", type(obs))
            require(tuple(obs.shape) == (N, 3), "observations have shape {}", tuple(obs.shape))
            check_obs(obs, [m.reset() for m in models], obs_dtype)
            if not classic and info != "named":
                check_info(r[1], [model_info(m, info) for m in models], info)
            require(sorted(Sub.log) == [(i, "reset", None, None) for i in range(N)], "calls of a reset: {}", Sub.log)

        do_reset()
        kept = []
        for t in range(T):
            if again == t and t > 0:
                do_reset()
            acts_t = [action(acts, t, i) for i in range(N)]
            Sub.log.clear()
            if classic and acts == "discrete":
                given = torch.tensor([[2.0 if k == int(a) else k * 0.25 for k in range(3)] for a in acts_t])
            elif acts == "discrete":
                given = torch.tensor([int(a) for a in acts_t]) if torchy and form != "bare" else np.array([int(a) for a in acts_t])
            else:
                given = torch.tensor(acts_t) if torchy and form != "bare" else np.array(acts_t, dtype="float32")
            keep = plain(torch.as_tensor(given))
            r = env.step(given)
            require(same(plain(torch.as_tensor(given)), keep), "the actions were altered")
            if classic:
                obs, rew, done, inf = r
            else:
                obs, rew, term, trunc, inf = r
            befores = [m.left for m in models]
            outs = [m.step([a] if acts == "discrete" else a) for m, a in zip(models, acts_t)]
            check_obs(obs, [o[0] for o in outs], obs_dtype)
            for i, (_, wr, wt, wu, _) in enumerate(outs):
                g = float(rew[i])
                require(abs(g - wr) < 1e-5 or (math.isnan(g) and math.isnan(wr)), "reward {} is {}, expected {} (step {})", i, g, wr, t)
                if classic:
                    require(bool(done[i]) == (wt or wu), "done {} is {} (step {})", i, done[i], t)
                else:
                    require(bool(term[i]) == wt and bool(trunc[i]) == wu, "end flags {} are {}, {} (step {})", i, term[i], trunc[i], t)
            if form in ("wrapped", "bare"):
                check_info(inf, [model_info(m, info, dead=not o[4]) for m, o in zip(models, outs)], info)
            steps = {}
            for c in Sub.log:
                if c[1] == "step":
                    require(c[0] not in steps, "sub-environment {} was stepped twice", c[0])
                    steps[c[0]] = c[2]
            for i, o in enumerate(outs):
                require((i in steps) == o[4], "sub-environment {} was {}stepped (step {})", i, "" if i in steps else "not ", t)
                if o[4]:
                    a = acts_t[i]
                    require([round(v, 5) for v in steps[i]] == ([a] if acts == "discrete" else [round(v, 5) for v in a]), "sub-environment {} got action {}", i, steps[i])
            resets = [c[0] for c in Sub.log if c[1] == "reset"]
            want_resets = [i for i, (o, b) in enumerate(zip(outs, befores)) if o[4] and (o[2] or o[3]) and b != 1]
            require(sorted(resets) == want_resets, "sub-environments {} were reset, expected {} (step {})", resets, want_resets, t)
            for old, snap in kept:
                require(same(plain(torch.as_tensor(old)), snap), "an observation reported earlier changed")
            kept.append((obs, plain(torch.as_tensor(obs))))
            ctx.step()
        Sub.log.clear()
        env.close()
        require(sorted(Sub.log) == [(i, "close") for i in range(N)], "calls of close: {}", Sub.log)
        ctx.state((N, limit, acts, form, info, obs_dtype, str(device), again, scripts))


def seed_case(ctx, N, how, seed):
    """Seeds: reset(seed) and seed() + reset() are equivalent; the sub-seeds are distinct; only the next reset is seeded."""

    def seeds(use):
        env = build(N, [()] * N, None, "box", "bare")
        use(env)
        got = [c[2] for c in sorted(Sub.log, key=lambda c: c[0]) if c[1] == "reset"]
        Sub.log.clear()
        env.reset()
        require([c[2] for c in Sub.log] == [None] * N, "a later reset was seeded: {}", Sub.log)
        return got

    def via(env):
        if how == "reset":
            env.reset(seed=seed)
        elif how == "seed":
            env.seed(seed)
            env.reset()
        elif how == "replaced":
            env.seed(99)
            env.reset(seed=seed)
        elif how == "wrapped":
            TorchWrapper(env).reset(seed=seed)
        elif how == "dropped":
            env.seed(seed)
            env.reset(seed=None)
        elif how == "dropped by seed":
            env.seed(seed)
            env.seed(None)
            env.reset()

    got = seeds(via)
    if how.startswith("dropped"):
        require(got == [None] * N, "seeds {}", got)
    else:
        require(all(isinstance(s, int) for s in got) and len(set(got)) == N, "sub-seeds {}", got)
        require(got == seeds(via), "the sub-seeds are not reproducible")
        require(got == seeds(lambda env: env.reset(seed=seed)), "seed() and reset(seed) differ")
        require(got != seeds(lambda env: env.reset(seed=seed + 1)), "another seed gave the same sub-seeds")
    before = np.random.get_state()[1].tolist()
    seeds(via)
    require(np.random.get_state()[1].tolist() == before, "the global random state was changed")
    env = build(N, [()] * N, None, "box", "bare")
    env.reset(options={"k": 3})
    require([c[3] for c in Sub.log] == [{"k": 3}] * N, "options of reset: {}", Sub.log)
    ctx.state((N, how, seed))


def refusal_case(ctx, what):
    def mk(**kw):
        def f(**k):
            e = Sub(0, (), "box")
            for n, v in kw.items():
                setattr(e, n, v)
            return e

        return f

    Sub.log = []
    SCRIPTS.clear()
    box2 = Box(-1, 1, shape=(2,), dtype="float32")
    bad = {
        "empty": lambda: SyncVectorEnv([]),
        "zero episodes": lambda: SyncVectorEnv([mk()], num_episodes=0),
        "negative episodes": lambda: SyncVectorEnv([mk()], num_episodes=-1),
        "observation shapes": lambda: SyncVectorEnv([mk(), mk(observation_space=box2)]),
        "action shapes": lambda: SyncVectorEnv([mk(), mk(action_space=Box(-1, 1, shape=(3,), dtype="float32"))]),
        "action ranks": lambda: SyncVectorEnv([mk(), mk(action_space=Box(-1, 1, shape=(2, 1), dtype="float32"))]),
        "action types": lambda: SyncVectorEnv([mk(), mk(action_space=Discrete(2))]),
        "action types 2": lambda: SyncVectorEnv([mk(action_space=Discrete(2)), mk()]),
        "numbers of actions": lambda: SyncVectorEnv([mk(action_space=Discrete(2)), mk(action_space=Discrete(3))]),
        "discrete observations": lambda: SyncVectorEnv([mk(observation_space=Discrete(2))]),
        "binary actions": lambda: SyncVectorEnv([mk(action_space=MultiBinary(2))]),
        "binary actions wrapped": lambda: TorchWrapper(mk(action_space=MultiBinary(2))()),
        "too few actions": lambda: SyncVectorEnv([mk(), mk()]).step(np.zeros((1, 2))),
        "too many actions": lambda: SyncVectorEnv([mk(), mk()]).step(np.zeros((3, 2))),
        "scalar action": lambda: SyncVectorEnv([mk()]).step(np.array(1.0)),
        "step before reset": lambda: TorchWrapper(SyncVectorEnv([mk()])).step(torch.zeros(1, 2)),
        "unknown registry": lambda: make_vector_env("nowhere::McSub-v0", num_envs=1),
        "missing brax": lambda: make_vector_env("brax::ant", num_envs=1),
        "episodes without vector": lambda: make_gym_env("McSub-v0", num_episodes=2),
        "empty info without vector": lambda: make_gym_env("McSub-v0", empty_info=True),
        "device without vector": lambda: make_gym_env("McSub-v0", device="cpu"),
    }
    require(raises(bad[what]) is not None, "{} was accepted", what)
    ctx.state(what)


REFUSALS = ("empty", "zero episodes", "negative episodes", "observation shapes", "action shapes", "action ranks", "action types", "action types 2", "numbers of actions", "discrete observations", "binary actions", "binary actions wrapped", "too few actions", "too many actions", "scalar action", "step before reset", "unknown registry", "missing brax", "episodes without vector", "empty info without vector", "device without vector")


class Old(Sub):
    """An environment of the classic interface."""

    def reset(self):
        return super().reset()[0]

    def step(self, a):
        o, r, t, u, i = super().step(a)
        return o, r, t or u, i


def single_case(ctx, cls, acts, classic, d2c, clip, script):
    """A wrapped single environment."""
    Sub.log = []
    SCRIPTS.clear()
    base = cls(0, script, acts)
    env = TorchWrapper(base, force_classic_api=classic, discrete_to_continuous_act=d2c, clip_actions=clip)
    require(env.unwrapped is base, "unwrapped is {}", env.unwrapped)
    m = Model(0, script, None)
    r = env.reset()
    new = cls is Sub
    want = m.reset()
    if new and not classic:
        require(isinstance(r, tuple) and len(r) == 2, "reset gave {}", r)
        r = r[0]
    require(isinstance(r, torch.Tensor), "reset gave {}", type(r))
    require(r.tolist() == [float(v) for v in want], "first observation {}", r)
    for t in range(len(script)):
        Sub.log.clear()
        if acts == "discrete":
            a = t % 3
            given = torch.tensor([0.5 if k != a else 1.5 for k in range(3)]) if d2c else torch.tensor(a)
            ref = [float(a)]
        else:
            given = torch.tensor([0.7 * (t - 1), 0.8 - t])
            ref = [min(max(v, lo), hi) for v, lo, hi in zip(given.tolist(), (-1.0, -0.5), (1.0, 0.5))] if clip else given.tolist()
        out = env.step(given)
        require([round(v, 5) for v in Sub.log[0][2]] == [round(v, 5) for v in ref], "the environment got {}, expected {}", Sub.log[0][2], ref)
        end = script[t]
        base_r = sum(ref) * 10 + 0.125 * (t + 1)
        if classic or not new:
            require(len(out) == 4, "step gave {} items", len(out))
            o, rew, done, _ = out
            require(bool(done) == bool(end), "done is {}", done)
            require(done.dtype == torch.bool, "done has dtype {}", done.dtype)
        else:
            require(len(out) == 5, "step gave {} items", len(out))
            o, rew, term, trunc, _ = out
            require(bool(term) == bool(end & 1) and bool(trunc) == bool(end & 2), "end flags {} {}", term, trunc)
        require(isinstance(o, torch.Tensor) and isinstance(rew, torch.Tensor), "step gave {}, {}", type(o), type(rew))
        require(abs(float(rew) - base_r) < 1e-4, "reward {} instead of {}", float(rew), base_r)
        require(o.tolist() == [1.0, 0.0, float(t + 1)], "observation {}", o)
        ctx.step()
    if acts == "discrete" and d2c:
        require(isinstance(env.action_space, Box) and env.action_space.shape == (3,), "action space {}", env.action_space)
    else:
        require(env.action_space == base.action_space, "action space {}", env.action_space)
    ctx.state((cls.__name__, acts, classic, d2c, clip, script))


def helper_case(ctx, cls, script):
    Sub.log = []
    SCRIPTS.clear()
    env = cls(0, script, "box")
    require(list(reset_env(env)) == [1.0, 0.0, 0.0], "reset_env")
    for t, end in enumerate(script):
        o, r, done, info = take_step_in_env(env, np.array([0.5, 0.25]))
        require(list(o) == [1.0, 0.0, t + 1] and abs(r - (7.5 + 0.125 * (t + 1))) < 1e-6 and bool(done) == bool(end), "step {}: {} {} {}", t, o, r, done)
        ctx.step()
    ctx.state((cls.__name__, script))


def spaces_case(ctx, N, acts, form):
    env = build(N, [()] * N, None, acts, form)
    w = TorchWrapper(env, discrete_to_continuous_act=True) if form == "bare" else env
    require(env.num_envs == N and w.num_envs == N, "num_envs {}", env.num_envs)
    require(tuple(env.observation_space.shape) == (N, 3), "observation space {}", env.observation_space)
    s = w.single_observation_space
    require(isinstance(s, Box) and s.shape == (3,) and (s.low == -100).all() and (s.high == 100).all(), "single observation space {}", s)
    a = env.single_action_space
    if acts == "box":
        require(isinstance(a, Box) and a.shape == (2,) and np.allclose(a.low, [-1, -0.5]) and np.allclose(a.high, [1, 0.5]), "single action space {}", a)
        require(np.allclose(env.action_space.low, [[-1, -0.5]] * N) and np.allclose(env.action_space.high, [[1, 0.5]] * N), "action space {}", env.action_space)
    else:
        if form == "bare":
            require(isinstance(a, Discrete) and a.n == 3, "single action space {}", a)
            require(list(env.action_space.nvec) == [3] * N, "action space {}", env.action_space)
        c = w.single_action_space
        if form != "wrapped":
            require(isinstance(c, Box) and c.shape == (3,) and w.action_space.shape == (N, 3), "continuous action space {}", c)
    ctx.state((N, acts, form))


def clip_case(ctx, N, word):
    env = build(N, [()] * N, None, "box", "classic")
    env.reset()
    for a in word:
        Sub.log.clear()
        given = torch.tensor([[a * (i + 1), -a] for i in range(N)])
        env.step(given)
        for i, c in enumerate(sorted(Sub.log)):
            ref = [min(max(a * (i + 1), -1.0), 1.0), min(max(-a, -0.5), 0.5)]
            require(np.allclose(c[2], ref), "sub-environment {} got {}, expected {}", i, c[2], ref)
        ctx.step()
    ctx.state((N, word))


FLAGS = {
    "bool": (False, True),
    "int64": (0, 1, 2, -1),
    "uint8": (0, 1, 255),
    "float32": (0.0, 1.0, 0.5, -1.0, 1e-6, -1e-6),
    "float64": (0.0, 1.0, 0.01, 1e-9),
}


class Foreign(gym.vector.VectorEnv):
    """A vectorized environment of somebody else's: its arrays, flags and interface are as configured."""

    def __init__(self, n, lib, api, flag, dones, dtype, acts):
        super().__init__()
        self.num_envs = n
        self.lib, self.api, self.flag, self.dones, self.dt = lib, api, flag, dones, dtype
        self.single_observation_space = Box(low=-9, high=9, shape=(2,), dtype="float32")
        self.observation_space = Box(low=-9, high=9, shape=(n, 2), dtype="float32")
        if acts == "discrete":
            self.single_action_space = Discrete(3)
            self.action_space = gym.spaces.MultiDiscrete([3] * n)
        else:
            self.single_action_space = Box(low=-1, high=1, shape=(2,), dtype="float32")
            self.action_space = Box(low=-1, high=1, shape=(n, 2), dtype="float32")
        self.t = 0
        self.got = []
        self.seeded = []
        self.closed = 0

    def arr(self, x, dt):
        a = np.array(x, dtype=dt)
        return torch.as_tensor(a) if self.lib == "torch" else a

    def observation(self):
        return self.arr([[i, self.t] for i in range(self.num_envs)], self.dt)

    def reset(self, *, seed=None, options=None):
        self.t = 0
        self.seeded.append((seed, options))
        return (self.observation(), {"t": 0}) if self.api == "new" else self.observation()

    def step(self, action):
        self.got.append(action)
        self.t += 1
        rew = self.arr([10 * self.t + i for i in range(self.num_envs)], self.dt)
        done = self.arr([d[0] for d in self.dones], self.flag)
        if self.api == "old":
            return self.observation(), rew, done, {"t": self.t}
        return self.observation(), rew, done, self.arr([d[1] for d in self.dones], self.flag), {"t": self.t}

    def close(self, **kw):
        self.closed += 1


def is_set(v):
    return abs(v) > 1e-4 if isinstance(v, float) else bool(v)


def foreign_case(ctx, lib, api, flag, dones, dtype, acts, classic):
    """TorchWrapper passes on exactly what the environment said, as tensors."""
    n = len(dones)
    env = Foreign(n, lib, api, flag, dones, dtype, acts)
    w = TorchWrapper(env, force_classic_api=classic, discrete_to_continuous_act=True)
    require(w.array_type is None, "array type %s before anything was seen", w.array_type)
    require(w.num_envs == n and tuple(w.single_action_space.shape) == ((3,) if acts == "discrete" else (2,)), "spaces %s, %s", w.num_envs, w.single_action_space)
    want_dt = getattr(torch, dtype)
    for round_ in range(2):
        r = w.reset(seed=round_, options={"o": 1})
        require(env.seeded[-1] == (round_, {"o": 1}), "reset called with %s", env.seeded[-1])
        require(isinstance(r, tuple) == (api == "new" and not classic), "reset gave %s", type(r))
        if isinstance(r, tuple):
            require(r[1] == {"t": 0}, "info %s", r[1])
            r = r[0]
        require(w.array_type == lib, "array type %s, expected %s", w.array_type, lib)
        require(isinstance(r, torch.Tensor) and r.dtype == want_dt and r.tolist() == [[i, 0] for i in range(n)], "observation %s", r)
        for t in (1, 2):
            act = torch.tensor([[0.1 * i, -0.2, 0.15] for i in range(n)] if acts == "discrete" else [[0.1 * i, -0.2] for i in range(n)])
            out = w.step(act)
            ctx.step()
            require(len(out) == (4 if api == "old" or classic else 5), "step gave %s elements", len(out))
            got = env.got[-1]
            require(isinstance(got, np.ndarray if lib == "numpy" else torch.Tensor), "the environment received a %s", type(got))
            if acts == "discrete":
                require(got.tolist() == [[0.1 * i, -0.2, 0.15].index(max(0.1 * i, 0.15)) for i in range(n)], "the environment received %s", got)
                require("int" in str(got.dtype), "the environment received actions of type %s", got.dtype)
            else:
                require_same(torch.as_tensor(got), act, "actions")
            require(isinstance(out[0], torch.Tensor) and out[0].dtype == want_dt and out[0].tolist() == [[i, t] for i in range(n)], "observation %s", out[0])
            require(isinstance(out[1], torch.Tensor) and out[1].dtype == want_dt and out[1].tolist() == [10 * t + i for i in range(n)], "rewards %s", out[1])
            a, b = [is_set(d[0]) for d in dones], [is_set(d[1]) for d in dones]
            if api == "old":
                want = [a]
            elif classic:
                want = [[x or y for x, y in zip(a, b)]]
            else:
                want = [a, b]
            for x, y in zip(out[2:-1], want):
                require(isinstance(x, torch.Tensor) and x.dtype == torch.bool and x.tolist() == y, "flags %s, expected %s", x, y)
            require(out[-1] == {"t": t}, "info %s", out[-1])
            ctx.state(lib, api, flag, dones, t)
    w.close()
    require(env.closed == 1, "closed %s times", env.closed)


def conversion_case(ctx, kind, dt, target):
    """array_type, convert_to_torch and convert_from_torch keep the values and the type."""
    a = np.array([[0, 1], [1, 0]], dtype=dt)
    x = torch.as_tensor(a) if kind == "torch" else a if kind == "numpy" else a.tolist()
    if kind == "list":
        require(raises(vecrl.array_type, x, exc=TypeError) is not None, "the array type of a list was answered")
        require(vecrl.array_type(x, "numpy") == "numpy" and vecrl.array_type(x, fallback="torch") == "torch", "fallback not honoured")
    else:
        require(vecrl.array_type(x) == kind and vecrl.array_type(x, "other") == kind, "array type of a %s: %s", kind, vecrl.array_type(x))
    t = vecrl.convert_to_torch(x)
    require(isinstance(t, torch.Tensor) and t.tolist() == a.tolist(), "converted to %s", t)
    if kind != "list":
        require(t.dtype == torch.as_tensor(a).dtype, "converted to type %s", t.dtype)
    b = vecrl.convert_to_torch_bool(x)
    require(b.dtype == torch.bool and b.tolist() == [[False, True], [True, False]], "as flags: %s", b)
    if target == "other":
        require(raises(vecrl.convert_from_torch, t, target, exc=ValueError) is not None, "converted to an unknown array type")
        return
    back = vecrl.convert_from_torch(t, target)
    require(isinstance(back, torch.Tensor if target == "torch" else np.ndarray) and back.tolist() == a.tolist(), "converted back to %s", back)
    require(str(back.dtype).replace("torch.", "") == str(t.dtype).replace("torch.", ""), "converted back to type %s", back.dtype)
    ctx.state(kind, dt, target)


def run(ctx):
    for kind, dt, target in itertools.product(("torch", "numpy", "list"), ("float32", "float64", "int64", "int32", "uint8", "bool"), ("torch", "numpy", "other")):
        ctx.case("conversions", f"{kind} {dt} {target}", conversion_case, ctx, kind, dt, target)
    for lib, api, flag, dtype, acts, classic in itertools.product(("numpy", "torch"), ("new", "old"), FLAGS, ("float32", "float64"), ("box", "discrete"), (False, True)):
        pairs = list(itertools.product(FLAGS[flag], repeat=2)) if api == "new" else [(v, FLAGS[flag][0]) for v in FLAGS[flag]]
        for n in (1, 2):
            if n == 2 and not ctx.thorough:
                combos = [(p, q) for p in pairs for q in pairs[:2]]
            else:
                combos = itertools.product(pairs, repeat=n)
            for dones in combos:
                ctx.case("foreign", f"{lib} {api} {flag} {dones} {dtype} {acts} {classic}", foreign_case, ctx, lib, api, flag, dones, dtype, acts, classic)
    blocks = 64
    for N, T in ((1, 6), (2, 5 if ctx.thorough else 4), (3, 4 if ctx.thorough else 3)):
        ends = (0, 1, 2, 3) if N == 1 and T <= 6 else (0, 1, 2) if N == 2 and not ctx.thorough else (0, 1)
        per = list(itertools.product(ends if N > 1 else (0, 1, 2), repeat=T))
        all_scripts = list(itertools.product(per, repeat=N))
        for limit in (None, 1, 2) + ((3,) if N == 1 else ()):
            for acts in ("box", "discrete"):
                for form in ("bare", "wrapped", "classic"):
                    if N > 1 and not ctx.thorough and (acts, form) not in (("box", "bare"), ("discrete", "classic"), ("box", "classic"), ("discrete", "wrapped")):
                        continue
                    for lo in range(0, len(all_scripts), blocks):
                        hi = min(lo + blocks, len(all_scripts))
                        ctx.case("vector", f"N={N} T={T} limit={limit} {acts} {form} scripts {lo}-{hi}", vector_case, ctx, N, T, limit, acts, form, "num", "float32", None, None, (all_scripts, lo, hi))
    # variants, over fewer end patterns
    for N, T in ((1, 4), (2, 3), (3, 2)):
        per = list(itertools.product((0, 1), repeat=T))
        scripts = list(itertools.product(per, repeat=N))
        for limit in (None, 1, 2):
            for form in ("bare", "wrapped", "classic", "named", "named vector"):
                for acts in ("box", "discrete"):
                    variants = [("num", "float32", None, a) for a in range(1, T)] + [("num", "float64", None, None), ("num", "int32", None, None)]
                    if not form.startswith("named"):
                        variants += [("uneven", "float32", None, None), ("empty", "float32", None, None), ("none", "float32", None, None), ("num", "float32", "cpu", None)]
                    else:
                        variants += [("num", "float32", None, None)]
                    for info, dt, dev, again in variants:
                        ctx.case("variants", f"N={N} T={T} limit={limit} {acts} {form} {info} {dt} {dev} again={again}", vector_case, ctx, N, T, limit, acts, form, info, dt, dev, again, (scripts, 0, len(scripts)))
    for N in (1, 2, 3):
        for how in ("reset", "seed", "replaced", "wrapped", "dropped", "dropped by seed"):
            for seed in (0, 1, 12345):
                ctx.case("seeds", f"{N} {how} {seed}", seed_case, ctx, N, how, seed)
        for acts in ("box", "discrete"):
            for form in ("bare", "wrapped", "classic"):
                ctx.case("spaces", f"{N} {acts} {form}", spaces_case, ctx, N, acts, form)
        for word in itertools.product((-2.0, -0.25, 0.4, 3.0), repeat=2):
            ctx.case("spaces", f"clip {N} {word}", clip_case, ctx, N, word)
    for what in REFUSALS:
        ctx.case("refusals", what, refusal_case, ctx, what)
    for cls in (Sub, Old):
        for acts in ("box", "discrete"):
            for classic, d2c, clip in itertools.product((False, True), repeat=3):
                for script in itertools.product((0, 1, 2, 3), repeat=3):
                    ctx.case("single", f"{cls.__name__} {acts} {classic} {d2c} {clip} {script}", single_case, ctx, cls, acts, classic, d2c, clip, script)
        for script in itertools.product((0, 1, 2, 3), repeat=3):
            ctx.case("single", f"helpers {cls.__name__} {script}", helper_case, ctx, cls, script)
