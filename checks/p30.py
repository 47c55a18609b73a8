"""P30: a reinforcement-learning fitness is the average adjusted return of real episodes."""

import itertools
import math
import os
import pickle
import shutil
import tempfile

import gymnasium as gym
import numpy as np
import torch
from evotorch.decorators import pass_info
from evotorch.neuroevolution import GymNE, VecGymNE
from gymnasium.spaces import Box, Discrete
from torch import nn

from mc import rng
from mc.ctx import require
from mc.util import plain, raises, require_same

META = {
    "bounds": "table-driven environments (3 action kinds, 5 tables of episode lengths and end kinds, ends depending on the actions), 1..3 policies, 1..3 episodes, episode limits, 6 bonus schedules, reward decrease, normalization on and off, plain, vectorized and callable environments, environment limits 1..3, two evaluations in a row, feed-forward and recurrent networks; saving a solution given in 4 forms; visualising",
    "assumptions": ["environments are deterministic", "timesteps of the bonus schedule count from 1"],
}
gym.logger.min_level = 40


class Tab(gym.Env):
    """x <- x/2 + effect of the action; the episode ends by table, or when x gets large."""

    epoch = 0  # which evaluation is going on; each one begins with the first row of the table

    def __init__(self, acts="box", table=((2, 1),), same=False, dtype="float32", limit=3.0):
        self.acts, self.table, self.same, self.limit = acts, table, same, limit
        self.observation_space = Box(low=-50, high=50, shape=(2,), dtype=dtype)
        self.action_space = spaces(acts)
        self.episode, self.seen_epoch = -1, None

    def obs(self):
        return np.array([self.x, 0.5 * self.t], dtype=self.observation_space.dtype)

    def reset(self, *, seed=None, options=None):
        self.episode = self.episode + 1 if self.seen_epoch == Tab.epoch else 0
        self.seen_epoch = Tab.epoch
        k = 0 if self.same else self.episode
        self.x, self.t = self.start(k), 0
        return self.obs(), {}

    def start(self, k):
        return 1.0 - 0.75 * (k % 3)

    def step(self, action):
        o, r, te, tr = self.advance(action)
        return o, r, te, tr, {}

    def advance(self, action):
        k = 0 if self.same else self.episode
        n, kind = self.table[k % len(self.table)]
        require(isinstance(action, np.ndarray) or np.isscalar(action) or isinstance(action, (int, np.integer)), "the environment got a {}", type(action))
        a = effect(self.acts, action)
        self.t += 1
        self.x = self.x * 0.5 + a
        r = a + 0.125 * self.t + 0.25 * self.x
        end = self.t >= n
        big = abs(self.x) > self.limit
        return self.obs(), float(r), bool(big or (end and kind & 1)), bool(end and kind & 2)


class OldTab(Tab):
    """The classic interface."""

    def reset(self):
        return super().reset()[0]

    def step(self, action):
        o, r, te, tr = self.advance(action)
        return o, r, te or tr, {}


def spaces(acts):
    if acts == "discrete":
        return Discrete(3)
    if acts == "box":
        return Box(low=-1.0, high=1.0, shape=(1,), dtype="float32")
    if acts == "box2":
        return Box(low=np.array([-0.5, -np.inf], dtype="float32"), high=np.array([0.25, 1.0], dtype="float32"))
    return Box(low=-np.inf, high=np.inf, shape=(1,), dtype="float32")


def effect(acts, action):
    if acts == "discrete":
        require(int(action) == action and 0 <= int(action) < 3, "action {}", action)
        return float(int(action)) - 0.75
    a = [float(v) for v in np.asarray(action).reshape(-1)]
    s = spaces(acts)
    require(len(a) == s.shape[0], "action {}", a)
    for v, lo, hi in zip(a, s.low, s.high):
        require(lo <= v <= hi, "action {} is outside of the action space", a)
    return sum((i + 1) * v for i, v in enumerate(a))


for _acts in ("discrete", "box", "box2", "free"):
    gym.register(id=f"McTab{_acts.capitalize()}-v0", entry_point=Tab, disable_env_checker=True, order_enforce=False, kwargs={"acts": _acts})


class TabVec(gym.vector.VectorEnv):
    """A vectorized environment which never stops restarting its episodes."""

    sizes = []

    def __init__(self, num_envs, **kw):
        self.envs = [Tab(**kw) for _ in range(num_envs)]
        self.num_envs = num_envs
        self.single_observation_space = self.envs[0].observation_space
        self.single_action_space = self.envs[0].action_space
        self.observation_space = gym.vector.utils.batch_space(self.single_observation_space, num_envs)
        self.action_space = gym.vector.utils.batch_space(self.single_action_space, num_envs)
        TabVec.sizes.append(num_envs)

    def reset(self, **kw):
        return np.stack([e.reset()[0] for e in self.envs]), {}

    def step(self, actions):
        os_, rs, ts, us = [], [], [], []
        for e, a in zip(self.envs, actions):
            o, r, te, tr, _ = e.step(a)
            if te or tr:
                o, _ = e.reset()
            os_.append(o)
            rs.append(r)
            ts.append(te)
            us.append(tr)
        return np.stack(os_), np.array(rs, dtype="float32"), np.array(ts), np.array(us), {}


class Acc(nn.Module):
    """A recurrent policy: the state sums up the inputs."""

    def __init__(self, A):
        super().__init__()
        self.w = nn.Parameter(torch.zeros(A, 2))
        self.b = nn.Parameter(torch.zeros(A))

    def forward(self, x, h=None):
        if h is None:
            h = torch.zeros_like(x)
        h = 0.5 * h + x
        return h @ self.w.t() + self.b, h


@pass_info
def acc_maker(obs_length, act_length, **_):
    return Acc(act_length)


@pass_info
def lin_maker(obs_length, act_length, obs_shape, act_shape, obs_space, act_space):
    assert obs_shape == (obs_length,) and act_shape == (act_length,) and act_space.shape == act_shape and obs_space.shape == obs_shape
    return nn.Linear(obs_length, act_length)


ACT_LEN = {"discrete": 3, "box": 1, "box2": 2, "free": 1}


def network(kind, A):
    if kind == "string":
        return "Linear(obs_length, act_length)"
    if kind == "module":
        return nn.Linear(2, A)
    if kind == "callable":
        return lin_maker
    return acc_maker


class RefPolicy:
    def __init__(self, kind, w, acts):
        w = np.array(w, dtype="float64")
        self.w, self.b = w[: len(w) // 3 * 2].reshape(-1, 2), w[len(w) // 3 * 2 :]
        self.rec = kind == "recurrent"
        self.acts = acts
        self.reset()

    def reset(self):
        self.h = np.zeros(2)

    def raw(self, obs):
        if self.rec:
            self.h = 0.5 * self.h + obs
            return self.w @ self.h + self.b
        return self.w @ obs + self.b

    def act(self, obs):
        y = self.raw(obs)
        if self.acts == "discrete":
            return int(np.argmax(y.astype("float32")))
        s = spaces(self.acts)
        return np.clip(y, s.low, s.high).astype("float32")


class Stats:
    """Everything that was seen, and normalization by it."""

    def __init__(self, on):
        self.on, self.seen = on, []

    def add(self, obs):
        if self.on:
            self.seen.append(np.array(obs, dtype="float64"))

    def copy(self):
        c = Stats(self.on)
        c.seen = list(self.seen)
        return c

    def norm(self, obs):
        obs = np.array(obs, dtype="float64")
        if not self.on or not self.seen:
            return obs
        z = np.stack(self.seen)
        return (obs - z.mean(axis=0)) / np.sqrt(np.maximum(z.var(axis=0), 1e-2))


def bonus_at(schedule, t):
    if schedule is None:
        return 0.0
    t0, t1, b = schedule if len(schedule) == 3 else (schedule[0], schedule[0], schedule[1])
    if t >= t1:
        return b
    if t1 > t0 and t >= t0:
        return b * (t - t0) / (t1 - t0)
    return 0.0


class Margin(Exception):
    """An arg max of the reference is too close to call."""


def close_call(policy, obs):
    if policy.acts != "discrete":
        return
    y = np.sort(policy.w @ (0.5 * policy.h + obs if policy.rec else obs) + policy.b)
    if y[-1] - y[-2] < 1e-4:
        raise Margin


def ref_plain(cfg, values, stats, env):
    """The plain problem: one environment, one policy after another. -> fitnesses, interactions"""
    fits, steps = [], 0
    for w in values:
        total = 0.0
        p = RefPolicy(cfg["net"], w, cfg["acts"])
        for _ in range(cfg["episodes"]):
            p.reset()
            obs = env.reset()[0]
            stats.add(obs)
            t = 0
            while True:
                x = stats.norm(obs)
                close_call(p, x)
                obs, r, te, tr, _ = env.step(p.act(x))
                stats.add(obs)
                t += 1
                steps += 1
                total += r - (cfg["decrease"] or 0.0) + bonus_at(cfg["bonus"], t)
                if te or tr or (cfg["length"] is not None and t >= cfg["length"]):
                    break
        fits.append(total / cfg["episodes"])
    return fits, steps


def ref_vec(cfg, values, stats, envs):
    """The vectorized problem: all the policies in lockstep."""
    n = len(values)
    ps = [RefPolicy(cfg["net"], w, cfg["acts"]) for w in values]
    obs = [e.reset()[0] for e in envs[:n]]
    total, eps, t, steps = [0.0] * n, [0] * n, [0] * n, 0
    live = list(range(n))
    for i in live:
        stats.add(obs[i])
    while live:
        xs = {i: stats.norm(obs[i]) for i in live}
        for i in live:
            close_call(ps[i], xs[i])
            o, r, te, tr, _ = envs[i].step(ps[i].act(xs[i]))
            t[i] += 1
            steps += 1
            total[i] += r - (cfg["decrease"] or 0.0) + bonus_at(cfg["bonus"], t[i])
            if te or tr:
                eps[i] += 1
                t[i] = 0
                ps[i].reset()
                if eps[i] < cfg["episodes"]:
                    o = envs[i].reset()[0]
            obs[i] = o
        live = [i for i in live if eps[i] < cfg["episodes"]]
        for i in live:
            stats.add(obs[i])
    return [x / cfg["episodes"] for x in total], steps


VALUES = (0.5, -0.75, 1.25, 0.25, -1.5, 0.875, -0.3125, 2.0, 0.0625)


def params(n, length, k=0):
    return [[VALUES[(i * 4 + j * 2 + k + (i * j) % 3) % len(VALUES)] for j in range(length)] for i in range(n)]


def make(cfg, **kw):
    env_config = {"table": cfg["table"], "same": cfg.get("same", False), "dtype": cfg.get("dtype", "float32")}
    common = dict(
        network=network(cfg["net"], ACT_LEN[cfg["acts"]]),
        observation_normalization=cfg["norm"],
        num_episodes=cfg["episodes"],
        decrease_rewards_by=cfg["decrease"],
        alive_bonus_schedule=cfg["bonus"],
        env_config=env_config,
        **kw,
    )
    name = f"McTab{cfg['acts'].capitalize()}-v0"
    how = cfg["env"]
    if how == "plain name":
        return GymNE(name, episode_length=cfg["length"], **common)
    if how in ("plain callable", "classic"):
        cls = OldTab if how == "classic" else Tab
        return GymNE(env=lambda **k: cls(acts=cfg["acts"], **k), episode_length=cfg["length"], **common)
    if how == "vec name":
        return VecGymNE("gym::" + name, max_num_envs=cfg.get("max_envs"), **common)
    return VecGymNE(lambda num_envs, **k: TabVec(num_envs, acts=cfg["acts"], **k), max_num_envs=cfg.get("max_envs"), **common)


def fitness_case(ctx, cfg, sizes):
    """The fitnesses and counters of one or more evaluations in a row."""
    TabVec.sizes.clear()
    prob = make(cfg)
    vec = cfg["env"].startswith("vec")
    L = 3 * ACT_LEN[cfg["acts"]]
    require(prob.solution_length == L, "solution length {}", prob.solution_length)
    stats = Stats(cfg["norm"])
    mk = lambda: Tab(cfg["acts"], cfg["table"], cfg.get("same", False), cfg.get("dtype", "float32"))
    env = mk()
    interactions = episodes = 0
    values = None
    for k, n in enumerate(sizes):
        batch = prob.generate_batch(n)
        values = params(n, L, k)
        batch.set_values(torch.tensor(values))
        Tab.epoch += 1
        prob.evaluate(batch)
        Tab.epoch += 1
        try:
            if vec:
                found = {}
                for grouping in groupings(values, cfg.get("max_envs") or n):
                    mine, want, steps = stats.copy(), [], 0
                    for group in grouping:
                        f, s = ref_vec(cfg, group, mine, [mk() for _ in group])
                        want += f
                        steps += s
                    ok = np.allclose(plain(batch.evals)[:, 0].numpy(), want, atol=1e-4, rtol=1e-4)
                    found.setdefault(ok, (want, steps, mine))
                want, steps, stats = found.get(True) or found[False]
            else:
                want, steps = ref_plain(cfg, values, stats, env)
        except Margin:
            ctx.outcome("close call")
            ctx.state(("close call", str(cfg), sizes))
            return
        require_same(plain(batch.evals)[:, 0], torch.tensor(want, dtype=torch.float32), "fitnesses of evaluation %d" % (k + 1), 1e-4)
        interactions += steps
        episodes += n * cfg["episodes"]
        require(prob.interaction_count == interactions, "{} interactions counted, expected {}", prob.interaction_count, interactions)
        require(prob.episode_count == episodes, "{} episodes counted, expected {}", prob.episode_count, episodes)
        require(prob.status["total_interaction_count"] == interactions and prob.status["total_episode_count"] == episodes, "status {}", dict(prob.status))
        ctx.step(steps)
    if vec and cfg.get("max_envs"):
        require(prob.max_num_envs == cfg["max_envs"], "max_num_envs {}", prob.max_num_envs)
        require(not TabVec.sizes or max(TabVec.sizes) <= cfg["max_envs"], "environments {} made, limit {}", TabVec.sizes, cfg["max_envs"])
    if cfg["norm"]:
        check_stats(prob.get_observation_stats(), stats)
    else:
        require(raises(prob.get_observation_stats) is not None, "statistics of a problem without normalization")
    policies(ctx, cfg, prob, values, stats)
    ctx.state((tuple(sorted((k, str(v)) for k, v in cfg.items())), sizes))


def groupings(values, m):
    """Ways of cutting into consecutive groups of at most m: as balanced, or as full as possible."""
    n = len(values)
    yield [values[i : i + m] for i in range(0, n, m)]
    k = -(-n // m)
    out, start = [], 0
    for i in range(k):
        size = n // k + (1 if i < n % k else 0)
        out.append(values[start : start + size])
        start += size
    yield out


def check_stats(got, stats):
    z = np.stack(stats.seen)
    require(got.count == len(stats.seen), "{} observations counted, expected {}", got.count, len(stats.seen))
    require(np.allclose(np.asarray(got.mean), z.mean(axis=0), atol=1e-4), "mean {} instead of {}", got.mean, z.mean(axis=0))
    require(np.allclose(np.asarray(got.stdev), np.sqrt(np.maximum(z.var(axis=0), 1e-2)), atol=1e-3), "stdev {} instead of {}", got.stdev, np.sqrt(np.maximum(z.var(axis=0), 1e-2)))


PROBES = ([0.5, 0.0], [2.0, 0.5], [-3.0, 1.0])


def acts_like(policy, ref, clip, stats, what):
    """Feed the probes; recurrent modules which return their state get it back."""
    h = None
    got = []
    for o in PROBES:
        x = torch.tensor(o)
        with torch.no_grad():
            r = policy(x) if h is None else policy(x, h)
        if isinstance(r, tuple):
            r, h = r
        got.append(r)
    ref.reset()
    for o, g in zip(PROBES, got):
        y = ref.raw(stats.norm(o) if stats is not None else np.array(o))
        if clip and ref.acts != "discrete":
            s = spaces(ref.acts)
            y = np.clip(y, s.low, s.high)
        require(tuple(g.shape) == y.shape, "{}: output of shape {}", what, tuple(g.shape))
        require(np.allclose(g.numpy(), y, atol=1e-3), "{}: output {} for {}, expected {}", what, g.tolist(), o, y.tolist())


def policies(ctx, cfg, prob, values, stats):
    vec = cfg["env"].startswith("vec")
    for i, w in enumerate(values):
        ref = RefPolicy(cfg["net"], w, cfg["acts"])
        forms = [torch.tensor(w), list(w)] if i else [torch.tensor(w), tuple(w), prob.generate_batch(1)[0]]
        for f in forms:
            if not isinstance(f, (torch.Tensor, list, tuple)):
                f.set_values(torch.tensor(w))
            acts_like(prob.to_policy(f), ref, True, stats, "to_policy")
            acts_like(prob.make_net(f), ref, False, None, "make_net")
        if vec:
            acts_like(prob.to_policy(w, with_wrapper_modules=False), ref, False, None, "to_policy without wrappers")
        else:
            acts_like(prob.to_policy(w, clip_actions=False), ref, False, stats, "to_policy without clipping")
    # batches of observations
    if cfg["net"] != "recurrent":
        with torch.no_grad():
            out = prob.to_policy(values[0])(torch.tensor(PROBES))
        ref = RefPolicy(cfg["net"], values[0], cfg["acts"])
        want = np.stack([ref.raw(stats.norm(o)) for o in PROBES])
        if cfg["acts"] != "discrete":
            s = spaces(cfg["acts"])
            want = np.clip(want, s.low, s.high)
        require(np.allclose(out.numpy(), want, atol=1e-3), "a batch of observations gives {}", out.tolist())
    # exported policies are independent
    a, b = prob.to_policy(values[0]), prob.to_policy(values[-1])
    acts_like(a, RefPolicy(cfg["net"], values[0], cfg["acts"]), True, stats, "first of two policies")
    # saved solutions
    d = tempfile.mkdtemp()
    try:
        f = os.path.join(d, "sol.pickle")
        if cfg["net"] == "string" or cfg["net"] == "module":
            one = prob.generate_batch(1)
            one.set_values(torch.tensor([values[0]]).reshape(1, -1))
            for given in (torch.tensor(values[0]), one[0], [float(v) for v in values[0]], one.values[0]):
                prob.save_solution(given, f)
                with open(f, "rb") as h:
                    got = pickle.load(h)
                require(type(got["solution"]) is torch.Tensor and got.get("env", "").endswith("-v0") == cfg["env"].endswith("name"), "saved {}", got)
                require_same(got["solution"], torch.tensor(values[0]), "saved solution", 1e-6)
                acts_like(got["policy"], RefPolicy(cfg["net"], values[0], cfg["acts"]), True, stats, "saved policy")
                require(got["interaction_count"] == prob.interaction_count and got["episode_count"] == prob.episode_count, "saved counters {}", got)
                if cfg["norm"]:
                    z = np.stack(stats.seen)
                    require(np.allclose(np.asarray(got["obs_mean"]), z.mean(axis=0), atol=1e-4), "saved mean {}", got["obs_mean"])
                    require(np.allclose(np.asarray(got["obs_sum"]), z.sum(axis=0), atol=1e-3), "saved sum {}", got["obs_sum"])
                    require(np.allclose(np.asarray(got["obs_sum_of_squares"]), (z**2).sum(axis=0), atol=1e-3), "saved squares {}", got["obs_sum_of_squares"])
                    require(np.allclose(np.asarray(got["obs_stdev"]), np.sqrt(np.maximum(z.var(axis=0), 1e-2)), atol=1e-3), "saved stdev {}", got["obs_stdev"])
    finally:
        shutil.rmtree(d)


def run_case(ctx, cfg, update, episodes, decrease, form):
    """GymNE.run(...): results, and the effects on the statistics."""
    prob = make(cfg)
    L = 3 * ACT_LEN[cfg["acts"]]
    stats = Stats(cfg["norm"])
    env = Tab(cfg["acts"], cfg["table"], False)
    batch = prob.generate_batch(1)
    batch.set_values(torch.tensor(params(1, L)))
    Tab.epoch += 1
    prob.evaluate(batch)
    Tab.epoch += 1
    try:
        _, steps0 = ref_plain(cfg, params(1, L), stats, env)
        w = params(2, L, 3)[1]
        given = prob.make_net(w) if form == "module" else torch.tensor(w) if form == "tensor" else w
        frozen = stats if update else Frozen(stats)
        n = cfg["episodes"] if episodes is None else episodes
        cfg2 = dict(cfg, episodes=n, decrease=cfg["decrease"] if decrease is None else decrease)
        Tab.epoch += 1
        want, steps = ref_plain(cfg2, [w], frozen, env)
    except Margin:
        ctx.outcome("close call")
        return
    Tab.epoch += 1
    got = prob.run(given, update_stats=update, num_episodes=episodes, decrease_rewards_by=decrease)
    require(abs(float(got["cumulative_reward"]) - want[0]) < 1e-4, "return {} instead of {}", got["cumulative_reward"], want[0])
    require(got["interaction_count"] == steps, "{} interactions instead of {}", got["interaction_count"], steps)
    if not update and cfg["norm"]:
        check_stats(prob.get_observation_stats(), stats)
    if update and cfg["norm"]:
        check_stats(prob.get_observation_stats(), frozen)
    if not update:
        require(prob.interaction_count == steps0, "{} interactions instead of {}", prob.interaction_count, steps0)
    ctx.step(steps)
    ctx.state((str(cfg), update, episodes, decrease, form))


def visualize_case(ctx, cfg, how, update, episodes, decrease):
    """Showing a policy gives the same results, on an environment of its own that is rendered after every event."""
    made = []

    class Shown(Tab):
        def __init__(self, render_mode=None, **kw):
            super().__init__(**kw)
            self.render_mode, self.events = render_mode, []
            made.append(self)

        def reset(self, **kw):
            self.events.append("reset")
            return super().reset(**kw)

        def step(self, action):
            self.events.append("step")
            return super().step(action)

        def render(self):
            self.events.append("render")

    prob = GymNE(env=lambda **k: Shown(acts=cfg["acts"], table=cfg["table"], same=True, **k), network="Linear(obs_length, act_length)", num_episodes=cfg["episodes"], decrease_rewards_by=cfg["decrease"], observation_normalization=cfg["norm"], episode_length=cfg["length"])
    w = params(1, prob.solution_length, 3)[0]
    batch = prob.generate_batch(1)
    batch.set_values(torch.tensor([w]))
    prob.evaluate(batch)
    used = [e for e in made if e.events]
    require(len(used) == 1 and "render" not in used[0].events and used[0].render_mode is None, "an evaluation rendered")
    base, before = used[0], list(used[0].events)
    count, eps = prob.interaction_count, prob.episode_count
    seen = None if not cfg["norm"] else (prob.get_observation_stats().count, prob.get_observation_stats().mean.copy())
    want = prob.run(w, num_episodes=episodes, decrease_rewards_by=decrease)
    require(base.events != before, "run did not use the environment")
    before = list(base.events)
    made.clear()
    kw = {"update_stats": update, "decrease_rewards_by": decrease}
    if how == "run":
        got = prob.run(w, visualize=True, num_episodes=episodes, **kw)
        n = cfg["episodes"] if episodes is None else episodes
    elif episodes == 1:
        got = prob.visualize(w, **kw)  # one episode is the default
        n = 1
    else:
        got = prob.visualize(w, num_episodes=episodes, **kw)
        n = cfg["episodes"] if episodes is None else episodes
    require(base.events == before, "showing a policy used the environment of the evaluations")
    require(len(made) == n and all(e.render_mode == "human" for e in made), "{} environments for {} episodes", len(made), n)
    for e in made:
        require(e.events == ["reset", "render"] + ["step", "render"] * (len(e.events) // 2 - 1), "events {}", e.events)
    if not (update and cfg["norm"]):
        require(abs(float(got["cumulative_reward"]) - float(want["cumulative_reward"])) < 1e-4, "return {} instead of {}", got["cumulative_reward"], want["cumulative_reward"])
        require(got["interaction_count"] == want["interaction_count"], "interactions {} instead of {}", got["interaction_count"], want["interaction_count"])
    steps = sum(e.events.count("step") for e in made)
    require(got["interaction_count"] == steps, "interactions {} instead of {}", got["interaction_count"], steps)
    require((prob.interaction_count, prob.episode_count) == ((count + steps, eps + n) if update else (count, eps)), "counters {}, {}", prob.interaction_count, prob.episode_count)
    if cfg["norm"]:
        st = prob.get_observation_stats()
        require(st.count == seen[0] + (steps + n if update else 0), "{} observations counted", st.count)
    ctx.step(steps)
    ctx.state((str(cfg), how, update, episodes, decrease))


class Frozen(Stats):
    def __init__(self, s):
        super().__init__(s.on)
        self.seen = list(s.seen)

    def add(self, obs):
        pass


def noise_case(ctx, cfg, stdev, n):
    """Gaussian noise is added before clipping."""
    seen = []

    class Spy(Tab):
        def step(self, action):
            seen.append((self, self.obs(), np.array(action, dtype="float64").reshape(-1)))
            return super().step(action)

    values = params(n, 3)

    def body(chooser):
        seen.clear()
        TabVec.sizes.clear()
        kw = dict(network=network("string", 1), action_noise_stdev=stdev, num_episodes=cfg["episodes"])
        if cfg["env"].startswith("plain"):
            prob = GymNE(env=lambda: Spy(acts="free", table=cfg["table"], limit=1e9), **kw)
        else:

            class V(TabVec):
                def __init__(self, num_envs):
                    super().__init__(num_envs, acts="free", table=cfg["table"])
                    self.envs = [Spy(acts="free", table=cfg["table"], limit=1e9) for _ in range(num_envs)]

            prob = VecGymNE(lambda num_envs: V(num_envs), **kw)
        o = rng.Oracle(chooser, normals=(-1.0, 2.0), free=4)
        batch = prob.generate_batch(n)
        batch.set_values(torch.tensor(values))
        with rng.active(o):
            prob.evaluate(batch)
        for _, obs, a in seen:
            outs = [float(np.dot(w[:2], obs)) + w[2] for w in values]
            ok = [z for y in outs for z in (-1.0, 2.0) if abs(y + stdev * z - a[0]) < 1e-4]
            require(ok, "action {} for observation {}, policies give {}", a, obs, outs)
        ctx.step(len(seen))
        ctx.outcome(tuple(round(float(a[0]), 4) for _, _, a in seen))

    ctx.explore("noise", f"{cfg['env']} {stdev} {n} {cfg['table']} {cfg['episodes']}", body)


def agree_case(ctx, cfg, n):
    """The plain and the vectorized problem agree when episodes do not differ."""
    fits = {}
    L = 3 * ACT_LEN[cfg["acts"]]
    for env in ("plain name", "plain callable", "vec name", "vec callable"):
        prob = make(dict(cfg, env=env, same=True))
        batch = prob.generate_batch(n)
        batch.set_values(torch.tensor(params(n, L, 5)))
        prob.evaluate(batch)
        fits[env] = plain(batch.evals)
        require(prob.episode_count == n * cfg["episodes"], "{} episodes", prob.episode_count)
        fits[env + " count"] = torch.tensor([[float(prob.interaction_count)]])
    for env in fits:
        base = "plain name count" if env.endswith("count") else "plain name"
        require_same(fits[env], fits[base], env, 1e-4)
    ctx.state((str(cfg), n))


def refusal_case(ctx, what):
    lin = "Linear(obs_length, act_length)"

    def env(**kw):
        e = Tab()
        for k, v in kw.items():
            setattr(e, k, v)
        return e

    bad = {
        "no environment": lambda: GymNE(network=lin),
        "two environments": lambda: GymNE("McTabBox-v0", lin, env_name="McTabBox-v0"),
        "no network": lambda: GymNE("McTabBox-v0"),
        "bonus of one item": lambda: evaluated(GymNE("McTabBox-v0", lin, alive_bonus_schedule=(1,))),
        "bonus of four items": lambda: evaluated(GymNE("McTabBox-v0", lin, alive_bonus_schedule=(1, 2, 3, 4))),
        "vec bonus of one item": lambda: VecGymNE("McTabBox-v0", lin, alive_bonus_schedule=(1,)),
        "vec bonus of four items": lambda: VecGymNE("McTabBox-v0", lin, alive_bonus_schedule=(1, 2, 3, 4)),
        "discrete observations": lambda: GymNE(lambda: env(observation_space=Discrete(3)), lin),
        "not vectorized": lambda: evaluated(VecGymNE(lambda num_envs: Tab(), lin)),
    }
    e = raises(bad[what])
    require(e is not None, "{} was accepted", what)
    if "bonus" in what:
        require(isinstance(e, ValueError), "{} gave {}", what, repr(e))
    ctx.state(what)


def evaluated(p):
    p.evaluate(p.generate_batch(1))


def strings_case(ctx, how):
    """Declarations which must be accepted."""
    lin = "Linear(obs_length, act_length)"
    cases = {
        "vec max": lambda: VecGymNE("McTabBox-v0", lin, num_actors="max"),
        "vec max gpus": lambda: VecGymNE("McTabBox-v0", lin, num_actors="num_cpus", num_gpus_per_actor="max"),
        "env_name": lambda: GymNE(env_name="McTabBox-v0", network=lin),
        "network args": lambda: GymNE("McTabBox-v0", "Linear(obs_length, n) >> Tanh() >> Linear(n, act_length)", network_args={"n": 3}),
        "vec network args": lambda: VecGymNE("McTabBox-v0", "Linear(obs_length, n) >> Tanh() >> Linear(n, act_length)", network_args={"n": 3}),
        "shapes": lambda: GymNE("McTabBox-v0", "Linear(obs_shape[0], act_space[0])"),
        "vec shapes": lambda: VecGymNE("McTabBox-v0", "Linear(obs_shape[0], act_space[0])"),
    }
    from mc import fakeray

    fakeray.reset()
    p = cases[how]()
    want = {"network args": 13, "vec network args": 13}.get(how, 3)
    require(p.solution_length == want, "solution length {}", p.solution_length)
    v = plain(p.generate_values(2))
    require(bool((v.abs() <= 1e-5 + 1e-9).all()), "initial values {}", v)
    ctx.state(how)


TABLES = (((1, 1),), ((3, 1),), ((2, 2), (1, 1), (3, 1)), ((1, 3), (3, 2)), ((4, 2), (2, 1), (1, 1)))
BONUSES = (None, (2, 1.0), (1, 3, 2.0), (0, 2, -1.0), (3, 1, 0.5), (1, 0.75))


def run(ctx):
    nets = ("string", "recurrent")
    for env in ("plain name", "classic", "vec name", "vec callable"):
        vec = env.startswith("vec")
        for acts, net, table, episodes, norm in itertools.product(("discrete", "box", "box2"), nets, TABLES, (1, 2, 3), (False, True)):
            if not ctx.thorough and ((episodes == 3 and acts == "box2") or (env == "classic" and acts == "box2")):
                continue
            for bi, bonus in enumerate(BONUSES):
                for decrease in (None, 0.5):
                    if not ctx.thorough and (bi + (decrease is None) + episodes) % 2:
                        continue
                    for length in (None,) if vec else ((None, 1, 2) if bi < 2 or ctx.thorough else (None, 2)):
                        cfg = dict(env=env, acts=acts, net=net, table=table, episodes=episodes, norm=norm, bonus=bonus, decrease=decrease, length=length)
                        ctx.case("fitness", f"{env} {acts} {net} {table} eps={episodes} norm={norm} bonus={bonus} dec={decrease} len={length}", fitness_case, ctx, cfg, (2, 1) if bi % 2 else (3,))
    base = dict(bonus=None, decrease=None, length=None)
    for env in ("vec name", "vec callable"):
        for table, episodes, norm, acts in itertools.product(TABLES, (1, 2), (False, True), ("box", "discrete")):
            for m in (None, 1, 2, 3):
                for sizes in ((1, 3), (3, 1), (2, 3), (3, 2, 1), (5,), (4, 2), (1, 2, 3)):
                    cfg = dict(base, env=env, acts=acts, net="string", table=table, episodes=episodes, norm=norm, max_envs=m, same=True)
                    ctx.case("groups", f"{env} {acts} {table} eps={episodes} norm={norm} max={m} {sizes}", fitness_case, ctx, cfg, sizes)
    for env in ("plain name", "plain callable", "classic", "vec name", "vec callable"):
        for net in ("string", "module", "callable", "recurrent"):
            for acts in ("free", "box", "box2", "discrete"):
                for dtype in ("float32", "float64", "int32"):
                    for norm in (False, True):
                        for table in TABLES[1:4]:
                            cfg = dict(base, env=env, acts=acts, net=net, table=table, episodes=1, norm=norm, dtype=dtype)
                            ctx.case("policies", f"{env} {net} {acts} {dtype} norm={norm} {table}", fitness_case, ctx, cfg, (2,))
    for acts, table, norm, length, update, episodes, decrease, form in itertools.product(("box", "discrete"), TABLES, (False, True), (None, 2), (False, True), (None, 1, 3), (None, 0.25), ("module", "tensor", "list")):
        cfg = dict(base, env="plain name", acts=acts, net="string", table=table, episodes=2, norm=norm, decrease=0.5, length=length)
        ctx.case("run", f"{acts} {table} norm={norm} len={length} update={update} eps={episodes} dec={decrease} {form}", run_case, ctx, cfg, update, episodes, decrease, form)
    for acts, net, table, episodes, bonus, decrease, n in itertools.product(("box", "discrete"), ("string", "recurrent"), TABLES, (1, 2, 3), BONUSES, (None, 0.5), (1, 3)):
        cfg = dict(acts=acts, net=net, table=table, episodes=episodes, norm=False, bonus=bonus, decrease=decrease, length=None)
        ctx.case("agreement", f"{acts} {net} {table} {episodes} {bonus} {decrease} {n}", agree_case, ctx, cfg, n)
    for env in ("plain", "vec"):
        for stdev in (0.5, 0.125):
            for n in (1, 2):
                for table in TABLES[:3]:
                    noise_case(ctx, dict(env=env, table=table, episodes=1), stdev, n)
    for what in ("no environment", "two environments", "no network", "bonus of one item", "bonus of four items", "vec bonus of one item", "vec bonus of four items", "discrete observations", "not vectorized"):
        ctx.case("declarations", what, refusal_case, ctx, what)
    for how in ("vec max", "vec max gpus", "env_name", "network args", "vec network args", "shapes", "vec shapes"):
        ctx.case("declarations", how, strings_case, ctx, how)
    for acts, table, norm, length, eps, dec in itertools.product(("box", "discrete"), (((1, 1),), ((2, 2),), ((3, 1),)), (False, True), (None, 2), (1, 2), (None, 0.5)):
        cfg = {"acts": acts, "table": table, "norm": norm, "length": length, "episodes": eps, "decrease": dec}
        for how, update, episodes, decrease in itertools.product(("run", "visualize"), (False, True), (None, 1, 3), (None, 0.25)):
            ctx.case("showing", f"{cfg} {how} {update} {episodes} {decrease}", visualize_case, ctx, cfg, how, update, episodes, decrease)
