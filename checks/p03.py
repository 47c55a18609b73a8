"""P03: state shared between the main process and the workers is neither lost nor doubled."""

import itertools
import pickle

import gymnasium as gym
import numpy as np
import torch
from evotorch import Problem
from evotorch.distributions import SeparableGaussian, SymmetricSeparableGaussian
from evotorch.neuroevolution import GymNE, VecGymNE
from evotorch.neuroevolution.net import RunningNorm, RunningStat
from gymnasium.spaces import Box

from checks import p30 as rl
from mc import fakeray
from mc.ctx import require
from mc.util import plain, require_same

META = {
    "bounds": "histories of 1..3 operations (evaluations of 1..4 solutions, runs in the main process, copies, killing of the workers, manual settings), 1..3 workers, all completion orders for histories of evaluations, with and without normalization; generic synchronization protocol, plain and vectorized problems, distributed gradients with fixed and adaptive sizes",
    "assumptions": ["environments are deterministic", "final observations may or may not belong to the statistics"],
}


class Generic(Problem):
    """Synchronization through the documented override points."""

    def __init__(self, mode, **kw):
        super().__init__("min", solution_length=2, initial_bounds=(-1, 1), seed=1, **kw)
        self.mode = mode
        self.version, self.done, self.got = 0, 0, []
        self.total, self.received_lists = 0, []

    def _make_sync_data_for_actors(self):
        if self.mode == "off":
            return NotImplemented
        if self.mode == "nothing to send":
            return None
        return {"version": self.version}

    def _use_sync_data_from_main(self, received):
        self.got.append(received["version"])

    def _make_sync_data_for_main(self):
        r = {"actor": self.actor_index, "done": self.done, "got": list(self.got)}
        self.done, self.got = 0, []
        return r

    def _use_sync_data_from_actors(self, received):
        self.received_lists.append(received)
        self.total += sum(r["done"] for r in received)

    def _evaluate_batch(self, batch):
        if self.is_remote and self.mode == "both":
            assert self.got and self.got[-1] == int(batch.values[0, 1]), "evaluated with an old state"
        self.done += len(batch)
        batch.set_evals(batch.values[:, 0] * 2)


def generic_case(ctx, mode, actors, sizes, how):
    kw = {} if how is None else dict([how])

    def body(chooser):
        fakeray.reset(chooser)
        p = Generic(mode, num_actors=actors, **kw)
        total = 0
        for k, n in enumerate(sizes):
            p.version = k + 10
            b = p.generate_batch(n)
            v = torch.tensor([[float(i), float(k + 10)] for i in range(n)])
            b.set_values(v)
            p.evaluate(b)
            require_same(plain(b.evals)[:, 0], v[:, 0] * 2, "evals")
            total += n
            if mode == "off":
                require(p.received_lists == [], "synchronization although it is off")
                continue
            require(len(p.received_lists) == k + 1, "{} synchronizations after {} evaluations", len(p.received_lists), k + 1)
            r = p.received_lists[-1]
            require(sorted(x["actor"] for x in r) == list(range(actors)), "data of the workers {}", [x["actor"] for x in r])
            require(p.total == total, "{} solutions were reported, {} were evaluated", p.total, total)
            for x in r:
                want = [k + 10] if mode == "both" else []
                require(x["got"] == want, "worker {} received {}, expected {}", x["actor"], x["got"], want)
        ctx.step(len(sizes))
        ctx.state((mode, actors, sizes, how))

    ctx.explore("protocol", f"{mode} {actors} {sizes} {how}", body)


class Duty(gym.Env):
    """The first action decides how long the episode is; everything seen is recorded."""

    log = []

    def __init__(self):
        self.observation_space = Box(low=-50, high=50, shape=(2,), dtype="float32")
        self.action_space = Box(low=-np.inf, high=np.inf, shape=(1,), dtype="float32")

    def reset(self, *, seed=None, options=None):
        self.t, self.n, self.last = 0, None, 0.5
        Duty.log.append(("reset", self.obs()))
        return self.obs(), {}

    def obs(self):
        return np.array([self.last, float(self.t)], dtype="float32")

    def step(self, action):
        a = float(np.asarray(action).reshape(-1)[0])
        if self.n is None:
            self.n = duration(a)
        self.last = a
        self.t += 1
        Duty.log.append(("step", self.obs()))
        return self.obs(), a, self.t >= self.n, False, {}


def duration(a):
    return 1 + int(min(max(round(a), 0), 2))


gym.register(id="McDuty-v0", entry_point=Duty, disable_env_checker=True, order_enforce=False)
NET = "Linear(obs_length, act_length)"


def seen_by(a, final):
    """Observations of an episode of the policy which always answers a."""
    n = duration(a)
    return [(0.5, 0.0)] + [(a, float(t)) for t in range(1, n + (1 if final else 0))]


class Account:
    """What must have been counted."""

    def __init__(self):
        self.steps = self.episodes = 0
        self.with_final, self.without_final = [], []

    def episode(self, a):
        self.steps += duration(a)
        self.episodes += 1
        self.with_final += seen_by(a, True)
        self.without_final += seen_by(a, False)

    def copy(self):
        c = Account()
        c.steps, c.episodes = self.steps, self.episodes
        c.with_final, c.without_final = list(self.with_final), list(self.without_final)
        return c


def check_account(p, acc, norm, what):
    require(p.interaction_count == acc.steps, "{}: {} interactions counted, {} took place", what, p.interaction_count, acc.steps)
    require(p.episode_count == acc.episodes, "{}: {} episodes counted, {} took place", what, p.episode_count, acc.episodes)
    if norm:
        st = p.get_observation_stats()
        n = 0 if st is None else st.count
        for seen in (acc.with_final, acc.without_final):
            if n == len(seen) and (n == 0 or matches(st, seen)):
                return
        require(False, "{}: statistics of {} observations (sum {}), expected {} or {}", what, n, None if not n else np.asarray(st.sum).tolist(), totals(acc.with_final), totals(acc.without_final))


def totals(seen):
    return (len(seen), np.sum(np.array(seen), axis=0).tolist() if seen else None)


def matches(st, seen):
    z = np.array(seen, dtype="float64")
    return np.allclose(np.asarray(st.sum), z.sum(axis=0), atol=1e-3) and np.allclose(np.asarray(st.sum_of_squares), (z**2).sum(axis=0), atol=1e-3)


ACTIONS = (0.25, 1.0, 2.0, 0.75)


def make_rl(kind, actors, norm, episodes, how):
    kw = {} if how is None else dict([how])
    cls = GymNE if kind == "plain" else VecGymNE
    return cls("McDuty-v0", NET, num_actors=actors, observation_normalization=norm, num_episodes=episodes, **kw)


def apply(p, acc, op, kind, norm, episodes, k, what):
    """Carry out one operation. -> the problem to go on with, and its account"""
    if op[0] == "E":
        n = int(op[1:])
        b = p.generate_batch(n)
        acts = [ACTIONS[(i + k) % len(ACTIONS)] for i in range(n)]
        b.set_values(torch.tensor([[0.0, 0.0, a] for a in acts]))
        p.evaluate(b)
        for a in acts:
            for _ in range(episodes):
                acc.episode(a)
        require_same(plain(b.evals)[:, 0], torch.tensor([a * duration(a) for a in acts]), what + ": fitnesses", 1e-5)
        require(p.status["total_interaction_count"] == p.interaction_count and p.status["total_episode_count"] == p.episode_count, "{}: status {}", what, dict(p.status))
    elif op == "run":
        p.run([0.0, 0.0, 1.0], update_stats=True, num_episodes=2)
        acc.episode(1.0)
        acc.episode(1.0)
    elif op == "try":
        p.run([0.0, 0.0, 2.0], update_stats=False, num_episodes=2)
    elif op == "clone":
        p = p.clone()
    elif op == "pickle":
        p = pickle.loads(pickle.dumps(p))
    elif op == "twin":
        before = acc.copy()
        other = p.clone()
        apply(other, before, "E2", kind, norm, episodes, k + 1, what)
        check_account(other, before, norm, what + ": the clone")
        apply(other, before, "E1", kind, norm, episodes, k + 2, what)
        check_account(other, before, norm, what + ": the clone again")
    elif op == "kill":
        p.kill_actors()
    elif op == "set":
        p.set_interaction_count(100)
        p.set_episode_count(50)
        acc.steps, acc.episodes = 100, 50
    elif op == "stats" and norm:
        given = [(1.0, 2.0), (-1.0, 0.5), (3.0, 3.0)]
        st = RunningStat() if kind == "plain" else RunningNorm(shape=2, dtype="float32", device="cpu")
        for g in given:
            st.update(np.array(g, dtype="float32") if kind == "plain" else torch.tensor(g))
        p.set_observation_stats(st)
        acc.with_final, acc.without_final = list(given), list(given)
        apply(p, acc, "E2", kind, norm, episodes, k, what)
        require(st.count == 3, "{}: the given statistics were altered", what)
    return p, acc


def history(ctx, section, kind, actors, norm, episodes, how, word):
    def body(chooser):
        fakeray.reset(chooser)
        p = make_rl(kind, actors, norm, episodes, how)
        acc = Account()
        for k, op in enumerate(word):
            what = f"operation {k + 1} ({op})"
            p, acc = apply(p, acc, op, kind, norm, episodes, k, what)
            check_account(p, acc, norm, what)
        ctx.step(len(word))
        ctx.state((kind, actors, norm, episodes, how, word))

    desc = f"{kind} actors={actors} norm={norm} eps={episodes} {how} {' '.join(word)}"
    if section == "orders":
        ctx.explore(section, desc, body)
    else:
        ctx.case(section, desc, body, None)


def before_case(ctx, kind, actors, episodes, n_evals, acts):
    """Each worker normalizes according to the state of the main process."""
    cfg = dict(env="plain name" if kind == "plain" else "vec name", acts=acts, net="string", table=((3, 1),), same=True, episodes=episodes, norm=True, bonus=None, decrease=None, length=None)
    L = 3 * rl.ACT_LEN[acts]

    def body(chooser):
        fakeray.reset(chooser)
        p = rl.make(cfg, num_actors=actors)
        main = rl.Stats(True)
        for k in range(n_evals):
            b = p.generate_batch(actors)
            values = rl.params(actors, L, k)
            b.set_values(torch.tensor(values))
            p.evaluate(b)
            want, delta = [], []
            for w in values:  # one worker each
                st = main.copy()
                env = rl.Tab(acts, cfg["table"], True)
                f, _ = (rl.ref_plain(cfg, [w], st, env)) if kind == "plain" else rl.ref_vec(cfg, [w], st, [env])
                want += f
                delta += st.seen[len(main.seen) :]
            require_same(plain(b.evals)[:, 0], torch.tensor(want, dtype=torch.float32), f"fitnesses of evaluation {k + 1}", 1e-4)
            main.seen += delta
            rl.check_stats(p.get_observation_stats(), main)
        ctx.step(n_evals)
        ctx.state((kind, actors, episodes, n_evals, acts))

    ctx.explore("state before", f"{kind} {actors} {episodes} {n_evals} {acts}", body)


def grad_case(ctx, actors, norm, popsize, num_interactions, popsize_max, even, rounds, dist):
    """Counters of distributed gradient computation, compared with the environments' own records."""

    def body(chooser):
        fakeray.reset(chooser)
        p = make_rl("plain", actors, norm, 1, None)
        Duty.log.clear()
        total_solutions = 0
        cls = SymmetricSeparableGaussian if dist == "symmetric" else SeparableGaussian
        for k in range(rounds):
            d = cls({"mu": torch.tensor([0.1, 0.2, 0.8]), "sigma": torch.tensor([0.1, 0.1, 1.0])})
            res = p.sample_and_compute_gradients(d, popsize, num_interactions=num_interactions, popsize_max=popsize_max, ranking_method="raw", ensure_even_popsize=even)
            res = [res] if isinstance(res, dict) else res
            total_solutions += sum(r["num_solutions"] for r in res)
            steps = [o for w, o in Duty.log if w == "step"]
            require(p.interaction_count == len(steps), "round {}: {} interactions counted, {} took place", k + 1, p.interaction_count, len(steps))
            require(p.episode_count == total_solutions, "round {}: {} episodes counted, {} solutions", k + 1, p.episode_count, total_solutions)
            require(len(Duty.log) - len(steps) == total_solutions, "round {}: {} episodes took place", k + 1, len(Duty.log) - len(steps))
            if norm:
                st = p.get_observation_stats()
                z = np.array([o for _, o in Duty.log], dtype="float64")
                require(st.count == len(z) and np.allclose(np.asarray(st.sum), z.sum(axis=0), rtol=1e-3, atol=1e-2), "round {}: statistics {} {}, expected {} {}", k + 1, st.count, st.sum, len(z), z.sum(axis=0))
        ctx.step(rounds)
        ctx.state((actors, norm, popsize, num_interactions, popsize_max, even, rounds, dist))

    ctx.explore("gradients", f"{actors} norm={norm} {popsize} {num_interactions} {popsize_max} {even} {rounds} {dist}", body)


def limit_case(ctx, actors, limit, n, episodes, op):
    """The limit on the number of environments holds over all the workers, also for recreated ones."""

    def body(chooser):
        fakeray.reset(chooser)
        rl.TabVec.sizes.clear()
        p = VecGymNE(Many, NET, num_actors=actors, max_num_envs=limit, num_episodes=episodes)
        acc = 0
        for k in range(2):
            rl.TabVec.sizes.clear()
            b = p.generate_batch(n)
            v = torch.tensor([[0.0, 0.0, 0.25 * i] for i in range(n)])
            b.set_values(v)
            p.evaluate(b)
            acc += n * episodes
            require(p.episode_count == acc, "{} episodes counted, {} took place", p.episode_count, acc)
            # never more than its share in a worker
            require(all(s <= -(-limit // actors) for s in rl.TabVec.sizes), "environments {} were made, limit {} for {} workers", rl.TabVec.sizes, limit, actors)
            require(p.max_num_envs == limit, "max_num_envs {}", p.max_num_envs)
            if op == "clone":
                p = p.clone()
            elif op == "pickle":
                p = pickle.loads(pickle.dumps(p))
            elif op == "kill":
                p.kill_actors()
        ctx.state((actors, limit, n, episodes, op))

    ctx.explore("limits", f"{actors} {limit} {n} {episodes} {op}", body)


class Many(rl.TabVec):
    def __init__(self, num_envs):
        super().__init__(num_envs, acts="box", table=((2, 1),), same=True)


def split_case(ctx, kind, how, n, want):
    """Into how many pieces a population is cut."""
    def body(chooser):
        w = fakeray.reset(chooser)
        p = make_rl(kind, 2, False, 1, how)
        b = p.generate_batch(n)
        b.set_values(torch.zeros(n, 3))
        p.evaluate(b)
        pieces = sum(1 for x in w.log if x[1] == "evaluate_batch_piece")
        require(pieces == want, "{} pieces, expected {}", pieces, want)
        ctx.state((kind, how, n))

    ctx.case("pieces", f"{kind} {how} {n}", body, None)


def run(ctx):
    hows = (None, ("num_subbatches", 3), ("num_subbatches", 1), ("subbatch_size", 1), ("subbatch_size", 2))
    for mode in ("both", "nothing to send", "off"):
        for actors in (2, 3):
            for how in hows:
                for sizes in ((1,), (2,), (4,), (1, 2), (3, 1)) + (((1, 1, 1), (2, 1, 2)) if actors == 2 else ()):
                    if actors == 3 and sizes in ((4,), (3, 1)) and not ctx.thorough and how is not None:
                        continue
                    generic_case(ctx, mode, actors, sizes, how)
    for kind in ("plain", "vec"):
        for norm in (False, True):
            for actors in (2, 3):
                for episodes in (1, 2):
                    for how in hows[:2] + hows[3:4]:
                        for word in (("E1",), ("E2",), ("E3",), ("E1", "E2"), ("E3", "E1")) + ((("E2", "E1", "E2"), ("E1", "E1", "E3")) if actors == 2 else ()):
                            if (actors == 3 or episodes == 2) and not ctx.thorough and (how is not None or len(word) > 1):
                                continue
                            history(ctx, "orders", kind, actors, norm, episodes, how, word)
            ops = ["E1", "E2", "E4", "clone", "pickle", "twin", "kill", "set", "stats"] + (["run", "try"] if kind == "plain" else [])
            depth = 4 if ctx.thorough else 3
            for actors in (None, 2, 3):
                for n in range(1, depth + 1):
                    for word in itertools.product(ops, repeat=n):
                        if not any(o[0] == "E" or o in ("twin", "stats") for o in word) or (not norm and "stats" in word):
                            continue
                        if actors == 3 and n == depth:
                            continue
                        history(ctx, "histories", kind, actors, norm, 1, None, word)
    for kind in ("plain", "vec"):
        for actors in (2, 3):
            for episodes in (1, 2):
                for acts in ("box", "box2"):
                    for n_evals in (1, 2, 3):
                        if actors == 3 and n_evals == 3 and not ctx.thorough:
                            continue
                        before_case(ctx, kind, actors, episodes, n_evals, acts)
    for actors in (None, 2, 3):
        for norm in (False, True):
            for dist in ("plain", "symmetric"):
                for popsize in (4, 6):
                    for inter, top in ((None, None), (6, None), (10, 8), (30, 8)):
                        for rounds in (1, 2):
                            if actors == 3 and (rounds == 2 or inter == 10) and not ctx.thorough:
                                continue
                            grad_case(ctx, actors, norm, popsize, inter, top, dist == "symmetric", rounds, dist)
    for actors in (2, 3):
        for limit in (3, 4, 6):
            for n in (1, 4, 7):
                for episodes in (1, 2):
                    for op in ("go on", "clone", "pickle", "kill"):
                        if n == 7 and actors == 3 and not ctx.thorough and episodes == 2:
                            continue
                        limit_case(ctx, actors, limit, n, episodes, op)
    for kind in ("plain", "vec"):
        for n in (1, 2, 3, 5, 6):
            for how, want in ((None, min(2, n)), (("num_subbatches", 3), min(3, n)), (("num_subbatches", 1), 1), (("num_subbatches", 5), min(5, n)), (("subbatch_size", 2), -(-n // 2)), (("subbatch_size", 1), n)):
                split_case(ctx, kind, how, n, want)
