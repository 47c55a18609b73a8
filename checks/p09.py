"""P09: loggers record exactly the requested generations, with that generation's values."""

import builtins
import contextlib
import io
import itertools
import os
import pickle
import shutil
import tempfile

import evotorch.logging as evolog
import torch
from evotorch import Problem, SolutionBatch
from evotorch.algorithms import PGPE, SNES, GeneticAlgorithm
from evotorch.algorithms.searchalgorithm import SearchAlgorithm
from evotorch.neuroevolution import NEProblem
from evotorch.operators import GaussianMutation, OnePointCrossOver
from torch import nn

from mc.ctx import require
from mc.util import plain, require_same


def _with_sacred():
    """Where the sacred package cannot be imported, a stand-in makes its logger available."""
    import importlib
    import sys
    import types

    try:
        import sacred  # noqa: F401
    except ImportError:
        sacred = types.ModuleType("sacred")
        sacred.run = types.ModuleType("sacred.run")
        sacred.Experiment = type("Experiment", (), {})
        sacred.run.Run = type("Run", (), {})
        sys.modules["sacred"] = sacred
        sys.modules["sacred.run"] = sacred.run
        importlib.reload(evolog)


_with_sacred()

META = {
    "bounds": "every logger class, intervals 1..4, both first-step settings, all splits of up to 5 (thorough 6) generations into step() and run(n) calls including run(0); pairs of loggers with all interval combinations; snapshots of five searches",
    "assumptions": ["loggers are attached before the first step"],
}


class Flat(Problem):
    def __init__(self):
        super().__init__("min", solution_length=2, initial_bounds=(0, 1))
        self.n = 0

    def _evaluate_batch(self, batch):
        batch.set_evals(batch.values[:, 0])


class Toy(SearchAlgorithm):
    """Status entries of every kind; the tensors are updated in place by the steps."""

    def __init__(self, problem, big=False):
        self.v = torch.tensor(0.0)
        self.vec = torch.zeros(2)
        self.lst = []
        kinds = dict(
            number=lambda: int(self.v) * 10,
            real=lambda: float(self.v) + 0.5,
            flag=lambda: bool(int(self.v) % 2),
        )
        if not big:
            kinds.update(
                word=lambda: "w" + str(int(self.v)),
                scalar=lambda: self.v,
                vector=lambda: self.vec,
                items=lambda: self.lst,
                nothing=lambda: None,
            )
        super().__init__(problem, **kinds)
        self._population = problem.generate_batch(2)

    def _step(self):
        self.v += 1
        self.vec += 2
        self.lst.append(int(self.v))
        self._population = SolutionBatch(self.problem, 2, empty=True)
        self._population.set_values(torch.tensor([[float(self.v), 1.0], [-float(self.v), 0.0]]))
        self.problem.evaluate(self._population)


def scalars(t, numeric):
    d = {"number": 10 * t, "real": t + 0.5, "flag": bool(t % 2), "iter": t, "best_eval": -float(t), "worst_eval": float(t)}
    if not numeric:
        d.update(word=f"w{t}", scalar=float(t), nothing=None)
    return d


def recorded(v):
    return float(v) if isinstance(v, torch.Tensor) else v


def expected_gens(total, interval, first):
    return [t for t in range(1, total + 1) if (t - 1 if first else t) % interval == 0]


# --- recorders ------------------------------------------------------------------------------


class Recorder:
    """Attaches one logger; rows() gives what reached the backend as a list of dicts."""

    numeric = False

    def finish(self):
        pass


class Pandas(Recorder):
    def __init__(self, s, **kw):
        self.logger = evolog.PandasLogger(s, **kw)

    def rows(self):
        df = self.logger.to_dataframe(index=None)
        out = []
        for rec in df.to_dict("records"):
            out.append({k: (None if v is None else recorded(v.item() if hasattr(v, "item") else v)) for k, v in rec.items()})
        if out:
            df2 = self.logger.to_dataframe()
            require(list(df2.index) == [r["iter"] for r in out], "the dataframe is indexed by %s", list(df2.index))
            require("iter" not in df2.columns and set(df2.columns) == set(df.columns) - {"iter"}, "columns of the dataframe")
        return out


class Base(Recorder):
    def __init__(self, s, **kw):
        got = self.got = []

        class L(evolog.Logger):
            def _log(self, status):
                got.append({k: recorded(v) for k, v in status.items() if k in scalars(1, False)})

        L(s, **kw)

    def rows(self):
        return self.got


class Scalar(Recorder):
    def __init__(self, s, **kw):
        got = self.got = []

        class L(evolog.ScalarLogger):
            def _log(self, status):
                got.append({k: recorded(v) for k, v in status.items()})

        L(s, **kw)

    def rows(self):
        return self.got


class StdOut(Recorder):
    def __init__(self, s, **kw):
        self.out = io.StringIO()
        self.logger = evolog.StdOutLogger(s, leading_keys=("iter", "real", "absent"), **kw)
        self.cm = contextlib.redirect_stdout(self.out)
        self.cm.__enter__()

    def finish(self):
        self.cm.__exit__(None, None, None)

    def rows(self):
        rows, cur = [], {}
        first = []
        for line in self.out.getvalue().splitlines():
            if ":" in line:
                k, v = line.split(":", 1)
                if k.strip() == "iter" and cur:
                    rows.append(cur)
                    cur = {}
                require(k.strip() not in cur, "%r printed twice", k.strip())
                cur[k.strip()] = v.strip()
                if len(cur) <= 2:
                    first.append(k.strip())
        if cur:
            rows.append(cur)
        require(first == ["iter", "real"] * len(rows), "the leading keys are not printed first: %s", first)
        out = []
        for r in rows:
            t = int(r["iter"])
            want = scalars(t, False)
            require(set(r) == set(want), "printed entries %s, expected %s", sorted(r), sorted(want))
            for k, v in want.items():
                text = r[k]
                ok = text == str(v) or (isinstance(v, float) and _float(text) == v)
                require(ok, "printed %s=%s at generation %d, expected %s", k, text, t, v)
            out.append(want)
        return out


def _float(text):
    import re

    m = re.findall(r"-?\d+\.?\d*(?:e-?\d+)?", text)
    return float(m[0]) if m else None


class Sacred(Recorder):
    def __init__(self, s, **kw):
        rows = self.got = []
        results = self.results = []

        class Run:
            def log_scalar(self, name, value, step=None):
                if not rows or name in rows[-1]:
                    rows.append({})
                rows[-1][name] = recorded(value)

            @property
            def result(self):
                return results[-1] if results else None

            @result.setter
            def result(self, v):
                results.append(recorded(v))

        evolog.SacredLogger(s, Run(), "real", **kw)

    def rows(self):
        require(self.results == [r["real"] for r in self.got], "registered results %s for %s", self.results, self.got)
        return self.got


class SacredPlain(Sacred):
    def __init__(self, s, **kw):
        rows = self.got = []

        class Run:
            def log_scalar(self, name, value, step=None):
                if not rows or name in rows[-1]:
                    rows.append({})
                rows[-1][name] = recorded(value)

        evolog.SacredLogger(s, Run(), **kw)

    def rows(self):
        return self.got


class MlflowClient(Recorder):
    numeric = True

    def __init__(self, s, **kw):
        rows = self.got = []

        class Client:
            def log_metric(self, run_id, key, value, timestamp=None, step=None, **kw):
                require(run_id == "run-7", "logged into run %s", run_id)
                if not rows or key in rows[-1]:
                    rows.append({})
                rows[-1][key] = value
                rows[-1].setdefault("#step", step)
                require(rows[-1]["#step"] == step, "one generation logged under different steps")

        evolog.MlflowLogger(s, Client(), "run-7", **kw)

    def rows(self):
        for r in self.got:
            require(r.get("#step") == r["iter"], "generation %s logged as step %s", r["iter"], r.get("#step"))
        return [{k: v for k, v in r.items() if k != "#step"} for r in self.got]


class Patched(Recorder):
    def patch(self, module, name, fn):
        self.undo = (module, name, getattr(module, name))
        setattr(module, name, fn)

    def finish(self):
        setattr(*self.undo)


class MlflowGlobal(Patched):
    numeric = True

    def __init__(self, s, **kw):
        self.got = []

        def log_metrics(metrics, step=None, **kw):
            require(step == metrics["iter"], "generation %s logged as step %s", metrics["iter"], step)
            self.got.append(dict(metrics))

        self.patch(evolog.mlflow, "log_metrics", log_metrics)
        evolog.MlflowLogger(s, **kw)

    def rows(self):
        return self.got


class Neptune(Recorder):
    group = None

    def __init__(self, s, **kw):
        rows = self.got = []
        pre = "" if self.group is None else self.group + "/"

        class Series:
            def __init__(self, key):
                self.key = key

            def log(self, value, *a, **k):
                require(self.key.startswith(pre), "key %r outside of the group", self.key)
                key = self.key[len(pre) :]
                if not rows or key in rows[-1]:
                    rows.append({})
                rows[-1][key] = recorded(value)

            append = log

        class Run:
            def __getitem__(self, key):
                return Series(key)

        r = Run()
        lg = evolog.NeptuneLogger(s, r, group=self.group, **kw)
        require(lg.run is r, "the run of the logger is another one")

    def rows(self):
        return self.got


class NeptuneGroup(Neptune):
    group = "g"


class Wandb(Patched):
    group = None

    def __init__(self, s, **kw):
        self.got = []
        pre = "" if self.group is None else self.group + "/"

        def log(data, **kw):
            require(all(k.startswith(pre) for k in data), "keys %s outside of the group", list(data))
            self.got.append({k[len(pre) :]: recorded(v) for k, v in data.items()})

        self.patch(evolog.wandb, "log", log)
        evolog.WandbLogger(s, init=False, group=self.group, **kw)

    def rows(self):
        return self.got


class WandbGroup(Wandb):
    group = "h"


RECORDERS = {
    c.__name__: c
    for c in (Base, Scalar, Pandas, StdOut, Sacred, SacredPlain, MlflowClient, MlflowGlobal, Neptune, NeptuneGroup, Wandb, WandbGroup)
}


def drive(s, ops):
    t = 0
    ends = []
    for op in ops:
        if op == "s":
            s.step()
            t += 1
        elif not (op == 0 and t == 0):
            s.run(op)
            t += op
            ends.append(t)
    return t, ends


def compare(rows, want):
    require(len(rows) == len(want), "recorded generations %s, expected %s", [r.get("iter") for r in rows], [w["iter"] for w in want])
    for r, w in zip(rows, want):
        require(set(r) == set(w), "recorded entries %s, expected %s", sorted(r), sorted(w))
        for k in w:
            require(r[k] == w[k], "recorded %s=%s at generation %s, expected %s", k, r[k], w["iter"], w[k])


def interval_case(ctx, specs, ops):
    s = Toy(Flat(), big=any(RECORDERS[n].numeric for n, _, _ in specs))
    numeric = any(RECORDERS[n].numeric for n, _, _ in specs)
    recs = []
    try:
        for name, interval, first in specs:
            recs.append(RECORDERS[name](s, interval=interval, after_first_step=first))
        t, _ = drive(s, ops)
    finally:
        for r in reversed(recs):
            r.finish()
    ctx.step(t)
    for r, (name, interval, first) in zip(recs, specs):
        rows = r.rows()
        compare(rows, [scalars(g, numeric) for g in expected_gens(t, interval, first)])
        ctx.state(name, rows)


def defaults(ctx, name):
    """Without an interval, every generation is recorded."""
    s = Toy(Flat(), big=RECORDERS[name].numeric)
    r = RECORDERS[name](s)
    try:
        drive(s, [2, "s"])
    finally:
        r.finish()
    ctx.step(3)
    compare(r.rows(), [scalars(g, RECORDERS[name].numeric) for g in (1, 2, 3)])


# --- snapshots --------------------------------------------------------------------------------


class P(Problem):
    def __init__(self, senses=("min",), **kw):
        super().__init__(list(senses) if len(senses) > 1 else senses[0], solution_length=2, initial_bounds=(-1.0, 2.0), seed=3, **kw)

    def _evaluate_batch(self, batch):
        x = batch.values
        cols = [(x - 0.3).pow(2).sum(dim=-1), (x + 0.7).abs().sum(dim=-1)][: len(self.senses)]
        batch.set_evals(torch.stack(cols, dim=1))


class Boxes(Problem):
    def __init__(self):
        super().__init__("max", dtype=object, seed=3)

    def _fill(self, values):
        for i in range(len(values)):
            values[i] = [float(i), {"a": i}]

    def _evaluate(self, solution):
        solution.set_evals(float(solution.values[0]))


class Net(NEProblem):
    observation_normalization = True

    def __init__(self):
        self.count = 0
        super().__init__("max", nn.Linear(3, 2), seed=4)

    def to_policy(self, x):
        return self.parameterize_net(x)

    def get_observation_stats(self):
        from evotorch.neuroevolution.net import RunningStat

        r = RunningStat()
        for i in range(self.count + 2):
            r.update([float(i), 1.0])
        return r

    def _evaluate_network(self, net):
        self.count += 1
        return net(torch.tensor([1.0, 2.0, 3.0])).sum()


def bump(values):
    from evotorch.tools import make_tensor

    return make_tensor([[item[0] + 1, {"a": 5}] for item in values], dtype=object)


SEARCHES = {
    "snes": lambda: SNES(P(), stdev_init=0.5, popsize=4),
    "pgpe": lambda: PGPE(P(), popsize=4, center_learning_rate=0.3, stdev_learning_rate=0.1, stdev_init=0.4),
    "ga": lambda: (lambda p: GeneticAlgorithm(p, operators=[OnePointCrossOver(p, tournament_size=2), GaussianMutation(p, stdev=0.2)], popsize=4))(P()),
    "ga2": lambda: (lambda p: GeneticAlgorithm(p, operators=[OnePointCrossOver(p, tournament_size=2), GaussianMutation(p, stdev=0.2)], popsize=4))(P(("min", "max"))),
    "objects": lambda: (lambda p: GeneticAlgorithm(p, operators=[bump], popsize=3))(Boxes()),
    "net": lambda: PGPE(Net(), popsize=4, center_learning_rate=0.3, stdev_learning_rate=0.1, stdev_init=0.4),
}

ITEMS = {
    "default": None,
    "one": "mean_eval",
    "some": ("best", "iter", "missing", "obj1_pop_best"),
}

DEFAULT_ITEMS = ("center", "best", "pop_best", "median_eval", "mean_eval", "pop_best_eval")


def freeze(v):
    if hasattr(v, "evals") and hasattr(v, "values"):
        v = v.values
    if isinstance(v, torch.Tensor):
        return plain(v).clone().tolist()
    if isinstance(v, dict) or type(v).__name__ == "ImmutableDict":
        return {k: freeze(v[k]) for k in v}
    if isinstance(v, (str, int, float)) or v is None:
        return v
    return [freeze(x) for x in v]


def snapshots(ctx, name, items, interval, first, ops, explicit):
    torch.manual_seed(1)
    s = SEARCHES[name]()
    seen = {}

    def watch(status):
        seen[s.step_count] = {k: freeze(v) for k, v in status.items()}
        if name == "net":
            w = s.problem.to_policy(s.status["center"])
            seen[s.step_count]["#policy"] = w(torch.tensor([0.5, -1.0, 2.0])).tolist()
            seen[s.step_count]["#count"] = s.problem.get_observation_stats().count

    s.log_hook.append(watch)
    d = tempfile.mkdtemp(prefix="mc-p09-")
    written = []
    real_open = builtins.open

    def spy(f, mode="r", *a, **k):
        if "w" in mode and str(f).startswith(d):
            written.append(os.path.basename(str(f)))
        return real_open(f, mode, *a, **k)

    out = io.StringIO()
    try:
        kw = {} if ITEMS[items] is None else {"items_to_save": ITEMS[items]}
        sub = os.path.join(d, "deep", "er")
        builtins.open = spy
        with contextlib.redirect_stdout(out):
            lg = evolog.PicklingLogger(s, interval=interval, after_first_step=first, directory=sub, prefix="run", zfill=3, verbose=False, **kw)
            require(lg.last_generation is None and lg.last_file_name is None, "a new logger claims to have saved")
            t, ends = drive(s, ops)
        builtins.open = real_open
        ctx.step(t)
        want = sorted(set(expected_gens(t, interval, first)) | set(ends))
        names = sorted(os.listdir(sub))
        require(names == [f"run_generation{g:03d}.pickle" for g in want], "saved %s, expected generations %s", names, want)
        require(len(set(written)) == len(written), "saved more than once: %s", written)
        for g in want:
            with open(os.path.join(sub, f"run_generation{g:03d}.pickle"), "rb") as f:
                data = pickle.load(f)
            verify_snapshot(data, seen[g], items, name, f"snapshot of generation {g}")
        if want:
            require(lg.last_generation == want[-1], "last_generation is %s, expected %s", lg.last_generation, want[-1])
            require(os.path.basename(lg.last_file_name) == names[-1], "last_file_name is %s", lg.last_file_name)
            verify_snapshot(lg.unpickle_last_file(), seen[want[-1]], items, name, "last snapshot")
        if explicit and t > 0:
            fn = lg.save("extra.pickle")
            require(fn == os.path.join(sub, "extra.pickle"), "save() returned %s", fn)
            require(os.path.exists(fn) and lg.last_file_name == fn and lg.last_generation == t, "explicit save is not the last one")
            verify_snapshot(lg.unpickle_last_file(), seen[t], items, name, "explicit snapshot")
        require(out.getvalue() == "", "a silent logger printed %r", out.getvalue())
        ctx.state(name, items, names)
    finally:
        builtins.open = real_open
        shutil.rmtree(d)


def verify_snapshot(data, seen, items, name, what):
    wanted = ITEMS[items] or DEFAULT_ITEMS
    if isinstance(wanted, str):
        wanted = (wanted,)
    keys = {k for k in wanted if k in seen}
    extra = {"obs_stats", "policy", "beginning_time", "now", "elapsed"} if name == "net" else set()
    require(set(data) == keys | extra, "%s holds %s, expected %s", what, sorted(data), sorted(keys | extra))
    for k in keys:
        v = data[k]
        if isinstance(v, torch.Tensor):
            require(type(v) is torch.Tensor, "%s: %s is a %s", what, k, type(v).__name__)
        got = freeze(v)
        require(got == seen[k], "%s: %s is %s, the search reported %s", what, k, got, seen[k])
    if name == "net":
        y = data["policy"](torch.tensor([0.5, -1.0, 2.0])).tolist()
        require_same(y, seen["#policy"], what + ": output of the policy")
        require(data["obs_stats"].count == seen["#count"], "%s: observation statistics of another generation", what)
        require(data["elapsed"] == data["now"] - data["beginning_time"], "%s: elapsed", what)


def pop_only(kind):
    """Searches over networks: with a center, with a population only."""
    p = Net()
    if kind == "center":
        return PGPE(p, popsize=4, center_learning_rate=0.3, stdev_learning_rate=0.1, stdev_init=0.4)
    return GeneticAlgorithm(p, operators=[GaussianMutation(p, stdev=0.2)], popsize=4)


def placed(ctx, kind, policy, prefix, directory, zfill, verbose, steps):
    """Where a snapshot is put, what is announced, and which solution becomes the policy."""
    torch.manual_seed(1)
    s = pop_only(kind)
    d = tempfile.mkdtemp(prefix="mc-p09-")
    before = os.getcwd()
    out = io.StringIO()
    try:
        os.chdir(d)
        kw = {} if prefix is None else {"prefix": prefix}
        if directory is not None:
            kw["directory"] = directory
        if zfill is not None:
            kw["zfill"] = zfill
        if policy is not None:
            kw["make_policy_from"] = policy
        if not verbose:
            kw["verbose"] = False
        with contextlib.redirect_stdout(out):
            lg = evolog.PicklingLogger(s, interval=steps, **kw)
            key = policy or ("center" if kind == "center" else "pop_best")
            for _ in range(steps):
                s.step()
        where = d if directory is None else os.path.join(d, directory)
        files = [f for f in os.listdir(where) if f.endswith(".pickle")]
        require(len(files) == 1, "files %s", files)
        tail = "_generation" + str(steps).zfill(6 if zfill is None else zfill) + ".pickle"
        require(files[0].endswith(tail), "file %s, expected its name to end with %s", files[0], tail)
        if prefix is not None:
            require(files[0] == prefix + tail, "file %s", files[0])
        else:
            require("Net" in files[0] and str(os.getpid()) in files[0], "default name %s tells neither the problem nor the process", files[0])
        full = os.path.join(where, files[0])
        require(os.path.abspath(lg.last_file_name) == os.path.abspath(full), "last_file_name %s", lg.last_file_name)
        require((lg.last_file_name in out.getvalue()) == verbose, "verbose=%s, printed %r", verbose, out.getvalue())
        with open(full, "rb") as f:
            data = pickle.load(f)
        sln = s.status[key]
        x = torch.tensor([0.5, -1.0, 2.0])
        require_same(data["policy"](x), s.problem.parameterize_net(sln if isinstance(sln, torch.Tensor) else sln.values)(x), f"policy from {key}", 1e-6)
        ctx.state((kind, key, files[0][-20:]))
    finally:
        os.chdir(before)
        shutil.rmtree(d)


def splits(total, zeros):
    """All ways to split the given number of generations into step() and run(n) calls."""
    if total == 0:
        yield ()
        return
    for n in range(1, total + 1):
        for rest in splits(total - n, zeros):
            yield (n,) + rest
            if n == 1:
                yield ("s",) + rest


def run(ctx):
    top = 6 if ctx.thorough else 5
    seqs = [q for n in range(1, top + 1) for q in splits(n, False)]
    with_zero = seqs + [q[:i] + (0,) + q[i:] for q in seqs if len(q) <= 3 for i in range(len(q) + 1)]
    for name in RECORDERS:
        ctx.case("defaults", {"logger": name}, defaults, ctx, name)
        for interval, first in itertools.product((1, 2, 3, 4), (False, True)):
            for ops in seqs if name in ("Base", "Pandas") else [(1,), ("s", 5), (8,), (3, 4), (2, "s", "s", 4)]:
                ctx.case("intervals", {"loggers": [[name, interval, first]], "ops": list(ops)}, interval_case, ctx, [(name, interval, first)], ops)
    for i, j, f, g in itertools.product((1, 2, 3), (1, 2, 3, 4), (False, True), (False, True)):
        specs = [("Base", i, f), ("Pandas", j, g)]
        for ops in ((7,), ("s", 3, 2, "s")):
            ctx.case("pairs", {"loggers": [list(x) for x in specs], "ops": list(ops)}, interval_case, ctx, specs, ops)
    for interval, first in itertools.product((1, 2, 3, 4), (False, True)):
        for ops in with_zero:
            ctx.case("snapshots", {"search": "snes", "interval": interval, "first": first, "ops": list(ops)}, snapshots, ctx, "snes", "default", interval, first, ops, False)
    for name, items in itertools.product(SEARCHES, ITEMS):
        for interval, first in itertools.product((1, 2, 3), (False, True)):
            for ops in ((1,), (5,), (2, "s", 2), ("s", "s", "s"), (3, 0, 1)):
                desc = {"search": name, "items": items, "interval": interval, "first": first, "ops": list(ops)}
                ctx.case("snapshot contents", desc, snapshots, ctx, name, items, interval, first, ops, True)
    for kind, policies in (("center", (None, "center", "best", "worst", "pop_best")), ("population", (None, "best", "worst", "pop_best"))):
        for v in itertools.product(policies, (None, "a-b"), (None, "x", os.path.join("x", "y")), (None, 0, 3), (False, True), (1, 2, 3)):
            ctx.case("places", dict(zip(("search", "policy", "prefix", "directory", "zfill", "verbose", "steps"), (kind,) + v)), placed, ctx, kind, *v)
