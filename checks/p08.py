"""P08: a search advances step by step; hooks, counters and status tell the same story."""

import copy
import itertools
from datetime import datetime

import torch
from evotorch import Problem, SolutionBatch
from evotorch.algorithms import CEM, CMAES, PGPE, SNES, XNES, Cosyne, GeneticAlgorithm, MAPElites, PyCMAES, SteadyStateGA
from evotorch.algorithms.restarter import IPOP, Restart
from evotorch.algorithms.searchalgorithm import SearchAlgorithm, SinglePopulationAlgorithmMixin
from evotorch.operators import GaussianMutation, OnePointCrossOver, SimulatedBinaryCrossOver
from evotorch.tools import make_tensor
from evotorch.tools.hook import Hook

from mc import fakeray
from mc.ctx import require
from mc.util import plain, require_same

META = {
    "bounds": "all sequences of up to 4 (thorough 5) operations step/run(0..2)/status reads on a minimal algorithm under 9 hook configurations; all sequences of up to 3 (thorough 4) operations including foreign evaluations on every algorithm class; all hook lists of up to 3 callables with every combination of result kinds; all edits of hook lists up to 3 operations",
    "assumptions": ["the status before the first step is not asserted", "the status of the inner algorithm, as reported by a restarting search, is a live view"],
}


# ---------------------------------------------------------------------------------------------
# the Hook list itself

RESULTS = {
    "none": lambda: None,
    "dict": lambda: {"a": 1, "b": 2},
    "dict2": lambda: {"b": 3, "c": 4},
    "empty": lambda: {},
    "list": lambda: [1, 2],
    "tuple": lambda: (3,),
    "nothing": lambda: [],
    "int": lambda: 7,
}


def expected_result(kinds):
    res = None
    for k in kinds:
        r = RESULTS[k]()
        if r is None:
            continue
        if isinstance(r, int):
            return TypeError
        if isinstance(r, dict):
            if isinstance(res, list):
                return TypeError
            res = {} if res is None else res
            res.update(r)
        else:
            if isinstance(res, dict):
                return TypeError
            res = [] if res is None else res
            res.extend(r)
    return res


def attempt(fn, *args, **kw):
    try:
        return fn(*args, **kw)
    except Exception as e:
        return type(e)


def hook_results(ctx, kinds):
    calls = []

    def make(i, k):
        def f(*args, **kw):
            calls.append((i, args, kw))
            return RESULTS[k]()

        return f

    fns = [make(i, k) for i, k in enumerate(kinds)]
    want = expected_result(kinds)
    for args, kw in (((), {}), ((1, "x"), {"p": 2})):
        for fixed_args, fixed_kw in (((), {}), ((9,), {"p": 0, "q": 5})):
            h = Hook(fns, args=fixed_args, kwargs=fixed_kw)
            for name, f in (("call", h), ("dict", h.accumulate_dict), ("sequence", h.accumulate_sequence)):
                calls.clear()
                got = attempt(f, *args, **kw)
                ctx.step()
                exp = want
                if name == "dict":
                    exp = {} if want is None else (TypeError if isinstance(want, list) else want)
                if name == "sequence":
                    exp = [] if want is None else (TypeError if isinstance(want, dict) else want)
                require(got == exp, "%s of callables returning %s gave %s, expected %s", name, kinds, got, exp)
                if exp is not TypeError or want is not TypeError:
                    want_calls = [(i, fixed_args + args, {**fixed_kw, **kw}) for i in range(len(kinds))]
                    require(calls == want_calls, "%s invoked %s, expected %s", name, calls, want_calls)
            kept = [RESULTS[k]() for k in kinds]
            h = Hook([lambda *a, _i=i, **kw: kept[_i] for i in range(len(kinds))], args=fixed_args, kwargs=fixed_kw)
            got = [attempt(h, *args, **kw), attempt(h, *args, **kw)]
            ctx.step(2)
            require(kept == [RESULTS[k]() for k in kinds], "the hook altered what its callables %s returned into %s", kinds, kept)
            require(got == [want, want], "callables returning the same %s twice were accumulated as %s, expected %s", kinds, got, want)
            h = Hook(fns, args=fixed_args, kwargs=fixed_kw)
            for part in (slice(None), slice(1, None), slice(None, -1), slice(None, None, -1)):
                calls.clear()
                got = attempt(h[part], *args, **kw)
                ctx.step()
                exp = expected_result(kinds[part])
                require(got == exp, "the slice %s of callables returning %s gave %s, expected %s", part, kinds, got, exp)
                if exp is not TypeError:
                    want_calls = [(i, fixed_args + args, {**fixed_kw, **kw}) for i in range(len(kinds))[part]]
                    require(calls == want_calls, "the slice %s invoked %s, expected %s", part, calls, want_calls)
            require(list(h.args) == list(fixed_args) and dict(h.kwargs) == fixed_kw, "calling a hook changed its own arguments")


def hook_edits(ctx, ops):
    fns = {c: (lambda c=c: [c]) for c in "abcde"}
    name_of = {id(f): c for c, f in fns.items()}
    h = Hook([fns["a"], fns["b"]])
    m = ["a", "b"]
    edits = {
        "append": lambda x, g: x.append(g("c")),
        "insert": lambda x, g: x.insert(1, g("d")),
        "insert-1": lambda x, g: x.insert(-1, g("e")),
        "del0": lambda x, g: x.__delitem__(0),
        "delslice": lambda x, g: x.__delitem__(slice(0, 2)),
        "set": lambda x, g: x.__setitem__(-1, g("d")),
        "setslice": lambda x, g: x.__setitem__(slice(0, 1), [g("e"), g("c")]),
        "extend": lambda x, g: x.extend([g("d"), g("e")]),
        "remove": lambda x, g: x.remove(g("b")),
        "pop": lambda x, g: x.pop(),
        "pop0": lambda x, g: x.pop(0),
        "reverse": lambda x, g: x.reverse(),
        "clear": lambda x, g: x.clear(),
        "iadd": lambda x, g: x.__iadd__([g("a")]),
    }
    for op in ops:
        e1 = attempt(edits[op], h, lambda c: fns[c])
        e2 = attempt(edits[op], m, lambda c: c)
        ctx.step()
        bad1 = isinstance(e1, type) and issubclass(e1, Exception)
        bad2 = isinstance(e2, type) and issubclass(e2, Exception)
        require(bad1 == bad2, "%s on a hook: %s, on a list: %s", op, e1, e2)
        require([name_of[id(f)] for f in h] == m, "after %s the hook holds %s, a list %s", op, [name_of[id(f)] for f in h], m)
        require(len(h) == len(m), "len")
        require((h() or []) == m, "the hook ran %s, but holds %s", h(), m)
        require((h[1:]() or []) == m[1:], "a slice of the hook ran wrong callables")
    ctx.state(m)


def hook_self_edit(ctx, n, who, what):
    """A callable of the list edits the list while it is being called."""
    log = []
    h = Hook()
    fs = []

    def make(i):
        def f():
            log.append(i)
            if i == who and log.count(i) == 1:
                if what == "remove":
                    h.remove(f)
                elif what == "append":
                    h.append(lambda: log.append("new"))

        return f

    for i in range(n):
        fs.append(make(i))
    h.extend(fs)
    h()
    ctx.step()
    got = [x for x in log if x != "new"]
    require(got == list(range(n)), "callable %d did %s during the call: %s ran instead of each of %d once", who, what, got, n)
    log.clear()
    h()
    want = [i for i in range(n) if not (what == "remove" and i == who)]
    require([x for x in log if x != "new"] == want, "second call ran %s, expected %s", log, want)


# ---------------------------------------------------------------------------------------------
# life cycle on a minimal algorithm


class Flat(Problem):
    def __init__(self):
        super().__init__("min", solution_length=2, initial_bounds=(0, 1))
        self.n = 0
        self.after_eval_hook.append(lambda batch: {"evals_so_far": self.n})

    def _evaluate_batch(self, batch):
        self.n += 1
        batch.set_evals(batch.values[:, 0])


class Toy(SearchAlgorithm, SinglePopulationAlgorithmMixin):
    def __init__(self, problem, log):
        SearchAlgorithm.__init__(self, problem, counter=self._get_counter, double=lambda: self._value * 2, where=self._where)
        self._log = log
        self._value = 0
        self._pop = problem.generate_batch(2)
        self.computed = 0
        SinglePopulationAlgorithmMixin.__init__(self, exclude=["median_eval"])

    @property
    def population(self):
        return self._pop

    def _get_counter(self):
        self.computed += 1
        return self._value

    def _where(self):
        return torch.tensor([float(self._value), 1.0])

    def _step(self):
        self._log.append(("iteration", self._value + 1))
        self._value += 1
        v = float(self._value)
        self._pop = SolutionBatch(self.problem, 2, empty=True)
        self._pop.set_values(torch.tensor([[v, 1.0], [-v, 0.0]]))
        self.problem.evaluate(self._pop)


def status_expected(t, config):
    s = {
        "counter": t,
        "double": 2 * t,
        "where": [float(t), 1.0],
        "iter": t,
        "evals_so_far": t,
        "best_eval": -float(t),
        "worst_eval": float(t),
        "mean_eval": 0.0,
        "pop_best_eval": -float(t),
    }
    if "extra" in config:
        s["extra"] = t
    if "parity" in config:
        s["odd"] = "yes" if t % 2 else None
    if "override" in config and t % 2:
        s["counter"] = "overridden"
    return s


def check_status(status, t, config, where):
    for k, v in status_expected(t, config).items():
        if k == "odd" and v is None and k not in status:
            continue
        require(k in status, "%s: the status lacks %r", where, k)
        got = status[k]
        if isinstance(got, torch.Tensor):
            got = plain(got).tolist()
        require(got == v, "%s: status[%r] is %s after step %d, expected %s", where, k, got, t, v)
    require("median_eval" not in status, "an excluded status entry is reported")
    best = plain(status["pop_best"].values).tolist()
    require(best == [-float(t), 0.0], "%s: pop_best is %s after step %d", where, best, t)
    best = plain(status["best"].values).tolist()
    require(best == [-float(t), 0.0], "%s: best is %s after step %d", where, best, t)


def lifecycle(ctx, config, ops):
    log = []
    kept = []
    prob = Flat()
    s = Toy(prob, log)
    late = []

    def before(i):
        def f():
            log.append(("before", i, s.step_count))
            if "read" in config and s.step_count > 0:
                check_status(s.status, s.step_count, config, "before-step hook")

        return f

    def after(i):
        def f():
            log.append(("after", i, s.step_count))
            t = s.step_count
            if "read" in config:
                require(s.status["iter"] == t, "after-step hook sees iter=%s at step %d", s.status["iter"], t)
                require(s.status["double"] == 2 * t, "after-step hook sees stale status")
                require(s.status["best_eval"] == -float(t), "after-step hook sees a stale best_eval")
            res = {}
            if "extra" in config:
                res["extra"] = t if i == 1 else -1
            if "parity" in config and t % 2:
                res["odd"] = "yes"
            if "override" in config and t % 2 and i == 1:
                res["counter"] = "overridden"
            return res or None

        return f

    def logger(i):
        def f(status):
            log.append(("log", i, s.step_count))
            require(type(status) is dict, "log hook got a %s", type(status).__name__)
            check_status(status, s.step_count, config, "log hook")
            kept.append((s.step_count, status))

        return f

    def end(i):
        def f(status):
            log.append(("end", i, s.step_count))
            if s.step_count > 0:
                check_status(status, s.step_count, config, "end-of-run hook")
                kept.append((s.step_count, status))

        return f

    model = {"n": 2}
    if "none" not in config:
        for i in range(2):
            s.before_step_hook.append(before(i))
            s.after_step_hook.append(after(i))
            s.log_hook.append(logger(i))
            s.end_of_run_hook.append(end(i))
    if "oneshot" in config:

        def once():
            log.append(("once", s.step_count))
            s.before_step_hook.remove(once)

        s.before_step_hook.insert(0, once)

        def once_after():
            log.append(("once after", s.step_count))
            s.after_step_hook.remove(once_after)

        s.after_step_hook.insert(1, once_after)
    if "grow" in config:

        def grow():
            if not late:
                late.append(1)
                s.log_hook.append(logger("late"))

        s.before_step_hook.append(grow)

    t = 0
    want = []

    def model_step():
        nonlocal t
        hooks = "none" not in config
        if "oneshot" in config and t == 0:
            want.append(("once", 0))
        if hooks:
            want.extend([("before", 0, t), ("before", 1, t)])
        want.append(("iteration", t + 1))
        t += 1
        if hooks:
            want.append(("after", 0, t))
        if "oneshot" in config and t == 1:
            want.append(("once after", 1))
        if hooks:
            want.append(("after", 1, t))
            want.extend([("log", 0, t), ("log", 1, t)])
        if "grow" in config:
            want.append(("log", "late", t))

    first = None
    for op in ops:
        ctx.step()
        mark = datetime.now()
        before_first = s.first_step_datetime
        if op == "step":
            s.step()
            model_step()
            if first is None:
                require(s.first_step_datetime is not None and s.first_step_datetime >= mark, "first_step_datetime not set by a step")
            else:
                require(s.first_step_datetime == before_first, "a later step changed first_step_datetime")
            first = s.first_step_datetime
        elif op.startswith("run"):
            n = int(op[3])
            keep = op.endswith("k")
            if not (n == 0 and t == 0):
                s.run(n, reset_first_step_datetime=not keep)
                for _ in range(n):
                    model_step()
                if "none" not in config:
                    want.extend([("end", 0, t), ("end", 1, t)])
                now = s.first_step_datetime
                if keep and first is not None:
                    require(now == first, "run(reset_first_step_datetime=False) changed first_step_datetime")
                elif n == 0:
                    require(now is None if not keep else now == first, "run(0): first_step_datetime is %s", now)
                else:
                    require(now is not None and now >= mark, "run did not renew first_step_datetime")
                first = now
        elif t > 0:
            st = s.status
            if op == "one":
                require(st["double"] == 2 * t, "stale status")
                require(st["counter"] == status_expected(t, config)["counter"], "stale or wrong status")
            elif op == "all":
                check_status(st, t, config, "status")
                d = dict(st)
                check_status(d, t, config, "dict(status)")
                require(set(st) == set(d) and len(st) == len(d), "status keys")
                kept.append((t, d))
                n0 = s.computed
                st["counter"], st["counter"]
                require(s.computed == n0, "a status entry already read was computed again")
            elif op == "show":
                repr(st), str(st)
        require(log == want, "events:\n%s\nexpected:\n%s", log, want)
        require(s.step_count == t and s.steps_count == t, "step_count is %s after %d steps", s.step_count, t)
    for tt, st in kept:
        check_status(st, tt, config, f"status kept from step {tt}, after {t} steps")
    ctx.state(log)


# ---------------------------------------------------------------------------------------------
# every algorithm


class P(Problem):
    def __init__(self, senses=("min",), n=2, seed=3, bounds=None, **kw):
        self.evaluated = []
        super().__init__(list(senses) if len(senses) > 1 else senses[0], solution_length=n, initial_bounds=(-1.0, 2.0), seed=seed, bounds=bounds, **kw)

    def _evaluate_batch(self, batch):
        x = batch.values
        f = (x - 0.3).pow(2).sum(dim=-1) + x[:, 0] * 0.1
        g = (x + 0.7).abs().sum(dim=-1)
        cols = [f, g][: len(self.senses)]
        if self.eval_data_length:
            batch.set_evals(torch.stack(cols, dim=1), x[:, : self.eval_data_length])
        else:
            batch.set_evals(torch.stack(cols, dim=1))


class Boxes(Problem):
    def __init__(self, seed=3):
        super().__init__("max", dtype=object, seed=seed)

    def _fill(self, values):
        for i in range(len(values)):
            values[i] = [int(self.make_randint((), n=5)) for _ in range(2)]

    def _evaluate(self, solution):
        solution.set_evals(float(sum(solution.values)))


def box_mutation(values):
    return make_tensor([[v + 1 for v in item] for item in values], dtype=object)


def ga_ops(p):
    return [OnePointCrossOver(p, tournament_size=2), GaussianMutation(p, stdev=0.2)]


def mk_mapelites(p):
    grid = MAPElites.make_feature_grid([-1.0], [2.0], num_bins=4, device="cpu", dtype="float32")
    return MAPElites(p, operators=[GaussianMutation(p, stdev=0.5)], feature_grid=grid)


ALGS = {
    "snes": (lambda: P(), lambda p: SNES(p, stdev_init=0.5, popsize=5)),
    "snes-max": (lambda: P(("max",)), lambda p: SNES(p, stdev_init=0.5, popsize=4)),
    "xnes": (lambda: P(), lambda p: XNES(p, stdev_init=0.5, popsize=5)),
    "cem": (lambda: P(), lambda p: CEM(p, stdev_init=0.5, popsize=6, parenthood_ratio=0.5)),
    "pgpe": (
        lambda: P(("max",)),
        lambda p: PGPE(p, popsize=4, center_learning_rate=0.3, stdev_learning_rate=0.1, stdev_init=0.4),
    ),
    "pgpe-adam": (
        lambda: P(),
        lambda p: PGPE(p, popsize=4, center_learning_rate=0.3, stdev_learning_rate=0.1, stdev_init=0.4, optimizer="adam"),
    ),
    "pgpe-distributed": (
        lambda: P(num_actors=2),
        lambda p: PGPE(p, popsize=4, center_learning_rate=0.3, stdev_learning_rate=0.1, stdev_init=0.4, distributed=True),
    ),
    "cmaes": (lambda: P(n=3), lambda p: CMAES(p, stdev_init=0.5, popsize=5)),
    "cmaes-separable": (lambda: P(("max",)), lambda p: CMAES(p, stdev_init=0.5, popsize=5, separable=True)),
    "pycmaes": (lambda: P(), lambda p: PyCMAES(p, stdev_init=0.5, popsize=5)),
    "ga": (lambda: P(), lambda p: GeneticAlgorithm(p, operators=ga_ops(p), popsize=4)),
    "ga-nonelitist": (lambda: P(("max",)), lambda p: GeneticAlgorithm(p, operators=ga_ops(p), popsize=4, elitist=False)),
    "ga-pareto": (lambda: P(("min", "max")), lambda p: GeneticAlgorithm(p, operators=[SimulatedBinaryCrossOver(p, tournament_size=2, eta=8), GaussianMutation(p, stdev=0.3)], popsize=4)),
    "ga-objects": (lambda: Boxes(), lambda p: GeneticAlgorithm(p, operators=[box_mutation], popsize=3)),
    "steady": (
        lambda: P(),
        lambda p: (lambda s: [s.use(op) for op in ga_ops(p)] and s)(SteadyStateGA(p, popsize=4)),
    ),
    "cosyne": (lambda: P(), lambda p: Cosyne(p, popsize=4, tournament_size=2, mutation_stdev=0.3, num_elites=1)),
    "mapelites": (lambda: P(eval_data_length=1), mk_mapelites),
    "restart": (lambda: P(), lambda p: Restart(p, SNES, {"stdev_init": 0.5, "popsize": 4})),
    "ipop": (lambda: P(), lambda p: IPOP(p, SNES, {"stdev_init": 0.5, "popsize": 3}, min_fitness_stdev=1.0)),
    "ipop-cmaes": (lambda: P(), lambda p: IPOP(p, CMAES, {"stdev_init": 0.5, "popsize": 3}, min_fitness_stdev=1.5)),
}


def value_of(v):
    if hasattr(v, "values") and hasattr(v, "evals") and not isinstance(v, torch.Tensor):
        return ("solution", value_of(v.values), plain(v.evals).tolist())
    if isinstance(v, torch.Tensor):
        return plain(v).clone().tolist()
    if isinstance(v, (list, tuple)):
        return [value_of(x) for x in v]
    if hasattr(v, "items"):
        return {k: value_of(v[k]) for k in v}
    if hasattr(v, "tolist") or type(v).__name__ in ("ObjectArray", "ImmutableList"):
        return [value_of(x) for x in v]
    return v


def close(a, b, what):
    if isinstance(a, dict):
        require(isinstance(b, dict) and set(a) == set(b), "%s: entries %s and %s", what, sorted(a), b if not isinstance(b, dict) else sorted(b))
        for k in a:
            close(a[k], b[k], f"{what}[{k!r}]")
    elif isinstance(a, (list, tuple)):
        require(isinstance(b, (list, tuple)) and len(a) == len(b), "%s: %s and %s", what, a, b)
        for x, y in zip(a, b):
            close(x, y, what)
    elif isinstance(a, float) and isinstance(b, (int, float)):
        ok = a == b or abs(a - b) <= 1e-5 * max(1.0, abs(a)) or (a != a and b != b)
        require(ok, "%s: %s and %s", what, a, b)
    else:
        require(a == b, "%s: %s and %s", what, a, b)


def population_of(s):
    if isinstance(s, Restart):
        return None
    return getattr(s, "population", None)


def check_population_status(s, status, prob):
    pop = population_of(s)
    if pop is None or len(pop) == 0:
        return
    filled = getattr(s, "filled", None)
    evals = plain(pop.evals)
    vals = value_of(pop.values)
    single = len(prob.senses) == 1
    for j, sense in enumerate(prob.senses):
        pre = "" if single else f"obj{j}_"
        col = evals[:, j].tolist()
        if any(x != x for x in col):
            return
        best = min(col) if sense == "min" else max(col)
        if pre + "mean_eval" in status:
            close(sum(col) / len(col), status[pre + "mean_eval"], pre + "mean_eval")
        if pre + "median_eval" in status:
            srt = sorted(col)
            lo, hi = srt[(len(srt) - 1) // 2], srt[len(srt) // 2]
            m = status[pre + "median_eval"]
            require(lo - 1e-5 <= m <= hi + 1e-5, "%smedian_eval is %s for %s", pre, m, srt)
        if pre + "pop_best_eval" in status:
            close(best, status[pre + "pop_best_eval"], pre + "pop_best_eval")
        if pre + "pop_best" in status:
            pb = status[pre + "pop_best"]
            close(best, float(pb.evals[j]), pre + "pop_best's fitness")
            v = value_of(pb.values)
            require(any(v == vals[i] and col[i] == best for i in range(len(col))), "%spop_best %s is not in the population", pre, v)
    del filled


def make(name):
    fakeray.reset(None)
    torch.manual_seed(5)
    mk_p, mk_s = ALGS[name]
    prob = mk_p()
    s = mk_s(prob)
    return prob, s


_reference = {}


def reference(name, n):
    """Status after each of n plain steps, read eagerly."""
    if name not in _reference:
        prob, s = make(name)
        out = []
        for _ in range(8):
            s.step()
            st = {k: value_of(s.status[k]) for k in s.status if k != "search_algorithm"}
            out.append((st, None if population_of(s) is None else value_of(population_of(s).values)))
        _reference[name] = out
    return _reference[name][:n]


def algorithm(ctx, name, ops):
    want = reference(name, 8)
    prob, s = make(name)
    events = []
    kept = []
    cls = type(s)
    inner = s._step

    def counted():
        events.append("iteration")
        inner()

    s._step = counted
    prob.before_eval_hook.append(lambda batch: events.append("evaluation"))
    s.before_step_hook.append(lambda: events.append("before"))

    def after():
        events.append("after")
        return {"mine": s.step_count}

    s.after_step_hook.append(after)
    logging = "log" in ops
    if logging:

        def on_log(status):
            events.append("log")
            kept.append((s.step_count, dict(status)))

        s.log_hook.append(on_log)
    t = 0
    foreign = 0
    tainted = False  # a foreign evaluation has changed the best/worst of the problem

    def verify(status, t, where):
        st, _ = want[t - 1]
        require(status["iter"] == t, "%s: iter is %s at step %d", where, status["iter"], t)
        require(status["mine"] == t, "%s: entry of the after-step hook is %s at step %d", where, status["mine"], t)
        for k in st:
            require(k in status, "%s: %r vanished from the status at step %d", where, k, t)
            if tainted and ("best" in k or "worst" in k) and "pop_best" not in k:
                continue
            close(st[k], value_of(status[k]), f"{where}: status[{k!r}] at step {t}")

    for op in ops:
        ctx.step()
        if op == "log":
            continue
        events.clear()
        if op in ("step", "run1", "run2"):
            n = {"step": 1, "run1": 1, "run2": 2}[op]
            s.step() if op == "step" else s.run(n)
            t += n
            seq = []
            for e in events:
                if e == "evaluation":
                    require("iteration" in seq and seq[-1] in ("iteration", "evaluation"), "an evaluation outside of the iteration: %s", events)
                    if seq[-1] == "evaluation":
                        continue
                seq.append(e)
            seq = [e for e in seq if e != "evaluation"]
            one = ["before", "iteration", "after"] + (["log"] if logging else [])
            require(seq == one * n, "%s: events %s", op, events)
            require(s.step_count == t, "step_count %s after %d steps", s.step_count, t)
            check_population_status(s, s.status, prob)
            pop = population_of(s)
            if want[t - 1][1] is not None:
                close(want[t - 1][1], value_of(pop.values), f"population at step {t}")
        elif op == "foreign":
            foreign += 1
            if prob.dtype is object:
                b = prob.generate_batch(1)
                # (the generator of the problem advances, as it would for any user of the problem)
                raise AssertionError
            b = SolutionBatch(prob, 1, empty=True)
            b.set_values(torch.full((1, prob.solution_length), 0.25 if foreign % 2 else 50.0))
            prob.evaluate(b)
            if t > 0:
                verify(s.status, t, "status after a foreign evaluation") if not tainted else None
            tainted = True
        elif t > 0:
            if op == "all":
                d = dict(s.status)
                verify(d, t, "status")
                kept.append((t, d))
            elif op == "one":
                k = "mean_eval" if "mean_eval" in s.status else "iter"
                if k == "iter" and len(prob.senses) > 1:
                    k = "obj1_mean_eval"
                close(want[t - 1][0][k], value_of(s.status[k]), f"status[{k!r}] at step {t}")
        ctx.state(name, t, op)
    for tt, d in kept:
        verify(d, tt, f"status kept from step {tt}, after {t} steps")
    del cls


def foreign_best(ctx, name):
    """What the status says about best and worst covers all evaluations up to that step."""
    prob, s = make(name)
    s.step()
    b = SolutionBatch(prob, 2, empty=True)
    b.set_values(torch.tensor([[0.25] * prob.solution_length, [50.0] * prob.solution_length]))
    prob.evaluate(b)
    hi = float(b.evals[1, 0])
    s.step()
    ctx.step(3)
    key = "worst_eval" if prob.senses[0] == "min" else "best_eval"
    close(hi, s.status[key], f"{key} after a foreign evaluation")




def run(ctx):
    kinds = list(RESULTS)
    for n in range(4):
        for ks in itertools.product(kinds, repeat=n):
            ctx.case("hook results", list(ks), hook_results, ctx, ks)
    edits = ["append", "insert", "insert-1", "del0", "delslice", "set", "setslice", "extend", "remove", "pop", "pop0", "reverse", "clear", "iadd"]
    for n in range(1, 4 if ctx.thorough else 3):
        for ops in itertools.product(edits, repeat=n):
            ctx.case("hook edits", list(ops), hook_edits, ctx, ops)
    for n in range(1, 5):
        for who in range(n):
            for what in ("remove", "append"):
                ctx.case("hook self edits", [n, who, what], hook_self_edit, ctx, n, who, what)
    configs = [
        ["none"],
        [],
        ["read"],
        ["extra"],
        ["parity"],
        ["override", "read"],
        ["extra", "parity", "read"],
        ["oneshot"],
        ["grow", "extra"],
    ]
    ops = ["step", "run0", "run1", "run2", "run1k", "run0k", "one", "all", "show"]
    depth = 5 if ctx.thorough else 4
    for config in configs:
        for seq in itertools.product(ops, repeat=depth):
            ctx.case("life cycle", {"hooks": config, "ops": list(seq)}, lifecycle, ctx, config, seq)
    base = ["step", "run2", "all", "one", "foreign", "log"]
    for name in ALGS:
        mine = [o for o in base if not (o == "foreign" and name in ("ga-objects", "pgpe-distributed"))]
        for seq in itertools.product(mine, repeat=4 if ctx.thorough else 3):
            if "log" in seq[1:]:
                continue
            if ctx.thorough and seq.count("run2") > 3:
                continue
            ctx.case("algorithm", {"alg": name, "ops": list(seq)}, algorithm, ctx, name, seq)
        if name not in ("ga-objects", "pgpe-distributed", "ga-pareto"):
            ctx.case("foreign best", {"alg": name}, foreign_best, ctx, name)
