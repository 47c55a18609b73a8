"""P10: genetic algorithms keep their population size, elites and evaluations."""

import itertools

import torch
from evotorch import Problem, SolutionBatch
from evotorch.algorithms import Cosyne, GeneticAlgorithm, SteadyStateGA
from evotorch.operators import CopyingOperator, CrossOver, CutAndSplice, GaussianMutation, OnePointCrossOver, Operator
from evotorch.operators import SimulatedBinaryCrossOver, TwoPointCrossOver

from mc import rng
from mc.ctx import require
from mc.util import plain, raises, require_same

META = {
    "bounds": "populations of 1-4 (Cosyne 4-8), 1-5 children, 3 (thorough 4) generations; every option of elitism, re-evaluation and operator kind; children and initial population chosen by the explorer among 6 coded solutions with tied fitnesses, up to 3 (thorough 4) non-default choices; stock operators under a scripted random source with up to 1 (thorough 2) non-default answers",
    "assumptions": ["ties may be resolved either way", "with two objectives only the front of the survivors, not the crowding, is judged here (crowding: P06)"],
}

# fitness tables: code of the solution -> objective values
TABLE = {1: [[3.0], [1.0], [4.0], [1.0], [5.0], [-2.0]], 2: [[3.0, 1.0], [1.0, 1.0], [4.0, 0.0], [1.0, 5.0], [2.0, 2.0], [0.0, 0.0]]}
K = 6


class Coded(Problem):
    """Solutions are rows [code, code + 10]; each evaluation is stamped with its number."""

    def __init__(self, senses, choose=None):
        super().__init__(list(senses), solution_length=2, initial_bounds=(0, 1), dtype=torch.int64, eval_dtype=torch.float64, eval_data_length=1)
        self.choose = choose
        self.calls = 0
        self.count = 0
        self.log = []

    def _fill(self, values):
        for i in range(len(values)):
            c = self.choose(i)
            values[i, 0], values[i, 1] = c, c + 10

    def _evaluate_batch(self, batch):
        self.calls += 1
        self.count += len(batch)
        rows = codes(batch)
        self.log.extend(rows)
        e = torch.tensor([self.fitness(c) for c in rows], dtype=torch.float64)
        batch.set_evals(e, torch.full((len(rows), 1), float(self.calls), dtype=torch.float64))

    def fitness(self, c):
        return TABLE[len(self.senses)][c]


def codes(batch):
    rows = plain(batch.values).tolist()
    for r in rows:
        require(r[1] == r[0] + 10 and 0 <= r[0] < K, "a row %s that nobody made", r)
    return [r[0] for r in rows]


def values_of(cs):
    return torch.tensor([[c, c + 10] for c in cs], dtype=torch.int64).reshape(len(cs), 2)


class Script:
    """Children chosen by the explorer; notes what the operator got and gave."""

    def __init__(self, chooser, num):
        self.chooser = chooser
        self.num = num
        self.given = []
        self.n = 0

    def make(self):
        out = []
        for _ in range(self.num):
            self.n += 1
            out.append((self.n * 5 // 2 + 1 + self.chooser.choose(K, "child")) % K)
        self.given.append(out)
        return values_of(out)

    # kinds of operators
    def function(self, values):
        return self.make()

    def copying(self, problem, need_evals):
        script = self

        class Op(CopyingOperator):
            def _do(self, batch):
                if need_evals:
                    require(not bool(torch.isnan(plain(batch.evals)[:, 0]).any()), "the operator gets parents without evaluations")
                v = script.make()
                r = SolutionBatch(problem, popsize=len(v), empty=True)
                r.set_values(v)
                return r

        return Op(problem)

    def inplace(self, problem):
        script = self

        class Op(Operator):
            def _do(self, batch):
                batch.set_values(script.make())

        return Op(problem)

    def crossing(self, problem):
        script = self

        class Op(CrossOver):
            def _do_cross_over(self, p1, p2):
                return self._make_children_batch(script.make())

        return Op(problem, tournament_size=1, num_children=self.num)


def domination(pts, senses):
    sg = [1 if s == "max" else -1 for s in senses]

    def dom(a, b):
        d = [s * (x - y) for s, x, y in zip(sg, a, b)]
        return all(v >= 0 for v in d) and any(v > 0 for v in d)

    left = set(range(len(pts)))
    rank, k = {}, 0
    while left:
        front = [i for i in left if not any(dom(pts[j], pts[i]) for j in left)]
        for i in front:
            rank[i] = k
        left -= set(front)
        k += 1
    return rank


def best_of(prob, pool, chosen, what):
    """chosen (codes) must be a sub-multiset of pool and consist of its best members."""
    rest = list(pool)
    for c in chosen:
        require(c in rest, "%s: %s is not made of %s", what, chosen, pool)
        rest.remove(c)
    if len(prob.senses) == 1:
        s = 1 if prob.senses[0] == "max" else -1
        if rest and chosen:
            worst = min(s * prob.fitness(c)[0] for c in chosen)
            lost = max(s * prob.fitness(c)[0] for c in rest)
            require(worst >= lost, "%s: kept %s of %s (fitnesses %s)", what, chosen, pool, [prob.fitness(c)[0] for c in pool])
    else:
        pts = [prob.fitness(c) for c in pool]
        rank = domination(pts, prob.senses)
        level = {c: rank[i] for i, c in enumerate(pool)}
        if rest and chosen:
            require(max(level[c] for c in chosen) <= min(level[c] for c in rest), "%s: kept %s of %s", what, chosen, pool)


def consistent(prob, pop, what):
    cs = codes(pop)
    require(not bool(torch.isnan(plain(pop.evals)).any()), "%s: the population is not evaluated: %s", what, plain(pop.evals).tolist())
    e = plain(pop.evals)
    for i, c in enumerate(cs):
        require(e[i, :-1].tolist() == prob.fitness(c), "%s: solution %d has fitness %s, not %s", what, c, e[i, :-1].tolist(), prob.fitness(c))
    return cs


def genetic(ctx, conf, gens):
    senses, popsize, num = conf["senses"], conf["popsize"], conf["num"]

    def run(chooser):
        prob = Coded(senses, lambda i: (i * 2 + 1 + chooser.choose(K, "initial")) % K)
        script = Script(chooser, num)
        first = conf["first"]
        need = conf["re_evaluate"] is False or first is True
        op = {
            "function": lambda: script.function,
            "copying": lambda: script.copying(prob, need),
            "inplace": lambda: script.inplace(prob),
            "crossing": lambda: script.crossing(prob),
        }[conf["kind"]]()
        cls = {"ga": GeneticAlgorithm, "ss": SteadyStateGA, "use": SteadyStateGA}[conf["cls"]]
        kw = dict(popsize=popsize, elitist=conf["elitist"], re_evaluate=conf["re_evaluate"])
        if first is not None:
            kw["re_evaluate_parents_first"] = first
        if conf["cls"] == "use":
            ga = cls(prob, **kw)
            ga.use(op)
        else:
            ga = cls(prob, operators=[op], **kw)
        require(len(ga.population) == popsize, "initial population of %d, not %d", len(ga.population), popsize)
        prev = codes(ga.population)
        best = None
        trail = [prev]
        for t in range(gens):
            calls, count = prob.calls, prob.count
            ga.step()
            what = f"generation {t + 1}"
            pop = ga.population
            require(len(pop) == popsize, "%s: %d solutions, not %d", what, len(pop), popsize)
            cs = consistent(prob, pop, what)
            kids = script.given[-1]
            require(len(script.given) == t + 1, "%s: the operators ran %d times", what, len(script.given))
            if conf["elitist"]:
                best_of(prob, prev + kids, cs, what)
            elif len(kids) >= popsize:
                best_of(prob, kids, cs, what)
            else:
                rest = list(cs)
                for c in kids:
                    require(c in rest, "%s: the child %d is missing in %s", what, c, cs)
                    rest.remove(c)
                best_of(prob, prev, rest, what)
            made = prob.count - count
            if conf["re_evaluate"]:
                require(made == popsize + num, "%s: %d evaluations, not %d", what, made, popsize + num)
                require(bool((plain(pop.evals)[:, -1] > calls).all()), "%s: evaluations of earlier generations in the population", what)
            else:
                expect = num + (popsize if t == 0 else 0)
                require(made == expect, "%s: %d evaluations, not %d", what, made, expect)
            if conf["elitist"]:
                for k, s in enumerate(senses):
                    if len(senses) == 2 and popsize < 4:
                        break
                    sg = 1 if s == "max" else -1
                    now = max(sg * prob.fitness(c)[k] for c in cs)
                    old = max(sg * prob.fitness(c)[k] for c in prev)
                    require(now >= old, "%s: best of objective %d fell from %s to %s", what, k, old, now)
            st = ga.status
            if len(senses) == 1:
                pb = st["pop_best"]
                sg = 1 if senses[0] == "max" else -1
                require(sg * float(pb.evals[0]) == max(sg * prob.fitness(c)[0] for c in cs), "%s: pop_best %s of %s", what, pb, cs)
            ctx.step()
            ctx.state(conf["kind"], conf["elitist"], senses, sorted(cs))
            prev = cs
            trail.append(sorted(cs))
        return trail

    return run


def order_of_operators():
    """Operators run one after another, each on what the previous one made."""
    for cls in (GeneticAlgorithm, SteadyStateGA):
        prob = Coded(["max"], lambda i: 0)
        seen = []

        def first(v):
            seen.append(("first", v[:, 0].tolist()))
            v = v.clone()
            v += 1
            return v

        def second(v):
            seen.append(("second", v[:, 0].tolist()))
            return torch.cat([v, v + 1])

        ga = cls(prob, operators=[first, second], popsize=2)
        ga.step()
        require(seen == [("first", [0, 0]), ("second", [1, 1])], "operators ran as %s", seen)
        require(sorted(codes(ga.population)) == [2, 2], "population %s", codes(ga.population))
    # use(): cross-over first, then mutation, whatever the order of the calls
    for flip in (False, True):
        prob = Coded(["max"], lambda i: i)
        seen = []

        class X(CrossOver):
            def _do_cross_over(self, a, b):
                seen.append("x")
                return self._make_children_batch(values_of([1, 4]))

        def mut(v):
            seen.append("m")
            require(sorted(v[:, 0].tolist()) == [1, 4], "the mutation got %s", v.tolist())
            return v

        ga = SteadyStateGA(prob, popsize=2)
        require(raises(lambda: ga.step()) is not None, "a step without operators")
        ga = SteadyStateGA(prob, popsize=2)
        ops = [X(prob, tournament_size=1), mut]
        for op in reversed(ops) if flip else ops:
            ga.use(op)
        require(raises(lambda: ga.use(mut)) is not None, "a second mutation accepted")
        require(raises(lambda: ga.use(ops[0])) is not None, "a second cross-over accepted")
        ga.run(2)
        require(seen == ["x", "m"] * 2, "operators ran as %s", seen)
        require(raises(lambda: ga.use(mut)) is not None, "use() accepted after the start")
    prob = Coded(["max"], lambda i: i)
    require(raises(lambda: GeneticAlgorithm(prob, operators=[], popsize=2)) is not None, "no operators accepted")
    require(raises(lambda: GeneticAlgorithm(prob, operators=[mut], popsize=2, re_evaluate=False, re_evaluate_parents_first=True)) is not None, "contradictory re-evaluation accepted")
    ga = GeneticAlgorithm(prob, operators=[mut], popsize=2)
    require(ga.re_evaluate is True and ga.re_evaluate_parents_first is False, "re-evaluation settings")
    ga = GeneticAlgorithm(prob, operators=[X(prob, tournament_size=1)], popsize=2)
    require(ga.re_evaluate_parents_first is True, "cross-over without evaluated parents")


# ---------------------------------------------------------------- real valued, stock operators
class Real(Problem):
    def __init__(self, senses, lb=-2.0, ub=3.0, dtype=torch.float64):
        super().__init__(list(senses), solution_length=2, bounds=(lb, ub), dtype=dtype, eval_dtype=torch.float64)
        self.rows = []

    def _evaluate_batch(self, batch):
        x = plain(batch.values)
        self.rows.extend(x.tolist())
        batch.set_evals(self.f(x))

    def f(self, x):
        x = x.to(torch.float64)
        f = x[:, 0] * 1.5 - x[:, 1] ** 2 + 0.3 * x[:, 0] * x[:, 1]
        return torch.stack([f, x[:, 1] - f * 0.5][: len(self.senses)], dim=1)


def observe(prob, alg, popsize, lb, ub, what):
    pop = alg.population
    require(len(pop) == popsize, "%s: %d solutions, not %d", what, len(pop), popsize)
    x, e = plain(pop.values), plain(pop.evals)
    require(not bool(torch.isnan(e).any()), "%s: not evaluated: %s", what, e.tolist())
    require_same(e, prob.f(x), what + ": fitnesses", tol=1e-6)
    require(bool((x >= lb).all() and (x <= ub).all()), "%s: values %s out of bounds", what, x.tolist())
    return x, e


STOCK = {
    "one+gauss": lambda p: [OnePointCrossOver(p, tournament_size=2), GaussianMutation(p, stdev=0.7)],
    "two": lambda p: [TwoPointCrossOver(p, tournament_size=2)],
    "sbx+gauss": lambda p: [SimulatedBinaryCrossOver(p, tournament_size=2, eta=2.0), GaussianMutation(p, stdev=0.7, mutation_probability=0.5)],
    "gauss": lambda p: [GaussianMutation(p, stdev=0.7)],
    "few": lambda p: [OnePointCrossOver(p, tournament_size=2, num_children=2)],
}


def stock(ctx, name, senses, popsize, elitist, re_evaluate, gens):
    def run(chooser):
        prob = Real(senses)
        o = rng.Oracle(chooser, span=12)
        with rng.active(o):
            ga = GeneticAlgorithm(prob, operators=STOCK[name](prob), popsize=popsize, elitist=elitist, re_evaluate=re_evaluate)
            prev = None
            for t in range(gens):
                mark = len(prob.rows)
                before = plain(ga.population.values).tolist()
                ga.step()
                x, e = observe(prob, ga, popsize, -2.0, 3.0, f"generation {t + 1}")
                pool = before + prob.rows[mark:]
                for r in x.tolist():
                    require(r in pool, "generation %d: %s is neither parent nor child", t + 1, r)
                if elitist and len(senses) == 1:
                    sg = 1 if senses[0] == "max" else -1
                    now = float((sg * e[:, 0]).max())
                    require(prev is None or now >= prev, "generation %d: the best fell from %s to %s", t + 1, prev, now)
                    prev = now
                ctx.step()
                ctx.state(name, x)
        return x

    return run


def cosyne(ctx, kw, sense, popsize, gens):
    ne = kw.get("num_elites")
    if kw.get("elitism_ratio") is not None:
        ne = int(popsize * kw["elitism_ratio"])

    def run(chooser):
        prob = Real([sense])
        sg = 1 if sense == "max" else -1
        o = rng.Oracle(chooser, span=12)
        with rng.active(o):
            alg = Cosyne(prob, popsize=popsize, tournament_size=2, **kw)
            prev = None
            for t in range(gens):
                before = plain(alg.population.values)
                mark = len(prob.rows)
                alg.step()
                what = f"generation {t + 1}"
                x, e = observe(prob, alg, popsize, -2.0, 3.0, what)
                pool = prob.rows[mark:] + before.tolist()
                for r in x.tolist():
                    require(r in pool, "%s: %s was never evaluated", what, r)
                if kw.get("mutation_stdev") is None and kw.get("eta") is None:
                    for j in range(2):
                        require(set(x[:, j].tolist()) <= set(before[:, j].tolist()), "%s: new genes in column %d", what, j)
                old = sorted((sg * prob.f(before)[:, 0]).tolist(), reverse=True)
                now = sorted((sg * e[:, 0]).tolist(), reverse=True)
                for i in range(ne or 0):
                    require(now[i] >= old[i] - 1e-9, "%s: elite %d fell from %s to %s", what, i, old, now)
                ctx.step()
                ctx.state(kw, x)
        return x

    return run


class Lists(Problem):
    def __init__(self):
        super().__init__("max", dtype=object, eval_dtype=torch.float64)
        self.n = 0

    def _fill(self, values):
        for i in range(len(values)):
            values[i] = [i * 10 + j for j in range(1 + i % 3)]

    def _evaluate(self, sln):
        sln.set_evals(float(sum(sln.values)) + 0.5 * len(sln.values))


def objects(ctx, elitist, re_evaluate):
    def run(chooser):
        prob = Lists()
        o = rng.Oracle(chooser, span=12)
        with rng.active(o):
            ga = GeneticAlgorithm(prob, operators=[CutAndSplice(prob, tournament_size=2)], popsize=4, elitist=elitist, re_evaluate=re_evaluate)
            prev = None
            for t in range(2):
                ga.step()
                pop = ga.population
                require(len(pop) == 4, "%d solutions", len(pop))
                for i in range(4):
                    v = list(pop[i].values)
                    f = float(sum(v)) + 0.5 * len(v)
                    require(float(pop[i].evals[0]) == f, "%s has fitness %s", v, pop[i].evals)
                    require({g // 10 for g in v} <= {0, 1, 2, 3}, "gene in %s", v)
                now = max(float(pop[i].evals[0]) for i in range(4))
                require(not elitist or prev is None or now >= prev, "the best fell from %s to %s", prev, now)
                prev = now
                ctx.step()
        return [list(pop[i].values) for i in range(4)]

    return run


def run(ctx):
    gens = 4 if ctx.thorough else 3
    bound = 3 if ctx.thorough else 2
    for cls in ("ga", "ss", "use"):
        for kind in ("function", "copying", "inplace", "crossing"):
            for popsize, num in itertools.product((1, 2, 3, 4), (1, 2, 3, 4, 5)):
                if kind == "inplace" and num != popsize:
                    continue
                if kind == "crossing" and num % 2:
                    continue
                for elitist, re_evaluate, first in itertools.product((True, False), (True, False), (None, True, False)):
                    if not re_evaluate and first is not None:
                        continue
                    if kind == "crossing" and first is False:
                        continue
                    for senses in (("max",), ("min",), ("max", "min")):
                        small = cls == "ga" and kind == "function"
                        if not small and (popsize not in (2, 4) or (cls != "ga" and popsize == 4) or senses == ("min",)):
                            continue
                        if not ctx.thorough and num in (3, 5) and popsize in (1, 4):
                            continue
                        conf = dict(cls=cls, kind=kind, popsize=popsize, num=num, elitist=elitist, re_evaluate=re_evaluate, first=first, senses=senses)
                        b = bound if popsize == 2 and num in ((1, 2, 3) if ctx.thorough else (1, 3)) and small and senses != ("min",) else bound - 1
                        ctx.explore("generations", conf, genetic(ctx, conf, gens if b == bound else gens - 1), bound=b)
    ctx.case("operators", {}, order_of_operators)
    for name in STOCK:
        for senses in (("max",), ("min",), ("min", "max")):
            for popsize, elitist, re_evaluate in itertools.product((3, 4) if ctx.thorough else (3,), (True, False), (True, False)):
                desc = {"ops": name, "senses": senses, "popsize": popsize, "elitist": elitist, "re_evaluate": re_evaluate}
                ctx.explore("stock operators", desc, stock(ctx, name, senses, popsize, elitist, re_evaluate, 2), bound=2 if ctx.thorough else 1)
    for sense in ("max", "min"):
        for popsize in (4, 5, 8):
            for kw in (
                {"mutation_stdev": None},
                {"mutation_stdev": None, "num_elites": 1},
                {"mutation_stdev": 0.5, "num_elites": 1},
                {"mutation_stdev": 0.5, "num_elites": 3, "permute_all": True},
                {"mutation_stdev": 0.5, "mutation_probability": 0.5, "elitism_ratio": 0.5},
                {"mutation_stdev": 0.5, "elitism_ratio": 0.1, "eta": 2.0, "permute_all": True},
                {"mutation_stdev": None, "num_elites": popsize, "permute_all": True, "num_children": 4},
            ):
                b = 1 if popsize == 4 or ctx.thorough else 0
                ctx.explore("cosyne", {"sense": sense, "popsize": popsize, "kw": kw}, cosyne(ctx, kw, sense, popsize, 3), bound=b)
    for elitist, re_evaluate in itertools.product((True, False), repeat=2):
        ctx.explore("objects", {"elitist": elitist, "re_evaluate": re_evaluate}, objects(ctx, elitist, re_evaluate), bound=1)
