"""Stateless depth-first exploration of a function with choice points."""


class Divergence(Exception):
    """The code took a different course while a recorded prefix was replayed."""


class CapReached(Exception):
    pass


class Chooser:
    """Answers choice points from a prefix, then with 0 (the default answer)."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)  # list of (n, label, choice), or of plain choices when replaying
        self.trace = []  # list of (n, label, choice)

    def choose(self, n, label=""):
        n = int(n)
        if n < 1:
            raise Divergence(f"choice point {label!r} without any alternative")
        i = len(self.trace)
        if i < len(self.prefix):
            item = self.prefix[i]
            if isinstance(item, (tuple, list)):
                pn, plabel, c = item
                if pn != n or plabel != label:
                    raise Divergence(f"choice {i}: expected {plabel!r}/{pn}, met {label!r}/{n}")
            else:
                c = int(item)
                if c >= n:
                    raise Divergence(f"choice {i}: recorded {c}, but only {n} alternatives at {label!r}")
        else:
            c = 0
        self.trace.append((n, label, c))
        return c

    def pick(self, seq, label=""):
        seq = list(seq)
        return seq[self.choose(len(seq), label)]


def dfs(run, bound=None, max_runs=None):
    """Enumerate all runs with at most `bound` non-default answers.

    `run(chooser)` executes one run from scratch. Yields (chooser, result).
    Raises CapReached when `max_runs` is hit before the space is exhausted.
    """
    stack = [[]]
    done = 0
    while stack:
        prefix = stack.pop()
        if max_runs is not None and done >= max_runs:
            raise CapReached()
        chooser = Chooser(prefix)
        result = run(chooser)
        done += 1
        yield chooser, result
        if len(chooser.trace) < len(prefix):
            raise Divergence("the run ended before its recorded prefix did")
        spent = sum(1 for (_, _, c) in prefix if c != 0)
        if bound is not None and spent >= bound:
            continue
        trace = chooser.trace
        for i in range(len(trace) - 1, len(prefix) - 1, -1):
            n, label, c = trace[i]
            for alt in range(n - 1, 0, -1):
                stack.append(trace[:i] + [(n, label, alt)])
