"""Bookkeeping of one check run: cases, counters, violations, evidence."""

import hashlib
import json
import os
import re
import signal
import sys
import time
import traceback
import warnings

from .explore import CapReached, Chooser, Divergence, dfs

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")

CASE_TIMEOUT_S = 240


class Violation(AssertionError):
    pass


class HarnessError(Exception):
    """The machinery itself is broken: neither a pass nor a violation."""


class CaseTimeout(BaseException):
    pass


class StopCheck(BaseException):
    pass


def canon(x):
    """JSON-able canonical form of observations (tensors, arrays, containers)."""
    import numpy as np
    import torch

    if x is None or isinstance(x, (bool, int, str)):
        return x
    if isinstance(x, float):
        return "nan" if x != x else float(f"{x:.6g}")
    if isinstance(x, torch.Tensor):
        x = x.as_subclass(torch.Tensor).detach().cpu()
        return [str(x.dtype)[6:], canon(x.tolist())]
    if isinstance(x, np.ndarray):
        return ["np" + str(x.dtype), canon(x.tolist())]
    if isinstance(x, np.generic):
        return canon(x.item())
    if isinstance(x, dict):
        return {str(k): canon(v) for k, v in x.items()}
    if isinstance(x, (set, frozenset)):
        return sorted((canon(v) for v in x), key=repr)
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    return str(x)


def digest(x):
    return hashlib.blake2b(json.dumps(canon(x), sort_keys=True, default=str).encode(), digest_size=8).hexdigest()


def require(cond, msg, *args):
    if not cond:
        if not args:
            raise Violation(msg)
        try:
            raise Violation(msg % args if re.search(r"%[a-z.0-9]", msg) else msg.format(*args))
        except (TypeError, ValueError, KeyError, IndexError):
            raise Violation(f"{msg} {args}")


class Ctx:
    def __init__(self, prop, tier, seed, shard=0, nshards=1, replay=None, keep_going=False):
        self.prop = prop
        self.tier = tier
        self.thorough = tier == "thorough"
        self.seed = seed
        self.shard = shard
        self.nshards = nshards
        self.replay = replay
        self.keep_going = keep_going
        self.index = 0
        self.states = set()
        self.outcomes = {}
        self.transitions = 0
        self.traces = 0
        self.rejected = 0
        self.sections = {}
        self.samples = {}
        self.violations = []
        self.known_hits = []
        self.exhaustive = True
        self.caps = []
        self.harness_errors = []
        self.known = []
        self.replayed = 0
        if os.path.exists(KNOWN):
            with open(KNOWN) as f:
                self.known = [k for k in json.load(f)["findings"] if k["property"] == prop and k["status"] == "known"]
        self._section = None

    # ---- counters -------------------------------------------------------
    def state(self, *x):
        """Record an observed (canonicalised) state."""
        self.states.add(digest([self._section, *x]))

    def step(self, n=1):
        """Record n operations performed on the implementation."""
        self.transitions += n

    def outcome(self, x):
        """Record a distinct outcome of the current section."""
        self.outcomes.setdefault(self._section, set()).add(digest(x))

    # ---- cases ----------------------------------------------------------
    def _mine(self, section, desc):
        self.index += 1
        if self.replay is not None:
            hit = self.replay["section"] == section and self.replay["desc"] == json.loads(json.dumps(desc))
            self.replayed += bool(hit)
            return hit
        return (self.index - 1) % self.nshards == self.shard

    def _guarded(self, fn, *args):
        """Run fn, turning every failure of the code under test into a message."""

        def on_alarm(*_):
            raise CaseTimeout()

        old = signal.signal(signal.SIGALRM, on_alarm)
        signal.alarm(CASE_TIMEOUT_S)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return fn(*args), None
        except CaseTimeout:
            return None, f"did not finish within {CASE_TIMEOUT_S} s"
        except Violation as e:
            return None, str(e) + "\n" + _short_tb()
        except (HarnessError, Divergence):
            raise
        except Exception as e:
            return None, f"unexpected {type(e).__name__}: {e}\n" + _short_tb()
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)

    def _enter(self, section):
        self._section = section
        return self.sections.setdefault(section, {"cases": 0, "runs": 0, "violations": 0})

    def case(self, section, desc, fn, *args):
        """One deterministic case. Any exception or failed requirement is a violation."""
        if not self._mine(section, desc):
            return
        sec = self._enter(section)
        sec["cases"] += 1
        sec["runs"] += 1
        self.traces += 1
        self._sample(section, desc)
        _, msg = self._guarded(fn, *args)
        if msg is not None:
            self._violation(section, desc, None, msg)

    def explore(self, section, desc, fn, bound=None, max_runs=None):
        """All runs of fn(chooser) with at most `bound` non-default answers (None: all)."""
        if not self._mine(section, desc):
            return
        sec = self._enter(section)
        sec["cases"] += 1
        if self.replay is not None:
            chooser = Chooser(self.replay.get("choices") or [])
            _, msg = self._guarded(fn, chooser)
            self.traces += 1
            if msg is not None:
                self._violation(section, desc, chooser, msg)
            return

        def run(chooser):
            res, msg = self._guarded(fn, chooser)
            if msg is not None:
                return ("bad", msg)
            return ("ok", digest(res))

        first = True
        n0 = self.traces
        try:
            for chooser, (kind, res) in dfs(run, bound, max_runs):
                self.traces += 1
                sec["runs"] += 1
                if first:
                    first = False
                    saved = self.transitions
                    again = Chooser([c for (_, _, c) in chooser.trace])
                    kind2, res2 = run(again)
                    self.transitions = saved
                    if again.trace != chooser.trace or (kind, kind2) == ("ok", "ok") and res != res2:
                        raise HarnessError(f"{section} {desc}: replaying one run gave a different run")
                    self._sample(section, {"case": desc, "choices": [c for (_, _, c) in chooser.trace]})
                if kind == "bad":
                    self._violation(section, desc, chooser, res)
                    break
                self.outcome(res)
        except CapReached:
            self.exhaustive = False
            self.caps.append({"section": section, "case": desc, "runs": self.traces - n0})
        if bound is not None:
            sec["deviation_bound"] = max(bound, sec.get("deviation_bound", 0))

    def _sample(self, section, desc):
        lst = self.samples.setdefault(section, [])
        if len(lst) < 2:
            lst.append(desc)

    # ---- violations -----------------------------------------------------
    def _violation(self, section, desc, chooser, msg):
        desc = json.loads(json.dumps(desc))
        choices = None if chooser is None else [c for (_, _, c) in chooser.trace]
        for k in self.known:
            if k["section"] == section and desc in k["descs"]:
                self.known_hits.append(k["what"])
                return
        self.sections[section]["violations"] += 1
        art = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "section": section,
            "desc": desc,
            "choices": choices,
            "message": msg,
        }
        name = f"{self.prop}-{digest([section, desc, choices])}.json"
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        path = os.path.join(EVID, "replay", name)
        with open(path, "w") as f:
            json.dump(art, f, indent=1)
        self.violations.append({"path": path, "section": section, "desc": desc, "choices": choices, "message": msg})
        if not self.keep_going:
            raise StopCheck()
        if self.sections[section]["violations"] > 200:
            raise StopCheck()

    # ---- merging across processes ----------------------------------------
    def export(self):
        return {
            "states": self.states,
            "outcomes": self.outcomes,
            "transitions": self.transitions,
            "traces": self.traces,
            "sections": self.sections,
            "samples": self.samples,
            "violations": self.violations,
            "known_hits": self.known_hits,
            "exhaustive": self.exhaustive,
            "caps": self.caps,
            "index": self.index,
            "replayed": self.replayed,
        }

    def merge(self, d):
        self.states |= d["states"]
        for k, v in d["outcomes"].items():
            self.outcomes.setdefault(k, set()).update(v)
        self.transitions += d["transitions"]
        self.traces += d["traces"]
        for k, v in d["sections"].items():
            sec = self.sections.setdefault(k, {"cases": 0, "runs": 0, "violations": 0})
            for kk in ("cases", "runs", "violations"):
                sec[kk] += v[kk]
            if "deviation_bound" in v:
                sec["deviation_bound"] = max(v["deviation_bound"], sec.get("deviation_bound", 0))
        for k, v in d["samples"].items():
            lst = self.samples.setdefault(k, [])
            lst.extend(v[: max(0, 2 - len(lst))])
        self.violations += d["violations"]
        self.known_hits += d["known_hits"]
        self.exhaustive = self.exhaustive and d["exhaustive"]
        self.caps += d["caps"]
        self.index = max(self.index, d["index"])
        self.replayed += d["replayed"]

    def write_evidence(self, meta, wall):
        for k, v in self.outcomes.items():
            self.sections[k]["distinct_outcomes"] = len(v)
        cov = {
            "states": len(self.states),
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "exhaustive": bool(self.exhaustive and not self.violations),
            "cases": self.index,
            "sections": self.sections,
            "caps": self.caps,
            "samples": [{"section": k, "case": s} for k, v in sorted(self.samples.items()) for s in v],
            "bounds": meta.get("bounds", ""),
        }
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": meta.get("level", "model_checking"),
            "coverage": cov,
            "assumptions": meta.get("assumptions", []),
            "violations": len(self.violations),
            "wall_s": round(wall, 2),
        }
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, f".{self.prop}.{os.getpid()}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        os.replace(tmp, os.path.join(EVID, f"{self.prop}.json"))


def _short_tb():
    lines = traceback.format_exc().strip().splitlines()
    return "\n".join(lines[-14:])
