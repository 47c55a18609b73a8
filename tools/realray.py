"""Compare the Ray stand-in (mc/fakeray.py) with the genuine Ray.

usage: /opt/venv/bin/python tools/realray.py [depth]

The same histories run once on each; their observations have to be equal. Not a check:
it validates the stand-in on which the checks rely. Evaluations with more pieces than
workers depend on timing under the genuine Ray, so their observations leave out which
worker did what.
"""

import itertools
import json
import logging
import os
import pickle
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPS = ("call", "env", "set", "evaluate", "pieces", "gradients", "random", "kill", "pickle", "clone", "fail", "share")


def observe(ops):
    import ray
    import torch
    from checks.p38 import Rem, dist

    logging.disable(logging.CRITICAL)
    torch.manual_seed(5)
    p = Rem(2, False)
    out = []
    for k, op in enumerate(ops):
        if op == "call":
            out.append(p.all_remote_problems().act(k, b=2))
        elif op == "env":
            out.append(p.all_remote_envs().act(k))
        elif op == "set":
            p.all_remote_problems()
            ray.get(p.actors[k % 2].set.remote("level", 10 * k))
            out.append([ray.get(a.get.remote("level")) for a in p.actors])
        elif op in ("evaluate", "pieces"):
            p._num_subbatches = 4 if op == "pieces" else None
            b = p.generate_batch(4)
            p.evaluate(b)
            d = (b.evals[:, 0] - b.values.sum(dim=1)).round().tolist()
            out.append([b.values.tolist(), d if op == "evaluate" else None])
        elif op == "gradients":
            p._num_subbatches = None
            r = p.sample_and_compute_gradients(dist(), 4, ranking_method="centered")
            out.append(sorted([x["num_solutions"], [round(v, 5) for v in x["gradients"]["mu"].tolist()]] for x in r))
        elif op == "random":
            out.append([[round(v, 6) for v in t.tolist()] for t in p.all_remote_problems().make_uniform(2)])
        elif op == "kill":
            p.kill_actors()
            out.append(p.actors is None)
        elif op == "pickle":
            p = pickle.loads(pickle.dumps(p))
            out.append(p.actors is None)
        elif op == "clone":
            p = p.clone()
            out.append(p.actors is None)
        elif op == "fail":
            try:
                out.append(p.all_remote_problems().refuse(1))
            except Exception as e:
                out.append(isinstance(e, KeyError) and "refuses" in str(e))
        elif op == "share":
            # arguments and results are copies; arrays arrive read-only
            import numpy as np

            arr = np.zeros(3)
            p.all_remote_problems()
            ray.get(p.actors[0].set.remote("level", 0))
            ray.get(p.actors[0].set.remote("stuff", arr))
            arr[:] = 7
            back = ray.get(p.actors[0].get.remote("stuff"))
            out.append([back.tolist(), back.flags.writeable])
    p.kill_actors()
    return json.loads(json.dumps(out))


def child(mode, depth):
    sys.path[:0] = [HERE, os.path.join(os.environ.get("MC_REPO", "/repo"), "src")]
    logging.disable(logging.CRITICAL)
    if mode == "fake":
        from mc import fakeray

        fakeray.install()
    else:
        import ray

        paths = os.pathsep.join(sys.path[:2])
        ray.init(num_cpus=16, include_dashboard=False, log_to_driver=False, runtime_env={"env_vars": {"PYTHONPATH": paths}})
    res = []
    for ops in itertools.product(OPS, repeat=depth):
        if mode == "fake":
            fakeray.reset()
        res.append((ops, observe(ops)))
    json.dump(res, open(os.environ["REALRAY_OUT"], "w"))


def main():
    depth = int(sys.argv[1]) if len(sys.argv) > 1 else 2
    import tempfile

    out = {}
    with tempfile.TemporaryDirectory() as tmp:
        for mode in ("fake", "genuine"):
            path = os.path.join(tmp, mode)
            env = dict(os.environ, REALRAY_OUT=path, OMP_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="", RAY_USAGE_STATS_ENABLED="0", RAY_ADDRESS="local", RAY_DEDUP_LOGS="0")
            subprocess.run([sys.executable, os.path.abspath(__file__), "--child", mode, str(depth)], env=env, check=True)
            out[mode] = json.load(open(path))
    bad = 0
    for (ops, a), (_, b) in zip(out["fake"], out["genuine"]):
        if a != b:
            bad += 1
            print("DIFFERENT", ops, "\n  stand-in:", a, "\n  genuine: ", b)
    print(f"{len(out['fake'])} histories of {depth} operations compared, {bad} differ")
    sys.exit(bad > 0)


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--child":
        child(sys.argv[2], int(sys.argv[3]))
    else:
        main()
