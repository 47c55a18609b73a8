"""Run one check: python -m mc.run P01 [--tier quick|thorough] [--replay file] [--keep-going]"""

import argparse
import importlib
import json
import os
import pickle
import shutil
import sys
import tempfile
import time


def setup_env():
    env = {
        "PYTHONHASHSEED": "0",
        "CUDA_VISIBLE_DEVICES": "",
        "MPLBACKEND": "Agg",
        "OMP_NUM_THREADS": "1",
        "MKL_NUM_THREADS": "1",
        "RAY_ADDRESS": "local",
        "RAY_USAGE_STATS_ENABLED": "0",
        "WANDB_MODE": "disabled",
        "MLFLOW_DISABLE_TELEMETRY": "true",
        "MLFLOW_DISABLE_AGENT_HINT": "1",
        "MLFLOW_ALLOW_FILE_STORE": "true",
        "PYTHONDONTWRITEBYTECODE": "1",
    }
    if os.environ.get("MC_CHILD") != "1":
        new = dict(os.environ)
        new.update(env)
        new["MC_CHILD"] = "1"
        os.execve(sys.executable, [sys.executable, "-m", "mc.run"] + sys.argv[1:], new)
    sys.dont_write_bytecode = True
    repo = os.environ.get("MC_REPO", "/repo")
    sys.path.insert(0, os.path.join(repo, "src"))


def main():
    setup_env()
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--procs", type=int, default=0)
    args = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)

    from . import ctx as C

    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="mc-" + args.prop + "-")
    os.environ["MC_SCRATCH"] = scratch
    try:
        code = _run(args, seed, C, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


def _run(args, seed, C, t0):
    replay = None
    if args.replay:
        with open(args.replay) as f:
            replay = json.load(f)
        args.tier = replay["tier"]
    import logging as _pylog

    _pylog.disable(_pylog.CRITICAL)
    import torch

    torch.set_num_threads(1)
    try:
        torch.set_num_interop_threads(1)
    except RuntimeError:
        pass
    from . import fakeray

    fakeray.install()
    mod = importlib.import_module("checks." + args.prop.lower())
    import evotorch

    where = os.path.realpath(os.path.dirname(evotorch.__file__))
    want = os.path.realpath(os.path.join(os.environ.get("MC_REPO", "/repo"), "src", "evotorch"))
    if where != want:
        print(f"evotorch was imported from {where}, not from {want}")
        return 3

    nprocs = args.procs or mod.META.get("procs", os.cpu_count() or 4)
    if replay is not None:
        nprocs = 1
    total = C.Ctx(args.prop, args.tier, seed, 0, nprocs, replay)
    if nprocs == 1:
        ctx = C.Ctx(args.prop, args.tier, seed, 0, 1, replay, args.keep_going)
        _one(mod, ctx, C)
        total.merge(ctx.export())
    else:
        import multiprocessing as mp

        mpc = mp.get_context("fork")
        procs = []
        for i in range(nprocs):
            r, w = mpc.Pipe(duplex=False)
            p = mpc.Process(target=_child, args=(mod, C, args, seed, i, nprocs, w))
            p.start()
            w.close()
            procs.append((p, r))
        from multiprocessing.connection import wait as mpwait

        pending = {r: p for p, r in procs}
        bad = None
        while pending:
            for r in mpwait(list(pending)):
                p = pending.pop(r)
                try:
                    kind, d = pickle.loads(r.recv_bytes())
                except EOFError:
                    kind, d = "error", f"worker process died (exit {p.exitcode})"
                if kind == "error":
                    bad = bad or d
                else:
                    total.merge(d)
            if (total.violations and not args.keep_going) or bad:
                for q in pending.values():
                    q.terminate()
                break
        for p, _ in procs:
            p.join(10)
            if p.is_alive():
                p.kill()
        if bad and not total.violations:
            print("ERROR of the check:", bad)
            return 2
    wall = time.time() - t0
    if replay is None:
        if not total.violations and total.traces == 0:
            print("ERROR of the check: nothing was explored")
            return 2
        total.write_evidence(mod.META, wall)
    elif not total.replayed:
        print("ERROR: the recorded case does not exist in this check")
        return 2
    for what in sorted(set(total.known_hits)):
        print(f"KNOWN-FINDING: property={args.prop} {what}")
    for v in total.violations[: 40 if args.keep_going else 5]:
        print(f"  section {v['section']} case {json.dumps(v['desc'])} choices {v['choices']}")
        print("  " + v["message"].replace("\n", "\n  "))
        print(f"VIOLATION property={args.prop} replay={v['path']}")
    print(
        f"{args.prop} tier={args.tier} cases={total.index} traces={total.traces} transitions={total.transitions} "
        f"states={len(total.states)} exhaustive={total.exhaustive} violations={len(total.violations)} wall={wall:.1f}s"
    )
    if os.environ.get("MC_VERBOSE"):
        for k, v in total.sections.items():
            print("   ", k, v)
    return 1 if total.violations else 0


def _one(mod, ctx, C):
    try:
        mod.run(ctx)
    except C.StopCheck:
        pass


def _child(mod, C, args, seed, i, n, w):
    import traceback

    try:
        ctx = C.Ctx(args.prop, args.tier, seed, i, n, None, args.keep_going)
        _one(mod, ctx, C)
        out = ("ok", ctx.export())
    except BaseException:
        out = ("error", traceback.format_exc())
    w.send_bytes(pickle.dumps(out))
    w.close()
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
