"""How work and memory grow with the size of the input (for C07 and C29).

A measure is (operation, family, form, small, large, seed); the script's
prepare(operation, family, form, n, seed) returns the function to measure.
"""

import gc
import glob
import math
import os
import re
import resource
import shutil
import subprocess
import sys
import tracemalloc

from mon.core import SRC, VERIF, CaseTimeout, Inconclusive, StepBudget, remove_scratch, require, scratch_dir, sut


def explosion(measures, obs, prepare):
    """Executed lines on tiny inputs first: callgrind couldn't finish if they explode."""
    for operation, family, form, small, large, seed in measures:
        previous = None
        for n in (small // 6, small // 2, small):
            run = prepare(operation, family, form, n, seed)
            budget = 400_000 if previous is None else max(100_000, int(previous * (3**1.7)))
            watchdog = StepBudget(budget)
            try:
                with watchdog:
                    sut(run)
            except CaseTimeout:
                require(
                    watchdog.steps <= budget,
                    f"work explodes: {operation!r} on {family!r} ({form}) takes more than {budget} executed "
                    f"lines at n={n}, {previous} at the size before",
                )
                raise
            previous = watchdog.steps
            obs.count("executed lines", watchdog.steps)


def instructions(measures, obs, script, limit, fewest=10000, kind=lambda o, f: o):
    """Machine instructions, counted by valgrind from a client request around the call."""
    scratch = scratch_dir("callgrind")
    try:
        counted = run_callgrind(measures, script, scratch)
    finally:
        remove_scratch(scratch)
    for i, (operation, family, form, small, large, seed) in enumerate(measures):
        low, high = counted[2 * i], counted[2 * i + 1]
        if low < fewest:
            raise Inconclusive("implausibly few instructions")
        exponent = math.log(high / low) / math.log(large / small)
        obs.count("instruction ratios")
        obs.count("instructions", low + high)
        obs.maximum("instruction growth exponent", round(exponent, 3))
        obs.maximum(f"instruction growth exponent, {kind(operation, family)}", round(exponent, 3))
        require(
            exponent <= (limit(operation, family) if callable(limit) else limit),
            f"work grows superlinearly: {operation!r} on {family!r} ({form}), "
            f"{low} instructions at n={small}, {high} at n={large}, exponent {exponent:.2f}",
        )


def run_callgrind(measures, script, scratch):
    if not shutil.which("valgrind") or not shutil.which("gcc"):
        raise Inconclusive("valgrind or gcc is missing")
    shim = os.path.join(scratch, "shim.so")
    built = subprocess.run(
        ["gcc", "-shared", "-fPIC", "-O1", "-o", shim, os.path.join(VERIF, "mon", "valgrind_shim.c")],
        capture_output=True,
        text=True,
    )
    if built.returncode:
        raise Inconclusive("cannot build the callgrind client: " + built.stderr[:200])
    runs = []
    for operation, family, form, small, large, seed in measures:
        runs.append((operation, family, form, small, seed))
        runs.append((operation, family, form, large, seed))
    environment = dict(os.environ, PYTHONHASHSEED="0")
    environment.pop("_VERIF_STAGE", None)

    def unlimited():
        _, hard = resource.getrlimit(resource.RLIMIT_AS)
        resource.setrlimit(resource.RLIMIT_AS, (hard, hard))

    completed = subprocess.run(
        [
            "valgrind",
            "--tool=callgrind",
            "--instr-atstart=no",
            f"--callgrind-out-file={scratch}/out",
            "-q",
            sys.executable,
            "-B",
            script,
            shim,
            VERIF,
            SRC,
        ],
        input=repr(runs),
        capture_output=True,
        text=True,
        env=environment,
        preexec_fn=unlimited,
        cwd=scratch,
        timeout=5000,
    )
    if completed.returncode or "done" not in completed.stdout:
        if "Traceback" in completed.stderr and "/gaspra/" in completed.stderr:
            require(False, "a call raised " + completed.stderr.strip().splitlines()[-1])
        raise Inconclusive(f"callgrind run failed: {completed.stdout[-300:]} {completed.stderr[-600:]}")
    counted = {}
    for path in glob.glob(f"{scratch}/out.*"):
        with open(path, errors="replace") as file:
            text = file.read()
        label = re.search(r"^desc: Trigger: Client Request: (\d+)$", text, re.M)
        total = re.search(r"^(?:totals|summary): (\d+)", text, re.M)
        if label and total:
            counted[int(label[1])] = int(total[1])
    if len(counted) != len(runs):
        raise Inconclusive(f"{len(counted)} of {len(runs)} measurements were dumped")
    return counted


def memory(measures, obs, prepare, limit, kind=lambda o, f: o):
    """The peak of the allocated bytes, at twice the sizes."""
    for operation, family, form, small, large, seed in measures:
        peaks = []
        for n in (small * 2, large * 2):
            run = prepare(operation, family, form, n, seed)
            gc.collect()
            gc.disable()
            tracemalloc.start()
            try:
                before = tracemalloc.get_traced_memory()[0]
                sut(run)
                peaks.append(tracemalloc.get_traced_memory()[1] - before)
            finally:
                tracemalloc.stop()
                gc.enable()
        exponent = math.log(peaks[1] / peaks[0]) / math.log(large / small)
        obs.count("memory ratios")
        obs.maximum("memory growth exponent", round(exponent, 3))
        obs.maximum("bytes per token", round(peaks[1] / (large * 2)))
        obs.maximum(f"memory growth exponent, {kind(operation, family)}", round(exponent, 3))
        require(
            exponent <= (limit(operation, family) if callable(limit) else limit),
            f"memory grows superlinearly: {operation!r} on {family!r} ({form}), "
            f"{peaks[0]} bytes at n={small * 2}, {peaks[1]} at n={large * 2}, exponent {exponent:.2f}",
        )


def run_measures(prepare, warm_up):
    """The main function of a script that's run under callgrind."""
    import ast
    import ctypes

    shim = ctypes.CDLL(sys.argv[1])
    measures = ast.literal_eval(sys.stdin.read())
    if not shim.verif_running():
        print("not under valgrind")
        return 3
    for arguments in warm_up:
        prepare(*arguments)()
    for i, (operation, family, form, n, seed) in enumerate(measures):
        run = prepare(operation, family, form, n, seed)
        gc.collect()
        gc.disable()
        shim.verif_start()
        shim.verif_zero()
        run()
        shim.verif_dump(str(i).encode())
        shim.verif_stop()
        gc.enable()
    print("done")
    return 0
