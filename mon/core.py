"""Runner shared by all checks: workloads, verdicts, shrinking, evidence.

A property module (mon/props/cXX.py) defines

    LEVEL, RULE, FLOORS, ASSUMPTIONS
    blocks(tier)      -> number of workload blocks (each has its own PRNG)
    cases(tier, block, rng) -> iterator over cases (literals only)
    check(case, obs)  -> runs the code, raises Violation if an oracle objects

Verdicts are three-valued: exit 0 (held on everything observed), exit 1
(VIOLATION line, replayable witness), exit 2 (inconclusive: harness error,
or a monitor saw less than its floor).
"""

from __future__ import annotations

import ast
import collections
import hashlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")

WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
CASE_CPU_S = 120  # CPU seconds before a case is examined with a step budget
STEP_BUDGET = 60_000_000  # executed lines of gaspra
MEMORY_LIMIT = 3 << 30


class Violation(Exception):
    """An oracle observed behaviour that breaks the property."""

    def __init__(self, message, **details):
        super().__init__(message)
        self.message = message
        self.details = details


class OutOfDomain(Exception):
    """The case isn't one the property speaks about (only when shrinking)."""


class Inconclusive(Exception):
    """The monitors couldn't decide."""


class CaseTimeout(BaseException):
    pass


def require(condition, message, **details):
    if not condition:
        if details:
            message += " " + ", ".join(f"{k}={short(v)}" for k, v in details.items())
        raise Violation(message)


def short(value, limit=300):
    text = repr(value)
    return text if len(text) <= limit else text[: limit // 2] + " ... " + text[-limit // 2 :]


def sut(function, *args, **kwargs):
    """Call the code under test: anything it raises is an observation."""
    try:
        return function(*args, **kwargs)
    except (Violation, OutOfDomain, Inconclusive):
        raise
    except Exception as error:
        frames = traceback.extract_tb(error.__traceback__)
        where = ""
        for frame in reversed(frames):
            if "/gaspra/" in frame.filename:
                where = f" in {os.path.basename(frame.filename)}:{frame.name}"
                break
        raise Violation(
            f"{type(error).__name__}: {short(str(error), 160)}{where}"
        ) from error


class Obs:
    """What the monitors saw."""

    def __init__(self):
        self.counters = collections.Counter()
        self.maxima = {}
        self.keys = {}
        self.nontrivial = False

    def count(self, name, n=1):
        self.counters[name] += n

    def maximum(self, name, value):
        if value > self.maxima.get(name, value - 1):
            self.maxima[name] = value

    def distinct(self, name, value):
        """Count distinct values (by digest) under a name."""
        self.keys.setdefault(name, set()).add(digest(value))

    def mark_nontrivial(self):
        self.nontrivial = True


def digest(value):
    return hashlib.blake2b(repr(value).encode("utf-8", "backslashreplace"), digest_size=8).digest()


# --------------------------------------------------------------------------
# Code reached by the workload (evidence only, never part of a verdict)


class LineMonitor:
    TOOL = 3

    def __init__(self):
        self.lines = set()
        self.prefix = os.path.join(SRC, "gaspra") + os.sep

    def start(self):
        monitoring = sys.monitoring
        monitoring.use_tool_id(self.TOOL, "verif-lines")
        events = monitoring.events

        def on_line(code, line):
            if code.co_filename.startswith(self.prefix):
                self.lines.add((os.path.basename(code.co_filename), line))
            return monitoring.DISABLE

        monitoring.register_callback(self.TOOL, events.LINE, on_line)
        monitoring.set_events(self.TOOL, events.LINE)

    def stop(self):
        sys.monitoring.set_events(self.TOOL, 0)
        sys.monitoring.free_tool_id(self.TOOL)


class StepBudget:
    """Logical-step watchdog: raises once too many lines of gaspra ran."""

    TOOL = 4

    def __init__(self, budget):
        self.budget = budget
        self.steps = 0
        self.prefix = os.path.join(SRC, "gaspra") + os.sep

    def __enter__(self):
        monitoring = sys.monitoring
        monitoring.use_tool_id(self.TOOL, "verif-steps")

        def on_line(code, line):
            if not code.co_filename.startswith(self.prefix):
                return monitoring.DISABLE
            self.steps += 1
            if self.steps > self.budget:
                raise CaseTimeout()

        monitoring.register_callback(self.TOOL, monitoring.events.LINE, on_line)
        monitoring.set_events(self.TOOL, monitoring.events.LINE)
        monitoring.restart_events()
        return self

    def __exit__(self, *_):
        sys.monitoring.set_events(self.TOOL, 0)
        sys.monitoring.free_tool_id(self.TOOL)
        sys.monitoring.restart_events()


def _on_cpu_alarm(signum, frame):
    raise CaseTimeout()


def run_case(module, case, obs):
    """Returns None or a Violation."""
    signal.setitimer(signal.ITIMER_VIRTUAL, getattr(module, "CASE_CPU_S", CASE_CPU_S))
    try:
        module.check(case, obs)
        return None
    except Violation as violation:
        return violation
    except CaseTimeout:
        pass
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)

    # Wall clocks and CPU clocks don't decide: count executed lines.
    budget = getattr(module, "STEP_BUDGET", STEP_BUDGET)
    watchdog = StepBudget(budget)
    signal.setitimer(signal.ITIMER_VIRTUAL, 400)
    try:
        with watchdog:
            module.check(case, Obs())
    except Violation as violation:
        return violation
    except CaseTimeout:
        if watchdog.steps > budget:
            return Violation(f"no result after {budget} executed lines of gaspra")
        raise Inconclusive(f"case too slow to decide: {short(case)}")
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return None


# --------------------------------------------------------------------------
# Shrinking of witnesses


def _simpler(value):
    """Candidates simpler than value (literals only)."""
    if isinstance(value, bool) or value is None:
        return
    if isinstance(value, int):
        if value:
            yield 0
            if abs(value) > 2:
                yield value // 2
            if abs(value) > 1:
                yield value - 1 if value > 0 else value + 1
        return
    if isinstance(value, (str, bytes, tuple, list)):
        n = len(value)
        size = n
        while size >= 1:
            for start in range(0, n, size):
                yield value[:start] + value[start + size :]
            size //= 2
        if isinstance(value, str):
            for i, c in enumerate(value):
                if c not in "ab\n":
                    yield value[:i] + "a" + value[i + 1 :]
        elif isinstance(value, bytes):
            for i, c in enumerate(value):
                if c not in b"ab\n":
                    yield value[:i] + b"a" + value[i + 1 :]
        else:
            for i, item in enumerate(value):
                for simpler in _simpler(item):
                    yield value[:i] + type(value)((simpler,)) + value[i + 1 :]
        return
    if isinstance(value, dict):
        for key, item in value.items():
            if isinstance(key, str) and key.startswith("_"):
                continue
            for simpler in _simpler(item):
                copy = dict(value)
                copy[key] = simpler
                yield copy


def shrink(module, case, violation, seconds=20):
    deadline = time.monotonic() + seconds
    kind = violation.message.split(" ")[0:3]
    progress = True
    while progress and time.monotonic() < deadline:
        progress = False
        for candidate in _simpler(case):
            if time.monotonic() > deadline:
                break
            try:
                outcome = run_case(module, candidate, Obs())
            except Exception:
                continue
            if outcome is not None and outcome.message.split(" ")[0:3] == kind:
                if known_finding(module, candidate, outcome):
                    continue
                case, violation = candidate, outcome
                progress = True
                break
    return case, violation


def known_finding(module, case, violation):
    classify = getattr(module, "known", None)
    return classify(case, violation) if classify else None


# --------------------------------------------------------------------------
# Workers


def worker(module, tier, seed, blocks, pipe):
    _, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, hard))
    signal.signal(signal.SIGVTALRM, _on_cpu_alarm)
    obs = Obs()
    lines = LineMonitor()
    lines.start()
    seen = set()
    evaluations = 0
    samples = []
    violations = []
    knowns = {}
    error = None
    case = None
    progress = None
    try:
        setup = getattr(module, "setup_worker", None)
        if setup:
            setup()
        for block in blocks:
            rng = random.Random(f"{module.ID}:{seed}:{tier}:{block}")
            kept = 0
            for index, case in enumerate(module.cases(tier, block, rng)):
                progress = (block, index)
                evaluations += 1
                obs.nontrivial = False
                violation = run_case(module, case, obs)
                if obs.nontrivial:
                    key = digest(case)
                    if key not in seen:
                        seen.add(key)
                        if kept < 1 and len(repr(case)) < 400:
                            kept += 1
                            samples.append(case)
                if violation is not None:
                    found = known_finding(module, case, violation)
                    if found:
                        knowns.setdefault(found, case)
                        continue
                    original = case
                    if not getattr(module, "NO_SHRINK", False):
                        case, violation = shrink(module, case, violation)
                    violations.append(
                        dict(
                            case=case,
                            original=original if len(repr(original)) < 20000 else None,
                            message=violation.message,
                            block=block,
                            index=index,
                        )
                    )
                    break
            if violations:
                break
    except OutOfDomain as e:
        error = f"generator left the domain at {progress}: {e}: {short(case)}"
    except Inconclusive as e:
        error = f"inconclusive at {progress}: {e}"
    except BaseException:
        error = f"harness error at {progress}, case {short(case)}\n{traceback.format_exc()}"
    finally:
        teardown = getattr(module, "teardown_worker", None)
        if teardown:
            try:
                teardown()
            except Exception:
                pass
    result = dict(
        obs=(obs.counters, obs.maxima, obs.keys),
        lines=lines.lines,
        seen=seen,
        evaluations=evaluations,
        samples=samples,
        violations=violations,
        knowns=knowns,
        error=error,
    )
    data = pickle.dumps(result)
    with os.fdopen(pipe, "wb") as stream:
        stream.write(data)


def fork_workers(module, tier, seed, limit_s):
    total = module.blocks(tier)
    count = max(1, min(WORKERS, total))
    order = list(range(total))
    random.Random(0).shuffle(order)  # expensive blocks recur at regular distances
    children = {}
    for w in range(count):
        read_end, write_end = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(read_end)
            status = 1
            try:
                worker(module, tier, seed, order[w::count], write_end)
                status = 0
            finally:
                sys.stdout.flush()
                os._exit(status)
        os.close(write_end)
        children[read_end] = (pid, w, bytearray())

    results = []
    errors = []
    deadline = time.monotonic() + limit_s
    while children:
        ready, _, _ = select.select(list(children), [], [], max(0.0, deadline - time.monotonic()))
        if not ready:
            for fd, (pid, w, _) in list(children.items()):
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                errors.append(f"worker {w} hit the wall-clock watchdog ({limit_s} s)")
            children.clear()
            break
        for fd in ready:
            pid, w, buffer = children[fd]
            chunk = os.read(fd, 1 << 20)
            if chunk:
                buffer += chunk
                continue
            os.close(fd)
            del children[fd]
            _, status = os.waitpid(pid, 0)
            try:
                results.append(pickle.loads(bytes(buffer)))
            except Exception:
                errors.append(f"worker {w} died with status {status}")
    return results, errors


# --------------------------------------------------------------------------


def load_known(property_id):
    path = os.path.join(VERIF, "known_findings.jsonl")
    entries = []
    if os.path.exists(path):
        with open(path, encoding="utf-8") as file:
            for line in file:
                line = line.strip()
                if line and not line.startswith("#"):
                    entry = json.loads(line)
                    if entry.get("property") == property_id and entry.get("status") == "known":
                        entries.append(entry)
    return entries


def executable_lines(basename):
    path = os.path.join(SRC, "gaspra", basename)
    try:
        with open(path, encoding="utf-8") as file:
            code = compile(file.read(), path, "exec")
    except (OSError, SyntaxError):
        return set()
    lines = set()
    todo = [code]
    while todo:
        current = todo.pop()
        if current.co_name != "<module>":
            lines.update(l for _, _, l in current.co_lines() if l)
        todo.extend(c for c in current.co_consts if hasattr(c, "co_code"))
    return lines


def save_replay(module, tier, seed, violation):
    directory = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(directory, exist_ok=True)
    path = os.path.join(directory, f"{module.ID}-{seed}-{violation['block']}.txt")
    with open(path, "w", encoding="utf-8", errors="surrogatepass") as file:
        file.write(f"# property {module.ID}: {ascii(violation['message'])}\n")
        file.write(f"# run: python3 check.py {module.ID} --replay {path}\n")
        file.write(
            repr(
                dict(
                    property=module.ID,
                    tier=tier,
                    seed=seed,
                    block=violation["block"],
                    index=violation["index"],
                    case=ascii(violation["case"]),
                    original=ascii(violation.get("original")),
                    message=ascii(violation["message"]),
                )
            )
            + "\n"
        )
    return path


def replay(module, path):
    signal.signal(signal.SIGVTALRM, _on_cpu_alarm)
    with open(path, encoding="utf-8") as file:
        record = ast.literal_eval("".join(l for l in file if not l.startswith("#")))
    setup = getattr(module, "setup_worker", None)
    if setup:
        setup()
    try:
        case = ast.literal_eval(record["case"])
        violation = run_case(module, case, Obs())
        if violation is None:
            # It may depend on what ran before in the same process.
            rng = random.Random(f"{module.ID}:{record['seed']}:{record['tier']}:{record['block']}")
            for index, case in enumerate(module.cases(record["tier"], record["block"], rng)):
                violation = run_case(module, case, Obs())
                if violation is not None or index >= record["index"]:
                    break
    finally:
        teardown = getattr(module, "teardown_worker", None)
        if teardown:
            teardown()
    if violation is not None:
        print(ascii(violation.message))
        print(f"VIOLATION property={module.ID} replay={path}")
        return 1
    print("no violation")
    return 0


def run(module, tier, seed):
    started = time.monotonic()
    limit = 780 if tier == "quick" else 6000
    results, errors = fork_workers(module, tier, seed, limit)

    obs = Obs()
    lines = set()
    seen = set()
    evaluations = 0
    samples = []
    violations = []
    knowns = {}
    for result in results:
        counters, maxima, keys = result["obs"]
        obs.counters.update(counters)
        for name, value in maxima.items():
            obs.maximum(name, value)
        for name, values in keys.items():
            obs.keys.setdefault(name, set()).update(values)
        lines |= result["lines"]
        seen |= result["seen"]
        evaluations += result["evaluations"]
        samples.extend(result["samples"])
        violations.extend(result["violations"])
        for k, v in result["knowns"].items():
            knowns.setdefault(k, v)
        if result["error"]:
            errors.append(result["error"])

    # Specimens of known findings are run on every run.
    shown = []
    specimen = getattr(module, "known_specimen", None)
    for entry in load_known(module.ID):
        if specimen is not None and specimen(entry["id"]):
            print(f"KNOWN-FINDING: property={module.ID} {entry['id']} {entry['what']}")
            shown.append(entry["id"])
    listed = {entry["id"] for entry in load_known(module.ID)}
    for name, case in knowns.items():
        if name not in listed:
            violations.append(
                dict(case=case, original=None, message=f"unlisted finding {name}", block=0, index=0)
            )

    short_falls = []
    if not violations:
        for name, floor in module.FLOORS.items():
            got = obs.counters.get(name, len(obs.keys.get(name, ())))
            if got < floor:
                short_falls.append(f"monitor {name} saw {got} < {floor}")

    coverage = dict(
        evaluations=evaluations,
        distinct_nontrivial=len(seen),
        rule=module.RULE,
        samples=[ascii(s) for s in samples[:: max(1, len(samples) // 6)][:8]],
        events={k: v for k, v in sorted(obs.counters.items())},
        maxima=dict(sorted(obs.maxima.items())),
        distinct={k: len(v) for k, v in sorted(obs.keys.items())},
        code_reached={
            name: f"{len([1 for f, l in lines if f == name and l in executable_lines(name)])}"
            f"/{len(executable_lines(name))} lines in functions"
            for name in sorted({f for f, _ in lines} & set(getattr(module, "FILES", ())))
        },
        workload_blocks=module.blocks(tier),
        python_hash_seed=os.environ.get("PYTHONHASHSEED", ""),
        known_findings_shown=shown,
    )
    evidence = dict(
        property=module.ID,
        tier=tier,
        seed=seed,
        level=module.LEVEL,
        coverage=coverage,
        assumptions=list(getattr(module, "ASSUMPTIONS", ())),
        wall_s=round(time.monotonic() - started, 2),
        violations=len(violations),
    )
    if errors or short_falls:
        evidence["inconclusive"] = [ascii(e)[:2000] for e in errors] + short_falls
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", f"{module.ID}.json")
    with open(path + ".tmp", "w", encoding="utf-8") as file:
        json.dump(evidence, file, indent=1)
        file.write("\n")
    os.replace(path + ".tmp", path)

    if violations:
        messages = set()
        for violation in sorted(violations, key=lambda v: len(repr(v["case"]))):
            key = violation["message"].split(":")[0][:60]
            if key in messages:
                continue
            messages.add(key)
            replay_path = save_replay(module, tier, seed, violation)
            print(ascii(violation["message"])[:600])
            print("  case " + ascii(violation["case"])[:600])
            print(f"VIOLATION property={module.ID} replay={replay_path}")
        return 1
    if errors or short_falls:
        for error in errors[:3] + short_falls:
            print(f"INCONCLUSIVE property={module.ID} {error}")
        return 2
    print(
        f"{module.ID} held: {evaluations} executions, {len(seen)} distinct non-trivial, "
        f"{sum(obs.counters.values())} observations, {evidence['wall_s']} s"
    )
    return 0


def scratch_dir(name):
    """A private directory for this process; the caller removes it."""
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix=f"gaspra-verif-{name}-", dir=base)


def remove_scratch(path):
    if path and os.path.basename(path).startswith("gaspra-verif-"):
        shutil.rmtree(path, ignore_errors=True)
