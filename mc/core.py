"""A small bounded exhaustive explorer.

A check module in mc/checks defines

    PROPERTY   id of the property
    jobs(tier) list of JSON-able work units; together they partition the
               bounded space of the tier completely
    run(job, rec)  explores the whole space of one unit on the real code and
               reports states, transitions and violations to REC

The runner executes all units in worker processes.  A unit is deterministic, so
that a violation is replayed by running its unit again.
"""
import concurrent.futures
import hashlib
import importlib
import itertools
import json
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
MAX_VIOLATIONS_PER_JOB = 3
JOB_TIMEOUT = 600  # half of it for the quick tier
GIVE_UP_AFTER = 250  # seconds after which a found violation ends the exploration


class JobTimeout(BaseException):
    pass


class StopJob(BaseException):
    """Raised if enough violations were collected by one job."""


class Recorder:
    """Collects what one job has explored."""

    def __init__(self, job):
        self.job = job
        self.states = set()
        self.transitions = 0
        self.validated = 0
        self.outcomes = {}
        self.violations = []
        self.samples = []

    # ---------------------------------------------------------------- coverage
    def state(self, *key):
        """Counts a distinct canonical state."""
        self.states.add(digest(key))
        if not self.samples:
            self.sample(key)

    def step(self, n=1):
        """Counts N transitions executed on the implementation."""
        self.transitions += n

    def valid(self, n=1):
        """Counts N complete executions of the implementation which were
        compared with the oracle."""
        self.validated += n

    def outcome(self, label):
        """Counts distinct observed behaviours, guards against vacuity."""
        label = str(label)
        self.outcomes[label] = self.outcomes.get(label, 0) + 1

    def sample(self, obj):
        if len(self.samples) < 1:
            self.samples.append(to_json(obj))

    # -------------------------------------------------------------- violations
    def violate(self, message, detail=None, key=None):
        self.violations.append(
            {"message": message, "detail": to_json(detail), "key": key}
        )
        if len([v for v in self.violations if v["key"] is None]) >= (
            MAX_VIOLATIONS_PER_JOB
        ):
            raise StopJob

    def check(self, condition, message, detail=None, key=None):
        if not condition:
            self.violate(message, detail() if callable(detail) else detail, key)
        return bool(condition)


def digest(key):
    h = hashlib.blake2b(digest_size=8)
    _feed(h, key)
    return h.digest()


def _feed(h, key):
    import numpy as np

    if isinstance(key, np.ndarray):
        h.update(b"a%r" % (key.shape,))
        h.update(np.ascontiguousarray(key, dtype=float).tobytes())
    elif isinstance(key, (list, tuple)):
        h.update(b"(")
        for k in key:
            _feed(h, k)
        h.update(b")")
    elif isinstance(key, dict):
        _feed(h, sorted(key.items()))
    else:
        h.update(repr(key).encode() + b";")


def to_json(obj):
    import numpy as np

    if isinstance(obj, dict):
        return {str(k): to_json(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple, set)):
        return [to_json(v) for v in obj]
    if isinstance(obj, np.ndarray):
        return obj.tolist()
    if isinstance(obj, np.generic):
        return obj.item()
    if isinstance(obj, (str, int, float, bool)) or obj is None:
        return obj
    return repr(obj)


# ------------------------------------------------------------------- execution
def _alarm(signum, frame):
    raise JobTimeout(f"no result after {JOB_TIMEOUT} s")


class Pristine:
    """Evaluates a function in processes in which nothing but this call has happened since
    the construction."""

    def __init__(self, function):
        self._pipe, there = multiprocessing.Pipe()
        self._pid = os.fork()
        if self._pid == 0:
            try:
                self._pipe.close()
                self._serve(function, there)
            finally:
                os._exit(0)
        there.close()

    @staticmethod
    def _serve(function, pipe):
        while True:
            try:
                arguments = pipe.recv()
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    pipe.send((True, function(*arguments)))
                except BaseException as error:
                    pipe.send((False, f"{type(error).__name__}: {error}"))
                finally:
                    os._exit(0)
            _, status = os.waitpid(pid, 0)
            if os.WIFSIGNALED(status):  # there is no answer: let the caller know
                return

    def __call__(self, *arguments):
        self._pipe.send(arguments)
        fine, result = self._pipe.recv()
        if not fine:
            raise RuntimeError(result)
        return result

    def close(self):
        self._pipe.close()
        os.waitpid(self._pid, 0)


def _execute(args):
    """Runs a job, in a process of its own if the module asks for it."""
    if not getattr(importlib.import_module(args[0]), "FRESH", False):
        return _work(args)
    process = Pristine(_work)
    try:
        return process(args)
    finally:
        process.close()


def _work(args):
    module_name, job = args
    module = importlib.import_module(module_name)
    rec = Recorder(job)
    start = time.time()
    if "mc.worlds" in sys.modules:
        sys.modules["mc.worlds"].reset()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(JOB_TIMEOUT)
    try:
        with silence():
            module.run(job, rec)
    except StopJob:
        pass
    except BaseException as error:  # an unexpected exception of the code
        if isinstance(error, KeyboardInterrupt):
            raise
        rec.violations.append(
            {
                "message": f"unexpected {type(error).__name__}: {error}",
                "detail": traceback.format_exc().splitlines()[-12:],
                "key": None,
            }
        )
    finally:
        signal.alarm(0)

    return {
        "job": job,
        "states": rec.states,
        "transitions": rec.transitions,
        "validated": rec.validated,
        "outcomes": rec.outcomes,
        "violations": rec.violations,
        "samples": rec.samples,
        "wall": time.time() - start,
    }


class silence:
    """Redirects stdout and stderr (also of tqdm) into nothing."""

    def __enter__(self):
        self._old = sys.stdout, sys.stderr
        self._null = open(os.devnull, "w")
        sys.stdout = sys.stderr = self._null

    def __exit__(self, *exc):
        sys.stdout, sys.stderr = self._old
        self._null.close()


class capture:
    """Collects everything written to stdout and stderr in TEXT."""

    text = ""

    def __enter__(self):
        import io

        self._old = sys.stdout, sys.stderr
        self._buffer = io.StringIO()
        sys.stdout = sys.stderr = self._buffer
        return self

    def __exit__(self, *exc):
        sys.stdout, sys.stderr = self._old
        self.text = self._buffer.getvalue()


def prepare_environment():
    """Import the code under test from the working tree of the repository."""
    scratch = tempfile.mkdtemp(prefix="mc_")
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    os.makedirs(os.environ["MPLCONFIGDIR"])
    os.environ["MC_SCRATCH"] = scratch
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    return scratch


def known_findings(property_id):
    """Keys of the listed findings of a property."""
    path = os.path.join(VERIF, "known-findings.txt")
    findings = {}
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: "):
                fields = line.split()
                if fields[1] == f"property={property_id}":
                    key = fields[2].split("=", 1)[1]
                    findings[key] = " ".join(fields[3:])
    return findings


def main(argv):
    property_id = argv[0]
    tier = argv[1] if len(argv) > 1 and not argv[1].startswith("-") else None
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scratch = prepare_environment()
    try:
        return _main(property_id, tier, seed, argv)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _explore(module_name, jobs, part, workers, known, results, fail_fast, start):
    """Runs the jobs of PART in a pool and appends to RESULTS.

    Returns the jobs with a result and if the exploration is to be given up.

    """
    done, failed = set(), any(
        v["key"] not in known for result in results for v in result["violations"]
    )
    context = multiprocessing.get_context("fork")
    with concurrent.futures.ProcessPoolExecutor(
        min(workers, len(part)), mp_context=context
    ) as pool:
        futures = {}
        try:
            for i in part:
                futures[pool.submit(_execute, (module_name, jobs[i]))] = i
            for future in concurrent.futures.as_completed(futures):
                try:
                    result = future.result()
                except concurrent.futures.process.BrokenProcessPool:
                    raise
                except Exception:
                    traceback.print_exc()
                    continue
                results.append(result)
                done.add(futures[future])
                failed = failed or any(
                    v["key"] not in known for v in result["violations"]
                )
                # a broken tree may make every job slow: report what was found
                if failed and (fail_fast or time.time() - start > GIVE_UP_AFTER):
                    for process in list(pool._processes.values()):
                        process.kill()
                    pool.shutdown(wait=False, cancel_futures=True)
                    return done, True
        except concurrent.futures.process.BrokenProcessPool as error:
            print(f"a process of the exploration died: {error}", file=sys.stderr)
    return done, False


def _died(job):
    rec = Recorder(job)
    rec.violations.append(
        {
            "message": "the process which runs the job died repeatedly",
            "detail": [],
            "key": None,
        }
    )
    return {
        "job": job,
        "states": rec.states,
        "transitions": rec.transitions,
        "validated": rec.validated,
        "outcomes": rec.outcomes,
        "violations": rec.violations,
        "samples": rec.samples,
        "wall": 0.0,
    }


def _main(property_id, tier, seed, argv):
    global JOB_TIMEOUT
    start = time.time()
    if tier == "quick":
        JOB_TIMEOUT = 300
    module_name = f"mc.checks.{property_id.lower()}"
    module = importlib.import_module(module_name)

    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            replay = json.load(f)
        jobs = [replay["job"]]
    else:
        jobs = module.jobs(tier)

    known = known_findings(property_id)
    results, complete = [], True
    fail_fast = bool(os.environ.get("MC_FAILFAST"))
    workers = min(int(os.environ.get("MC_WORKERS", "8")), max(1, len(jobs)))
    if workers > 1:
        remaining = list(range(len(jobs)))
        # a process which dies (memory, signals) takes its pool with it: the jobs
        # without a result run again, the last time with one process for each job
        for attempt in range(3):
            if not remaining:
                break
            lost = []
            for part in [remaining] if attempt < 2 else [[i] for i in remaining]:
                done, stopped = _explore(
                    module_name, jobs, part, workers, known, results, fail_fast, start
                )
                lost += [] if stopped else [i for i in part if i not in done]
                if stopped:
                    break
            remaining = lost
        for i in remaining:
            results.append(_died(jobs[i]))
        complete = len(results) == len(jobs)
    else:
        results = [_execute((module_name, job)) for job in jobs]

    results.sort(key=lambda r: json.dumps(r["job"], sort_keys=True))
    states = set()
    outcomes = {}
    for result in results:
        states |= result["states"]
        for label, n in result["outcomes"].items():
            outcomes[label] = outcomes.get(label, 0) + n

    seen_known = {}
    violations = []
    for result in results:
        for violation in result["violations"]:
            if violation["key"] in known:
                seen_known[violation["key"]] = violation
            else:
                violations.append((result["job"], violation))

    for key in sorted(seen_known):
        print(f"KNOWN-FINDING: property={property_id} key={key} {known[key]}")

    evidence_dir = os.environ.get("MC_EVIDENCE", os.path.join(VERIF, "evidence"))
    replay_dir = os.path.join(evidence_dir, "replays")
    os.makedirs(replay_dir, exist_ok=True)

    if "--replay" not in argv:
        evidence = {
            "property": property_id,
            "tier": tier,
            "seed": seed,
            "level": "model_checking",
            "coverage": {
                "states": len(states),
                "transitions": sum(r["transitions"] for r in results),
                "traces_validated_against_impl": sum(
                    r["validated"] for r in results
                ),
                "samples": [s for r in results for s in r["samples"]][:5],
                "jobs": len(jobs),
                "distinct_outcomes": len(outcomes),
                "outcomes": dict(
                    sorted(outcomes.items(), key=lambda i: -i[1])[:40]
                ),
                "exhaustive": complete,
                "explanation": (module.__doc__ or "").strip(),
            },
            "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
            "wall_s": round(time.time() - start, 2),
            "violations": len(violations),
        }
        path = os.path.join(evidence_dir, f"{property_id}.json")
        with open(path, "w") as f:
            json.dump(evidence, f, indent=1)

    print(
        f"{property_id} {tier}: jobs={len(jobs)} states={len(states)} "
        f"transitions={sum(r['transitions'] for r in results)} "
        f"validated={sum(r['validated'] for r in results)} "
        f"outcomes={len(outcomes)} violations={len(violations)} "
        f"wall={time.time() - start:.1f}s"
    )
    if os.environ.get("MC_TIMES"):
        for r in sorted(results, key=lambda r: -r["wall"])[:10]:
            print(f"   {r['wall']:.2f}s {json.dumps(r['job'])[:150]}")

    if not violations:
        return 0

    written = set()
    for i, (job, violation) in enumerate(violations[:20]):
        name = f"{property_id}_{i}.json"
        path = os.path.join(replay_dir, name)
        if "--replay" not in argv:
            with open(path, "w") as f:
                json.dump(
                    {
                        "property": property_id,
                        "tier": tier,
                        "job": job,
                        "violation": violation,
                        "replay_cmd": f"./check {property_id} {tier} --replay "
                        f"evidence/replays/{name}",
                    },
                    f,
                    indent=1,
                )
        if i < 5:
            print(f"  job={json.dumps(job)[:300]}")
            print(f"  {violation['message']}")
            print(f"  {json.dumps(violation['detail'])[:1500]}")
        if i < 5:
            print(f"VIOLATION property={property_id} replay=evidence/replays/{name}")
    return 1


# ----------------------------------------------------------------- enumeration
def words(alphabet, length):
    return itertools.product(alphabet, repeat=length)


def chunks(items, number):
    items = list(items)
    size = max(1, -(-len(items) // number))
    return [items[i : i + size] for i in range(0, len(items), size)]


def scratch_directory():
    return tempfile.mkdtemp(dir=os.environ.get("MC_SCRATCH"))
