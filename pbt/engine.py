"""
The engine of the checks.

A check is a list of parts. A part has a generator (a Hypothesis strategy of JSON-able
cases, or a finite enumeration of cases) and a 'check(case)' function, which raises
Violation if the property does not hold on the case, and otherwise returns a pair
(non-trivial?, labels).

'run' splits the cases among worker processes, with seeds that are a function of
VERIF_SEED, merges what they covered in evidence/<id>.json, and turns the smallest
failing case into a replay file.
"""
import hashlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter

from .core import Skip, Violation, dumps

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PBT_REPO", "/repo")
WORKERS = 8
CPU_LIMIT = 60  # seconds of CPU for a single case, which takes milliseconds
DEADLINE = {"quick": 780, "thorough": 4 * 3600}


class Part:
    """A part of a check."""

    def __init__(self, name, check, strategy=None, quick=0, thorough=0, cases=None, isolate=True):
        self.name = name
        self.check = check
        self.strategy = strategy
        self.budget = {"quick": quick, "thorough": thorough}
        self.cases = cases  # a function: tier -> iterable of cases (a finite enumeration)
        self.isolate = isolate


def _from_library(tb):
    prefix = os.path.abspath(REPO) + os.sep
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(prefix):
            return True
        tb = tb.tb_next
    return False


class _Hang(BaseException):
    pass


def _alarm(_signum, _frame):
    raise _Hang()


def execute(part, case):
    """Run a part on a case; any failure attributable to the library is a violation."""
    from .spec import base

    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        if part.isolate:
            base.reset_cache()
        return part.check(case)
    except (Violation, Skip):
        raise
    except _Hang:
        raise Violation("no answer within %d s of CPU time" % CPU_LIMIT)
    except Exception as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        # what the library gave cannot even be read: the checks have no such failure on results of the stated form
        unreadable = isinstance(e, (TypeError, AttributeError, LookupError, ValueError, AssertionError))
        if not unreadable and not _from_library(e.__traceback__):
            raise
        lines = traceback.format_exception_only(type(e), e)
        raise Violation("unexpected exception: %s" % "".join(lines).strip()) from e
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


class Coverage:
    """What was explored."""

    def __init__(self):
        self.evaluations = Counter()
        self.skipped = Counter()
        self.labels = Counter()
        self.nontrivial = set()
        self.samples = {}

    def add(self, part, case, outcome):
        self.evaluations[part.name] += 1
        nontrivial, labels = outcome
        for label in labels:
            self.labels["%s: %s" % (part.name, label)] += 1
        if nontrivial:
            digest = hashlib.blake2b((part.name + dumps(case)).encode(), digest_size=8).hexdigest()
            if digest not in self.nontrivial:
                self.nontrivial.add(digest)
                # a few samples per part, spread over the run
                kept = self.samples.setdefault(part.name, [])
                n = len(self.nontrivial)
                if len(kept) < 2 or n & (n - 1) == 0:
                    kept.append(case)
                    if len(kept) > 4:
                        kept.pop(1)

    def dump(self):
        return {
            "evaluations": self.evaluations,
            "skipped": self.skipped,
            "labels": self.labels,
            "nontrivial": sorted(self.nontrivial),
            "samples": self.samples,
        }


def seed_of(*parts):
    """A seed, as a function of the given values."""
    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest(), "big")


def _test_of(part, coverage, failing):
    """The test function that Hypothesis drives."""
    import hypothesis

    def test(case):
        try:
            outcome = execute(part, case)
        except Skip:
            coverage.skipped[part.name] += 1
            hypothesis.reject()
        except Violation as v:
            failing.append((case, str(v)))
            raise
        coverage.add(part, case, outcome)

    return test


def worker(check, tier, seed, shard, shards, only, scale, out):
    """Explore the share of the cases of a worker."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings

    coverage = Coverage()
    violation = None
    try:
        for part in check.PARTS:
            if only and part.name != only:
                continue
            if part.cases is not None:
                for i, case in enumerate(part.cases(tier)):
                    if i % shards != shard:
                        continue
                    try:
                        coverage.add(part, case, execute(part, case))
                    except Skip:
                        coverage.skipped[part.name] += 1
                    except Violation as v:
                        violation = {"part": part.name, "case": case, "message": str(v)}
                        break
            if violation:
                break
            n = int(part.budget[tier] * scale)
            n = n // shards + (1 if shard < n % shards else 0)
            if part.strategy is None or n <= 0:
                continue
            failing = []
            test = hypothesis.given(part.strategy)(_test_of(part, coverage, failing))
            test = hypothesis.seed(seed_of(seed, check.ID, part.name, shard))(test)
            test = settings(
                max_examples=n,
                database=None,
                deadline=None,
                derandomize=False,
                print_blob=False,
                report_multiple_bugs=False,
                suppress_health_check=list(HealthCheck),
                phases=[Phase.generate, Phase.shrink],
                stateful_step_count=50,
            )(test)
            try:
                test()
            except BaseException as e:
                if failing and isinstance(e, Exception):
                    # the last failing case is the one that Hypothesis shrank to
                    case, message = failing[-1]
                    smallest = min(failing, key=lambda cm: len(dumps(cm[0])))
                    if len(dumps(smallest[0])) < len(dumps(case)):
                        case, message = smallest
                    violation = {"part": part.name, "case": case, "message": message}
                    break
                raise
    except BaseException:
        result = {"error": traceback.format_exc()}
    else:
        result = {"violation": violation}
    result["coverage"] = coverage.dump()
    with open(out + ".tmp", "w") as f:
        json.dump(result, f)
    os.replace(out + ".tmp", out)


def known_findings(check):
    """The open findings of a check: those recorded, and neither repaired nor to be reported again."""
    path = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == check.ID and e["status"] == "open"]


def write_replay(check, violation, tier, seed):
    """Write the replay file of a violation."""
    folder = os.path.join(ROOT, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, check.ID + ".json")
    with open(path, "w") as f:
        json.dump(dict(violation, property=check.ID, tier=tier, seed=seed), f, indent=1)
        f.write("\n")
    return path


def part_named(check, name):
    for p in list(check.PARTS) + list(getattr(check, "FINDING_PARTS", [])):
        if p.name == name:
            return p
    raise SystemExit("no part named %r" % name)


def replay(check, path):
    """Run the check on the case of a replay file."""
    with open(path) as f:
        data = json.load(f)
    part = part_named(check, data["part"])
    try:
        outcome = execute(part, data["case"])
    except Violation as v:
        print("part: %s\ncase: %s\n%s" % (data["part"], dumps(data["case"]), v))
        print("VIOLATION property=%s replay=%s" % (check.ID, path))
        return 1
    print("the property holds on this case", outcome)
    return 0


def run(check, tier, seed, only=None, scale=1.0):
    """Run a check."""
    started = time.time()
    for finding in known_findings(check):
        part = part_named(check, finding["part"])
        try:
            execute(part, finding["case"])
        except Violation:
            print("KNOWN-FINDING: property=%s %s" % (check.ID, finding["what"]))
        else:
            print("note: a recorded finding no longer fails: %s" % finding["what"])
    scratch = tempfile.mkdtemp(prefix="pbt-%s-" % check.ID)
    results, errors = [], []
    procs = []
    try:
        for shard in range(WORKERS):
            out = os.path.join(scratch, "%d.json" % shard)
            env = dict(os.environ)
            # the order of the sets of formulae depends on the hash seed: vary it, reproducibly
            env["PYTHONHASHSEED"] = str((seed * WORKERS + shard) % 4294967295)
            env["PYTHONPATH"] = ROOT
            env["PYTHONDONTWRITEBYTECODE"] = "1"
            env["PYTHONPYCACHEPREFIX"] = os.path.join(scratch, "pyc")
            env["PBT_REPO"] = REPO
            cmd = [sys.executable, "-B", "-m", "pbt.run", check.ID, "--tier", tier, "--seed", str(seed)]
            cmd += ["--worker", "%d/%d" % (shard, WORKERS), "--out", out, "--scale", str(scale)]
            if only:
                cmd += ["--part", only]
            procs.append((subprocess.Popen(cmd, env=env, cwd=scratch, stdin=subprocess.DEVNULL), out))
        pending = dict(procs)
        while pending:
            time.sleep(0.05)
            for proc, out in list(pending.items()):
                if proc.poll() is None:
                    continue
                del pending[proc]
                if not os.path.exists(out):
                    errors.append("a worker ended with status %s and no result" % proc.returncode)
                    continue
                with open(out) as f:
                    results.append(json.load(f))
                if results[-1].get("error"):
                    errors.append(results[-1]["error"])
            if any(r.get("violation") for r in results):
                break  # one counterexample is enough
            if pending and time.time() - started > DEADLINE[tier]:
                errors.append("inconclusive: the time budget is over")
                break
    finally:
        for proc, _ in procs:
            if proc.poll() is None:
                proc.kill()
            proc.wait()
        subprocess.run(["/bin/rm", "-rf", scratch], check=False)
    violations = [r["violation"] for r in results if r.get("violation")]
    evaluations, skipped, labels, nontrivial, samples = Counter(), Counter(), Counter(), set(), {}
    for r in results:
        c = r["coverage"]
        evaluations.update(c["evaluations"])
        skipped.update(c["skipped"])
        labels.update(c["labels"])
        nontrivial.update(c["nontrivial"])
        for k, v in c["samples"].items():
            samples.setdefault(k, []).extend(v)
    picked = []
    for k in sorted(samples):
        for case in sorted(samples[k], key=lambda c: len(dumps(c)))[:: max(1, len(samples[k]) // 3)][:3]:
            picked.append({"part": k, "case": case})
    evidence = {
        "property": check.ID,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(evaluations.values()),
            "distinct_nontrivial": len(nontrivial),
            "rule": check.RULE,
            "samples": picked,
            "evaluations_per_part": dict(sorted(evaluations.items())),
            "outside_the_domain": dict(sorted(skipped.items())),
            "labels": dict(sorted(labels.items())),
            "workers": WORKERS,
        },
        "assumptions": list(getattr(check, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - started, 2),
        "violations": len(violations),
    }
    folder = os.path.join(ROOT, "evidence")
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, check.ID + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    print(
        "%s (%s, seed %d): %d cases, %d distinct and non-trivial, %.1f s"
        % (check.ID, tier, seed, sum(evaluations.values()), len(nontrivial), evidence["wall_s"])
    )
    if violations:
        violation = min(violations, key=lambda v: len(dumps(v["case"])))
        path = write_replay(check, violation, tier, seed)
        print("part: %s\ncase: %s\n%s" % (violation["part"], dumps(violation["case"]), violation["message"]))
        print("VIOLATION property=%s replay=%s" % (check.ID, path))
        return 1
    if errors:
        print("%d workers failed; the first one:\n%s" % (len(errors), errors[0][-3000:]), file=sys.stderr)
        return 2
    return 0
