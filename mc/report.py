"""Running a check: parallel exhaustive sweep, known findings, evidence, replay artefacts."""
import collections
import hashlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

from mc.env import VERIF

KNOWN_FILE = os.path.join(VERIF, "known_findings.txt")
SLOTS = 8


def jdump(x):
    return json.dumps(x, sort_keys=True, default=str)


def digest(x):
    return hashlib.sha1(jdump(x).encode()).hexdigest()[:16]


def known_findings(pid):
    """Lines 'finding: property=<id> key=<key> <what fails>' -> {key: what}"""
    res = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            line = line.strip()
            if line.startswith(f"finding: property={pid} key="):
                rest = line.split(" key=", 1)[1]
                key, _, what = rest.partition(" ")
                res[key] = what
    return res


class Result:
    """What one worker chunk saw. Merged by addition."""

    def __init__(self):
        self.counts = collections.Counter()
        self.states = set()
        self.violations = []   # (key, message, case)
        self.samples = []
        self.carry = []        # for the next round of workers

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def state(self, s):
        self.states.add(digest(s))

    def violation(self, key, message, case):
        self.count("violations_seen")
        if len(self.violations) < 400:
            self.violations.append((key, message, case))

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def merge(self, other):
        for k, v in other.counts.items():
            self.count(k, v)
        self.states |= other.states
        self.violations.extend(other.violations)
        self.carry.extend(other.carry)
        for s in other.samples:
            self.sample(s)


class Stuck(BaseException):
    """The code under test takes far longer than it ever did"""


def _stuck(signum, frame):
    where = "".join(traceback.format_stack(frame)[-12:])
    raise Stuck(where)


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


def _call(args):
    func, chunk, limit = args
    signal.signal(signal.SIGPROF, _stuck)
    signal.setitimer(signal.ITIMER_PROF, limit)     # CPU time, other load doesn't count
    try:
        return func(chunk)
    except Stuck as err:
        r = Result()
        r.violation("does not terminate", f"does not terminate\n{err}", None)
        r.stuck = True
        return r
    except Exception:
        return traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def parallel(func, chunks, workers=SLOTS, limit=None):
    """func(chunk) -> Result, over all chunks, in forked workers. Any error in the harness is fatal.
    A chunk that takes more than `limit` seconds of CPU time is a violation, and ends the search."""
    if limit is None:
        limit = 7200 if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else 300
    total = Result()
    chunks = list(chunks)
    if not chunks:
        return total
    ctx = mp.get_context("fork")
    with ctx.Pool(min(workers, len(chunks)), initializer=_limits) as pool:
        for r in pool.imap_unordered(_call, [(func, c, limit) for c in chunks]):
            if isinstance(r, str):
                pool.terminate()
                sys.stderr.write(r)
                sys.exit(3)
            total.merge(r)
            if getattr(r, "stuck", False):
                pool.terminate()
                break
    return total


def chunked(seq, n):
    seq = list(seq)
    n = max(1, min(n, len(seq)))
    return [seq[i::n] for i in range(n)]


class Check:
    def __init__(self, pid, level, assumptions=()):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        if "--quick" in sys.argv:
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.assumptions = list(assumptions)
        self.t0 = time.monotonic()
        self.replay = None
        if "--replay" in sys.argv:
            self.replay = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))

    @property
    def thorough(self):
        return self.tier == "thorough"

    def finish(self, result, coverage):
        known = known_findings(self.pid)
        seen_known = {}
        fresh = {}
        for key, msg, case in result.violations:
            if key in known:
                seen_known.setdefault(key, msg)
            else:
                fresh.setdefault(key, (msg, case))
        for key in sorted(seen_known):
            print(f"KNOWN-FINDING: property={self.pid} {known[key]} [{key}]")
        evdir = os.path.join(VERIF, "evidence")
        os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
        lines = []
        for n, (key, (msg, case)) in enumerate(sorted(fresh.items())):
            if n >= 5:
                break
            path = os.path.join(evdir, "replay", f"{self.pid}-{n}.json")
            with open(path, "w") as fp:
                json.dump({"property": self.pid, "key": key, "message": msg, "case": case}, fp,
                          indent=1, default=str)
            lines.append((path, key, msg))
        cov = dict(coverage)
        if "samples" not in cov:
            cov["samples"] = result.samples or ["(none)"]
        cov["counts"] = dict(sorted(result.counts.items()))
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": cov, "assumptions": self.assumptions,
            "wall_s": round(time.monotonic() - self.t0, 2), "violations": len(fresh),
        }
        with open(os.path.join(evdir, f"{self.pid}.json"), "w") as fp:
            json.dump(ev, fp, indent=1, default=str)
            fp.write("\n")
        for path, key, msg in lines:
            print(f"VIOLATION property={self.pid} replay={path}")
            print(f"  {key}: {msg}"[:1500])
        short = {k: v for k, v in cov.items() if isinstance(v, (int, float, bool))}
        print(f"{self.pid} tier={self.tier} {short} counts={cov['counts']} wall={ev['wall_s']}s "
              f"violations={len(fresh)} known={len(seen_known)}")
        sys.stdout.flush()
        sys.exit(1 if fresh else 0)
