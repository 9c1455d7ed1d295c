"""Small property-based testing engine.

A generator draws every random decision from a ``Src``; the list of decisions
("choice sequence") is what gets shrunk and mutated.  A generator returns a
JSON-able *case*; the check function takes only that case, so a replay file is
independent of the generator.

Nothing here looks at the wall clock to decide an outcome: budgets are case
counts.  A per-case CPU limit guards against hangs, a generous wall limit per
check only stops the generation of more cases (inconclusive, not a violation).
"""

import hashlib
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback
from collections import Counter

CASE_CPU_LIMIT = 40.0        # seconds of CPU for one case: normal cases take milliseconds
MEMORY_LIMIT = 3 << 30       # bytes of one worker: normally it needs less than a tenth of that
SHRINK_EVALS = 1500
SHRINK_SECONDS = 25.0
WORKERS = int(os.environ.get("PBT_WORKERS", "8"))


class Violation(Exception):
    """The property does not hold for this case."""


class CaseTimeout(BaseException):
    pass


# ---------------------------------------------------------------------------
# random source
# ---------------------------------------------------------------------------

class Src:
    """Source of all random decisions of a generator (0 is the simplest)."""

    MAXLEN = 200000

    def __init__(self, rng=None, prefix=()):
        self.rng = rng
        self.prefix = prefix
        self.rec = []

    def i(self, n):
        """0 <= result < n"""
        if n <= 1:
            return 0
        pos = len(self.rec)
        if pos < len(self.prefix):
            v = self.prefix[pos]
            if v >= n:
                v = v % n
        elif self.rng is not None and pos < self.MAXLEN:
            v = self.rng.randrange(n)
        else:
            v = 0
        self.rec.append(v)
        return v

    def between(self, lo, hi):
        return lo + self.i(hi - lo + 1)

    def p(self, prob):
        """True with the given probability (False is the simplest)."""
        if prob <= 0:
            return False
        if prob >= 1:
            return True
        return self.i(1000) >= 1000 - int(prob * 1000)

    def choice(self, seq):
        return seq[self.i(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value), ...]; the first is the simplest"""
        total = sum(w for w, _ in pairs)
        v = self.i(total)
        for w, value in pairs:
            if v < w:
                return value
            v -= w
        raise AssertionError

    def rep(self, lo, hi, mean):
        """A repetition count with geometric tail, lo <= result <= hi."""
        n = lo
        if mean <= lo:
            return lo
        q = 1.0 - 1.0 / (mean - lo + 1.0)
        while n < hi and self.p(q):
            n += 1
        return n

    def size(self, lo, hi):
        """Heavy tailed size: mostly small, sometimes up to hi."""
        span = hi - lo
        k = self.weighted([(6, 4), (3, 12), (1, span)])
        return lo + self.i(min(k, span) + 1)

    def subset(self, seq, prob=0.5):
        """Swarm testing: a random subset of features."""
        return [x for x in seq if self.p(prob)]

    def shuffled(self, seq):
        seq = list(seq)
        for k in range(len(seq) - 1, 0, -1):
            j = k - self.i(k + 1)
            seq[k], seq[j] = seq[j], seq[k]
        return seq


# ---------------------------------------------------------------------------
# subjects
# ---------------------------------------------------------------------------

class Sub:
    """One executable check of a property.

    gen(src) -> JSON-able case;  check(case) -> iterable of labels ("nt" marks
    a non-trivial case) or raises Violation.
    """

    def __init__(self, name, gen, check, quick=4000, thorough=None, rule=""):
        self.name = name
        self.gen = gen
        self.check = check
        self.quick = quick
        self.thorough = thorough or quick * 25
        self.rule = rule

    def budget(self, tier):
        n = self.thorough if tier == "thorough" else self.quick
        return max(1, int(n * float(os.environ.get("PBT_SCALE", "1"))))


def dump(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def _on_alarm(signum, frame):
    raise CaseTimeout()


def run_check(sub, case):
    """labels, or Violation; everything else is an error of the harness"""
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
    try:
        return set(sub.check(case) or ())
    except CaseTimeout:
        raise Violation(f"conversion did not end within {CASE_CPU_LIMIT:.0f} s of CPU time") from None
    except MemoryError:
        raise Violation(f"conversion needs more than {MEMORY_LIMIT >> 30} GB of memory") from None
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


# ---------------------------------------------------------------------------
# coverage (only used to keep interesting choice sequences)
# ---------------------------------------------------------------------------

class Coverage:
    """Counts first executions of lines and branches of the code under test."""

    def __init__(self, root):
        self.new = 0
        self.root = root
        mon = getattr(sys, "monitoring", None)
        self.mon = mon
        if mon is None:
            return
        self.tool = 4
        try:
            mon.use_tool_id(self.tool, "pbt")
        except ValueError:
            self.mon = None
            return
        ev = mon.events
        mon.register_callback(self.tool, ev.LINE, self._line)
        mon.register_callback(self.tool, ev.BRANCH, self._branch)
        mon.set_events(self.tool, ev.LINE | ev.BRANCH)
        self.branches = set()

    def _line(self, code, line):
        if code.co_filename.startswith(self.root):
            self.new += 1
        return self.mon.DISABLE

    def _branch(self, code, offset, dest):
        if not code.co_filename.startswith(self.root):
            return self.mon.DISABLE
        key = (code, offset, dest)
        if key not in self.branches:
            self.branches.add(key)
            self.new += 1
        elif (code, offset, -1) in self.branches:
            return self.mon.DISABLE
        else:
            others = [k for k in self.branches if k[0] is code and k[1] == offset]
            if len(others) > 1:
                self.branches.add((code, offset, -1))
                return self.mon.DISABLE
        return None

    def close(self):
        if self.mon is not None:
            self.mon.set_events(self.tool, 0)
            self.mon.free_tool_id(self.tool)


def mutate(rng, seq, other):
    """A mutated copy of a choice sequence."""
    seq = list(seq)
    for _ in range(rng.choice((1, 1, 1, 2, 3, 6))):
        kind = rng.randrange(6)
        if not seq:
            break
        a = rng.randrange(len(seq))
        if kind == 0:
            seq[a] = rng.randrange(1000)
        elif kind == 1:
            del seq[a:a + rng.choice((1, 2, 4, 8, 16))]
        elif kind == 2:
            b = rng.randrange(len(seq))
            seq[a:a] = seq[b:b + rng.choice((1, 2, 4, 8, 16))]
        elif kind == 3 and other:
            b = rng.randrange(len(other))
            seq[a:] = other[b:]
        elif kind == 4:
            for k in range(a, min(a + 4, len(seq))):
                seq[k] = rng.randrange(1000)
        else:
            seq[a] = max(0, seq[a] + rng.choice((-1, 1)))
    return seq


# ---------------------------------------------------------------------------
# shrinking
# ---------------------------------------------------------------------------

def shrink(sub, choices, case, message):
    """Minimise a failing choice sequence; returns (choices, case, message)."""
    best = (list(choices), case, message)
    best_key = (len(dump(case)), len(choices), sum(choices))
    t0 = time.monotonic()
    evals = 0
    seen = set()

    def attempt(seq):
        nonlocal best, best_key, evals
        key = tuple(seq)
        if key in seen or evals >= SHRINK_EVALS or time.monotonic() - t0 > SHRINK_SECONDS:
            return False
        seen.add(key)
        evals += 1
        src = Src(None, seq)
        try:
            c = sub.gen(src)
        except Exception:
            return False
        k = (len(dump(c)), len(src.rec), sum(src.rec))
        if k >= best_key:
            return False
        try:
            run_check(sub, c)
        except Violation as err:
            best = (list(src.rec), c, str(err))
            best_key = k
            return True
        except Exception:
            return False
        return False

    improved = True
    while improved and evals < SHRINK_EVALS and time.monotonic() - t0 < SHRINK_SECONDS:
        improved = False
        size = max(1, len(best[0]) // 2)
        while size >= 1:
            pos = 0
            while pos < len(best[0]):
                seq = best[0]
                if attempt(seq[:pos] + seq[pos + size:]):
                    improved = True
                    continue
                if any(seq[pos:pos + size]) and attempt(
                        seq[:pos] + [0] * len(seq[pos:pos + size]) + seq[pos + size:]):
                    improved = True
                pos += size
            size //= 2
        for pos in range(len(best[0])):
            if pos >= len(best[0]):
                break
            v = best[0][pos]
            for w in (0, v // 2, v - 1):
                if 0 <= w < v and attempt(best[0][:pos] + [w] + best[0][pos + 1:]):
                    improved = True
                    break
    return best


# ---------------------------------------------------------------------------
# shards
# ---------------------------------------------------------------------------

class Shard:
    def __init__(self):
        self.cases = 0
        self.nontrivial = set()
        self.labels = Counter()
        self.samples = []
        self.violation = None
        self.error = None
        self.coverage = 0
        self.stopped = False


def run_shard(prop, sub, shard, seed, n, tier, stop, deadline, root):
    out = Shard()
    rng = random.Random(f"{seed}/{prop}/{sub.name}/{shard}")
    guided = tier == "thorough"
    cov = Coverage(root) if guided else None
    pool = []
    sys.stdout.flush()
    try:
        for k in range(n):
            if stop.is_set():
                out.stopped = True
                break
            if k % 16 == 0 and time.monotonic() > deadline:
                out.stopped = True
                break
            if pool and rng.random() < 0.5:
                a = pool[rng.randrange(len(pool))]
                b = pool[rng.randrange(len(pool))]
                src = Src(random.Random(rng.getrandbits(64)), mutate(rng, a, b))
            else:
                src = Src(random.Random(rng.getrandbits(64)))
            case = sub.gen(src)
            out.cases += 1
            before = cov.new if cov else 0
            try:
                labels = run_check(sub, case)
            except Violation as err:
                stop.set()
                choices, case, message = shrink(sub, src.rec, case, str(err))
                out.violation = {"property": prop, "sub": sub.name, "seed": seed, "case": case,
                                 "message": message, "choices": choices[:2000]}
                break
            if cov and cov.new > before and len(src.rec) < 4000:
                pool.append(src.rec)
            out.labels.update(labels)
            if "nt" in labels:
                h = hashlib.blake2b(dump(case).encode(), digest_size=8).digest()
                if h not in out.nontrivial:
                    out.nontrivial.add(h)
                    text = dump(case)
                    if len(out.samples) < 2 and len(text) < 1500 and (k % 7 == 3 or k > n // 2):
                        out.samples.append(case)
    except Exception:
        out.error = f"sub-check {sub.name}, shard {shard}:\n{traceback.format_exc()}"
    finally:
        if cov:
            out.coverage = cov.new
            cov.close()
    return out


_TASKS = None


def _entry(args):
    index, deadline = args
    prop, subs, seed, tier, root = _TASKS["common"]
    sub, shard, n = _TASKS["tasks"][index]
    return index, run_shard(prop, sub, shard, seed, n, tier, _TASKS["stop"], deadline, root)


def _quiet():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, resource.getrlimit(resource.RLIMIT_AS)[1]))


def run_property(prop, subs, seed, tier, root, wall_limit):
    """Run all sub-checks of a property; returns a summary dict."""
    global _TASKS
    t0 = time.monotonic()
    ctx = multiprocessing.get_context("fork")
    stop = ctx.Event()
    tasks = []
    for shard in range(WORKERS):
        for sub in subs:
            n = sub.budget(tier)
            share = n // WORKERS + (1 if shard < n % WORKERS else 0)
            if share:
                tasks.append((sub, shard, share))
    _TASKS = {"common": (prop, subs, seed, tier, root), "tasks": tasks, "stop": stop}
    results = [None] * len(tasks)
    with ctx.Pool(WORKERS, initializer=_quiet) as pool:
        for index, out in pool.imap_unordered(
                _entry, [(k, t0 + wall_limit) for k in range(len(tasks))], chunksize=1):
            results[index] = out
    summary = {"subs": {}, "violation": None, "errors": [], "stopped": False}
    for (sub, shard, n), out in zip(tasks, results):
        s = summary["subs"].setdefault(sub.name, {
            "evaluations": 0, "nontrivial": set(), "labels": Counter(), "samples": [],
            "rule": sub.rule, "coverage": 0})
        s["evaluations"] += out.cases
        s["nontrivial"] |= out.nontrivial
        s["labels"].update(out.labels)
        s["coverage"] = max(s["coverage"], out.coverage)
        if len(s["samples"]) < 2:
            s["samples"].extend(out.samples[:1])
        if out.error:
            summary["errors"].append(out.error)
        if out.violation and summary["violation"] is None:
            summary["violation"] = out.violation
        summary["stopped"] |= out.stopped
    summary["wall"] = time.monotonic() - t0
    return summary
