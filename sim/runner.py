"""Seeded search driver: forks one fresh process per unit (= one seed), so a
unit starts from the same state whatever ran before and however many workers
there are; collects verdicts, minimises, writes replay and evidence files."""
import collections
import gc
import hashlib
import json
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WALL_STOP = 720          # seconds: stop handing out units (safety only)


class HarnessError(Exception):
    pass


def canon(o):
    return json.dumps(o, sort_keys=True, default=_default,
                      separators=(",", ":"))


def _default(o):
    try:
        return o.item()
    except Exception:
        if isinstance(o, (set, frozenset)):
            return sorted(o)
        return repr(o)


def digest(o):
    return hashlib.sha256(canon(o).encode()).hexdigest()[:16]


def _child(wfd, fn, args, quiet=True):
    """body of a forked child: run fn, send the pickled result, exit"""
    code = 0
    try:
        if quiet:
            nul = os.open(os.devnull, os.O_WRONLY)
            os.dup2(nul, 1)
            if not os.environ.get("VERIF_DEBUG"):
                os.dup2(nul, 2)
        random.seed(1)               # Python reseeds it in a forked child
        try:
            res = ("ok", fn(*args))
        except BaseException:
            res = ("error", traceback.format_exc())
        data = pickle.dumps(res)
        n = 0
        while n < len(data):
            n += os.write(wfd, data[n:n + 65536])
        os.close(wfd)
    except BaseException:
        code = 3
    finally:
        os._exit(code)


class Forked:
    def __init__(self, fn, args, key=None):
        self.key = key
        self.buf = b""
        self.t0 = time.monotonic()
        sys.stdout.flush()
        sys.stderr.flush()
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.setpgid(0, 0)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            _child(w, fn, args)
        os.close(w)
        self.fd, self.pid = r, pid

    def feed(self):
        """-> True when finished"""
        b = os.read(self.fd, 1 << 20)
        if b:
            self.buf += b
            return False
        self._reap()
        return True

    def _reap(self):
        os.close(self.fd)
        _, self.status = os.waitpid(self.pid, 0)
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass

    def kill(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            os.kill(self.pid, signal.SIGKILL)
        self._reap()

    def result(self):
        if not self.buf:
            return ("died", "process ended with status %s" % self.status)
        return pickle.loads(self.buf)


def run_forked(fn, args, timeout):
    f = Forked(fn, args)
    end = time.monotonic() + timeout
    while True:
        left = end - time.monotonic()
        if left <= 0:
            f.kill()
            return ("timeout", "no result in %ss" % timeout)
        r, _, _ = select.select([f.fd], [], [], left)
        if r and f.feed():
            return f.result()


def run_pool(jobs, workers, timeout, on_result, stop_at=None, enough=None):
    """jobs: iterable of (key, fn, args)"""
    jobs = iter(jobs)
    live = {}
    exhausted = False
    stopped = 0
    while True:
        while not exhausted and len(live) < workers:
            if (stop_at is not None and time.monotonic() > stop_at) or \
                    (enough is not None and enough()):
                stopped = sum(1 for _ in jobs)
                exhausted = True
                break
            try:
                key, fn, args = next(jobs)
            except StopIteration:
                exhausted = True
                break
            f = Forked(fn, args, key)
            live[f.fd] = f
        if not live:
            return stopped
        r, _, _ = select.select(list(live), [], [], 1.0)
        for fd in r:
            f = live[fd]
            if f.feed():
                del live[fd]
                on_result(f.key, f.result())
        now = time.monotonic()
        for fd, f in list(live.items()):
            if now - f.t0 > timeout:
                del live[fd]
                f.kill()
                on_result(f.key, ("timeout", "unit did not end in %ss" % timeout))


class Result:
    """what one unit (seed) reports"""

    def __init__(self):
        self.evals = 0                  # simulated runs
        self.steps = 0                  # simulated time (events executed)
        self.nontrivial = set()         # distinct non-trivial cases (keys)
        self.faults = collections.Counter()   # fault kind -> times it fired
        self.cov = set()                # distinct states / interleavings reached
        self.notes = collections.Counter()
        self.maxima = {}
        self.samples = []
        self.violations = []            # (spec, verdict)
        self._dig = hashlib.sha256()

    def see(self, *what):
        self._dig.update(canon(what).encode())

    def violation(self, spec, kind, detail):
        if len(self.violations) < 8:
            self.violations.append((spec, dict(kind=kind, detail=detail)))
        self.notes["violating runs"] += 1

    def pack(self):
        return dict(evals=self.evals, steps=self.steps,
                    nontrivial=self.nontrivial, faults=self.faults,
                    cov=self.cov, notes=self.notes, maxima=self.maxima, samples=self.samples[:2],
                    violations=self.violations, digest=self._dig.hexdigest())


def _unit(check, seed, index, tier):
    r = Result()
    check.unit(r, seed, index, tier)
    return r.pack()


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    with open(p) as f:
        return json.load(f)


def match_known(known, pid, verdict, spec):
    for k in known.get("known", []):
        if k["property"] != pid:
            continue
        if k.get("kind") and k["kind"] != verdict["kind"]:
            continue
        if all(canon(spec.get(a)) == canon(b)
               for a, b in k.get("spec", {}).items()):
            return k
    return None


def _execute(check, spec):
    return check.execute(spec)


def minimise(check, spec, verdict, budget=60.0, unit_timeout=120):
    """greedy: accept any smaller spec with the same kind of violation"""
    t0 = time.monotonic()
    cur, curv, tried = spec, verdict, 0
    improved = True
    while improved and time.monotonic() - t0 < budget:
        improved = False
        for cand in check.shrink(cur):
            if time.monotonic() - t0 > budget:
                break
            tried += 1
            st, out = run_forked(_search, (check, cand, verdict["kind"]), unit_timeout)
            if st != "ok" or out is None:
                continue
            cur, curv = out
            improved = True
            break
    return cur, curv, tried


def _search(check, cand, kind):
    """a candidate may be a spec, or a ("search", spec) whose injection points
    have to be found again by the check"""
    out = check.research(cand, kind) if hasattr(check, "research") else None
    if out is not None:
        return out or None
    o = check.execute(cand)
    if o["violation"] and o["violation"]["kind"] == kind:
        return cand, o["violation"]
    return None


def replay(check, path):
    with open(path) as f:
        rec = json.load(f)
    check.setup()
    st, out = run_forked(_execute, (check, rec["spec"]), 600)
    if st != "ok":
        sys.stderr.write("replay failed: %s\n" % out)
        return 2
    print("replaying %s" % path)
    print("  recorded: %s" % canon(rec["verdict"])[:2000])
    print("  now     : %s" % canon(out["violation"])[:2000])
    print("  outcome digest recorded %s now %s%s" % (
        rec["digest"], digest(out), " (identical)" if rec["digest"] == digest(out) else ""))
    if out["violation"]:
        print("VIOLATION property=%s replay=%s" % (check.ID, path))
        return 1
    print("no violation")
    return 0


def run_check(check, tier, seed, workers=None, units=None, quiet=False):
    t0 = time.monotonic()
    check.setup()
    gc.collect()
    gc.freeze()
    workers = workers or int(os.environ.get("VERIF_WORKERS", 0)) or \
        min(8, len(os.sched_getaffinity(0)))
    n = units or check.UNITS[tier]
    tot = Result()
    digests = {}
    errors = []
    viol = []
    timeouts = []

    def on_result(key, res):
        st, out = res
        idx, again = key
        if st == "timeout":
            timeouts.append(idx)
            return
        if st != "ok":
            errors.append((idx, out))
            return
        if again:
            rechecks.append((idx, out["digest"] == digests.get(idx)))
            return
        digests[idx] = out["digest"]
        tot.evals += out["evals"]
        tot.steps += out["steps"]
        tot.nontrivial |= out["nontrivial"]
        tot.faults.update(out["faults"])
        tot.cov |= out["cov"]
        tot.notes.update(out["notes"])
        for k, v in out["maxima"].items():
            tot.maxima[k] = max(v, tot.maxima.get(k, v))
        samples[idx] = out["samples"]
        for s, v in out["violations"]:
            viol.append((idx, s, v))

    rechecks = []
    samples = {}
    limit = getattr(check, "UNIT_TIMEOUT", 240)
    stop_at = None if tier == "thorough" else t0 + WALL_STOP
    order = list(range(n))
    if hasattr(check, "order"):
        order = check.order(n)
    skipped = run_pool((((i, False), _unit, (check, seed, i, tier)) for i in order),
                       workers, limit, on_result, stop_at,
                       lambda: viol and tier == "quick" and time.monotonic() - t0 > 240)
    # determinism: the same seeds again, in other processes
    again = [i for i in order if i in digests]
    again = again[::max(1, len(again) // max(4, n // 40))][:max(4, n // 40)]
    if not skipped:
        run_pool((((i, True), _unit, (check, seed, i, tier)) for i in again),
                 workers, limit, on_result, stop_at)
    extra = {}
    if hasattr(check, "final"):
        # whole run comparisons (e.g. across interpreter configurations)
        extra = check.final(tot, viol, tier, seed, n, digests) or {}

    known = load_known()
    by_kind = {}
    seen_known = {}
    for idx, s, v in sorted(viol, key=lambda x: (x[0], canon(x[1]))):
        k = match_known(known, check.ID, v, s)
        if k:
            seen_known.setdefault(k["id"], (k, s))
            continue
        by_kind.setdefault(v["kind"], []).append((idx, s, v))
    for k in known.get("known", []):
        if k["property"] == check.ID:
            print("KNOWN-FINDING: property=%s %s%s" % (
                check.ID, k["what"],
                "" if k["id"] in seen_known else " (not reached in this run)"))

    for idx in timeouts:
        errors.append((idx, "unit %d exceeded its wall clock limit" % idx))

    rc = 0
    replays = []
    for kind, vs in sorted(by_kind.items(), key=lambda kv: -len(kv[1]))[:3]:
        idx, s, v = min(vs, key=lambda x: len(canon(x[1])))
        budget = 45.0 if tier == "quick" else 240.0
        try:
            ms, mv, tried = minimise(check, s, v, budget)
        except Exception:
            sys.stderr.write(traceback.format_exc())
            ms, mv, tried = s, v, 0
        st, out = run_forked(_execute, (check, ms), 600)
        repro = st == "ok" and bool(out["violation"])
        if not repro:
            # fall back to the spec as it was found
            ms, mv = s, v
            st, out = run_forked(_execute, (check, ms), 600)
            repro = st == "ok" and bool(out["violation"])
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (
            check.ID, digest([kind, ms])))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            json.dump(dict(property=check.ID, verdict=mv, spec=ms,
                           digest=digest(out) if st == "ok" else None,
                           seed=seed, unit=idx, tier=tier,
                           minimiser_tried=tried, reproduced=repro,
                           same_kind_violations=len(vs),
                           unminimised=s if ms != s else None),
                      f, indent=1, default=_default)
        print("VIOLATION property=%s replay=%s" % (check.ID, path))
        print("  %s: %s" % (mv["kind"], str(mv["detail"])[:600]))
        print("  seed=%s unit=%d, %d violations of this kind, replay %s" % (
            seed, idx, len(vs), "reproduces" if repro else "DOES NOT reproduce"))
        replays.append(path)
        rc = 1
    wall = time.monotonic() - t0
    allsamples = [x for i in sorted(samples) for x in samples[i]]
    step = max(1, len(allsamples) // 6)
    mism = [i for i, ok in rechecks if not ok]
    cov = dict(
        evaluations=tot.evals, distinct_nontrivial=len(tot.nontrivial),
        rule=check.RULE, samples=allsamples[::step][:6],
        seeds=len(digests), seeds_skipped_by_time=skipped,
        runs_per_hour=int(tot.evals / wall * 3600),
        seeds_per_hour=int(len(digests) / wall * 3600),
        simulated_steps=tot.steps,
        simulated_steps_unit=getattr(check, "STEP_UNIT", "library source lines executed under the simulator"),
        faults_fired=dict(sorted(tot.faults.items())),
        distinct_states=len(tot.cov),
        distinct_states_measure=check.COV_MEASURE,
        components_real=check.REAL, components_stub=check.STUB,
        determinism=dict(seeds_run_twice=len(rechecks), mismatches=len(mism)),
        notes=dict(sorted(tot.notes.items())),
        maxima=dict(sorted(tot.maxima.items())),
        workers=workers)
    cov.update(extra)
    ev = dict(property=check.ID, tier=tier, seed=seed, level="exploration",
              coverage=cov, assumptions=check.ASSUMPTIONS,
              wall_s=round(wall, 2), violations=sum(len(v) for v in by_kind.values()))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", check.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=_default)
    if mism:
        sys.stderr.write("WARNING: %d seeds did not repeat exactly: %s\n" % (len(mism), mism[:5]))
    print("%s %s: %d seeds, %d runs, %d distinct non-trivial, %d steps, faults %s, %.1fs%s" % (
        check.ID, tier, len(digests), tot.evals, len(tot.nontrivial), tot.steps,
        dict(tot.faults), wall, "" if rc == 0 else "  ** VIOLATED **"))
    if errors and rc == 0:
        sys.stderr.write("HARNESS ERROR in %d units\n" % len(errors))
        for idx, e in errors[:3]:
            sys.stderr.write("unit %s: %s\n" % (idx, e))
        return 2
    return rc
