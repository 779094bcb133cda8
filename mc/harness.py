# encoding: utf-8
"""
Exhaustive-exploration harness shared by every check.

A check module (checks/cNN.py) provides
    PID, LEVEL, TECH
    ASSUMPTIONS        list of strings
    def shards(tier)   -> list of picklable shard descriptors (simplest first)
    def run_shard(shard, tier, rep)   enumerates the shard completely, reporting into `rep`
    def replay(case, rep)             re-runs one recorded case
    RULE / explanation strings for the evidence

The parent process hands shards to worker processes (fork), merges their counters, writes
evidence/<PID>.json, prints VIOLATION / KNOWN-FINDING lines and chooses the exit status.

Nothing here samples: a shard is a finite set that the worker walks to the end.  A worker that stops
making progress (a non-terminating parse) is itself a violation: the case being run is kept in a shared
memory slot, and CPU time (not wall time) is what is limited, so a busy machine cannot raise an alarm.
"""
import collections
import json
import mmap
import multiprocessing
import multiprocessing.connection
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = int(os.environ.get("VERIF_NPROC", "0")) or min(8, os.cpu_count() or 1)
CASE_CPU_LIMIT = 20.0  # seconds of CPU for one execution of the code under test
SLOT = 1 << 16
MAX_KEPT = 20


class CaseTimeout(BaseException):
    pass


class Reporter(object):
    """collects what one shard did"""

    def __init__(self, slot=None):
        self.counts = collections.Counter()
        self.outcomes = collections.Counter()
        self.samples = []
        self.violations = []
        self.n_violations = 0
        self.known = collections.Counter()
        self.slot = slot
        self.fired = 0
        self.known_rules = []

    # -- guard around one execution -------------------------------------------------
    def begin(self, case, limit=CASE_CPU_LIMIT):
        self.current = case
        self.fired = 0
        signal.setitimer(signal.ITIMER_PROF, limit, 0.5)

    def end(self):
        signal.setitimer(signal.ITIMER_PROF, 0)

    def _alarm(self, signum, frame):
        self.fired += 1
        if self.fired > 6:
            # the code under test swallows our exception: report and leave
            self._write_slot()
            os._exit(77)
        raise CaseTimeout()

    def _write_slot(self):
        if self.slot is not None:
            data = repr(self.current).encode("utf8")[: SLOT - 16]
            self.slot.seek(0)
            self.slot.write(len(data).to_bytes(8, "little") + data)

    # -- reports ----------------------------------------------------------------------
    def add(self, name, n=1):
        self.counts[name] += n

    def outcome(self, key):
        self.outcomes[key] += 1

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(text)

    def violation(self, case, expected, got, note=""):
        for rule in self.known_rules:
            if rule(case):
                self.known[rule.label] += 1
                return
        self.n_violations += 1
        self.violations.append({
            "case": repr(case),
            "expected": repr(expected)[:2000],
            "got": repr(got)[:2000],
            "note": note,
        })
        if len(self.violations) > 4 * MAX_KEPT:
            self.violations.sort(key=lambda v: len(v["case"]))
            del self.violations[MAX_KEPT:]

    def dump(self):
        self.violations.sort(key=lambda v: len(v["case"]))
        return {
            "counts": dict(self.counts),
            "outcomes": dict(self.outcomes),
            "samples": self.samples,
            "violations": self.violations[:MAX_KEPT],
            "n_violations": self.n_violations,
            "known": dict(self.known),
        }


def load_known(pid):
    """
    known_findings.txt lines:
        known: property=Cnn case=<python literal> -- text
        fixed: property=Cnn <commit> <text>          (suppresses nothing)
    """
    path = os.path.join(VERIF, "known_findings.txt")
    rules = []
    if not os.path.exists(path):
        return rules
    with open(path, encoding="utf8") as f:
        for line in f:
            line = line.strip()
            if not line.startswith("known: property=%s " % pid):
                continue
            body = line.split(" ", 2)[2]
            case, _, text = body.partition(" -- ")
            case = case[len("case="):].strip()

            def rule(c, case=case):
                return repr(c) == case

            rule.label = text
            rules.append(rule)
    return rules


def _limits():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except Exception:
        pass


def _worker(conn, slot, module_name, tier):
    import gc
    import importlib

    _limits()
    gc.set_threshold(200000, 20, 100)
    try:
        mod = importlib.import_module(module_name)
        known = load_known(mod.PID)
        conn.send(("ready", None))
        while True:
            task = conn.recv()
            if task is None:
                return
            rep = Reporter(slot)
            rep.known_rules = known
            signal.signal(signal.SIGPROF, rep._alarm)
            try:
                mod.run_shard(task, tier, rep)
                rep.end()
            except CaseTimeout:
                rep.end()
                rep.violation(
                    getattr(rep, "current", None), "the call returns", "no answer",
                    note="more than %s s of CPU" % CASE_CPU_LIMIT,
                )
            except MemoryError:
                rep.end()
                rep.violation(
                    getattr(rep, "current", None), "the call returns", "MemoryError"
                )
            except Exception as cause:
                # never on a tree that holds: what the code under test gave can not even be observed
                rep.end()
                rep.known_rules = []
                rep.violation(
                    getattr(rep, "current", None),
                    "results that can be read",
                    repr(cause),
                    note=traceback.format_exc()[-1500:],
                )
            conn.send(("done", rep.dump()))
    except BaseException:
        try:
            conn.send(("crash", traceback.format_exc()))
        except Exception:
            pass
        os._exit(3)


def run_parallel(mod, module_name, tier, nproc):
    shards = list(mod.shards(tier))
    total = Reporter()
    problems = []
    ctx = multiprocessing.get_context("fork")
    workers = {}
    pending = collections.deque(shards)
    done = 0

    def spawn():
        slot = mmap.mmap(-1, SLOT)
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(b, slot, module_name, tier))
        p.start()
        b.close()
        workers[a] = (p, slot)

    for _ in range(max(1, min(nproc, len(shards)))):
        spawn()
    stop_early = False
    while workers:
        for conn in multiprocessing.connection.wait(list(workers)):
            p, slot = workers[conn]
            try:
                kind, data = conn.recv()
            except EOFError:
                p.join()
                del workers[conn]
                if p.exitcode == 77:
                    slot.seek(0)
                    n = int.from_bytes(slot.read(8), "little")
                    case = slot.read(n).decode("utf8", "replace")
                    total.n_violations += 1
                    total.violations.append({
                        "case": case,
                        "expected": "the call returns",
                        "got": "no answer (interrupts swallowed)",
                        "note": "",
                    })
                    stop_early = True
                elif p.exitcode != 0:
                    problems.append("worker ended with status %r" % p.exitcode)
                continue
            if kind == "crash":
                problems.append(data)
                p.join()
                del workers[conn]
                continue
            if kind == "done":
                done += 1
                total.counts.update(data["counts"])
                total.outcomes.update(data["outcomes"])
                total.known.update(data["known"])
                total.n_violations += data["n_violations"]
                total.violations.extend(data["violations"])
                if len(total.samples) < 6:
                    total.samples.extend(data["samples"][: 6 - len(total.samples)])
                if total.n_violations > 200:
                    stop_early = True
            if pending and not stop_early and not problems:
                conn.send(pending.popleft())
            else:
                conn.send(None)
                p.join()
                del workers[conn]
                conn.close()
    total.violations.sort(key=lambda v: (len(v["case"]), v["case"]))
    return total, problems, done, len(shards)


def no_import(module_name, trace):
    """
    the grammars of the check are made when it is imported: the library refused to make them
    """
    print(trace)
    if "mo_parsing" not in trace:
        return 2
    pid = module_name.split(".")[-1].upper()

    class Mod(object):
        PID = pid

    v = {
        "case": "'import'",
        "expected": "the grammars of the check can be made",
        "got": trace[-1500:],
        "note": "",
    }
    print("VIOLATION property=%s replay=%s" % (pid, write_replay(Mod, module_name, v, 0)))
    return 1


def write_replay(mod, module_name, v, n):
    folder = os.path.join(VERIF, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, "%s-%d.json" % (mod.PID, n))
    with open(path, "w") as f:
        json.dump(dict(property=mod.PID, module=module_name, **v), f, indent=1)
    return path


def main(module_name, argv):
    import importlib

    start = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in argv:
        if a in ("quick", "thorough"):
            tier = a
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        mod = importlib.import_module(module_name)
    except Exception:
        return no_import(module_name, traceback.format_exc())
    if "--replay" in argv:
        return do_replay(mod, argv[argv.index("--replay") + 1])
    total, problems, done, n_shards = run_parallel(mod, module_name, tier, NPROC)
    if problems and not total.n_violations:
        for p in problems:
            print(p)
        return 2

    coverage = {
        k: v for k, v in sorted(total.counts.items())
    }
    coverage["distinct_outcomes"] = len(total.outcomes)
    coverage["outcome_histogram"] = dict(total.outcomes.most_common(25))
    coverage["samples"] = total.samples or ["(none)"]
    coverage["rule"] = mod.RULE
    coverage["exhaustive"] = done == n_shards and not total.counts.get("cut_short")
    coverage["shards_completed"] = done
    coverage["shards_total"] = n_shards
    evidence = {
        "property": mod.PID,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": coverage,
        "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(time.time() - start, 3),
        "violations": total.n_violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", mod.PID + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write("\n")

    for label, n in sorted(total.known.items()):
        print("KNOWN-FINDING: property=%s %s" % (mod.PID, label))
    print(
        "%s %s: %s wall=%.1fs"
        % (mod.PID, tier, ", ".join("%s=%d" % i for i in sorted(total.counts.items())), time.time() - start)
    )
    if total.n_violations:
        for i, v in enumerate(total.violations[:5]):
            path = write_replay(mod, module_name, v, i)
            print("case: %s\n  expected: %s\n  got: %s %s" % (v["case"][:1500], v["expected"][:600], v["got"][:600], v["note"]))
            print("VIOLATION property=%s replay=%s" % (mod.PID, path))
        return 1
    if done != n_shards:
        print("not every shard was completed")
        return 2
    return 0


def do_replay(mod, path):
    import ast

    with open(path) as f:
        data = json.load(f)
    rep = Reporter()
    signal.signal(signal.SIGPROF, rep._alarm)
    case = ast.literal_eval(data["case"])
    try:
        if case != "import":
            mod.replay(case, rep)
    except CaseTimeout:
        rep.violation(case, "the call returns", "no answer")
    rep.end()
    for v in rep.violations:
        print("case: %(case)s\n  expected: %(expected)s\n  got: %(got)s %(note)s" % v)
    if rep.n_violations:
        print("VIOLATION property=%s replay=%s" % (mod.PID, path))
        return 1
    print("no violation")
    return 0
