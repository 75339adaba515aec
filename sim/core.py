"""
Simulator core: seeded plans, per-run isolation, recorded histories, shrinking.

One integer decides everything: run ``i`` of property ``P`` draws every choice
(workload, schedule, faults) from ``random.Random(H(VERIF_SEED, P, i))`` while
the *plan* is generated.  A plan is plain JSON; executing it is a pure function
of the plan and of the code under test.  The plan (minimised) is the replay
file.
"""
import hashlib
import json
import os
import random
import select
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HANG_S = float(os.environ.get("VERIF_HANG_S", "90"))


class Violation(Exception):
    """The property is broken: `cls` is the stable class of the failure."""

    def __init__(self, cls, msg=""):
        Exception.__init__(self, "%s: %s" % (cls, msg))
        self.cls = cls
        self.msg = msg


class Hang(BaseException):
    pass


def derive(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Log(object):
    """History of one simulated run.  Recording never draws randomness nor
    reads a clock."""

    def __init__(self, keep=False):
        self.h = hashlib.sha256()
        self.n = 0
        self.keep = keep
        self.lines = []
        self.faults = {}
        self.probes = {}
        self.sigs = set()
        self.simtime = 0.0
        self.violations = []
        self.nontrivial = False
        self.evals = 0

    def ev(self, *parts):
        line = " ".join(str(p) for p in parts)
        self.h.update(line.encode("utf-8", "replace") + b"\n")
        self.n += 1
        if self.keep:
            self.lines.append(line)
        elif len(self.lines) < 40:
            self.lines.append(line)

    def fault(self, kind, n=1):
        """A fault that actually fired."""
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        """A rare condition that was reached."""
        self.probes[name] = self.probes.get(name, 0) + n

    def sig(self, *parts):
        """Signature of a state / interleaving reached."""
        self.sigs.add(hashlib.md5(repr(parts).encode()).hexdigest()[:16])

    def violate(self, cls, msg=""):
        self.ev("VIOLATE", cls)
        self.violations.append((cls, str(msg)[:600]))

    def expect(self, cond, cls, msg=""):
        if not cond:
            self.violate(cls, msg() if callable(msg) else msg)
        return bool(cond)

    def digest(self):
        return self.h.hexdigest()[:24]


class Property(object):
    id = None
    level = "exploration"
    rule = ""
    runs = {"quick": 200, "thorough": 2000}
    wall = {"quick": 240.0, "thorough": 3000.0}
    real = []
    stub = []
    assumptions = []
    # lists of the plan that the minimiser may shorten
    shrink_lists = ("ops", "faults")
    # PYTHONHASHSEED-dependent histories are violations (not harness errors)
    hash_sensitive = True

    def setup(self):
        """Imports the code under test (once, in the parent)."""

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def execute(self, plan, log):
        raise NotImplementedError

    def simplify(self, plan):
        """Yields simpler variants of the plan."""
        return ()

    def describe(self, plan):
        return plan


# --------------------------------------------------------------------------
# classification of exceptions
# --------------------------------------------------------------------------
def in_repo(exc):
    """Does the traceback go through the code under test?"""
    tb = exc.__traceback__
    root = os.path.join(REPO, "IMTreatment")
    found = False
    last = ""
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        if last.startswith(root):
            found = True
        tb = tb.tb_next
    if last.startswith(HERE) and not isinstance(exc, OSError):
        return False          # raised by the simulator itself
    return found


def where(exc):
    """Innermost frame of the code under test (function name only, so that
    it survives line shifts)."""
    tb = exc.__traceback__
    root = os.path.join(REPO, "IMTreatment")
    last = "?"
    while tb is not None:
        co = tb.tb_frame.f_code
        if co.co_filename.startswith(root):
            last = co.co_qualname
        tb = tb.tb_next
    return last


def _alarm(signum, frame):
    raise Hang()


def execute_here(prop, plan, keep=False, hang=None):
    """Executes a plan in this process; returns a JSON-able result."""
    log = Log(keep)
    res = {"verdict": "ok"}
    hang = HANG_S if hang is None else hang
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, hang)
    try:
        prop.execute(plan, log)
    except Violation as e:
        log.violate(e.cls, e.msg)
    except Hang:
        log.violations.append(("no-progress",
                               "the run did not finish within %gs" % hang))
    except Exception as e:
        if in_repo(e):
            log.violate("unexpected-exception:%s:%s"
                        % (type(e).__name__, where(e)),
                        "%r ... %s" % (e, "".join(traceback.format_tb(
                            e.__traceback__))[-450:]))
        else:
            res["verdict"] = "error"
            res["error"] = traceback.format_exc()[-3000:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if log.violations and res["verdict"] == "ok":
        res["verdict"] = "violation"
    res.update(violations=log.violations, digest=log.digest(), n=log.n,
               faults=log.faults, probes=log.probes, sigs=sorted(log.sigs),
               simtime=log.simtime, nontrivial=log.nontrivial,
               evals=log.evals, lines=log.lines)
    return res


def fork_run(prop, plan, keep=False, hang=None):
    """Executes a plan in a forked child: nothing one run does can reach
    another one."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            res = execute_here(prop, plan, keep, hang)
            data = json.dumps(res).encode()
        except BaseException:
            data = json.dumps({"verdict": "error", "violations": [],
                               "error": traceback.format_exc()}).encode()
        try:
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + (HANG_S if hang is None else hang) * 2 + 30
    killed = False
    while True:
        rl, _, _ = select.select([r], [], [], 5.0)
        if rl:
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
        elif time.monotonic() > deadline:
            os.kill(pid, signal.SIGKILL)
            killed = True
            break
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if killed:
        return {"verdict": "violation",
                "violations": [["no-progress", "run killed: it could not be "
                                "interrupted"]],
                "digest": "", "n": 0, "faults": {}, "probes": {}, "sigs": [],
                "simtime": 0, "nontrivial": True, "evals": 0, "lines": []}
    try:
        return json.loads(b"".join(chunks).decode())
    except ValueError:
        return {"verdict": "error", "violations": [],
                "error": "run process died (status %s)" % status}


def plan_for(prop, seed, i, tier):
    rng = random.Random(derive(seed, prop.id, i))
    plan = prop.gen(rng, i, tier)
    # normalise through JSON so that a replayed plan is the very same value
    plan = json.loads(json.dumps(plan))
    plan["_run"] = i
    return plan


# --------------------------------------------------------------------------
# minimisation (ddmin on the lists of the plan + property specific rewrites)
# --------------------------------------------------------------------------
def minimise(prop, plan, cls, budget=40.0, max_tries=400):
    t0 = time.monotonic()
    tries = [0]

    def fails(cand):
        if time.monotonic() - t0 > budget or tries[0] >= max_tries:
            return False
        tries[0] += 1
        res = fork_run(prop, cand, hang=min(HANG_S, 30))
        return any(v[0] == cls for v in res["violations"])

    def clone(p):
        return json.loads(json.dumps(p))

    best = clone(plan)
    progress = True
    while progress and time.monotonic() - t0 < budget:
        progress = False
        for key in prop.shrink_lists:
            lst = best.get(key)
            if not isinstance(lst, list) or not lst:
                continue
            n = len(lst)
            size = n
            while size >= 1:
                i = 0
                while i < len(best[key]):
                    cand = clone(best)
                    del cand[key][i:i + size]
                    if fails(cand):
                        best = cand
                        progress = True
                    else:
                        i += size
                size //= 2
        changed = True
        while changed and time.monotonic() - t0 < budget:
            changed = False
            for cand in prop.simplify(clone(best)):
                if cand == best:
                    continue
                if fails(cand):
                    best = clone(cand)
                    changed = True
                    progress = True
                    break
    return best, tries[0]
