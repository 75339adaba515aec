"""C11: silencing the compiled code's output is undone in every case."""
import errno
import json
import os

from sim.core import Property


def table():
    """descriptor -> what it refers to (this process)."""
    out = {}
    for fd in os.listdir("/proc/self/fd"):
        try:
            st = os.fstat(int(fd))
        except OSError:
            continue          # the listing's own descriptor
        out[int(fd)] = (st.st_dev, st.st_ino, st.st_rdev)
    return out


class C11(Property):
    id = "C11"
    level = "fault_enumeration"
    runs = {"quick": 9000, "thorough": 60000}
    rule = ("A run enters and leaves 1-12 (possibly nested) silenced blocks, "
            "writing at descriptor level before, inside and after them; "
            "faults: the body raises or is interrupted, the n-th descriptor "
            "call of the entry fails (EMFILE, EINTR, EIO), a descriptor is "
            "closed before. Non-trivial: a fault fired or nesting occurred.")
    sig_measure = "distinct (nesting, fault, call number, outcome)"
    real = ["utils.RemoveFortranOutput", "kernel descriptors"]
    stub = ["os.open/os.dup/os.dup2 (fault injector)"]
    assumptions = ["one block object is not entered twice at the same time",
                   "descriptors 1 and 2 are open"]
    shrink_lists = ("ops",)

    def setup(self):
        global RFO
        from IMTreatment.utils import RemoveFortranOutput as RFO

    def gen(self, rng, i, tier):
        ops = []
        for _ in range(rng.randint(1, 12)):
            op = {"depth": rng.choice([1, 1, 1, 2, 3]),
                  "body": rng.choice(["ok", "ok", "raise", "interrupt",
                                      "return"]),
                  "reuse": rng.random() < .3}
            if rng.random() < .4:
                op["fault"] = [rng.randrange(14),
                               rng.choice(["EMFILE", "EIO", "EINTR"])]
            ops.append(op)
        return {"ops": ops}

    def execute(self, plan, log):
        # files of our own behind descriptors 1 and 2
        keep = os.dup(1), os.dup(2)
        fo, fe = os.memfd_create("out"), os.memfd_create("err")
        os.dup2(fo, 1)
        os.dup2(fe, 2)
        try:
            self._run(plan, log, fo, fe)
        finally:
            os.dup2(keep[0], 1)
            os.dup2(keep[1], 2)

    def _run(self, plan, log, fo, fe):
        shared = RFO()
        real = {n: getattr(os, n) for n in ("open", "dup", "dup2")}
        state = {"n": 0, "at": None, "err": None, "on": False}

        def wrap(name):
            def f(*a, **k):
                if state["on"]:
                    n = state["n"]
                    state["n"] += 1
                    if n == state["at"]:
                        log.fault(state["err"])
                        code = getattr(errno, state["err"])
                        raise OSError(code, os.strerror(code))
                return real[name](*a, **k)
            return f
        for k, op in enumerate(plan["ops"]):
            fault = op.get("fault")
            before = table()
            n0 = sum(log.faults.values())
            os.write(1, b"A%d " % k)
            os.write(2, b"A%d " % k)

            def body(level):
                # inside every block, the writes go nowhere
                os.write(1, b"HIDDEN")
                os.write(2, b"HIDDEN")
                if level < op["depth"]:
                    log.probe("nested")
                    block(level + 1)
                elif op["body"] == "raise":
                    log.fault("body_raises")
                    raise LookupError("body")
                elif op["body"] == "interrupt":
                    log.fault("body_interrupted")
                    raise KeyboardInterrupt("body")
                elif op["body"] == "return":
                    return
                os.write(1, b"HIDDEN")

            def block(level):
                m = shared if op["reuse"] and level == 1 else RFO()
                # faults only while entering
                state["on"] = True
                m.__enter__()
                state["on"] = False
                try:
                    body(level)
                except BaseException as e:
                    if not m.__exit__(type(e), e, e.__traceback__):
                        raise
                else:
                    m.__exit__(None, None, None)
            state.update(n=0, at=fault[0] if fault else None,
                         err=fault[1] if fault else None)
            os.open, os.dup, os.dup2 = wrap("open"), wrap("dup"), wrap("dup2")
            try:
                block(1)
                out = "ok"
            except (Exception, KeyboardInterrupt) as e:
                out = "OSError" if isinstance(e, OSError) \
                    else type(e).__name__
            finally:
                state["on"] = False
                os.open, os.dup = real["open"], real["dup"]
                os.dup2 = real["dup2"]
            fired = sum(log.faults.values()) > n0
            os.write(1, b"B%d " % k)
            os.write(2, b"B%d " % k)
            after = table()
            log.evals += 1
            log.sig(op["depth"], op["body"], fault, out)
            log.ev(k, op["depth"], op["body"], out, fired)
            if fired or op["depth"] > 1:
                log.nontrivial = True
            for fd, what in ((1, "stdout"), (2, "stderr")):
                log.expect(after.get(fd) == before[fd],
                           "output-not-restored:" + what, out)
            extra = sorted(set(after) - set(before))
            lost = sorted(set(before) - set(after))
            log.expect(not extra, "descriptor-leak", "%s after %s" % (extra,
                                                                      out))
            log.expect(not lost, "descriptor-lost", "%s after %s" % (lost,
                                                                     out))
            want = {"ok": "ok", "return": "ok", "raise": "LookupError",
                    "interrupt": "KeyboardInterrupt"}[op["body"]]
            if out != want:
                log.expect(out == "OSError" and fault and fired,
                           "wrong-outcome", "%s instead of %s" % (out, want))
            if log.violations:
                return
        want = b"".join(b"A%d B%d " % (k, k) for k in
                        range(len(plan["ops"])))
        for fd, what in ((fo, "stdout"), (fe, "stderr")):
            os.lseek(fd, 0, 0)
            got = os.read(fd, 1 << 16)
            log.expect(got == want, "output-lost-or-not-hidden:" + what,
                       lambda: "%r" % got)

    def simplify(self, plan):
        for k, op in enumerate(plan["ops"]):
            for key, v in (("fault", None), ("depth", 1), ("body", "ok"),
                           ("reuse", False)):
                if op.get(key, v) != v:
                    p = json.loads(json.dumps(plan))
                    if v is None:
                        p["ops"][k].pop(key)
                    else:
                        p["ops"][k][key] = v
                    yield p


PROPERTY = C11()
