"""C04: a function memoized to a file answers like the function itself."""
import os
import shutil
import json

from sim.core import Property, where, in_repo
from sim import simfs


class C04(Property):
    id = "C04"
    level = "fault_enumeration"
    runs = {"quick": 1800, "thorough": 20000}
    rule = ("A run is a random history of calls to a memoized pure function "
            "through several decorated handles (processes) sharing one cache "
            "file, over process lives; callers alter the results they got; "
            "faults: kill / ENOSPC / EIO / interrupt / short write inside the "
            "cache write, another process using the cache in the middle of "
            "it, stored bytes damaged or the file removed at rest. "
            "Non-trivial: a fault fired or a result came from the cache.")
    sig_measure = "distinct (event, fault kind, I/O step, cache state)"
    real = ["utils.memoize_to_file", "gzip", "pickle", "process death"]
    stub = ["raw file objects (fault injector)", "the storage medium"]
    assumptions = ["each function has a cache file of its own", "arguments "
                   "and results can be pickled", "process crash, not power "
                   "loss"]
    shrink_lists = ("ops",)

    def setup(self):
        global objs, dig, memo
        from sim import objs
        from sim.observe import dig
        from IMTreatment.utils import memoize_to_file as memo

    def gen(self, rng, i, tier):
        ops = []
        faulty = rng.random() < .7
        nargs = rng.randint(1, 4)
        nh = rng.randint(1, 3)
        ops.append({"op": "decorate", "h": 0})
        for _ in range(rng.randint(4, 14)):
            r = rng.random()
            if r < .62:
                op = {"op": "call", "h": rng.randrange(nh),
                      "a": rng.randrange(nargs), "kw": rng.random() < .3,
                      "alter": rng.random() < .3}
                if faulty and rng.random() < .35:
                    op["fault"] = [round(rng.random(), 3), rng.choice(
                        ["crash", "crash", "enospc", "eio", "interrupt",
                         "short", "reader", "linecrash", "lineint"]),
                        rng.choice([0., .4, 1.])]
                ops.append(op)
            elif r < .75:
                ops.append({"op": "decorate", "h": rng.randrange(nh)})
            elif r < .85:
                ops.append({"op": "restart"})
            elif faulty:
                ops.append({"op": "damage", "how": rng.choice(
                    ["flip", "flip", "trunc", "trunc", "empty", "delete",
                     "zero", "garbage", "flip_tail"]),
                    "u": round(rng.random(), 5), "bit": rng.randrange(8)})
        return {"ops": ops, "seed": rng.randrange(1 << 20), "nargs": nargs,
                "samel": rng.random() < .5,
                "kind": rng.choice(["array", "dict", "SF", "list", "mixed",
                                    "raises"])}

    def args(self, plan, a):
        """Few arguments, some nearly equal."""
        import numpy as np
        big = np.arange(3000.)
        big2 = big.copy()
        big2[1500 + a] = -1.
        base = [1, 1.0, True, "1", (1,), np.array([1.0]), np.array([1]),
                np.array([1.0, 2.0]), big, big2, 10**20, 1e20, (1, 2), [1, 2],
                objs.build({"kind": "PTS", "seed": 4, "n": 3 + a % 2,
                            "ux": "m", "uy": "m", "uv": "s"}), "x"]
        return (base[(plan["seed"] + a) % len(base)],
                [a if plan["samel"] is False else 0, {"k": plan["seed"]}])

    def body(self, plan, x, lst, opt=0):
        """The pure function (answers encode the type and the value)."""
        import numpy as np
        kind = plan["kind"]
        a = lst[0]
        if kind == "mixed":
            kind = ["array", "dict", "SF", "list"][a % 4]
        tag = "%s|%s|%s|%s" % (type(x).__name__, dig(x), a, opt)
        n = sum((i + 1)*ord(c) for i, c in enumerate(tag))
        if kind == "raises" and a == 1:
            raise LookupError(tag)
        if kind == "array":
            return np.arange(6.) * n + a
        if kind == "SF":
            return objs.build(objs.gen_spec(__import__("random").Random(n),
                                            "SF"))
        if kind == "list":
            return [tag, [n, a], None]
        return {"tag": tag, "arr": np.ones((4, 3)) * n, "l": [a, n]}

    def execute(self, plan, log):
        root = simfs.scratch()
        try:
            self._run(plan, log, root)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def _run(self, plan, log, root):
        data = os.path.join(root, "data")
        os.makedirs(data)
        lives = [[]]
        for k, op in enumerate(plan["ops"]):
            if op["op"] == "restart":
                lives.append([])
            else:
                lives[-1].append((k, op))
        n = len(plan["ops"])
        lives.append([(n, {"op": "decorate", "h": 0})] + [
            (n + 1 + a, {"op": "call", "h": 0, "a": a, "kw": False})
            for a in range(plan["nargs"])])
        # file model: set of keys persisted, or None when unknown
        state = {"file": []}
        while lives:
            ops = lives.pop(0)
            if not ops:
                continue

            def one(report, sub, die, ops=ops):
                self._life(plan, data, ops, report, sub, die, state["file"])
            msgs, crashed = simfs.life(one, log)
            started = set()
            for m in msgs:
                if m[0] == "start":
                    started.add(m[1])
                elif m[0] == "file":
                    state["file"] = m[1]
            if crashed:
                state["file"] = None
                rest = [(k, o) for k, o in ops if k not in started]
                if rest:
                    lives.insert(0, rest)
        if log.faults or log.probes.get("answered_from_cache"):
            log.nontrivial = True

    def _life(self, plan, data, ops, report, sub, die, filekeys):
        f = os.path.join(data, "cache.gz")
        handles = {}       # h -> [function, keys known (or None)]
        calls = []
        from sim.lines import LineSteps, count_lines

        def plain(x, lst, opt=0):
            calls.append(1)
            return self.body(plan, x, lst, opt)

        def decorate(h):
            fn = memo(f)(plain)
            handles[h] = [fn, None if filekeys is None else set(filekeys),
                          set()]

        def setfile(v):
            nonlocal filekeys
            filekeys = v
            report("file", v)
        fs = simfs.SimFS(data, sub)
        fs.on_crash = die
        for k, op in ops:
            report("start", k)
            if op["op"] == "damage":
                if not os.path.exists(f):
                    continue
                with open(f, "rb") as fh:
                    b = bytearray(fh.read())
                if len(b) > 8:
                    b[4:8] = b"\0\0\0\0"
                self.hurt(b, op)
                if op["how"] == "delete":
                    os.remove(f)
                else:
                    with open(f, "wb") as fh:
                        fh.write(bytes(b))
                sub.fault("damage_" + op["how"])
                setfile(None)
                continue
            if op["op"] == "decorate" or op["h"] not in handles:
                try:
                    with fs:
                        fs.set_faults([])
                        decorate(op["h"])
                except Exception as e:
                    sub.violate("cannot-memoize:" + type(e).__name__,
                                "decorating raised %r" % e)
                    sub.ev("decorate failed")
                    return
                if op["op"] == "decorate":
                    sub.ev(k, "decorate", op["h"])
                    continue
            h = handles[op["h"]]
            args = self.args(plan, op["a"])
            kw = {"opt": 1} if op["kw"] else {}
            key = "%s/%s" % (op["a"], int(bool(op["kw"])))
            try:
                want = ("ok", dig(self.body(plan, *args, **kw)))
            except LookupError as e:
                want = ("err", "LookupError")
            fault = op.get("fault")
            fs.set_faults([])
            line_at = None
            if fault:
                if fault[1] in ("linecrash", "lineint"):
                    line_at = int(fault[0] * 12)
                else:
                    # open, writes, close of the cache file
                    at = int(fault[0] * 8)
                    fs.set_faults([[at, fault[1], fault[2]]])
                    sub.sig("call", fault[1], at, filekeys is None)

            def reader():
                # another process uses the cache in the middle of the write
                fs.__exit__()
                try:
                    def rd(rep, sub2, die2):
                        try:
                            g = memo(f)(lambda x, lst, opt=0:
                                        self.body(plan, x, lst, opt))
                            rep("ok", dig(g(*self.args(plan, op["a"]),
                                            **kw)))
                        except Exception as e:
                            rep("err", type(e).__name__)
                    (m,), _ = simfs.life(rd, sub)
                finally:
                    fs.__enter__()
                sub.fault("other_process")
                sub.expect(tuple(m) == want, "wrong-answer-in-other-process",
                           "%s != %s" % (m, want))
                setfile(None)
            fs.reader = reader

            def act(j, frame):
                if j == line_at:
                    if fault[1] == "linecrash":
                        sub.fault("crash_at_line")
                        die()
                    sub.fault("interrupt_at_line")
                    raise KeyboardInterrupt("injected")
            del calls[:]
            n0 = sum(sub.faults.values())
            try:
                with fs:
                    if line_at is not None:
                        with LineSteps(act):
                            res = h[0](*args, **kw)
                    else:
                        res = h[0](*args, **kw)
                got = ("ok", dig(res))
            except (Exception, KeyboardInterrupt) as e:
                got = ("err", type(e).__name__)
                res = None
            ran = len(calls)
            fired = (sum(sub.faults.values()) > n0
                     and fault[1] not in ("short", "reader"))
            sub.evals += 1
            sub.ev(k, "call", op["h"], key, got, "ran", ran)
            if got != want:
                if got[0] == "ok":
                    sub.violate("wrong-answer", "call %d: %s instead of %s"
                                % (k, got, want))
                elif not fired:
                    sub.violate("call-failed:" + got[1],
                                "call %d failed though nothing failed during "
                                "it" % k)
            if got[0] == "ok":
                if not ran:
                    sub.probe("answered_from_cache")
                sub.expect(ran <= 1, "function-executed-twice", key)
                if (key in h[2] or (h[1] is not None and key in h[1])) \
                        and want[0] == "ok":
                    sub.expect(ran == 0, "result-computed-again",
                               "%s was already memoized" % key)
                h[2].add(key)
                if fired and ran:
                    setfile(None)
                elif ran and h[1] is not None:
                    setfile(sorted(h[1] | h[2]))
                elif ran:
                    setfile(sorted(h[2]) if h[1] is not None else None)
                if filekeys is not None:
                    sub.sig(sorted(filekeys), key, ran)
            elif fired:
                setfile(None)
                if h[1] is not None:
                    # whether this handle kept the result is its own affair
                    pass
            if op.get("alter") and res is not None:
                self.alter(res)
                sub.probe("caller_altered_a_result")

    @staticmethod
    def hurt(b, op):
        n = len(b)
        a = min(n - 1, int(op["u"] * n)) if n else 0
        how = op["how"]
        if how == "flip" and n:
            b[a] ^= 1 << op["bit"]
        elif how == "flip_tail" and n:
            b[n - 1 - min(n - 1, int(op["u"] * 8))] ^= 1 << op["bit"]
        elif how == "trunc":
            del b[a:]
        elif how == "empty":
            del b[:]
        elif how == "zero":
            b[a:] = bytes(n - a)
        elif how == "garbage":
            b[:] = bytes((i * 37 + 11) % 256 for i in range(60))

    @staticmethod
    def alter(res):
        import numpy as np
        if isinstance(res, np.ndarray):
            res[...] = -7.
        elif isinstance(res, dict):
            res["arr"][...] = -7.
            res["tag"] = "altered"
        elif isinstance(res, list):
            res[1][0] = "altered"
            res.append("altered")
        else:
            res.values[0, 0] = -777.
            res.set_origin(res.axe_x[1], res.axe_y[1])

    def simplify(self, plan):
        for k, op in enumerate(plan["ops"]):
            for key in ("fault", "alter", "kw"):
                if op.get(key):
                    p = json.loads(json.dumps(plan))
                    if key == "kw":
                        p["ops"][k][key] = False
                    else:
                        p["ops"][k].pop(key)
                    yield p


PROPERTY = C04()
