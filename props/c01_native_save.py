"""C01: a native save is all-or-nothing, and durable once acknowledged."""
import os
import shutil

from sim.core import Property
from sim import simfs


class C01(Property):
    id = "C01"
    level = "fault_enumeration"
    runs = {"quick": 1500, "thorough": 12000}
    rule = ("A run is a random history of saves and loads of random objects "
            "into few files of both native formats, over several process "
            "lives; each save or load may meet a kill, an I/O error (ENOSPC, "
            "EIO), an interrupt, short reads/writes, or a reader or a writer "
            "of the same file in another process, at a random I/O step or code line inside it. "
            "Non-trivial: at least one fault fired inside a save or load.")
    sig_measure = ("distinct (operation, format, fault kind, I/O step at "
                   "which it fired, previous content present, outcome)")
    real = ["file_operation.export_to_file/import_from_file", "core data "
            "classes", "pickle", "gzip", "kernel file system (scratch dir)",
            "real process death (os._exit in a forked life)"]
    stub = ["raw file objects and os.replace/rename/remove/mkdir are wrapped "
            "by the fault injector"]
    assumptions = ["process crash, not power loss: bytes handed to the "
                   "kernel survive", "equality is equality of all public "
                   "attributes, bit for bit (NaN equal NaN)"]
    shrink_lists = ("ops",)

    def setup(self):
        global objs, dig, imtio
        from sim import objs
        from sim.observe import dig
        from IMTreatment import file_operation as imtio

    # -- workload ------------------------------------------------------------
    NAMES = ["a", "b.cimt", "c.imt", "run.1", "sub/d", "a.imt", "long name",
             "via", "sub/real"]

    def gen(self, rng, i, tier):
        nobj = rng.randint(2, 4)
        specs = []
        for _ in range(nobj):
            k = rng.choice(objs.KINDS + ["LIT"] * 4)
            specs.append(objs.gen_spec(rng, k))
        files = [(rng.choice(self.NAMES), rng.choice("cu"))
                 for _ in range(rng.choice([1, 1, 2, 3]))]
        faulty = rng.random() < .8
        ops = []
        for _ in range(rng.randint(3, 9)):
            r = rng.random()
            if r < .12:
                ops.append({"op": "restart"})
                continue
            name, fmt = rng.choice(files)
            op = {"op": "save" if r < .62 else "load", "name": name,
                  "fmt": fmt, "rel": rng.random() < .3}
            if op["op"] == "save":
                op["obj"] = -1 if rng.random() < .08 else rng.randrange(nobj)
            if faulty and rng.random() < .5:
                kinds = (["crash"] * 4 + ["enospc", "eio", "eio", "interrupt",
                                          "short", "reader", "writer",
                                          "writer", "linecrash",
                                          "lineint"]
                         if op["op"] == "save" else
                         ["eio", "interrupt", "short", "crash", "lineint"])
                op["fault"] = [round(rng.random(), 4), rng.choice(kinds),
                               rng.choice([0., 0., .3, .7, 1.])]
                if op["fault"][1] == "writer":
                    op["obj2"] = rng.randrange(nobj)
            ops.append(op)
        return {"specs": specs, "ops": ops}

    def simplify(self, plan):
        import json
        for k, op in enumerate(plan["ops"]):
            if op.get("fault"):
                p = json.loads(json.dumps(plan))
                p["ops"][k].pop("fault")
                yield p
        for k, s in enumerate(plan["specs"]):
            if s["kind"] != "LIT" or s["n"] > 1:
                p = json.loads(json.dumps(plan))
                p["specs"][k] = {"kind": "LIT", "seed": 2 + 8 * k, "n": 1}
                yield p

    @staticmethod
    def target(op):
        ext = ".cimt" if op["fmt"] == "c" else ".imt"
        # (a link is the file it leads to)
        name = op["name"] if op["name"] != "via" else "sub/real"
        return name if os.path.splitext(name)[1] == ext else name + ext

    @staticmethod
    def harmless(op):
        return not op.get("fault") or op["fault"][1] in ("short", "reader",
                                                        "writer")

    # -- execution -----------------------------------------------------------
    def execute(self, plan, log):
        root = simfs.scratch()
        try:
            self._run(plan, log, root)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def _obj(self, plan, j):
        if j == -1:
            import numpy as np
            return {"head": np.arange(4000.), "bad": (lambda: None)}
        return objs.build(plan["specs"][j])

    def _run(self, plan, log, root):
        data = os.path.join(root, "data")
        side = os.path.join(root, "side")
        for d in (data, side):
            os.makedirs(os.path.join(d, "sub"))
        for e in (".cimt", ".imt"):
            os.symlink(os.path.join("sub", "real" + e),
                       os.path.join(data, "via" + e))
        want = {j: dig(self._obj(plan, j)) for j in range(len(plan["specs"]))}
        model = {}          # file -> set of admissible digests (None: absent)
        lives = [[]]
        for k, op in enumerate(plan["ops"]):
            if op["op"] == "restart":
                lives.append([])
            else:
                lives[-1].append((k, op))
        # last life: everything is read back without faults
        final = [(len(plan["ops"]) + n, {"op": "load", "name": op["name"],
                                         "fmt": op["fmt"]})
                 for n, op in enumerate(plan["ops"]) if "name" in op]
        lives.append(final)
        while lives:
            ops = lives.pop(0)
            if not ops:
                continue

            def one(report, sub, die, ops=ops):
                self._life(plan, data, side, ops, report, sub, die, model,
                           want)
            msgs, crashed = simfs.life(one, log)
            done = set()
            started = set()
            wrote = {}
            by = dict(ops)
            for m in msgs:
                k = m[1]
                op = by[k]
                f = self.target(op)
                cur = model.setdefault(f, {None})
                if m[0] == "start":
                    started.add(k)
                    continue
                if m[0] == "wrote":
                    # another process saved to the same file meanwhile
                    log.ev(k, "other writer", f, m[2], m[3])
                    log.expect(m[2] == "ok", "fault-free-save-failed:"
                               + m[3], f)
                    wrote[k] = {want[op["obj2"]]}
                    model[f] = {want[op["obj2"]]}
                    continue
                done.add(k)
                what, val = m[2], m[3]
                log.evals += 1
                log.ev(k, op["op"], f, what, val if what == "ok" else "")
                if op["op"] == "save":
                    if what == "ok":
                        if op["obj"] == -1:
                            log.violate("unsavable-object-acknowledged", f)
                            model[f] = cur | {None}
                        else:
                            model[f] = {want[op["obj"]]} | wrote.get(
                                k, set())
                    elif op["obj"] != -1:
                        model[f] = cur | {want[op["obj"]]}
                        if self.harmless(op):
                            log.violate("fault-free-save-failed:" + val, f)
                else:
                    if what == "ok":
                        if val not in cur:
                            log.violate(
                                "load-returned-wrong-data",
                                "%s: got %s, admissible %s" % (f, val, cur))
                        model[f] = {val}
                    elif self.harmless(op):
                        if None not in cur:
                            log.violate(
                                "saved-data-lost",
                                "%s: load failed with %s, admissible %s"
                                % (f, val, sorted(map(str, cur))))
                        else:
                            model[f] = {None}
                        log.probe("load_of_absent_file")
            if crashed:
                for k in started - done:
                    op = by[k]
                    f = self.target(op)
                    log.ev(k, op["op"], f, "crashed")
                    if op["op"] == "save" and op["obj"] != -1:
                        model[f] = model.setdefault(f, {None}) | {
                            want[op["obj"]]}
                # the rest of the operations go on in a new life
                rest = [(k, o) for k, o in ops if k not in started]
                if rest:
                    lives.insert(0, rest)
        if log.faults:
            log.nontrivial = True

    def _life(self, plan, data, side, ops, report, sub, die, model, want):
        os.chdir(data)
        fs = simfs.SimFS(data, sub)
        fs.on_crash = die
        local = {f: set(v) for f, v in model.items()}
        from sim.lines import LineSteps, count_lines
        for k, op in ops:
            path = op["name"] if op.get("rel") else os.path.join(data,
                                                                op["name"])
            comp = op["fmt"] == "c"
            tgt = os.path.join(data, self.target(op))
            obj = self._obj(plan, op["obj"]) if op["op"] == "save" else None
            before = dig(obj) if op["op"] == "save" and op["obj"] != -1 \
                else None

            def call(path=path, obj=obj, op=op, comp=comp):
                if op["op"] == "save":
                    imtio.export_to_file(obj, path, compressed=comp)
                    return None
                return imtio.import_from_file(
                    path if os.path.splitext(path)[1] ==
                    (".cimt" if comp else ".imt") else
                    path + (".cimt" if comp else ".imt"))
            fault = op.get("fault")
            line_at = None
            fs.set_faults([])
            if fault:
                n = self._calibrate(op, obj, data, side, comp, fault[1], tgt,
                                    sub)
                at = min(n - 1, int(fault[0] * n)) if n else 0
                if fault[1] in ("linecrash", "lineint"):
                    line_at = at
                else:
                    fs.set_faults([[at, "reader" if fault[1] == "writer"
                                    else fault[1], fault[2]]])
                sub.sig(op["op"], op["fmt"], fault[1], at,
                        os.path.exists(tgt))

            def reader(tgt=tgt, op=op):
                def rd(report2, sub2, die2):
                    try:
                        report2("ok", dig(imtio.import_from_file(tgt)))
                    except Exception as e:
                        report2("err", type(e).__name__)
                fs.__exit__()
                try:
                    m, _ = simfs.life(rd, sub)
                finally:
                    fs.__enter__()
                sub.fault("reader")
                cur = set(local.get(self.target(op), {None}))
                if op["obj"] != -1:
                    cur = cur | {want[op["obj"]]}
                if m[0][0] == "ok":
                    sub.expect(m[0][1] in cur, "reader-saw-wrong-data",
                               self.target(op))
                else:
                    sub.expect(None in cur, "reader-found-no-data",
                               "%s unreadable while being saved again (%s)"
                               % (self.target(op), m[0][1]))

            def writer(op=op, path=path, comp=comp, k=k):
                def wr(report2, sub2, die2):
                    try:
                        imtio.export_to_file(self._obj(plan, op["obj2"]),
                                             path, compressed=comp)
                        report2("ok", "")
                    except Exception as e:
                        report2("err", type(e).__name__)
                fs.__exit__()
                try:
                    m, _ = simfs.life(wr, sub)
                finally:
                    fs.__enter__()
                sub.fault("writer")
                report("wrote", k, *m[0])
                local[self.target(op)] = {want[op["obj2"]]}
            fs.reader = writer if fault and fault[1] == "writer" else reader

            def act(j, frame, fault=fault, line_at=line_at):
                if j == line_at:
                    if fault[1] == "linecrash":
                        sub.fault("crash_at_line")
                        die()
                    sub.fault("interrupt_at_line")
                    raise KeyboardInterrupt("injected")
            report("start", k)
            try:
                with fs:
                    if line_at is not None:
                        with LineSteps(act):
                            res = call()
                    else:
                        res = call()
                out = ("ok", dig(res) if op["op"] == "load" else "")
            except (Exception, KeyboardInterrupt) as e:
                out = ("err", type(e).__name__)
                del e
            if before is not None:
                sub.expect(dig(obj) == before, "save-altered-the-object",
                           op["name"])
            cur = local.setdefault(self.target(op), {None})
            if op["op"] == "save" and op["obj"] != -1:
                new = {want[op["obj"]]}
                if fault and fault[1] == "writer":
                    new = new | {want[op["obj2"]]}
                local[self.target(op)] = new if out[0] == "ok" else cur | new
            report("ack", k, *out)

    def _calibrate(self, op, obj, data, side, comp, kind, tgt, sub):
        """Number of I/O steps (or lines) of the operation, measured on a
        side copy."""
        from sim.core import Log
        from sim.lines import count_lines
        t2 = os.path.join(side, self.target(op))
        if os.path.exists(tgt):
            shutil.copyfile(tgt, t2)
        elif os.path.exists(t2):
            os.remove(t2)
        fs = simfs.SimFS(side, Log())

        def call():
            try:
                if op["op"] == "save":
                    imtio.export_to_file(obj, os.path.join(side, op["name"]),
                                         compressed=comp)
                else:
                    imtio.import_from_file(t2)
            except Exception:
                pass
        if kind in ("linecrash", "lineint"):
            return count_lines(call)
        with fs:
            call()
        return fs.nstep


PROPERTY = C01()
