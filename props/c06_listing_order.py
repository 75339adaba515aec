"""C06: what a folder import gives depends on the files, not on the order in
which the file system lists them."""
import builtins
import contextlib
import io
import json
import os
import random
import shutil

from sim.core import Property, Violation
from sim import simfs

KINDS = {"concat": ["TSF", "SSF", "TVF", "SVF"], "im7s": ["TSF", "SSF"],
         "vc7s": ["TVF", "SVF"], "im7_to_imt": ["SF", "TSF", "SSF"],
         "vc7_to_imt": ["VF", "TVF", "SVF"], "pics": ["TSF"],
         "ascii": ["TVF", "SVF"], "find": ["-"]}


class C06(Property):
    id = "C06"
    level = "exploration"
    runs = {"quick": 8000, "thorough": 60000}
    rule = ("A run fills folders with 0-24 data files under drawn names "
            "(plus unrelated files, folders and files of another kind) and "
            "imports, converts or searches them, each time under the sorted "
            "and two drawn enumeration orders of every directory; then once "
            "more with a read error, or with another process removing or "
            "adding a file, at a drawn read. Every file holds an identifying "
            "value. Non-trivial: at least two matching files, or a fault "
            "fired.")
    sig_measure = ("distinct (operation, kind, number of files, permutation "
                   "digest, fault, outcome)")
    real = ["file_operation (imts_to_imt, import_from_IM7s/VC7s/pictures, "
            "IM7_to_imt, VC7_to_imt, import_vfs_from_ascii, "
            "find_file_in_path)", "glob, os.walk, imageio, numpy.genfromtxt",
            "TemporalFields/SpatialFields.add_field"]
    stub = ["os.scandir/os.listdir order", "raw file reads (fault injector)",
            "ReadIM (JSON files)", "input()"]
    assumptions = ["directory listings themselves do not fail (glob hides "
                   "such errors)"]
    shrink_lists = ("names", "other")

    def setup(self):
        global objs, imtio, np, imageio, fakereadim, dig, IMT
        from sim import objs, fakereadim
        from sim.observe import dig
        from IMTreatment.file_operation import file_operation as imtio
        import IMTreatment as IMT
        import numpy as np
        import imageio
        import PIL.Image
        PIL.Image.init()
        fakereadim.install()

    def gen(self, rng, i, tier):
        op = rng.choice(["concat", "concat", "im7s", "im7s", "vc7s",
                         "im7_to_imt", "vc7_to_imt", "pics", "ascii",
                         "find"])
        kind = rng.choice(KINDS[op])
        n = rng.choice([1, 2, 3, 3, 4, 5, 6, 8, 20, 24]) \
            if op != "find" else rng.randint(0, 6)
        style = rng.choice(["num", "num0", "word", "mixed"])
        names = set()
        while len(names) < n:
            k = rng.randrange(200)
            names.add({"num": "B%d" % k, "num0": "B%05d" % k,
                       "word": rng.choice("abcdxyzABC") + "%d" % (k % 50),
                       "mixed": rng.choice(["B", "b", "_", "run "])
                       + str(k)}[style])
        names = sorted(names)
        rng.shuffle(names)
        nested = op in ("im7s", "vc7s", "find") and rng.random() < .6
        where = rng.sample(["r1", "r2", "r2/deep", "a/b/c", "zz", "r10"],
                           rng.randint(1, 4)) if nested else [""]
        plan = {"op": op, "kind": kind, "names": names, "nested": nested,
                "where": where, "perm": rng.randrange(1 << 30),
                "answer": rng.randrange(4), "upper": rng.random() < .2,
                "other": rng.sample(["notes.txt", "sub/", "x.png", "dat",
                                     "strange.cimt", "empty/none/"],
                                    rng.randint(0, 3)),
                "incr": rng.choice([1, 1, 1, 2, 3]),
                "rng": rng.random() < .4,
                "a": rng.random(), "b": rng.random(),
                "times": rng.random() < .4,
                "compressed": rng.random() < .5,
                "dt": rng.random() < .6}
        if rng.random() < .4 and op != "find":
            plan["fault"] = [rng.randrange(12), rng.choice(
                ["eio", "eio", "interrupt", "vanish", "appear", "short"]),
                rng.randrange(1 << 10)]
        return plan

    # -- files ---------------------------------------------------------------
    def put(self, plan, d, name, ident):
        op, kind = plan["op"], plan["kind"]
        v = float(ident)
        if op == "concat":
            ax, ay = np.arange(3.), np.arange(4.)
            if kind in ("TSF", "SSF"):
                f = IMT.ScalarField()
                f.import_from_arrays(ax, ay, np.full((3, 4), v))
            else:
                f = IMT.VectorField()
                f.import_from_arrays(ax, ay, np.full((3, 4), v),
                                     np.full((3, 4), -v))
            imtio.export_to_file(f, d + "/" + name,
                                 compressed=plan["compressed"])
            return name + (".cimt" if plan["compressed"] else ".imt")
        if op in ("im7s", "im7_to_imt"):
            ext = ".IM7" if plan["upper"] else ".im7"
            txt = fakereadim.im7([[v]*3]*2, dt="0.5 s" if plan["dt"]
                                 else None)
        elif op in ("vc7s", "vc7_to_imt"):
            ext = ".VC7" if plan["upper"] else ".vc7"
            txt = fakereadim.vc7([[v]*3]*2, [[v + .5]*3]*2,
                                 dt="0.5 s" if plan["dt"] else None)
        elif op == "pics":
            imageio.imwrite(d + "/" + name + ".png",
                            np.full((3, 4), int(ident), dtype="uint8"))
            return name + ".png"
        elif op == "ascii":
            ext = ".txt"
            txt = "".join("%g\t%g\t%g\t%g\n" % (x, y, v, -v)
                          for x in range(2) for y in range(3))
        else:
            ext, txt = ".dat", "x"
        with open(d + "/" + name + ext, "w") as fh:
            fh.write(txt)
        return name + ext

    def fill(self, plan, d):
        """Creates the input; returns folder -> [(file name, ident)]."""
        res = {}
        names = list(plan["names"])
        if plan["op"] == "ascii":
            # one length, as the function wants it
            names = ["%-8s" % n for n in names]
            names = [n.replace(" ", "_") for n in names]
        folders = plan["where"]
        for w in folders:
            os.makedirs(os.path.join(d, w), exist_ok=True)
            res.setdefault(w, [])
        for k, n in enumerate(names):
            w = folders[k % len(folders)]
            fn = self.put(plan, os.path.join(d, w), n, k + 1)
            res[w].append((fn, k + 1))
        for o in plan["other"]:
            if o.endswith("/"):
                os.makedirs(os.path.join(d, o), exist_ok=True)
            elif o == "x.png" and plan["op"] == "pics":
                pass
            elif o == "notes.txt" and plan["op"] == "ascii":
                pass
            elif o == "strange.cimt":
                if plan["op"] == "concat":
                    imtio.export_to_file({"not": "a field"}, d + "/strange")
            else:
                with open(os.path.join(d, o), "w") as fh:
                    fh.write("unrelated")
        return res

    # -- the operation ---------------------------------------------------------
    @staticmethod
    def range(plan):
        n = len(plan["names"])
        a = int(plan["a"]*n)
        if plan["op"] == "ascii":
            # (the last one included)
            return [a, a + int(plan["b"]*(n - a))]
        return [a, a + 1 + int(plan["b"]*(n - a + 2))]

    @staticmethod
    def times(plan):
        return [.5 + 1.5*k for k in range(len(plan["names"]))]

    def call(self, plan, d, out):
        """The result; the arguments of the caller have to stay as they
        are."""
        own = {}
        res = self._call(plan, d, out, own)
        for k, v in own.items():
            want = self.range(plan) if k == "range" else self.times(plan)
            if list(v) != want:
                raise Violation("argument-altered:" + k, "%s -> %s"
                                % (want, v))
        return res

    def _call(self, plan, d, out, own):
        op, kind = plan["op"], plan["kind"]
        kw = {}
        if op in ("im7s", "vc7s"):
            kw = {"kind": kind, "incr": plan["incr"]}
            if plan["rng"]:
                kw["fieldnumbers"] = own["range"] = self.range(plan)
            if op == "vc7s":
                kw["verbose"] = False
                return imtio.import_from_VC7s(d, **kw)
            return imtio.import_from_IM7s(d, **kw)
        if op == "concat":
            imtio.imts_to_imt(d, out + "/res", kind)
            return imtio.import_from_file(out + "/res.cimt")
        if op in ("im7_to_imt", "vc7_to_imt"):
            f = imtio.IM7_to_imt if op == "im7_to_imt" else imtio.VC7_to_imt
            if kind in ("SF", "VF"):
                f(d, out, kind=kind, compressed=plan["compressed"])
                got = []
                for x in sorted(os.listdir(out)):
                    got.append((os.path.splitext(x)[0],
                                imtio.import_from_file(out + "/" + x)))
                return got
            f(d, out + "/res", kind=kind)
            return imtio.import_from_file(out + "/res.cimt")
        if op == "pics":
            kw = {"incr": plan["incr"]}
            if plan["rng"]:
                kw["fieldnumbers"] = own["range"] = self.range(plan)
            if plan["times"]:
                kw["times"] = own["times"] = self.times(plan)
            return imtio.import_from_pictures(d + "/*.png", **kw)
        if op == "ascii":
            kw = {"kind": kind, "incr": plan["incr"]}
            if plan["rng"]:
                kw["interval"] = own["range"] = self.range(plan)
            if plan["times"]:
                kw["times"] = own["times"] = self.times(plan)
            return imtio.import_vfs_from_ascii(d + "/*.txt", **kw)
        if op == "find":
            return imtio.find_file_in_path([r".*\.dat"], d)
        raise ValueError(op)

    def ids(self, plan, res):
        def one(f):
            v = f.values if hasattr(f, "unit_values") and not hasattr(
                f, "comp_x") else f.comp_x
            return int(round(float(np.asarray(v)[0, 0])))
        if plan["op"] == "find":
            return [os.path.relpath(p, self.top) for p in res]
        if isinstance(res, list):
            return [[n, one(f)] for n, f in res]
        return [one(f) for f in res.fields]

    def expected(self, plan, content):
        """Allowed identifier lists."""
        if plan["op"] == "find":
            return [sorted(w or "." for w, fl in content.items() if fl)]
        if plan["nested"]:
            cands = [sorted(fl) for w, fl in content.items() if fl]
        else:
            cands = [sorted(content[""])]
        out = []
        for fl in cands:
            if plan["kind"] in ("SF", "VF"):
                out.append([[os.path.splitext(n)[0], k] for n, k in fl])
                continue
            seq = [k for _, k in fl]
            if plan["op"] in ("im7s", "vc7s", "pics", "ascii"):
                if plan["rng"]:
                    a, b = self.range(plan)
                    seq = seq[a:b + (plan["op"] == "ascii")]
                seq = seq[::plan["incr"]]
            out.append(seq)
        return out

    @staticmethod
    def order(seed):
        if seed is None:
            return lambda names, path: sorted(names)

        def f(names, path):
            names = sorted(names)
            random.Random("%d|%s" % (seed, path)).shuffle(names)
            return names
        return f

    def execute(self, plan, log):
        top = simfs.scratch()
        asked = []
        old = builtins.input

        def fake_input(prompt=""):
            asked.append(1)
            if len(asked) > 30:
                raise Violation("asks-for-ever")
            n = sum(1 for v in self.content.values() if v)
            log.probe("user_chose_a_folder")
            return str(1 + plan["answer"] % max(1, n))
        builtins.input = fake_input
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                self._run(plan, log, top)
        finally:
            builtins.input = old
            shutil.rmtree(top, ignore_errors=True)

    def _run(self, plan, log, top):
        d = os.path.join(top, "in")
        self.top = d
        os.makedirs(d)
        self.content = content = self.fill(plan, d)
        allowed = self.expected(plan, content)
        nfiles = len(plan["names"])
        op = plan["op"]
        # how an empty input is reported is not this property's affair
        empty = (nfiles == 0 and op != "find")
        res = []
        for k, seed in enumerate([None, plan["perm"], plan["perm"] + 1]):
            out = os.path.join(top, "out%d" % k)
            os.mkdir(out)
            fs = simfs.SimFS(d, log, order=self.order(seed))
            try:
                with fs:
                    r = self.call(plan, d, out)
            except Exception:
                if empty:
                    res.append(("error", None))
                    continue
                raise
            ids = self.ids(plan, r)
            res.append((ids, dig(r) if op != "find" else json.dumps(ids)))
            log.evals += 1
            log.sig(op, plan["kind"], nfiles, seed and seed % 64, len(ids))
            if not empty:
                got = sorted(ids) if op == "find" else ids
                log.expect(got in allowed, "wrong-files-or-order:" + op,
                           lambda: "got %s, expected %s" % (got, allowed))
            if plan["times"] and op in ("pics", "ascii") and \
                    hasattr(r, "times"):
                a, b = self.range(plan) if plan["rng"] else \
                    (0, nfiles - (op == "ascii"))
                want = self.times(plan)[a:b + (op == "ascii")][::plan["incr"]]
                log.expect(list(r.times) == want, "wrong-times:" + op,
                           lambda: "got %s, expected %s"
                           % (list(r.times), want))
        log.expect(all(r == res[0] for r in res),
                   "depends-on-listing-order:" + op,
                   lambda: [r[0] for r in res])
        log.ev(op, plan["kind"], res[0])
        if nfiles > 1:
            log.nontrivial = True
        if plan.get("fault") and not empty:
            self.faulty(plan, log, top, d, allowed, content)

    def faulty(self, plan, log, top, d, allowed, content):
        at, kind, seed = plan["fault"]
        rng = random.Random(seed)
        op = plan["op"]
        out = os.path.join(top, "outf")
        os.mkdir(out)
        old = {"the": "old object"}
        single = op == "concat" or (op.endswith("_to_imt") and plan["kind"]
                                    not in ("SF", "VF"))
        if single:
            imtio.export_to_file(old, out + "/res")
        fs = simfs.SimFS(d, log, order=self.order(plan["perm"]))
        fs.only = ("open-r", "read")
        extra = []
        allf = [os.path.join(w, n) for w, fl in content.items()
                for n, _ in fl]

        def other():
            fs.__exit__()
            try:
                if kind == "vanish":
                    p = os.path.join(d, rng.choice(sorted(allf)))
                    if os.path.exists(p):
                        os.remove(p)
                        log.fault("other_process_removes_file")
                else:
                    w = rng.choice(sorted(content))
                    fn = self.put(plan, os.path.join(d, w),
                                  "BB%04d_" % rng.randrange(9999)
                                  if op == "ascii" else "M", 99)
                    extra.append((w, fn))
                    log.fault("other_process_adds_file")
            finally:
                fs.__enter__()
        fs.reader = other
        n = 2 * len(plan["names"])
        at = at % max(1, n)
        fs.set_faults([[at, {"vanish": "reader", "appear": "reader"}.get(
            kind, kind), .4]])
        n0 = sum(log.faults.values())
        try:
            with fs:
                r = self.call(plan, d, out)
            err = None
        except (Exception, KeyboardInterrupt) as e:
            err = e
        fired = sum(log.faults.values()) > n0
        log.evals += 1
        log.sig(op, plan["kind"], kind, at, type(err).__name__)
        log.ev("fault", kind, at, "fired", fired, type(err).__name__)
        if fired:
            log.nontrivial = True
        if err is None:
            ids = self.ids(plan, r)
            cont2 = json.loads(json.dumps(content))
            for w, fn in extra:
                cont2[w].append([fn, 99])
            more = self.expected(plan, {w: [tuple(x) for x in fl]
                                        for w, fl in cont2.items()})
            log.expect(ids in allowed or ids in more,
                       "wrong-files-or-order-after-fault:" + op,
                       lambda: "%s: got %s, expected %s" % (kind, ids,
                                                            allowed))
            if fired and kind in ("eio", "interrupt"):
                log.violate("read-error-ignored:" + op, kind)
        else:
            if not fired or kind in ("short", "appear"):
                if isinstance(err, Exception):
                    raise err
                log.violate("unexpected-interrupt", repr(err))
            if single:
                now = imtio.import_from_file(out + "/res.cimt")
                log.expect(now == old, "output-lost-by-failed-conversion:"
                           + op, repr(now)[:200])
                log.expect(sorted(os.listdir(out)) == ["res.cimt"],
                           "failed-conversion-left-files:" + op,
                           os.listdir(out))

    def simplify(self, plan):
        for key, v in (("fault", None), ("incr", 1), ("rng", False),
                       ("upper", False), ("dt", True)):
            if plan.get(key) not in (v, None):
                p = json.loads(json.dumps(plan))
                if v is None:
                    p.pop(key)
                else:
                    p[key] = v
                yield p


PROPERTY = C06()
