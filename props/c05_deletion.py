"""C05: the deletion tool removes what was selected and confirmed, only."""
import contextlib
import io
import os
import re
import shutil
import builtins
import subprocess
import warnings

from sim.core import Property, Violation
from sim import simfs

YES = ['o', 'O', 'y', 'Y', 'oui', 'Oui', 'Yes', 'yes', 'YES', 'OUI']
NO = ['n', 'N', 'No', 'no', 'non', 'Non', 'NON', 'NO']
JUNK = ['', ' ', 'maybe', 'nope', 'yess', 'oo', '0', '1', 'ok', 'o ', 'q']


def snapshot(top):
    """path -> kind/content, symbolic links not followed."""
    out = {}
    for root, dirs, files in os.walk(top):
        for d in dirs:
            p = os.path.join(root, d)
            out[p] = ("link", os.readlink(p)) if os.path.islink(p) \
                else ("dir",)
        for f in files:
            p = os.path.join(root, f)
            if os.path.islink(p):
                out[p] = ("link", os.readlink(p))
            else:
                with open(p, "rb") as fh:
                    out[p] = ("file", fh.read())
    return out


class C05(Property):
    id = "C05"
    level = "fault_enumeration"
    runs = {"quick": 12000, "thorough": 150000}
    rule = ("A run builds a random tree (nested folders, links), selects "
            "paths with the Files tool (added one by one, by regex with depth "
            "limit, joined, unselected by index or regex) and asks for "
            "deletions; the user's answers, the order of the directory "
            "entries, another process creating or deleting entries before "
            "any removal, refused removals (EACCES, EIO) and interrupts at "
            "any line or removal are drawn by the seed. Non-trivial: "
            "something was removed or refused, or a fault fired.")
    sig_measure = ("distinct (selection size, recursive, answers, fault kind, "
                   "step, outcome)")
    real = ["utils.files (Files, remove_files_in_dirs)", "shutil.rmtree",
            "os.walk", "ProgressCounter"]
    stub = ["os.remove/unlink/rmdir (fault injector and jail)", "input()",
            "directory enumeration order"]
    assumptions = ["selected paths that did not exist when selected are not "
                   "created before the deletion"]
    shrink_lists = ("ops", "tree")

    def setup(self):
        global files
        from IMTreatment.utils import files
        import numpy    # noqa

    # -- plans ---------------------------------------------------------------
    def gen(self, rng, i, tier):
        names = ["a", "b", "c", "run1", "run2", "x.tmp", "y.tmp", "z.dat",
                 "a.tmp", "img"]
        dirs = [""]
        tree = []
        for _ in range(rng.randint(3, 16)):
            d = rng.choice(dirs)
            n = rng.choice(names)
            p = d + "/" + n
            if any(t[0] == p for t in tree):
                continue
            r = rng.random()
            if "." not in n and r < .75 and p.count("/") < 5:
                tree.append([p, "dir"])
                dirs.append(p)
            elif r < .93:
                tree.append([p, "file"])
            else:
                tree.append([p, rng.choice(["filelink", "dirlink",
                                            "broken"])])
        regs = [".*", r".*\.tmp$", r".*/run\d", r".*/a($|/)", r".*/b/",
                r".*\.dat", r".*/(x|y)\.tmp", "nothing", r".*/c$",
                r"run\d", r"(x|y)\.tmp", r"\.tmp", "a", r"ROOT/[^/]*$",
                r"ROOT/run\d/", r"ROOT/a.*tmp"]
        ops = []
        faulty = rng.random() < .6
        for _ in range(rng.randint(2, 6)):
            r = rng.random()
            s = rng.randrange(2)
            if r < .35:
                ops.append({"op": "regex", "s": s, "re": rng.choice(regs),
                            "files": rng.random() < .85,
                            "dirs": rng.random() < .6,
                            "depth": rng.choice(["all", "all", 0, 1, 2]),
                            "tail": rng.choice(["", "", "", "/", "/."])})
            elif r < .5:
                ops.append({"op": "add", "s": s, "k": rng.randrange(20),
                            "missing": rng.random() < .2})
            elif r < .62:
                how = rng.choice(["int", "ints", "re", "res", "npint"])
                ops.append({"op": "unselect", "s": s, "how": how,
                            "ks": [rng.randrange(-3, 6) for _ in range(
                                rng.randint(1, 3))],
                            "re": rng.sample(regs[1:], 2)})
            elif r < .7:
                ops.append({"op": "join"})
            elif r < .78:
                ops.append(self.deletion(rng, {
                    "op": "old", "dir_re": rng.choice(
                        [".*", r".*/run\d", r".*/a", ".*/b", "run", "ROOT/a",
                         "ROOT$"]),
                    "file_re": rng.choice([".*", r".*\.tmp", "z", "x", "tmp", r"\.dat",
                                           ".*/x"])},
                    faulty))
            else:
                ops.append(self.deletion(rng, {"op": "delete", "s": s},
                                         faulty))
        ops.append(self.deletion(rng, {"op": "delete", "s": 0}, faulty))
        return {"tree": tree, "ops": ops, "perm": rng.randrange(1 << 20)}

    def deletion(self, rng, op, faulty):
        op["recursive"] = rng.random() < .35
        ans = []
        for _ in range(rng.randint(1, 5)):
            while rng.random() < .2:
                ans.append(rng.choice(JUNK))
            ans.append(rng.choice(YES if rng.random() < .65 else NO))
        op["answers"] = ans
        op["end"] = rng.choice(["no", "no", "eof", "interrupt"])
        if faulty and rng.random() < .7:
            op["fault"] = [rng.choice([0, 0, 1, 1, 2, 3, 5]), rng.choice(
                ["eacces", "eio", "interrupt", "reader", "reader", "line"]),
                rng.randrange(1 << 10)]
        return op

    # -- execution -------------------------------------------------------------
    def execute(self, plan, log):
        top = simfs.scratch()
        jail = os.path.join(top, "jail")
        root = os.path.join(jail, "data")
        keep = os.path.join(jail, "keep")
        os.makedirs(root)
        os.makedirs(keep + "/sub")
        for f in ("k.tmp", "sub/k.dat"):
            with open(keep + "/" + f, "w") as fh:
                fh.write(f)
        for p, kind in plan["tree"]:
            p = root + p
            if not os.path.isdir(os.path.dirname(p)) or os.path.lexists(p):
                continue
            if kind == "dir":
                os.mkdir(p)
            elif kind == "file":
                with open(p, "w") as fh:
                    fh.write(p)
            else:
                os.symlink({"filelink": keep + "/k.tmp", "dirlink": keep,
                            "broken": keep + "/none"}[kind], p)
        old_in, old_sys = builtins.input, os.system
        old_popen = subprocess.Popen
        self.shell = []

        def noshell(*a, **k):
            self.shell.append(repr(a))
            raise OSError("refused by the simulator")
        os.system = subprocess.Popen = noshell
        try:
            with contextlib.redirect_stdout(io.StringIO()), \
                    warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self._run(plan, log, jail, root)
        finally:
            builtins.input = old_in
            os.system, subprocess.Popen = old_sys, old_popen
            shutil.rmtree(top, ignore_errors=True)

    def order(self, plan):
        import random

        def f(names, path):
            names = sorted(names)
            random.Random("%d|%s" % (plan["perm"], path)).shuffle(names)
            return names
        return f

    def _run(self, plan, log, jail, root):
        sets = [files.Files(), files.Files()]
        for k, op in enumerate(plan["ops"]):
            fs = simfs.SimFS(jail, log, order=self.order(plan))
            fs.jail = jail
            fs.only = ("remove", "unlink", "rmdir")
            name = op["op"]
            F = sets[op.get("s", 0)]
            if name == "regex":
                self.select(F, op, fs, root, log, k)
            elif name == "add":
                self.add(F, op, root, log, k)
            elif name == "unselect":
                self.unselect(F, op, root, log, k)
            elif name == "join":
                a = [list(x.paths) for x in sets]
                joined = sets[0] + sets[1]
                log.expect(joined.paths == a[0] + a[1], "join-wrong", k)
                log.expect([list(x.paths) for x in sets] == a,
                           "join-altered-operand", k)
                sets[0] = joined
                log.ev(k, "join", len(joined.paths))
            else:
                self.delete(F, op, fs, jail, root, log, k, plan)
            for F in sets:
                log.expect(len(F.paths) == len(F.exist) == len(F.isdir),
                           "selection-inconsistent", name)

    def select(self, F, op, fs, root, log, k):
        before = list(F.paths)
        pat = op["re"]
        op = dict(op, re=pat.replace("ROOT", re.escape(root)))
        with fs:
            F.load_files_from_regex(root + op.get("tail", ""), op["re"], load_files=op["files"],
                                    load_dirs=op["dirs"], depth=op["depth"])
        want = []
        for r, dd, ff in os.walk(root):
            n = r[len(root) + 1:].count(os.sep)
            if op["depth"] != "all" and n > op["depth"]:
                continue
            for flag, names in ((op["dirs"], dd), (op["files"], ff)):
                if flag:
                    want += [os.path.join(r, x) for x in names
                             if re.match(op["re"], os.path.join(r, x))]
        new = list(F.paths)[len(before):]
        log.evals += 1
        log.expect(list(F.paths)[:len(before)] == before
                   and sorted(new) == sorted(want), "wrong-selection",
                   lambda: "missing %s, too many %s" % (
                       sorted(set(want) - set(new)),
                       sorted(set(new) - set(want))))
        log.ev(k, "regex", len(new))
        log.sig("regex", pat, op["depth"], len(new))

    def add(self, F, op, root, log, k):
        ps = [p for p in sorted(snapshot(root)) if os.path.exists(p)]
        if op["missing"] or not ps:
            p = root + "/missing%d" % op["k"]
        else:
            p = ps[op["k"] % len(ps)]
        before = list(F.paths)
        F.add_file(p)
        log.expect(list(F.paths) == before + [p], "wrong-selection", p)
        log.ev(k, "add")

    def unselect(self, F, op, root, log, k):
        n = len(F.paths)
        paths = list(F.paths)
        import numpy as np
        if op["how"] in ("int", "ints", "npint"):
            ks = sorted({x % n for x in op["ks"]}) if n else []
            if not ks:
                return
            if op["how"] == "int":
                ks = ks[:1]
                arg = ks[0]
            elif op["how"] == "ints":
                arg = list(ks)
            else:
                arg = np.array(ks)
            want = [p for i, p in enumerate(paths) if i not in ks]
        else:
            rs = [r.replace("ROOT", re.escape(root)) for r in op["re"]]
            rs = rs if op["how"] == "res" else rs[:1]
            arg = rs if op["how"] == "res" else rs[0]
            want = [p for p in paths if not any(re.match(r, p) for r in rs)]
        F.remove_files(arg)
        log.evals += 1
        log.expect(list(F.paths) == want, "wrong-unselection",
                   lambda: "%s: %s -> %s" % (arg, paths, F.paths))
        log.ev(k, "unselect", len(want))

    # the deletion proper ----------------------------------------------------
    def delete(self, F, op, fs, jail, root, log, k, plan):
        before = snapshot(jail)
        asked = []
        answers = list(op["answers"])
        state = {"n": 0, "yes": 0, "no": 0, "first": None, "early": False}

        def fake_input(prompt=""):
            asked.append(1)
            if state["first"] is None and fs.removed:
                state["early"] = True
            if len(asked) > 60:
                raise Violation("asks-for-ever", "more than 60 questions")
            if answers:
                a = answers.pop(0)
            elif op["end"] == "eof":
                log.fault("end_of_input")
                raise EOFError()
            elif op["end"] == "interrupt":
                log.fault("interrupt_at_prompt")
                raise KeyboardInterrupt()
            else:
                a = "n"
            if a in YES or a in NO:
                if state["first"] is None:
                    state["first"] = a in YES
                else:
                    state["yes" if a in YES else "no"] += 1
            return a
        builtins.input = fake_input
        ext = {"made": set(), "gone": set()}
        fault = op.get("fault")
        rng = __import__("random").Random(fault[2] if fault else 0)

        def other():
            """another process touches the tree"""
            cur = sorted(p for p in snapshot(root))
            dirs = [root] + [p for p in cur if os.path.isdir(p)
                             and not os.path.islink(p)]
            fls = [p for p in cur if not os.path.isdir(p)]
            fs.__exit__()
            try:
                if rng.random() < .6 or not fls:
                    p = rng.choice(dirs) + "/new%d.tmp" % fs.nstep
                    with open(p, "w") as fh:
                        fh.write("new")
                    ext["made"].add(p)
                    log.fault("other_process_creates")
                else:
                    p = rng.choice(fls)
                    os.remove(p)
                    ext["gone"].add(p)
                    log.fault("other_process_deletes")
            finally:
                fs.__enter__()
        fs.reader = other
        line_at = None
        if fault:
            if fault[1] == "line":
                line_at = 4 + fault[2] % 90
            else:
                fs.set_faults([[fault[0], fault[1], 0]])
                if fault[1] == "reader" and fault[2] % 3 == 0:
                    fs.set_faults([[fault[0], "reader", 0],
                                   [fault[0] + 2, "reader", 0]])

        def act(j, frame):
            if j == line_at:
                log.fault("interrupt_at_line")
                raise KeyboardInterrupt("injected")
        from sim.lines import LineSteps
        if op["op"] == "old":
            op = dict(op, dir_re=op["dir_re"].replace("ROOT",
                                                      re.escape(root)))
            sel = []
            for r, dd, ff in os.walk(root):
                if re.match(op["dir_re"], r):
                    sel += [os.path.join(r, f) for f in ff
                            if re.match(op["file_re"], f)]
            flags = None

            def call():
                files.remove_files_in_dirs(root, op["dir_re"], op["file_re"])
        else:
            sel = [p for p, e in zip(F.paths, F.exist) if e]
            flags = list(F.exist)

            def call():
                F.delete_existing_files(recursive=op["recursive"])
        n0 = sum(log.faults.values())
        err = None
        try:
            with fs:
                if line_at is not None:
                    with LineSteps(act, only=lambda c: c.co_filename.endswith(
                            "files.py")):
                        call()
                else:
                    call()
        except Violation:
            raise
        except (Exception, KeyboardInterrupt) as e:
            err = e
        fired = sum(log.faults.values()) > n0
        after = snapshot(jail)
        gone = set(before) - set(after) - ext["gone"]
        log.evals += 1
        log.ev(k, op["op"], "asked", len(asked), "gone", len(gone),
               type(err).__name__)
        log.sig(len(sel), op["recursive"], state["first"], state["yes"],
                state["no"], fault[:2] if fault else None, len(gone),
                type(err).__name__)
        if gone or fired or state["first"] is False:
            log.nontrivial = True
        recursive = op["recursive"] and op["op"] != "old"
        log.expect(not fs.escaped and not self.shell, "reached-outside",
                   "%s %s" % (fs.escaped, self.shell))
        log.expect(not state["early"], "removed-before-asking", fs.removed)
        # nothing without a yes
        if not state["first"]:
            log.expect(not gone and not (ext["made"] - set(after)),
                       "deleted-without-confirmation", sorted(gone))
        # nothing but the selection
        selset = set(sel)
        seldirs = [p for p in sel if before.get(p) == ("dir",)]
        other_gone = (gone | (ext["made"] - set(after) - ext["gone"])) \
            - selset
        deep = set()
        for p in other_gone:
            tops = [d for d in seldirs if p.startswith(d + os.sep)]
            log.expect(bool(tops) and op["op"] != "old",
                       "deleted-not-selected", p)
            deep.update(tops)
        if deep and not recursive:
            # the contents of a folder need a confirmation of their own
            lost = {os.path.dirname(p) for p in other_gone}
            log.expect(state["yes"] > 0, "deleted-content-not-confirmed",
                       sorted(other_gone))
            indep = [d for d in deep if d not in after]
            roots = [d for d in indep if not any(
                d.startswith(e + os.sep) for e in indep)]
            log.expect(len(roots) <= max(1, state["yes"]) and lost,
                       "deleted-content-not-confirmed", sorted(roots))
        # the rest is intact
        for p, v in before.items():
            if p in after and p not in ext["made"]:
                log.expect(after[p] == v, "altered", p)
        if err is None and state["first"]:
            left = [p for p in sel if p in after and p in before
                    and p not in ext["made"]]
            lf = [p for p in left if before[p] != ("dir",)
                  and not (before[p][0] == "link" and os.path.isdir(p))]
            log.expect(not lf, "selected-file-not-deleted", lf)
            ld = [p for p in left if p not in lf]
            log.expect(len(set(ld)) <= state["no"],
                       "selected-folder-not-deleted", ld)
        if err is None and flags is not None:
            stale = [p for p, e in zip(F.paths, F.exist)
                     if bool(e) != os.path.lexists(p)
                     and p not in ext["gone"] and p not in ext["made"]]
            if state["first"]:
                log.expect(not stale, "existence-flag-wrong", stale)
            elif state["first"] is False:
                log.expect(list(F.exist) == flags, "existence-flag-wrong",
                           "changed though nothing was deleted")
        if err is not None and not fired:
            linked = [p for p in seldirs + sel if os.path.islink(p)]
            ok = isinstance(err, OSError) and linked
            if not ok:
                raise err
        if err is not None and flags is not None:
            # once the trouble is over, a second call finishes the work
            if any(os.path.islink(p) for p in sel):
                return
            log.probe("second_call")
            if any(not os.path.lexists(p) for p in sel):
                log.probe("selection_with_vanished_paths")
            before = snapshot(jail)
            builtins.input = lambda prompt="": "y"
            fs = simfs.SimFS(jail, log, order=self.order(plan))
            fs.jail = jail
            with fs:
                F.delete_existing_files(recursive=True)
            after = snapshot(jail)
            left = [p for p in sel if p in after]
            log.expect(not left, "second-call-left-selected-paths", left)
            gone = [p for p in before if p not in after and not any(
                p == s or p.startswith(s + os.sep) for s in sel)]
            log.expect(not gone and not fs.escaped, "deleted-not-selected",
                       lambda: "%s %s" % (gone, fs.escaped))

    def simplify(self, plan):
        import json
        for k, op in enumerate(plan["ops"]):
            if op.get("fault"):
                p = json.loads(json.dumps(plan))
                p["ops"][k].pop("fault")
                yield p
            if len(op.get("answers", [])) > 1:
                p = json.loads(json.dumps(plan))
                p["ops"][k]["answers"].pop()
                yield p


PROPERTY = C05()
