"""C02: a damaged native file is refused, never loaded as different data."""
import os
import random
import shutil

from sim.core import Property
from sim import simfs


class C02(Property):
    id = "C02"
    level = "fault_enumeration"
    runs = {"quick": 2500, "thorough": 30000}
    rule = ("A run saves a random object (and then a second one in another "
            "file), lets the stored bytes suffer 1-3 random damages while at "
            "rest (bit flips, zeroed / duplicated / dropped / swapped blocks, "
            "lost tail, truncation; truncations only for the uncompressed "
            "format), and loads it in a new process life, with short reads. "
            "Non-trivial: the stored bytes really changed.")
    sig_measure = "distinct (format, damage kinds, outcome exception type)"
    real = ["file_operation.export_to_file/import_from_file", "pickle",
            "gzip", "zlib"]
    stub = ["the storage medium (bytes altered between two process lives)"]
    assumptions = ["the 32-bit checksum of the compressed format detects the "
                   "injected damage (a random collision has odds 2**-32)"]
    shrink_lists = ("damage",)

    def setup(self):
        global objs, dig, imtio
        from sim import objs
        from sim.observe import dig
        from IMTreatment import file_operation as imtio

    KINDS = ["flip", "flip", "flip", "flip_tail", "zero", "dup", "drop",
             "swap", "lost_tail", "trunc", "trunc", "append", "flip_body"]

    def gen(self, rng, i, tier):
        spec = objs.gen_spec(rng, rng.choice(objs.KINDS + ["LIT"] * 6))
        if spec["kind"] == "LIT" and rng.random() < .5:
            spec["seed"] = spec["seed"] - spec["seed"] % 8 + rng.choice(
                [1, 5, 6])
        fmt = rng.choice("cccu")
        damage = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            k = rng.choice(self.KINDS) if fmt == "c" else "trunc"
            damage.append([k, round(rng.random(), 6), round(rng.random(), 6),
                           rng.randrange(8)])
        return {"spec": spec, "fmt": fmt, "damage": damage,
                "short": [[rng.randrange(6), "short", rng.random()]]
                if rng.random() < .3 else []}

    @staticmethod
    def hurt(data, d):
        kind, u, v, bit = d
        n = len(data)
        if not n:
            return data
        a = min(n - 1, int(u * n))
        ln = max(1, int(v * min(n - a, 600)))
        b = bytearray(data)
        if kind == "flip":
            b[a] ^= 1 << bit
        elif kind == "flip_tail":
            b[max(0, n - 1 - int(u * 8))] ^= 1 << bit
        elif kind == "flip_body":
            lo = min(40, n - 1)
            b[lo + int(u * (n - lo))] ^= 1 << bit
        elif kind == "zero":
            b[a:a + ln] = bytes(len(b[a:a + ln]))
        elif kind == "dup":
            b[a:a] = b[a:a + ln]
        elif kind == "drop":
            del b[a:a + ln]
        elif kind == "swap":
            c = b[a:a + ln]
            del b[a:a + ln]
            p = int(v * len(b))
            b[p:p] = c
        elif kind == "lost_tail":
            b[a:] = bytes(n - a)
        elif kind == "trunc":
            del b[a:]
        elif kind == "append":
            b += bytes([1 + bit] * ln)
        return bytes(b)

    def execute(self, plan, log):
        root = simfs.scratch()
        try:
            comp = plan["fmt"] == "c"
            f = os.path.join(root, "x." + ("cimt" if comp else "imt"))
            obj = objs.build(plan["spec"])
            want = dig(obj)
            imtio.export_to_file(obj, f, compressed=comp)
            with open(f, "rb") as fh:
                good = fh.read()
            if comp:
                # the archive header holds a time stamp: make it constant
                good = good[:4] + b"\0\0\0\0" + good[8:]
            bad = good
            for d in plan["damage"]:
                new = self.hurt(bad, d)
                if new != bad:
                    log.fault(d[0])
                bad = new
            with open(f, "wb") as fh:
                fh.write(bad)
            log.nontrivial = bad != good

            def load(report, sub, die):
                fs = simfs.SimFS(root, sub, plan["short"])
                try:
                    with fs:
                        res = imtio.import_from_file(f)
                    report("ok", dig(res))
                except Exception as e:
                    report("err", type(e).__name__)
            (m,), crashed = simfs.life(load, log)
            log.evals += 1
            log.ev(plan["fmt"], plan["damage"], want, m)
            log.sig(plan["fmt"], sorted(d[0] for d in plan["damage"]), m[0],
                    m[1] if m[0] == "err" else "")
            if m[0] == "ok":
                log.probe("damaged_file_still_loaded_exactly")
                log.expect(m[1] == want, "damaged-file-loaded-as-other-data",
                           "format %s, damage %s" % (plan["fmt"],
                                                     plan["damage"]))
            if bad == good:
                log.expect(m[0] == "ok", "intact-file-refused", m[1])
        finally:
            shutil.rmtree(root, ignore_errors=True)


PROPERTY = C02()
