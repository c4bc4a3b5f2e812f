"""Driver process: imports the real code and records what it does."""
import glob
import importlib
import json
import math
import os
import random
import signal
import sys
import traceback

import enc


class CaseTimeout(Exception):
    pass


def _alarm(*_):
    raise CaseTimeout("no result within the time limit")


def plain(x):
    """what TLC's JSON reader can take: no null, no fractions"""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if x is None:
        return "none"
    if isinstance(x, float):
        return enc.fx(x) if math.isfinite(x) else str(x)
    return x


class Ctx:
    def __init__(self, prop, work, tier, seed):
        self.prop, self.work, self.tier, self.seed = prop, work, tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random("%s-%d" % (prop, seed))
        self.files = {}
        self.part = ""
        self.n = 0
        with open(os.path.join(work, "scenarios.json")) as fh:
            self.scn = json.load(fh)
        signal.signal(signal.SIGALRM, _alarm)

    def pick(self, q, t):
        return q if self.quick else t

    def emit(self, rec, stream="trace"):
        if stream not in self.files:
            self.files[stream] = open(os.path.join(self.work, stream + self.part + ".ndjson"), "w")
        self.n += 1
        self.files[stream].write(json.dumps(plain(rec)) + "\n")
        self.files[stream].flush()

    def shards(self, k, fn):
        """fn(0) .. fn(k-1) in processes of their own, each with its own random numbers; their records in this order"""
        base, pids = self.rng.random(), []
        for i in range(k):
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    self.files, self.part = {}, ".%d" % i
                    self.rng.seed("%r-%d" % (base, i))
                    fn(i)
                    for f in self.files.values():
                        f.close()
                    rc = 0
                except BaseException:  # noqa: BLE001
                    traceback.print_exc()
                finally:
                    sys.stderr.flush()
                    os._exit(rc)
            pids.append(pid)
        bad = [i for i, pid in enumerate(pids) if os.waitpid(pid, 0)[1]]
        for i in range(k):
            for path in sorted(glob.glob(os.path.join(self.work, "*.%d.ndjson" % i))):
                stream = os.path.basename(path).split(".")[0]
                if stream not in self.files:
                    self.files[stream] = open(os.path.join(self.work, stream + ".ndjson"), "w")
                with open(path) as fh:
                    for l in fh:
                        if not l.endswith("\n"):
                            continue
                        self.n += 1
                        self.files[stream].write(l)
                self.files[stream].flush()
                os.remove(path)
        if bad:
            raise RuntimeError("parts %s failed" % bad)

    def case(self, rec, fn, stream="trace", limit=40):
        """Run fn() -> dict of recorded fields; an exception or a timeout of the real code is
        recorded in rec["err"] (judged by the specification as 'raised')."""
        rec = dict(rec)
        rec["err"] = ""
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            rec.update(fn())
        except KeyboardInterrupt:
            raise
        except BaseException as e:  # noqa: BLE001 - any exception of the code under test is an observation
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])
            rec["err"] = ("%s: %s [%s]" % (type(e).__name__, e, where))[:500]
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        self.emit(rec, stream)
        return rec


def main():
    prop, work, tier, seed = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
    # the real code prints progress: keep it out of the way
    log = os.open(os.path.join(work, "real.out"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(log, 1)
    os.chdir(work)
    ctx = Ctx(prop, work, tier, seed)
    mod = importlib.import_module("checks." + prop.lower())
    mod.drive(ctx)
    for f in ctx.files.values():
        f.close()


if __name__ == "__main__":
    main()
