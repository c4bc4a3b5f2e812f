"""Controller of the stand-in MPI world: N worker processes (different hash seeds), every
communication call answered by this process in an order chosen by a seed."""
import os
import pickle
import random
import select
import shutil
import socket
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))


class PoolDead(Exception):
    pass


class _Conn:
    def __init__(self, s):
        self.s = s

    def send(self, msg):
        b = pickle.dumps(msg, protocol=4)
        self.s.sendall(struct.pack("<Q", len(b)) + b)

    def recv(self, deadline):
        n = struct.unpack("<Q", self._read(8, deadline))[0]
        return pickle.loads(self._read(n, deadline))

    def _read(self, n, deadline):
        out = b""
        while len(out) < n:
            left = deadline - time.time()
            if left <= 0 or not select.select([self.s], [], [], left)[0]:
                raise PoolDead("a process made no progress")
            c = self.s.recv(min(n - len(out), 1 << 20))
            if not c:
                raise PoolDead("a process died")
            out += c
        return out


COLL_ROOTED_IN = ("gather", "Gather")
COLL_ROOTED_OUT = ("bcast", "Bcast", "scatter", "Scatter")


class Pool:
    stuck = 0

    def __init__(self, size, seed=0):
        self.size, self.seed = size, seed
        self.dir = None
        self.start()

    def start(self):
        self.dir = tempfile.mkdtemp(prefix="pool-")
        addr = os.path.join(self.dir, "s")
        ls = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        ls.bind(addr)
        ls.listen(self.size)
        self.procs, self.conn = [], [None] * self.size
        for r in range(self.size):
            e = dict(os.environ)
            e.update(FAKEMPI_ADDR=addr, FAKEMPI_RANK=str(r), FAKEMPI_SIZE=str(self.size),
                     PYTHONHASHSEED=str(1 + (self.seed * 131 + self.size * 17 + r * 7) % 4000000))
            self.procs.append(subprocess.Popen([sys.executable, os.path.join(HERE, "mpiworker.py")], env=e,
                                               stdout=subprocess.DEVNULL))
        ls.settimeout(60)
        for _ in range(self.size):
            c = _Conn(ls.accept()[0])
            kind, r = c.recv(time.time() + 60)
            self.conn[r] = c
        ls.close()
        self.uses = 0

    def close(self):
        for p in self.procs:
            p.kill()
        for p in self.procs:
            p.wait()
        for c in self.conn:
            if c:
                c.s.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, module, func, args, mode="sync", seed=0, limit=60, per_rank=None):
        """Run module.func(rank, size, args) on every rank.
        Returns {"status", "res": [per rank {"ok"/"err"}], "log": [per rank list of events]}."""
        if Pool.stuck >= 4:
            raise RuntimeError("the processes get stuck again and again")
        try:
            return self._run(module, func, args, mode, seed, min(limit, 20) if Pool.stuck else limit, per_rank)
        except (PoolDead, OSError) as e:
            res = {"status": "no-progress: %s" % e, "res": [{"ok": None, "err": str(e)} for _ in range(self.size)],
                   "log": self.log}
            Pool.stuck += 1
            self.close()
            self.start()
            return res

    def _run(self, module, func, args, mode, seed, limit, per_rank):
        rng = random.Random(seed)
        n = self.size
        self.log = [[] for _ in range(n)]
        for r in range(n):
            self.conn[r].send(("job", (module, func, args if per_rank is None else (args, per_rank[r]))))
        deadline = time.time() + limit
        pend = [None] * n          # blocking call a rank is in
        result = [None] * n
        running = set(range(n))
        inst = []                  # collective instances
        cnt = [0] * n
        mail = []                  # undelivered messages: dict(src,dst,tag,data,blocked)
        status = "ok"
        error = None

        def reply(r, val, kind="ok"):
            pend[r] = None
            running.add(r)
            self.conn[r].send((kind, val))

        while True:
            # let every running process reach its next call (lockstep: schedules are reproducible)
            for r in sorted(running):
                kind, a = self.conn[r].recv(deadline)
                running.discard(r)
                if kind == "done":
                    result[r] = a
                    continue
                self._note(r, a)
                if error:
                    reply(r, error, "error")
                    continue
                op = a["kind"]
                if op in ("send", "isend"):
                    m = {"src": r, "dst": a["dest"], "tag": a["tag"], "data": a["data"], "blk": None}
                    mail.append(m)
                    if op == "isend" or (mode == "eager" and not a.get("sync")):
                        reply(r, None)
                    else:
                        m["blk"] = r
                        pend[r] = ("send", m)
                elif op == "recv":
                    pend[r] = ("recv", a)
                else:
                    k = cnt[r]
                    cnt[r] += 1
                    while len(inst) <= k:
                        inst.append({"posts": {}, "left": set(range(n))})
                    ins = inst[k]
                    ins["posts"][r] = a
                    first = ins["posts"][min(ins["posts"])]
                    key = lambda x: (x["kind"], x.get("alias"), x.get("root"), x.get("sig"))  # noqa: E731
                    if key(first) != key(a):
                        status = "mismatch"
                        error = "collective mismatch: %r / %r" % (key(first), key(a))
                        reply(r, error, "error")
                        continue
                    pend[r] = ("coll", k)
            if error:
                for r in range(n):
                    if pend[r] is not None:
                        reply(r, error, "error")
                if all(x is not None for x in result):
                    break
                continue
            if running:
                continue
            if all(x is not None for x in result):
                break
            # which blocked ranks can go on
            can = []
            for r in range(n):
                if pend[r] is None:
                    continue
                k, v = pend[r]
                if k == "coll":
                    if self._coll_ready(inst[v], r, mode):
                        can.append((r, None))
                elif k == "recv":
                    seen = set()
                    for m in mail:
                        if m["dst"] == r and v["source"] in (-2, m["src"]) and v["tag"] in (-1, m["tag"]):
                            if m["src"] not in seen:        # messages of one sender do not overtake
                                seen.add(m["src"])
                                can.append((r, m))
            if not can:
                who = {r: (pend[r][0], self.log[r][-1]) for r in range(n) if pend[r] is not None}
                status = "deadlock"
                error = "deadlock: blocked %s, finished %s" % (who, [r for r in range(n) if result[r] is not None])
                for r in range(n):
                    if pend[r] is not None:
                        reply(r, error, "error")
                continue
            r, m = rng.choice(can)
            if m is not None:
                mail.remove(m)
                self.log[r][-1]["src"] = m["src"]
                if m["blk"] is not None:
                    reply(m["blk"], None)
                reply(r, (m["src"], m["tag"], m["data"]))
            else:
                k = pend[r][1]
                reply(r, self._coll_value(inst[k], r, rng))
        if status == "ok" and mail:
            status = "unreceived"
        if status == "ok" and any(len(i["posts"]) != n for i in inst):
            status = "incomplete-collective"
        self.uses += 1
        return {"status": status, "error": error or "", "res": result, "log": self.log}

    def _note(self, r, a):
        e = {"k": a.get("alias") or a["kind"], "c": a["kind"]}
        for f in ("root", "dest", "source", "tag", "sig"):
            if f in a:
                e[f] = a[f]
        if a.get("sync"):
            e["sync"] = True
        self.log[r].append(e)

    def _coll_ready(self, ins, r, mode):
        p = ins["posts"]
        if mode == "sync":
            return len(p) == self.size
        a = p[r]
        k = a["kind"]
        if k in COLL_ROOTED_OUT:
            return a["root"] == r or a["root"] in p
        if k in COLL_ROOTED_IN:
            return a["root"] != r or len(p) == self.size
        return len(p) == self.size

    def _coll_value(self, ins, r, rng):
        p = ins["posts"]
        a = p[r]
        k = a["kind"]
        n = self.size
        if k == "bcast":
            return p[a["root"]]["data"]
        if k == "Bcast":
            return p[a["root"]]["buf"]
        if k == "scatter":
            return p[a["root"]]["data"][r]
        if k == "Scatter":
            return p[a["root"]]["parts"][r]
        if k in ("gather", "Gather"):
            f = "data" if k == "gather" else "buf"
            return [p[q][f] for q in range(n)] if a["root"] == r else None
        if k in ("allgather", "Allgather"):
            f = "data" if k == "allgather" else "buf"
            return [p[q][f] for q in range(n)]
        if k == "alltoall":
            return [p[q]["data"][r] for q in range(n)]
        return None
