"""Runs, for every seeded change, the check of its property against a scratch copy of the repository with the change.

Writes tools/caught.json: {seed: {"property": ..., "caught": bool, "clause": first clause reported}}.
Usage: python3 tools/sweep_seeds.py [-j workers] [ids...]
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    args = sys.argv[1:]
    j = 2
    if args[:1] == ["-j"]:
        j = int(args[1])
        args = args[2:]
    ids = args or sorted(os.listdir(V + "/seeded"))
    top = tempfile.mkdtemp(prefix="seedsweep.")
    slots = Queue()
    for k in range(j):
        d = "%s/%d" % (top, k)
        os.makedirs(d)
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        subprocess.run(["git", "clone", "-q", V, d + "/verif"], check=True)
        slots.put(d)

    def one(i):
        d = slots.get()
        try:
            prop = json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]
            subprocess.run(["git", "-C", d + "/repo", "checkout", "-q", "--", "."], check=True)
            if subprocess.run(["git", "-C", d + "/repo", "apply", "%s/seeded/%s/patch.diff" % (V, i)]).returncode:
                return i, {"property": prop, "caught": False, "clause": "patch does not apply"}
            p = subprocess.run(["bin/check", prop], cwd=d + "/verif", env=dict(os.environ, VERIF_REPO=d + "/repo", VERIF_SEED="1"),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
            m = re.search(r"clause ([^,\s]+)", p.stdout)
            r = {"property": prop, "caught": p.returncode == 1 and "VIOLATION property=" + prop in p.stdout, "clause": m.group(1) if m else ""}
            print(i, r, flush=True)
            return i, r
        finally:
            slots.put(d)
    try:
        with ThreadPoolExecutor(j) as ex:
            got = dict(ex.map(one, ids))
    finally:
        shutil.rmtree(top)
    f = V + "/tools/caught.json"
    old = json.load(open(f)) if os.path.exists(f) else {}
    old.update(got)
    json.dump(old, open(f, "w"), indent=0, sort_keys=True)
    print("not caught:", [i for i, r in got.items() if not r["caught"]])


main()
