"""Running TLC."""
import os
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


def java_overrides(work):
    """Compile the Java overrides of BigInt (speed only) into the run's own directory."""
    pre = os.path.join(VERIF, "build", "java")
    src = os.path.join(VERIF, "java")
    names = [f for f in os.listdir(src) if f.endswith(".java")]
    if all(os.path.exists(os.path.join(pre, f[:-5] + ".class"))
           and os.path.getmtime(os.path.join(pre, f[:-5] + ".class")) >= os.path.getmtime(os.path.join(src, f))
           for f in names):
        return pre
    out = os.path.join(work, "java")
    os.makedirs(out, exist_ok=True)
    subprocess.run(["javac", "-cp", JARS, "-d", out] + [os.path.join(src, f) for f in names],
                   check=True, capture_output=True)
    return out


class Run:
    """One TLC run, started in the background."""

    def __init__(self, work, javadir, module, cfg, env=None, workers=4, timeout=600, cont=False, heap="3g", simulate=None):
        self.module, self.timeout = module, timeout
        self.dir = tempfile.mkdtemp(prefix="tlc-", dir=work)
        # TLC writes next to the specification: give each run its own directory of links.
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(self.dir, f))
        with open(os.path.join(self.dir, "run.cfg"), "w") as fh:
            fh.write(cfg)
        os.mkdir(os.path.join(self.dir, "tmp"))
        cmd = ["java", "-Djava.io.tmpdir=" + os.path.join(self.dir, "tmp"), "-Xss512m", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", JARS + ":" + javadir,
               "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(self.dir, "md"),
               "-deadlock", "-noGenerateSpecTE", "-config", "run.cfg"]
        if cont:
            cmd.append("-continue")
        if simulate:
            cmd += simulate
        cmd.append(module)
        e = dict(os.environ)
        e.update(env or {})
        self.log = open(os.path.join(self.dir, "out.txt"), "w+")
        self.proc = subprocess.Popen(cmd, cwd=self.dir, stdout=self.log, stderr=subprocess.STDOUT, env=e)

    def wait(self):
        try:
            self.rc = self.proc.wait(self.timeout)
        except subprocess.TimeoutExpired:
            self.proc.kill()
            self.proc.wait()
            raise MachineryError("TLC timed out on %s" % self.module)
        self.log.flush()
        with open(self.log.name) as fh:
            self.out = fh.read()
        self.log.close()
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", self.out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.finished = "Model checking completed" in self.out or bool(m)
        self.violated = re.findall(r"Invariant (\w+) is violated|Temporal properties were violated|Assumption .* is false", self.out)
        self.errors = [l for l in self.out.splitlines() if l.startswith("Error:")]
        return self

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)
