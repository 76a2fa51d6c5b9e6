"""Runs TLC and reads what it reports."""
import os
import re
import shutil
import subprocess
import tempfile

import build


class TlcError(Exception):
    pass


class Result:
    ok = True            # no invariant or property was violated
    violated = None      # the name of the violated one
    trace = ""           # the text of the counterexample
    generated = distinct = depth = initial = 0
    out = ""

    @property
    def transitions(self):
        return max(0, self.generated - self.initial)

    def last(self, var):
        """value of a variable in the last state of the counterexample, as text"""
        m = re.findall(r"/\\ %s = (.*)" % re.escape(var), self.trace)
        return m[-1].strip() if m else None


def run(module, cfg, env=None, args=(), timeout=850, workers="auto", xmx="8g", simulate=None):
    d = build.spec_dir()
    meta = tempfile.mkdtemp(prefix="tlc_")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss64m", "-Djava.io.tmpdir=" + meta, "-cp", d + ":" + build.CP, "tlc2.TLC", "-config", cfg,
           "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers)]
    if simulate:
        cmd += ["-simulate", simulate]
    cmd += list(args) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = Result()
    r.out = out = p.stdout + p.stderr
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
    if m:
        r.generated, r.distinct = (int(x.replace(",", "")) for x in m[-1])
    m = re.findall(r"Finished computing initial states: ([\d,]+) (?:distinct )?state", out)
    if m:
        r.initial = int(m[-1].replace(",", ""))
    m = re.search(r"The depth of the complete state graph search is (\d+)", out)
    if m:
        r.depth = int(m.group(1))
    v = re.search(r"Error: (?:Invariant|Action property|Temporal properties|Assumption|Evaluating) ?(\w*)", out)
    if p.returncode == 0 and "Error:" not in out:
        return r
    m = re.search(r"Error: Invariant (\w+) is violated", out)
    a = re.search(r"Assumption (.*?) is false", out)
    t = re.search(r"Temporal properties were violated|Action property (\w+)", out)
    if m or a or t:
        r.ok = False
        r.violated = m.group(1) if m else a.group(0) if a else t.group(0)
        i = out.find("Error:")
        r.trace = out[i:]
        return r
    raise TlcError("TLC ended with %d\n%s" % (p.returncode, out[-6000:]))
