"""Run scenarios on the real library, validate the recorded traces with TLC, report."""
import json, os, shutil, subprocess, sys, tempfile, time

from build import VERIF, BuildError
import registers, tlc

# the specification which validates the traces of a driver
MODULE = {"pcsc": "PcscTrace", "tool": "ToolTrace"}
# the ISO 8859 implementation of a driver
IMPL = {"tools": "boost", "tool": "boost"}
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=76:allocator_may_return_null=1:malloc_context_size=8",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1", LC_ALL="C.UTF-8", TZ="UTC", **registers.ENV)


class Scenario:
    __slots__ = ("sid", "lines")

    def __init__(self, sid, lines):
        self.sid, self.lines = sid, lines


class Failure:
    def __init__(self, scen, kind, what, actual=""):
        self.scen, self.kind, self.what, self.actual = scen, kind, what, actual


def _write(path, scens):
    starts = []
    n = 0
    with open(path, "w") as f:
        for s in scens:
            starts.append(n + 1)
            for ln in s.lines:
                f.write(ln + "\n")
                n += 1
    return starts


def _owner(starts, ln):
    import bisect
    return bisect.bisect_right(starts, ln) - 1


class Shard:
    def __init__(self, d, k, scens, exe, env=None):
        self.env = env
        self.scens = scens
        self.scn = os.path.join(d, "s%d.scn" % k)
        self.trc = os.path.join(d, "s%d.nd" % k)
        self.err = os.path.join(d, "s%d.err" % k)
        self.starts = _write(self.scn, scens)
        self.exe = exe
        self.h = None
        self.crash = None
        self.failures = []
        self.events = 0
        self.counts = {}

    def start(self):
        self.e = open(self.err, "w")
        self.p = subprocess.Popen([self.exe, self.scn, self.trc], stdout=self.e,
                                  stderr=subprocess.STDOUT, env=ENV, cwd=os.path.dirname(self.scn))

    def ran(self, timeout):
        try:
            rc = self.p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            rc = 77
        self.e.close()
        err = open(self.err, errors="replace").read()
        if rc == 2:
            raise BuildError("driver: " + err[-500:])
        if rc != 0:
            ln = 0
            lines = open(self.trc, "rb").read().decode("utf8", "replace").splitlines() if os.path.exists(self.trc) else []
            good = []
            for x in lines:
                try:
                    ev = json.loads(x)
                except ValueError:
                    # a line cut short: keep its line number
                    import re
                    m = re.search(r'"ln":(\d+)', x)
                    if m:
                        ln = int(m.group(1))
                    continue
                if ev.get("e") == "hang":
                    continue
                if "ln" in ev:
                    ln = ev["ln"]
                good.append(x)
            owner = self.scens[_owner(self.starts, ln)] if ln else self.scens[0]
            kind = "hang" if rc == 77 else "crash"
            summ = [x for x in err.splitlines() if "ERROR:" in x or "runtime error" in x or "SUMMARY" in x or "Assert" in x]
            self.crash = Failure(owner, kind, "; ".join(summ)[:400] or "exit status %d" % rc)
            # validate what was recorded before the crash
            with open(self.trc, "w") as f:
                f.write("".join(x + "\n" for x in good) + '{"e":"eof"}\n')

    def validate(self):
        self.h = tlc.start_trace(self.trc, module=self.module, env=self.env)

    def finish(self):
        self.events, bad = tlc.finish_trace(self.h)
        if self.crash:
            self.failures.append(self.crash)
        if not bad:
            return
        lines = open(self.trc).read().splitlines()
        for ln, what in bad:
            # the scenario an event belongs to
            own = None
            for k in range(ln - 1, -1, -1):
                ev = json.loads(lines[k])
                if "ln" in ev:
                    own = self.scens[_owner(self.starts, ev["ln"])]
                    break
            self.failures.append(Failure(own, "mismatch", what.strip().rstrip(">"), lines[ln - 1][:3000]))


def run(exe, scens, jobs=None, timeout=600, variant="boost"):
    """-> dict(events, scenarios, failures)"""
    if not scens:
        return dict(events=0, scenarios=0, failures=[])
    jobs = min(jobs or JOBS, max(1, len(scens) // 20 + 1))
    d = tempfile.mkdtemp(prefix="vp-run-")
    try:
        shards = []
        text = registers.write(os.path.join(d, "text.json"), os.path.join(d, "sets"))
        for k in range(jobs):
            part = scens[k::jobs]
            if part:
                shards.append(Shard(d, k, part, exe, dict(ISO8859=IMPL.get(variant, variant), TEXT=text)))
                shards[-1].module = MODULE.get(variant, "Trace")
        for sh in shards:
            sh.start()
        for sh in shards:
            sh.ran(timeout)
            sh.validate()
        err = None
        for sh in shards:
            try:
                sh.finish()
            except tlc.TlcError as e:
                err = e
        if err:
            raise err
        return dict(events=sum(s.events for s in shards), scenarios=len(scens),
                    failures=[f for s in shards for f in s.failures])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def confirm(exe, failure, variant="boost"):
    """Re-run the failing scenario alone; True if it fails again."""
    r = run(exe, [failure.scen], jobs=1, variant=variant)
    return bool(r["failures"]), (r["failures"] or [failure])[0]
