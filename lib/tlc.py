"""Running TLC: model checking (with behaviours printed as EDGE lines) and trace validation."""
import json, os, re, shutil, subprocess, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


def _cmd(module, cfg, metadir, workers, heap, extra=()):
    return ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx%dm" % heap, "-XX:ParallelGCThreads=2",
            "-Djava.io.tmpdir=" + metadir, "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
            "-metadir", metadir, "-noGenerateSpecTE", "-config", cfg] + list(extra) + \
        [os.path.join(SPEC, module + ".tla")]


def model_check(module, constants=None, cfg_text=None, workers=4, heap=4000, timeout=600,
                edges=True, simulate=None, seed=None, text=False):
    """Check a model.  Returns dict(states, distinct, depth, edges, wall).
    An invariant violation of the specification itself is a TlcError (a broken model)."""
    d = tempfile.mkdtemp(prefix="vp-tlc-")
    try:
        if cfg_text is None:
            cfg_text = open(os.path.join(SPEC, module + ".cfg")).read()
        for k, v in (constants or {}).items():
            cfg_text, n = re.subn(r"(?<=\b%s = )\S+" % re.escape(k), str(v), cfg_text)
            if not n:
                raise TlcError("no constant %s in %s" % (k, module))
        cfg = os.path.join(d, module + ".cfg")
        with open(cfg, "w") as f:
            f.write(cfg_text)
        extra = []
        if simulate:
            extra = ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1])]
            if seed is not None:
                extra += ["-seed", str(seed)]
        env = dict(os.environ)
        if text:
            import registers
            env["TEXT"] = registers.write(os.path.join(d, "text.json"))
        t0 = time.time()
        outp = os.path.join(d, "out")
        with open(outp, "w") as o:
            p = subprocess.run(_cmd(module, cfg, d, workers, heap, extra), stdout=o,
                               stderr=subprocess.STDOUT, timeout=timeout, cwd=SPEC, env=env)
        res = dict(states=0, distinct=0, depth=0, edges=[], wall=0.0, module=module,
                   constants=dict(constants or {}), prints=[])
        tail = []
        with open(outp) as o:
            for line in o:
                if line.startswith('"EDGE '):
                    if edges:
                        res["edges"].append(json.loads(json.loads(line)[5:]))
                    continue
                if line.startswith('"OUT '):
                    res["prints"].append(json.loads(json.loads(line)[4:]))
                    continue
                m = re.match(r"(\d+) states generated, (\d+) distinct", line)
                if m:
                    res["states"], res["distinct"] = int(m.group(1)), int(m.group(2))
                m = re.match(r"The number of states generated: (\d+)", line)
                if m:
                    res["states"] = res["distinct"] = int(m.group(1))
                m = re.match(r"The depth of the complete state graph search is (\d+)", line)
                if m:
                    res["depth"] = int(m.group(1))
                tail.append(line)
                del tail[:-60]
        res["wall"] = round(time.time() - t0, 2)
        text = "".join(tail)
        done = "Model checking completed. No error" in text or \
            (simulate and p.returncode == 0) or "No errors found" in text
        if p.returncode != 0 or not done:
            raise TlcError("TLC on %s: exit %d\n%s" % (module, p.returncode, text[-3000:]))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def start_trace(trace, module="Trace", heap=2500, env=None):
    """Start validating a trace file; returns a handle for finish_trace."""
    d = tempfile.mkdtemp(prefix="vp-tlc-")
    env = dict(os.environ, TRACE=trace, **(env or {}))
    outp = os.path.join(d, "out")
    o = open(outp, "w")
    p = subprocess.Popen(_cmd(module, os.path.join(SPEC, module + ".cfg"), d, 1, heap), stdout=o,
                         stderr=subprocess.STDOUT, cwd=SPEC, env=env)
    return dict(p=p, d=d, out=outp, o=o, trace=trace)


def finish_trace(h, timeout=800):
    """-> (events, [(line, description)])"""
    try:
        try:
            rc = h["p"].wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            h["p"].kill()
            raise TlcError("trace validation timed out: " + h["trace"])
        h["o"].close()
        text = open(h["out"]).read()
        end = re.search(r'<<"TRACE-END", (\d+), (\d+)>>', text)
        if rc != 0 or not end:
            raise TlcError("trace validation failed: exit %s\n%s" % (rc, text[-3000:]))
        bad = []
        ends = [m.start() for m in re.finditer(r'<<\s*"(?:MISMATCH|TRACE-END)",', text)] + [len(text)]
        for k, m in enumerate(re.finditer(r'<<\s*"MISMATCH",\s*(\d+),', text)):
            stop = min(e for e in ends if e > m.start())
            bad.append([int(m.group(1)), re.sub(r"\s+", " ", text[m.end():min(stop, m.end() + 3000)])])
        if len(bad) != int(end.group(2)):
            raise TlcError("mismatch count differs: %d vs %s" % (len(bad), end.group(2)))
        return int(end.group(1)), [tuple(b) for b in bad]
    finally:
        shutil.rmtree(h["d"], ignore_errors=True)
