"""Stages of a check: each yields (label, variant, scenarios, model statistics)."""
import random
import gen, scen, tlc
from engine import Scenario
from scen import hx, tagof


def _rng(seed, label, rnd=0):
    return random.Random("%s/%s/%s" % (seed, label, rnd))


def model(module, seed=0, **consts):
    """Exhaustive exploration of a session model; every transition becomes a scenario."""
    c = {k: ('"%s"' % v if k in ("Op", "Kind") else
             str(v).upper() if isinstance(v, bool) else v) for k, v in consts.items()}
    m = tlc.model_check(module, c, workers=8, heap=6000)
    label = module + "(" + ",".join("%s=%s" % kv for kv in sorted(consts.items())) + ")"
    sc = [scen.from_edge(i, h, "m") for i, h in enumerate(m["edges"])]
    return label, sc, m


def pure(kind, maxlen, ops, emit=True):
    """Every byte string over an alphabet: laws on the model, inputs for the implementation."""
    m = tlc.model_check("MCPure", dict(Kind='"%s"' % kind, MaxLen=maxlen, Emit="TRUE" if emit else "FALSE"),
                        workers=8, heap=6000)
    sc = []
    for i, b in enumerate(m["prints"]):
        for op in ops:
            sc.append(Scenario("p%d" % i, [op % hx(b)]))
    return "MCPure(%s,%d)" % (kind, maxlen), sc, m


def texts(kind, maxlen, ops, emit=True):
    """Values with a text, over an alphabet: laws on the model, inputs for the implementation."""
    m = tlc.model_check("MCText", dict(Kind='"%s"' % kind, MaxLen=maxlen, Emit="TRUE" if emit else "FALSE"),
                        workers=8, heap=6000, text=True)
    sc = [Scenario("t%d" % i, [op % hx(b)]) for i, b in enumerate(m["prints"]) for op in ops]
    return "MCText(%s,%d)" % (kind, maxlen), sc, m


def _lop(o):
    k = o["op"]
    if k in ("push", "bpush"):
        return "%s:%s:%s:%d" % (k, tagof(o["t"]), bytes(o["v"]).hex().upper(), o["f"])
    if k == "find":
        return "find:" + tagof(o["t"])
    if k == "parse":
        return "parse:" + hx(o["v"])
    return k


def _aop(o):
    k = o["op"]
    if k == "push":
        return "push:" + hx(o["b"])
    if k == "rm":
        return "rm:%d" % o["n"]
    return k


def lists(maxops, wide=False):
    m = tlc.model_check("MCLists", dict(MaxOps=maxops, Wide=str(wide).upper()), workers=8, heap=6000)
    sc = [Scenario("l%d" % i, ["lops " + " ".join(_lop(o) for o in h)]) for i, h in enumerate(m["prints"])]
    return "MCLists(%d,%s)" % (maxops, wide), sc, m


def apps(maxops, wide=False):
    m = tlc.model_check("MCApps", dict(MaxOps=maxops, Wide=str(wide).upper()), workers=8, heap=6000)
    sc = [Scenario("a%d" % i, ["aops " + " ".join(_aop(o) for o in h)]) for i, h in enumerate(m["prints"])]
    return "MCApps(%d,%s)" % (maxops, wide), sc, m


def lines(name, n, seed, rnd=0, **kw):
    r = _rng(seed, name, rnd)
    return "%s x%d" % (name, n), gen.lines_to_scens(getattr(gen, name)(r, n, **kw), "g"), None


def tlines(name, n, seed, rnd=0, **kw):
    import textgen
    r = _rng(seed, name + repr(sorted(kw.items())), rnd)
    return "%s x%d" % (name, n), gen.lines_to_scens(getattr(textgen, name)(r, n, **kw), "g"), None


SCENARIOS = ("card_every", "many")


def near(name, n, seed, rnd=0, part=1, **kw):
    """Every input, or that part of them, one octet away from well-formed ones."""
    import every
    r = _rng(seed, name + repr(sorted(kw.items())), rnd)
    label = "%s(%s)" % (name, ",".join("%s" % (v,) for v in kw.values())) + ("" if part == 1 else " %g of them" % part)
    all_ = getattr(every, name)(r, **kw) if name in SCENARIOS else list(dict.fromkeys(getattr(every, name)(r, n, **kw)))
    if part < 1:
        all_ = [a for a in all_ if r.random() < part]
    return label, all_ if name in SCENARIOS else gen.lines_to_scens(all_, "g"), None


def sess(name, n, seed, rnd=0, **kw):
    r = _rng(seed, name + repr(sorted(kw.items())), rnd)
    return "%s x%d" % (name, n), gen.sessions(getattr(gen, name), r, n, "g", **kw), None


def prints(module, ops, **consts):
    """A model that prints byte strings: each becomes one scenario per operation."""
    c = {k: ('"%s"' % v if k in ("Op", "Kind") else
             str(v).upper() if isinstance(v, bool) else v) for k, v in consts.items()}
    m = tlc.model_check(module, c, workers=8, heap=6000)
    sc = [Scenario("q%d" % i, [op % hx(b)]) for i, b in enumerate(m["prints"]) for op in ops]
    return module + "(" + ",".join("%s=%s" % kv for kv in sorted(consts.items())) + ")", sc, m


def pcsc(part, maxops, maxx):
    m = tlc.model_check("MCPcsc", dict(Part='"%s"' % part, MaxOps=maxops, MaxX=maxx), workers=8, heap=6000)
    return "MCPcsc(%s,%d)" % (part, maxops), [scen.from_pcsc(i, h) for i, h in enumerate(m["edges"])], m


def pcscgen(n, seed, rnd=0):
    import pcscgen as g
    r = _rng(seed, "pcscgen", rnd)
    return "pcsc histories x%d" % n, [g.history(r, "g%d" % i) for i in range(n)], None


def logged(stage, seed):
    """The scenarios of another stage with the debug log on, its filter changed now and then."""
    label, sc, m = stage
    r = _rng(seed, label + "/log")
    calls = ("build", "select", "init", "read", "tal_", "trx", "cmd")

    def flt():
        return "D %d %d %d" % (r.choice([255, 255, 255, 1, 7, 6, 2, 4, 254, 0, 257]), r.choice([5, 5, 4, 3, 3, 2, 1, 0]), r.random() > .04)
    for s in sc:
        at = [i for i, x in enumerate(s.lines) if x.startswith(calls)]
        for i in reversed(at[1:]):
            if r.random() < .3:
                s.lines.insert(i, flt())
        s.lines.insert(1, "D 255 5 1" if r.random() < .6 else flt())
    return "log of " + label, sc, m


def starved(stage, seed, times=1, most=40):
    """The scenarios of another stage with memory running out in one of their operations."""
    label, sc, m = stage
    r = _rng(seed, label + "/oom")
    ops = ("build", "select", "init", "read", "tal_", "flat", "apppse", "appfci", "lops")
    res = []
    for s in sc:
        at = [i for i, x in enumerate(s.lines) if x.startswith(ops)]
        for k in range(times if at else 0):
            i = r.choice(at)
            n = r.choice([1, 2, 3, 4, 5, 6, r.randrange(1, most)])
            res.append(Scenario("%so%d" % (s.sid, k), _sid(s.lines, "o%d" % k)[:i] + ["F %d" % n] + s.lines[i:]))
    return "memory fails: " + label, res, m


def exhausted(name, n, seed, rnd=0, most=36, **kw):
    """Seeded sessions, each with every allocation of one of its operations failing in turn."""
    r = _rng(seed, "exhausted" + name + repr(sorted(kw.items())), rnd)
    res = []
    for s in gen.sessions(getattr(gen, name), r, n, "e", **kw):
        at = [i for i, x in enumerate(s.lines) if x.startswith(("build", "select", "init", "read", "tal_"))]
        if not at:
            continue
        i = r.choice(at)
        for k in range(1, most + 1):
            res.append(Scenario("%sn%d" % (s.sid, k), _sid(s.lines, "n%d" % k)[:i] + ["F %d" % k] + s.lines[i:]))
    return "every allocation of %s x%d" % (name, n), res, None


def _sid(lines, tail):
    h = lines[0].split()
    return [" ".join([h[0], h[1] + tail] + h[2:])] + lines[1:] if h[0] == "S" else list(lines)


def invariants(module, **consts):
    """A model explored for its invariants only."""
    c = {k: str(v).upper() if isinstance(v, bool) else v for k, v in consts.items()}
    m = tlc.model_check(module, c, workers=8, heap=6000)
    return module + "(" + ",".join("%s=%s" % kv for kv in sorted(consts.items())) + ")", [], m


def tools(name, n, seed, rnd=0, **kw):
    import toolgen
    r = _rng(seed, name + repr(sorted(kw.items())), rnd)
    return "%s x%d" % (name, n), gen.lines_to_scens(getattr(toolgen, name)(r, n, **kw), "g"), None


def printed(kind, maxlen, *ops):
    """Every short byte string, or command line, with the laws of print-outs."""
    import toolgen
    m = tlc.model_check("MCPrint", dict(Kind='"%s"' % kind, MaxLen=maxlen), workers=8, heap=6000, text=True)
    if kind == "cli":
        sc = [Scenario("c%d" % i, [toolgen._cli(x["opts"], [bytes(a) for a in x["args"]], bytes(x["in"]))]) for i, x in enumerate(m["prints"])]
    else:
        sc = [Scenario("b%d" % i, [op % hx(b)]) for i, b in enumerate(m["prints"]) for op in ops]
    return "MCPrint(%s,%d)" % (kind, maxlen), sc, m


def toolmodel(part, emit=True, **consts):
    m = tlc.model_check("MCTool", dict(consts, Part='"%s"' % part, Emit=str(emit).upper()), workers=8, heap=6000, text=True)
    label = "MCTool(" + ",".join([part] + ["%s=%s" % kv for kv in sorted(consts.items())]) + ")"
    return label, [scen.from_tool(i, h) for i, h in enumerate(m["edges"])], m


def toolruns(n, seed, rnd=0, **kw):
    import toolrun
    r = _rng(seed, "toolrun" + repr(sorted(kw.items())), rnd)
    return "emv-tool runs x%d" % n, [toolrun.run(r, "g%d" % i, **kw) for i in range(n)], None


def toolnear(name, seed, **kw):
    import toolrun
    return "emv-tool " + name, getattr(toolrun, name)(_rng(seed, name), **kw), None
