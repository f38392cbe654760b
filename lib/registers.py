"""The registers of names the text decoders use, as data for the specification: read from
the same iso-codes and MCC files the library loads, by this independent reader."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ISOCODES = "/usr/share/iso-codes/json"
MCC = os.path.join(VERIF, "harness", "data", "mcc.json")
ENV = dict(VP_ISOCODES=ISOCODES, VP_MCC=MCC)


def latin(s):
    """UTF-8 octets as characters, the way texts are recorded"""
    return s.encode("utf8").decode("latin-1")


def first(rows, key, norm=lambda x: x):
    out = {}
    for r in rows:
        if key in r:
            out.setdefault(norm(r[key]), latin(r["name"]))
    return out


def data():
    def load(name, key):
        return json.load(open(os.path.join(ISOCODES, name)))[key]
    c, cur, lang = load("iso_3166-1.json", "3166-1"), load("iso_4217.json", "4217"), load("iso_639-2.json", "639-2")
    num = lambda x: str(int(x))
    return dict(
        chr=[chr(i) for i in range(256)],
        country=first(c, "numeric", num), country2=first(c, "alpha_2"), country3=first(c, "alpha_3"),
        currency=first(cur, "numeric", num), currency3=first(cur, "alpha_3"),
        language2=first(lang, "alpha_2"), language3=first(lang, "alpha_3"),
        mcc={num(m["mcc"]): latin(m["edited_description"]) for m in json.load(open(MCC))})


# Alternative registers: small files of every kind, for loading and re-loading
KINDS = dict(c=("iso_3166-1.json", "3166-1"), k=("iso_4217.json", "4217"), l=("iso_639-2.json", "639-2"), m=("mcc.json", None))


def _rows(r, kind, n):
    A = "ABCDE"
    code = lambda k, low=False: "".join(r.choice("abcde" if low else A) for _ in range(k))
    name = lambda: r.choice(["Land", "Geld", "Taal", "Winkel", "R\u00e9publique", "\u65e5\u672c", "A \"quoted\" name", "x" * 130]) + " %d" % r.randrange(1000)
    rows = []
    for _ in range(n):
        if kind == "c":
            row = dict(alpha_2=code(2), alpha_3=code(3), name=name(), numeric="%03d" % r.randrange(0, 40), official_name="Other")
        elif kind == "k":
            row = dict(alpha_3=code(3), name=name(), numeric="%03d" % r.randrange(0, 40))
        elif kind == "l":
            row = dict(alpha_2=code(2, True), alpha_3=code(3, True), name=name(), bibliographic="x")
            if r.random() < 0.4:
                del row["alpha_2"]
        else:
            row = dict(mcc="%04d" % r.randrange(1, 40), edited_description=name(), combined_description="Other", id=7)
        rows.append(row)
    return rows


def _file(r, kind, form):
    """-> (text or None, what the specification is told)"""
    if form == "missing":
        return (None if r.random() < 0.6 else '{"x": [', dict(kind="missing", rows=[]))
    key = KINDS[kind][1]
    if form == "shape":
        t = r.choice(['{"other": [{"name": "x"}]}', '{"%s": []}' % key, '{"%s": {"a": "b"}}' % key] if key else ['{"a": "b"}', "[]"])
        return t, dict(kind="shape", rows=[])
    rows = _rows(r, kind, r.choice([1, 3, 8, 20]))
    if form == "bad":
        req = dict(c=["alpha_2", "alpha_3", "name", "numeric"], k=["alpha_3", "name", "numeric"], l=["alpha_3", "name"], m=["edited_description", "mcc"])[kind]
        row = r.choice(rows)
        if kind in "ck" and r.random() < 0.4:
            row["numeric"] = r.choice(["", "abc", "X12"])
        elif kind == "m" and r.random() < 0.4:
            row["mcc"] = r.choice(["", "0000", "abc", "-005"])
        else:
            del row[r.choice(req)]
    doc = {key: rows} if key else rows
    told = [{k: v if k in ("alpha_2", "alpha_3", "numeric", "mcc") else latin(v) for k, v in row.items()
             if k in ("alpha_2", "alpha_3", "numeric", "mcc", "name", "edited_description")} for row in rows]
    for row in told:
        for k in ("numeric", "mcc"):
            if k in row and row[k].isdigit():
                row[k] = str(int(row[k]))
        if "edited_description" in row:
            row["name"] = row.pop("edited_description")
        if "mcc" in row:
            row["numeric"] = row.pop("mcc")
    return json.dumps(doc, ensure_ascii=r.random() < 0.5), dict(kind=form, rows=told)


def sets():
    """name -> {register: (text, told)}, always the same"""
    import random
    r = random.Random("registers")
    out = {}
    for i in range(10):
        out["good%d" % i] = {k: _file(r, k, "ok") for k in KINDS}
    for form in ("missing", "shape", "bad"):
        for k in KINDS:
            for i in range(2):
                out["%s_%s%d" % (form, k, i)] = {x: _file(r, x, form if x == k else "ok") for x in KINDS}
    return out


def write(path, setdir=None):
    d = data()
    if setdir:
        ss = sets()
        d["sets"] = {n: {k: told for k, (_, told) in s.items()} for n, s in ss.items()}
        for n, s in ss.items():
            os.makedirs(os.path.join(setdir, n))
            for k, (text, _) in s.items():
                if text is not None:
                    with open(os.path.join(setdir, n, KINDS[k][0]), "w", encoding="utf8") as f:
                        f.write(text)
    with open(path, "w") as f:
        json.dump(d, f)
    return path
