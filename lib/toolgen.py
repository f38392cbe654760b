"""Seeded inputs for what the tools print.  They only choose inputs."""
import zlib
import gen, registers, textgen
from gen import H, mutate, rand_ber, rand_dol, rand_tlv, rb, tagb, tlv
from textgen import TAGS, SPECIAL, tagvalue

TEMPLATES = [0x70, 0x77, 0x6F, 0xA5, 0xBF0C, 0x61, 0x71, 0x72, 0xE1, 0x73, 0x7F49, 0x30]
LISTED = [t for t in TAGS if t[1] in ("none",) and t[0] in (0x8C, 0x8D, 0x97, 0x9F38, 0x9F49, 0x9F4A, 0x9F5C)]
STRINGS = [0x0C, 0x13, 0x16, 0x12, 0x14, 0x07, 0x1A, 0x1E, 0x1F, 0x06, 0x0A, 0x04, 0x02, 0x1B]


def emv_field(r, depth=0):
    if depth < 3 and r.random() < 0.25:
        body = b"".join(emv_field(r, depth + 1) for _ in range(r.choice([0, 1, 1, 2, 3])))
        if r.random() < 0.08:
            return tagb(r.choice(TEMPLATES)) + b"\x80" + body + b"\0\0"
        return tlv(r.choice(TEMPLATES), body, r.choice([0, 0, 0, 0, 1, 2]))
    x = r.random()
    if x < 0.12:
        t = r.choice([0x8C, 0x8D, 0x97, 0x9F38, 0x9F49, 0x9F29])
        return tlv(t, rand_dol(r, 6))
    if x < 0.2:
        return tlv(r.choice([0x5C, 0x9F4A]), b"".join(tagb(q[0]) for q in r.sample(TAGS, r.choice([1, 2, 3]))) + (rb(r, 1) if r.random() < 0.2 else b""))
    t, act, vf, mx = r.choice(TAGS) if x < 0.9 else (r.choice(SPECIAL), "", "", 0)
    return tlv(t, tagvalue(r, t, act, vf, mx))


def ber_field(r, depth=0):
    x = r.random()
    if x < 0.5:
        return rand_tlv(r, depth, 0.03)
    if depth < 3 and x < 0.7:
        return tlv(r.choice([0x30, 0x31, 0xA0, 0x61]), b"".join(ber_field(r, depth + 1) for _ in range(r.choice([1, 2, 3]))))
    t = r.choice(STRINGS)
    if t == 6:
        b = bytes([r.choice([0x2A, 0x55, 0x60, 0x00, 0x78])]) + b"".join(
            r.choice([b"\x86\x48", b"\x86\xF7\x0D", b"\x01", b"\x82\x37", b"\x8F\xFF\xFF\xFF\x7F", rb(r, 1)]) for _ in range(r.choice([0, 1, 3, 6])))
        return tlv(6, b)
    n = r.choice([0, 1, 3, 8, 20]) if r.random() < 0.985 else r.choice([1022, 1023, 1024, 1025])
    b = textgen.txt(r, bytes(range(0x20, 0x7F)) + b"\0\n\xC3\xA9\"\\", n)
    return tlv(t, b)


def tree(r, field):
    b = b"".join(field(r) for _ in range(r.choice([1, 1, 2, 3, 4])))
    x = r.random()
    if x < 0.25:
        b = mutate(r, b)
    elif x < 0.6:                                  # cipher padding of every kind
        k = r.choice([8, 16])
        n = r.choice([-len(b) % k, -len(b) % 8, -len(b) % 16, r.randrange(0, 20)])
        b += r.choice([b"\x80", b"\x12", b"\xFF", b"\x9F", b"\x5A", bytes([n & 255])])[:n] + (rb(r, max(0, n - 1)) if r.random() < 0.6 else r.choice([b"\0", b"\xFF", bytes([n & 255])]) * max(0, n - 1))
    elif x < 0.7:                                  # padding inside a template
        inner = b + rb(r, r.choice([1, 3, 7, 8, 9, 15]))
        b = tlv(r.choice(TEMPLATES), inner) + (field(r) if r.random() < 0.5 else b"") + (rb(r, r.choice([1, 2, 6])) if r.random() < 0.5 else b"")
    elif x < 0.75:
        b = b[:r.randrange(0, len(b) + 1)]
    return b


def tags(r):
    b = b"".join(tagb(r.choice(TAGS)[0]) for _ in range(r.choice([0, 1, 2, 3, 5])))
    return b + (rb(r, r.choice([1, 2])) if r.random() < 0.2 else b"")


def flatlist(r):
    return b"".join(emv_field(r, 9 if r.random() < 0.8 else 0) for _ in range(r.choice([0, 1, 2, 3])))


def fci(r):
    b = gen.fci(r, gen.rand_aid(r))
    return mutate(r, b) if r.random() < 0.15 else b


def item(r, k):
    if k == "ber":
        return tree(r, ber_field if r.random() < 0.8 else emv_field)
    if k == "emv":
        return tree(r, emv_field if r.random() < 0.85 else ber_field)
    if k == "tlv":
        return emv_field(r)
    if k == "list":
        return flatlist(r)
    if k == "dol":
        return rand_dol(r)
    if k == "tags":
        return tags(r)
    if k == "atr":
        return gen.rand_atr(r)
    if k == "capdu":
        return textgen.capdu(r)
    if k == "rapdu":
        b = rb(r, r.choice([0, 0, 1, 2, 5, 30]))
        return b + r.choice([b"\x90\0", b"\x6A\x82", b"\x61" + rb(r, 1), b"\x6C" + rb(r, 1), b"\x63\xC2", rb(r, 2), bytes([0x60 + r.randrange(16)]) + rb(r, 1), b"", b"\x90"])
    if k == "sw":
        return r.choice([b"\x90\0", bytes([0x60 + r.randrange(16), r.randrange(256)]), rb(r, 2)])
    if k == "buf":
        return rb(r, r.choice([0, 1, 2, 16, 300]))
    if k == "strs":
        return b"\n".join(textgen.txt(r, textgen.ALNUM, r.choice([0, 1, 4, 9])) for _ in range(r.choice([1, 2, 3, 5]))) + r.choice([b"\n", b"", b"\n\n"])
    if k == "app":
        return fci(r)


KINDS = ["ber", "ber", "ber", "emv", "emv", "emv", "emv", "tlv", "tlv", "list", "dol", "tags", "atr", "atr", "capdu", "rapdu", "sw", "buf", "strs", "app"]
PREFIX = ["2020", "2020", "2020", "09", "2E", "7C20", "-"]


def print_lines(r, n, kinds=KINDS):
    for _ in range(n):
        k = r.choice(kinds)
        b = item(r, k)
        if k == "buf":
            p = r.choice(["-", "41", "4142432044"])
        else:
            p = r.choice(PREFIX)
        yield "pr %s %s %d %d %s" % (k, H(b), r.choice([0, 1]) if k in ("ber", "emv") else 0, r.choice([0, 0, 1, 2, 5]), p)


def print_sizes(r, n):
    """Every size of what is printed, and every depth."""
    for k in range(0, 262):
        yield "pr rapdu %s 0 0 -" % H(rb(r, k) + r.choice([b"\x90\0", b"\x6A\x82", b"\x62\x83"]))
        c = bytes([r.choice([0, 0x80]), r.choice([0xA4, 0xB2, 0xA8, 0xCA, 0xDA]), r.choice([0, 4, 1]), r.randrange(4)])
        yield "pr capdu %s 0 0 -" % H(c + (bytes([k & 255]) + rb(r, k & 255) + r.choice([b"", b"\0"]) if k & 255 else r.choice([b"", b"\0"])))
        yield "pr buf %s 0 0 %s" % (H(rb(r, k)), r.choice(["-", "41"]))
        for f in (1, 2, 5, 6):
            if k % 4 == f % 4:
                b = rb(r, k) + b"\x90\0" if f == 6 else c + bytes([k & 255]) + rb(r, k & 255) if f == 5 and k & 255 else rb(r, max(k, 1))
                yield "pr dbg %s %d %d %d %d %d %s" % (H(b), f, r.choice([1, 2, 4, 8]), r.choice([1, 2, 3, 4]), r.choice([0, 1234567]), k & 1, H(b"x" * (k % 50 + 1)))
    for k in range(0, 64):
        yield "pr dol %s 0 %d 2020" % (H(b"".join(tagb(r.choice(TAGS)[0]) + rb(r, 1) for _ in range(k))), r.choice([0, 1, 2]))
        yield "pr tags %s 0 %d 2020" % (H(b"".join(tagb(r.choice(TAGS)[0]) for _ in range(k))), r.choice([0, 1, 2]))
        yield "pr strs %s 0 %d 2020" % (H(b"\n".join(b"L%d" % i for i in range(k))), r.choice([0, 1, 2]))
        yield "pr list %s 0 0 -" % H(b"".join(tlv(r.choice(TAGS)[0], rb(r, 2)) for _ in range(k)))
        b = tlv(r.choice([0x9F02, 0x5A, 0x50]), rb(r, r.choice([1, 6, 7]))) + (r.choice([b"\x80", b"\xFF", b"\x9F"]) * r.randrange(1, 8) if k & 1 else b"")
        for _ in range(k % 32):
            b = tlv(r.choice(TEMPLATES), b)
        for f in ("ber", "emv"):
            yield "pr %s %s %d %d %s" % (f, H(b), k & 1, r.choice([0, 1, 3]), r.choice(["2020", "09"]))
            yield "pr %s %s %d 0 2020" % (f, H(tlv(r.choice([0x8C, 0x9F38, 0x9F49, 0xC1, 0x5F20, 0x9F4A, 0x5C]), b"".join(tagb(r.choice(TAGS)[0]) + bytes([4]) for _ in range(k)))), k & 1)


def entry_lines(r, n):
    for _ in range(n):
        t = r.choice([1, 2, 3, 4, 5, 6])
        b = item(r, {1: "buf", 2: "buf", 3: "emv", 4: "atr", 5: "capdu", 6: "rapdu"}[t])
        s = textgen.txt(r, textgen.ALNUM + b" %", r.choice([1, 5, 20])) if r.random() < 0.98 else b""
        yield "pr dbg %s %d %d %d %d %d %s" % (H(b), t, r.choice([1, 2, 4, 8, 8, 0, 3, 16]), r.choice([1, 2, 3, 4, 0, 5]),
                                               r.choice([0, 1, 999, 1234567, 1 << 31, (1 << 32) - 1]), r.choice([0, 1]), H(s))


# ---- emv-decode ------------------------------------------------------------
FIELDS = {"mcc": "mcc", "9F15": "mcc", "term-type": "termtype", "9F35": "termtype", "term-caps": "termcaps", "9F33": "termcaps",
          "addl-term-caps": "addlcaps", "9F40": "addlcaps", "cvm-list": "cvmlist", "8E": "cvmlist", "cvm-results": "cvmres", "9F34": "cvmres",
          "tvr": "tvr", "95": "tvr", "tsi": "tsi", "9B": "tsi", "issuer-app-data": "iad", "9F10": "iad", "ttq": "ttq", "9F66": "ttq",
          "ctq": "ctq", "9F6C": "ctq", "amex-cl-reader-caps": "clcaps", "9F6D": "clcaps", "mastercard-third-party-data": "tpd", "visa-ffi": "ffi",
          "amex-enh-cl-reader-caps": "enhcl", "terminal-risk-management-data": "trmd", "9F1D": "trmd"}
LOOK = ["country", "iso3166-1", "currency", "iso4217", "language", "iso639"]
DATA = {"atr": "atr", "sw1sw2": "sw", "ber": "ber", "tlv": "emv", "dol": "dol", "tag-list": "tags"}
MODES = list(FIELDS) + LOOK + list(DATA) + ["iso8859-%d" % i for i in range(1, 16) if i != 12]
FREE = [m for m in FIELDS if FIELDS[m] not in ("mcc", "tpd")] + ["sw1sw2", "ber"]      # modes no register matters to
_sets = {n: {k: told for k, (_, told) in s.items()} for n, s in registers.sets().items()}


def hexarg(r, b):
    s = bytes(b).hex()
    s = s.upper() if r.random() < 0.5 else "".join(r.choice([c, c.upper()]) for c in s)
    if r.random() < 0.25 and s:
        s = "".join(c + (r.choice([" ", "\t", "\n", "  "]) if r.random() < 0.2 else "") for c in s[:-1]) + s[-1]
    if r.random() < 0.02:
        s = " " + s
    if r.random() < 0.05:
        i = r.randrange(len(s) + 1)
        s = s[:i] + r.choice(["g", "x", "-", "/", ":", "@", "`", "\xe9", "", " "]) + s[i + (r.random() < 0.5):]
    return s.encode("latin-1").lstrip(b"-")


def code(r, mode, reg=None):
    """A code to look up"""
    m = {"iso3166-1": "country", "iso4217": "currency", "iso639": "language"}.get(mode, mode)
    x = r.random()
    if reg:
        rows = _sets[reg]["c" if m == "country" else "k" if m == "currency" else "l"]["rows"]
        keys = [v for row in rows for k, v in row.items() if k in ("alpha_2", "alpha_3", "numeric")]
        if keys and x < 0.85:
            s = r.choice(keys)
            return s.rjust(r.choice([2, 3, 3]), "0") if s.isdigit() else s
    t = textgen._reg
    if x < 0.6:
        s = r.choice(list(dict(country={**t["country2"], **t["country3"]}, currency=t["currency3"], language={**t["language2"], **t["language3"]})[m]))
    elif x < 0.85:
        s = r.choice(list(t["currency"] if m == "currency" else t["country"])).rjust(r.choice([2, 3, 3, 3]), "0")
    else:
        s = r.choice(["A", "", "ABCD", "zz", "ZZZ", "nl", "eur", "EN", "+52", " 40", "5 0", "12a", "1 ", "000", "999", "4", "0x1", "1e2", "\xe9\xe9", "NLD ", "ab\xff"])
    return s


def arg(r, mode, n=None, reg=None):
    if mode in LOOK:
        return code(r, mode, reg).encode("latin-1")
    if mode in DATA:
        b = item(r, DATA[mode])
    elif mode in FIELDS:
        b = textgen.value(r, FIELDS[mode]) if FIELDS[mode] != "tpd" else textgen.tpd(r)
        if reg and FIELDS[mode] == "mcc" and r.random() < 0.9:
            rows = [x["numeric"] for x in _sets[reg]["m"]["rows"] if "numeric" in x]
            b = bytes.fromhex(r.choice(rows).rjust(4, "0")) if rows else b
    elif mode.startswith("iso8859"):
        b = rb(r, r.choice([1, 2, 5, 16])) if r.random() < 0.97 else rb(r, r.choice([700, 1100, 2100]))
    else:
        b = rb(r, r.choice([1, 2, 3]))
    if r.random() < 0.06:
        b = b[:-1] if r.random() < 0.5 else b + rb(r, 1)
    return b


def _cli(opts, args, stdin=None, iso=None, mcc=None, r=None):
    t = ["o:" + o for o in opts]
    t += ["a:" + H(a) for a in args]
    if iso:
        t += ["iso:" + iso, "mcc:" + mcc]
    if r and r.random() < 0.3:
        r.shuffle(t)
        # options and arguments keep their own order
        os_, as_ = iter("o:" + o for o in opts), iter("a:" + H(a) for a in args)
        t = [next(os_) if x.startswith("o:") else next(as_) if x.startswith("a:") else x for x in t]
    if stdin is not None:
        t.append("i:" + H(stdin))
        x = zlib.crc32(bytes(stdin) + bytes([len(t)])) % 16      # how the input arrives
        if not stdin and x < 8:
            t.append("p:0")
        elif stdin and x < 6:
            t.append("p:%d" % max(1, len(stdin) // (1, 2, 3, 7, 20, 4)[x] + x % 2))
    return "cli " + " ".join(t)


def cli_lines(r, n, sets=0.12):
    names = list(_sets)
    good = [x for x in names if x.startswith("good")]
    for j in range(n):
        mode = MODES[j % len(MODES)] if r.random() < 0.6 else r.choice(MODES)
        iso = mcc = None
        if r.random() < sets:
            pick = lambda: r.choice(good) if r.random() < 0.7 else r.choice(names)
            iso, mcc = pick(), pick()
            mode = r.choice(LOOK + ["mcc", "9F15"] * 2) if r.random() < 0.85 else r.choice(FREE)
        opts, args, stdin = [mode], [], None
        k = r.choice([1] * 30 + [0, 2, 2])
        for _ in range(k):
            b = arg(r, mode, reg=(mcc if mode in ("mcc", "9F15") else iso))
            if mode in LOOK:
                args.append(b)
            elif r.random() < 0.12:
                args.append(b"-")
                stdin = b if r.random() < 0.9 else b""
            else:
                args.append(hexarg(r, b))
        if r.random() < (0.5 if mode in ("ber", "tlv") else 0.05):
            opts.insert(r.randrange(2), "ignore-padding")
        x = r.random()
        if x < 0.01:
            opts = [o for o in opts if o != mode]
        elif x < 0.02:
            opts.insert(r.randrange(len(opts) + 1), r.choice(MODES + [mode]))
        elif x < 0.03:
            opts.insert(r.randrange(len(opts) + 1), r.choice(["version", "iso8859-x", "iso8859-12", "iso8859-16", "nonsense", "help", "usage"]))
        args = [a for a in args if b"\0" not in a and (a == b"-" or not a.startswith(b"-"))]
        if iso and not any(o in LOOK + ["mcc", "9F15"] + FREE + ["ignore-padding"] for o in opts):
            iso = mcc = None
        yield _cli(opts, args, stdin, iso, mcc, r)
    for o in ["help", "usage", "version", "iso8859-x"]:
        yield _cli([o], [])
    for k in (4091, 4092, 4093, 6000, 8188):            # standard input of many blocks
        yield _cli(["ber"], [b"-"], tlv(4, rb(r, k)))
    yield _cli([], [])


def code_all(r, n):
    """Every code of the registers, and every n-th of the rest."""
    t = textgen._reg
    for m, keys in (("country", {**t["country2"], **t["country3"]}), ("currency", t["currency3"]), ("language", {**t["language2"], **t["language3"]})):
        for i, k in enumerate(keys):
            if i % n == r.randrange(n):
                yield _cli([m], [k.encode()])
    for m in ("country", "currency"):
        for k in range(1000):
            if k % n == r.randrange(n):
                yield _cli([m], [b"%03d" % k])
