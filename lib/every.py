"""Systematic neighbours: well-formed inputs with every octet replaced by other values, cut short at
every place and extended, where the random generators would only hit some of them."""
import random
from engine import Scenario
from gen import H, tlv, tagb
import gen, textgen

NEAR = None


def values(v, wide):
    if wide:
        return range(256)
    return sorted(set([v ^ (1 << i) for i in range(8)] + [0, 0xFF, (v + 1) & 0xFF, (v - 1) & 0xFF]) - {v})


def neighbours(b, wide=True, cut=True, at=None):
    """b, and everything one octet away from it"""
    b = bytes(b)
    yield b
    for i in range(len(b)) if at is None else at:
        for v in values(b[i], wide):
            if v != b[i]:
                yield b[:i] + bytes([v]) + b[i + 1:]
    if cut:
        for k in range(len(b)):
            yield b[:k]
        for x in (0, 0x20, 0x90, 0xFF):
            yield b + bytes([x])
        for i in range(len(b)):
            yield b[:i] + b[i + 1:]
            yield b[:i] + b[i:i + 1] + b[i:]


def x(s):
    return bytes.fromhex(s.replace(" ", ""))


# ---- single calls ---------------------------------------------------------------
BER = [x("9F02 06 000000001234 5F2A 02 0978"), x("70 0C 5A 03 112233 9F36 02 0001 8C 00"), x("7081 05 5A 8103 112233"), x("7082 0007 5A 820003 112233"),
       x("70 80 5A 02 1122 0000 9A 01 07"), x("BF0C 80 61 80 4F 01 A0 0000 0000"), x("DF8129 02 0102 FF8105 03 5A 01 07"), x("7083 000003 5A 01 07"),
       x("7084 00000003 5A 01 07"), x("1F818283 01 07")]
OIDS = [x("2A864886F70D010101"), x("28 CA 22 02 03"), x("88 37 8F FF FF FF 7F 01"), x("01"), x("78 81 00")]
AFLS = [x("08010100 10010301"), x("F0FFFF01"), x("08010402 50010200 98020300")]
DOLS = [x("9F0206 9F0306 9F1A02 95 05 5F2A02 9A03"), x("9F3704 DF810A01 9C01 80 00"), x("8A02 BF0C 05 9F4B80")]


def ber_every(r, n):
    for b in BER:
        for v in neighbours(b):
            for op in ("ber", "berit", "flat"):
                yield "%s %s" % (op, H(v))
    for b in OIDS:
        for v in neighbours(b):
            yield "oid %s" % H(v)


def afl_every(r, n):
    for b in AFLS:
        for v in neighbours(b):
            yield "afl %s" % H(v)
    for a in range(256):
        for f, l, o in ((1, 1, 0), (1, 1, 1), (1, 1, 2), (2, 1, 0), (0, 0, 0), (1, 255, 255), (255, 255, 1)):
            yield "afl %02X%02X%02X%02X" % (a, f, l, o)
    for f in range(0, 256, 5):
        for l in range(f - 1 if f else 0, min(256, f + 3)):
            for o in range(0, 5):
                yield "afl 08%02X%02X%02X" % (f, l, o)


def dol_every(r, n):
    for b in DOLS:
        for v in neighbours(b):
            yield "dol %s" % H(v)
    # each tag with each length, the value shorter, as long and longer than asked for
    for t in [t for t, _, _, _ in textgen.TAGS]:
        for want in (0, 1, 2, 3, 6, 9):
            v = H(gen.rb(r, r.choice([1, 2, 3, 6])))
            yield "dolb %s%02X 300 %s %s" % (H(tagb(t)), want, "%X:%s:0" % (t, v) if r.random() < .8 else "-", "%X:%s:0" % (t, H(gen.rb(r, 2))) if r.random() < .5 else "-")


def tcks(b):
    k = 0
    for v in b[1:]:
        k ^= v
    return b + bytes([k])


ATRS = [(x("3B 60 00 00"), 0), (x("3B E0 00 00 81 31 20 45"), 1), (x("3B F4 13 00 00 81 31 FE 45 41 42 43 44"), 1), (x("3B 90 11 10 00"), 0),
        (x("3B E5 00 00 40 0A 80 31 C0 73 C8"), 0), (x("3B 69 00 FF 80 65 A2 01 02 03 82 90 00"), 0), (x("3B 64 00 00 00 07 90 00"), 0),
        (x("3B D2 18 00 81 31 FE 58 10 90"), 1), (x("3B F0 11 00 FF 91 81 71 FE 45 00"), 1), (x("3B 80 80 1F 43"), 1), (x("3F E0 00 00 80 81 31 20 35"), 1),
        (x("3B F2 12 00 00 91 91 B1 20 41 1F C7 41 42"), 1), (x("3B 68 00 00 10 55 66 77 88 99 AA BB"), 0)]


def atr_every(r, n, kinds=("atr",)):
    for b, t in ATRS:
        for v in neighbours(b):
            w = [tcks(v), v] if t else [v]
            for y in w if r.random() < .15 else w[:1]:
                for k in kinds:
                    yield "%s %s" % (k if k != "atrs" else "atrs 150", H(y))
        if t:
            for v in neighbours(tcks(b), cut=False):
                for k in kinds:
                    yield "%s %s" % (k if k != "atrs" else "atrs 150", H(v))


def atr_caps(r, n):
    """Texts of ATRs whose interface octets have much to say, in every capacity"""
    some = [tcks(b) if t else b for b, t in ATRS]
    for v in (0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x41, 0x82, 0xC7, 0xC6, 0x08, 0x00, 0x3F):
        some.append(tcks(x("3B 80 80 1F") + bytes([v])))
        some.append(tcks(x("3B F0 96 65 0A 91 81 B1 FE 45 01 3F") + bytes([v ^ 0x40, v])))
    for v in (0x00, 0x45, 0x65, 0x25, 0x80, 0xFF):
        some.append(x("3B F0") + bytes([0x11 + (v & 7), v, v ^ 0xFF, 0x10]) + bytes([0x90 ^ v]))
        some.append(x("3B F0 11") + bytes([v, v, 0x00]))
        some.append(tcks(x("3B F0 11") + bytes([v, 255 - v]) + x("F1") + bytes([v, 0x4D, v & 1, 0x71, v, 0x10 + (v & 15), 0x01, 0xFF & ~v, 0x01])))
    for b in some:
        for c in range(1, 90):
            yield "atrs %d %s" % (c, H(b))


VALS = {"a": [b"Az"], "an": [b"a9Z"], "anssp": [b"A b 9"], "ansccs": [b"A~b 9"], "cn": [x("12345F"), x("1234FF"), x("90")], "n": [x("000120"), x("91")],
        "amount": [x("00000064"), x("3B9ACA00"), x("FF")], "date": [x("251231")], "time": [x("235959")], "mcc": [x("5999"), x("0742")], "arc": [b"00", b"Y1", b"Z3"],
        "track2": [x("4111 1111 1111 1111 D2512 101 12345 F"), x("4761 D251 2201")], "asrpd": [x("0001 03 010203 0002 01 07")], "afltxt": [x("08010100 10020301")],
        "refcur": [x("0978 0826")], "langpref": [b"ennl", b"de"]}


def val_every(r, n, kinds=None):
    for k, bs in VALS.items():
        if (kinds and k not in kinds):
            continue
        for b in bs:
            if k == "track2":
                b = b[:len(b)]
            for v in neighbours(b):
                yield "str %s %d %s" % (k, 300 if r.random() < .9 else r.choice([len(v), 2 * len(v), 2 * len(v) + 1]), H(v))
    for k in ("s2cn", "s2n"):
        if kinds and "n" not in kinds:
            break
        for b in (b"12345", b"0", b"987654321098"):
            for v in neighbours(b):
                if 0 not in v:
                    for c in (1, 3, 6):
                        yield "%s %d %s" % (k, c, H(v))


TPDS = [x("0528 0003 80"), x("0528 8003 81 55"), x("0056 0002 48 50 01 02"), x("0840 8003 00 01"), x("0528 0001 20")]
CVMS = [x("00000000 00000000 0203 1F00"), x("00001388 00000000 4106 5E07 0008 0209")]
IADS = [x("06 01 0A 03 A4B800"), x("0110 A04003 2204 0000 00000000 00000000 00FF"), x("0FA501A20000000000000000000000000F0100000000000000000000000000000000"[:64]),
        x("1F 22 01 03 A0 00 00 00 00")]
CTLVS = [x("31C0 73C80140 82 9000"), x("65 0102030405 81 07 13 41"), x("F0"), x("0F 000102030405060708090A0B0C0D0E")]


def field_every(r, n, ops):
    sets = dict(tpd=(TPDS, ["str tpd 2000 %s"]), cvml=(CVMS, ["cvml %s", "str cvmlist 3000 %s"]), iad=(IADS, ["iadfmt %s", "str iad 4000 %s"]), ctlv=(CTLVS, ["ctlv %s"]),
                arcs=([b"00"], ["str arc 60 %s"]), aid=([x("A0000000031010"), x("A00000000410100102"), x("A0000000651010"), x("A0000003330101")], ["aidinfo %s", "str aid 100 %s"]),
                issauth=([x("0102030405060708 3030"), x("01020304 05060708 0102")], ["str issauth 2000 %s"]))
    for o in ops:
        bases, fmts = sets[o]
        for b in bases:
            for v in neighbours(b):
                for f in fmts:
                    yield f % H(v)


def info_every(r, n):
    """Every field of the dictionary at every length up to n, its octets digits, letters, zero or anything"""
    for t, act, vf, mx in textgen.TAGS + [(s, "none", "", 0) for s in textgen.SPECIAL]:
        for ln in range(n):
            k = r.randrange(4)
            b = [bytes(ln), gen.rb(r, ln), bytes(r.choice(b"0123456789") if vf in ("A", "AN", "ANS") else r.randrange(10) * 16 + r.randrange(10) for _ in range(ln)),
                 bytes(r.choice(b"ABCabc xyz") for _ in range(ln))][k]
            yield "info %X %d %s" % (t, 2000 if r.random() < .85 else max(0, mx + r.choice([-1, 0, 1, 2])), H(b))
    # tags that share octets with those of the dictionary
    for t in textgen.TAGS:
        t = t[0]
        for u in (t | 0x9F00, t | 0x5F00, t | 0xDF00, t | 0xDF0000, t | 0x9F0000, t | 0x7F0000, t | 0x1000000, t | 0x80000000, t & 0xFF, t ^ 0x20, t ^ 0x2000, t ^ 0x8000, t ^ 0x4000, t << 8, t << 16):
            if u != t:
                yield "info %X 2000 %s" % (u & 0xFFFFFFFF, H(r.choice([b"\x01\x02", b"\x12\x34\x56", b"A1B2", bytes(5)])))


CAPDUS = [x("00A40000 02 3F00 00"), x("00A40000"), x("00A4000000"), x("00DA0000 00"), x("00DA000002 0102"), x("00A40400 07 A0000000031010 00"), x("00A40000 02 3F00"), x("00B2010C 00"), x("00B30104 05 5403010203 00"), x("80CA9F36 00"), x("80A80000 02 8300 00"), x("00DA00C1 02 0102"),
          x("00DB3FFF 03 5A0107"), x("80AE8000 03 010203 00"), x("00200080 08 241234FFFFFFFFFF"), x("00840000 00"), x("801E0000 04 01020304"), x("00880000 04 01020304 00"),
          x("0082 0000 08 0102030405060708"), x("00C00000 10"), x("80D00000 01 07")]


def capdu_every(r, n):
    for b in CAPDUS:
        for v in neighbours(b):
            yield "str capdu 300 %s" % H(v)
            yield "isocapdu 300 %s" % H(v)
    # parameters of the instructions whose text depends on them
    some = [0, 1, 2, 3, 4, 8, 0x0C, 0x1F, 0x20, 0x3F, 0x40, 0x7F, 0x80, 0xC0, 0xFE, 0xFF]
    for ins, d in ((0xA4, "023F00"), (0xA4, ""), (0xA4, "07A0000000031010"), (0xB2, "00"), (0xB3, "055403010203"), (0xDA, "020102"), (0xDB, "020102"), (0xDB, "00"), (0xCA, "00")):
        for a in some:
            for c in range(256):
                yield "isocapdu 300 00%02X%02X%02X%s" % (ins, a, c, d)
                if a != c and c not in some:
                    yield "isocapdu 300 00%02X%02X%02X%s" % (ins, c, a, d)


def num_every(r, n):
    for b in (x("000000012345"), x("4294967295" + "00")[:5], x("99"), x("000978"), x("00000000FF")):
        for v in neighbours(b):
            yield "n2u %s" % H(v)
            yield "b2u %s" % H(v)
    for k in ("nonctl", "alnumsp", "bstr"):
        for b in (b"Ab 9", b" a", b"VISA\xe9"):
            for v in neighbours(b):
                yield "fmt %s 40 %s" % (k, H(v))


# ---- sessions ---------------------------------------------------------------------
VISA, MC, MA = x("A0000000031010"), x("A0000000041010"), x("A0000000043060")
SEL = lambda a: bytes([0, 0xA4, 4, 0, len(a)]) + a
NEXT = lambda a: bytes([0, 0xA4, 4, 2, len(a)]) + a
OK = b"\x90\x00"


def fcix(aid, more=b""):
    return tlv(0x6F, tlv(0x84, aid) + tlv(0xA5, tlv(0x50, b"APP") + tlv(0x87, b"\x01") + more)) + OK


def entry(aid, prio):
    return tlv(0x61, tlv(0x4F, aid) + tlv(0x50, b"VISA") + tlv(0x87, bytes([prio])))


PSE = [(SEL(b"1PAY.SYS.DDF01"), tlv(0x6F, tlv(0x84, b"1PAY.SYS.DDF01") + tlv(0xA5, tlv(0x88, b"\x01") + tlv(0x5F2D, b"en"))) + OK),
       (x("00B2010C"), tlv(0x70, entry(VISA, 1) + entry(MC, 2)) + OK), (x("00B2020C"), tlv(0x70, entry(MA, 3)) + OK), (x("00B2030C"), x("6A83"))]
PSE = [(p if len(p) > 4 else bytes([p[0], p[1], p[2], 0x0C]), a) for p, a in PSE]
RECORDS = [(x("00B2010C"), tlv(0x70, tlv(0x5F24, x("301231")) + tlv(0x5A, x("11112222"))) + OK),
           (x("00B20214"), tlv(0x70, tlv(0x8C, x("9F0206")) + tlv(0x8D, x("8A02"))) + OK), (x("00B20114"), tlv(0x70, tlv(0x5F34, x("01"))) + OK),
           (x("00B2015C"), tlv(0x71, tlv(0x5F34, x("02"))) + OK)]
AFL = x("08010101 10010200 58010100")
GPO1, GPO2 = tlv(0x80, x("1980") + AFL) + OK, tlv(0x77, tlv(0x82, x("1980")) + tlv(0x94, AFL) + tlv(0x9F36, x("0001"))) + OK
TERM = [(0x9F06, x("A000000003"), 1), (0x9F06, MC, 0), (0x9F06, x("A00000000430"), 1)]
PDOL = tlv(0x9F38, x("9F1A02 9F3303 5F2A02 9A03"))
CARDS = {
    "pse": (PSE, ["tal_pse"]),
    "find": ([(SEL(x("A000000003")), fcix(VISA)), (NEXT(x("A000000003")), fcix(VISA + b"\x01")), (NEXT(x("A000000003")), x("6A82")), (SEL(MC), fcix(MC)),
              (SEL(x("A00000000430")), tlv(0x6F, tlv(0x84, MA)) + x("6283"))], ["tal_find"]),
    "sel": ([(SEL(MC), fcix(MC, PDOL))], ["tal_sel " + H(MC)]),
    "gpo1": ([(b"\x80\xA8", GPO1)], ["tal_gpo 8300"]),
    "gpo2": ([(b"\x80\xA8", GPO2)], ["tal_gpo ~"]),
    "afl": (RECORDS, ["tal_afl " + H(AFL)]),
    "init": (PSE[:1] + [(PSE[1][0], tlv(0x70, entry(MC, 2)) + OK), (PSE[2][0], x("6A83")), (SEL(MC), fcix(MC, PDOL)), (b"\x80\xA8", GPO2)],
             ["build", "selreq", "select 0", "init 5"]),
    "read": ([(SEL(b"1PAY.SYS.DDF01"), x("6A82")), (SEL(MC), fcix(MC)), (b"\x80\xA8", GPO1)] + RECORDS, ["build", "select 0", "init 5", "read"]),
    "choose": (PSE + [(SEL(VISA), fcix(VISA)), (SEL(MC), x("6283")), (SEL(MA), fcix(MA))], ["build", "selreq", "select 1", "select 1", "select 0"]),
}


def nodes(b):
    """Fields of b as (tag octets, value); None when b is not a list of fields"""
    res, i = [], 0
    while i < len(b):
        j = i + 1
        if b[i] & 31 == 31:
            while j < len(b) and b[j] & 128:
                j += 1
            j += 1
        if j >= len(b) or b[j] > 0x82 or b[j] == 0x80:
            return None
        k = j + 1 + (b[j] & 127 if b[j] & 128 else 0)
        ln = int.from_bytes(b[j + 1:k], "big") if b[j] & 128 else b[j]
        if k + ln > len(b):
            return None
        res.append((b[i:j], b[k:k + ln]))
        i = k + ln
    return res


def other_tags(b):
    """b with the tag of one field, at any depth, replaced by others that share octets with it or its class, or the field there twice, or missing"""
    ns = nodes(b)
    if not ns:
        return
    enc = lambda l: b"".join(tlv(int.from_bytes(t, "big"), v) for t, v in l)
    for i, (t, v) in enumerate(ns):
        alts = [bytes([p]) + t for p in (0x5F, 0x7F, 0x9F, 0xBF, 0xDF)] if t[0] < 128 else [bytes([p]) + t for p in (0xDF, 0xBF)] if len(t) > 1 else []
        alts += [bytes([t[0] ^ m]) + t[1:] for m in (0x20, 0x40, 0x80, 0xC0)]
        if len(t) > 1:
            alts += [t[:-1] + bytes([0x81]) + t[-1:], t[-1:]]
        for a in alts:
            if (a[0] & 31 == 31) == (len(a) > 1):
                yield enc(ns[:i] + [(a, v)] + ns[i + 1:])
        yield enc(ns[:i] + ns[i + 1:])
        yield enc(ns[:i] + [(t, v)] + ns[i:])
        yield enc(ns[1:] + ns[:1])
        yield enc(ns[:i] + [(t, b"")] + ns[i + 1:])
        if t[0] & 32:
            for w in other_tags(v):
                yield enc(ns[:i] + [(t, w)] + ns[i + 1:])


def card_every(r, kinds, skip=0):
    """Cards one octet, or one field, away from a well-behaved one"""
    res = []
    for kind in kinds:
        rules, ops = CARDS[kind]
        m = 0
        for j, (cmd, ans) in enumerate(rules):
            if j < skip:
                continue
            n = len(ans)
            vs = list(neighbours(ans[:-2], wide=False))
            vs += [v for v in other_tags(ans[:-2]) if len(v) < 255]
            vs = [v + ans[-2:] for v in vs] + list(neighbours(ans, cut=False, at=range(n - 2, n)))
            vs += [s for s in (x("6A81"), x("6A82"), x("6283"), x("6985"), x("6A83"), x("9000"), x("6200"))]
            for v in dict.fromkeys(vs):
                if len(v) < 2:
                    continue
                m += 1
                mode = "TPDU" if m % 3 == 0 else "APDU"
                lines = ["S %s%d%s %s" % (kind, j, m, mode), "P %d 256" % (0 if mode == "APDU" else r.choice([0, 2, 8])),
                         "aid " + gen.ltok(TERM), "cfg 9F1A:0528:0,9F33:E0F8C8:0", "par 9A:251231:0,5F2A:0978:0"]
                lines += ["A %s %d %s" % (H(p), 1 if p[3:4] == b"\x02" and p[1] == 0xA4 else -1, H(v if i == j else a)) for i, (p, a) in enumerate(rules)]
                res.append(Scenario("%s%d" % (kind, m), lines + ops + ["E"]))
    return res


# ---- many of everything -------------------------------------------------------------
def aidn(k):
    return x("A000000003") + bytes([k >> 8, k & 255])


def many(r, kinds):
    """Sessions and calls with more of each thing than an octet counts"""
    res = []

    def session(name, rules, ops, aids=None, mode="APDU", pre=()):
        lines = ["S %s%d %s" % (name, len(res), mode), "P %d 256" % (0 if mode == "APDU" else r.choice([0, 16])), "aid " + gen.ltok(aids or TERM),
                 "cfg 9F1A:0528:0,9F33:E0F8C8:0", "par 9A:251231:0,5F2A:0978:0"] + list(pre)
        lines += ["A %s %d %s" % (H(p), c, H(a)) for p, c, a in rules]
        res.append(Scenario("%s%d" % (name, len(res)), lines + ops + ["E"]))

    def call(name, line):
        res.append(Scenario("%s%d" % (name, len(res)), [line]))
    sel = lambda a: (SEL(a), -1, fcix(a))
    for kind in kinds:
        if kind == "pse":
            for n, per, last in ((254, 1, 0), (255, 1, 0), (20, 6, 1), (45, 6, 1), (255, 0, 0), (130, 0, 1)):
                recs = [(bytes([0, 0xB2, k, 0x0C]), -1, tlv(0x70, b"".join(entry(aidn(k * per + j), r.randrange(16)) for j in range(per))) + OK) for k in range(1, n + 1)]
                session("pse", [PSE[0][:1] + (-1,) + PSE[0][1:]] + recs + ([(x("00B2"), -1, x("6A83"))] if last else []), ["tal_pse"], mode=r.choice(["APDU", "TPDU"]))
        if kind == "choose":
            for n, per in ((44, 6), (52, 5), (129, 2)):
                recs = [(bytes([0, 0xB2, k, 0x0C]), -1, tlv(0x70, b"".join(entry(aidn(k * per + j), r.randrange(16)) for j in range(per))) + OK) for k in range(1, n + 1)]
                session("choose", [PSE[0][:1] + (-1,) + PSE[0][1:]] + recs + [(x("00B2"), -1, x("6A83")), (x("00A4"), -1, x("6283"))],
                        ["build", "selreq"] + ["select %d" % k for k in (255, 256, 254, 127, 128, 0, 300, 250)])
            for n in (257,):
                ops = ["push:" + H(tlv(0x6F, tlv(0x84, aidn(k)) + tlv(0xA5, tlv(0x50, b"A") + tlv(0x87, bytes([r.randrange(16)]))))) for k in range(n)]
                call("choose", "aops " + " ".join(ops + ["req", "sort", "rm:255", "rm:256", "rm:%d" % (n - 1), "rm:128", "sort", "pop", "empty"]))
        if kind == "find":
            many_ = [(0x9F06, aidn(k), k % 3 == 0) for k in range(300)]
            session("find", [(x("00A4"), -1, x("6A82"))], ["tal_find"], aids=many_)
            session("find", [(SEL(aidn(k)), -1, fcix(aidn(k)) if k % 3 else fcix(aidn(k) + b"\x01")) for k in range(0, 300, 1 if len(many_) < 400 else 7)] + [(x("00A4"), -1, x("6A82"))], ["tal_find"], aids=many_)
            for n in (127, 255, 256, 257, 300):
                part = [(NEXT(x("A000000003")), 1, fcix(aidn(k))) for k in range(n)]
                session("find", [(SEL(x("A000000003")), -1, fcix(aidn(999)))] + part + [(x("00A4"), -1, x("6A82"))], ["tal_find"], aids=TERM[:1], mode=r.choice(["APDU", "TPDU"]))
        if kind == "afl":
            rec = lambda sfi, k, body: (bytes([0, 0xB2, k, sfi << 3 | 4]), -1, tlv(0x70, body) + OK)
            uniq = lambda k: tlv(0xDF0000 + (0x81 + (k >> 7)) * 256 + (k & 127), bytes([k & 255]))
            session("afl", [rec(1, k, uniq(k)) for k in range(1, 256)], ["tal_afl 0801FF00"], mode="TPDU")
            session("afl", [rec(1, k, uniq(k)) for k in range(1, 256)], ["tal_afl 0801FFFF"])
            session("afl", [rec(2, k, uniq(k)) for k in range(1, 256)], ["tal_afl 10FEFF02"])
            session("afl", [rec(1 + k % 30, k + 1, uniq(k)) if 1 + k % 30 <= 10 else (bytes([0, 0xB2, k + 1, (1 + k % 30) << 3 | 4]), -1, tlv(0x70, uniq(k)) + OK) for k in range(63)],
                    ["tal_afl " + "".join("%02X%02X%02X%02X" % (((1 + k % 30) << 3), k + 1, k + 1, k % 2) for k in range(63))])
            session("afl", [], ["tal_afl " + "08010100" * 64])
            # many fields, the last of them one that was there before
            for again in (0, 1, 17, 255, 256, 299):
                f = b"".join(uniq(k) for k in range(300))
                parts = [f[i:i + 200 // 5 * 5] for i in range(0, len(f), 200)]
                parts.append(tlv(0x5F24, x("301231")) + tlv(0x5A, x("1122")) + tlv(0x8C, x("9F0206")) + tlv(0x8D, x("8A02")) + (uniq(again) if again else b""))
                g = tlv(0x80, x("1980") + bytes([0x08, 1, len(parts), 0])) + OK
                session("read", [(SEL(b"1PAY.SYS.DDF01"), -1, x("6A82")), (SEL(MC), -1, fcix(MC)), (x("00A4"), -1, x("6A82")), (b"\x80\xA8", -1, g)] + [rec(1, k + 1, b) for k, b in enumerate(parts)],
                        ["build", "select 0", "init 5", "read"])
        if kind == "init":
            for n in (60, 84, 100):
                dol = tlv(0x9F38, b"".join(tagb(t) + bytes([n]) for t in (0x9F1A, 0x9F33, 0x5F2A, 0x9A, 0xDF8101)[:r.choice([1, 2, 3, 5])]))
                session("init", [(SEL(b"1PAY.SYS.DDF01"), -1, x("6A82")), (SEL(MC), -1, fcix(MC, dol)), (x("00A4"), -1, x("6A82")), (b"\x80\xA8", -1, GPO2)], ["build", "select 0", "init 7"])
            session("init", [(SEL(b"1PAY.SYS.DDF01"), -1, x("6A82")), (SEL(MC), -1, fcix(MC, PDOL)), (x("00A4"), -1, x("6A82")), (b"\x80\xA8", -1, GPO1)] + [(p, -1, a) for p, a in RECORDS],
                    ["build", "select 0", "init 5", "read", "reset"] * 25)
            session("init", [(SEL(b"1PAY.SYS.DDF01"), -1, x("6A82")), (SEL(MC), -1, fcix(MC, PDOL)), (x("00A4"), -1, x("6A82")), (b"\x80\xA8", -1, GPO2)] + [(p, -1, a) for p, a in RECORDS],
                    ["build", "select 0", "init 5"] * 40)
        if kind == "trx":
            for n in (100, 127, 128, 255, 256, 257, 300):
                for cap in (258, 320, n + 2, n + 1):
                    got = ["6101"] + ["C0%02X6101" % (k & 255) for k in range(n - 1)] + ["C0%02X9000" % (n & 255)]
                    res.append(Scenario("trx%d" % len(res), ["S trx%d TPDU" % len(res)] + ["R 0 " + g for g in got] + ["trx %d 00B2010C00" % cap, "E"]))
                res.append(Scenario("trx%d" % len(res), ["S trx%d TPDU" % len(res)] + ["R 0 6C%02X" % (k & 255) for k in range(n)] + ["R 0 9000", "trx 258 00B2010C00", "E"]))
                d = bytes(k & 255 for k in range(min(n, 255)))
                cmd = x("00DA0102") + bytes([len(d)]) + d
                res.append(Scenario("trx%d" % len(res), ["S trx%d TPDU" % len(res)] + ["R 0 25"] * (len(d) - 1) + ["R 0 DA", "R 0 9000", "trx 258 " + H(cmd), "E"]))
                res.append(Scenario("trx%d" % len(res), ["S trx%d TPDU" % len(res)] + ["R 0 60"] * n + ["R 0 9000", "trx 258 00B2010C00", "E"]))
        if kind == "ber":
            for n in (16, 63, 64, 100, 126, 127):
                b = x("5A0107")
                for _ in range(n):
                    b = tlv(0x70 if len(b) % 2 else 0xBF0C, b)
                for op in ("ber", "flat", "berit"):
                    call("ber", "%s %s" % (op, H(b)))
                i = x("7080") * n + x("5A0107") + bytes(2 * n)
                for op in ("ber", "flat", "berit"):
                    call("ber", "%s %s" % (op, H(i)))
                    call("ber", "%s %s" % (op, H(i[:-1])))
            for n in (127, 128, 255, 256, 257, 65535, 65536, 65537):
                if n < 300 or n % 2:
                    b = b"\x5A" + (bytes([0x83]) + n.to_bytes(3, "big") if n > 300 else tlv(0x5A, bytes(n))[1:-n]) + bytes(n % 251 for _ in range(n))
                    call("ber", "ber %s" % H(b + b"\x9F"))
                    call("ber", "flat %s" % H(x("7084") + len(b).to_bytes(4, "big") + b))
            b = b"".join(tlv(r.choice([0x5A, 0x9F02, 0xDF818203, 0x50]), bytes([k & 255])) for k in range(400))
            call("ber", "berit %s" % H(b))
            call("ber", "flat %s" % H(tlv(0x70, b)))
            for n in (5, 6, 7, 8, 9, 10, 11, 12, 20):
                call("ber", "oid 2A" + "8648" * n)
                call("ber", "oid 2A" + "01" * n)
        if kind == "lops":
            for n in (130, 257):
                ops = ["push:%X:%02X:%d" % (0xDF0000 + (0x81 + (k >> 7)) * 256 + (k & 127), k & 255, k & 255) for k in range(n)]
                call("lops", "lops " + " ".join(ops + ["dup", "find:DF8105", "find:DF8200", "bpush:5A:01:0", "append", "dup", "push:DF8105:01:0", "dup", "pop", "find:DF8100", "clear", "empty"]))
        if kind == "dol":
            for n in (100, 126):
                d = "".join("%02X%02X" % (0x82 + k % 20, r.choice([0, 1, 2, 200, 255])) for k in range(n))
                call("dol", "dol " + d)
                for cap in (65536, 40000):
                    call("dol", "dolb %s %d 9A:0708:0,95:0909:0,84:0102:0 8A:06:0" % (d, cap))
    return res
