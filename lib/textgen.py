"""Seeded inputs for the text decoders.  They only choose inputs; the specification decides
the texts."""
import os, re
import registers
from gen import H, rb, rand_afl_entry, tlv

SPEC = os.path.join(registers.VERIF, "spec")
BITS = dict(termcaps=3, addlcaps=5, aip=2, auc=2, tvr=5, tsi=2, trmd=8, ttq=4, ctq=2, enhcl=4, ffi=4, cvmres=3)
BYTES = ["termtype", "posentry", "txntype", "acctype", "cid", "clcaps"]
CHARS = ["a", "an", "anssp", "ansccs", "cn", "n", "amount", "date", "time", "mcc", "arc", "track2"]
LISTS = ["asrpd", "afltxt", "refcur", "langpref", "cvmlist", "iad", "issauth", "tpd", "cvmres"]
_reg = registers.data()
_tab = open(os.path.join(SPEC, "Tables.tla")).read()
TAGS = [(int(t), act, vf, int(mx)) for t, act, vf, mx in
        re.findall(r'Info\((\d+), .*?"[A-Z_]+", "([a-z0-9]+)", "([A-Z]*)", (\d+)\)', _tab, re.S)]
RIDS = [bytes(int(x) for x in m.split(", ")) for m in re.findall(r'<<<<(1(?:60|76)[0-9, ]+)>>, "', _tab)]
PIXES = [bytes(int(x) for x in m.split(", ")) for m in
         re.findall(r'<<<<([0-9, ]+)>>, "[A-Z0-9_]+">>', _tab.split("Aids ==")[1])]
ARCS = [m for m in re.findall(r'<<"(\w\w)", ', _tab)]
assert len(TAGS) > 100 and len(RIDS) > 12 and len(PIXES) > 20, (len(TAGS), len(RIDS), len(PIXES))
ALNUM = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"


def bcd(digits):
    return bytes.fromhex(digits)


def rdig(r, n, lead=0.3):
    s = "".join(r.choice("0123456789") for _ in range(n))
    if r.random() < lead:
        k = r.randrange(0, n + 1)
        s = "0" * k + s[k:]
    return s


def txt(r, alphabet, n):
    return bytes(r.choice(alphabet) for _ in range(n))


def spoil(r, b, p=0.12):
    """Now and then an octet out of place, one too many or one missing"""
    if r.random() < p:
        b = bytearray(b)
        x = r.random()
        if x < 0.5 and b:
            b[r.randrange(len(b))] = r.choice([0, 0x1F, 0x20, 0x2F, 0x3A, 0x40, 0x5B, 0x60, 0x7B, 0x7F, 0x80, 0xFF, 0xA9, r.randrange(256)])
        elif x < 0.75:
            b = b + rb(r, r.choice([1, 1, 2, 5]))
        else:
            b = b[:-1]
    return bytes(b)


def numcode(r, tab):
    x = r.random()
    if x < 0.75:
        return bcd(r.choice(list(tab)).rjust(4, "0"))
    if x < 0.9:
        return bcd(rdig(r, 4))
    return rb(r, 2)


def aid(r):
    b = r.choice(RIDS) if r.random() < 0.9 else rb(r, 5)
    if r.random() < 0.85:
        b += r.choice(PIXES)
    b += rb(r, r.choice([0, 0, 0, 1, 2, 3, 5, 9, 10]))
    if r.random() < 0.12:
        b = bytearray(b)
        b[r.randrange(len(b))] ^= 1 << r.randrange(8)
    if r.random() < 0.1:
        b = b[:r.randrange(0, len(b) + 1)]
    return bytes(b[:17] if r.random() < 0.1 else b[:16])


def tpd(r):
    dev = r.random() < 0.6
    uid = r.choice([0, 0, 3, 3, 3, 3, 1, 2, 4, 0x7FFF, 0x0103, r.randrange(1 << 15)])
    b = (numcode(r, _reg["country"]) if r.random() < 0.9 else rb(r, 2)) + ((uid | (0 if dev else 0x8000)).to_bytes(2, "big"))
    if dev:
        b += r.choice(["%02d" % r.randrange(0, 60), "%02d" % r.randrange(100), "A1", "\0\0", "1\0"]).encode()
    if uid == 3:
        x = r.random()
        if x < 0.45:
            b += b"\0\1" + bytes([r.choice([0, 1, 2, 3, r.randrange(256)]), r.choice([0, 1, 2, 4, 8, 0x10, 0x80, r.randrange(256)]),
                                  r.choice([0, 0x80, 0x40, 0xC0, r.randrange(256)])]) + rb(r, 3)
        elif x < 0.85:
            b += b"\0\2" + bytes([r.choice([0, 0x80, 1, 0x81, r.randrange(256)]), r.choice(list(range(0, 11)) + [255])]) + rb(r, 1)
        else:
            b += rb(r, r.choice([0, 1, 2, 3, 5, 8]))
    elif uid == 0 and r.random() < 0.8:
        b += b"\0"
    else:
        b += r.choice([b"\0", b"\0\0", rb(r, r.choice([1, 2, 5, 20, 26]))])
    return spoil(r, b, 0.1)


def iad(r):
    k = r.randrange(8)
    if k == 0:
        b = bytes([0x0F, r.choice([0xA5, 0xA6]), r.randrange(256)]) + rb(r, 13) + b"\x0F" + rb(r, 15)
    elif k in (1, 2):
        n = r.choice([18, 18, 20, 26, 28, 19, 22])
        b = bytes([r.randrange(256), 0x10 | r.choice([0, 1, 4, 5, 4, 5, r.randrange(16)])]) + rb(r, n - 2)
    elif k in (3, 4):
        b = bytes([6, r.randrange(256), r.choice([0x0A, 0x0C, 0x11, 0x12, 0x03, 0x30, 0x32, r.randrange(256)]), 3]) + rb(r, r.choice([3, 3, 3, 10, 25, 2]))
    elif k in (5, 6):
        b = bytes([0x1F, r.choice([0x20, 0x22, 0x43, 0x4F, 0x10, r.randrange(256)]), r.randrange(256)]) + rb(r, 5) + bytes([r.choice([0, 5, 15, 16, r.randrange(16)])]) + rb(r, 23)
    else:
        b = rb(r, r.choice([0, 1, 6, 7, 8, 17, 18, 20, 31, 32, 33]))
    b = bytearray(b)
    if r.random() < 0.3:               # sparse verification results
        for i in range(3, len(b)):
            if r.random() < 0.7 and i not in (8, 16):
                b[i] = 0
    return spoil(r, bytes(b), 0.1)


def issauth(r):
    x = r.random()
    if x < 0.3:
        b = rb(r, 8) + txt(r, ALNUM, 2)
    elif x < 0.5:
        b = rb(r, 8) + bytes([r.randrange(16), r.randrange(256)])
    elif x < 0.9:
        b = rb(r, 4) + bytes([r.choice([0, 1, 15, 0x80, 0x8F, 0x10, 0x40, r.randrange(256)]), r.randrange(256), r.choice([0, 0, 0, 0, 1, 128]), r.randrange(256)]) + rb(r, r.choice([0, 0, 1, 2, 3, 8, 9, 24]))
    else:
        b = rb(r, r.choice([0, 7, 8, 9, 10, 16, 17, 32, 33]))
    return spoil(r, b, 0.08)


INS = [0x04, 0x0E, 0x0F, 0x10, 0x12, 0x14, 0x20, 0x21, 0x22, 0x24, 0x26, 0x28, 0x2A, 0x44, 0x46, 0x70, 0x82, 0x84, 0x86, 0x87, 0x88,
       0xA0, 0xA1, 0xA4, 0xB0, 0xB1, 0xB2, 0xB3, 0xC0, 0xC2, 0xC3, 0xCA, 0xCB, 0xD0, 0xD1, 0xD2, 0xD6, 0xD7, 0xDA, 0xDB, 0xDC, 0xDD,
       0xE0, 0xE2, 0xE4, 0xE6, 0xE8, 0xFE, 0x1E, 0x18, 0x16, 0xAE, 0xA8]


def capdu(r):
    cla = r.choice([0, 0, 0, 0, 1, 0x0C, 0x40, 0x7F, 0x80, 0x80, 0x84, 0x90, 0xFE, 0xFF, r.randrange(256)])
    ins = r.choice([0xA4, 0xA4, 0xB2, 0xB3, 0xDA, 0xDB, 0xCA] + INS) if r.random() < 0.9 else r.randrange(256)
    p1 = r.choice([0, 1, 2, 3, 4, 8, 9, 0x0F, 0x10, 0x40, 0x5F, 0x9F, 0xFF, r.randrange(256)])
    p2 = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 0x0C, 0x10, 0x1F, 0x20, 0xFC, 0xFF, r.randrange(256)])
    b = bytes([cla, ins, p1, p2])
    x = r.random()
    if x < 0.55:
        d = r.choice([b"1PAY.SYS.DDF01", b"2PAY.SYS.DDF01", b"\x3F\x00", b"\x7F\xFF", b"\xA0\0\0\0\x03\x10\x10", rb(r, 5), txt(r, ALNUM, 7), rb(r, r.randrange(0, 20)), b"\xFF\xFF", rb(r, 2)])
        b += bytes([len(d) if r.random() < 0.9 else r.randrange(256)]) + d + (b"\0" if r.random() < 0.5 else b"")
    elif x < 0.75:
        b += bytes([r.randrange(256)])
    elif x < 0.8:
        b = b[:r.randrange(0, 5)]
    elif x < 0.85:
        b += rb(r, r.randrange(0, 40))
    elif x < 0.9:
        d = rb(r, r.choice([1, 5, 60]))
        b += b"\0" + len(d).to_bytes(2, "big") + d
    return b


def asrpd(r):
    b = b""
    for _ in range(r.choice([1, 1, 2, 3, 4])):
        i = r.choice([b"\0\1", b"\0\3", b"\0\2", b"\1\1", rb(r, 2)])
        d = rb(r, r.choice([0, 1, 2, 5, 10]))
        b += i + bytes([len(d) + (r.choice([-1, 1, 2, 200]) if r.random() < 0.04 and d else 0)]) + d
    return spoil(r, b, 0.08)


def cvmlist(r):
    amt = lambda: r.choice([b"\0\0\0\0", (100).to_bytes(4, "big"), rb(r, 4), b"\xFF\xFF\xFF\xFF", b"\x7F\xFF\xFF\xFF", b"\x80\0\0\0", b"\x3B\x9A\xCA\0"])
    n = r.choice([1, 1, 2, 3, 4, 5, 8, 0]) if r.random() < 0.97 else r.choice([121, 122, 123, 127])
    rules = b"".join(bytes([r.choice(list(range(0, 0x42)) + [0x5E, 0x5F, 0x7F, 0x80, 0xC2]), r.choice(list(range(0, 12)) + [128, 255])]) for _ in range(n))
    b = amt() + amt() + rules
    return b[:r.randrange(0, 11)] if r.random() < 0.05 else spoil(r, b, 0.05)


def value(r, k):
    """An input for decoder k, mostly meaningful"""
    if k in BYTES:
        return bytes([r.randrange(256)])
    if k in BITS and k != "cvmres":
        n = BITS[k]
        x = r.random()
        if x < 0.06:
            return rb(r, r.choice([0, 1, n - 1, n + 1, n + 3]))
        if x < 0.5:
            b = bytearray(n)
            for _ in range(r.randrange(0, 4)):
                b[r.randrange(n)] |= 1 << r.randrange(8)
            return bytes(b)
        return rb(r, n)
    if k == "cvmres":
        return spoil(r, bytes([r.choice(list(range(0, 64)) + [0x3F, 0x40, 0x5F, 0x80]), r.choice(list(range(0, 12)) + [255]), r.choice([0, 1, 2, 3, 255])]), 0.05)
    if k == "aid":
        return aid(r)
    if k == "asrpd":
        return asrpd(r)
    if k == "afltxt":
        return spoil(r, b"".join(rand_afl_entry(r) for _ in range(r.choice([1, 1, 2, 3, 5, 8]))), 0.08)
    if k == "track2":
        s = rdig(r, r.choice([8, 12, 16, 19]), 0) + "D" + rdig(r, r.choice([3, 7, 10]), 0)
        s += "F" * (len(s) % 2) if r.random() < 0.95 else "E" * (len(s) % 2)
        return bcd(s) if r.random() < 0.8 else rb(r, r.choice([0, 1, 5, 19]))
    if k == "refcur":
        return spoil(r, b"".join(numcode(r, _reg["currency"]) for _ in range(r.choice([1, 1, 2, 3, 4]))), 0.05)
    if k == "langpref":
        b = b"".join((r.choice(list(_reg["language2"])).encode() if r.random() < 0.8 else txt(r, ALNUM, 2)) for _ in range(r.choice([1, 1, 2, 3, 4])))
        return spoil(r, b.upper() if r.random() < 0.3 else b, 0.12)
    if k == "cvmlist":
        return cvmlist(r)
    if k == "iad":
        return iad(r)
    if k == "issauth":
        return issauth(r)
    if k == "arc":
        return spoil(r, r.choice(ARCS).encode() if r.random() < 0.7 else txt(r, ALNUM, 2), 0.15)
    if k == "capdu":
        return capdu(r)
    n = r.choice([0, 1, 1, 2, 3, 5, 8, 12, 16, 20])
    if k == "a":
        return spoil(r, txt(r, ALNUM[:52], n))
    if k == "an":
        return spoil(r, txt(r, ALNUM, n))
    if k == "anssp":
        return spoil(r, txt(r, ALNUM + b"  ", n))
    if k == "ansccs":
        return spoil(r, txt(r, bytes(range(0x20, 0x7F)), n))
    if k == "cn":
        d = rdig(r, r.choice([0, 1, 4, 7, 10, 16, 19, 20]))
        pad = "F" * r.choice([0, 0, 1, 2, 3])
        s = d + pad
        s += "F" * (len(s) % 2)
        if r.random() < 0.08 and s:
            i = r.randrange(len(s))
            s = s[:i] + r.choice("ABCDEF5") + s[i + 1:]
        return bcd(s)
    if k == "n":
        s = rdig(r, 2 * r.choice([0, 1, 1, 2, 3, 4, 6, 8, 10]), 0.6)
        if r.random() < 0.1 and s:
            i = r.randrange(len(s))
            s = s[:i] + r.choice("ABCDEF") + s[i + 1:]
        return bcd(s)
    if k == "amount":
        return r.choice([rb(r, r.choice([0, 1, 2, 3, 4, 4, 4, 5, 6, 8])), b"\0\0\0\0", b"\xFF\xFF\xFF\xFF", b"\0\0\0\x0A", b"\0\0\1\0", b"\x80\0\0\0", b"\x3B\x9A\xCA\0", b"\x3B\x9A\xC9\xFF"])
    if k in ("date", "time"):
        return spoil(r, bcd(rdig(r, 6)) if r.random() < 0.9 else rb(r, 3), 0.08)
    if k in ("mcc", "country", "currency"):
        return spoil(r, numcode(r, _reg[k]), 0.06)
    if k == "country2":
        return spoil(r, r.choice(list(_reg["country2"])).encode() if r.random() < 0.85 else txt(r, ALNUM, 2), 0.1)
    if k == "country3":
        return spoil(r, r.choice(list(_reg["country3"])).encode() if r.random() < 0.85 else txt(r, ALNUM, 3), 0.1)
    return rb(r, n)


def cap(r, b, rich):
    """Mostly room enough, often a tight fit, sometimes hardly any"""
    x = r.random()
    if x < 0.5:
        return 4000
    if x < 0.6:
        return r.choice([-1, 0, 1, 2, 3])
    n = len(b)
    if rich and x < 0.85:
        return r.randrange(0, 400)
    return r.choice([r.randrange(0, 70), n, n + 1, n + 2, 2 * n, 2 * n + 1, 2 * n + 2, 9, 10, 11, 12, 20, 33, 64, 128])


def text_lines(r, n, kinds):
    rich = set(BITS) | set(LISTS) | {"termtype", "cid"}
    for _ in range(n):
        k = r.choice(kinds)
        b = value(r, k)
        yield "str %s %d %s" % (k, cap(r, b, k in rich), H(b) if b or r.random() < 0.7 else "~")


def bit_all(r, n):
    """Every value of every octet of every bit field, the others all clear, all set, or random."""
    for k in BYTES:
        for v in range(256):
            yield "str %s 4000 %02X" % (k, v)
    for k, size in BITS.items():
        for i in range(size):
            for v in range(256):
                for base in range(n):
                    b = bytearray([bytes(size), b"\xFF" * size, rb(r, size)][base])
                    b[i] = v
                    if k == "ffi" and i:
                        b[0] = 0x20 | (b[0] & 0x1F)
                    yield "str %s 4000 %s" % (k, H(b))


def iad_all(r, n):
    """Every value of every octet of each issuer application data and issuer authentication format."""
    bases = [bytes([0x0F, 0xA5, 1]) + bytes(13) + b"\x0F" + bytes(15), bytes([1, 0x10]) + bytes(16), bytes([1, 0x15]) + bytes(18),
             bytes([6, 1, 0x0A, 3]) + bytes(3), bytes([0x1F, 0x22, 1]) + bytes(29)]
    for b0 in bases:
        for i in range(min(len(b0), 13)):
            for v in range(256) if i < 9 else range(0, 256, 5):
                b = bytearray(b0)
                b[i] = v
                yield "str iad 4000 %s" % H(b)
    for i in range(4, 8):
        for v in range(256):
            b = bytearray(rb(r, 4) + bytes(4))
            b[i] = v
            yield "str issauth 4000 %s" % H(b)


def cap_lines(r, n):
    """Every capacity, for texts of every decoder."""
    kinds = BYTES + list(BITS) + CHARS + LISTS + ["aid", "capdu"]
    m = 0
    while m < n:
        k = kinds[m % len(kinds)] if r.random() < 0.3 else r.choice(kinds)
        b = value(r, k)
        a = r.choice([-1, -1, 0, 20, 40, 60, 100, 160, 250])
        for c in range(a, a + 40):
            yield "str %s %d %s" % (k, c, H(b))
            m += 1
        # the other texts of the library
        b = rb(r, r.choice([1, 2, 3, 3]))
        c0 = r.choice([0, 30, 60, 120, 240])
        for c in range(c0, c0 + 12):
            yield "cardcaps %d %s" % (c, H(b))
            yield "cardsvc %d %s" % (c, H(b))
            yield "sw %d %s" % (c, H(bytes([r.choice([0x61, 0x62, 0x63, 0x64, 0x65, 0x69, 0x6A, 0x6C, 0x90, r.randrange(256)]), r.randrange(256)])))
            yield "isocapdu %d %s" % (c, H(capdu(r)))
            m += 4
        t, act, vf, mx = r.choice(TAGS)
        b = tagvalue(r, t, act, vf, mx)
        for c in range(c0 - 1, c0 + 18):
            yield "info %X %d %s" % (t, c, H(b))
            m += 1


def caps_all(r, n):
    """Every text that stands for one octet, cut short, and one value of every list in every
    capacity that matters to it."""
    for k in BYTES:
        for b in range(256):
            for c in (1, 2, 3, r.randrange(4, 60)):
                yield "str %s %d %02X" % (k, c, b)
    for a in list(range(0x61, 0x70)) + [0x90]:
        for b in list(range(0, 18)) + list(range(0x80, 0x8A)) + [0xC0, 0xC3, 0xF0, 0xFF]:
            yield "sw %d %02X%02X" % (r.choice([1, 2]), a, b)
            yield "sw %d %02X%02X" % (r.randrange(3, 90), a, b)
    for k in list(BITS) + LISTS + ["aid"]:
        for c in range(-1, 150):
            if c % 40 == 39:
                b = value(r, k)
            elif c < 0:
                b = value(r, k)
            yield "str %s %d %s" % (k, c, H(b))
    for c in range(-1, 330):
        yield "cardsvc %d FF" % c
        yield "cardcaps %d %s" % (c, H(rb(r, 3) if c % 60 else b"\xFF\xFF\xFF"))
        yield "isocapdu %d %s" % (c % 80, H(capdu(r)))


SPECIAL = [0x9F66, 0x9F6C, 0x9F6D, 0x9F6E]


def tagvalue(r, t, act, vf, mx):
    if t == 0x9F6E:
        x = r.random()
        if x < 0.4:
            return tpd(r)
        if x < 0.6:
            return bytes([0x20 | r.randrange(32), r.randrange(256), 0, 0]) if r.random() < 0.8 else bytes([0x20 | r.randrange(32)]) + rb(r, 3)
        if x < 0.9:
            b = [r.choice([0x18, 0x58, 0x98, 0xD8, 0x1C, 0xDC, r.randrange(256)]), r.choice([0x80, 0xC0, 0xF0, 0x90, r.randrange(256)]),
                 r.choice([0, 0x40, 0x80, 0xC0, r.randrange(256)]), r.choice([1, 2, 3, 4, 5, 6, 7, 0, 0xE1, 0x21, r.randrange(256)])]
            return bytes(b)
        return rb(r, r.choice([0, 1, 3, 4, 5, 32, 33]))
    if t == 0x9F6D:
        return rb(r, r.choice([0, 1, 1, 1, 1, 2, 3]))
    if t in (0x9F66, 0x9F6C):
        n = 4 if t == 0x9F66 else 2
        return rb(r, n if r.random() < 0.8 else r.choice([0, 1, 2, 3, 4, 5]))
    if act == "val":
        k = dict(A="a", AN="an", ANS="anssp" if t == 0x50 else "ansccs", CN="cn", N="n")[vf]
        n = (mx + 1) // 2 if vf in ("CN", "N") else mx
        if r.random() < 0.3:
            b = value(r, k)
        elif vf == "CN":
            b = bcd(rdig(r, 2 * n))
            if n and r.random() < 0.5:
                b = b[:-1] + bytes([b[-1] | 0x0F])
        elif vf == "N":
            b = bcd(rdig(r, 2 * n))
        else:
            n = max(0, r.choice([n, n, n - 1, n // 2, 1])) if mx else r.randrange(0, 30)
            b = txt(r, dict(A=ALNUM[:52], AN=ALNUM, ANS=ALNUM + b" ")[vf], n)
        return spoil(r, b, 0.1)
    if act == "dfname":
        return r.choice([b"1PAY.SYS.DDF01", b"2PAY.SYS.DDF01", b"1PAY.SYS.DDF02", b"3PAY.SYS.DDF01", aid(r), aid(r), aid(r)])
    if act == "capdu":
        return capdu(r)
    if act == "none":
        return rb(r, r.choice([0, 1, 2, 4, 8, 30]))
    return value(r, act)


def info_lines(r, n):
    for j in range(n):
        if r.random() < 0.93:
            t, act, vf, mx = TAGS[j % len(TAGS)] if r.random() < 0.5 else r.choice(TAGS + [(s, "", "", 0) for s in SPECIAL for _ in range(10)])
        else:
            t, act, vf, mx = r.choice([0, 1, 0x41, 0x50 + 0x9F00, 0x9F00, 0x9F6F, 0x9FFF, 0x5F00, 0xDF01, 0x1F50, 0xDF8129, r.randrange(1 << 16), r.randrange(1 << 32)]), "none", "", 0
            known = [x for x in TAGS if x[0] == t]
            if known:
                t, act, vf, mx = known[0]
        if r.random() < 0.08:
            yield "info %X %d ~%d" % (t, r.choice([-1, 0, 1, 5, 64, 2000]), r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 32, 33, 252]))
            continue
        b = tagvalue(r, t, act, vf, mx)
        x = r.random()
        c = 4000 if x < 0.6 else r.choice([mx, mx + 1, mx + 2, mx - 1]) if x < 0.75 and mx else cap(r, b, True)
        yield "info %X %d %s" % (t, max(c, -1), H(b))


def field_lines(r, n, ops):
    for _ in range(n):
        op = r.choice(ops)
        if op == "aidinfo":
            yield "aidinfo %s" % H(aid(r))
        elif op == "iadfmt":
            yield "iadfmt %s" % H(iad(r))
        elif op == "cvml":
            yield "cvml %s" % (H(cvmlist(r)) if r.random() < 0.98 else "~")
        elif op == "ctlv":
            b = b""
            for _ in range(r.choice([0, 1, 1, 2, 3, 4, 5])):
                k = r.choice([0, 1, 2, 3, 5, 8, 14, 15])
                b += bytes([r.randrange(16) * 16 + k]) + rb(r, k)
            yield "ctlv %s" % (H(b[:r.randrange(0, len(b) + 1)] if r.random() < 0.2 else b) if r.random() < 0.98 else "~")
        elif op == "aid":
            b = aid(r)
            yield "str aid %d %s" % (cap(r, b, False), H(b))


def aid_all(r, n):
    """Every registered provider with every registered extension, exactly, cut short, extended and altered."""
    for a in RIDS:
        for p in [b""] + list(dict.fromkeys(PIXES)):
            b = a + p
            vs = [b, b + b"\0", b + rb(r, 3), (b + rb(r, 16))[:16], b[:-1], b[:-1] + bytes([b[-1] ^ 1]), b[:5] + b"\x01" + p, (b + rb(r, 17))[:17]]
            for v in dict.fromkeys(vs):
                yield "aidinfo %s" % H(v)
                yield "str aid 200 %s" % H(v)
    for x in range(256):
        yield "str aid 200 A0000000%02X1010" % x
        yield "aidinfo A000000%03X1010" % (x + 0x600) if len("A000000%03X1010" % (x + 0x600)) % 2 == 0 else "aidinfo A0000006%02X" % x


def sw_all(r, n):
    """Every first status octet with n second octets (all of them in the interesting range)."""
    for a in range(256):
        xs = range(256) if (n >= 256 or 0x60 <= a <= 0x6F) else r.sample(range(256), n)
        for x in xs:
            yield "sw 200 %02X%02X" % (a, x)
            if 0x60 <= a <= 0x6F:
                yield "sw %d %02X%02X" % (r.randrange(1, 48), a, x)
    for a in list(range(0x60, 0x70)) + [0x90, 0x91]:
        for x in (0x00, 0x01, 0x02, 0x81, 0x84, 0x87, 0xC5, 0xFF):
            for c in range(1, 40):
                yield "sw %d %02X%02X" % (c, a, x)
    for c in range(0, 330):
        yield "cardsvc %d %02X" % (c, r.choice([0xFF, 0xC8, 0x32, 0x01]))
        yield "cardcaps %d %s" % (c, H(r.choice([b"\xFF\xFF\xFF", b"\x80\x01\x91", rb(r, 3), rb(r, 2)])))
    for x in range(256):
        yield "lcs %02X" % x
        yield "cardsvc 600 %02X" % x
        yield "cardcaps 600 %02X" % x
        yield "cardcaps 600 %02X%02X" % (r.randrange(256), x)
        yield "cardcaps 600 %02X%02X%02X" % (r.randrange(256), r.randrange(256), x)
        yield "cardcaps 600 %02X%s" % (x, H(rb(r, r.choice([3, 4]))))
        yield "ctlv %02X%s" % (x, H(rb(r, x & 15)).strip("-"))


def capdu_all(r, n):
    """Every instruction in every class group, and every parameter pair of the parameterised ones."""
    for ins in range(256):
        for cla in (0, 0x0C, 0x7F, 0x80, 0x90, 0xFF):
            for p in ("0000", "0004", "%02X%02X" % (r.randrange(256), r.randrange(256))):
                yield "str capdu 300 %02X%02X%s" % (cla, ins, p)
        yield "isocapdu 300 00%02X0102" % ins
        yield "isocapdu 300 80%02X0102" % ins
    for ins in (0xA4, 0xB2, 0xB3, 0xDA, 0xDB):
        for p1 in range(256):
            for p2 in r.sample(range(256), n) + [0, 4, 0x0C, 0xFF]:
                d = r.choice(["", "00", "023F00", "0E315041592E5359532E4444463031", "07A0000000031010", "07A000000003101000"])
                yield "isocapdu 300 00%02X%02X%02X%s" % (ins, p1, p2, d)
        for p2 in range(256):
            for p1 in (0, 1, 2, 4, 8):
                yield "isocapdu 300 00%02X%02X%02X" % (ins, p1, p2) + r.choice(["", "023F00", "0E325041592E5359532E4444463031", "07A0000000031010"])


def capdu_lines(r, n):
    for _ in range(n):
        b = capdu(r)
        k = r.random()
        yield ("str capdu %d %s" if k < 0.6 else "isocapdu %d %s") % (cap(r, b, False), H(b))


def pack_lines(r, n):
    for _ in range(n):
        s = rdig(r, r.choice([0, 1, 2, 3, 4, 5, 6, 8, 11, 12, 13, 16, 19, 20]))
        if r.random() < 0.12:
            s = spoil(r, s.encode(), 0.9).replace(b"\0", b"/")
        else:
            s = s.encode()
        yield "%s %d %s" % (r.choice(["s2cn", "s2n"]), r.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, (len(s) + 1) // 2, (len(s) + 1) // 2]), H(s))


def reg_all(r, n):
    """Every registered code, through the fields that carry it."""
    for k, t in (("country", 0x9F1A), ("currency", 0x5F2A)):
        for c in range(1000):
            yield "info %X 200 %04d" % (t, c)
    for c in sorted(_reg["country2"]):
        yield "info 5F55 200 %s" % H(c.encode())
        yield "info 5F55 200 %s" % H(c.lower().encode())
    for c in sorted(_reg["country3"]):
        yield "info 5F56 200 %s" % H(c.encode())
    for a in range(0x61, 0x7B):
        for b in range(0x61, 0x7B):
            yield "str langpref 200 %02X%02X" % (a, b)
    for c in sorted(_reg["currency"]):
        yield "str refcur 200 %s" % c.rjust(4, "0")
    for c in range(0, 10000, n):
        yield "str mcc 200 %04d" % c
    for c in _reg["mcc"]:
        yield "str mcc 200 %s" % c.rjust(4, "0")


_sets = {n: {k: told for k, (_, told) in s.items()} for n, s in registers.sets().items()}


def _look(r, used):
    k = r.choice(["c2", "c3", "cn", "k3", "kn", "l2", "l3", "m"])
    f = {"2": "alpha_2", "3": "alpha_3", "n": "numeric", "m": "numeric"}[k[-1]]
    if k[-1] in "23" and r.random() < 0.12:
        return k + ":"
    rows = [x for u in used for x in _sets[u][k[0]]["rows"] if f in x]
    if rows and r.random() < 0.85:
        x = r.choice(rows)[f]
    elif f == "numeric":
        x = str(r.choice([0, 1, 39, 40, 528, 978, 5411, 9999, 65536, 4294967295]))
    else:
        x = r.choice(["NL", "EU", "en", "AB", "ab", "ABC", "abc", "NLD", "A", "ABCD", "zz"])
    return "%s:%s" % (k, x) if x and (x.isdigit() if f == "numeric" else x.isalnum()) else "m:1"


def iso_lines(r, n):
    names = list(_sets)
    good = [x for x in names if x.startswith("good")]
    pick = lambda: r.choice(good) if r.random() < 0.55 else r.choice(names)
    for _ in range(n):
        ops, used = [], []
        for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
            for _ in range(r.choice([0, 0, 1, 2])):
                ops.append(_look(r, used or [r.choice(good)]))
            a, b = pick(), pick()
            x = r.random()
            if x < 0.5:
                if r.random() < 0.07:
                    ops.append("E:")
                else:
                    ops.append("%s:%s" % (r.choice("IIJ"), a))
                    used.append(a)
            elif x < 0.75:
                ops.append("M:%s" % b)
                used.append(b)
            else:
                ops.append("S:%s:%s" % (a, b))
                used += [a, b]
            for _ in range(r.choice([2, 4, 8])):
                ops.append(_look(r, used))
        yield "iso " + " ".join(ops)
