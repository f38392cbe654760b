"""Seeded generators of scenarios (inputs, cards, terminals, histories).  They only choose
what to do; what must happen is decided by the specification when the trace is validated."""
import random
from engine import Scenario


def H(b):
    return bytes(b).hex().upper() if len(b) else "-"


def rb(r, n):
    return bytes(r.randrange(256) for _ in range(n))


def enc_len(n, form=0):
    if form == 0:
        if n < 0x80:
            return bytes([n])
        form = 1 if n < 0x100 else 2
    return bytes([0x80 | form]) + n.to_bytes(form, "big") if n < (1 << (8 * form)) else enc_len(n)


def tlv(tag, val, form=0):
    t = tag if isinstance(tag, (bytes, bytearray)) else tagb(tag)
    return bytes(t) + enc_len(len(val), form) + bytes(val)


def tagb(t):
    n = max(1, (t.bit_length() + 7) // 8)
    return t.to_bytes(n, "big")


PRIM = [0x50, 0x4F, 0x84, 0x87, 0x88, 0x9F38, 0x9F11, 0x9F12, 0x5F2D, 0x82, 0x94, 0x5A, 0x57, 0x8C,
        0x8D, 0x5F24, 0x9F02, 0x9A, 0x95, 0x9F36, 0x9F10, 0xDF8101, 0xDF818203, 0x42, 0x00, 0x1F00,
        0xC1, 0x9F7F, 0x1F7F, 0x8E, 0x5F20, 0x9F26, 0xDF9F02, 0x9F8101, 0x9F5A, 0x9F50]
CONS = [0x6F, 0xA5, 0x70, 0x77, 0x61, 0xBF0C, 0x7F49, 0x30, 0xFF8105, 0x3F01, 0xE1]
SIZES = [0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 10, 16, 17, 20, 33]
BIG = [127, 128, 129, 200, 250, 253, 254, 255, 256, 257, 300]


def rand_tlv(r, depth=0, big=0.05):
    if depth < 4 and r.random() < 0.35:
        t = r.choice(CONS)
        body = b"".join(rand_tlv(r, depth + 1, big / 2) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])))
        if r.random() < 0.12:
            eoc = r.choice([b"\0\0", b"\0\0", b"\0\0", b"\0\x01\xAA", b"\0\x81\0", b""])
            return tagb(t) + b"\x80" + body + eoc
    else:
        t = r.choice(PRIM) if r.random() < 0.9 else r.randrange(1 << r.choice([8, 16, 24, 32]))
        n = r.choice(BIG) if r.random() < big else r.choice(SIZES)
        body = rb(r, n)
    form = 0
    x = r.random()
    if x < 0.08:
        form = r.choice([1, 2, 3, 4])
    elif x < 0.1:
        form = r.choice([5, 6, 8, 16])
    return tlv(t, body, form)


def mutate(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.randrange(8)
        if k == 0 and b:
            del b[r.randrange(len(b)):]
        elif k == 1 and b:
            b[r.randrange(len(b))] = r.choice([0, 1, 2, 0x1F, 0x7F, 0x80, 0x81, 0x82, 0x84, 0x85, 0x9F, 0xFF, r.randrange(256)])
        elif k == 2 and b:
            i = r.randrange(len(b))
            b[i] ^= 1 << r.randrange(8)
        elif k == 3:
            b += rb(r, r.choice([1, 1, 2, 3]))
        elif k == 4 and b:
            del b[r.randrange(len(b))]
        elif k == 5:
            i = r.randrange(len(b) + 1)
            b[i:i] = rb(r, r.choice([1, 2]))
        elif k == 6 and b:
            i = r.randrange(len(b))
            b[i] = (b[i] + r.choice([1, -1])) % 256
        elif k == 7:
            b += r.choice([b"\0", b"\0\0", b"\xFF", b"\x90\0", b"\x80", b"\x9F"])
    return bytes(b)


def rand_ber(r, big=0.05):
    x = r.random()
    if x < 0.08:
        return rb(r, r.randrange(0, 9))
    b = b"".join(rand_tlv(r, big=big) for _ in range(r.choice([1, 1, 1, 2, 3])))
    if x < 0.12:
        # lengths around what the input holds, and around powers of two
        k = r.choice([1, 2, 3, 4])
        n = r.choice([0, 1, len(b), len(b) - 1, len(b) + 1, -1, -2, -3, -4, -5, -6, -7, -8, -len(b), 1 << 7, 1 << 8, 1 << 15,
                      1 << 16, (1 << 31) - 1, 1 << 31, -(1 << 31) - 1]) & ((1 << (8 * k)) - 1)
        return tagb(r.choice(PRIM + CONS)) + bytes([0x80 | k]) + n.to_bytes(k, "big") + b
    if x < 0.55:
        b = mutate(r, b)
    return b


# ---- pure operations ------------------------------------------------------
def one(n, line):
    return Scenario(n, [line])


def ber_lines(r, n):
    for i in range(n):
        b = rand_ber(r, 0.08)
        yield "%s %s" % (r.choice(["ber", "ber", "berit", "flat", "flat", "tag"]), H(b))


def oid_lines(r, n):
    for i in range(n):
        k = r.choice([1, 1, 2, 3, 4, 6, 8, 9, 10, 11, 12, 14, 20])
        b = bytearray([r.choice([0x2A, 0x00, 0x27, 0x28, 0x4F, 0x50, 0x78, 0x7F, r.randrange(128)])])
        if r.random() < 0.2:
            b[0:1] = bytes([0x80 | r.randrange(1, 128), r.randrange(128)])
        for _ in range(k - 1):
            v = r.choice([0, 1, 127, 128, 840, 16383, 16384, 113549, r.randrange(1 << 28), r.randrange(1 << 32)])
            g = [v & 0x7F]
            v >>= 7
            while v:
                g.append(0x80 | (v & 0x7F))
                v >>= 7
            b += bytes(reversed(g))
        b = bytes(b)
        if r.random() < 0.25:
            b = mutate(r, b)
        yield "oid %s" % H(b)


DOLTAGS = [0x9F02, 0x9F03, 0x9A, 0x9C, 0x5F2A, 0x95, 0x9F37, 0x9F1A, 0x9F35, 0x9F06, 0x9F39, 0x9B,
           0x9F66, 0x9F21, 0x9F41, 0x5F36, 0x9F01, 0x9F15, 0x81, 0x9F33, 0x9F40, 0xDF8119, 0x9F4E, 0x8A,
           0x5F57, 0x9F07, 0x9F3C, 0x9F3D, 0xDF9F02, 0x9F8119, 0xDF9F1A, 0x5F1A]


def rand_dol(r, maxn=8):
    b = b""
    for _ in range(r.choice([0, 1, 1, 2, 3, 4, maxn])):
        t = r.choice(DOLTAGS) if r.random() < 0.9 else r.choice(PRIM + CONS)
        b += tagb(t) + bytes([r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 16, 20, r.choice([60, 100, 127, 128, 200, 255])]) if r.random() < 0.9 else r.randrange(256)])
    if r.random() < 0.15:
        b = mutate(r, b)
    return b


def rand_fields(r, tags, n, maxlen=12):
    out = []
    for _ in range(n):
        out.append((r.choice(tags), rb(r, r.choice([0, 1, 2, 3, 4, 5, 6, 6, 7, 8, maxlen])), r.choice([0, 0, 0, 1])))
    return out


def ltok(fields):
    return ",".join("%X:%s:%d" % (t, bytes(v).hex().upper(), f) for t, v, f in fields) or "-"


def dol_lines(r, n):
    for i in range(n):
        d = rand_dol(r)
        if r.random() < 0.35:
            yield "dol %s" % H(d)
        else:
            srcs = [ltok(rand_fields(r, DOLTAGS + [0x9F02, 0x9A], r.choice([0, 1, 3, 6, 10]))) for _ in range(r.choice([0, 1, 2, 3, 3]))]
            total = 0
            need = sum(max(0, x) for x in [dollen(d)])
            cap = r.choice([need, need, max(0, need - 1), need + 1, 255, 252, 0, 1, 1000, r.randrange(0, 300)])
            yield ("dolb %s %d " % (H(d), cap)) + " ".join(srcs)


def dollen(d):
    i = n = 0
    while i < len(d):
        if d[i] & 0x1F == 0x1F:
            i += 1
            while i < len(d) and d[i] & 0x80:
                i += 1
        i += 1
        if i >= len(d):
            break
        n += d[i]
        i += 1
    return n


def rand_afl_entry(r):
    x = r.random()
    if x < 0.75:
        sfi = r.choice([1, 2, 3, 10, 11, 12, 30, r.randrange(1, 31)])
        a = r.choice([1, 1, 2, 3, 254, 255, r.randrange(1, 256)])
        b = min(255, a + r.choice([0, 0, 1, 2, 5]))
        return bytes([sfi << 3, a, b, r.choice([0, 1, b - a + 1, b - a + 1])])
    if x < 0.95:
        e = bytearray([r.choice([1, 10, 11, 30]) << 3, 1, 2, 1])
        e[r.randrange(4)] = r.choice([0, 1, 2, 3, 4, 7, 0xF8, 0xF0, 0xFF, r.randrange(256)])
        return bytes(e)
    return rb(r, 4)


def afl_lines(r, n):
    for i in range(n):
        k = r.choice([0, 1, 1, 2, 3, 4, 62, 63, 64])
        b = b"".join(rand_afl_entry(r) if k < 10 or r.random() < 0.03 else bytes([8, 1, 1, 0]) for _ in range(k))
        if r.random() < 0.1:
            b = b[:-r.choice([1, 2, 3])] if b else b
        yield "afl %s" % H(b)


def lops_lines(r, n):
    for i in range(n):
        ops = []
        tags = [0x9F02, 0x82, 0x94, 0x5A, 0xDF818203, 0x50]
        if r.random() < .3:  # tags that share octets
            t = r.choice([0x9F02, 0x5A, 0xDF8101, 0xDF818203])
            tags = [t, t, t ^ 0x10000, t ^ 0x40000000, t & 0xFF, t | 0x9F00, t & 0xFFFF, t | 0xDF0000, t ^ 0x20]
        for _ in range(r.randrange(1, 14)):
            k = r.choice(["push", "push", "push", "bpush", "bpush", "pop", "find", "find", "dup", "append", "append", "empty", "parse", "clear"])
            if k in ("push", "bpush"):
                ops.append("%s:%X:%s:%d" % (k, r.choice(tags), rb(r, r.choice([0, 1, 2, 5])).hex().upper(), r.choice([0, 1, 2, 255])))
            elif k == "find":
                ops.append("find:%X" % r.choice(tags))
            elif k == "parse":
                ops.append("parse:%s" % H(rand_ber(r, 0)))
            else:
                ops.append(k)
        yield "lops " + " ".join(ops)


TERM_N = [0x9A, 0x9C, 0x5F2A, 0x5F36, 0x5F57, 0x9F01, 0x9F02, 0x9F03, 0x9F15, 0x9F1A, 0x9F21, 0x9F35, 0x9F39, 0x9F3C, 0x9F3D, 0x9F41]


def rand_name(r, maxn=20):
    k = r.choice([0, 1, 3, 6, 10, 15, 16, 17, maxn])
    x = r.random()
    if x < 0.4:
        return bytes(r.choice(b"ABCxyz 0129") for _ in range(k))
    if x < 0.8:
        return bytes(r.choice([r.randrange(0x20, 0x7F), r.randrange(0xA0, 0x100)]) for _ in range(k))
    return rb(r, k)


RIDS = ["A000000003", "A000000004", "A000000025", "A000000152", "A000000333", "A000000065", "B012345678"]


def rand_aid(r, base=None):
    if base and r.random() < 0.5:
        b = bytearray(base)
        x = r.random()
        if x < 0.4:
            b = b[:max(5, len(b) - r.randrange(1, 4))]
        elif x < 0.8:
            b += rb(r, r.randrange(1, 4))
        else:
            b[-1] ^= 1 << r.randrange(8)
        return bytes(b[:16])
    a = bytes.fromhex(r.choice(RIDS)) + rb(r, r.choice([0, 1, 2, 2, 2, 3, 5, 10, 11]))
    return a[:16]


def fci(r, aid, extra=b"", weird=0.1):
    p = b""
    if r.random() < 0.85:
        p += tlv(0x50, rand_name(r))
    if r.random() < 0.6:
        p += tlv(0x87, bytes([r.choice([1, 1, 2, 3, 15, 0, 0x81, 0x82, 0x80, 0x11, r.randrange(256)])]) if r.random() < 0.93 else rb(r, r.choice([0, 2])))
    if r.random() < 0.4:
        p += tlv(0x9F12, rand_name(r))
    if r.random() < 0.45:
        p += tlv(0x9F11, bytes([r.choice([1, 1, 2, 5, 7, 9, 11, 15, 0, 12, 16, r.randrange(256)])]) if r.random() < 0.92 else rb(r, r.choice([0, 2])))
    p += extra
    if r.random() < 0.2:
        p += tlv(0xBF0C, tlv(0x9F4D, rb(r, 2)))
    body = tlv(0x84, aid) + tlv(0xA5, p)
    if r.random() < weird * 0.3:
        body = tlv(0xA5, p)
    return tlv(0x6F if r.random() > weird * 0.2 else 0x6E, body)


def app_lines(r, n):
    for i in range(n):
        aid = rand_aid(r)
        if r.random() < 0.05:
            aid = rb(r, r.choice([0, 1, 4, 17, 20]))
        aids = [(0x9F06, rand_aid(r, aid) if r.random() < 0.6 else aid, r.choice([0, 1])) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        if r.random() < 0.1:
            aids.append((0x9F06, aid[:r.randrange(len(aid) + 1)], r.choice([0, 1, 2])))
        if r.random() < 0.5:
            b = fci(r, aid)
            if r.random() < 0.2:
                b = mutate(r, b)
            yield "appfci %s %s" % (H(b), ltok(aids))
        else:
            b = dir_entry(r, aid)
            if r.random() < 0.15:
                b = mutate(r, b)
            pse = []
            if r.random() < 0.7:
                pse.append((0x9F11, bytes([r.choice([1, 2, 5, 7, 15, 0, 12, 16, r.randrange(20)])]) if r.random() < 0.93 else rb(r, r.choice([0, 2])), 0))
            yield "apppse %s %s %s" % (ltok(pse), H(b), ltok(aids))


def dir_entry(r, aid):
    p = tlv(0x4F, aid) if r.random() < 0.97 else b""
    if r.random() < 0.9:
        p += tlv(0x50, rand_name(r))
    if r.random() < 0.4:
        p += tlv(0x9F12, rand_name(r))
    if r.random() < 0.7:
        p += tlv(0x87, bytes([r.choice([1, 2, 3, 4, 15, 0, 0x81, 0x82, 0x80, r.randrange(256)])]))
    if r.random() < 0.2:
        p += tlv(0x73, tlv(0x9F4D, rb(r, 2)))
    if r.random() < 0.1:
        p += tlv(0x9F11, b"\x02")
    return p


def aops_lines(r, n):
    for i in range(n):
        ops = []
        for _ in range(r.randrange(2, 12)):
            k = r.choice(["push", "push", "push", "push", "pop", "rm", "sort", "sort", "req", "empty", "clear"] if r.random() < 0.9 else ["clear"])
            if k == "push":
                aid = rand_aid(r)
                pr = r.choice([None, 0, 1, 1, 2, 2, 3, 14, 15, 0x81, 0x82, 0x8F, 0x80, 0x10, 0x31])
                p = tlv(0x50, b"A%d" % r.randrange(10)) + (tlv(0x87, bytes([pr])) if pr is not None else b"")
                ops.append("push:" + H(tlv(0x6F, tlv(0x84, aid) + tlv(0xA5, p))))
            elif k == "rm":
                ops.append("rm:%d" % r.choice([0, 0, 1, 2, 3, 5]))
            else:
                ops.append(k)
        yield "aops " + " ".join(ops)


def fmt_lines(r, n):
    for i in range(n):
        k = r.choice(["nonctl", "alnumsp", "bstr"])
        b = rand_name(r, 40) if r.random() < 0.7 else rb(r, r.choice([0, 1, 5, 16, 17, 33, 64]))
        need = len(b) * 2 + 1
        cap = r.choice([0, 1, 2, 3, len(b), len(b) + 1, need - 1, need, need + 1, 17, 33, 100, r.randrange(0, 70)])
        yield "fmt %s %d %s" % (k, cap, H(b))


def uint_lines(r, n):
    for i in range(n):
        x = r.random()
        v = r.choice([0, 1, 9, 10, 99, 100, 255, 256, 65535, 65536, 999999, 10 ** 9, 4294967295, 4294967290, 1 << 31, r.randrange(1 << 32), r.randrange(1 << 16)])
        if x < 0.5:
            yield "%s %d %d" % (r.choice(["u2n", "u2b"]), v, r.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12]))
        elif x < 0.8:
            ln = r.choice([0, 1, 1, 2, 3, 4, 5, 6])
            if r.random() < 0.75:
                s = "".join(r.choice("0123456789") for _ in range(2 * ln))
                if r.random() < 0.5 and ln > 4:
                    s = s[-9:].rjust(2 * ln, "0")
            else:
                s = "".join(r.choice("0123456789ABCDEF") for _ in range(2 * ln))
            yield "n2u %s" % (s or "-")
        else:
            yield "b2u %s" % H(rb(r, r.choice([0, 1, 2, 3, 4, 4, 5, 6])))


def iso8859_lines(r, n, pages=None):
    for i in range(n):
        page = r.choice(pages or [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 0, 16, 17, 99])
        b = bytes(r.choice([r.randrange(0x20, 0x7F), r.randrange(0xA0, 0x100), r.randrange(0xA0, 0x100)]) for _ in range(r.choice([0, 1, 2, 5, 16, 20])))
        cap = r.choice([0, 1, 2, 3, 4, len(b), len(b) + 1, 2 * len(b), 2 * len(b) + 1, 3 * len(b), 3 * len(b) + 1, 33, 64, 100])
        yield "iso8859 %d %d %s" % (page, cap, H(b))


def rand_atr(r):
    """An ATR: mostly well formed, with values biased to what the rules look at."""
    def ta(i, p):
        if i == 1:
            return r.choice([0x11, 0x12, 0x13, 0x13, 0x14, 0x18, 0x95, 0x96, r.randrange(256)])
        if i == 2:
            return r.choice([p, p, 0x80 | p, 0x10 | p, 1 - p & 1, r.randrange(256)])
        return r.choice([0x20, 0xFE, 0x10, 0x0F, 1, 3, 7, 8, 0x43, 0xC7, 0, 0xFF, r.randrange(256)])

    def tb(i, p):
        if i == 1:
            return r.choice([0, 0x25, 0x25, 0x45, 0x65, 5, 0x19, 0x1A, r.randrange(256)])
        if i == 2:
            return r.choice([50, 250, 49, 251, 100, r.randrange(256)])
        return r.choice([0x45, 0x4D, 0x00, 0x35, 0x46, 0x50, 0x95, 0xA5, 0x80, r.randrange(256)])

    def tc(i, p):
        if i == 1:
            return r.choice([0, 0, 255, 254, 1, r.randrange(256)])
        if i == 2:
            return r.choice([10, 10, 0, 255, r.randrange(256)])
        return r.choice([0, 0, 1, 255, r.randrange(256)])

    wild = r.random() < 0.25
    out = [0x3B if r.random() < 0.85 else 0x3F if r.random() < 0.9 else r.randrange(256)]
    k = r.choice([0, 0, 1, 2, 3, 4, 5, 8, 15, r.randrange(16)])
    y = r.randrange(16)
    out.append(y << 4 | k)
    p, tck = 0, False
    style = r.choice(["any", "t0", "t1", "t0g"])
    for i in range(1, 5):
        if y & 1:
            out.append(ta(i, p) if not wild else r.randrange(256))
        if y & 2:
            out.append(tb(i, p) if not wild else r.randrange(256))
        if y & 4:
            out.append(tc(i, p) if not wild else r.randrange(256))
        if not y & 8:
            break
        if style == "t0":
            p = 0
        elif style == "t1":
            p = 1
        elif style == "t0g":
            p = 0 if i == 1 else 15
        else:
            p = r.choice([0, 1, 1, 15, 15]) if i > 1 else r.choice([0, 1])
        if r.random() < 0.03:
            p = r.randrange(16)
        y = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 15, r.randrange(16)])
        if i == 4 and r.random() < 0.9:
            y = 0
        out.append(y << 4 | p)
        tck = tck or p != 0
    h = []
    if k:
        h = [r.choice([0, 0x80, 0x80, 0x10, 0x81, 0x8F, 0x41, r.randrange(256)])]
        room = k - 1 - (3 if h[0] == 0 else 0)
        while room > 0:
            n = min(r.choice([0, 1, 2, 3, 4]), room - 1)
            h.append(r.choice([8, 8, 3, 5, 6, 7, r.randrange(16)]) << 4 | n)
            h += [r.choice([0x90, 0, 5, r.randrange(256)]) for _ in range(n)]
            room -= n + 1
        h += [r.randrange(256) for _ in range(k - len(h))]
        if r.random() < 0.1:
            h[r.randrange(len(h))] = r.randrange(256)
    out += h
    if tck or r.random() < 0.05:
        x = 0
        for c in out[1:]:
            x ^= c
        out.append(x if r.random() < 0.9 else x ^ (1 << r.randrange(8)))
    b = bytes(out)
    q = r.random()
    if q < 0.08:
        b = b[:r.randrange(len(b) + 1)]
    elif q < 0.13:
        b = b + rb(r, r.randrange(1, 20))
    elif q < 0.16:
        b = mutate(r, b)
    return b


def atr_lines(r, n, kinds=("atr", "atrs", "emvatr")):
    out = []
    for _ in range(n):
        b = rand_atr(r)
        for k in kinds:
            if k == "atrs":
                out.append("atrs %d %s" % (r.choice([1, 2, 4, 8, 12, 20, 40, 64, 100, 200]), H(b)))
            else:
                out.append("%s %s" % (k, H(b)))
    return out


def case_lines(r, n):
    for i in range(n):
        h = rb(r, 4)
        x = r.random()
        if x < 0.2:
            b = rb(r, r.randrange(0, 12))
        else:
            k = r.choice([1, 2, 3, 255, r.randrange(1, 256)])
            b = h + bytes([k]) + rb(r, k + r.choice([-1, 0, 0, 1, 1, 2]) if k else 0)
            if r.random() < 0.25:
                k = r.choice([0, 1, 2, 3, 5, 256, 300])
                b = h + b"\0" + k.to_bytes(2, "big") + rb(r, max(0, k + r.choice([-1, 0, 0, 1, 2, 2, 3])))
        yield "case %s" % H(b)


def iso8859_all(r, n):
    """Every octet of every part, alone and between letters, at the capacities around its size."""
    for page in range(0, 18):
        for b in list(range(0x20, 0x7F)) + list(range(0xA0, 0x100)):
            yield "iso8859 %d 16 %02X" % (page, b)
        for b in list(range(0xA0, 0x100)):
            for cap in (2, 3, 4, 5):
                yield "iso8859 %d %d 41%02X42" % (page, cap, b)


def cmd_all(r, n):
    """Every file identifier, boundary records and lengths, as one session each."""
    for mode in ("APDU", "TPDU"):
        for sfi in range(256):
            yield "S c %s|R 0 9000|cmd rec %d %d|E" % (mode, sfi, r.choice([0, 1, 2, 255, r.randrange(256)]))
        for rec in range(256):
            yield "S c %s|R 0 6A83|cmd rec %d %d|E" % (mode, r.choice([1, 10, 30]), rec)
        for k in ("sel", "next"):
            for ln in range(0, 40):
                yield "S c %s|%scmd %s %s|E" % (mode, "R 0 A4|R 0 6A82|" if mode == "TPDU" else "R 0 6A82|", k, H(rb(r, ln)))
        for ln in range(0, 260):
            d = (b"\x83" + rb(r, ln - 1)) if ln else b""
            yield "S c %s|%scmd gpo %s|E" % (mode, "R 0 A8|R 0 6985|" if mode == "TPDU" else "R 0 6985|", H(d))
        for t in range(256):
            yield "S c %s|%scmd gpo %02X00|E" % (mode, "R 0 A8|R 0 6985|" if mode == "TPDU" else "R 0 6985|", t)


# ---- cards and terminals -----------------------------------------------------
REC_EXTRA = [0x57, 0x5F20, 0x5F34, 0x9F07, 0x9F08, 0x9F0D, 0x9F0E, 0x9F0F, 0x8E, 0x5F28, 0x9F1F, 0x9F42, 0x5F25, 0x8F, 0x9F32, 0x92, 0x9F5A, 0xDF9F08, 0xDF8142, 0x9F8142]


def split_records(r, fields, k):
    recs = [b""] * k
    for f in fields:
        i = r.randrange(k)
        recs[i] += f
    return recs


class Card:
    """A random card: rules (prefix, count, rapdu)."""

    def __init__(self, r, faults=0.15, napps=None, pse=None, big=0.1, term=None):
        self.r = r
        self.rules = []
        n = r.choice([0, 1, 1, 2, 2, 3, 4, 6]) if napps is None else napps
        self.aids = []
        for _ in range(n):
            a = rand_aid(r, r.choice(self.aids) if self.aids else None)
            if term and r.random() < .95:
                t, f = r.choice(term)
                a = t + (rb(r, r.choice([0, 0, 1, 2, 3])) if f or r.random() < .1 else b"")
            if a not in self.aids or not term:
                self.aids.append(a)
        # terminal
        self.term = []
        if term:
            self.term = [(0x9F06, a, f) for a, f in term]
        for a in self.aids if not term else []:
            x = r.random()
            if x < 0.35:
                self.term.append((0x9F06, a, 0))
            elif x < 0.75:
                self.term.append((0x9F06, a[:r.choice([5, 5, 6, 7, len(a)])], 1))
        if not term:
            for _ in range(r.choice([0, 0, 1, 2])):
                self.term.append((0x9F06, rand_aid(r), r.choice([0, 1])))
            if r.random() < 0.05:
                self.term.append((0x9F06, rb(r, r.choice([0, 3, 4, 17, 20])), r.choice([0, 1])))
            r.shuffle(self.term)
            if self.term and r.random() < 0.1:
                self.term.append(self.term[0])
        self.pse(pse)
        self.select()
        self.gpo(big)
        if r.random() < faults:
            self.fault()
        if r.random() < faults * 0.4:
            self.fault()

    def rule(self, pfx, rapdu, count=-1):
        self.rules.append([bytes(pfx), count, bytes(rapdu)])

    def pse(self, want):
        r = self.r
        have = r.random() < 0.6 if want is None else want
        name = b"1PAY.SYS.DDF01"
        pfx = b"\x00\xA4\x04\x00\x0E" + name
        if not have:
            self.rule(pfx, r.choice([b"\x6A\x82", b"\x6A\x82", b"\x6A\x82", b"\x6A\x81", b"\x62\x83", b"\x69\x85", b"\x6F\x00"]) if r.random() < 0.3 else b"\x6A\x82")
            return
        sfi = r.choice([1, 1, 1, 2, 10, 30]) if r.random() < 0.93 else r.choice([0, 31, 255, 32])
        p = tlv(0x88, bytes([sfi]) if r.random() < 0.96 else rb(r, r.choice([0, 2]))) if r.random() < 0.97 else b""
        if r.random() < 0.5:
            p += tlv(0x5F2D, b"en")
        if r.random() < 0.5:
            p += tlv(0x9F11, bytes([r.choice([1, 2, 5, 7, 15, 0, 12])]))
        body = tlv(0x6F, tlv(0x84, name) + tlv(0xA5, p))
        if r.random() < 0.08:
            body += r.choice([b"\0", b"\0\0", b"\0\0\0", b"\xFF\xFF"])
        self.rule(pfx, body + (b"\x90\x00" if r.random() < 0.97 else r.choice([b"\x62\x83", b"\x63\x10", b"\x6A\x81", b"\x62\x00"])))
        rec = 1
        todo = list(self.aids)
        r.shuffle(todo)
        if r.random() < 0.2:
            todo = todo[:r.randrange(len(todo) + 1)]
        while todo or (rec == 1 and r.random() < 0.2):
            k = r.choice([1, 1, 1, 2, 3])
            ent, todo = todo[:k], todo[k:]
            c = b""
            for a in ent:
                c += tlv(0x61, dir_entry(r, a))
                if r.random() < 0.06:
                    c += r.choice([tlv(0x50, b"X"), tlv(0x61, b""), tlv(0x62, b"\x4F\x00"), tlv(0x61, tlv(0x50, b"Y"))])
            sw = b"\x90\x00"
            body = tlv(0x70, c)
            x = r.random()
            if x < 0.04:
                sw = r.choice([b"\x62\x83", b"\x69\x85", b"\x6A\x82", b"\x62\x00"])
                body = b"" if r.random() < 0.5 else body
            elif x < 0.08:
                body = mutate(r, body)
            elif x < 0.1:
                body = tlv(r.choice([0x71, 0x77, 0x61]), c)
            elif x < 0.12:
                body += rb(r, r.choice([1, 2]))
            if len(body) > 256:
                body = body[:256]
            self.rule(bytes([0, 0xB2, rec, (sfi << 3 | 4) & 0xFF]), body + sw)
            rec += 1
            if rec > 12:
                break
        if r.random() < 0.02:
            self.rule(bytes([0, 0xB2]), b"\x90\x00")  # a directory that never ends

    def select(self):
        r = self.r
        self.fcis = {}
        for a in self.aids:
            extra = b""
            if r.random() < 0.65:
                d = rand_dol(r, 6)
                extra = tlv(0x9F38, d)
            self.fcis[a] = fci(r, a, extra, 0.08)[:256]
        for t, a, f in self.term:
            m = [x for x in self.aids if x[:len(a)] == a]
            exact = [x for x in m if x == a]
            m = exact + [x for x in m if x != a]
            pfx = bytes([0, 0xA4, 4, 0, len(a)]) + a
            if not m or len(a) < 5 or len(a) > 16:
                continue
            if len(m) == 1 and m[0] == a:
                continue
            self.rule(pfx, self.fcis[m[0]] + (b"\x90\x00" if r.random() < 0.9 else b"\x62\x83"))
            for x in m[1:]:
                self.rule(bytes([0, 0xA4, 4, 2, len(a)]) + a, self.fcis[x] + (b"\x90\x00" if r.random() < 0.85 else r.choice([b"\x62\x83", b"\x6A\x81", b"\x63\x10"])), 1)
            if r.random() < 0.03:
                self.rule(bytes([0, 0xA4, 4, 2, len(a)]) + a, self.fcis[m[0]] + b"\x90\x00", r.choice([5, 60]))
        for a in self.aids:
            sw = b"\x90\x00" if r.random() < 0.9 else r.choice([b"\x62\x83", b"\x6A\x82", b"\x6A\x81", b"\x69\x85", b"\x63\x00"])
            body = self.fcis[a]
            if r.random() < 0.06:
                body = fci(r, rand_aid(r, a))[:256]
            self.rule(bytes([0, 0xA4, 4, 0, len(a)]) + a, body + sw)

    def gpo(self, big):
        r = self.r
        mand = [tlv(0x5F24, rb(r, 3)), tlv(0x5A, rb(r, 8)), tlv(0x8C, rand_dol(r)), tlv(0x8D, rand_dol(r))]
        if r.random() < 0.1:
            mand.pop(r.randrange(4))
        extra = [tlv(t, rb(r, r.choice([1, 2, 3, 5, 10, 20]))) for t in r.sample(REC_EXTRA, r.choice([0, 1, 3, 5]))]
        if r.random() < 0.08:
            extra.append(r.choice(mand + extra) if r.random() < 0.5 else tlv(0x5A, rb(r, 2)))
        fields = mand + extra
        r.shuffle(fields)
        entries, self.recs = [], []
        nent = r.choice([1, 1, 2, 2, 3, 4])
        slots = []
        used = set()
        for _ in range(nent):
            sfi = r.choice([1, 1, 2, 3, 5, 10]) if r.random() < 0.8 else r.choice([11, 20, 30])
            if sfi in used and r.random() < 0.9:
                sfi = r.choice([4, 6, 7, 8, 9])
            used.add(sfi)
            a = r.choice([1, 1, 1, 2, 5, 254, 255])
            b = min(255, a + r.choice([0, 0, 1, 2]))
            entries.append(bytes([sfi << 3, a, b, r.choice([0, 0, 1, b - a + 1])]))
            for k in range(a, b + 1):
                slots.append((sfi, k))
        recs = split_records(r, fields, len(slots))
        for (sfi, k), body in zip(slots, recs):
            if r.random() < big:
                room = r.choice([250, 251, 252, 253]) - len(body)
                if room > 4:
                    body += tlv(0x9F46, rb(r, room - 3 if room < 130 else room - 4))
            rec = tlv(0x70, body)
            x = r.random()
            if sfi > 10 and x < 0.15:
                rec = r.choice([tlv(0x71, body), b"", rb(r, 5), tlv(0x70, body) + tlv(0x70, tlv(0x9F45, b"\x01\x02"))])
            elif x < 0.02:
                rec += r.choice([b"\0", b"\0\0", b"\xFF"])
            elif x < 0.03:
                rec = b"\x70\x81" + bytes([len(body) & 0xFF]) + body
            sw = b"\x90\x00"
            if r.random() < 0.02:
                sw = r.choice([b"\x6A\x83", b"\x62\x83", b"\x62\x00", b"\x69\x85"])
            self.rule(bytes([0, 0xB2, k, sfi << 3 | 4]), rec[:256] + sw)
        afl = b"".join(entries)
        if r.random() < 0.06:
            afl = mutate(r, afl) if r.random() < 0.5 else afl + rand_afl_entry(r)
        aip = rb(r, 2)
        x = r.random()
        if x < 0.45:
            rsp = tlv(0x80, aip + afl)
        elif x < 0.93:
            fs = [tlv(0x82, aip), tlv(0x94, afl)]
            if r.random() < 0.4:
                fs.append(tlv(r.choice([0x9F36, 0x9F10, 0x57, 0x9F26]), rb(r, r.choice([2, 8, 30]))))
            if r.random() < 0.05:
                fs.pop(r.randrange(2))
            if r.random() < 0.05:
                fs.append(r.choice([tlv(0x82, rb(r, 2)), tlv(0x94, rand_afl_entry(r))]))
            r.shuffle(fs)
            rsp = tlv(0x77, b"".join(fs))
            if r.random() < 0.05:
                rsp += r.choice([b"\0", b"\0\0", tlv(0x82, b"\0\0")])
        else:
            rsp = r.choice([tlv(0x78, tlv(0x82, aip)), tlv(0x80, aip), tlv(0x80, aip + afl[:-1]), b"", tlv(0x6F, tlv(0x82, aip) + tlv(0x94, afl)), mutate(r, tlv(0x77, tlv(0x82, aip) + tlv(0x94, afl)))])
        sw = b"\x90\x00"
        if r.random() < 0.08:
            sw = r.choice([b"\x69\x85", b"\x69\x85", b"\x6A\x81", b"\x62\x83", b"\x69\x84", b"\x62\x00"])
            if r.random() < 0.7:
                rsp = b""
        self.rule(b"\x80\xA8", rsp[:256] + sw)

    def fault(self):
        r = self.r
        x = r.choice(self.rules)
        body, sw = x[2][:-2], x[2][-2:]
        k = r.randrange(4)
        if k == 0:
            x[2] = mutate(r, body)[:256] + sw
        elif k == 1:
            x[2] = body + r.choice([b"\x6A\x81", b"\x6A\x82", b"\x62\x83", b"\x69\x85", b"\x6F\x00", b"\x6A\x83", b"\x63\x00", b"\x90\x01", b"\x00\x00"])
        elif k == 2:
            x[2] = r.choice([b"\x6A\x81", b"\x6A\x82", b"\x62\x83", b"\x69\x85", b"\x6F\x00", b"\x6A\x83", b"\x90\x00"])
        else:
            x[2] = rb(r, r.randrange(0, 30)) + sw

    def lines(self):
        return ["A %s %d %s" % (H(p), c, H(d)) for p, c, d in self.rules]


def term_lines(r, card):
    out = []
    if card.term:
        out.append("aid " + ltok(card.term))
    for k in ("cfg", "par"):
        f = rand_fields(r, DOLTAGS, r.choice([0, 2, 5, 9]))
        if f:
            out.append("%s %s" % (k, ltok(f)))
    return out


def style_line(r, mode):
    s = 0
    if mode == "APDU":
        s = r.choice([0, 0, 0, 1, 2, 3, 16, 18, 32, 33])
    else:
        s = r.choice([0, 2, 4, 8, 6, 10, 16, 20, 24, 32, 36])
    return "P %d %d" % (s, r.choice([256, 256, 1, 7, 16, 100, 255]))


def full_session(r, sid, mode=None, faults=0.15, history=0.15, **kw):
    mode = mode or r.choice(["APDU", "APDU", "TPDU"])
    if kw.get("napps") is True:
        kw["napps"] = r.choice([2, 3, 4, 5, 6])
    c = Card(r, faults, **kw)
    lines = ["S %s %s" % (sid, mode), style_line(r, mode)] + term_lines(r, c) + c.lines()
    if r.random() < history:
        for _ in range(r.randrange(2, 10)):
            k = r.choice(["build", "build", "select", "select", "init", "init", "read", "read", "reset", "clear", "clearapps", "selreq", "reinit", "par", "aid"])
            if k == "select":
                k = "select %d" % r.choice([0, 0, 1, 2, 9])
            elif k == "init":
                k = "init %d" % r.choice([5, 7, 0x91, 255])
            elif k == "par":
                k = "par " + ltok(rand_fields(r, DOLTAGS, 2))
            elif k == "aid":
                if not c.term:
                    continue
                k = "aid " + ltok(c.term[:2])
            lines.append(k)
    else:
        if r.random() < 0.1:
            lines += ["build"]
        lines += ["build", "selreq"]
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            lines.append("select %d" % r.choice([0, 0, 0, 0, 1, 2, 7]))
            lines.append("init %d" % r.choice([5, 7, 0x91, 0]))
            lines.append("read")
        if r.random() < 0.15:
            lines += ["init 1", "read"]
        if r.random() < 0.3:
            lines.append(r.choice(["reset", "clear", "reinit"]))
            if r.random() < 0.5:
                lines += ["init 3", "read", "build", "select 0"]
    return Scenario(sid, lines + ["E"])


EMVTAGS = [0x42, 0x4F, 0x50, 0x57, 0x5A, 0x73, 0x81, 0x82, 0x83, 0x84, 0x86, 0x87, 0x88, 0x89, 0x8A, 0x8C, 0x8D, 0x8E, 0x8F, 0x90,
           0x91, 0x92, 0x93, 0x94, 0x95, 0x97, 0x98, 0x99, 0x9A, 0x9B, 0x9C, 0x9D] + \
          [0x5F20, 0x5F24, 0x5F25, 0x5F28, 0x5F2A, 0x5F2D, 0x5F30, 0x5F34, 0x5F36, 0x5F50, 0x5F53, 0x5F54, 0x5F55, 0x5F56, 0x5F57] + \
          [x for x in range(0x9F01, 0x9F7F) if x % 256 >= 1] + [0xDF01, 0xDF8101, 0xC1, 0x9F8101, 0xDF9F02, 0xDF9F1A]


def focus_session(r, sid, focus=None):
    """One application, one transaction, everything well-behaved except what is in focus."""
    focus = focus or r.choice(["read", "init"])
    mode = r.choice(["APDU", "APDU", "APDU", "TPDU"])
    aid = rand_aid(r)
    rules = [(b"\x00\xA4\x04\x00\x0E", b"\x6A\x82")]
    dol, cfg, par = b"", [], []
    if focus == "init":
        tags = r.sample(DOLTAGS if r.random() < 0.6 else EMVTAGS, r.choice([1, 2, 4, 6]))
        dol = b"".join(tagb(t) + bytes([r.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 8, 20])]) for t in tags)
        if r.random() < 0.1:
            dol += tagb(r.choice(DOLTAGS)) + bytes([r.choice([120, 126, 127, 128, 200, 240, 251, 252, 255])])
        if r.random() < 0.05:
            dol = mutate(r, dol)
        for lst in (cfg, par):
            for t in tags:
                if r.random() < 0.5:
                    lst.append((t, rb(r, r.choice([0, 1, 2, 2, 3, 4, 6, 8, 12])), 0))
            r.shuffle(lst)
        if r.random() < 0.1 and cfg:
            cfg.append((cfg[0][0], rb(r, 3), 0))
    body = tlv(0x50, b"APP") + (tlv(0x9F38, dol) if dol else b"")
    if r.random() < 0.2:
        body += tlv(r.choice(EMVTAGS), rb(r, 3))
    f = tlv(0x6F, tlv(0x84, aid) + tlv(0xA5, body))
    rules.append((bytes([0, 0xA4, 4, 0, len(aid)]) + aid, f[:256] + b"\x90\x00"))
    # records
    mand = [(0x5F24, rb(r, 3)), (0x5A, rb(r, 8)), (0x8C, rand_dol(r)), (0x8D, rand_dol(r))]
    extra = [(t, rb(r, r.choice([0, 1, 2, 3, 6]))) for t in r.sample(EMVTAGS if r.random() < 0.7 else REC_EXTRA, r.choice([0, 1, 3, 6, 10, 14]))]
    extra = [x for x in extra if x[0] not in (0x5F24, 0x5A, 0x8C, 0x8D)]
    nslots = r.choice([1, 1, 2, 2, 3, 4])
    if focus == "read":
        if r.random() < 0.35:
            mand.pop(r.randrange(len(mand)))
        if r.random() < 0.2:
            t, v = r.choice(mand + extra)
            extra.append((t, v if r.random() < 0.4 else rb(r, 2)))
    fields = mand + extra
    r.shuffle(fields)
    enc = []
    for t, v in fields:
        x = tlv(t, v)
        if r.random() < 0.04:
            x = tlv(r.choice([0xBF0C, 0x73, 0x70, 0xA5]), x)
        enc.append(x)
    slots = []
    entries = []
    for i in range(nslots):
        sfi = r.choice([1, 2, 3, 9, 10]) if r.random() < 0.8 else r.choice([11, 12, 30])
        a = r.choice([1, 2, 3, 7, 128, 254, 255])
        b = min(255, a + r.choice([0, 0, 0, 1, 2]))
        entries.append(bytes([sfi << 3, a, b, r.choice([0, 1, b - a + 1])]))
        slots += [(sfi, k) for k in range(a, b + 1)]
    slots = list(dict.fromkeys(slots))
    recs = split_records(r, enc, len(slots))
    for (sfi, k), body in zip(slots, recs):
        rec = tlv(0x70, body)
        sw = b"\x90\x00"
        if focus == "read" and r.random() < 0.12:
            x = r.randrange(9)
            if x == 0:
                rec = tlv(0x71, body)
            elif x == 1:
                rec += r.choice([b"\0", b"\0\0", b"\xFF", b"\x5F", tlv(0x9F45, b"\1\2"), tlv(0x70, tlv(0x9F45, b"\1"))])
            elif x == 2:
                rec = mutate(r, rec)
            elif x == 3:
                rec = b""
            elif x == 4:
                sw = r.choice([b"\x6A\x83", b"\x62\x83", b"\x62\x00", b"\x69\x85", b"\x90\x01"])
            elif x == 5:
                rec = tlv(0x70, body, r.choice([1, 2]))
            elif x == 6:
                rec = rec[:-1]
            elif x == 7:
                rec = b"\x70\x80" + body + b"\0\0"
            else:
                rec = tlv(0x70, body, r.choice([1, 2])) + r.choice([b"\0", b"\0\0"])
        rules.append((bytes([0, 0xB2, k, sfi << 3 | 4]), rec[:256] + sw))
    afl = b"".join(entries)
    aip = rb(r, 2)
    rsp = tlv(0x80, aip + afl) if r.random() < 0.5 else tlv(0x77, tlv(0x82, aip) + tlv(0x94, afl))
    sw = b"\x90\x00"
    if focus == "init" and r.random() < 0.15:
        sw = r.choice([b"\x69\x85", b"\x69\x85", b"\x62\x83", b"\x6A\x81", b"\x6F\x00"])
    rules.append((b"\x80\xA8", (rsp if sw == b"\x90\x00" or r.random() < 0.3 else b"") + sw))
    lines = ["S %s %s" % (sid, mode), style_line(r, mode), "aid " + ltok([(0x9F06, aid, 0)])]
    for k, l in (("cfg", cfg), ("par", par)):
        if l:
            lines.append("%s %s" % (k, ltok(l)))
    lines += ["A %s -1 %s" % (H(p), H(d)) for p, d in rules]
    lines += ["build", "select 0", "init %d" % r.choice([5, 7, 0x91, 0]), "read"]
    if r.random() < 0.15:
        lines += r.choice([["read"], ["init 5"], ["reset", "read"], ["build", "select 0", "init 2", "read"], ["reset", "build", "select 0", "init 2"]])
    return Scenario(sid, lines + ["E"])


def tal_session(r, sid, only=None, faults=0.15, **kw):
    kinds = (only,) if only else ("pse", "find", "sel", "gpo", "afl")
    if only == "pse":
        kw["pse"] = r.random() < 0.85
    if only in ("pse", "find", "gpo", "afl") and r.random() < 0.3:
        faults = 1.0
    mode = r.choice(["APDU", "APDU", "TPDU"])
    c = Card(r, faults, **kw)
    lines = ["S %s %s" % (sid, mode), style_line(r, mode)] + term_lines(r, c) + c.lines()
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.choice(kinds)
        if k in ("pse", "find"):
            lines.append("tal_" + k)
        elif k == "sel":
            a = r.choice(c.aids) if c.aids and r.random() < 0.9 else rb(r, r.choice([0, 4, 5, 16, 17]))
            lines.append("tal_sel " + H(a))
        elif k == "gpo":
            x = r.random()
            n = r.choice([0, 1, 10, 100, 127, 128, 200, 252])
            d = tlv(0x83, rb(r, n))
            if x < 0.3:
                lines.append("tal_gpo ~")
            elif x < 0.85:
                lines.append("tal_gpo " + H(d))
            else:
                lines.append("tal_gpo " + H(r.choice([b"\x83", b"\x84\x00", rb(r, 255), b"\x83" + rb(r, 255), b"\x83" + rb(r, 254)])))
        else:
            afl = b"".join(rand_afl_entry(r) for _ in range(r.choice([1, 1, 2, 3])))
            if r.random() < 0.6:
                # the card's own records
                ks = [p for p, _, _ in c.rules if len(p) == 4 and p[1] == 0xB2]
                afl = b"".join(bytes([p[3] & 0xF8, p[2], p[2], r.choice([0, 1])]) for p in r.sample(ks, min(len(ks), r.choice([1, 2, 4])))) or afl
            if r.random() < 0.1:
                afl = mutate(r, afl)
            lines.append("tal_afl " + H(afl))
    return Scenario(sid, lines + ["E"])


def rand_capdu(r):
    x = r.random()
    ins = r.choice([0xA4, 0xB2, 0xA8, 0x20, 0xDA, 0xC0, 0x88, 0x60, 0x9F, 0x5B, r.randrange(256)])
    h = bytes([r.choice([0, 0x80, 0x84]), ins, r.randrange(256), r.randrange(256)])
    if x < 0.12:
        return h
    if x < 0.4:
        return h + bytes([r.choice([0, 0, 1, 5, 255])])
    n = r.choice([1, 1, 2, 3, 5, 16, 100, 254, 255])
    if x < 0.6:
        return h + bytes([n]) + rb(r, n)
    if x < 0.92:
        return h + bytes([n]) + rb(r, n) + bytes([r.choice([0, 0, 5])])
    return r.choice([b"", h[:3], h + bytes([n]) + rb(r, n + 2), h + b"\0\0\x02\x01\x02", h + b"\0\0\x02\x01\x02\0\0", h + b"\0\x01\x00", h + bytes([n]) + rb(r, n - 1)])


def raw_reply(r, ins, mode):
    x = r.random()
    mx = 256
    if x < 0.02:
        return b""
    if x < 0.2:
        return bytes([r.choice([ins, ins ^ 0xFF, ins ^ 0xFF, 0x60, 0xC0, 0x3F, r.randrange(256)])])
    sw = r.choice([b"\x90\x00", b"\x90\x00", b"\x61" + bytes([r.choice([0, 1, 5, 255, r.randrange(256)])]), b"\x6C" + bytes([r.randrange(256)]),
                   b"\x62\x83", b"\x62" + bytes([r.choice([0, 1, 2, 3, 0x7F, 0x80, 0x81, 0x82])]), b"\x63\xC1", b"\x6A\x82", b"\x69\x85", b"\x64\x00", b"\x00\x00", rb(r, 2)])
    if x < 0.5:
        return sw
    n = r.choice([1, 2, 3, 10, 100, 127, 128, 200, 250, 253, 254, 255, 256])
    d = rb(r, n)
    if mode == "TPDU":
        lead = ins if r.random() < 0.8 else r.choice([0xC0, r.randrange(256)])
        return bytes([lead]) + d + sw
    return d + sw


def trx_session(r, sid):
    mode = r.choice(["APDU", "TPDU", "TPDU"])
    lines = ["S %s %s" % (sid, mode)]
    for _ in range(r.choice([1, 1, 2])):
        c = rand_capdu(r)
        ins = c[1] if len(c) > 1 else 0
        style = r.random()
        calls = "trx %d %s" % (r.choice([258, 258, 258, 260, 512, 1000, 0, 1, 2, 3, 10, 130, 257, r.randrange(2, 300)]), H(c))
        got = []
        if style < 0.35 and mode == "TPDU" and len(c) > 5:
            # a well behaved T=0 card
            n = c[4]
            left = n
            while left > 0:
                k = r.random()
                if k < 0.3:
                    got.append(bytes([ins]))
                    left = 0
                else:
                    got.append(bytes([ins ^ 0xFF]))
                    left -= 1
                if len(got) > 12 and left:
                    got.append(bytes([ins]))
                    left = 0
            k = r.random()
            if k < 0.6:
                m = r.choice([1, 5, 100, 255, 256])
                got.append(b"\x61" + bytes([m & 0xFF]))
                if r.random() < 0.2:
                    got.append(b"\x6C" + bytes([m & 0xFF]))
                got.append(b"\xC0" + rb(r, m) + b"\x90\x00")
            elif k < 0.75:
                got.append(r.choice([b"\x62\x83", b"\x63\x10", b"\x62\x05"]))
                got.append(b"\xC0" + rb(r, 5) + r.choice([b"\x90\x00", b"\x61\x02"]))
                got.append(b"\xC0" + rb(r, 2) + r.choice([b"\x90\x00", b"\x62\x82", b"\x6A\x82"]))
            else:
                got.append(r.choice([b"\x90\x00", b"\x6A\x82", b"\x69\x85"]))
        elif style < 0.55:
            # chained response
            total = r.choice([3, 10, 255, 256, 257, 300])
            parts = []
            while total > 0:
                k = min(total, r.choice([1, 2, 100, 255, 256]))
                parts.append(k)
                total -= k
                if len(parts) > 8:
                    break
            first = r.random() < 0.5
            cur = ins
            if first:
                got.append(b"\x61" + bytes([parts[0] & 0xFF]))
                cur = 0xC0
            for i, k in enumerate(parts):
                lead = bytes([cur]) if mode == "TPDU" else b""
                swx = b"\x61" + bytes([parts[i + 1] & 0xFF]) if i + 1 < len(parts) else r.choice([b"\x90\x00", b"\x62\x83", b"\x6A\x80"])
                got.append(lead + rb(r, k) + swx)
                cur = 0xC0
        else:
            cur = ins
            for _ in range(r.randrange(1, 7)):
                x = raw_reply(r, cur, mode)
                got.append(x)
                if len(x) == 2 and (x[0] in (0x61, 0x62, 0x63)):
                    cur = 0xC0
        for g in got:
            lines.append("R %d %s" % (0 if r.random() < 0.985 else r.choice([-1, 1, 5]), H(g)))
        lines.append(calls)
    return Scenario(sid, lines + ["E"])


def cmd_session(r, sid):
    mode = r.choice(["APDU", "APDU", "TPDU"])
    lines = ["S %s %s" % (sid, mode)]
    k = r.choice(["sel", "next", "rec", "gpo"])
    ins = {"sel": 0xA4, "next": 0xA4, "rec": 0xB2, "gpo": 0xA8}[k]
    if mode == "TPDU" and k != "rec" and r.random() < 0.9:
        lines.append("R 0 %02X" % ins)
        if r.random() < 0.7:
            lines.append("R 0 6105")
            ins = 0xC0
    for _ in range(r.choice([1, 1, 2])):
        n = r.choice([0, 1, 5, 255, 256])
        x = rb(r, n) + r.choice([b"\x90\x00", b"\x90\x00", b"\x6A\x82", b"\x62\x83", b"\x61\x05", b"\x6C\x05"])
        if mode == "TPDU" and n:
            x = bytes([ins]) + x
        lines.append("R 0 " + H(x))
    if k == "rec":
        lines.append("cmd rec %d %d" % (r.choice([0, 1, 2, 10, 11, 29, 30, 31, 32, 255, r.randrange(256)]), r.choice([0, 1, 2, 255, r.randrange(256)])))
    elif k == "gpo":
        lines.append("cmd gpo %s" % r.choice(["~", "-", "83", "8300", H(b"\x83" + rb(r, 254)), H(b"\x83" + rb(r, 255)), H(b"\x84\x01\x02"), H(tlv(0x83, rb(r, r.randrange(0, 253))))]))
    else:
        lines.append("cmd %s %s" % (k, H(rb(r, r.choice([0, 1, 4, 5, 6, 7, 14, 15, 16, 17, 32])))))
    return Scenario(sid, lines + ["E"])


def fuzz_session(r, sid):
    """A reader that answers with arbitrary bytes."""
    mode = r.choice(["APDU", "TPDU"])
    aids = [(0x9F06, rand_aid(r), r.choice([0, 1])) for _ in range(r.choice([1, 2, 3]))]
    lines = ["S %s %s" % (sid, mode), "aid " + ltok(aids), "par " + ltok(rand_fields(r, DOLTAGS, 4)), "B %d" % r.choice([20, 60, 300])]
    a = aids[0][1]
    for _ in range(r.choice([3, 8, 20, 60])):
        x = r.random()
        if x < 0.25:
            b = raw_reply(r, r.choice([0xA4, 0xB2, 0xA8, 0xC0]), mode)
        elif x < 0.45:
            b = fci(r, r.choice(aids)[1], tlv(0x9F38, rand_dol(r)))[:256] + b"\x90\x00"
        elif x < 0.6:
            b = tlv(0x70, b"".join(tlv(0x61, dir_entry(r, rand_aid(r, a))) for _ in range(r.choice([0, 1, 2]))))[:256] + b"\x90\x00"
        elif x < 0.75:
            b = r.choice([tlv(0x80, rb(r, 2) + rand_afl_entry(r)), tlv(0x77, tlv(0x82, rb(r, 2)) + tlv(0x94, rand_afl_entry(r)))]) + b"\x90\x00"
        elif x < 0.85:
            b = tlv(0x70, b"".join(rand_tlv(r, big=0) for _ in range(3)))[:256] + b"\x90\x00"
        else:
            b = rand_ber(r, 0)[:256] + r.choice([b"\x90\x00", b"\x62\x83"])
        if mode == "TPDU" and len(b) > 3 and x >= 0.25:
            b = bytes([r.choice([0xC0, 0xB2])]) + b
        if r.random() < 0.15:
            b = mutate(r, b)[:258]
        lines.append("R 0 " + H(b[:259 if mode == "TPDU" else 258]))
    for _ in range(r.choice([2, 4, 8])):
        lines.append(r.choice(["build", "select 0", "select 1", "init 5", "read", "tal_pse", "tal_find", "tal_sel " + H(a), "tal_gpo ~", "tal_afl " + H(rand_afl_entry(r)), "reset"]))
    return Scenario(sid, lines + ["E"])


PAIRED = ("full_session", "full_session", "tal_session", "tal_session", "trx_session", "cmd_session", "focus_session")


def pair_session(r, sid, of=None, **kw):
    """Two terminals, each with its own card and history: their operations come one after
    the other, or one terminal's turn falls in the middle of an operation of the other."""
    mode, setup, ops = [], [], []
    lockstep = r.random() < .5  # the same operation of both at the same time
    for i in range(2):
        fn = of if of and not (i and r.random() < .2) else fn if i and lockstep else r.choice(PAIRED)
        more = kw if fn == of else {}
        lines = globals()[fn](r, sid, **more).lines
        mode.append(lines[0].split()[2])
        lines = [x for x in lines[1:] if x not in ("E",) and x[0] not in "F"]
        # what the card answers and what the terminal is configured with comes first
        n = next((k for k, x in enumerate(lines) if x.split()[0] not in ("A", "R", "P", "B", "aid", "cfg", "par")), len(lines))
        setup.append(lines[:n])
        ops.append(lines[n:])
    out = ["S %s %s" % (sid, mode[0])] + setup[0] + ["swap " + mode[1]] + setup[1] + ["back"]
    while ops[0] or ops[1]:
        if not ops[0]:
            out += ["swap"] + ops[1] + ["back"]
            break
        here, ops[0] = ops[0][:1], ops[0][1:]
        k = 1 if lockstep else r.choice([0, 1, 1, 1, 2, 4])
        there, ops[1] = ops[1][:k], ops[1][k:]
        if there and (lockstep or r.random() < .6):
            out.append("N %d" % r.choice([1, 1, 2, 2, 3, 4, 6]))
        out += here
        if there:
            out += ["swap"] + there + ["back"]
    return Scenario(sid, out + ["E"])


def dbg_lines(r, n):
    out = []
    for _ in range(n):
        m, lv = r.choice([0, 1, 2, 4, 8, 15, 254, 255, r.randrange(256)]), r.randrange(6)
        if r.random() < .7:
            k = r.choice([0, 1, 5, 40, 1022, 1023, 1024, 1025, 2000, 4096, 9000]) if r.random() < .2 else r.randrange(60)
            out.append("dbgmsg %d %d %d %d %d %d %s %s" % (m, lv, r.random() > .05, r.choice([1, 2, 4, 8]), r.randrange(1, 5), r.randrange(1, 9),
                       H([r.choice([37, 115, 110, 65, 10, 200, r.randrange(1, 256)]) for _ in range(k)]), H(rb(r, r.choice([0, 1, 2, 16, 258])))))
        else:
            a = bytes([0x3B, 0x65, 0, 0]) + rb(r, 5) if r.random() < .6 else rb(r, r.randrange(1, 20))
            out.append("dbgatr %d %d %s" % (m, lv, H(a)))
    return out


def lines_to_scens(lines, prefix):
    return [Scenario("%s%d" % (prefix, i), x.split("|")) for i, x in enumerate(lines)]


def sessions(fn, r, n, prefix, **kw):
    return [fn(r, "%s%d" % (prefix, i), **kw) for i in range(n)]
