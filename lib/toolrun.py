"""Random runs of emv-tool: its options, the readers, the card and what is typed."""
from engine import Scenario
import gen, pcscgen
from pcscgen import hx, rb

AIDS = [(bytes.fromhex(a), f) for a, f in (("A00000000310", 1), ("A0000000032010", 0), ("A0000000032020", 0), ("A00000000410", 1), ("A00000000430", 1))]
WORDS = ["TTL", "TAL", "EMV", "APP", "ALL"]
LEVELS = ["NONE", "ERROR", "INFO", "CARD", "TRACE", "ALL"]


def case(r, s):
    return "".join(c.lower() if r.random() < .3 else c for c in s)


def amount(r):
    return str(r.choice([1, 9, 10, 99, 100, 65535, 65536, 99999999, 100000000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, r.randrange(1, 1 << r.choice([4, 8, 16, 24, 32]))]))


def options(r, odd):
    o = []
    typ = r.choice(["00", "00", "00", "01", "09", "20", "30", "31", "90", "99"])
    if r.random() < .6 or typ == "00":
        if typ != "00" or r.random() < .3:
            o.append(("txn-type", typ))
        else:
            typ = "00"
    else:
        typ = "00"
    if typ not in ("30",) or r.random() < .3:
        o.append(("txn-amount", amount(r)))
    if typ == "09" or r.random() < .15:
        o.append(("txn-amount-other", amount(r)))
    if r.random() < .5:
        o.append(("debug-source", case(r, ",".join(r.choice(WORDS) for _ in range(r.choice([1, 1, 2, 3]))))))
    if r.random() < .6:
        o.append(("debug-level", case(r, r.choice(LEVELS + ["ALL", "CARD"]))))
    if r.random() < .3:
        o.append(("debug-verbose", None))
    if r.random() < .1:
        o.append(("isocodes-path", "/some/where"))
    if r.random() < .1:
        o.append(("mcc-json", "x.json"))
    if r.random() < odd:
        bad = [("txn-type", r.choice(["", "0", "000", "0A", "A0", "GG", "+1", " 1", "1 ", "0x", "-1"])),
               (r.choice(["txn-amount", "txn-amount-other"]), r.choice(["", "0", "00", "4294967295", "4294967296", "18446744073709551616", "99999999999999999999999", "12a", "a", "1.5", "1 ", " 1", "-1", "+1", "0x10"])),
               ("debug-source", r.choice(["", "X", "TTL,X", ",", ",,", "TTL,,EMV", ",TAL", "TTLX", "all,none", "TTL ,EMV"])),
               ("debug-level", r.choice(["", "X", "ALLX", "AL", "INFO,CARD", "5"])),
               ("debug-verbose", "1"), ("nonsense", None), ("nonsense", "1"), ("", "positional"), ("", "-"),
               ("txn-type", None), ("mcc-json", ""), ("isocodes-path", ""), ("version", None), ("help", None), ("usage", None)]
        for _ in range(r.choice([1, 1, 2])):
            b = r.choice(bad)
            if b[1] is None and b[0] == "txn-type":
                o.append(b)        # takes the next argument; last, there is none
                break
            o.insert(r.randrange(len(o) + 1), b)
        if r.random() < .3:
            for k in ("txn-amount", "txn-amount-other"):
                if r.random() < .5:
                    o = [x for x in o if x[0] != k]
        if r.random() < .05:
            o = []
    return o


def typed(r):
    """Standard input: lines that choose an application, or do not."""
    out = b""
    for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
        k = r.random()
        if k < .55:
            x = str(r.choice([1, 1, 2, 2, 3, 4, 6])).encode()
        else:
            x = r.choice([b"", b"0", b"-1", b"+1", b" 1", b"1 ", b"1x", b"x", b"01", b"001", b"0001", b"00001", b"12", b"99", b"100", b"1000", b"10001", b"abc1", b"   1", b"  1", b"\t2", b"1\r",
                          b"4294967297", b"x" * r.randrange(1, 40) + b"1", bytes(r.randrange(1, 256) for _ in range(r.randrange(1, 6))).replace(b"\n", b"")])
        out += x + b"\n"
    if out and r.random() < .3:
        out = out[:-1]
    return out


def emv_atr(r):
    k = r.random()
    if k < .35:
        return bytes.fromhex("3B600000")
    if k < .6:
        b = bytes.fromhex("3BE000008131") + bytes([r.choice([0x20, 0xFE]), r.choice([0x45, 0x35])])
        x = 0
        for c in b[1:]:
            x ^= c
        return b + bytes([x])
    return gen.rand_atr(r)[:33]


def run(r, sid, odd=.15, fault=.2, napps=None, far=.9, opts=None, keys=None, when=None):
    L, A = [], []
    n = r.choice([1, 1, 1, 2, 2, 3]) if r.random() < .96 else 0
    lst = []
    for i in range(n):
        lst += [r.choice([32, 65, 66, 90, 122]) for _ in range(r.randrange(1, 12))] + [0]
    lst += [0]
    go = r.random() < far          # no failure before the card is active

    def ans(rc="o", prot=0, data="-"):
        A.append("A %s %d %s" % (rc, prot, data))

    def maybe(p, prot=0, data="-"):
        if not go and r.random() < p * 2:
            ans(r.choice("fft"))
            return False
        ans("o", prot, data)
        return True

    def readers():
        if not maybe(.08) or not maybe(.08) or not maybe(.08):
            return False
        for i in range(n):
            if r.random() < .2:
                ans(r.choice("ft"))
                continue
            ans()
            f = pcscgen.features(r)
            if r.random() < .3:
                f = []
                for t in r.sample([6, 7, 8, 9, 10, 17, 18], r.randrange(8)):
                    f += [t, 4, 0x42, 0] + rb(r, 2)
            if r.random() < .05:
                ans("f")
            else:
                ans("o", 0, hx(f))
                ok = len(f) % 6 == 0 and all(f[j + 1] == 4 for j in range(0, len(f), 6))
                tags = [f[j] for j in range(0, len(f), 6)] if ok else []
                for t in (10, 17, 18):
                    if t in tags:
                        d = props(r) if t == 18 else rb(r, 4 if r.random() > .05 else r.choice([0, 2, 3, 5]))
                        if r.random() < .05:
                            ans("f")
                            break
                        ans("o", 0, hx(d))
                        if t != 18 and len(d) != 4:
                            break
            ans(r.choice("ooooof"))
        for i in range(n):
            if r.random() < .1:
                ans(r.choice("ft"))
            else:
                ans("o", 0, "%d," % r.choice([34, 18, 4, 2, 34 + 512, 34 + 1024, 32 + 512 + 1024, 8, 24, 12, 0, 65570, 290, 48, 16 + 512]))
        at = r.randrange(n) if n else 0
        if n and not go and r.random() < .1:
            ans("t")
        elif not maybe(.1, 0, ",".join(str(r.choice([34, 34 + 256, 65570]) if i == at else r.choice([18, 4, 0, 16, 18, 34])) for i in range(n)) + ","):
            return False
        maybe(.1, 0, "%d," % r.choice([34, 34, 18, 34 + 512, 34 + 1024, 8, 0]))
        p = r.choice([1, 2, 2, 2, 1]) if go else r.choice([1, 2, 0, 4])
        if not maybe(.1, p):
            return False
        a = emv_atr(r) if r.random() < .85 else bytes(pcscgen.atr(r))
        if go and r.random() < .8:
            a = bytes.fromhex("3B600000")
        if not maybe(.1, r.choice([p, p, p, 1, 2]), hx(a)):
            return False
        if a[:1] == b"\x3B" and a[2:4] == b"\x80\x01":
            ans("o", 0, r.choice(["-", "6A81", "010203049000", "6A82", "00"]))
        else:
            ans("f" if r.random() < .1 else "o")     # when it is disconnected
            ans("f" if r.random() < .1 else "o")
        return True
    if n == 0:
        go = False
    readers()
    while A and A[-1] == "A o 0 -":
        A.pop()
    for k, v in options(r, odd) if opts is None else opts:
        L.append("O %s%s" % (k or "=", " ~" if v is None else " " + hx(v.encode())))
    c = gen.Card(r, .15 if r.random() < .6 else 0, napps=r.choice([1, 1, 2, 2, 3, 4, 6]) if napps is None else napps, term=AIDS)
    L += [x.replace("A ", "C ", 1) for x in c.lines()]
    L.append("P %d %d" % (r.choice([0, 0, 0, 1, 2, 3, 16, 18, 32, 33]), r.choice([256, 256, 1, 7, 16, 100, 255])))
    if r.random() < fault:
        for _ in range(r.choice([1, 1, 2])):
            k = r.choice([0, 1, 2, 3, 4, 5, 6, 8, r.randrange(25)])
            x = r.random()
            if x < .3:
                L.append("X %d -1 -" % k)
            else:
                L.append("X %d 0 %s" % (k, hx(r.choice([b"", b"\x90", b"\x90\x00", b"\x6A\x81", b"\x6A\x82", b"\x69\x85", b"\x62\x83", b"\x61\x05", b"\x6C\x03",
                                                       bytes(rb(r, r.choice([2, 3, 10, 258])))]))))
    t = typed(r) if keys is None else keys
    if t:
        L.append("I " + hx(t))
    if when is None:
        when = r.choice([0, 1, 59, 86399, 86400, 951782400, 951868799, 951868800, 1700000000, 1709164800, 1735689599, 2147483647, r.randrange(1 << 31)])
    zone = r.choice([0, 3600, 19800, 20700, 50400, -60, -12600, -18000, -43200])
    L.append("T %d %d" % (when, zone if 0 <= when + zone < 1 << 31 else 0))
    if r.random() < .06:
        L.append("Z %d" % r.choice([1, -1, 2, -3]))
    return Scenario(sid, ["S " + sid, "L " + hx(lst)] + A + L + ["run"])


BIG = [0, 1, 9, 10, 99, 255, 256, 65535, 65536, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF]
BIG += [(1 << k) + d for k in (32, 33, 35, 36, 39, 40, 48, 63, 64, 65, 68, 96, 128) for d in (-1, 0, 1, 100)] + [10 ** k for k in range(2, 25)]
NOTDIGITS = [b"", b"-", b"+", b"+1", b"-1", b" 1", b"1 ", b"1.5", b"1,5", b"0x10", b"1e3", b"12a", b"a12", b"1-2", b"\xb9", b"1\xa0", b"1/", b"1:", b"/", b":", b"1\t", b"--1"]


def every(r, near=1):
    """Each option with each kind of value among well-formed others; each second of a day, each day of
    some years; each key typed"""
    def one(opts, keys=b"", when=1700000000, napps=1):
        return run(r, "o%d" % len(res), fault=0, far=1, napps=napps, opts=[(k, v.decode("latin-1") if isinstance(v, bytes) else v) for k, v in opts], keys=keys, when=when)
    res = []
    amt, oth = ("txn-amount", b"100"), ("txn-amount-other", b"5")
    for v in [b"%d" % x for x in BIG] + [b"0%d" % x for x in BIG[::4]] + [b"000000000000000000000000%d" % x for x in BIG[::7]] + NOTDIGITS:
        for t in (b"00", b"09"):
            res.append(one([("txn-type", t), ("txn-amount", v), oth]))
            res.append(one([("txn-type", t), amt, ("txn-amount-other", v)]))
        res.append(one([("txn-amount", v)]))
        res.append(one([("txn-type", b"31"), ("txn-amount-other", v)]))
    for a in range(256):
        if a not in (0, 10):
            for v in (bytes([a]) + b"0", b"0" + bytes([a])):
                res.append(one([("txn-type", v), amt, oth]))
    for a in range(100):
        for rest in ([amt], [amt, oth], []):
            res.append(one([("txn-type", b"%02d" % a)] + rest))
    for v in (b"", b"0", b"000", b"0000", b"010", b"1"):
        res.append(one([("txn-type", v), amt, oth]))
    for w in WORDS + ["NONE", ""] + LEVELS:
        for v in {w, w.lower(), w[:-1], w + "X", w + " ", " " + w, w + ",", "," + w, w + ",EMV", "EMV," + w, "EMV," + w + ",TAL", w.capitalize()}:
            res.append(one([amt, ("debug-source", v), ("debug-level", "ALL")]))
            res.append(one([amt, ("debug-source", v), ("debug-verbose", None), ("debug-level", "CARD")]))
            res.append(one([amt, ("debug-source", "EMV,TAL"), ("debug-level", v)]))
    for a in WORDS:
        for b in WORDS:
            res.append(one([amt, ("debug-source", a + "," + b), ("debug-level", "ALL")]))
    for w in [0, 1, 59, 60, 3599, 3600, 43199, 43200, 86399] + list(range(0, 86400, 997)):
        res.append(one([amt], when=1700006400 - 1700006400 % 86400 + w))
    for y in (0, 946684800, 1704067200, 1735689600, 4102444800 if near > 1 else 2114380800):
        for d in range(0, 367, 1 if near > 1 else 5):
            res.append(one([amt], when=min(y + 86400 * d + 43200, 2147483647)))
        for d in (30, 31, 58, 59, 60, 90, 120, 151, 181, 212, 243, 273, 304, 334, 364, 365):
            res.append(one([amt], when=min(y + 86400 * d, 2147483647)))
    return res


def keys_every(r):
    """Every line that may be typed when there is something to choose"""
    res = []
    lines = [bytes([a]) for a in range(1, 256) if a != 10] + [b"%d" % x for x in range(40)] + [b"%d" % x for x in BIG] + [b"0%d" % x for x in range(12)]
    lines += [b"-%d" % x for x in (1, 2, 3)] + [b"%d %d" % (a, b) for a in range(4) for b in range(3)] + [x + b"1" for x in (b" ", b"\t", b"\r", b"+", b"-", b"  ", b"0" * 8, b"0" * 30, b"x")]
    lines += [b"1" + x for x in (b" ", b"\t", b"\r", b"x", b".", b"0", b"00")] + [b"x" * k for k in range(1, 40)] + [b"1" + b"0" * k for k in range(40)]
    for k in lines:
        for keys in (k + b"\n", k, k + b"\n1\n", b"\n" + k + b"\n", b"9\n" + k + b"\n"):
            if r.random() < .5:
                res.append(run(r, "k%d" % len(res), fault=.1 if r.random() < .2 else 0, far=1, napps=r.choice([2, 3, 3, 4]), opts=[("txn-amount", "100"), ("debug-level", "ALL")], keys=keys))
    return res


def props(r):
    b = pcscgen.props(r)
    if r.random() < .6:
        b = []
        for t in r.sample([1, 4, 5, 6, 7, 11, 12], r.randrange(8)):
            n = 1 if t in (6, 7) else 2
            if r.random() < .06:
                n = r.choice([0, 1, 2, 3])
            b += [t, n] + [r.choice([0, 1, 2, 16, 255, r.randrange(256)]) for _ in range(n)]
    return b
