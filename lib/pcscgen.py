"""Random histories of the PC/SC layer."""
from engine import Scenario


def hx(b):
    return bytes(b).hex().upper() if len(b) else "-"


def rb(r, n):
    return [r.randrange(256) for _ in range(n)]


def features(r):
    """(buffer, tags): mostly well-formed"""
    tags = [r.choice([10, 17, 18, 18, 6, 7, 255, r.randrange(256)]) for _ in range(r.choice([0, 1, 2, 3, 4, 7, 44]))]
    b = []
    for t in tags:
        b += [t, 4 if r.random() > .03 else r.choice([0, 3, 5, 255]), 0x42, 0] + rb(r, 2)
    k = r.random()
    if k < .05:
        b = b[:-r.randrange(1, 6)] if b else [18]
    elif k < .08:
        b += rb(r, r.randrange(1, 6))
    return b[:264]


def props(r):
    b = []
    for _ in range(r.choice([0, 1, 2, 3, 6])):
        n = r.choice([0, 1, 2, 2, 4, 8, 30])
        b += [r.choice([1, 2, 3, 4, 5, 9, 10, 11, 12, 2, r.randrange(256)]), n] + rb(r, n)
    k = r.random()
    if k < .15 and b:
        b = b[:-1]
    elif k < .25:
        b += [r.randrange(1, 13), r.choice([1, 2, 200, 255])] + rb(r, r.randrange(0, 3))
    elif k < .3:
        b += [r.randrange(1, 13)]
    return b[:264]


def atr(r):
    k = r.random()
    if k < .5:
        n = r.randrange(0, 16)
        a = [0x3B, 0x80 | n, 0x80, 0x01] + rb(r, n + 1)
        j = r.random()
        if j < .1:
            a[r.randrange(4)] ^= 1 << r.randrange(8)
        elif j < .2:
            a = a[:-1] if j < .15 else a + [0]
        elif j < .25:
            a[1] |= 0x10 << r.randrange(3)
        return a
    return [0x3B] + rb(r, r.choice([0, 1, 4, 10, 20, 32]))


def history(r, sid):
    L, A, calls = [], [], []
    n = r.choice([0, 1, 1, 2, 2, 3])
    lst = []
    for i in range(n):
        lst += [r.choice([32, 65, 66, 90, 200]) for _ in range(r.randrange(1, 12))] + [0]
    lst += [0]
    if r.random() < .05:
        lst += rb(r, 3)

    def ans(rc="o", prot=0, data="-"):
        A.append("A %s %d %s" % (rc, prot, data))

    def maybe(p, prot=0, data="-"):
        if r.random() < p:
            ans(r.choice("fft"))
            return False
        ans("o", prot, data)
        return True

    def init():
        calls.append("pinit")
        if not maybe(.03):
            return False
        if not maybe(.03) or not maybe(.03):
            maybe(.2)
            return False
        for i in range(n):
            if not maybe(.08):
                continue
            f = features(r)
            if maybe(.05, 0, hx(f)):
                ok = len(f) % 6 == 0 and all(f[j + 1] == 4 for j in range(0, len(f), 6))
                tags = [f[j] for j in range(0, len(f), 6)] if ok else []
                for t in (10, 17, 18):
                    if t in tags:
                        d = props(r) if t == 18 else rb(r, 4 if r.random() > .1 else r.choice([0, 2, 3, 5]))
                        if not maybe(.05, 0, hx(d)) or (t != 18 and len(d) != 4):
                            break
            maybe(.05)
        return True

    up = init()
    card = [False] * n
    for _ in range(r.randrange(2, 14)):
        if not up:
            k = r.random()
            if k < .5:
                up = init()
                card = [False] * n
            else:
                calls.append(r.choice(["prel", "names", "has 0 18", "wait -1 10", "state 0", "disconnect 0", "trx 0 10 00", "atr 0"]))
            continue
        i = r.randrange(n) if n and r.random() > .03 else n + r.randrange(2)
        k = r.random()
        if k < .05:
            calls.append("names")
        elif k < .2:
            calls.append("has %d %d" % (i, r.choice([10, 17, 18, 6, r.randrange(300)])))
        elif k < .45:
            calls.append("prop %d %d %d" % (i, r.choice([1, 2, 3, 4, 5, 9, 10, 11, 12, 255, 258, r.randrange(256)]), r.choice([0, 1, 2, 2, 3, 8, 40, 255])))
        elif k < .5:
            calls.append("state %d" % i)
            if i < n:
                maybe(.2, 0, "%d," % r.choice([34, 18, 4, 290, 65570, 0]))
        elif k < .62:
            calls.append("wait %d %d" % (r.choice([-1, -1, i]), r.choice([0, 1, 500, 10000, 0xFFFFFFFF])))
            if r.random() < .2:
                ans("t")
            else:
                maybe(.1, 0, ",".join(str(r.choice([34, 18, 18, 4, 290, 65570, 0, 16, 32])) for _ in range(n)) + ",")
        elif k < .66:
            calls.append("prel")
            maybe(.1)
            up = False
        elif i >= n:
            calls.append(r.choice(["connect", "disconnect", "atr"]) + " %d" % i)
        elif k < .7:
            calls.append("atr %d" % i)
        elif not card[i] and r.random() < .8:
            calls.append("connect %d" % i)
            p = r.choice([1, 2, 2, 2, 1, 0, 4])
            if maybe(.1, p):
                a = atr(r)
                p = r.choice([p, p, p, 1, 2])
                if not maybe(.06, p, hx(a)):
                    if maybe(.2):
                        continue
                    card[i] = True
                    continue
                made = len(a) > 4 and a[0] == 0x3B and a[1] >= 128 and a[2] == 128 and a[3] == 1 and len(a) == 5 + a[1] % 16
                card[i] = True
                if made:
                    good = p in (1, 2)
                    if good:
                        u = r.choice([rb(r, r.choice([4, 7, 10, 0])) + [0x90, 0], [0x6A, 0x81], rb(r, 4) + [0x6A, 0x81], rb(r, r.choice([0, 1, 2, 4, 11, 12])),
                                      rb(r, 4) + [0x63, 0], rb(r, 4) + [0x90, 1], [0x6A, 0x82], rb(r, 10) + [0x90, 0], [0x90]])
                        good = maybe(.1, 0, hx(u)) and len(u) <= 12 and len(u) >= 2 and u[-2:] in ([0x6A, 0x81], [0x90, 0])
                    if not good:
                        card[i] = not maybe(.2)
        elif card[i] and k < .78:
            calls.append("disconnect %d" % i)
            if maybe(.1):
                card[i] = False
        else:
            tx = rb(r, r.choice([1, 4, 5, 20, 261]) if r.random() > .05 else 0)
            rx = rb(r, r.choice([0, 1, 2, 2, 10, 258]))
            calls.append("trx %d %d %s" % (i, r.choice([2, 10, 258, 300, len(rx)]), hx(tx)))
            if card[i] and tx:
                maybe(.1, 0, hx(rx))
    return Scenario(sid, ["S " + sid, "L " + hx(lst)] + A + calls + ["E"])
