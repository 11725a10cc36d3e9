"""Scripts for driver_unit: amounts of time on their own."""
import gen_time as gt
DAY = 86400
FS = (1, 1000, 1000000)
CAP = 89000000            # days: hours still fit an int


def big(r, F, neg=True, cap=CAP):
    k = r.random()
    D = DAY * F
    if k < 0.6:
        return gt.amount(r, F, 4000, neg)
    if k < 0.75:
        a = r.randrange(10 ** 6) * D + r.choice([-1, 0, 1, F, -F, r.randrange(D)])
    elif k < 0.9:
        a = r.randrange(cap) * D + r.choice([-1, 0, 1, F, -F, r.randrange(D)])
    else:
        a = min(2 ** r.randrange(1, 63), cap * D) + r.choice([-1, 0, 1])
    return -a if neg and r.random() < 0.5 else a


def units(r, n, neg=True):
    """a history of operations on four amount registers"""
    out = []
    F = [1] * 4
    days = [0.0] * 4                 # rough size, to stay within range

    def setreg(q, f):
        F[q] = f
        k = r.random()
        if k < 0.6:
            a = big(r, f, neg)
            days[q] = abs(a) / f / DAY
            out.append(f"aset {q} {f} {a}")
        elif k < 0.8:
            h, m = gt.hm(r)
            if not neg:
                h, m = abs(h), abs(m)
            h = max(-10 ** 8, min(10 ** 8, h))
            a = gt.amount(r, f, 4000, neg)
            if not neg:
                a = abs(a)
            days[q] = abs(a) / f / DAY + abs(h) / 24 + abs(m) / 1440
            out.append(f"ahms {q} {f} {h} {m} {a}")
        else:
            h, m = r.randrange(24), r.randrange(60)
            sec, ns = gt.decimal(r)
            days[q] = 1 + sec / DAY
            out.append(f"adec {q} {f} {h} {m} {sec} {ns}")
    for q in range(4):
        setreg(q, r.choice(FS))
    for _ in range(n):
        k = r.random()
        q = r.randrange(4)
        if k < 0.25:
            setreg(q, r.choice(FS))
        elif k < 0.4:
            ps = [p for p in range(4) if F[p] == F[q]]
            p = r.choice(ps)
            q3 = r.randrange(4)
            sgn = r.choice([1, -1]) if neg else 1
            form = r.randrange(2)
            if days[p] + days[q] < CAP:
                out.append(f"aadd {q} {p} {q3} {sgn} {form}")
                F[q3] = F[q]
                days[q3] = days[p] + days[q]
        elif k < 0.55:
            G = r.choice(FS)
            q2 = r.randrange(4)
            out.append(f"acast {q} {q2} {G} {r.randrange(2)}")
            F[q2], days[q2] = G, days[q]
        elif k < 0.62:
            out.append(f"ardays {q}")
            days[q] = 1
        elif k < 0.7:
            out.append(f"aresolve {q}")
        else:
            out.append(f"asplit {q}")
    return out


def small(r, neg=True):
    out = ["maxd", "consts"]
    vals = [0, 1, 23, 24, 25, 47, 48, 59, 60, 61, 119, 120, 1439, 1440, 1441, 2147483647, 2147483646, 65535, 65536]
    vals += [r.randrange(2 ** 31) for _ in range(60)] + list(range(200))
    if neg:
        vals += [-v for v in vals]
    for v in vals:
        out += [f"hrs {v}", f"mins {v}"]
    return out


def wide(r, n, neg=True):
    out = []
    M = 2 ** 63 - 1
    for _ in range(n):
        F, G = r.choice(FS), r.choice(FS)
        lim = M if G <= F else M // (G // F)
        k = r.random()
        if k < 0.3:
            v = lim - r.choice([0, 0, 1, 2, 999, 1000, r.randrange(10 ** 7)])
        elif k < 0.6:
            v = r.randrange(lim)
        else:
            v = min(lim, r.choice([2 ** r.randrange(0, 63), 10 ** r.randrange(0, 19)]) + r.choice([-1, 0, 1]))
        v = abs(v)
        if neg and r.random() < 0.4:
            v = -v
        out.append(f"wcast {F} {G} {v} {r.randrange(2)}")
    return out


def sweeps(r, thorough=False):
    out = []
    for F in FS:
        out.append(f"asplitrun {F} 0 86400 s")
        out.append(f"asplitrun {F} {r.randrange(1, 1000) * DAY * F + F - 1} 90000 s")
    out.append(f"asplitrun 1000 0 {86400000 if thorough else 1000000} u")
    out.append("asplitrun 1000 85400000 1100000 u")
    out.append(f"asplitrun 1000 {r.randrange(86400000)} 1000000 u")
    out.append("asplitrun 1000000 0 1000000 u")
    out.append("asplitrun 1000000 86399500000 1000000 u")
    out.append(f"asplitrun 1000000 {r.randrange(DAY * 10 ** 6)} 1000000 u")
    out.append(f"asplitrun 1000000 {r.randrange(DAY) * 10 ** 6 - 5 * 10 ** 5 + 10 ** 12} 1000000 u")
    return out


def floats(r, n, neg=True):
    out = []
    for _ in range(n):
        F = r.choice(FS)
        k = r.random()
        if k < 0.35:
            d = gt.day(r, -100000 if neg else 0, 100000)
            if r.random() < 0.15:
                d = r.choice([r.randint(10 ** 5, 10 ** 9), 2 ** r.randrange(17, 30) + r.randint(-2, 2)])
                d = -d if neg and r.random() < 0.3 else d
            a = gt.tod(r, F)
            if r.random() < 0.2:
                a = gt.amount(r, F, 1000, neg)
            out.append(f"mjdf {F} {d} {a}")
        elif k < 0.7:
            a = gt.amount(r, F, 40000, neg)
            if r.random() < 0.5:
                a = gt.tod(r, F)
            out += [f"aset 0 {F} {a}", "afloat 0", "aresolve 0"]
        else:
            d = r.choice([gt.day(r, -2400000, 10 ** 9), r.randint(-10 ** 9, 10 ** 9), r.randint(40000, 70000)])
            if not neg:
                d = abs(d)
            out.append(f"jd {d}")
    return out
