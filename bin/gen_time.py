"""Scripts for driver_time: random histories biased towards boundaries."""
DAY = 86400
FAR = 10 ** 9           # for what does not count the ticks of all those days
MAXD = 10 ** 8          # keep every quantity within the documented range
FS = (1, 1000, 1000000)

EDGE_DAYS = [0, -1, 1, 44243, 44244, 44245, 51543, 51544, 51545, 15384, 15385, 15386, 88068, 88069, 88070,
             -678941, -678942, -678575, 41317, 57753, 57754, 60368, 60369, 60370, 2973483, 24837, 24855, 24856,
             106751, 106752, 2147483, -2147483, 47351, 50082, -10000, 99999, 100000, 65535, 65536, -65536, 32767, 32768]


def day(r, lo=-2400000, hi=MAXD):
    while True:
        k = r.random()
        if k < 0.40:
            n = r.randint(40000, 70000)
        elif k < 0.65:
            n = r.choice(EDGE_DAYS) + r.choice([0, 0, 0, -1, 1])
        elif k < 0.9:
            n = r.randint(-2000000, 3000000)
        else:
            n = r.choice([r.randint(10 ** 6, max(10 ** 6, hi)), 2 ** r.randrange(20, 30), -r.randint(10 ** 6, 2400000)])
        if lo <= n <= hi:
            return n


def tod(r, F):
    """ticks of a time of day"""
    D = DAY * F
    k = r.random()
    if k < 0.12:
        return 0
    if k < 0.24:
        return D - 1
    if k < 0.36:
        return r.choice([1, D - 2, D // 2, F - 1, F, F + 1, 60 * F - 1, 60 * F, 3600 * F - 1, 3600 * F, 43200 * F - 1]) % D
    if k < 0.5:
        return r.randrange(DAY) * F
    if k < 0.6:
        return r.randrange(DAY) * F + F - 1
    return r.randrange(D)


def amount(r, F, maxdays=40000, neg=True):
    D = DAY * F
    k = r.random()
    if k < 0.08:
        a = 0
    elif k < 0.18:
        a = r.choice([1, 2, F - 1, F, F + 1, 59 * F, 60 * F, 61 * F, 3600 * F])
    elif k < 0.33:
        a = r.choice([1, 1, 1, 2, 3, 7, 24855, 24856, 49710, 49711, 106751, 106752, 106753]) * D + r.choice([-1, 0, 1])
        if a > maxdays * D * 2:
            a = D + r.choice([-1, 0, 1])
    elif k < 0.55:
        a = r.randrange(D)
    elif k < 0.8:
        a = r.randrange(10 * D)
    elif k < 0.9:
        a = r.choice([2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1])
    else:
        a = r.randrange(maxdays * D)
    return -a if neg and r.random() < 0.5 else a


def date_of(n):
    """day number -> (y, m, d, doy); only used to choose inputs"""
    j = n + 678881 + 0          # days since 0000-03-01
    era, doe = divmod(j, 146097)
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + 3 if mp < 10 else mp - 9
    y += m <= 2
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    before = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334][m - 1] + (1 if m > 2 and leap else 0)
    return y, m, d, before + d


def mk(r, reg, F, n, t):
    return f"mk {reg} {F} mjd {n} {t}"


def mk_any(r, reg, F=None, n=None, lo=-2400000, hi=MAXD):
    F = F or r.choice(FS)
    n = day(r, lo, hi) if n is None else n
    return f"mk {reg} {F} mjd {n} {tod(r, F)}"


def hm(r):
    k = r.random()
    if k < 0.6:
        return r.randrange(24), r.randrange(60)
    if k < 0.75:
        return r.choice([0, 23, 24, 25, 47, 48, -1, -24, -25]), r.choice([0, 59, 60, 61, 1439, 1440, 1441, -1, -60, -1440])
    if k < 0.9:
        return r.randrange(-200, 200), r.randrange(-5000, 5000)
    # beyond 31 bits of ticks, seconds and even of microseconds/60
    return r.choice([596523, 596524, 1000000, -1000000, 2000000000, -2000000000, r.randint(-10 ** 6, 10 ** 6)]), \
        r.choice([35791394, 35791395, -35791395, 1000000000, -1000000000, r.randint(-10 ** 8, 10 ** 8)])


def construct(r, reg):
    F = r.choice(FS)
    n = day(r, hi=FAR)
    y, m, d, k = date_of(n)
    form = r.choice(["mjd", "mjdh", "gps", "ymd0", "ymdh0", "ydoy0", "ydoyh0", "ymdf", "ydoyf", "ymd", "ymdh", "ydoy",
                     "ydoyh", "ymd", "ymdh", "ydoy", "ydoyh", "ymdf", "ydoyf", "ymdm0", "ydoym0", "mjdh0",
                     "mjdm0", "def"])
    h, mi = hm(r)
    T = r.choice([f for f in FS if f >= F])
    if form == "def":
        return f"mk {reg} {F} def"
    if form == "mjd":
        return f"mk {reg} {F} mjd {n} {amount(r, F)}"
    if form == "mjdh":
        return f"mk {reg} {F} mjdh {n} {h} {mi} {amount(r, F)}"
    if form == "gps":
        w = r.choice([0, 1, 1023, 1024, 1025, 2047, 2048, 2045, -1, r.randint(-5000, 10000), r.randint(0, 10 ** 6)])
        a = r.choice([amount(r, F), r.randrange(7 * DAY * F), 7 * DAY * F - 1, 7 * DAY * F, -1, -7 * DAY * F, -7 * DAY * F - 1])
        return f"mk {reg} {F} gps {w} {a}"
    if form == "ymd0":
        return f"mk {reg} {F} ymd0 {y} {m} {d}"
    if form == "ymdh0":
        return f"mk {reg} {F} ymdh0 {y} {m} {d} {h}"
    if form == "ymdm0":
        return f"mk {reg} {F} ymdm0 {y} {m} {d} {h} {mi}"
    if form == "ydoym0":
        return f"mk {reg} {F} ydoym0 {y} {k} {h} {mi}"
    if form == "mjdh0":
        return f"mk {reg} {F} mjdh0 {n} {h}"
    if form == "mjdm0":
        return f"mk {reg} {F} mjdm0 {n} {h} {mi}"
    if form == "ydoy0":
        return f"mk {reg} {F} ydoy0 {y} {k}"
    if form == "ydoyh0":
        return f"mk {reg} {F} ydoyh0 {y} {k} {h}"
    if form in ("ymdf", "ydoyf"):
        sec, ns = decimal(r)
        if form == "ymdf":
            return f"mk {reg} {F} ymdf {y} {m} {d} {h} {mi} {sec} {ns}"
        return f"mk {reg} {F} ydoyf {y} {k} {h} {mi} {sec} {ns}"
    a = amount(r, T)
    date = f"{y} {m} {d}" if form.startswith("ymd") else f"{y} {k}"
    return f"mk {reg} {F} {form} {date} {h} {mi} {T} {a}" if form.endswith("h") else f"mk {reg} {F} {form} {date} {T} {a}"


def decimal(r):
    """whole seconds and nanoseconds such that the nearest double is on the
    right side of every tick (at most nine decimals below 10^5 seconds)"""
    k = r.random()
    if k < 0.5:
        sec = r.randrange(60)
    elif k < 0.9:
        sec = r.choice([0, 1, 29, 30, 58, 59, 60, 61, 3599, 3600, 86399, 86400, r.randrange(86400)])
    else:
        sec = r.randrange(10 ** 6, 10 ** 9)
    digits = r.choice([0, 1, 2, 3, 3, 3, 4, 5, 6, 6, 6, 7, 8, 9])
    if sec >= 10 ** 5:
        digits = min(digits, 6)
    f = r.choice([0, 10 ** digits - 1, 1, r.randrange(10 ** digits), r.randrange(10 ** digits)]) % (10 ** digits)
    return sec, f * 10 ** (9 - digits)


def history(r, length, finer=False, ivs=True):
    """A history on a few registers; own/coarser amounts unless `finer`."""
    out = []
    F = [None] * 8
    IF = [None] * 4
    nreg = r.choice([1, 2, 3])
    for q in range(nreg):
        F[q] = r.choice(FS)
        out.append(f"mk {q} {F[q]} mjd {day(r, -900000, 2000000)} {tod(r, F[q])}")
    undo = []
    for _ in range(length):
        q = r.randrange(nreg)
        k = r.random()
        if undo and k < 0.25:
            q, sgn, T, a = undo.pop()
            out.append(f"add {q} {-sgn} {T} {a}")
            continue
        if k < 0.70:
            up = finer and F[q] < 1000000 and r.random() < 0.8
            T = r.choice([f for f in FS if (f > F[q] if up else f <= F[q])])
            a = amount(r, T, 4000)
            if finer and T > F[q] and r.random() < 0.5:
                a -= a % (T // F[q])           # exactly representable
            sgn = r.choice([1, -1])
            out.append(f"add {q} {sgn} {T} {a}")
            undo.append((q, sgn, T, a))
        elif k < 0.85 or not ivs:
            d = r.choice([0, 1, -1, 7, -7, 365, -366, r.randint(-3000, 3000)])
            T = F[q]
            if finer:
                T = r.choice([f for f in FS if f >= F[q]])
            q2 = r.choice([q, q, r.randrange(nreg)])
            F[q2] = F[q]
            undo = [u for u in undo if u[0] != q2]
            out.append(f"addd {q} {q2} {d} {T} {amount(r, T, 4000) if r.random() < 0.9 else 0}")
        else:
            i = r.randrange(4)
            IF[i] = F[q]
            out.append(f"imk {i} {F[q]} {r.choice([0, 1, -1, r.randint(-2000, 2000)])} {amount(r, F[q], 2000)}")
            out.append(f"addi {q} {i}")
            undo = [u for u in undo if u[0] != q]
    return out


def close_pair(r, F):
    n = day(r, -900000, 2000000)
    t = tod(r, F)
    D = DAY * F
    k = r.random()
    if k < 0.2:
        m, u = n, t
    elif k < 0.45:
        m, u = n, max(0, min(D - 1, t + r.choice([-1, 1, -F, F, -2, 2])))
    elif k < 0.6:
        m, u = n + r.choice([-1, 1]), t
    elif k < 0.75:
        m, u = n + r.choice([-1, 1]), tod(r, F)
    elif k < 0.9:
        m, u = n, tod(r, F)
    else:
        m, u = day(r, -900000, 2000000), tod(r, F)
    return n, t, m, u


def compare(r):
    """eight registers of one resolution, close to one another; all pairs"""
    F = r.choice(FS)
    out = []
    vals = []
    for q in range(0, 8, 2):
        n, t, m, u = close_pair(r, F)
        vals += [(n, t), (m, u)]
        if r.random() < 0.5 and len(vals) > 2:
            a = r.choice(vals)
            vals[-1] = (a[0], max(0, min(DAY * F - 1, a[1] + r.choice([-1, 0, 1]))))
    for q, (n, t) in enumerate(vals):
        out.append(f"mk {q} {F} mjd {n} {t}")
    for q in range(8):
        for p in range(8):
            out.append(f"cmp {q} {p}")
    out.append(f"lim {r.randrange(8)}")
    order = list(range(8))
    r.shuffle(order)
    out.append("sort 8 " + " ".join(map(str, order)))
    for q, (n, t) in enumerate(vals[:4]):
        out.append(f"imk {q} {F} {n} {t}")
    for q in range(4):
        for p in range(4):
            out.append(f"icmp {q} {p}")
    return out


def differences(r):
    out = []
    F = [r.choice(FS) for _ in range(8)]
    F[1] = F[0]
    F[3] = F[2]
    base = None
    for q in range(8):
        f = F[q]
        if q % 2 == 0 or r.random() < 0.3:
            n, t, m, u = close_pair(r, f)
            out.append(f"mk {q} {f} mjd {n} {t}")
            base = (n, t, f, m, u)
        else:
            n, t, f0, m, u = base
            if f0 == f:
                out.append(f"mk {q} {f} mjd {m} {u}")
            else:
                t2 = u * f // f0
                out.append(f"mk {q} {f} mjd {m} {t2}")
    for q in range(8):
        for p in range(8):
            out.append(f"dsec {q} {p}")
    for q in range(8):
        p = r.randrange(8)
        out.append(f"dmjd {q} {p}")
        same = [x for x in range(8) if F[x] == F[q]]
        p = r.choice(same)
        out.append(f"ddate {q} {p} {r.randrange(4)} {r.randrange(2)}")
    for q in range(8):          # b + (a - b) = a
        p = r.choice([x for x in range(8) if F[x] == F[q]])
        out.append(f"ddate {q} {p} 0 {r.randrange(2)}")
        if p != q:
            out.append(f"addi {p} 0")
            out.append(f"cmp {p} {q}")
    return out


def casts(r, length):
    out = []
    F = r.choice(FS)
    out.append(mk_any(r, 0, F, hi=FAR))
    F = {0: F}
    for _ in range(length):
        q = r.choice(list(F))
        q2 = r.randrange(4)
        G = r.choice(FS)
        out.append(f"cast {q} {q2} {G}")
        F[q2] = G
        if r.random() < 0.2:
            f = r.choice(FS)
            out.append(mk_any(r, 0, f, hi=FAR))
            F[0] = f
    return out


def gps(r):
    out = []
    for _ in range(30):
        out.append(mk_any(r, 0, None, None, 44244, FAR))
        out.append("gps 0")
    for _ in range(6):           # week roll-overs
        n = 44244 + 7 * r.choice([1, 2, 1023, 1024, 2047, 2048, 2049, r.randrange(1, 5000), r.randrange(1, 10 ** 6)])
        F = r.choice(FS)
        out.append(f"mk 0 {F} mjd {n} 0")
        out.append("gps 0")
        out.append(f"add 0 -1 {F} 1")
        out.append("gps 0")
        w = (n - 44244) // 7
        a = r.choice([0, 7 * DAY * F - 1, 7 * DAY * F, 8 * DAY * F, -1, r.randrange(7 * DAY * F)])
        out.append(f"mk 1 {F} gps {w} {a}")
        out.append("gps 1")
    return out


def intervals(r):
    out = []
    for _ in range(12):
        F = r.choice(FS)
        for i in range(4):
            k = r.random()
            if k < 0.1:
                out.append(f"imk0 {i} {F}")
                continue
            n = r.choice([0, 0, 1, -1, 2, 7, r.randint(-50, 50), r.randint(-40000, 40000), r.randint(-10 ** 7, 10 ** 7)])
            out.append(f"imk {i} {F} {n} {amount(r, F)}")
        # equal lengths spelled differently
        n = r.randint(-100, 100)
        a = r.randrange(DAY * F)
        d = r.choice([1, -1, 2, -3])
        out.append(f"imk 2 {F} {n} {a}")
        out.append(f"imk 3 {F} {n + d} {a - d * DAY * F}")
        for i in range(4):
            for j in range(4):
                out.append(f"icmp {i} {j}")
        for _ in range(6):
            n = r.choice([0, 0, 1, 2, 6, 7, r.randint(0, 50), r.randint(0, 40000), r.randint(0, 10 ** 7)])
            out.append(f"imk 0 {F} {n} {amount(r, F, neg=False)}")
            k = r.choice([1, 2, 3, 7, 24, 60, 86399, 86400, 86401, 1000, 999999, r.randint(1, 50), r.randint(1, 10 ** 6),
                          r.randint(1, 10 ** 9)])
            out.append(f"idiv 0 1 {k}")
            out.append(f"imk 2 {F} {n} 0")
            out.append(f"idiv 2 3 {k}")
    return out


def observe(r, n=30, lo=-2400000):
    out = []
    for _ in range(n):
        out.append(mk_any(r, 0, None, None, lo, FAR))
        out.append("obs 0")
    return out


def nonneg(r, n=40):
    """operations whose quantities stay non-negative, results included"""
    out = []
    F = [None] * 4
    val = {}

    def amt(T, most=400):
        return min(amount(r, T, most, neg=False), most * DAY * T)
    for q in range(4):
        F[q] = r.choice(FS)
        d = r.randint(50000, 90000) if r.random() < 0.7 else r.randint(41317, 2900000)
        y, m, dd, k = date_of(d)
        h, mi = r.randrange(24), r.randrange(60)
        form = r.randrange(10)
        T = r.choice([f for f in FS if f >= F[q]])
        sec, ns = decimal(r)
        sec %= DAY
        out.append([f"mk {q} {F[q]} mjd {d} {amt(F[q])}", f"mk {q} {F[q]} mjdh {d} {h} {mi} {amt(F[q])}",
                    f"mk {q} {F[q]} gps {(d - 44244) // 7 if d > 44244 else 5} {amt(F[q], 30)}",
                    f"mk {q} {F[q]} ymd {y} {m} {dd} {T} {amt(T)}", f"mk {q} {F[q]} ymdh {y} {m} {dd} {h} {mi} {T} {amt(T)}",
                    f"mk {q} {F[q]} ydoy {y} {k} {T} {amt(T)}", f"mk {q} {F[q]} ydoyh {y} {k} {h} {mi} {T} {amt(T)}",
                    f"mk {q} {F[q]} ymdf {y} {m} {dd} {h} {mi} {sec} {ns}", f"mk {q} {F[q]} ydoyf {y} {k} {h} {mi} {sec} {ns}",
                    f"mk {q} {F[q]} ymd0 {y} {m} {dd}"][form])
    # removals that end at the first instant the checks accept, or near it
    for _ in range(4):
        f = r.choice(FS)
        d, t = r.choice([0, 0, 1, 2]), r.choice(tods(f))
        T = r.choice(FS)
        have = (d * DAY * f + t) * T // f
        a = r.choice([0, 1, have, have - 1, t * T // f, t * T // f + 1, r.randint(0, have)])
        a = max(0, min(have, a))
        if T > f:
            a -= a % (T // f)
        out += [f"mk 4 {f} mjd {d} {t}", f"add 4 -1 {T} {a}", "obs 4", f"add 4 1 {T} {a}", f"mk 5 {f} mjd {d} {t}", "cmp 4 5"]
    # before day number 0 nothing may be removed with the checks define, but
    # every date from year 1 on may be built, moved forward and looked at
    for q in range(4, 8):
        f = r.choice(FS)
        y, m, d, k = date_of(r.choice([r.randint(-678575, -1), r.randint(-678575, -1), r.randint(-40000, -1), -678575]))
        T = r.choice([g for g in FS if g >= f])
        h, mi = r.randrange(24), r.randrange(60)
        out += [r.choice([f"mk {q} {f} ymd {y} {m} {d} {f} {amt(f)}", f"mk {q} {f} ymd {y} {m} {d} {T} {amt(T)}", f"mk {q} {f} ydoy {y} {k} {T} {amt(T)}",
                          f"mk {q} {f} ymdh {y} {m} {d} {h} {mi} {T} {amt(T)}", f"mk {q} {f} ymd {y} {m} {d} {f} {tod(r, f)}"]), f"obs {q}",
                f"add {q} 1 {f} {amt(f)}", f"obs {q}"]
    for _ in range(n):
        q = r.randrange(4)
        k = r.random()
        if k < 0.25:
            T = r.choice(FS)
            out.append(f"add {q} 1 {T} {amt(T)}")
        elif k < 0.4:
            T = r.choice(FS)
            out.append(f"add {q} -1 {T} {amt(T)}")
        elif k < 0.5:
            T = r.choice([f for f in FS if f >= F[q]])
            q2 = r.randrange(4)
            out.append(f"addd {q} {q2} {r.randrange(400)} {T} {amt(T)}")
            F[q2] = F[q]
        elif k < 0.6:
            q2, G = r.randrange(4), r.choice(FS)
            out.append(f"cast {q} {q2} {G}")
            F[q2] = G
        elif k < 0.7:
            i = r.randrange(4)
            out.append(f"imk {i} {F[q]} {r.randrange(400)} {amt(F[q])}")
            out.append(f"addi {q} {i}")
            out.append(f"idiv {i} {i} {r.choice([1, 2, 3, 7, 86400, r.randint(1, 10 ** 6)])}")
        elif k < 0.8:
            out += [f"obs {q}", f"tai {q}"]
            d = r.randint(44244, 2000000)
            out += [f"mk {q} {F[q]} mjd {d} {tod(r, F[q])}", f"gps {q}"]
        elif k < 0.9:
            same = [p for p in range(4) if F[p] == F[q]]
            out.append(f"cmp {q} {r.choice(same)}")
        else:
            d = r.randint(44244, 90000)
            back = r.choice([0, 0, 1, 1, 2, 400])
            a, b = tod(r, F[q]), tod(r, F[q])
            if back == 0:
                a, b = sorted([a, b])
            p = (q + 1) % 4
            F[p] = F[q]
            # from another resolution too (the other one never is before this one)
            G = r.choice(FS)
            g = min(a * G // F[q], DAY * G - 1)
            out += [f"mk 4 {G} mjd {d - back} {g}", f"mk {q} {F[q]} mjd {d} {b}", f"dsec {q} 4"] if back else []
            out += [f"mk {q} {F[q]} mjd {d} {b}", f"mk {p} {F[q]} mjd {d - back} {a}",
                    f"dsec {q} {p}", f"dmjd {q} {p}", f"ddate {q} {p} 0 {r.randrange(2)}", f"addi {p} 0", f"cmp {p} {q}"]
    return out


def tods(F):
    D = DAY * F
    return sorted({t % D for t in (0, 1, F - 1, F, F + 1, 59 * F, 60 * F - 1, 60 * F, 3600 * F - 1, 3600 * F, D // 2, D // 2 + 1,
                   D - 3600 * F, D - F - 1, D - F, D - F + 1, D - 2, D - 1)})


def grid_add(r, F, T, days=(0, 1, 2, 7, 24856)):
    """amounts that end at, just before and just after the ends of a day, from
    every kind of time of day, by every operation that takes an amount"""
    out = []
    G = max(F, T)
    for t in tods(F):
        n = r.choice([51544, 0, -1, 1, 44244, 60000, -678000])
        tg = t * (G // F)
        D = DAY * G
        ends = {0, tg, tg - D, tg - D // 2, tg - (G // F) * (t % F if F > 1 else 0)}
        raw = {e + k * D + j for e in ends for k in days for j in (-1, 0, 1)} | {e - k * D for e in ends for k in days}
        per = G // T
        for a in sorted({x // per for x in raw} | {-(-x // per) for x in raw}):
            for sgn in (1, -1):
                out.append((n, t, f"add 0 {sgn} {T} {sgn * a if r.random() < 0.5 else a}"))
            if T >= F:
                out.append((n, t, f"addd 0 1 {r.choice([0, 0, 1, -1, 365])} {T} {-a}"))
            if T == F:
                out.append((n, t, f"imk 0 {F} {r.choice([0, 0, 1, -1, 365])} {-a}\naddi 0 0"))
    r.shuffle(out)
    return [f"mk 0 {F} mjd {n} {t}\n{x}" for n, t, x in out]


def grid_diff(r, F, G):
    """differences of date-times at the ends of days, near and far apart"""
    out = []
    for t in tods(F):
        for u in tods(G):
            n = r.choice([51544, 0, -1, 60000, -678000])
            d = r.choice([0, 0, 1, -1, 2, -2, 365, -24856, 24855, 24856])
            out.append(f"mk 0 {F} mjd {n} {t}\nmk 1 {G} mjd {n + d} {u}\ndsec 0 1\ndsec 1 0\ndmjd 0 1"
                       + (f"\nddate 0 1 0 {r.randrange(2)}\nddate 1 0 1 {r.randrange(2)}\naddi 1 0\ncmp 0 1" if F == G else ""))
    return out


def grid_order(r, F):
    out = []
    for t in tods(F):
        n = r.choice([51544, 0, -1, 60000, -678000])
        out.append(f"mk 0 {F} mjd {n} {t}\nimk 0 {F} {n} {t}")
        for u in tods(F):
            d = r.choice([0, 0, 1, -1, 2, -2])
            out.append(f"mk 1 {F} mjd {n + d} {u}\ncmp 0 1\ncmp 1 0\nimk 1 {F} {n + d} {u}\nicmp 0 1\nicmp 1 0")
    return out


def grid_build(r, F, T):
    """every form of construction, times of day at the ends of days"""
    out = []
    for t in tods(T):
        for k in (0, 1, -1, -2, 2, 24856, -24856):
            a = t + k * DAY * T
            n = r.choice([51544, 60368, 60369, 88068, 0, -1, 15384, -678000])
            y, m, d, j = date_of(n)
            h, mi = r.choice([(0, 0), (23, 59), (-1, 0), (0, -1), (24, 0), (0, 1440), (-24, 0), (1, -60)])
            if T >= F:
                out.append(r.choice([f"mk 0 {F} ymd {y} {m} {d} {T} {a}", f"mk 0 {F} ydoy {y} {j} {T} {a}",
                                     f"mk 0 {F} ymdh {y} {m} {d} {h} {mi} {T} {a}", f"mk 0 {F} ydoyh {y} {j} {h} {mi} {T} {a}"]))
            if T == F:
                out += [f"mk 1 {F} mjd {n} {a}", f"mk 2 {F} mjdh {n} {h} {mi} {a}", f"mk 3 {F} gps {r.randint(1, 3000)} {a}",
                        "obs 1", "obs 2", "obs 3"]
            out.append("obs 0" if T >= F else "")
    return [x for x in out if x]


def grid(r, kind, size=250):
    """chunks of a grid over all pairs of resolutions"""
    out = []
    for F in FS:
        for T in FS:
            if kind == "order" and F != T or kind == "build" and F > T or kind == "add" and T > F:
                continue
            lines = (grid_order(r, F) if kind == "order" else {"add": grid_add, "finer": grid_add, "diff": grid_diff,
                                                               "build": grid_build}[kind](r, F, T))
            if kind == "finer" and T <= F:
                continue
            if kind == "order":
                k = len(tods(F)) + 1
                out += [lines[i:i + k] for i in range(0, len(lines), k)]
            else:
                out += [lines[i:i + size] for i in range(0, len(lines), size)]
    return out


def shared(r, n=12):
    """projections of objects that other threads read, too"""
    out = []
    for _ in range(n):
        q = r.randrange(8)
        out += [f"share {q} {r.choice(FS)} {r.randrange(16)}", f"obs {q}", f"gps {q}", f"tai {q}", f"obs {q}"]
    return out
