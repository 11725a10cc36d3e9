"""Scripts for driver_text."""
import gen_time as gt
FS = (1, 1000, 1000000)
LAY = ("ymd", "ydoy", "ymd_hms", "ydoy_hms", "yod_hms")
MON = ["january", "february", "march", "april", "may", "june", "july", "august", "september", "october", "november",
       "december"]
LOCS = ("de_DE.UTF-8", "tr_TR.ISO-8859-9", "tr_TR.UTF-8", "facet")
DELS = "-/.:, _T#|;\\+*xXeEz~'\"()[]Z@!%&=<>?^`{}\t\x01\x7f\xff\xa0\x80n i"


def hexs(t):
    return t.encode("latin-1").hex()


def year_day(r, lo=0, hi=9999):
    while True:
        n = gt.day(r, -678941, 2973483)
        y, m, d, k = gt.date_of(n)
        if lo <= y <= hi:
            return y, m, d, k


def num(r, v, width):
    k = r.random()
    if k < 0.5:
        return str(v).zfill(width)
    if k < 0.8:
        return str(v)
    return str(v).zfill(width + r.choice([1, 2, 5, 12]))


def case(r, w):
    return "".join(ch.upper() if r.random() < 0.5 else ch.lower() for ch in w)


def frac(r):
    k = r.random()
    if k < 0.2:
        return ""
    if k < 0.25:
        return "."
    n = r.choice([1, 2, 3, 3, 3, 4, 5, 6, 6, 6, 7, 8, 9])
    q = r.random()
    if q < 0.15:
        f = "9" * n
    elif q < 0.25:
        f = "0" * (n - 1) + "1"
    elif q < 0.3:
        f = "0" * n
    else:
        f = "".join(r.choice("0123456789") for _ in range(n))
    return "." + f


def fields(r, lay, big=False):
    """pieces of a well-formed text: list of (field, following delimiter)"""
    y, m, d, k = year_day(r)
    if big and r.random() < 0.5:
        y = r.choice([10000, 99999, 5000000, 2147483646 - 47, 2147483647 // 400 * 400, r.randrange(10 ** 4, 2 * 10 ** 9)])
        m, d, k = r.randint(1, 12), r.randint(1, 28), r.randint(1, 365)
    out = [num(r, y, 4)]
    if lay in ("ymd", "ymd_hms"):
        out += [num(r, m, 2), num(r, d, 2)]
    elif lay in ("ydoy", "ydoy_hms"):
        out += [num(r, k, 3)]
    else:
        out += [case(r, MON[m - 1][:3]), num(r, d, 2)]
    if lay.endswith("hms"):
        t = gt.tod(r, 1)
        ck = [t // 3600, t // 60 % 60, t % 60]
        if r.random() < 0.06:                                   # a clock past its range: refused, or carried exactly
            for i in range(3):
                if r.random() < 0.5:
                    ck[i] = r.choice([24, 25, 48, 60, 61, 90, 99, 100, 120, 240, 999, 1440, 86400, r.randrange(10 ** 5)])
            if ck[2] > 60 and r.random() < 0.5:
                ck[2] = 60
        out += [num(r, ck[0], 2), num(r, ck[1], 2), num(r, ck[2], 2) + frac(r)]
    return out


def delim(r, prev, nxt, common=0.5):
    while True:
        ch = r.choice("-/: .T") if r.random() < common else r.choice(DELS)
        # an exponent, a hexadecimal mark or the month may not swallow the delimiter
        if nxt[:1].isalpha() and prev.isdigit() and ch.isalpha() and False:
            continue
        return ch


def wellformed(r, lay, big=False):
    f = fields(r, lay, big)
    t = ""
    usual = {"ymd": "--", "ydoy": "-", "ymd_hms": "-- ::", "ydoy_hms": "- ::", "yod_hms": "-- ::"}[lay]
    k = r.random()
    one = r.choice(DELS)
    for i, x in enumerate(f):
        t += x
        if i + 1 < len(f):
            if k < 0.4:
                t += usual[i]
            elif k < 0.6:
                t += one
            else:
                t += delim(r, x, f[i + 1])
    k = r.random()
    if k < 0.3:
        t += r.choice([" ", "Z", "\n", ";", " 2016-01-01", ",foo", "T", "-", ":", "abc", " .5", "\t7"])
    return t


def mutate(r, t, lay):
    """break a text"""
    t = list(t)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.random()
        if k < 0.3:
            t = t[:r.randrange(len(t) + 1)]                    # truncate
        elif k < 0.45 and t:
            del t[r.randrange(len(t))]
        elif k < 0.6:
            t.insert(r.randrange(len(t) + 1), r.choice("0123456789-+ .:eExXabT\t\n/"))
        elif k < 0.8 and t:
            t[r.randrange(len(t))] = r.choice("0123456789-+ .:eExXabTnif\xff")
        elif k < 0.9 and t:
            i = r.randrange(len(t))
            t[i:i] = list(r.choice(["99999999999", "2147483648", "4294967296", "4294969311", "9223372036854775808",
                                    "99999999999999999999999", "inf", "nan", "0x", "e5", "  ", "--"]))
        elif t:
            i = r.randrange(len(t))
            j = min(len(t), i + r.randrange(1, 4))
            del t[i:j]
    return "".join(t)


def unreal(r, lay):
    """well-formed numbers, impossible dates"""
    y, m, d, k = year_day(r)
    bad = r.choice([(0, d), (13, d), (m, 0), (2, 30), (2, 31), (4, 31), (6, 31), (9, 31), (11, 31), (m, 32), (2, 29), (99, d),
                    (m, 99), (12, 32), (14, 1), (1, 40), (256 + m, d), (m, 256 + d)])
    m, d = bad
    if m == 2 and d == 29:
        y = r.choice([1900, 2100, 2015, 1, 99, 2019, 9999, 1000])
    if lay == "yod_hms":
        mon = r.choice(["foo", "Jna", "xan", "   ", "Ma-", "De1", "Janu"]) if r.random() < 0.5 else MON[max(0, min(11, m - 1))][:3]
        if mon == "Janu":
            return f"{y:04d}-January-{d:02d} 01:02:03"
        return f"{y:04d}-{mon}-{d:02d} {r.randrange(24):02d}:{r.randrange(60):02d}:{r.randrange(60):02d}"
    t = f"{y:04d}-{m:02d}-{d:02d}"
    return t if lay == "ymd" else t + f" {r.randrange(24):02d}:{r.randrange(60):02d}:{r.randrange(60):02d}" + frac(r)


def reads(r, n, kind):
    out = []
    for _ in range(n):
        lay = r.choice(LAY)
        if kind == "good":
            t = wellformed(r, lay, r.random() < 0.05)
        else:
            k = r.random()
            if r.random() < 0.1:
                out.append(f"errno {r.choice([0, 34, 22, 2, 11])}")
            if k < 0.15:
                t = wellformed(r, lay)
            elif k < 0.35:
                lay2 = "ymd_hms" if lay == "ydoy" else lay
                t = unreal(r, lay2)
                lay = lay2 if lay2 != "ydoy_hms" else "ymd_hms"
            elif k < 0.45:
                t = wellformed(r, r.choice(LAY))               # text of another layout
            else:
                t = mutate(r, wellformed(r, lay), lay)
        t = t.replace("\0", "")
        out.append(f"read {lay} {r.choice(FS)} {hexs(t)}")
    return out


def edits(r, lay):
    """a well-formed text with one field missing or not a number, or one
    character missing, inserted, changed or exchanged"""
    out = []
    f = fields(r, lay)
    usual = {"ymd": "--", "ydoy": "-", "ymd_hms": "-- ::", "ydoy_hms": "- ::", "yod_hms": "-- ::"}[lay] + " "
    for i in range(len(f)):
        for x in ("", "x", "xx", " ", "-", "+", "--", ".", "\x01", "\xff", "x" + f[i], "- " + f[i], "--" + f[i], "+-" + f[i],
                  f[i] + "x", f[i] + "-", "\t" + f[i], "0x" + f[i], f[i] + "." + f[i], f[i] + "e1", f[i] * 9, "nan", "inf"):
            g = f[:i] + [x] + f[i + 1:]
            out.append("".join(a + b for a, b in zip(g, usual))[:-1])
        out.append("".join(a + b for j, (a, b) in enumerate(zip(f, usual)) if j != i))
        if f[i].isdigit():                                      # too large, but the same number in 8, 16, 32 or 64 bits
            v = int(f[i])
            for x in (v + 256, v + 65536, v + 2 ** 32, v - 2 ** 32, v + 2 ** 33, v + 2 ** 63, v + 2 ** 64, v - 2 ** 64, v + 2 ** 66, -v, -10 ** 25,
                      v * 10 ** 20, v + 10 ** 19, -2 ** 31 - 1, -2 ** 31, 2 ** 31 - 1, 2 ** 31, 2 ** 63 - 1, 2 ** 63, -2 ** 63, -2 ** 63 - 1):
                out.append("".join(a + b for a, b in zip(f[:i] + [str(x)] + f[i + 1:], usual))[:-1])
    t = wellformed(r, lay)
    for i in range(len(t)):
        out += [t[:i] + t[i + 1:], t[:i] + t[i] + t[i:], t[:i] + t[i + 1:i + 2] + t[i] + t[i + 2:], t[i:]]
        out += [t[:i] + ch + t[i + 1:] for ch in r.sample("0123456789-+ .:eEx\xff\n", 5)]
        out += [t[:i] + ch + t[i:] for ch in r.sample("0123456789-+ .:eEx\xff\n", 5)]
    return [f"read {lay} {r.choice(FS)} {hexs(x)}" for x in out if "\0" not in x]


def prefixes(r):
    out = []
    for lay in LAY:
        t = wellformed(r, lay)
        for i in range(len(t) + 1):
            out.append(f"read {lay} {r.choice(FS)} {hexs(t[:i])}")
    return out


def months(r):
    out = ["names"]
    words = set()
    for w in MON:
        # every letter-case variant of the short name; many of the long one
        for b in range(8):
            words.add("".join(ch.upper() if b >> i & 1 else ch for i, ch in enumerate(w[:3])))
        full = range(1 << len(w))
        for b in full:
            words.add("".join(ch.upper() if b >> i & 1 else ch for i, ch in enumerate(w)))
        for i in range(len(w) + 1):
            words.add(w[:i])
            words.add(w[i:])
            words.add(w[:i].upper())
            for ch in " .-x0\xff\x01":
                words.add(w[:i] + ch + w[i:])
            words.add(w[:i] + w[i + 1:])
            if i < len(w):
                for ch in "aez@[`{\x01\xe1":
                    words.add(w[:i] + ch + w[i + 1:])
                words.add(w[:i] + chr(ord(w[i]) ^ 0x40) + w[i + 1:])
                words.add(w[:i] + chr(ord(w[i]) ^ 0x80) + w[i + 1:])
                words.add(w[:i] + chr(ord(w[i]) ^ 0x10) + w[i + 1:])
        for x in MON:
            words.add(w[:3] + x[3:])
            words.add(w + x)
            words.add(w[:3] + " " + x)
            words.add(w[:3] + x[:3])
    words.update(["", " ", "sept", "Sept", "Sept.", "Jan.", "  Jan", "Jan ", "janvier", "01", "1", "12", "M", "ju", "JULLY",
                  "a" * 300, "may" * 50, "jan" + "x" * 1000])
    for _ in range(2000):
        words.add("".join(r.choice("abcdefghijklmnopqrstuvwxyzABCDEJFMNOSV .") for _ in range(r.randrange(0, 11))))
    words = sorted(w for w in words if "\0" not in w)
    r.shuffle(words)
    for w in words:
        if w == "":
            continue
        out.append("mon " + hexs(w))
    return out


def months_small(r):
    words = []
    for w in MON:
        for x in (w, w[:3]):
            words += [x, x.upper(), x.capitalize(), x[0] + x[1:].upper()] + [case(r, x) for _ in range(6)]
            words += [x[:i] + ch + x[i + 1:] for i in range(len(x)) for ch in "\xdd\xfd\xc4\xe4" if x[i] in "ai"]
    return ["names"] + ["mon " + hexs(w) for w in words]


def writes(r, n):
    out = []
    for _ in range(n):
        F = r.choice(FS)
        y = -1
        while not 0 <= y <= 9999:
            d = gt.day(r, -678941, 2973483)
            y = gt.date_of(d)[0]
        k = r.random()
        del_ = 45 if k < 0.3 else ord(r.choice("/ :.T#_|x~eE,;\xff"))
        out.append(f"write {F} {d} {gt.tod(r, F)} {del_}")
    return out


def delimiters(r, lay):
    """every character as the delimiter between any two fields"""
    out = []
    usual = {"ymd": "--", "ydoy": "-", "ymd_hms": "-- ::", "ydoy_hms": "- ::", "yod_hms": "-- ::"}[lay]
    for i in range(len(usual)):
        for b in range(1, 256):
            if chr(b) in "0123456789":
                continue
            f = fields(r, lay)
            us = usual[:i] + chr(b) + usual[i + 1:] + " "
            out.append(f"read {lay} {r.choice(FS)} {hexs(''.join(a + x for a, x in zip(f, us))[:-1])}")
    for b in range(1, 256):                                     # and after the last field
        t = "".join(a + x for a, x in zip(fields(r, lay), usual + chr(b)))
        out.append(f"read {lay} {r.choice(FS)} {hexs(t)}")
    return out


def month_cases(r):
    """every month in every letter case"""
    out = []
    for w in MON:
        for b in range(8):
            y, m, d, k = year_day(r)
            c = "".join(ch.upper() if b >> i & 1 else ch for i, ch in enumerate(w[:3]))
            out.append(f"read yod_hms {r.choice(FS)} " + hexs(f"{y:04d}-{c}-{min(d, 28):02d} {r.randrange(24):02d}:{r.randrange(60):02d}:{r.randrange(60):02d}" + frac(r)))
    return out


def date_grid(r, y):
    """every month and day number that may be written with two digits or
    nearly, real or not, and day-of-year numbers, of one year"""
    out = []
    for m in range(-1, 15):
        for d in range(-1, 34):
            lay = r.choice(("ymd", "ymd_hms", "yod_hms"))
            ck = f" {r.randrange(24):02d}:{r.randrange(60):02d}:{r.randrange(60):02d}" + frac(r)
            mm = case(r, MON[m - 1][:3]) if lay == "yod_hms" and 1 <= m <= 12 else f"{m:02d}"
            out.append(f"read {lay} {r.choice(FS)} {hexs(f'{y:04d}-{mm}-{d:02d}' + (ck if lay != 'ymd' else ''))}")
    return out


def write_grid(r, F):
    """boundary days x boundary times of day"""
    days = {-678941, 2973483}
    for y in (0, 1, 4, 99, 100, 999, 1000, 1582, 1752, 1858, 1900, 1969, 1970, 1972, 1999, 2000, 2001, 2015, 2016, 2100, 9999):
        n = 365 * (y - 1) + (y - 1) // 4 - (y - 1) // 100 + (y - 1) // 400 - 678575
        leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
        days |= {n, n + 30, n + 31, n + 58, n + 59, n + 60, n + 99, n + 272, n + 273, n + 364, n + 364 + leap}
    ts = gt.tods(F) + [s * F + u for s in (9, 10, 35999, 36000, 599, 600, 86340, 86399) for u in {0, 1 % F, F // 10, F // 10 - 1 if F > 1 else 0, F - 1}]
    out = []
    for n in sorted(days):
        if not -678941 <= n <= 2973483:
            continue
        for t in ts:
            if r.random() < 0.12:
                out.append(f"write {F} {n} {t} {r.choice([45, 45, 47, 46, 58, 32])}")
    for b in range(1, 256):
        if chr(b) not in "0123456789":
            out.append(f"write {F} {r.choice(sorted(days - {2973484}))} {r.choice(ts)} {b}")
    return out


def located(r, scripts):
    """scripts run in other locales: set before, and changed between, the calls"""
    out = []
    for i, s in enumerate(scripts):
        head, *lines = s.split("\n")
        k = i % len(LOCS)
        if len(lines) > 30:
            lines.insert(len(lines) // 2, "locale " + LOCS[(k + 1) % len(LOCS)])
        out.append("\n".join([f"chunk loc{i}-{head.split()[1]}", "locale " + LOCS[k]] + lines))
    return out
