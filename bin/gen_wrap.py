"""Scripts for driver_wrap: histories of operators on the fundamental types."""
INT_TYPES = ("year", "month", "day_of_month", "day_of_year", "hours", "minutes")
LONG_TYPES = ("gps_week", "modified_julian_day", "seconds", "milliseconds", "microseconds")
TYPES = INT_TYPES + LONG_TYPES
SUM = ("modified_julian_day", "seconds", "milliseconds", "microseconds")
LIT = ("year", "month", "day_of_month", "hours", "minutes", "seconds", "milliseconds", "microseconds")
IR = {"int": (-2**31, 2**31 - 1), "long": (-2**63, 2**63 - 1), "llong": (-2**63, 2**63 - 1), "short": (-2**15, 2**15 - 1),
      "schar": (-128, 127), "char": (-128, 127), "uchar": (0, 255), "ushort": (0, 65535), "uint": (0, 2**32 - 1), "ulong": (0, 2**64 - 1), "bool": (0, 1)}


def rng(ty):
    return IR["int"] if ty in INT_TYPES else IR["long"]


def value(r, lo, hi):
    k = r.random()
    if k < 0.2:
        v = r.choice([0, 1, -1, 2, 12, 31, 365, 2019, 58849, -5])
    elif k < 0.4:
        v = r.choice([lo, hi]) + r.choice([0, 1, -1, 2])
    elif k < 0.7:
        b = r.randrange(0, 64)
        v = r.choice([1, -1]) * 2 ** b + r.choice([-1, 0, 1])
    elif k < 0.85:
        v = r.randint(lo, hi)
    else:
        v = r.randint(-3000, 3000)
    return max(lo, min(hi, v))


def history(r, ty, n, neg=True):
    lo, hi = rng(ty)
    if not neg:
        lo = 0
    reg = [0, 0, 0]
    out = []

    def put(i):
        v = value(r, lo, hi)
        reg[i] = v
        if ty in LIT and v >= 0 and r.random() < 0.3:
            out.append(f"lit {ty} {i} {v}")
        else:
            out.append(f"set {ty} {i} {v}")
    for i in range(3):
        put(i)
    for _ in range(n):
        i, j, k = r.randrange(3), r.randrange(3), r.randrange(3)
        w = r.random()
        if w < 0.02:
            reg[i] = {"year": 1900, "month": 1, "gps_week": 1, "day_of_month": 1, "modified_julian_day": 1}.get(ty, 0)
            out.append(f"def {ty} {i}")
        elif w < 0.12:
            put(i)
            if ty == "gps_week":
                out.append(f"valid {ty} {i}")
        elif w < 0.45:
            o = r.choice(["assign", "plus=", "minus=", "plus=", "minus="])
            if o == "assign" and ty == "month":
                continue
            I = r.choice(list(IR))
            a, b = IR[I]
            v = value(r, a, b)
            x = {"assign": v, "plus=": reg[i] + v, "minus=": reg[i] - v}[o]
            if not lo <= x <= hi:          # bring the result into range
                t = value(r, lo, hi)
                v = {"assign": t, "plus=": t - reg[i], "minus=": reg[i] - t}[o]
                if not a <= v <= b:
                    continue
                x = t
            if I == "bool" and v not in (0, 1):
                continue
            reg[i] = x
            out.append(f"op {ty} {i} {o} {I} {v}")
        elif w < 0.62:
            o = r.choice(["assign", "plus=", "minus="])
            x = {"assign": reg[j], "plus=": reg[i] + reg[j], "minus=": reg[i] - reg[j]}[o]
            if lo <= x <= hi:
                reg[i] = x
                out.append(f"opt {ty} {i} {o} {j}")
        elif w < 0.8:
            o = r.choice(["++x", "x++", "--x", "x--"])
            x = reg[i] + (1 if "+" in o else -1)
            if lo <= x <= hi:
                reg[i] = x
                out.append(f"inc {ty} {i} {o}")
        elif w < 0.88 and ty in SUM:
            o = r.choice(["plus", "minus"])
            x = reg[i] + reg[j] if o == "plus" else reg[i] - reg[j]
            if lo <= x <= hi:
                reg[k] = x
                out.append(f"sum {ty} {i} {j} {k} {o}")
        else:
            if r.random() < 0.6:           # close to each other
                v = max(lo, min(hi, reg[i] + r.choice([0, 0, 1, -1, 2**32, -2**32])))
                j = (i + 1) % 3
                reg[j] = v
                out.append(f"set {ty} {j} {v}")
            out.append(f"cmp {ty} {i} {j}")
            out.append(f"cmp {ty} {j} {i}")
    return out
