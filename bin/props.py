"""What each check runs.  Every check first model-checks the part of the
specification its property is about (TLC, exhaustive within the constants of
the configuration), then drives the code in /repo and has TLC decide whether
the recorded traces are behaviours of the specification."""
import concurrent.futures, json, os
import gen_text as gx, gen_time as gt, gen_unit as gu, gen_wrap as gw, types_probe
import vlib
from vlib import CheckError, Violation, chunks_of

DAY = 86400
Y_M4800 = -2432045           # 1 March -4800 is the first day the conversions are defined for
END = 2973484               # first day of year 10000
INT_DAYS = 784351617363     # 31 December of year 2^31 - 1, the last a year can name
EPOCH = 44244
Y1972 = 41317


def chunk(cid, lines):
    return f"chunk {cid}\n" + "\n".join(lines)


def windows(R, op, lo, hi, step, cid, head="seek"):
    return [chunk(f"{cid}{i}", [f"seek {n}", f"{op} {n} {min(hi, n + step)}"]) for i, n in enumerate(range(lo, hi, step))]


def far(R, op, n, lo, hi, width, cid):
    """windows at random places, some at powers of two and cycle boundaries"""
    r, out = R.rng, []
    for i in range(n):
        k = r.random()
        if k < 0.25:
            a = r.randint(lo, hi)
        elif k < 0.5:
            a = r.randint(lo, lo + min(hi - lo, 10 ** r.randrange(7, 12)))
        elif k < 0.8:
            a = 146097 * r.randint(lo // 146097 + 1, hi // 146097) + r.choice([-678882 % 146097, -678942 % 146097, 0]) - width // 2
        else:
            a = r.choice([1, 1, -1]) * 2 ** r.randrange(20, 40) + r.choice([0, 0, 40587, -2400001, 678941]) - width // 2
        a = hi - width if i == 0 else max(lo, min(hi - width, a))
        out.append(chunk(f"{cid}{i}", [f"seek {a}", f"{op} {a} {a + width}"]))
    return out


def many(R, n, cid, f):
    return [chunk(f"{cid}{i}", f()) for i in range(n)]


def cal(R, scripts):
    R.conform("driver_cal", scripts, "TraceCalendar", "Trace.cfg")


def time_(R, scripts):
    R.conform("driver_time", scripts, "TraceTimeline", "TraceTimeline.cfg")


def text(R, scripts, **kw):
    R.conform("driver_text", scripts, "TraceText", "TraceText.cfg", **kw)


def unit(R, scripts):
    R.conform("driver_unit", scripts, "TraceUnits", "TraceUnits.cfg")


CALINV = {"C01": ["RealDate", "CountsDays", "ClosedForms", "ImplAgrees", "SkipIsTicks"],
          "C02": ["CountsDays", "ClosedDoy", "ImplAgrees", "SkipIsTicks"],
          "C03": ["RealDate", "CountsDays"],
          "C09": ["CountsDays", "WeekAgrees"], "C10": ["CountsDays"]}


def model_cal(R):
    props = ["TaiStep", "TaiMonthly"] if R.prop == "C10" else None
    R.model("MCCalendar", R.cfg("MCCalendar.cfg", CALINV[R.prop], props),
            "odometer calendar: every day of the 400-year cycle 1800-2199, against the closed forms and the library's algorithms")


def model_time(R, inv):
    kw = {}
    if R.thorough:
        kw = {"PosAmounts": "{0, 1, 5, 7, 8, 17, 31, 48, 97}", "MaxDay": 2}
    R.model("MCTimeline", R.cfg("MCTimeline.cfg", inv, **kw),
            "all histories of date-time operations on a small clock (8 s per day, 1/2/6 ticks per second): " + ", ".join(inv))


def q(R, quick, thorough):
    return thorough if R.thorough else quick


PAIRS = [(f, t) for f in (1, 1000, 1000000) for t in (1, 1000, 1000000)]


def every_instant(R, invs, quick=((1000, 1000000),), slow=()):
    """the laws and the library's algorithms, with the real clock, for all integers"""
    for f, t in q(R, quick, PAIRS):
        R.lemmas("LemmaTimeline", invs, "real clock, one step from an arbitrary state", F0=f, T0=t)
    if R.thorough and slow:
        for f in (1, 1000):
            R.lemmas("LemmaTimeline", slow, "real clock", F0=f, T0=f)


# ---- the calendar ---------------------------------------------------------
def c01(R):
    model_cal(R)
    R.lemmas("LemmaCalendar", ["LeapPeriod", "DayNoPeriod", "DayNoNormal", "NextIsNext", "CalPeriod", "CenturyPeriod", "InCenturyPeriod"],
             "what holds of one 400-year cycle holds of every other")
    lo = Y_M4800
    cal(R, windows(R, "ymd", lo, END, 30000, "w") + far(R, "ymd", q(R, 400, 20000), END, INT_DAYS, 900, "f"))


def c02(R):
    model_cal(R)
    R.lemmas("LemmaCalendar", ["LeapPeriod", "DayNoPeriod", "CalPeriod", "DoyPeriod"], "what holds of one 400-year cycle holds of every other")
    lo = Y_M4800 + 366
    cal(R, windows(R, "doy", lo, END, 30000, "w") + far(R, "doy", q(R, 400, 20000), END, INT_DAYS, 900, "f"))


def c03(R):
    model_cal(R)
    r = R.rng
    S = [chunk("weeks", ["weeks"])]
    S += [chunk(f"y{y}", [f"years {y} {y + 7}"]) for y in range(q(R, 1880, -4800), q(R, 2120, 9999), 8)]
    if not R.thorough:
        S += [chunk(f"c{y}", [f"years {y - 1} {y + 4}"]) for y in list(range(-4800, 10000, 100))]
    for i in range(q(R, 60, 2000)):
        y = r.choice([r.randint(-4800, 9999), r.randint(-4800, 9999), 100 * r.randint(-48, 99), r.randint(10 ** 4, 5800000), r.randint(10 ** 4, 2 ** 31 - 4),
                      2 ** r.randrange(16, 31) + r.randint(-3, 0), 2 ** 31 - 4, 400 * r.randint(0, 5368700) + r.choice([-3, 0, 100]),
                      400 * r.randint(0, 14000), -r.randint(4801, 10 ** 6), 65536 + r.randint(0, 3), 32766, 65532 + r.randint(0, 9)])
        S.append(chunk(f"r{i}", [f"years {y} {y + 3}"]))
    cal(R, S)


def c09(R):
    model_cal(R)
    R.lemmas("LemmaCalendar", ["WeekPeriod", "NextIsNext"], "weeks and days of the week, every cycle")
    r = R.rng
    S = windows(R, "gps", EPOCH, END, 30000, "w") + far(R, "gps", q(R, 200, 5000), END, INT_DAYS, 900, "f")
    cal(R, S)
    time_(R, many(R, q(R, 300, 6000), "g", lambda: gt.gps(r)) + plays(R, "gps", 300, 6000))


def c10(R):
    model_cal(R)
    r = R.rng
    cal(R, windows(R, "tai", Y1972, END, 30000, "w") + far(R, "tai", q(R, 50, 500), END, INT_DAYS, 900, "f"))

    def tai():
        out = []
        for _ in range(30):
            y = r.choice([1972, 1980, 1999, 2012, 2015, 2016, 2017, r.randint(1972, 2030)])
            n = r.choice([41499, 41683, 42048, 42413, 42778, 43144, 43509, 43874, 44239, 44786, 45151, 45516, 46247, 47161, 47892,
                          48257, 48804, 49169, 49534, 50083, 50630, 51179, 53736, 54832, 56109, 57204, 57754,
                          Y1972 + 365 * (y - 1972)]) + r.choice([-1, 0, 1])
            n = max(n, Y1972)
            F = r.choice(gt.FS)
            out += [f"mk 0 {F} mjd {n} {r.choice([0, 1, DAY * F - 1, gt.tod(r, F)])}", "tai 0"]
        return out
    time_(R, many(R, q(R, 200, 2000), "t", tai) + plays(R, "tai", 200, 4000))


# ---- date-times -------------------------------------------------------------
def c04(R):
    model_time(R, ["NormalForm", "ImplArith"])
    every_instant(R, ["NormExact", "ImplBuildOk"])
    r = R.rng

    def mk():
        out = []
        for i in range(60):
            out.append(gt.construct(r, i % 8))
            if r.random() < 0.2:
                out.append(f"obs {i % 8}")
        return out
    S = many(R, q(R, 1500, 30000), "m", mk)
    S += [chunk(f"d{i}", x) for i, x in enumerate(decimals(R))]
    time_(R, S + grid(R, "build") + plays(R, "build", 400, 8000))
    # the constructors, on days farther away than the clock's own traces go
    for op in ("ymd", "doy", "gps"):
        cal(R, far(R, op, q(R, 60, 2000), END, INT_DAYS, 90, "c" + op))


def plays(R, mix, quick, thorough):
    """behaviours TLC chose from the specification, replayed into the library"""
    return [chunk(f"p{mix}{i}", x) for i, x in enumerate(R.plays("PlayTimeline", mix, q(R, quick, thorough)))]


def grid(R, kind):
    return [chunk(f"g{kind}{k}_{i}", x) for k in range(q(R, 1, 5)) for i, x in enumerate(gt.grid(R.rng, kind))]


def decimals(R):
    """every millisecond (a sample of microseconds) of a second, as a decimal"""
    r, out = R.rng, []
    for F, step in ((1000, 1), (1000000, q(R, 997, 31)), (1, 37)):
        sec = r.randrange(60)
        for form in ("ymdf", "ydoyf"):
            lines = []
            for k in range(0, max(F, 1000), step):
                ns = k * (10 ** 9 // max(F, 1000))
                date = "2019 7 1" if form == "ymdf" else "2019 182"
                lines.append(f"mk 0 {F} {form} {date} 23 59 {sec if k % 3 else r.randrange(86400)} {ns}")
            out += [lines[i:i + 500] for i in range(0, len(lines), 500)]
    return out


def runs(R, n):
    """long runs of equal steps"""
    r, out = R.rng, []
    for i in range(n):
        F = r.choice(gt.FS)
        T = r.choice([f for f in gt.FS if f <= F])
        a = r.choice([1, 1, 59, 60, 3600, 86399, 86400, 86401, 43200, r.randrange(1, 200000)]) * r.choice([1, T])
        cnt = r.choice([1000, 5000])
        d = gt.day(r, -700000, 2000000)
        t = gt.tod(r, F)
        out.append(chunk(f"run{i}", [f"mk 0 {F} mjd {d} {t}", f"addrun 0 1 {T} {a} {cnt}", f"addrun 0 -1 {T} {a} {cnt}",
                                     f"mk 1 {F} mjd {d} {t}", "cmp 0 1"]))
    return out


def c05(R):
    model_time(R, ["NormalForm", "ExactInstant", "TakeBack", "ImplArith"])
    every_instant(R, ["NormExact", "SumExact", "ImplAdd", "ImplRemove", "ImplAddDays"], ((1000000, 1000),))
    r = R.rng
    S = many(R, q(R, 2500, 60000), "h", lambda: gt.history(r, 50)) + runs(R, q(R, 150, 3000))
    time_(R, S + grid(R, "add") + plays(R, "history", 600, 10000) + plays(R, "all", 400, 10000))


def c06(R):
    model_time(R, ["CastLaws", "ImplArith"])
    every_instant(R, ["CastExact", "ImplCastOk", "ImplAdd", "ImplRemove", "ImplAddDays"])
    r = R.rng
    S = many(R, q(R, 800, 20000), "k", lambda: gt.casts(r, 40)) + many(R, q(R, 1500, 40000), "f", lambda: gt.history(r, 40, True))
    time_(R, S + grid(R, "finer") + plays(R, "fine", 500, 10000))


def c07(R):
    model_time(R, ["OrderLaws"])
    every_instant(R, ["OrderExact"])
    r = R.rng
    time_(R, many(R, q(R, 1500, 40000), "c", lambda: gt.compare(r)) + grid(R, "order") + plays(R, "order", 500, 10000))


def c08(R):
    model_time(R, ["TakeBack", "DiffLaws", "ImplObs"])
    every_instant(R, ["DiffExact", "TakeBack", "ImplDeltaOk", "ImplDdateOk"])
    r = R.rng
    time_(R, many(R, q(R, 1500, 40000), "d", lambda: gt.differences(r)) + grid(R, "diff") + plays(R, "diff", 500, 10000))


def c17(R):
    model_time(R, ["NormalForm", "ImplObs"])
    every_instant(R, ["NormExact", "DiffExact", "ImplDdateOk"], slow=["ImplDivOk"])
    r = R.rng
    time_(R, many(R, q(R, 400, 8000), "i", lambda: gt.intervals(r)) + plays(R, "interval", 400, 8000))
    unit(R, many(R, q(R, 40, 400), "f", lambda: [x for x in gu.floats(r, 60) if x.startswith("mjdf")] or ["maxd"]))


# ---- amounts -----------------------------------------------------------------
def c11(R):
    R.model("MCUnits", "MCUnits.cfg", "amounts of time on a small clock: splits, recombination, conversions")
    every_instant(R, ["ImplConvertOk", "ImplDaysOk", "ImplSplitOk", "ImplClockOk"])
    r = R.rng
    S = [chunk("small", gu.small(r))]
    S += many(R, q(R, 500, 10000), "u", lambda: gu.units(r, 60))
    S += many(R, q(R, 120, 3000), "w", lambda: gu.wide(r, 60))
    S += [chunk(f"z{i}", [x]) for i, x in enumerate(gu.sweeps(r, R.thorough))]
    unit(R, S)


def c19(R):
    R.model("MCUnits", "MCUnits.cfg", "amounts of time on a small clock")
    r = R.rng
    unit(R, [chunk("consts", ["consts"])] + many(R, q(R, 500, 10000), "f", lambda: gu.floats(r, 80)))


# ---- text ----------------------------------------------------------------------
def model_reader(R):
    kw = {"LenShort": 6, "LenClock": 9, "NEdits": 2} if R.thorough else {}
    R.model("MCReader", R.cfg("MCReader.cfg", **kw), "the readers as pointer machines over every short text and every "
            "near miss of a well-formed one, with anything behind the terminator and in errno, in locales with either decimal point")
    if R.thorough:
        for v, what in (("steps_past", "stepping past the terminator"), ("keeps_errno", "errno left by an earlier call"),
                        ("no_check_secs", "text without seconds"), ("locale_point", "the locale's decimal point")):
            R.refuted("MCReader", R.cfg("MCReader.cfg", Variant=f'"{v}"'), what)


def sweeps_text(R):
    r, S = R.rng, []
    for lay in ("ymd_hms", "ydoy_hms", "yod_hms"):
        for F in (1, 1000, 1000000):
            y, m, d, k = gx.year_day(r)
            S.append(chunk(f"sr{lay}{F}", [f"secrun {lay} {F} {y} {m} {d} {r.choice([45, 58, 32, 47])} 0 86400"]))
        for F in (1000, 1000000):
            y, m, d, k = gx.year_day(r)
            n = q(R, min(F, 200000), F)
            for j, s in enumerate((0, 59, 86399, r.randrange(86400))):
                a = r.randrange(F - n + 1)
                S.append(chunk(f"fr{lay}{F}-{j}", [f"fracrun {lay} {F} {y} {m} {d} 45 {s} {a} {n}"]))
    return S


def all_dates(R):
    """every day of a span of years, in each layout"""
    r, out = R.rng, []
    ys = range(*q(R, (1995, 2005), (1890, 2110))) if True else ()
    years = list(ys) + q(R, [0, 1, 4, 100, 400, 1600, 1700, 1900, 2100, 9999], list(range(0, 10000, 25)))
    for y in years:
        n0 = None
        lines = []
        for m in range(1, 13):
            ml = [31, 29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]
            for d in range(1, ml + 1):
                lay = r.choice(gx.LAY)
                doy = sum([31, 29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30][:m - 1]) + d
                clock = f" {r.randrange(24):02d}:{r.randrange(60):02d}:{r.randrange(60):02d}" + gx.frac(r)
                t = {"ymd": f"{y:04d}-{m:02d}-{d:02d}", "ydoy": f"{y:04d}-{doy:03d}", "ymd_hms": f"{y:04d}-{m:02d}-{d:02d}" + clock,
                     "ydoy_hms": f"{y:04d}-{doy:03d}" + clock, "yod_hms": f"{y:04d}-{gx.case(r, gx.MON[m - 1][:3])}-{d:02d}" + clock}[lay]
                lines.append(f"read {lay} {r.choice(gx.FS)} {gx.hexs(t)}")
        out.append(chunk(f"yr{y}", lines))
    return out


def c12(R):
    model_reader(R)
    r = R.rng
    S = many(R, q(R, 500, 10000), "g", lambda: gx.reads(r, 60, "good")) + sweeps_text(R) + all_dates(R)
    for i in range(q(R, 1, 20)):
        for lay in gx.LAY:
            S += chunks_of(gx.delimiters(r, lay), 150, f"dl{lay}{i}")
        S.append(chunk(f"mc{i}", gx.month_cases(r)))
    S += gx.located(r, many(R, q(R, 60, 1500), "lg", lambda: gx.reads(r, 60, "good")) + [chunk(f"lm{i}", gx.month_cases(r)) for i in range(4)]
                    + [chunk(f"lf{i}", [f"fracrun {lay} 1000 2016 2 29 45 {r.randrange(86400)} 0 1000"]) for i, lay in enumerate(("ymd_hms", "ydoy_hms", "yod_hms"))])
    text(R, S)


def short_texts(R):
    """every text over a small alphabet up to a length, from the specification's own model"""
    import itertools
    out = []
    for lay, al, n in (("ymd", "013- ", q(R, 4, 6)), ("ydoy", "013- ", q(R, 4, 6)), ("ydoy_hms", "1-.", q(R, 7, 9)),
                       ("ymd_hms", "1-", q(R, 11, 12)), ("yod_hms", "1m-", q(R, 5, 7))):
        lines = []
        for k in range(n + 1):
            for t in itertools.product(al, repeat=k):
                lines.append(f"read {lay} 1 {gx.hexs(''.join(t))}")
        out += chunks_of(lines, 500, "s" + lay)
    return out


def c13(R):
    model_reader(R)
    r = R.rng
    S = many(R, q(R, 350, 8000), "b", lambda: gx.reads(r, 60, "bad")) + many(R, q(R, 40, 500), "p", lambda: gx.prefixes(r))
    S += [chunk(f"e{lay}{i}", gx.edits(r, lay)) for i in range(q(R, 12, 200)) for lay in gx.LAY]
    for y in q(R, (1900, 2000, 2015, 2016, r.randint(0, 9999)), (0, 1, 4, 100, 400, 1582, 1900, 1904, 2000, 2015, 2016, 2100, 9996, 9999)):
        S += chunks_of(gx.date_grid(r, y), 150, f"dg{y}")
    S += short_texts(R)
    S += gx.located(r, many(R, q(R, 40, 1000), "lb", lambda: gx.reads(r, 60, "bad")) + [chunk(f"le{lay}{i}", gx.edits(r, lay)) for i in range(q(R, 2, 20)) for lay in gx.LAY])
    text(R, S)
    # nothing outside the text is looked at
    exe = R.build("driver_text", "clang++", ("-O1", "-g", "-fsanitize=address"), "asan")
    A = many(R, q(R, 60, 800), "ab", lambda: gx.reads(r, 60, "bad")) + many(R, q(R, 30, 300), "ap", lambda: gx.prefixes(r))
    text(R, A, exe=exe, env=ASAN)


ASAN = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:halt_on_error=1", "UBSAN_OPTIONS": "abort_on_error=1:print_stacktrace=0"}


def c14(R):
    model_time(R, ["ImplObs"])
    r = R.rng
    S = many(R, q(R, 500, 10000), "w", lambda: gx.writes(r, 60))
    for F in gx.FS:
        for i in range(q(R, 1, 8)):
            S += chunks_of(gx.write_grid(r, F), 100, f"wg{F}-{i}")
    for F in gx.FS:
        for j, n in enumerate(q(R, (60000, r.randint(-678941, 2973483)), [r.randint(-678941, 2973483) for _ in range(12)])):
            S.append(chunk(f"ws{F}-{j}", [f"writerun {F} {n} 0 {r.choice([45, 47])} s 86400"]))
    for F in (1000, 1000000):
        n = min(F, q(R, 150000, 1000000))
        for j in range(q(R, 4, 8)):
            s = r.choice([59, 86399, 0, r.randrange(86400)])
            S.append(chunk(f"wu{F}-{j}", [f"writerun {F} {r.randint(-678941, 2973483)} {s * F + r.randrange(F - n + 1)} 45 u {n}"]))
    S += gx.located(r, many(R, q(R, 60, 1500), "lw", lambda: gx.writes(r, 60)))
    text(R, S)


def c18(R):
    r = R.rng
    W = chunks_of(gx.months(r), 400, "m")
    S = W + gx.located(r, (W if R.thorough else r.sample(W, len(W) // 8)) + [chunk(f"lt{i}", gx.months_small(r)) for i in gx.LOCS])
    letters = "".join(chr(ch) for ch in range(65, 91)) + "".join(chr(ch) for ch in range(97, 123))
    S.append(chunk("mon3", ["mon3 " + gx.hexs(letters)]))
    rest = "JjAaNnFfEeBbMmRrPpYyUuLlGgSsOoCcTtVvDd" + "".join(chr(x) for x in q(R, [1, 32, 45, 64, 91, 96, 123, 127, 128, 193, 225, 255],
                                                               [x for x in range(1, 256) if not chr(x).isalpha() or x > 127]))
    S.append(chunk("mon3b", ["mon3 " + gx.hexs(rest)]))
    S += gx.located(r, [S[-2]] * len(gx.LOCS))
    model_months(R)
    text(R, S)


def model_months(R):
    R.model("MCMonths", "MCMonths.cfg", "every word over a small alphabet, one letter at a time: what is recognised and that names are unambiguous")
    if R.thorough:
        R.refuted("MCMonths", R.cfg("MCMonths.cfg", Folding='"locale"'), "the lower case of the program's locale")


# ---- types -------------------------------------------------------------------
def c15(R):
    R.model("MCWrapper", "MCWrapper.cfg", "multi-limb integer arithmetic against plain integers")
    r = R.rng
    S = []
    for ty in gw.TYPES:
        S += many(R, q(R, 100, 2000), ty, lambda: gw.history(r, ty, 80))
    R.conform("driver_wrap", S, "TraceWrapper", "TraceWrapper.cfg")


def c16(R):
    R.model("MCTypes", "MCTypes.cfg", "all programs of at most four expressions: no value changes its kind except by an explicit conversion")
    for i, fl in enumerate(q(R, [()], [(), ("-DDEBUG",), ("-DUSE_DATETIME_CHECKS",), ("-std=c++20",)])):
        p = os.path.join(R.tmp, f"types{i}.ndjson")
        n, singles = types_probe.record(R, p, fl)
        R.notes["expressions"] = R.notes.get("expressions", 0) + n
        R.notes["programs_compiled_on_their_own"] = R.notes.get("programs_compiled_on_their_own", 0) + singles
        bad = R.validate("TraceTypes", "TraceTypes.cfg", [p])
        if bad:
            f, obj, k = bad
            e = obj["ev"][k]
            rd = os.path.join(vlib.VERIF, "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, f"{R.prop}-{e['form']}-{e['l']}-{e['r']}.json")
            with open(rp, "w") as fh:
                json.dump({"property": R.prop, "rejected_event": e, "spec": "TraceTypes", "flags": fl,
                           "program": types_probe.INC + types_probe.single(e["form"], e["l"], e["r"]),
                           "how": "the program must %s" % ("not compile" if e["ok"] else "compile")}, fh, indent=1)
            raise Violation(json.dumps(e), rp)


# ---- configurations ----------------------------------------------------------
def configs(R):
    """name, compiler, flags, checks define set, environment"""
    gu_ = "-fsanitize-undefined-trap-on-error"
    qk = [("g-O0", "g++", ("-O0",)), ("g-O3-debug", "g++", ("-O3", "-DDEBUG", "-std=c++20")), ("g-O2-native", "g++", ("-O2", "-march=native", "-std=gnu++17")),
          ("g-O2-checks", "g++", ("-O2", "-DUSE_DATETIME_CHECKS", "-DDEBUG")),
          ("c-O2", "clang++", ("-O2", "-ftrivial-auto-var-init=pattern")),
          ("c-O0-checks", "clang++", ("-O0", "-DUSE_DATETIME_CHECKS")),
          ("c-ub", "clang++", ("-O1", "-DDEBUG", "-fsanitize=undefined,float-cast-overflow,float-divide-by-zero", "-fsanitize-trap=all")),
          ("c-asan", "clang++", ("-O1", "-fsanitize=address")),
          # a program and a library that were built in different ways
          ("c-O1-on-g-debug-so", "clang++", ("-O1",), ("g++", ("-O2", "-DDEBUG", "-fPIC", "-shared"))),
          ("g-O1-checks-on-plain", "g++", ("-O1", "-DDEBUG", "-DUSE_DATETIME_CHECKS"), ("g++", ("-O2",)))]
    th = qk + [("g-ub", "g++", ("-O2", "-fsanitize=undefined", "-fsanitize-undefined-trap-on-error")),
               ("c-ub-checks", "clang++", ("-O1", "-DUSE_DATETIME_CHECKS", "-fsanitize=undefined,float-cast-overflow", "-fsanitize-trap=all")),
               ("g-O1-zero", "g++", ("-O1", "-ftrivial-auto-var-init=zero")), ("g-O2-pattern", "g++", ("-O2", "-ftrivial-auto-var-init=pattern")),
               ("g-Os-ndebug", "g++", ("-Os", "-DNDEBUG", "-DDEBUG", "-DUSE_DATETIME_CHECKS")), ("c-O3", "clang++", ("-O3", "-march=native", "-std=c++23")),
               ("g-O3-native", "g++", ("-O3", "-march=native", "-ffp-contract=fast", "-std=gnu++17")), ("g-Og", "g++", ("-Og",)),
               ("c-Os-debug", "clang++", ("-Os", "-DDEBUG")),
               ("g-O0-on-c-so", "g++", ("-O0", "-std=c++20"), ("clang++", ("-O2", "-fPIC", "-shared"))),
               ("c-O0-on-g-checks", "clang++", ("-O0",), ("g++", ("-O0", "-DDEBUG", "-DUSE_DATETIME_CHECKS"))),
               ("g-O0-on-c-checks-so", "g++", ("-O0", "-DDEBUG"), ("clang++", ("-O2", "-DUSE_DATETIME_CHECKS", "-fPIC", "-shared")))]
    return q(R, qk, th)


FLOATS = {"afloat", "mjdf", "jd", "aresolve"}


def mixes(R):
    """driver -> (trace module, config, scripts, scripts whose quantities stay non-negative)"""
    r = R.rng
    k = q(R, 1, 8)
    full = "walks"
    out = {}
    days = [(-678942, 4000), (15000, 1500), (44244, 3000), (50000, 12000), (87500, 1200), (2970000, 3000)]
    walk = []
    for i, (n, w) in enumerate(days):
        walk.append(chunk(f"wy{i}", [f"seek {n}", f"ymd {n} {n + w}"]))
        walk.append(chunk(f"wd{i}", [f"seek {n}", f"doy {n} {n + w}"]))
        if n >= EPOCH:
            walk.append(chunk(f"wg{i}", [f"seek {n}", f"gps {n} {n + w}"]))
            walk.append(chunk(f"wt{i}", [f"seek {n}", f"tai {n} {n + w}"]))
    walk.append(chunk("wt72", [f"seek {Y1972}", f"tai {Y1972} {Y1972 + 3000}"]))
    walk += far(R, "ymd", 10 * k, -2400000, 10 ** 8, 500, "fy") + far(R, "doy", 10 * k, -2400000, 10 ** 8, 500, "fd")
    years = [chunk(f"y{y}", [f"years {y} {y}"]) for y in (-4, 1899, 1900, 1999, 2000, 2019, 2096, 2100)]
    pos = [s for s in walk if not (s.startswith("chunk f"))]
    out["driver_cal"] = ("TraceCalendar", "Trace.cfg", walk + years + [chunk("weeks", ["weeks"])],
                         [s for s in pos if int(s.split("seek ")[1].split()[0]) > -678000])
    T = []
    for nm, f in (("m", lambda: [gt.construct(r, i % 8) for i in range(40)]), ("h", lambda: gt.history(r, 40)), ("f", lambda: gt.history(r, 40, True)),
                  ("c", lambda: gt.compare(r)), ("d", lambda: gt.differences(r)), ("k", lambda: gt.casts(r, 30)), ("g", lambda: gt.gps(r)),
                  ("i", lambda: gt.intervals(r)), ("o", lambda: gt.observe(r))):
        T += many(R, 25 * k, nm, f)
    out["driver_time"] = ("TraceTimeline", "TraceTimeline.cfg", T, many(R, 150 * k, "n", lambda: gt.nonneg(r)))
    X = many(R, 15 * k, "g", lambda: gx.reads(r, 50, "good"))
    W = many(R, 15 * k, "w", lambda: gx.writes(r, 50))
    B = many(R, 15 * k, "b", lambda: gx.reads(r, 50, "bad")) + many(R, 5 * k, "p", lambda: gx.prefixes(r))
    M = chunks_of(gx.months(r), 400, "mo")
    # years 0 and huge ones are below the checks' own notion of a date
    X2 = [chunk(f"xn{i}", [s for s in x.split("\n")[1:]]) for i, x in enumerate(X)]
    out["driver_text"] = ("TraceText", "TraceText.cfg", X + W + B + M, X2 + W + M)
    U = [chunk("small", gu.small(r))] + many(R, 30 * k, "u", lambda: gu.units(r, 50)) + many(R, 15 * k, "w", lambda: gu.wide(r, 40)) \
        + many(R, 20 * k, "f", lambda: gu.floats(r, 50))
    U2 = [chunk("smalln", gu.small(r, False))] + many(R, 30 * k, "un", lambda: gu.units(r, 50, False)) \
        + many(R, 15 * k, "wn", lambda: gu.wide(r, 40, False)) + many(R, 20 * k, "fn", lambda: gu.floats(r, 50, False))
    out["driver_unit"] = ("TraceUnits", "TraceUnits.cfg", U, U2)
    P, P2 = [], []
    for ty in gw.TYPES:
        P += many(R, 6 * k, ty, lambda: gw.history(r, ty, 60))
        P2 += many(R, 6 * k, ty + "n", lambda: gw.history(r, ty, 60, False))
    out["driver_wrap"] = ("TraceWrapper", "TraceWrapper.cfg", P, P2)
    return out


def c20(R):
    mx = mixes(R)
    cf = configs(R)
    for d in mx:
        R.build(d)
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            list(ex.map(lambda k: configured(R, d, *k), cf))
    for d, (mod, cfg, S, N) in mx.items():
        base = R.build(d)
        want = {}
        for kind, scripts in (("all", S), ("nonneg", N)):
            files = R.drive(base, scripts, f"{d}-{kind}")
            bad = R.validate(mod, cfg, files)
            if bad:
                R.conform(d, scripts, mod, cfg)           # reports it
                raise CheckError("a rejected trace was accepted the second time")
            want[kind] = lines_of(files)
        for name, cxx, fl, *lib in cf:
            exe = configured(R, d, name, cxx, fl, *lib)
            checks = "-DUSE_DATETIME_CHECKS" in (*fl, *(lib[0][1] if lib else ()))
            for kind, scripts in (("nonneg", N),) if checks else (("all", S), ("nonneg", N)):
                files = R.drive(exe, scripts, f"{d}-{kind}-{name}", ASAN)
                got = lines_of(files)
                R.notes.setdefault("configurations", {}).setdefault(name, {})[f"{d}-{kind}"] = len(got)
                diff = sorted(i for i in want[kind] if got.get(i) != want[kind][i])
                if diff:
                    explain(R, d, mod, cfg, scripts, exe, name, cxx, [*fl, *lib], want[kind], got, diff)
                for f in files:
                    os.unlink(f)


def configured(R, d, name, cxx, fl, lib=None):
    """the program in one configuration, its headers in two translation units;
    the plain build exists, so that it cannot be built is a difference"""
    try:
        return R.build(d, cxx, fl, name, True, lib)
    except CheckError as e:
        rd = os.path.join(vlib.VERIF, "replay")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, f"C20-{d}-{name}-build.json")
        with open(rp, "w") as fh:
            json.dump({"property": "C20", "configuration": [cxx, *fl], "library": lib, "driver": d, "error": str(e)}, fh, indent=1)
        raise Violation(f"{name}: a program that is built plainly is not with {cxx} {' '.join(fl)}{f' and the library with {lib}' if lib else ''}: {e}"[:1500], rp)


def lines_of(files):
    out = {}
    for f in files:
        with open(f) as fh:
            for ln in fh:
                out[ln[7:ln.index('"', 7)]] = ln
    return out


def explain(R, d, mod, cfg, scripts, exe, name, cxx, fl, want, got, diff):
    """Traces of one configuration that are not those of the plain build: a
    violation if the specification rejects them, or if they differ in more
    than the rounding of a floating-point result."""
    by = {s.split("\n", 1)[0].split()[1]: s for s in scripts}
    R.conform(d, [by[i] for i in diff][:400], mod, cfg, name=f"{d}-{name}-diff", exe=exe, env=ASAN)
    for i in diff:
        a, b = json.loads(want[i])["ev"], json.loads(got[i])["ev"] if i in got else []
        for x, y in list(zip(a, b)) + ([(a[len(b):], b[len(a):])] if len(a) != len(b) else []):
            if x != y and not (isinstance(x, dict) and x["a"] in FLOATS and x["a"] == y["a"]):
                rd = os.path.join(vlib.VERIF, "replay")
                os.makedirs(rd, exist_ok=True)
                rp = os.path.join(rd, f"C20-{d}-{name}-{i}.json")
                with open(rp, "w") as fh:
                    json.dump({"property": "C20", "configuration": [cxx, *fl], "driver": d, "script": by[i],
                               "plain": x, "configured": y}, fh, indent=1)
                raise Violation(f"{name}: {json.dumps(x)[:300]} became {json.dumps(y)[:300]}", rp)


# ---- threads and histories -----------------------------------------------------
def c21(R):
    R.model("MCThreads", "MCThreads.cfg", "three threads in the library at once: every return is what the call gives alone")
    R.model("MCThreads", R.cfg("MCThreads.cfg", Place='"kept"'), "the same with a remembered value keyed by the whole argument")
    for place, what in (("shared", "one place of intermediate results for all threads"),
                        ("badkey", "a remembered value keyed by a part of the argument")):
        R.refuted("MCThreads", R.cfg("MCThreads.cfg", Place=f'"{place}"'), what)
    r = R.rng
    mx = mixes(R)
    for d, (mod, cfg, S, N) in mx.items():
        S = list(S)
        if d == "driver_time":
            S += many(R, q(R, 60, 400), "sh", lambda: gt.shared(r))
        r.shuffle(S)
        base = R.build(d, "g++", ("-O1", "-pthread"))
        tsan = R.build(d, "clang++", ("-O1", "-g", "-fsanitize=thread", "-pthread"), "tsan")
        files = R.drive(base, S, d)
        bad = R.validate(mod, cfg, files)
        if bad:
            R.conform(d, S, mod, cfg)
            raise CheckError("a rejected trace was accepted the second time")
        want = lines_of(files)
        T = [s for s in S if len(s) < 20000] if d != "driver_cal" else \
            [s for s in S if not s.startswith("chunk y")][:120] + [s for s in S if s.startswith("chunk y")]
        for k in range(q(R, 2, 8)):
            # other histories: the same operations after other ones
            X = S[:]
            r.shuffle(X)
            same_traces(R, d, mod, cfg, R.drive(base, X, d + "-order", parts=1 + k % 2 * 4), want, "another order of calls", X)
            # other threads
            r.shuffle(X)
            same_traces(R, d, mod, cfg, R.drive(base, X, d + "-threads", {"TR_THREADS": "8"}, parts=1), want, "eight threads", X)
        for k in range(q(R, 1, 4)):
            same_traces(R, d, mod, cfg, R.drive(tsan, T, d + "-tsan", {"TR_THREADS": "8", "TSAN_OPTIONS": "exitcode=0"}, parts=1),
                        {i: v for i, v in want.items()}, "eight threads, race detection", T)


def same_traces(R, d, mod, cfg, files, want, how, scripts):
    got = lines_of(files)
    R.notes.setdefault("interleavings", {}).setdefault(f"{d}: {how}", []).append(len(got))
    diff = sorted(i for i in got if want.get(i) != got[i])
    miss = [s.split("\n", 1)[0].split()[1] for s in scripts]
    miss = [i for i in miss if i not in got]
    if not diff and not miss:
        for f in files:
            os.unlink(f)
        return
    rd = os.path.join(vlib.VERIF, "replay")
    os.makedirs(rd, exist_ok=True)
    rp = os.path.join(rd, f"C21-{d}-{diff[0] if diff else miss[0]}.json")
    ev = "chunks missing: " + str(miss[:5])
    if diff:
        p = os.path.join(R.tmp, "diff.ndjson")
        with open(p, "w") as fh:
            fh.writelines(got[i] for i in diff[:50])
        bad = R.validate(mod, cfg, [p])
        if bad:
            f, obj, k = bad
            ev = obj["ev"][k]
        else:
            ev = "a result that differs from run to run"
    with open(rp, "w") as fh:
        json.dump({"property": "C21", "driver": d, "how": how, "rejected_event": ev, "chunks": diff[:20],
                   "script": "\n".join(scripts)}, fh, indent=1)
    raise Violation(how + ": " + json.dumps(ev)[:600], rp)


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10,
          "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21}
ASSUME = {"*": ("the recorded events are what the public functions returned (the drivers in /verif/harness)",
                "quantities stay within the range the library documents as representable"),
          "C20": ("with the checks define only operations whose quantities stay non-negative are compared",)}
