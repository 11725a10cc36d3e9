"""Records, for every ordered pair of types and every form of expression,
whether the compiler accepts it.  The bulk of the answers comes from one
program that asks with std::void_t; whatever that program takes for
well-formed is then compiled on its own, so that an expression counts as
accepted only if a program containing it really compiles."""
import concurrent.futures as cf
import json, os, subprocess
import vlib

UNITS = ["year", "month", "day_of_month", "day_of_year", "gps_week", "modified_julian_day",
         "hours", "minutes", "seconds", "milliseconds", "microseconds"]
INTS = {"int": "int", "long": "long", "short": "short", "char": "char", "unsigned": "unsigned", "ulong": "unsigned long",
        "llong": "long long", "bool": "bool"}
SEC = ["seconds", "milliseconds", "microseconds"]
CXX = dict([(u, "ngpt::" + u) for u in UNITS] + list(INTS.items())
           + [("dt_" + s, f"ngpt::datetime<ngpt::{s}>") for s in SEC]
           + [("iv_" + s, f"ngpt::datetime_interval<ngpt::{s}>") for s in SEC])
FORMS = {"assign": "a = b", "eq": "a == b", "ne": "a != b", "lt": "a < b", "le": "a <= b", "gt": "a > b", "ge": "a >= b",
         "plus": "a + b", "minus": "a - b", "pluseq": "a += b", "minuseq": "a -= b"}
# convert: implicit conversion of b to A; construct: explicit conversion
INC = '#include "dtfund.hpp"\n#include "dtcalendar.hpp"\n'


def pairs():
    ks = list(CXX)
    for a in ks:
        for b in ks:
            if a in INTS and b in INTS:
                continue
            for f in list(FORMS) + ["convert", "construct"]:
                yield f, a, b
    for u in UNITS + list(INTS):
        yield "make_dt", u, u
        yield "make_iv", u, u


def bulk(items):
    o = [INC, "#include <cstdio>\n#include <type_traits>\n"]
    for f, e in FORMS.items():
        for rv, ref in (("", "B&"), ("r", "B")):
            ex = e.replace("a ", "std::declval<A&>() ", 1).replace(" b", f" std::declval<{ref}>()")
            o.append(f"template<class A,class B,class=void> struct {f}{rv}:std::false_type{{}};\n"
                     f"template<class A,class B> struct {f}{rv}<A,B,std::void_t<decltype({ex})>>:std::true_type{{}};\n")
    for k in ("dt", "iv"):
        t = "datetime" if k == "dt" else "datetime_interval"
        o.append(f"template<class A,class B,class=void> struct make_{k}:std::false_type{{}};\n"
                 f"template<class A,class B> struct make_{k}<A,B,std::void_t<decltype(ngpt::{t}<A>())>>:std::true_type{{}};\n")
    o.append("int main(){\n")
    for f, a, b in items:
        A, B = CXX[a], CXX[b]
        if f == "convert":
            v = f"std::is_convertible<{B},{A}>::value"
        elif f == "construct":
            v = f"std::is_constructible<{A},{B}>::value"
        elif f in FORMS:
            v = f"({f}<{A},{B}>::value||{f}r<{A},{B}>::value)"
        else:
            v = f"{f}<{A},{B}>::value"
        o.append(f"putchar({v}?'1':'0');\n")
    o.append("}\n")
    return "".join(o)


def single(f, a, b):
    A, B = CXX[a], CXX[b]
    if f in FORMS:
        body = f"void f({A}& a, {B}& b) {{ (void)({FORMS[f]}); }}\n"
    elif f == "convert":
        body = f"{A} f({B}& b) {{ return b; }}\n"
    elif f == "construct":
        body = f"void f({B}& b) {{ {A} a(b); (void)a; }}\n"
    else:
        t = "datetime" if f == "make_dt" else "datetime_interval"
        body = f"ngpt::{t}<{A}> x;\n"
    return body


def record(R, path, flags=(), cxx="clang++"):
    """Writes the trace, one chunk per left-hand type."""
    items = list(pairs())
    src = os.path.join(R.tmp, "probe.cpp")
    exe = os.path.join(R.tmp, "probe")
    with open(src, "w") as fh:
        fh.write(bulk(items))
    inc = ["-std=c++17", "-w", "-I", os.path.join(vlib.REPO, "src"), *flags]
    r = subprocess.run([cxx, *inc, "-O0", src, "-o", exe], capture_output=True, text=True)
    if r.returncode == 0:
        out = subprocess.run([exe], capture_output=True, text=True).stdout
        if len(out) != len(items):
            raise vlib.CheckError("probe printed an unexpected number of answers")
        maybe = [ch == "1" for ch in out]
    else:
        # something in the library is refused by other means: ask one by one
        maybe = [True] * len(items)
    hdr = os.path.join(R.tmp, "all.hpp")
    with open(hdr, "w") as fh:
        fh.write(INC)
    pch = hdr + ".pch"
    r = subprocess.run(["clang++", *inc, "-x", "c++-header", hdr, "-o", pch], capture_output=True, text=True)
    if r.returncode:
        raise vlib.CheckError("the headers do not compile:\n" + r.stderr[-2000:])

    def one(k):
        p = os.path.join(R.tmp, f"s{k}.cpp")
        with open(p, "w") as fh:
            fh.write(single(*items[k]))
        x = subprocess.run(["clang++", *inc, "-include-pch", pch, "-fsyntax-only", p], capture_output=True, text=True)
        os.unlink(p)
        return x.returncode == 0
    todo = [k for k, m in enumerate(maybe) if m]
    with cf.ThreadPoolExecutor(vlib.NPROC) as ex:
        for k, ok in zip(todo, ex.map(one, todo)):
            maybe[k] = ok
    by = {}
    for (f, a, b), ok in zip(items, maybe):
        by.setdefault(a, []).append({"a": "expr", "form": f, "l": a, "r": b, "ok": ok})
    with open(path, "w") as fh:
        for a, ev in by.items():
            fh.write(json.dumps({"id": a, "ev": ev}) + "\n")
    return len(items), len(todo)
