// Drives the second types on their own, hours, minutes and the floating-point
// exports.  Registers r,r2,r3: 0..3.  F,G,T: ticks per second.
#include "dtfund.hpp"
#include "dtcalendar.hpp"
#include "trace.hpp"
#include <cmath>
#include <type_traits>
#include <variant>
using namespace ngpt;
using tr::J; using tr::Set;
using L = long;
using AM = std::variant<seconds, milliseconds, microseconds>;
static thread_local AM R[4];
template<class S> constexpr L fac = S::template sec_factor<L>();
template<class F> static void with_res(L f, F g) {
  if (f == 1) g(seconds{}); else if (f == 1000) g(milliseconds{}); else if (f == 1000000) g(microseconds{});
  else { std::cerr << "bad resolution\n"; _exit(4); }
}
template<class S> static std::string amt(const S& s) { return tr::amt(s.as_underlying_type(), fac<S>); }
static double dec(L sec, L ns) { char b[64]; snprintf(b, sizeof b, "%ld.%09ld", sec, ns); return strtod(b, nullptr); }

// a double read exactly, to the nearest femtosecond (or 2^-60 of its unit), as days, seconds, nanoseconds, femtoseconds
static std::string parts(L days, L secs, double frac, L unit_s) {
  __int128 q = static_cast<__int128>(std::ldexp(frac, 60));
  __int128 fs = (q * unit_s * 1000000000000000L + (static_cast<__int128>(1) << 59)) >> 60;
  const __int128 one = 1000000000000000L;
  L s = static_cast<L>(fs >= 0 ? fs / one : -((-fs + one - 1) / one));
  L u = static_cast<L>(fs - s * one);
  s += secs;
  days += tr::fdiv(s, 86400L); s = tr::fmod_(s, 86400L);
  return tr::arr({days, s, u / 1000000L, u % 1000000L});
}
static std::string of_days(double x) {
  if (!(std::fabs(x) < 4e9)) return "[2147483647,0,0,0]";
  double w = std::trunc(x);
  return parts(static_cast<L>(w), 0, x - w, 86400);
}
static std::string of_secs(double x) {
  if (!(std::fabs(x) < 1e15)) return "[2147483647,0,0,0]";
  double w = std::trunc(x); L s = static_cast<L>(w);
  return parts(tr::fdiv(s, 86400L), tr::fmod_(s, 86400L), x - w, 1);
}
static std::string limbs(L v) {
  __int128 m = v; bool neg = m < 0; if (neg) m = -m;
  std::vector<L> w; while (m) { w.push_back(static_cast<L>(m % 1000)); m /= 1000; }
  return std::string("{\"neg\":") + (neg ? "true" : "false") + ",\"w\":" + tr::arr(w) + "}";
}

// everything a split says: comparable componentwise
struct Split { std::array<L, 4> hms; L days, rest, todays; bool more; std::array<L, 6> cv; };
template<class S> static Split split(S a) {
  Split p{};
  auto h = a.to_hmsf();
  p.hms = {std::get<0>(h).as_underlying_type(), std::get<1>(h).as_underlying_type(), std::get<2>(h).as_underlying_type(), std::get<3>(h)};
  p.todays = a.to_days(); p.more = a.more_than_day();
  S b = a; p.days = b.remove_days(); p.rest = b.as_underlying_type();
  p.cv = {1, cast_to<S, seconds>(a).as_underlying_type(), 1000, cast_to<S, milliseconds>(a).as_underlying_type(), 1000000, cast_to<S, microseconds>(a).as_underlying_type()};
  return p;
}
template<class S> static void split_run(L a0, L k, bool sec) {
  const L F = fac<S>, step = sec ? F : 1;
  L i = 0;
  while (i < k) {
    Split p = split(S{a0 + i * step});
    L q = 1;
    for (; i + q < k; ++q) {
      Split w = split(S{a0 + (i + q) * step});
      auto h = p.hms; h[sec ? 2 : 3] += q;
      auto cv = p.cv;
      for (int z = 0; z < 3; ++z) if (sec || cv[2 * z] >= F) cv[2 * z + 1] += q * (sec ? cv[2 * z] : cv[2 * z] / F);
      if (w.hms != h || w.days != p.days || w.todays != p.todays || w.rest != p.rest + q * step || w.cv != cv) break;
      if (w.more != (a0 + (i + q) * step > 86400L * F)) break;
    }
    J j("asplitrun");
    j.num("F", F).raw("A", tr::amt(a0 + i * step, F)).raw("hms", tr::arr(p.hms)).num("days", p.days).raw("rest", tr::amt(p.rest, F));
    j.num("todays", p.todays).num("k", q).str("unit", sec ? "s" : "u");
    std::string s = "[";
    for (int z = 0; z < 3; ++z) { L G = p.cv[2 * z], v = p.cv[2 * z + 1]; s += (z ? "," : "") + tr::arr({G, v / (86400L * G), (v / G) % 86400L, v % G}); }
    j.raw("cv", s + "]");
    i += q;
  }
}
template<class S, class T> constexpr bool explicit_to = std::is_constructible<T, S>::value && !std::is_same<S, T>::value;

struct Cmd { std::istringstream is; L n() { L v; if (!(is >> v)) { std::cerr << "script: number expected\n"; _exit(4); } return v; } std::string w() { std::string s; is >> s; return s; } };

static void interpret(std::istream& in) {
  std::string line;
  while (std::getline(in, line)) {
    Cmd c{std::istringstream(line)};
    std::string op = c.w();
    if (op.empty()) continue;
    if (op == "chunk") { tr::chunk(c.w()); for (auto& r : R) r = seconds{0L}; }
    else if (op == "aset") { int r = c.n(); L F = c.n(), a = c.n();
      with_res(F, [&](auto s0) { using S = decltype(s0); S s{a}; R[r] = s; J j("aset"); j.num("r", r).num("F", F).raw("A", tr::amt(a, F)).raw("post", amt(s)); }); }
    else if (op == "ahms") { int r = c.n(); L F = c.n(), h = c.n(), m = c.n(), a = c.n();
      with_res(F, [&](auto s0) { using S = decltype(s0); S s{hours(h), minutes(m), S{a}}; R[r] = s;
        J j("ahms"); j.num("r", r).num("F", F).num("T", F).num("h", h).num("mi", m).raw("A", tr::amt(a, F)).raw("post", amt(s)); }); }
    else if (op == "adec") { int r = c.n(); L F = c.n(), h = c.n(), m = c.n(), sec = c.n(), ns = c.n();
      with_res(F, [&](auto s0) { using S = decltype(s0); S s{hours(h), minutes(m), dec(sec, ns)}; R[r] = s;
        J j("ahms"); j.num("r", r).num("F", F).num("T", 1000000000L).num("h", h).num("mi", m).raw("A", tr::arr({sec / 86400L, sec % 86400L, ns})).raw("post", amt(s)); }); }
    else if (op == "aadd") {         // aadd r r2 r3 sgn form   r3 = r +- r2, or in place when form = 1 (r3 = r)
      int r = c.n(), r2 = c.n(), r3 = c.n(); L sgn = c.n(), form = c.n();
      std::visit([&](auto a) { using S = decltype(a); S b = std::get<S>(R[r2]);
        S x = a;
        if (form) { if (sgn == 1) x += b; else x -= b; } else x = sgn == 1 ? a + b : a - b;
        R[r3] = x; J j("aadd"); j.num("r", r).num("r2", r2).num("r3", r3).num("sgn", sgn).raw("post", amt(x)); }, R[r]); }
    else if (op == "acast") {        // acast r r2 G form
      int r = c.n(), r2 = c.n(); L G = c.n(), form = c.n();
      with_res(G, [&](auto t0) { using T = decltype(t0); std::visit([&](auto a) { using S = decltype(a);
        T x{0L};
        if constexpr (explicit_to<S, T>) { if (form) x = static_cast<T>(a); else x = cast_to<S, T>(a); } else x = cast_to<S, T>(a);
        R[r2] = x; J j("acast"); j.num("r", r).num("r2", r2).num("G", G).raw("post", amt(x)); }, R[r]); }); }
    else if (op == "asplit") { int r = c.n();
      std::visit([&](auto a) { Split p = split(a); J j("asplit"); j.num("r", r).raw("hms", tr::arr(p.hms)).num("days", p.days).raw("rest", tr::amt(p.rest, fac<decltype(a)>));
        j.num("todays", p.todays).boolean("more", p.more); }, R[r]); }
    else if (op == "ardays") { int r = c.n();
      std::visit([&](auto& a) { L d = a.remove_days(); J j("ardays"); j.num("r", r).num("days", d).raw("post", amt(a)); }, R[r]); }
    else if (op == "asplitrun") { L F = c.n(), a = c.n(), k = c.n(); bool sec = c.w() == "s"; with_res(F, [&](auto s0) { split_run<decltype(s0)>(a, k, sec); }); }
    else if (op == "aresolve") { int r = c.n();
      if (auto p = std::get_if<milliseconds>(&R[r])) { double f = -7; seconds s = p->resolve_sec(f); J j("aresolve"); j.num("r", r).raw("sec", amt(s)).raw("frac", of_secs(f)); } }
    else if (op == "afloat") { int r = c.n();
      std::visit([&](auto a) { J j("afloat"); j.num("r", r).raw("fd", of_days(a.fractional_days())).raw("fs", of_secs(a.to_fractional_seconds())); }, R[r]); }
    else if (op == "mjdf") { L F = c.n(), n = c.n(), a = c.n();
      with_res(F, [&](auto s0) { using S = decltype(s0); Set v;
        v.add(of_days(datetime<S>(modified_julian_day{n}, S{a}).as_mjd())); v.add(of_days(datetime_interval<S>(modified_julian_day{n}, S{a}).as_mjd()));
        J j("mjdf"); j.num("F", F).num("n", n).raw("A", tr::amt(a, F)).raw("v", v.str()); }); }
    else if (op == "jd") { L n = c.n(); double x = modified_julian_day{n}.to_julian_day();
      J j("jd"); j.num("n", n).raw("v", of_days(x)).boolean("exact", x - std::floor(x) == 0.5); }
    else if (op == "hrs") { L h = c.n(); hours x(h); L d = x.remove_days(); J j("hrs"); j.num("h", h).num("days", d).num("rest", x.as_underlying_type()); }
    else if (op == "mins") { L m = c.n(); minutes x(m); hours d = x.remove_hours(); J j("mins"); j.num("m", m).num("hours", d.as_underlying_type()).num("rest", x.as_underlying_type()); }
    else if (op == "maxd") { auto one = [&](L F, L v) { J j("maxd"); j.num("F", F).raw("v", tr::arr({v / 1000000000L, v % 1000000000L})); };
      one(1, max_days_allowed<seconds>()); one(1000, max_days_allowed<milliseconds>()); one(1000000, max_days_allowed<microseconds>()); }
    else if (op == "consts") {
      J j("consts"); j.raw("day", of_secs(sec_per_day)).raw("jy", of_days(days_in_julian_year)).raw("jc", of_days(days_in_julian_cent));
      j.raw("j2k", of_days(j2000_jd)).raw("j2km", of_days(j2000_mjd)).raw("mjd0", of_days(mjd0_jd)).raw("tt", of_secs(tt_minus_tai));
      j.num("gps0", jan61980).num("y1901", jan11901);
      j.num("mid1", seconds::max_in_day).num("mid1000", milliseconds::max_in_day / 1000L).num("mid1000000", microseconds::max_in_day / 1000000L);
      j.raw("fac", tr::arr({fac<seconds>, fac<milliseconds>, fac<microseconds>, seconds::sec_factor<int>(), milliseconds::sec_factor<int>(), microseconds::sec_factor<int>()})); }
    else if (op == "wcast") { L F = c.n(), G = c.n(), v = c.n(), form = c.n();
      with_res(F, [&](auto s0) { with_res(G, [&](auto t0) { using S = decltype(s0); using T = decltype(t0); S a{v}; T x{0L};
        if constexpr (explicit_to<S, T>) { if (form) x = static_cast<T>(a); else x = cast_to<S, T>(a); } else x = cast_to<S, T>(a);
        J j("wcast"); j.num("F", F).num("G", G).raw("x", limbs(v)).raw("y", limbs(x.as_underlying_type())); }); }); }
    else { std::cerr << "unknown command " << op << "\n"; _exit(4); }
  }
}

int main() {
  return tr::run_main(interpret);
}
