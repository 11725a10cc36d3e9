// Drives the calendar side of ggdatetime and records what it answers.
// Script (stdin), one command per line:
//   chunk ID
//   seek N
//   ymd N0 N1   doy N0 N1   gps N0 N1   tai N0 N1    walk day numbers [N0,N1)
//   years Y0 Y1                                      validity, years [Y0,Y1]
//   weeks
#include "dtfund.hpp"
#include "dtcalendar.hpp"
#include "trace.hpp"
#include <exception>
#include <functional>
using namespace ngpt;
using tr::Set;
using L = long;

static const L BAD = -2147483647L;

// ---- one observation of a day: several answers to several questions ------
struct Obs {
  // each answer: components, of which the last moves by `slope` per day
  struct Ans { int q; std::vector<L> v; int slope; };
  std::vector<Ans> a;
  void put(int q, std::initializer_list<L> v, int slope) { a.push_back({q, std::vector<L>(v), slope}); }
};
static bool follows(const Obs& base, const Obs& o, L k) {
  if (base.a.size() != o.a.size()) return false;
  for (size_t i = 0; i < o.a.size(); ++i) {
    auto v = base.a[i].v; v.back() += base.a[i].slope * k;
    if (v != o.a[i].v) return false;
  }
  return true;
}
template<class F> static void guarded(Obs& o, int q, int slope, F f) {
  try { f(); } catch (std::exception&) { o.put(q, {BAD, BAD, BAD}, slope); }
}

static const seconds      tS[] = {seconds{0L}, seconds{43201L}, seconds{86399L}};
static const milliseconds tM[] = {milliseconds{0L}, milliseconds{43200001L}, milliseconds{86399999L}};
static const microseconds tU[] = {microseconds{0L}, microseconds{43200000001L}, microseconds{86399999999L}};

template<class S> static datetime<S> at(L n, S t) { return datetime<S>(modified_julian_day{n}, t); }

enum Q { YMD, YDOY, NN, WEEK, DOW, SOW, TAI };
static const char* QN[] = {"ymd", "ydoy", "nn", "week", "dow", "sow", "tai"};

static void put_ymd(Obs& o, const ymd_date& d) {
  o.put(YMD, {d.__year.as_underlying_type(), d.__month.as_underlying_type(), d.__dom.as_underlying_type()}, 1);
}
static void put_ydoy(Obs& o, const ydoy_date& d) {
  o.put(YDOY, {d.__year.as_underlying_type(), d.__doy.as_underlying_type()}, 1);
}
static void put_n(Obs& o, L n) { o.put(NN, {tr::fdiv(n, 146097L), tr::fmod_(n, 146097L)}, 1); }
static void put_n(Obs& o, modified_julian_day n) { put_n(o, n.as_underlying_type()); }

static Obs see_ymd(L n) {
  Obs o;
  modified_julian_day j{n};
  ymd_date d = j.to_ymd();
  put_ymd(o, d);
  put_ymd(o, at(n, tS[1]).as_ymd());
  put_ymd(o, at(n, tM[2]).as_ymd());
  put_ymd(o, at(n, tU[2]).as_ymd());
  int y = d.__year.as_underlying_type(), m = d.__month.as_underlying_type(), k = d.__dom.as_underlying_type();
  guarded(o, NN, 1, [&] { put_n(o, cal2mjd(y, m, k)); });
  guarded(o, NN, 1, [&] { put_n(o, cal2mjd(year{y}, month{m}, day_of_month{k})); });
  guarded(o, NN, 1, [&] { put_n(o, modified_julian_day{year{y}, month{m}, day_of_month{k}}); });
  guarded(o, NN, 1, [&] { put_n(o, datetime<seconds>{year{y}, month{m}, day_of_month{k}}.mjd()); });
  guarded(o, NN, 1, [&] { put_n(o, datetime<milliseconds>{year{y}, month{m}, day_of_month{k}, tM[2]}.mjd()); });
  guarded(o, NN, 1, [&] { put_n(o, datetime<microseconds>{year{y}, month{m}, day_of_month{k}, hours{23}, minutes{59}, 59.5}.mjd()); });
  return o;
}
static Obs see_doy(L n) {
  Obs o;
  modified_julian_day j{n};
  ydoy_date e = j.to_ydoy();
  put_ydoy(o, e);
  put_ydoy(o, at(n, tS[2]).as_ydoy());
  put_ydoy(o, at(n, tM[1]).as_ydoy());
  put_ydoy(o, at(n, tU[0]).as_ydoy());
  put_ydoy(o, j.to_ymd().to_ydoy());
  put_ymd(o, e.to_ymd());
  year y = e.__year; day_of_year k = e.__doy;
  put_n(o, ydoy2mjd(y, k));
  put_n(o, modified_julian_day{y, k});
  put_n(o, datetime<seconds>{y, k}.mjd());
  put_n(o, datetime<milliseconds>{y, k, hours{23}, minutes{59}, 59.5}.mjd());
  put_n(o, datetime<microseconds>{y, k, tU[2]}.mjd());
  put_n(o, datetime<microseconds>{y, k, hours{23}, minutes{59}, microseconds{59999999L}}.mjd());
  guarded(o, NN, 1, [&] { put_n(o, cal2mjd(y, e.to_ymd().__month, e.to_ymd().__dom)); });
  return o;
}
template<class S> static void see_gps_at(Obs& o, L n, S t) {
  auto dt = at(n, t);
  const L F = S::template sec_factor<L>();
  L a; auto w1 = dt.as_gps_wsow(a);
  S b; auto w2 = dt.as_gps_wsow(b);
  L tod = t.as_underlying_type();
  o.put(WEEK, {tr::fdiv(w1.as_underlying_type(), 20871L), tr::fmod_(w1.as_underlying_type(), 20871L)}, 0);
  o.put(WEEK, {tr::fdiv(w2.as_underlying_type(), 20871L), tr::fmod_(w2.as_underlying_type(), 20871L)}, 0);
  auto sow = [&](L v, L f) { o.put(SOW, {v % f, (v / f) % 86400L, v / f / 86400L}, 1); };
  sow(a - tod / F, 1);
  sow(b.as_underlying_type() - tod, F);
  o.put(DOW, {day_of_week(seconds{a})}, 1);
  o.put(DOW, {day_of_week(b)}, 1);
  put_n(o, datetime<S>(w2, b).mjd());
}
static Obs see_gps(L n) {
  Obs o;
  for (auto t : tS) see_gps_at(o, n, t);
  for (auto t : tM) see_gps_at(o, n, t);
  for (auto t : tU) see_gps_at(o, n, t);
  return o;
}
static Obs see_tai(L n) {
  Obs o;
  o.put(TAI, {dat(modified_julian_day{n})}, 0);
  for (auto t : tS) o.put(TAI, {dat(at(n, t))}, 0);
  for (auto t : tM) o.put(TAI, {dat(at(n, t))}, 0);
  for (auto t : tU) o.put(TAI, {dat(at(n, t))}, 0);
  auto d = modified_julian_day{n}.to_ymd();
  o.put(TAI, {dat(d.__year, d.__month)}, 0);
  return o;
}

static void emit(const char* name, L n, L k, const Obs& o) {
  tr::J j(name);
  j.raw("n", tr::day(n)).num("k", k);
  Set s[7]; bool has[7] = {};
  for (auto& a : o.a) {
    has[a.q] = true;
    auto v = a.v;
    if (a.q == SOW) std::reverse(v.begin(), v.end());
    if (v.size() == 1) s[a.q].add(std::to_string(tr::clip(v[0]))); else s[a.q].add(tr::arr(v));
  }
  for (int q = 0; q < 7; ++q) if (has[q]) j.raw(QN[q], s[q].str());
}
static void walk(const char* name, Obs (*see)(L), L n0, L n1) {
  L n = n0;
  while (n < n1) {
    Obs base = see(n);
    L k = 1;
    while (n + k < n1 && follows(base, see(n + k), k)) ++k;
    emit(name, n, k, base);
    n += k;
  }
}

// ---- validity ------------------------------------------------------------
static std::vector<int> probes_d() {
  std::vector<int> p{INT_MIN, INT_MIN + 1, -65536 + 28, -1000000, -366};
  for (int d = -35; d <= 70; ++d) p.push_back(d);
  for (int d : {99, 100, 128, 255, 256, 257, 256 + 28, 365, 366, 65536 + 1, 65536 + 31, 1000000, INT_MAX}) p.push_back(d);
  return p;
}
static std::vector<int> probes_doy() {
  std::vector<int> p{INT_MIN, INT_MIN + 1, -65536 + 28, -1000000};
  for (int d = -370; d <= 740; ++d) p.push_back(d);
  for (int d : {65536 + 1, 65536 + 366, 1000000, INT_MAX}) p.push_back(d);
  return p;
}
static const std::vector<int> PD = probes_d(), PY = probes_doy();

static std::string runs(const std::vector<int>& p, const std::vector<char>& yes) {
  std::string s = "[";
  bool f = true;
  for (size_t i = 0; i < p.size();) {
    if (!yes[i]) { ++i; continue; }
    size_t j = i;
    while (j + 1 < p.size() && yes[j + 1] && p[j + 1] == p[j] + 1) ++j;
    if (!f) s += ",";
    f = false;
    s += tr::arr({p[i], p[j]});
    i = j + 1;
  }
  return s + "]";
}

static void see_year(int y) {
  {
    tr::J j("year");
    j.num("y", y);
    Set lp;
    auto b = [](bool x) { return std::string(x ? "true" : "false"); };
    lp.add(b(is_leap(y))); lp.add(b(year{y}.is_leap()));
    Set r;
    std::vector<char> yes(PY.size());
    for (size_t i = 0; i < PY.size(); ++i) yes[i] = day_of_year{PY[i]}.is_valid(year{y});
    r.add(runs(PY, yes));
    for (size_t i = 0; i < PY.size(); ++i) yes[i] = ydoy_date{year{y}, day_of_year{PY[i]}}.is_valid();
    r.add(runs(PY, yes));
    j.raw("leap", lp.str()).raw("doys", r.str());
  }
  static const int ms[] = {INT_MIN, -256 + 1, -11, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 24, 256 + 2, 65536 + 3, INT_MAX};
  using Ctor = std::function<L(int, int, int)>;
  static const std::vector<Ctor> ctors = {
    [](int a, int b, int d) { return cal2mjd(a, b, d); },
    [](int a, int b, int d) { return cal2mjd(year{a}, month{b}, day_of_month{d}).as_underlying_type(); },
    [](int a, int b, int d) { return modified_julian_day{year{a}, month{b}, day_of_month{d}}.as_underlying_type(); },
    [](int a, int b, int d) { return datetime<seconds>{year{a}, month{b}, day_of_month{d}}.mjd().as_underlying_type(); },
    [](int a, int b, int d) { return datetime<milliseconds>{year{a}, month{b}, day_of_month{d}, milliseconds{5L}}.mjd().as_underlying_type(); },
    [](int a, int b, int d) { return datetime<seconds>{year{a}, month{b}, day_of_month{d}, microseconds{5L}}.mjd().as_underlying_type(); },
    [](int a, int b, int d) { return datetime<milliseconds>{year{a}, month{b}, day_of_month{d}, hours{1}, minutes{2}, microseconds{5L}}.mjd().as_underlying_type(); },
    [](int a, int b, int d) { return datetime<microseconds>{year{a}, month{b}, day_of_month{d}, hours{1}, minutes{2}, 3.25}.mjd().as_underlying_type(); },
    [](int a, int b, int d) { return datetime<microseconds>{year{a}, month{b}, day_of_month{d}, hours{1}, minutes{2}, microseconds{5L}}.mjd().as_underlying_type(); },
  };
  for (int m : ms) {
    Set valid, acc, first;
    std::vector<char> yes(PD.size());
    for (size_t i = 0; i < PD.size(); ++i) yes[i] = day_of_month{PD[i]}.is_valid(year{y}, month{m});
    valid.add(runs(PD, yes));
    for (size_t i = 0; i < PD.size(); ++i) yes[i] = ymd_date{year{y}, month{m}, day_of_month{PD[i]}}.is_valid();
    valid.add(runs(PD, yes));
    int odd = 0;
    for (auto& f : ctors) {
      for (size_t i = 0; i < PD.size(); ++i) {
        yes[i] = 0;
        try { L n = f(y, m, PD[i]); yes[i] = 1; if (y >= -4799) first.add(tr::day(n - PD[i] + 1)); }
        catch (std::exception&) {}
        catch (...) { ++odd; }
      }
      acc.add(runs(PD, yes));
    }
    tr::J j("month");
    j.num("y", y).num("m", m).boolean("mvalid", month{m}.is_valid());
    j.raw("valid", valid.str()).raw("accepted", acc.str()).raw("first", first.str()).num("odd", odd);
  }
}
static void see_weeks() {
  std::vector<L> w{LONG_MIN, LONG_MIN + 1, -4294967295L, -2147483648L, -1025, -1024, -1, 0, 1, 1023, 1024, 2147483647L, 2147483648L, 4294967296L, LONG_MAX};
  for (L x : w) { tr::J j("weekvalid"); j.boolean("neg", x < 0).boolean("valid", gps_week{x}.is_valid()); }
}

static void interpret(std::istream& in) {
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::string op; is >> op;
    L a = 0, b = 0;
    if (op == "chunk") { std::string id; is >> id; tr::chunk(id); continue; }
    is >> a >> b;
    if (op == "seek") { tr::J j("seek"); j.raw("n", tr::day(a)); }
    else if (op == "ymd") walk("walk_ymd", see_ymd, a, b);
    else if (op == "doy") walk("walk_doy", see_doy, a, b);
    else if (op == "gps") walk("walk_gps", see_gps, a, b);
    else if (op == "tai") walk("walk_tai", see_tai, a, b);
    else if (op == "years") { for (L y = a; y <= b; ++y) see_year(static_cast<int>(y)); }
    else if (op == "weeks") see_weeks();
    else if (!op.empty()) { std::cerr << "unknown command " << op << "\n"; _exit(4); }
  }
}

int main() {
  return tr::run_main(interpret);
}
