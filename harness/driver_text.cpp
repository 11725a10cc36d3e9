// Drives the text readers and writers and the month names.
//   errno V                         what errno is before each read from now on
//   locale NAME                     the locale of the program from now on; facet: only that of
//                                   the C++ streams; a name the system lacks: as it was
//   read LAYOUT F HEX               the text as hexadecimal bytes
//   secrun LAYOUT F Y M D DEL s0 k     texts of consecutive seconds of a day
//   fracrun LAYOUT F Y M D DEL s u0 k  texts of consecutive ticks
//   write F N TICKS DEL             writerun F N TICKS DEL UNIT K
//   mon HEX    mon3 HEXCHARS    names
#include "dtfund.hpp"
#include "dtcalendar.hpp"
#include "datetime_read.hpp"
#include "datetime_write.hpp"
#include "trace.hpp"
#include <cerrno>
#include <clocale>
#include <locale>
#include <exception>
#include <memory>
using namespace ngpt;
using tr::J; using tr::Set;
using L = long;
static thread_local int ERR = 0;

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*)());
static void on_death() { tr::on_fatal(SIGSEGV); }
#endif

struct Odd : std::numpunct<char> {             // 2.0.1.6,5
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\1"; }
};
static thread_local bool LOCALE = false;
static void set_locale(const std::string& name) {
  try {
    std::locale::global(name == "facet" ? std::locale(std::locale::classic(), new Odd) : std::locale(name));
  } catch (std::runtime_error&) {}
  LOCALE = name != "C";
  J j("locale");
  j.str("name", name).num("point", static_cast<unsigned char>(*std::localeconv()->decimal_point));
  j.num("cpp", std::use_facet<std::numpunct<char>>(std::locale()).decimal_point());
  j.num("lowI", static_cast<unsigned char>(std::tolower('I')));
}

template<class S> constexpr L fac = S::template sec_factor<L>();
template<class F> static void with_res(L f, F g) {
  if (f == 1) g(seconds{}); else if (f == 1000) g(milliseconds{}); else if (f == 1000000) g(microseconds{});
  else { std::cerr << "bad resolution\n"; _exit(4); }
}
static std::string unhex(const std::string& h) {
  std::string s;
  for (size_t i = 0; i + 1 < h.size(); i += 2) s += static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16));
  return s;
}
template<class S> static datetime<S> call(const std::string& lay, const char* s, char** stop) {
  if (lay == "ymd") return stop ? strptime_ymd<S>(s, stop) : strptime_ymd<S>(s);
  if (lay == "ydoy") return stop ? strptime_ydoy<S>(s, stop) : strptime_ydoy<S>(s);
  if (lay == "ymd_hms") return stop ? strptime_ymd_hms<S>(s, stop) : strptime_ymd_hms<S>(s);
  if (lay == "yod_hms") return stop ? strptime_yod_hms<S>(s, stop) : strptime_yod_hms<S>(s);
  if (lay == "ydoy_hms") return stop ? strptime_ydoy_hms<S>(s, stop) : strptime_ydoy_hms<S>(s);
  std::cerr << "bad layout\n"; _exit(4);
}
struct Out { int kind; std::array<L, 5> v; L stop; };
template<class S> static std::array<L, 5> value(const datetime<S>& d) {
  L n = d.mjd().as_underlying_type(), t = d.sec_as_i(), F = fac<S>;
  return {tr::fdiv(n, 146097L), tr::fmod_(n, 146097L), t / (86400L * F), (t / F) % 86400L, t % F};
}
template<class S> static Out attempt(const std::string& lay, const char* s, bool want_stop) {
  Out o{2, {}, 0};
  char mark = 0; char* stop = &mark;
  errno = ERR;
  try {
    auto d = call<S>(lay, s, want_stop ? &stop : nullptr);
    o.kind = 1; o.v = value(d);
    o.stop = !want_stop ? 0 : stop == &mark ? -1000 : stop - s;
  } catch (std::exception&) { o.kind = 0; }
  catch (...) { o.kind = 2; }
  return o;
}
static std::string show(const Out& o) {
  if (o.kind == 1) return tr::arr({1L, o.v[0], o.v[1], o.v[2], o.v[3], o.v[4]});
  return tr::arr({static_cast<L>(o.kind)});
}
static const char* const GARBAGE[] = {"", "-12-30 11:22:33.5", "5", "12:13:14.25", ".75", "Dec-30 10:11:12", "\xff\xff\xff\xff"};

static void do_read(const std::string& lay, L F, const std::string& t) {
  Set outs, stops;
  with_res(F, [&](auto s0) {
    using S = decltype(s0);
    {
      std::unique_ptr<char[]> b(new char[t.size() + 1]);
      memcpy(b.get(), t.c_str(), t.size() + 1);
      Out o = attempt<S>(lay, b.get(), false); outs.add(show(o));
      o = attempt<S>(lay, b.get(), true); outs.add(show(o));
      if (o.kind == 1) stops.add(std::to_string(tr::clip(o.stop)));
    }
    for (auto g : GARBAGE) {
      size_t n = strlen(g);
      std::unique_ptr<char[]> b(new char[t.size() + n + 3]);
      memcpy(b.get(), t.c_str(), t.size() + 1);
      memcpy(b.get() + t.size() + 1, g, n + 1);
      b[t.size() + n + 2] = 0;
      Out o = attempt<S>(lay, b.get(), true); outs.add(show(o));
      if (o.kind == 1) stops.add(std::to_string(tr::clip(o.stop)));
    }
    if (LOCALE) {                                // and in no locale at all
      const std::locale was = std::locale::global(std::locale::classic());
      Out o = attempt<S>(lay, t.c_str(), true); outs.add(show(o));
      if (o.kind == 1) stops.add(std::to_string(tr::clip(o.stop)));
      std::locale::global(was);
    }
  });
  J j("read");
  j.str("L", lay).num("F", F).raw("t", tr::codes(t)).raw("outs", outs.str()).raw("stops", stops.str());
}

static const char* MON[] = {"jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"};
static const int BEF[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};

static std::string spell(const std::string& lay, L F, int y, int m, int d, char del, L s, L u) {
  char b[128], date[64], frac[16] = "";
  bool leap = y % 4 == 0 && (y % 100 || y % 400 == 0);
  if (lay == "ydoy" || lay == "ydoy_hms") snprintf(date, sizeof date, "%04d%c%03d", y, del, BEF[m - 1] + (m > 2 && leap) + d);
  else if (lay == "yod_hms") snprintf(date, sizeof date, "%04d%c%s%c%02d", y, del, MON[m - 1], del, d);
  else snprintf(date, sizeof date, "%04d%c%02d%c%02d", y, del, m, del, d);
  if (F == 1000) snprintf(frac, sizeof frac, ".%03ld", u); else if (F == 1000000) snprintf(frac, sizeof frac, ".%06ld", u);
  snprintf(b, sizeof b, "%s%c%02ld%c%02ld%c%02ld%s", date, del == '-' ? ' ' : del, s / 3600, del == '-' ? ':' : del, s / 60 % 60, del == '-' ? ':' : del, s % 60, frac);
  return b;
}
static void run(const std::string& lay, L F, int y, int m, int d, char del, L s0, L u0, L k, bool sec) {
  with_res(F, [&](auto z) {
    using S = decltype(z);
    L i = 0;
    while (i < k) {
      std::string t0 = spell(lay, F, y, m, d, del, sec ? s0 + i : s0, sec ? u0 : u0 + i);
      Out a = attempt<S>(lay, t0.c_str(), true);
      L q = 1;
      for (; i + q < k; ++q) {
        std::string t = spell(lay, F, y, m, d, del, sec ? s0 + i + q : s0, sec ? u0 : u0 + i + q);
        Out b = attempt<S>(lay, t.c_str(), true);
        auto want = a.v; want[sec ? 3 : 4] += q;
        if (a.kind != 1 || b.kind != 1 || b.v != want || b.stop != a.stop) break;
      }
      J j("readrun");
      j.str("L", lay).num("F", F).raw("t", tr::codes(t0)).raw("outs", "[" + show(a) + "]");
      j.raw("stops", "[" + std::to_string(tr::clip(a.stop)) + "]").num("k", q).str("unit", sec ? "s" : "u");
      i += q;
    }
  });
}

template<class S> static Out back(const std::string& w, bool) {
  return attempt<S>("ymd_hms", w.c_str(), true);
}
static void do_write(L F, L n, L ticks, int del) {
  with_res(F, [&](auto z) {
    using S = decltype(z);
    datetime<S> d(modified_julian_day{n}, S{ticks});
    std::string a = del == '-' ? strftime_ymd_hmfs(d) : strftime_ymd_hmfs(d, static_cast<char>(del));
    std::string b = del == '-' ? strftime_ymd_hms(d) : strftime_ymd_hms(d, static_cast<char>(del));
    std::string s = d.stringify();
    Set all; all.add(tr::codes(a + "\n" + b + "\n" + s));
    if (LOCALE) {                                // and in no locale at all
      const std::locale was = std::locale::global(std::locale::classic());
      all.add(tr::codes(strftime_ymd_hmfs(d, static_cast<char>(del)) + "\n" + strftime_ymd_hms(d, static_cast<char>(del)) + "\n" + d.stringify()));
      std::locale::global(was);
    }
    J j("write");
    j.num("texts", static_cast<L>(all.v.size()));
    j.num("F", F).raw("n", tr::day(n)).raw("A", tr::amt(ticks, F)).num("del", del);
    j.raw("hmfs", tr::codes(a)).raw("hms", tr::codes(b)).raw("str", tr::codes(s));
    j.raw("back", show(back<S>(a, true))).raw("back0", show(back<S>(b, true)));
  });
}
// digits of a text as one number, and its shape with digits masked
static void mask(const std::string& w, std::string& shape, std::vector<L>& nums) {
  shape.clear(); nums.clear();
  bool in = false;
  for (char ch : w) {
    if (ch >= '0' && ch <= '9') { if (!in) nums.push_back(0); in = true; nums.back() = nums.back() * 10 + (ch - '0'); shape += '#'; }
    else { in = false; shape += ch; }
  }
}
static void write_run(L F, L n, L ticks, int del, bool sec, L k) {
  with_res(F, [&](auto z) {
    using S = decltype(z);
    const L step = sec ? F : 1;
    L i = 0;
    auto one = [&](L q, std::string& a, std::string& b, Out& o) {
      datetime<S> d(modified_julian_day{n}, S{ticks + q * step});
      a = strftime_ymd_hmfs(d, static_cast<char>(del)); b = strftime_ymd_hms(d, static_cast<char>(del)); o = back<S>(a, true);
    };
    while (i < k) {
      std::string a, b; Out o; one(i, a, b, o);
      std::string sa, sb; std::vector<L> na, nb; mask(a, sa, na); mask(b, sb, nb);
      L q = 1;
      for (; i + q < k; ++q) {
        std::string a2, b2; Out o2; one(i + q, a2, b2, o2);
        std::string s; std::vector<L> v, want;
        mask(a2, s, v); want = na;
        // sub-second digits are the last number, seconds the one before
        if (sa.find('.') == std::string::npos) { if (!sec) break; want.back() += q; }
        else if (sec) want[want.size() - 2] += q;
        else { L w = 1; for (size_t p = sa.size() - sa.find('.') - 1; p > (F == 1000 ? 3u : 6u); --p) w *= 10; want.back() += q * w; }
        if (s != sa || v != want) break;
        mask(b2, s, v); want = nb; if (sec) want.back() += q;
        if (s != sb || v != want) break;
        auto wv = o.v; wv[sec ? 3 : 4] += q;
        if (o.kind != 1 || o2.kind != 1 || o2.v != wv) break;
      }
      J j("writerun");
      j.num("F", F).raw("n", tr::day(n)).raw("A", tr::amt(ticks + i * step, F)).num("del", del).str("unit", sec ? "s" : "u").num("k", q);
      j.raw("hmfs", tr::codes(a)).raw("hms", tr::codes(b)).raw("back", show(o));
      i += q;
    }
  });
}

static L month_of(const char* s) {
  try { return month{s}.as_underlying_type(); }
  catch (std::exception&) { return 0; }
  catch (...) { return -1; }
}

static void interpret(std::istream& in) {
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    is.imbue(std::locale::classic());
    std::string op; is >> op;
    if (op.empty()) continue;
    if (op == "chunk") { std::string id; is >> id; tr::chunk(id); ERR = 0; if (LOCALE) { std::locale::global(std::locale::classic()); LOCALE = false; } }
    else if (op == "locale") { std::string n; is >> n; set_locale(n); }
    else if (op == "errno") { is >> ERR; J j("errno"); j.num("v", ERR); }
    else if (op == "read") { std::string lay, h; L F; is >> lay >> F >> h; do_read(lay, F, unhex(h)); }
    else if (op == "secrun" || op == "fracrun") {
      std::string lay; L F, y, m, d, del, s, u = 0, k; is >> lay >> F >> y >> m >> d >> del >> s;
      if (op == "fracrun") is >> u;
      is >> k; run(lay, F, y, m, d, static_cast<char>(del), s, u, k, op == "secrun");
    }
    else if (op == "write") { L F, n, t; int del; is >> F >> n >> t >> del; do_write(F, n, t, del); }
    else if (op == "writerun") { L F, n, t, k; int del; std::string u; is >> F >> n >> t >> del >> u >> k; write_run(F, n, t, del, u == "s", k); }
    else if (op == "mon") { std::string h; is >> h; std::string t = unhex(h);
      std::unique_ptr<char[]> b(new char[t.size() + 1]); memcpy(b.get(), t.c_str(), t.size() + 1);
      L r = month_of(b.get()); J j("mon"); j.raw("t", tr::codes(t)).num("r", r); }
    else if (op == "mon3") { std::string h; is >> h; std::string cs = unhex(h); char b[4] = {0, 0, 0, 0}; std::string got = "["; L odd = 0;
      for (char x : cs) { tr::still_going(); for (char y : cs) for (char z : cs) { b[0] = x; b[1] = y; b[2] = z; L r = month_of(b);
        if (r < 0) ++odd;
        if (r > 0) { if (got.size() > 1) got += ","; got += tr::arr({(unsigned char)x, (unsigned char)y, (unsigned char)z, r}); } } }
      J j("mon3"); j.raw("chars", tr::codes(cs)).raw("got", got + "]").num("odd", odd); }
    else if (op == "names") { for (int m = 1; m <= 12; ++m) { J j("names"); j.num("m", m).raw("short", tr::codes(month{m}.short_name())).raw("long", tr::codes(month{m}.long_name())); } }
    else { std::cerr << "unknown command " << op << "\n"; _exit(4); }
  }
}

int main() {
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_set_death_callback(on_death);
#endif
  return tr::run_main(interpret);
}
