// Interprets scripts of date-time operations and records every result.
// Registers r,r2: 0..7 (date-times); i,j: 0..3 (intervals).  F,T: ticks per second.
#include "dtfund.hpp"
#include "dtcalendar.hpp"
#include "trace.hpp"
#include <functional>
#include <type_traits>
#include <variant>
using namespace ngpt;
using tr::J; using tr::Set;
using L = long;

using DT = std::variant<datetime<seconds>, datetime<milliseconds>, datetime<microseconds>>;
using IV = std::variant<datetime_interval<seconds>, datetime_interval<milliseconds>, datetime_interval<microseconds>>;
static thread_local DT R[8]; static thread_local IV I[4];
template<class S> constexpr L fac = S::template sec_factor<L>();

template<class F> static void with_res(L f, F g) {
  if (f == 1) g(seconds{}); else if (f == 1000) g(milliseconds{}); else if (f == 1000000) g(microseconds{});
  else { std::cerr << "bad resolution " << f << "\n"; _exit(4); }
}
template<class S> static std::string post(const datetime<S>& d) {
  L v = d.sec_as_i(), F = fac<S>;
  if (d.sec().as_underlying_type() != v) v = LONG_MIN;
  return tr::arr({d.mjd().as_underlying_type(), v / (86400L * F), (v / F) % 86400L, v % F});
}
template<class S> static std::string post(const datetime_interval<S>& d) {
  L v = d.sec().as_underlying_type(), F = fac<S>;
  return tr::arr({d.days().as_underlying_type(), v / (86400L * F), (v / F) % 86400L, v % F});
}
// objects all threads read: SH[r] says that register r is one of them
template<class S> struct Shared { static const std::array<datetime<S>, 16> g; };
template<class S> static datetime<S> shared_value(L k) { return datetime<S>(modified_julian_day{44300 + k * 1237}, S{(86399L - k * 4919L) * fac<S> + (fac<S> - 1) * (k % 2)}); }
template<class S, size_t... K> static std::array<datetime<S>, sizeof...(K)> shared_all(std::index_sequence<K...>) { return {{shared_value<S>(static_cast<L>(K))...}}; }
template<class S> const std::array<datetime<S>, 16> Shared<S>::g = shared_all<S>(std::make_index_sequence<16>());
static thread_local int SH[8] = {-1, -1, -1, -1, -1, -1, -1, -1};
template<class D> static const D& see(int r, const D& d) { return SH[r] < 0 ? d : Shared<typename D::sec_type>::g[SH[r]]; }
template<class S> static void note(J& j, int r, const datetime<S>& d) { R[r] = d; SH[r] = -1; j.raw("post", post(d)); }

template<class A, class B> constexpr bool same = std::is_same<A, B>::value;
template<class S, class T> constexpr bool finer_or_same = (fac<T> >= fac<S>);

static std::string six(bool a, bool b, bool c, bool d, bool e, bool f) {
  auto s = [](bool x) { return std::string(x ? "true" : "false"); };
  return "[" + s(a) + "," + s(b) + "," + s(c) + "," + s(d) + "," + s(e) + "," + s(f) + "]";
}

struct Cmd { std::istringstream is; L n() { L v; if (!(is >> v)) { std::cerr << "script: number expected\n"; _exit(4); } return v; } std::string w() { std::string s; is >> s; return s; } };

// decimal seconds from whole seconds and nanoseconds, as a reader would have them
static double dec(L sec, L ns) { char b[64]; snprintf(b, sizeof b, "%ld.%09ld", sec, ns); return strtod(b, nullptr); }

static void make(Cmd& c) {
  int r = c.n(); L F = c.n(); std::string form = c.w();
  with_res(F, [&](auto s0) {
    using S = decltype(s0);
    auto head = [&](J& j, const char* dk, std::initializer_list<L> dv, L h, L mi, L T, const std::string& A) {
      j.num("r", r).num("F", F).str("form", form).str("dk", dk).raw("dv", tr::arr(dv)).num("h", h).num("mi", mi).num("T", T).raw("A", A);
    };
    if (form == "def") { J j("mk0"); j.num("r", r).num("F", F); note(j, r, datetime<S>()); }
    else if (form == "mjd") { L n = c.n(), a = c.n(); J j("mk"); head(j, "mjd", {n}, 0, 0, F, tr::amt(a, F)); note(j, r, datetime<S>(modified_julian_day{n}, S{a})); }
    else if (form == "mjdh") { L n = c.n(), h = c.n(), m = c.n(), a = c.n(); J j("mk"); head(j, "mjd", {n}, h, m, F, tr::amt(a, F));
      note(j, r, datetime<S>(modified_julian_day{n}, hours(h), minutes(m), S{a})); }
    else if (form == "gps") { L w = c.n(), a = c.n(); J j("mk"); head(j, "gps", {w}, 0, 0, F, tr::amt(a, F)); note(j, r, datetime<S>(gps_week{w}, S{a})); }
    else if (form == "ymd0" || form == "ymdh0") { L y = c.n(), m = c.n(), d = c.n(), h = form == "ymdh0" ? c.n() : 0; J j("mk"); head(j, "ymd", {y, m, d}, h, 0, F, "[0,0,0]");
      if (form == "ymd0") note(j, r, datetime<S>(year(y), month(m), day_of_month(d)));
      else note(j, r, datetime<S>(year(y), month(m), day_of_month(d), hours(h))); }
    else if (form == "ymdm0") { L y = c.n(), m = c.n(), d = c.n(), h = c.n(), mi = c.n(); J j("mk"); head(j, "ymd", {y, m, d}, h, mi, F, "[0,0,0]");
      note(j, r, datetime<S>(year(y), month(m), day_of_month(d), hours(h), minutes(mi))); }
    else if (form == "ydoym0") { L y = c.n(), k = c.n(), h = c.n(), mi = c.n(); J j("mk"); head(j, "ydoy", {y, k}, h, mi, F, "[0,0,0]");
      note(j, r, datetime<S>(year(y), day_of_year(k), hours(h), minutes(mi))); }
    else if (form == "mjdh0" || form == "mjdm0") { L n = c.n(), h = c.n(), mi = form == "mjdm0" ? c.n() : 0; J j("mk"); head(j, "mjd", {n}, h, mi, F, "[0,0,0]");
      if (form == "mjdh0") note(j, r, datetime<S>(modified_julian_day{n}, hours(h)));
      else note(j, r, datetime<S>(modified_julian_day{n}, hours(h), minutes(mi))); }
    else if (form == "ydoy0" || form == "ydoyh0") { L y = c.n(), k = c.n(), h = form == "ydoyh0" ? c.n() : 0; J j("mk"); head(j, "ydoy", {y, k}, h, 0, F, "[0,0,0]");
      if (form == "ydoy0") note(j, r, datetime<S>(year(y), day_of_year(k)));
      else note(j, r, datetime<S>(year(y), day_of_year(k), hours(h))); }
    else if (form == "ymdf" || form == "ydoyf") {
      L y = c.n(), m = c.n(), d = form == "ymdf" ? c.n() : 0, h = c.n(), mi = c.n(), sec = c.n(), ns = c.n();
      J j("mk");
      std::string A = tr::arr({sec / 86400L, sec % 86400L, ns});
      if (form == "ymdf") { head(j, "ymd", {y, m, d}, h, mi, 1000000000L, A);
        note(j, r, datetime<S>(year(y), month(m), day_of_month(d), hours(h), minutes(mi), dec(sec, ns))); }
      else { head(j, "ydoy", {y, m}, h, mi, 1000000000L, A);
        note(j, r, datetime<S>(year(y), day_of_year(m), hours(h), minutes(mi), dec(sec, ns))); }
    } else {
      bool cal = form.compare(0, 3, "ymd") == 0, hms = form.back() == 'h';
      L y = c.n(), m = c.n(), d = cal ? c.n() : 0, h = hms ? c.n() : 0, mi = hms ? c.n() : 0, T = c.n(), a = c.n();
      with_res(T, [&](auto t0) {
        using T_ = decltype(t0);
        if constexpr (finer_or_same<S, T_>) {
          T_ t{a};
          J j("mk");
          if (cal) head(j, "ymd", {y, m, d}, h, mi, T, tr::amt(a, T)); else head(j, "ydoy", {y, m}, h, mi, T, tr::amt(a, T));
          if (cal && hms) note(j, r, datetime<S>(year(y), month(m), day_of_month(d), hours(h), minutes(mi), t));
          else if (cal) note(j, r, datetime<S>(year(y), month(m), day_of_month(d), t));
          else if (hms) note(j, r, datetime<S>(year(y), day_of_year(m), hours(h), minutes(mi), t));
          else note(j, r, datetime<S>(year(y), day_of_year(m), t));
        } else { std::cerr << "script: amount coarser than the date-time\n"; _exit(4); }
      });
    }
  });
}

template<class S, class T> static void do_add(datetime<S>& d, L sgn, T t) {
  if (sgn == 1) d.add_seconds(t); else d.remove_seconds(t);
}

static void interpret(std::istream& in) {
  std::string line;
  while (std::getline(in, line)) {
    Cmd c{std::istringstream(line)};
    std::string op = c.w();
    if (op.empty()) continue;
    if (op == "chunk") {
      tr::chunk(c.w());
      for (auto& r : R) r = datetime<seconds>();
      for (auto& k : SH) k = -1;
      for (auto& i : I) i = datetime_interval<seconds>();
    }
    else if (op == "mk") make(c);
    else if (op == "share") {         // share r F k: register r becomes the k-th shared object
      int r = c.n(); L F = c.n(), k = c.n();
      with_res(F, [&](auto s0) { using S = decltype(s0); const auto& d = Shared<S>::g.at(k);
        J j("mk"); j.num("r", r).num("F", F).str("form", "share").str("dk", "mjd").raw("dv", tr::arr({44300 + k * 1237})).num("h", 0).num("mi", 0).num("T", F);
        j.raw("A", tr::amt((86399L - k * 4919L) * F + (F - 1) * (k % 2), F)); note(j, r, d); SH[r] = static_cast<int>(k); });
    }
    else if (op == "add") {           // add r sgn T A
      int r = c.n(); L sgn = c.n(), T = c.n(), a = c.n();
      J j("add"); j.num("r", r).num("sgn", sgn).num("T", T).raw("A", tr::amt(a, T));
      with_res(T, [&](auto t0) { std::visit([&](auto& d) { do_add(d, sgn, decltype(t0){a}); SH[r] = -1; j.raw("post", post(d)); }, R[r]); });
    }
    else if (op == "addrun") {        // addrun r sgn T A count
      int r = c.n(); L sgn = c.n(), T = c.n(), a = c.n(), cnt = c.n();
      with_res(T, [&](auto t0) { std::visit([&](auto& d) {
        using D = std::decay_t<decltype(d)>; using S = typename D::sec_type; const L F = fac<S>;
        auto split = [&](const D& x) { L v = x.sec_as_i(); return std::array<L, 4>{x.mjd().as_underlying_type(), v / (86400L * F), (v / F) % 86400L, v % F}; };
        SH[r] = -1;
        auto prev = split(d); std::array<L, 4> step{}; L k = 0;
        auto out = [&](const D& x) { J j("addrun"); j.num("r", r).num("sgn", sgn).num("T", T).raw("A", tr::amt(a, T)).num("k", k).raw("step", tr::arr(step)).raw("post", post(x)); };
        D before = d;
        for (L q = 0; q < cnt; ++q) {
          before = d;
          do_add(d, sgn, decltype(t0){a});
          auto now = split(d); std::array<L, 4> st;
          for (int z = 0; z < 4; ++z) st[z] = now[z] - prev[z];
          if (k && st != step) { out(before); k = 0; }
          step = st; ++k; prev = now;
        }
        if (k) out(d);
      }, R[r]); });
    }
    else if (op == "addd") {          // addd r r2 days T A
      int r = c.n(), r2 = c.n(); L days = c.n(), T = c.n(), a = c.n();
      with_res(T, [&](auto t0) { std::visit([&](auto d) {
        using S = typename decltype(d)::sec_type; using T_ = decltype(t0);
        if constexpr (finer_or_same<S, T_>) {
          J j("addd"); j.num("r", r).num("r2", r2).num("days", days).num("T", T).raw("A", tr::amt(a, T));
          note(j, r2, a ? d.add(modified_julian_day{days}, T_{a}) : d.template add<T_>(modified_julian_day{days}));
        } else { std::cerr << "script: add() of a coarser amount\n"; _exit(4); }
      }, R[r]); });
    }
    else if (op == "addi") {          // addi r i
      int r = c.n(), i = c.n();
      std::visit([&](auto& d) { using S = typename std::decay_t<decltype(d)>::sec_type;
        d += std::get<datetime_interval<S>>(I[i]); SH[r] = -1;
        J j("addi"); j.num("r", r).num("i", i).raw("post", post(d)); }, R[r]);
    }
    else if (op == "cast") {          // cast r r2 F
      int r = c.n(), r2 = c.n(); L F = c.n();
      with_res(F, [&](auto t0) { std::visit([&](auto d) {
        J j("cast"); j.num("r", r).num("r2", r2).num("F", F);
        note(j, r2, d.template cast_to<decltype(t0)>()); }, R[r]); });
    }
    else if (op == "cmp") {
      int r = c.n(), r2 = c.n();
      std::visit([&](auto a) { auto b = std::get<decltype(a)>(R[r2]);
        J j("cmp"); j.num("r", r).num("r2", r2).raw("o", six(a == b, a != b, a < b, a <= b, a > b, a >= b)); }, R[r]);
    }
    else if (op == "lim") {           // against the extreme values
      int r = c.n();
      std::visit([&](auto a) { using D = decltype(a);
        auto both = [&](D b) { return six(a == b, a != b, a < b, a <= b, a > b, a >= b); };
        auto day = [&](modified_julian_day b) { auto n = a.mjd(); return six(n == b, n != b, n < b, n <= b, n > b, n >= b); };
        J j("lim"); j.num("r", r).raw("hi", both(D::max())).raw("lo", both(D::min()));
        j.raw("dhi", day(modified_julian_day::max())).raw("dlo", day(modified_julian_day::min())); }, R[r]);
    }
    else if (op == "sort") {          // sort n r...
      L n = c.n(); std::vector<L> rs; for (L q = 0; q < n; ++q) rs.push_back(c.n());
      std::visit([&](auto a) {
        std::vector<decltype(a)> v; for (L r : rs) v.push_back(std::get<decltype(a)>(R[r]));
        std::sort(v.begin(), v.end());
        J j("sort"); std::string s = "["; for (size_t q = 0; q < v.size(); ++q) s += (q ? "," : "") + post(v[q]);
        j.raw("rs", tr::arr(rs)).raw("post", s + "]"); }, R[rs[0]]);
    }
    else if (op == "dsec") {
      int r = c.n(), r2 = c.n();
      std::visit([&](auto a, auto b) {
        auto d = delta_sec(a, b); constexpr L G = fac<decltype(d)>;
        Set o; o.add(tr::amt(d.as_underlying_type(), G));
        if constexpr (same<decltype(a), decltype(b)>) o.add(tr::amt(a.delta_sec(b).as_underlying_type(), G));
        J j("dsec"); j.num("r", r).num("r2", r2).num("G", G).raw("o", o.str()); }, R[r], R[r2]);
    }
    else if (op == "dmjd") {
      int r = c.n(), r2 = c.n();
      std::visit([&](auto a, auto b) {
        Set o;
        auto one = [&](auto d) { constexpr L G = fac<decltype(d)>; L v = d.as_underlying_type(); o.add(tr::arr({G, v / (86400L * G), (v / G) % 86400L, v % G})); };
        one(mjd_sec_diff<seconds>(a.mjd(), b.mjd())); one(mjd_sec_diff<milliseconds>(a.mjd(), b.mjd())); one(mjd_sec_diff<microseconds>(a.mjd(), b.mjd()));
        J j("dmjd"); j.num("r", r).num("r2", r2).raw("o", o.str()); }, R[r], R[r2]);
    }
    else if (op == "ddate") {         // ddate r r2 i form
      int r = c.n(), r2 = c.n(), i = c.n(); L form = c.n();
      std::visit([&](auto a) { auto b = std::get<decltype(a)>(R[r2]);
        auto d = form ? delta_date(a, b) : a.delta_date(b);
        I[i] = d; J j("ddate"); j.num("r", r).num("r2", r2).num("i", i).raw("post", post(d)); }, R[r]);
    }
    else if (op == "gps") {
      int r = c.n();
      std::visit([&](const auto& d_) { const auto& d = see(r, d_); using S = typename std::decay_t<decltype(d)>::sec_type;
        L a; S b; auto w1 = d.as_gps_wsow(a); auto w2 = d.as_gps_wsow(b);
        Set w, dw; w.add(std::to_string(tr::clip(w1.as_underlying_type()))); w.add(std::to_string(tr::clip(w2.as_underlying_type())));
        dw.add(std::to_string(day_of_week(seconds{a}))); dw.add(std::to_string(day_of_week(b)));
        J j("gps"); j.num("r", r).raw("week", w.str()).raw("sow", tr::amt(a, 1)).raw("tow", tr::amt(b.as_underlying_type(), fac<S>)).raw("dow", dw.str());
        j.raw("back", post(datetime<S>(w2, b))); }, R[r]);
    }
    else if (op == "tai") {
      int r = c.n();
      std::visit([&](const auto& d_) { const auto& d = see(r, d_); Set s; s.add(std::to_string(dat(d))); s.add(std::to_string(dat(d.mjd())));
        auto e = d.as_ymd(); s.add(std::to_string(dat(e.__year, e.__month)));
        J j("tai"); j.num("r", r).raw("tai", s.str()); }, R[r]);
    }
    else if (op == "obs") {
      int r = c.n();
      std::visit([&](const auto& d_) { const auto& d = see(r, d_); 
        const bool cal = d.mjd().as_underlying_type() >= -2432045;      // what the calendar conversions are for
        auto e = cal ? d.as_ymd() : ymd_date{}; auto y = cal ? d.as_ydoy() : ydoy_date{}; auto h = d.as_hmsf();
        J j("obs"); j.num("r", r);
        j.raw("ymd", tr::arr({e.__year.as_underlying_type(), e.__month.as_underlying_type(), e.__dom.as_underlying_type()}));
        j.raw("ydoy", tr::arr({y.__year.as_underlying_type(), y.__doy.as_underlying_type()}));
        j.raw("hms", tr::arr({std::get<0>(h).as_underlying_type(), std::get<1>(h).as_underlying_type(), std::get<2>(h).as_underlying_type(), std::get<3>(h)}));
        j.raw("post", post(d)); }, R[r]);
    }
    else if (op == "imk") {           // imk i F n A
      int i = c.n(); L F = c.n(), n = c.n(), a = c.n();
      with_res(F, [&](auto s0) { using S = decltype(s0); datetime_interval<S> d(modified_julian_day{n}, S{a}); I[i] = d;
        J j("imk"); j.num("i", i).num("F", F).num("n", n).raw("A", tr::amt(a, F)).raw("post", post(d)); });
    }
    else if (op == "imk0") {
      int i = c.n(); L F = c.n();
      with_res(F, [&](auto s0) { datetime_interval<decltype(s0)> d; I[i] = d; J j("imk0"); j.num("i", i).num("F", F).raw("post", post(d)); });
    }
    else if (op == "idiv") {          // idiv i j k
      int i = c.n(), q = c.n(); L k = c.n();
      std::visit([&](auto d) { auto e = d / static_cast<int>(k); I[q] = e; J j("idiv"); j.num("i", i).num("j", q).num("k", k).raw("post", post(e)); }, I[i]);
    }
    else if (op == "icmp") {
      int i = c.n(), q = c.n();
      std::visit([&](auto a) { auto b = std::get<decltype(a)>(I[q]);
        J j("icmp"); j.num("i", i).num("j", q).raw("o", six(a == b, a != b, a < b, a <= b, a > b, a >= b)); }, I[i]);
    }
    else { std::cerr << "unknown command " << op << "\n"; _exit(4); }
  }
}

int main() {
  return tr::run_main(interpret);
}
