// Drives the operators of the eleven fundamental types.
//   set TY i V                 constructor            lit TY i V     literal
//   op TY i OP I V             OP with an integer of C++ type I
//   opt TY i OP j              OP with register j     inc TY i OP
//   sum TY i j k plus|minus    cmp TY i j
#include "dtfund.hpp"
#include "trace.hpp"
#include <type_traits>
using namespace ngpt;
using tr::J;
using L = long;

static std::string limbs(__int128 v) {
  const __int128 B = 1000000000;
  auto fd = [&](__int128 a, __int128& r) { __int128 q = a / B; r = a % B; if (r < 0) { r += B; --q; } return q; };
  __int128 l, m; __int128 q = fd(v, l); __int128 h = fd(q, m);
  return tr::arr({static_cast<L>(h), static_cast<L>(m), static_cast<L>(l)});
}
static std::string six(bool a, bool b, bool c, bool d, bool e, bool f) {
  auto s = [](bool x) { return std::string(x ? "true" : "false"); };
  return "[" + s(a) + "," + s(b) + "," + s(c) + "," + s(d) + "," + s(e) + "," + s(f) + "]";
}
template<class T> struct Reg { static thread_local T r[3]; };
template<class T> thread_local T Reg<T>::r[3] = {T(0), T(0), T(0)};
template<class T> static std::string val(const T& x) { return limbs(x.as_underlying_type()); }

template<class F> static bool with_type(const std::string& t, F f) {
  if (t == "year") f(year{0}); else if (t == "month") f(month{0}); else if (t == "gps_week") f(gps_week{0});
  else if (t == "day_of_month") f(day_of_month{0}); else if (t == "day_of_year") f(day_of_year{0});
  else if (t == "modified_julian_day") f(modified_julian_day{0}); else if (t == "hours") f(hours{0}); else if (t == "minutes") f(minutes{0});
  else if (t == "seconds") f(seconds{0}); else if (t == "milliseconds") f(milliseconds{0}); else if (t == "microseconds") f(microseconds{0});
  else return false;
  return true;
}
template<class F> static void with_int(const std::string& t, __int128 v, F f) {
  if (t == "int") f(static_cast<int>(v)); else if (t == "long") f(static_cast<long>(v)); else if (t == "llong") f(static_cast<long long>(v));
  else if (t == "short") f(static_cast<short>(v)); else if (t == "schar") f(static_cast<signed char>(v)); else if (t == "char") f(static_cast<char>(v));
  else if (t == "uchar") f(static_cast<unsigned char>(v)); else if (t == "ushort") f(static_cast<unsigned short>(v));
  else if (t == "uint") f(static_cast<unsigned>(v)); else if (t == "ulong") f(static_cast<unsigned long>(v)); else if (t == "bool") f(static_cast<bool>(v));
  else { std::cerr << "bad integer type\n"; _exit(4); }
}
template<class T> constexpr bool has_assign = !std::is_same<T, month>::value;
template<class T> constexpr bool has_sum = std::is_same<T, modified_julian_day>::value || std::is_same<T, seconds>::value
  || std::is_same<T, milliseconds>::value || std::is_same<T, microseconds>::value;
template<class T> static T literal(unsigned long long v) {
  if constexpr (std::is_same<T, year>::value) return operator"" _Y(v);
  else if constexpr (std::is_same<T, month>::value) return operator"" _M(v);
  else if constexpr (std::is_same<T, day_of_month>::value) return operator"" _D(v);
  else if constexpr (std::is_same<T, hours>::value) return operator"" _h(v);
  else if constexpr (std::is_same<T, minutes>::value) return operator"" _m(v);
  else if constexpr (std::is_same<T, seconds>::value) return operator"" _sec(v);
  else if constexpr (std::is_same<T, milliseconds>::value) return operator"" _millisec(v);
  else if constexpr (std::is_same<T, microseconds>::value) return operator"" _microsec(v);
  else { std::cerr << "no literal\n"; _exit(4); }
}

struct Cmd { std::istringstream is; L n() { L v; if (!(is >> v)) { std::cerr << "script: number expected\n"; _exit(4); } return v; } std::string w() { std::string s; is >> s; return s; } };

static void interpret(std::istream& in) {
  std::string line;
  while (std::getline(in, line)) {
    Cmd c{std::istringstream(line)};
    std::string op = c.w();
    if (op.empty()) continue;
    if (op == "chunk") {
      tr::chunk(c.w());
      for (auto t : {"year", "month", "gps_week", "day_of_month", "day_of_year", "modified_julian_day", "hours", "minutes", "seconds", "milliseconds", "microseconds"})
        with_type(t, [&](auto x) { using T = decltype(x); for (auto& r : Reg<T>::r) r = T(0); });
      continue;
    }
    std::string ty = c.w(); int i = c.n();
    bool known = with_type(ty, [&](auto z) {
      using T = decltype(z); using U = typename T::underlying_type;
      T& x = Reg<T>::r[i];
      auto emit = [&](const std::string& o, int j, const std::string& v, const std::string& ret, bool same) {
        J e("wop"); e.str("ty", ty).num("i", i).str("op", o).num("j", j).raw("v", v).raw("post", val(x)).raw("ret", ret).boolean("same", same);
        e.raw("other", j < 0 ? std::string("[0,0,0]") : val(Reg<T>::r[j]));
      };
      if (op == "set") { L v = c.n(); x = T(static_cast<U>(v)); J e("wset"); e.str("ty", ty).num("i", i).raw("v", limbs(v)).raw("post", val(x)); }
      else if (op == "lit") { L v = c.n(); x = literal<T>(static_cast<unsigned long long>(v)); J e("wset"); e.str("ty", ty).num("i", i).raw("v", limbs(v)).raw("post", val(x)); }
      else if (op == "def") {           // what a bare declaration gives, and the extremes where there are any
        { T d; x = d; T e{}; J j("wdef"); j.str("ty", ty).num("i", i).raw("post", val(x)).raw("again", val(e)); }
        if constexpr (std::is_same<T, modified_julian_day>::value) {
          J j("wlim"); j.raw("v", "[" + val(T::max()) + "," + val(T::min()) + "]"); }
      }
      else if (op == "valid") {
        if constexpr (std::is_same<T, gps_week>::value) { J j("wvalid"); j.num("i", i).boolean("ok", x.is_valid()); }
        else { std::cerr << "no is_valid\n"; _exit(4); }
      }
      else if (op == "op") {
        std::string o = c.w(), I = c.w(), vs = c.w();
        bool ul = I == "ulong";
        __int128 v = ul ? static_cast<__int128>(std::stoull(vs)) : static_cast<__int128>(std::stoll(vs));
        with_int(I, v, [&](auto k) {
          if (static_cast<__int128>(k) != v) { std::cerr << "script: operand does not fit\n"; _exit(4); }
          if (o == "assign") { if constexpr (has_assign<T>) { auto& y = (x = k); emit(o, -1, limbs(v), val(y), &y == &x); } else { std::cerr << "no assign\n"; _exit(4); } }
          else if (o == "plus=") { auto&& y = (x += k); emit(o, -1, limbs(v), val(y), &y == &x); }
          else if (o == "minus=") { auto&& y = (x -= k); emit(o, -1, limbs(v), val(y), &y == &x); }
          else { std::cerr << "bad op\n"; _exit(4); }
        });
      }
      else if (op == "opt") {
        std::string o = c.w(); int j = c.n(); T& w = Reg<T>::r[j];
        if (o == "assign") { auto& y = (x = w); emit(o, j, "[0,0,0]", val(y), &y == &x); }
        else if (o == "plus=") { auto&& y = (x += w); emit(o, j, "[0,0,0]", val(y), &y == &x); }
        else if (o == "minus=") { auto&& y = (x -= w); emit(o, j, "[0,0,0]", val(y), &y == &x); }
        else { std::cerr << "bad op\n"; _exit(4); }
      }
      else if (op == "inc") {
        std::string o = c.w();
        if (o == "++x") { auto&& y = ++x; emit(o, -1, "[0,0,0]", val(y), &y == &x); }
        else if (o == "--x") { auto&& y = --x; emit(o, -1, "[0,0,0]", val(y), &y == &x); }
        else if (o == "x++") { auto y = x++; emit(o, -1, "[0,0,0]", val(y), false); }
        else if (o == "x--") { auto y = x--; emit(o, -1, "[0,0,0]", val(y), false); }
        else { std::cerr << "bad op\n"; _exit(4); }
      }
      else if (op == "sum") {
        int j = c.n(), k = c.n(); std::string o = c.w();
        if constexpr (has_sum<T>) {
          T& w = Reg<T>::r[j];
          T y = o == "plus" ? x + w : x - w;
          { J e("wsum"); e.str("ty", ty).num("i", i).num("j", j).num("k", k).str("op", o).raw("ret", val(y)).raw("left", val(x)).raw("right", val(w)); }
          Reg<T>::r[k] = y;
        } else { std::cerr << "no sum\n"; _exit(4); }
      }
      else if (op == "cmp") {
        int j = c.n(); const T a = x, b = Reg<T>::r[j];
        J e("wcmp"); e.str("ty", ty).num("i", i).num("j", j).raw("o", six(a == b, a != b, a < b, a <= b, a > b, a >= b));
      }
      else { std::cerr << "unknown command " << op << "\n"; _exit(4); }
    });
    if (!known) { std::cerr << "unknown type " << ty << "\n"; _exit(4); }
  }
}

int main() {
  return tr::run_main(interpret);
}
