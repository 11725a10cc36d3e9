// Recording of traces: one chunk per line, {"id":...,"ev":[...]}.
// A crash, an abort or a hang inside the code under test ends the current
// chunk with an event of its own, which no specification action explains.
#ifndef VERIF_TRACE_HPP
#define VERIF_TRACE_HPP
#include <algorithm>
#include <array>
#include <climits>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <atomic>
#include <iostream>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

namespace tr {

inline std::string& buf() { static thread_local std::string b; return b; }
inline bool& open_() { static thread_local bool o = false; return o; }
inline bool& first_() { static thread_local bool f = true; return f; }
inline int& limit_() { static int s = 60; return s; }

inline std::mutex& out_() { static std::mutex m; return m; }
inline void flush_raw() {
  const char* p = buf().data(); size_t n = buf().size();
  while (n) { ssize_t k = ::write(1, p, n); if (k <= 0) _exit(3); p += k; n -= k; }
  buf().clear();
}
inline void on_fatal(int sig) {
  if (!limit_() && sig == SIGALRM) {         // some thread hangs
    buf() = "{\"id\":\"threads\",\"ev\":[{\"a\":\"hang\",\"sig\":14}]}\n"; flush_raw(); _exit(0);
  }
  if (open_()) {
    const char* what = sig == SIGALRM ? "hang" : "crash";
    if (!first_()) buf() += ",";
    char b[64]; snprintf(b, sizeof b, "{\"a\":\"%s\",\"sig\":%d}]}\n", what, sig);
    buf() += b;
    open_() = false;
    flush_raw();
    _exit(0);
  }
  _exit(3);
}
// the library ended the process by itself
inline void on_exit_() {
  if (!open_()) return;
  if (!first_()) buf() += ",";
  buf() += "{\"a\":\"exit\"}]}\n"; open_() = false;
  flush_raw();
  _exit(0);
}
inline void init() {
  buf().reserve(1 << 22);
  atexit(on_exit_);
  static char stack[1 << 16];                // a stack of its own: the other one may be exhausted
  stack_t st{}; st.ss_sp = stack; st.ss_size = sizeof stack; sigaltstack(&st, nullptr);
  struct sigaction sa{}; sa.sa_handler = on_fatal; sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGTRAP, SIGALRM}) sigaction(s, &sa, nullptr);
}
// races seen by the thread sanitizer
inline std::atomic<int>& races_() { static std::atomic<int> n{0}; return n; }
inline thread_local int races_here{0};
inline void end_chunk() {
  if (!open_()) return;
  if (races_here) { races_here = 0; if (!first_()) buf() += ","; buf() += "{\"a\":\"race\"}"; }
  if (limit_()) alarm(0);
  buf() += "]}\n"; open_() = false;
  if (limit_() && buf().size() > (1u << 20)) flush_raw();
}
inline void chunk(const std::string& id) {
  end_chunk();
  buf() += "{\"id\":\"" + id + "\",\"ev\":["; open_() = true; first_() = true;
  if (limit_()) alarm(limit_());
}
inline void still_going() { if (limit_() && open_()) alarm(limit_()); }     // a long command makes progress
inline void finish() { end_chunk(); flush_raw(); }

// f interprets a script.  With TR_THREADS=n in the environment, the chunks are
// dealt to n threads, which interpret them at the same time (every object of a
// driver belongs to one thread).
inline int run_main(void (*f)(std::istream&)) {
  init();
  const char* e = getenv("TR_THREADS");
  const int n = e ? atoi(e) : 1;
  if (n <= 1) { f(std::cin); finish(); return 0; }
  std::vector<std::string> part(n);
  std::string line; long k = -1;
  while (std::getline(std::cin, line)) { if (line.compare(0, 6, "chunk ") == 0) ++k; if (k >= 0) part[k % n] += line + "\n"; }
  limit_() = 0; alarm(300);
  std::atomic<int> ready{0};
  std::vector<std::thread> ts;
  for (int i = 0; i < n; ++i) ts.emplace_back([&, i] {
    std::istringstream is(part[i]);
    buf().reserve(1 << 22);
    ready++; while (ready < n) {}
    f(is);
    end_chunk();
    std::lock_guard<std::mutex> g(out_());
    flush_raw();
  });
  for (auto& t : ts) t.join();
  return 0;
}

// TLC's integers have 32 bits: what does not fit is not passed on as if it did
inline long clip(__int128 v) {
  const long M = 2147483646L;
  return v > M ? 2147483647L : v < -M ? -2147483647L : static_cast<long>(v);
}
inline long fdiv(long a, long b) { long q = a / b, r = a % b; return (r < 0) ? q - 1 : q; }
inline long fmod_(long a, long b) { long r = a % b; return r < 0 ? r + b : r; }

struct J {
  std::string s{"{"};
  bool first{true};
  void key(const char* k) { if (!first) s += ","; first = false; s += "\""; s += k; s += "\":"; }
  explicit J(const char* a) { str("a", a); }
  J& str(const char* k, const std::string& v) { key(k); s += "\"" + v + "\""; return *this; }
  J& num(const char* k, long v) { key(k); s += std::to_string(clip(v)); return *this; }
  J& boolean(const char* k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
  J& raw(const char* k, const std::string& v) { key(k); s += v; return *this; }
  ~J() {
    if (!first_()) buf() += ",";
    first_() = false;
    buf() += s; buf() += "}";
  }
};

template<class C> std::string arr(const C& c) {
  std::string s = "[";
  bool f = true;
  for (auto v : c) { if (!f) s += ","; f = false; s += std::to_string(clip(v)); }
  return s + "]";
}
inline std::string arr(std::initializer_list<long> c) { return arr(std::vector<long>(c)); }

// the distinct members of a list of already serialised values
struct Set {
  std::vector<std::string> v;
  void add(std::string x) { if (std::find(v.begin(), v.end(), x) == v.end()) v.push_back(std::move(x)); }
  std::string str() const {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += v[i]; }
    return s + "]";
  }
};

// day numbers travel as <quotient, remainder> by 146097
inline std::string day(long n) { return arr({fdiv(n, 146097L), fmod_(n, 146097L)}); }
// amounts travel as <days, seconds, ticks>, as C++ divides
inline std::string amt(long v, long F) {
  return arr({v / (86400L * F), (v / F) % 86400L, v % F});
}
// codes of the characters of a text
inline std::string codes(const std::string& t) {
  std::vector<long> v;
  for (unsigned char ch : t) v.push_back(ch);
  return arr(v);
}

} // namespace tr
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
extern "C" void __tsan_on_report(void*) { ++tr::races_here; ++tr::races_(); }
#endif
#endif
#endif
