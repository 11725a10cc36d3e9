From 3ab265e0fe13420e312b6165bac7569962cbc43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:54 +0000
Subject: [PATCH 01/21] fix: day-of-year conversions outside 1901-2099

ydoy2mjd and modified_julian_day::to_ydoy counted leap years as every fourth
year from 1901 on, with C++ truncating division. They were wrong for every
year before 1901 and from 1 March 2100 on (e.g. year 1900 doy 1, year 2101
doy 1), and disagreed with cal2mjd / to_ymd. Use the Gregorian conversions
that are already there.
---
 src/dtfund.cpp | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/dtfund.cpp b/src/dtfund.cpp
index 1e84911..9943a49 100644
--- a/src/dtfund.cpp
+++ b/src/dtfund.cpp
@@ -164,19 +164,7 @@ ngpt::day_of_month::is_valid(ngpt::year y, ngpt::month m) const noexcept
 ngpt::ydoy_date
 ngpt::modified_julian_day::to_ydoy() const noexcept
 {
-  long days_fr_jan1_1901 { m_mjd - ngpt::jan11901 };
-  long num_four_yrs      { days_fr_jan1_1901/1461L };
-  long years_so_far      { 1901L + 4*num_four_yrs };
-  long days_left         { days_fr_jan1_1901 - 1461*num_four_yrs };
-  long delta_yrs         { days_left/365 - days_left/1460 };
-  
-  ydoy_date ydoy;
-  ydoy.__doy = day_of_year{static_cast<day_of_year::underlying_type>
-              (days_left-365*delta_yrs+1)};
-  ydoy.__year= year{static_cast<year::underlying_type>
-              (years_so_far + delta_yrs)};
-
-  return ydoy;
+  return this->to_ymd().to_ydoy();
 }
 
 ///
@@ -214,11 +202,10 @@ ngpt::modified_julian_day::to_ymd() const noexcept
 ngpt::modified_julian_day
 ngpt::ydoy2mjd(ngpt::year yr, ngpt::day_of_year doy) noexcept
 {
-    long iyr {static_cast<long>(yr.as_underlying_type())};
     long idy {static_cast<long>(doy.as_underlying_type())};
 
-    return modified_julian_day {((iyr-1901)/4)*1461 + ((iyr-1901)%4)*365 +
-        idy - 1 + ngpt::jan11901};
+    return modified_julian_day {ngpt::cal2mjd(yr.as_underlying_type(), 1, 1)
+        + idy - 1};
 }
 
 /// 
-- 
2.43.0


From a3d7751769b09c643a81725f92a0c6ee7eb5ec80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:54 +0000
Subject: [PATCH 02/21] fix: debug assertion in ydoy_date::to_ymd fires for
 valid days

For day of year 344 and later (10 December on) the month guess is 11, which
is a valid index, but the DEBUG assertion wanted it below 11 and aborted.
---
 src/dtfund.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dtfund.cpp b/src/dtfund.cpp
index 9943a49..a009488 100644
--- a/src/dtfund.cpp
+++ b/src/dtfund.cpp
@@ -231,7 +231,7 @@ ngpt::ydoy_date::to_ymd() const noexcept
   int guess = __doy.as_underlying_type() * 0.032;
   int leap = __year.is_leap();
 #ifdef DEBUG
-  assert( guess >= 0 && guess < 11 );
+  assert( guess >= 0 && guess < 12 );
 #endif
   int more = (( __doy.as_underlying_type() - month_day[leap][guess+1] ) > 0);
   yd.__month = month{guess + more + 1};
-- 
2.43.0


From 168968c8692f73a7c8778986e25921cf76c61f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:54 +0000
Subject: [PATCH 03/21] fix: cal2mjd(int, int, int) could not be linked by
 users

It was declared constexpr (hence inline) in the header but defined in the
source file, so any use outside dtfund.cpp was an undefined reference.
---
 src/dtfund.cpp | 2 +-
 src/dtfund.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dtfund.cpp b/src/dtfund.cpp
index a009488..db899d1 100644
--- a/src/dtfund.cpp
+++ b/src/dtfund.cpp
@@ -33,7 +33,7 @@ constexpr static long month_day[2][13] = {
 /// exception is thrown if it is invalid.
 ///
 /// @note The algorithm used is valid from -4800 March 1
-constexpr long
+long
 ngpt::cal2mjd(int iy, int im, int id)
 {
   // Month lengths in days
diff --git a/src/dtfund.hpp b/src/dtfund.hpp
index 8c58f2f..99f5fdb 100644
--- a/src/dtfund.hpp
+++ b/src/dtfund.hpp
@@ -95,7 +95,7 @@ class  microseconds;
 /// @see ngpt::cal2mjd
 ///
 /// Reference: iauCal2jd
-constexpr long
+long
 cal2mjd(int iy, int im, int id);
 
 /// @brief Check if year is leap.
-- 
2.43.0


From e75553aa0d484bd9533a1ad0bf75786ae9aaa6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:31 +0000
Subject: [PATCH 04/21] fix: building a datetime from an invalid calendar date
 ends the process

The constructors taking year, month and day of month call cal2mjd, which
throws std::out_of_range for a date that does not exist, but were declared
noexcept: std::terminate was called, e.g. for strptime_ymd("2015-02-30").
---
 src/dtcalendar.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index 39bf625..0c1407f 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -264,7 +264,7 @@ public:
     
   /// Constructor from year, month, day of month and sec type.
   explicit constexpr
-  datetime(year y, month m, day_of_month d, S s) noexcept
+  datetime(year y, month m, day_of_month d, S s)
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{s}
   {
@@ -285,7 +285,7 @@ public:
                 std::is_same<S, decltype(static_cast<S>(T{}))>::value, bool>
                >
   explicit
-  datetime(year y, month m, day_of_month d, T t) noexcept
+  datetime(year y, month m, day_of_month d, T t)
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{S(t)}
   {
@@ -316,7 +316,6 @@ public:
                >
   explicit
   datetime(year y, month m, day_of_month d, hours hr, minutes mn, T sec)
-  noexcept
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{hr, mn, S(sec)}
   {
@@ -341,7 +340,6 @@ public:
   /// Constructor from year, month, day of month and fractional seconds.
   explicit
   datetime(year y, month m, day_of_month d, hours hr, minutes mn, double fsecs)
-  noexcept
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{hr, mn, fsecs}
   {
@@ -361,7 +359,7 @@ public:
   /// second type S.
   explicit
   datetime(year y, month m, day_of_month d, hours hr=hours(),
-           minutes mn=minutes(), S sec=S()) noexcept
+           minutes mn=minutes(), S sec=S())
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{hr, mn, sec}
   {
-- 
2.43.0


From 94d1a356e94486c371845d2ba27de592d1a311cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:31 +0000
Subject: [PATCH 05/21] fix: datetime from GPS week left negative seconds of
 week unnormalized

datetime<seconds>(gps_week(10), seconds(-5)) held -5 as time of day, unlike
all the other constructors, so that comparisons with it were wrong.
---
 src/dtcalendar.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index 0c1407f..b45f876 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -401,11 +401,10 @@ public:
   explicit
   datetime(gps_week w, S sow) noexcept
     : m_mjd{w.as_underlying_type()*7
-           +sow.as_underlying_type()/S::max_in_day
            +jan61980},
     m_sec{sow}
   {
-    m_sec.remove_days();
+    this->normalize();
   }
 
   /// Get the Modified Julian Day (const).
-- 
2.43.0


From cdd50453adbb8377432dfdceec7712449dbc8cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:31 +0000
Subject: [PATCH 06/21] fix: fractional seconds lose a tick when converted to
 milli/microseconds

milliseconds(hours, minutes, double) and its microseconds counterpart
truncated fs*factor, which for many decimal fractions is just below the
integer: 1.001 seconds became 1000 milliseconds, and reading 0.6% of all
millisecond and 1.2% of all microsecond texts was one tick off.
---
 src/dtfund.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/dtfund.hpp b/src/dtfund.hpp
index 99f5fdb..e3fb0fa 100644
--- a/src/dtfund.hpp
+++ b/src/dtfund.hpp
@@ -1273,6 +1273,18 @@ private:
 
 }; // class seconds
 
+/// @brief Number of whole ticks, of 1/factor seconds each, in fs seconds.
+///
+/// The product fs*factor may fall just short of an integer even when fs is the
+/// double closest to a whole number of ticks (e.g. 1.001*1000 is 1000.99...),
+/// hence see if the next tick is not already reached.
+constexpr long
+__sec_to_ticks__(double fs, double factor) noexcept
+{
+  long ticks { static_cast<long>(fs * factor) };
+  return (static_cast<double>(ticks+1) / factor <= fs) ? ticks+1 : ticks;
+}
+
 /// @brief A wrapper class for milliseconds (i.e. 10**-3 sec).
 /// 
 /// milliseconds is just a wrapper class around long integer numbers, i.e. a
@@ -1361,7 +1373,7 @@ public:
   /// the fs input argument).
   explicit constexpr
   milliseconds(hours h, minutes m, double fs) noexcept
-    : m_sec{ static_cast<underlying_type>(fs * sec_factor<double>())
+    : m_sec{ __sec_to_ticks__(fs, sec_factor<double>())
              + (m.as_underlying_type()*60L + h.as_underlying_type()*3600L)
              * sec_factor<underlying_type>()}
   {
@@ -1601,7 +1613,7 @@ public:
   ///       up to 10e-6.
   explicit constexpr
   microseconds(hours h, minutes m, double fs) noexcept
-    : m_sec{ static_cast<underlying_type>(fs * sec_factor<double>())
+    : m_sec{ __sec_to_ticks__(fs, sec_factor<double>())
             + (m.as_underlying_type()*60L
             + h.as_underlying_type()*3600L) * sec_factor<underlying_type>() }
   {};
-- 
2.43.0


From 8766dc5aaf883fc10508e3cf7e5011760c3edb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:31 +0000
Subject: [PATCH 07/21] fix: cast_to<microseconds, milliseconds> overflows
 within documented range

The amount was multiplied by 1000 before being divided by 1000000, which
overflows above 9.2e15 microseconds (292 years) although max_days_allowed
documents 106751991 days as representable.
---
 src/dtfund.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dtfund.hpp b/src/dtfund.hpp
index e3fb0fa..ac3b2a2 100644
--- a/src/dtfund.hpp
+++ b/src/dtfund.hpp
@@ -2110,8 +2110,13 @@ template<typename Ssrc,
   // seconds _s1 = cast_to<milliseconds, seconds>(milliseconds{2000L});
   // this is: (1/1000)*2000 which is 0 because 1/1000 is 0, but
   // (2000*1)/1000 = 2 which is correct
-  auto numerator { s.__member_ref__() * Strg::template sec_factor<long>() };
-  return Strg {numerator / Ssrc::template sec_factor<long>()};
+  // when casting to less precission, do not multiply at all; the numerator
+  // could overflow (e.g. microseconds to milliseconds for more than 292 years)
+  constexpr long src { Ssrc::template sec_factor<long>() };
+  constexpr long trg { Strg::template sec_factor<long>() };
+  if constexpr (src > trg) return Strg {s.__member_ref__() / (src / trg)};
+  auto numerator { s.__member_ref__() * trg };
+  return Strg {numerator / src};
 }
 
 /// For user-defined literals, i am going to replace long with
-- 
2.43.0


From 47d076fe65a044a8f90430bf2e14470d87289e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:31 +0000
Subject: [PATCH 08/21] fix: dividing a datetime_interval loses ticks to
 rounding

The days' fraction was computed in double precision and truncated, so that
results were often a tick short, e.g. for 8% of microsecond intervals of up
to 400 days. Use integer arithmetic.
---
 src/dtcalendar.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index b45f876..c84720b 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -170,14 +170,12 @@ public:
   datetime_interval
   operator/(int div) const noexcept
   {
-    double d = static_cast<double>(m_days.as_underlying_type());
-    double i, f;
-    f = std::modf(d/div, &i);
-    auto new_mjd = static_cast<modified_julian_day::underlying_type>(i);
-
-    d = static_cast<double>(m_secs.as_underlying_type());
-    d = d/div + f*S::max_in_day;
-    auto new_sec = static_cast<typename S::underlying_type>(d);
+    auto new_mjd = m_days.as_underlying_type() / div;
+    auto rem     = m_days.as_underlying_type() % div;
+
+    // (rem*S::max_in_day + m_secs)/div, without overflow
+    auto new_sec = rem * (S::max_in_day / div)
+        + (rem * (S::max_in_day % div) + m_secs.as_underlying_type()) / div;
 
     return datetime_interval{modified_julian_day{new_mjd}, S{new_sec}};
   }
-- 
2.43.0


From 5225c91e92bda4f22f9b741658773b4df77b4434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:07 +0000
Subject: [PATCH 09/21] fix: text readers look past the terminating null
 character

A text that ends early (e.g. "2015" or "2015-12") made the readers step over
the terminator and go on with whatever follows in memory.
---
 src/datetime_read.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index ab0b47b..d269736 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -51,7 +51,7 @@ template<typename T>
         ("Invalid date format: \"" + std::string(str) 
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = *end ? end+1 : end; // never step past the terminator
   }
   if (stop) *stop = end - 1;
   return datetime<T> {year{ints[0]},
@@ -87,7 +87,7 @@ template<typename T>
         ("Invalid date format: \"" + std::string(str)
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = *end ? end+1 : end; // never step past the terminator
   }
   if (stop) *stop = end - 1;
   return datetime<T> {year{ints[0]},
@@ -123,7 +123,7 @@ template<typename T>
         ("Invalid date format: \""+std::string(str)+
           "\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = *end ? end+1 : end; // never step past the terminator
   }
   secs = std::strtod(start, &end);
   if (errno == ERANGE) {
@@ -168,15 +168,18 @@ template<typename T>
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #1).");
   }
-  start = end+1;
+  start = *end ? end+1 : end; // never step past the terminator
 
-  if ( !std::isalpha(*start) ) ++start;
-  std::memcpy(month_str, start, 3);
+  if ( *start && !std::isalpha(static_cast<unsigned char>(*start)) ) ++start;
+  for (int i = 0; i < 3; ++i) { // copy up to the terminator
+    month_str[i] = *start;
+    if (*start) ++start;
+  }
   month_str[0] = std::toupper(month_str[0]);
   month_str[1] = std::tolower(month_str[1]);
   month_str[2] = std::tolower(month_str[2]);
   month mnt {month_str};
-  start += 4;
+  if (*start) ++start;
 
   for (int i = 2; i < 5; ++i) {
     ints[i] = static_cast<int>( std::abs(std::strtol(start, &end, 10)) );
@@ -186,7 +189,7 @@ template<typename T>
         ("Invalid date format: \"" + std::string(str) 
          +"\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = *end ? end+1 : end; // never step past the terminator
   }
 
   secs = std::strtod(start, &end);
@@ -232,7 +235,7 @@ template<typename T>
         ("Invalid date format: \"" + std::string(str) 
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = *end ? end+1 : end; // never step past the terminator
   }
   secs = std::strtod(start, &end);
   if (errno == ERANGE) {
-- 
2.43.0


From c549e2c76d4ee01acb8beef2b10c93a0b88e9d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:07 +0000
Subject: [PATCH 10/21] fix: text readers refuse valid text after an unrelated
 range error

strtol/strtod never clear errno, so it must be cleared before they are called.
---
 src/datetime_read.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index d269736..1037818 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -14,6 +14,7 @@
 #ifndef __NGPT_DT_READERS__
 #define __NGPT_DT_READERS__
 
+#include <cerrno>
 #include <cstdlib>
 #include <cctype>         // for std::isalpha
 #include <stdexcept>
@@ -39,6 +40,7 @@ namespace ngpt {
 template<typename T>
   datetime<T> strptime_ymd(const char* str, char** stop=nullptr)
 {
+  errno = 0; // else, an error left by an earlier call looks like ours
   char *end;
   const char* start = str;
   int ints[3];
@@ -75,6 +77,7 @@ template<typename T>
 template<typename T>
   datetime<T> strptime_ydoy(const char* str, char** stop=nullptr)
 {
+  errno = 0; // else, an error left by an earlier call looks like ours
   char *end;
   const char* start = str;
   int ints[2];
@@ -110,6 +113,7 @@ template<typename T>
 template<typename T>
   datetime<T> strptime_ymd_hms(const char* str, char** stop=nullptr)
 {
+  errno = 0; // else, an error left by an earlier call looks like ours
   char *end;
   const char* start = str;
   int ints[5];
@@ -155,6 +159,7 @@ template<typename T>
 template<typename T>
   datetime<T> strptime_yod_hms(const char* str, char** stop=nullptr)
 {
+  errno = 0; // else, an error left by an earlier call looks like ours
   char *end;
   const char* start = str;
   int ints[5];
@@ -222,6 +227,7 @@ template<typename T>
 template<typename T>
   datetime<T> strptime_ydoy_hms(const char* str, char** stop=nullptr)
 {
+  errno = 0; // else, an error left by an earlier call looks like ours
   char *end;
   const char* start = str;
   int ints[4];
-- 
2.43.0


From 3ec5704bc1bd89650739dacd06f37eb134cf1fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:07 +0000
Subject: [PATCH 11/21] fix: text readers accept text with no seconds field

Missing or non-numeric seconds were silently read as zero, other than any
other field.
---
 src/datetime_read.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index 1037818..d92d45d 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -130,7 +130,7 @@ template<typename T>
     start = *end ? end+1 : end; // never step past the terminator
   }
   secs = std::strtod(start, &end);
-  if (errno == ERANGE) {
+  if (errno == ERANGE || start == end) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #6)");
@@ -198,7 +198,7 @@ template<typename T>
   }
 
   secs = std::strtod(start, &end);
-  if (errno == ERANGE) {
+  if (errno == ERANGE || start == end) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \"" + std::string(str) + "\" (argument #6)");
@@ -244,7 +244,7 @@ template<typename T>
     start = *end ? end+1 : end; // never step past the terminator
   }
   secs = std::strtod(start, &end);
-  if (errno == ERANGE) {
+  if (errno == ERANGE || start == end) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #5)");
-- 
2.43.0


From b436662ce17b8d439b18a2fc6b6faec55887bd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:32 +0000
Subject: [PATCH 12/21] fix: text readers wrap numbers that do not fit their
 field

"4294969311-12-30" was read as 2015-12-30. Likewise, infinite, not-a-number
or huge seconds were converted to an integer that cannot hold them.
---
 src/datetime_read.hpp | 44 ++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index d92d45d..ce70c07 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -15,6 +15,8 @@
 #define __NGPT_DT_READERS__
 
 #include <cerrno>
+#include <climits>
+#include <cmath>
 #include <cstdlib>
 #include <cctype>         // for std::isalpha
 #include <stdexcept>
@@ -46,13 +48,15 @@ template<typename T>
   int ints[3];
 
   for (int i = 0; i < 3; ++i) {
-    ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-    if (errno == ERANGE || start == end) {
+    long val = std::strtol(start, &end, 10);
+    if (errno == ERANGE || start == end
+        || val > INT_MAX || val < -INT_MAX) {
       errno = 0;
       throw std::invalid_argument
         ("Invalid date format: \"" + std::string(str) 
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
+    ints[i] = static_cast<int>(std::abs(val));
     start = *end ? end+1 : end; // never step past the terminator
   }
   if (stop) *stop = end - 1;
@@ -83,13 +87,15 @@ template<typename T>
   int ints[2];
 
   for (int i = 0; i < 2; ++i) {
-    ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-    if (errno == ERANGE || start == end) {
+    long val = std::strtol(start, &end, 10);
+    if (errno == ERANGE || start == end
+        || val > INT_MAX || val < -INT_MAX) {
       errno = 0;
       throw std::invalid_argument
         ("Invalid date format: \"" + std::string(str)
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
+    ints[i] = static_cast<int>(std::abs(val));
     start = *end ? end+1 : end; // never step past the terminator
   }
   if (stop) *stop = end - 1;
@@ -120,17 +126,19 @@ template<typename T>
   double secs;
 
   for (int i = 0; i < 5; ++i) {
-    ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-    if (errno == ERANGE || start == end) {
+    long val = std::strtol(start, &end, 10);
+    if (errno == ERANGE || start == end
+        || val > INT_MAX || val < -INT_MAX) {
       errno = 0;
       throw std::invalid_argument
         ("Invalid date format: \""+std::string(str)+
           "\" (argument #" + std::to_string(i+1) + ").");
     }
+    ints[i] = static_cast<int>(std::abs(val));
     start = *end ? end+1 : end; // never step past the terminator
   }
   secs = std::strtod(start, &end);
-  if (errno == ERANGE || start == end) {
+  if (errno == ERANGE || start == end || !(std::abs(secs) < INT_MAX)) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #6)");
@@ -167,12 +175,14 @@ template<typename T>
   month_str[3] = '\0';
   double secs;
 
-  ints[0] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-  if (errno == ERANGE || start == end) {
+  long yr = std::strtol(start, &end, 10);
+  if (errno == ERANGE || start == end
+      || yr > INT_MAX || yr < -INT_MAX) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #1).");
   }
+  ints[0] = static_cast<int>(std::abs(yr));
   start = *end ? end+1 : end; // never step past the terminator
 
   if ( *start && !std::isalpha(static_cast<unsigned char>(*start)) ) ++start;
@@ -187,18 +197,20 @@ template<typename T>
   if (*start) ++start;
 
   for (int i = 2; i < 5; ++i) {
-    ints[i] = static_cast<int>( std::abs(std::strtol(start, &end, 10)) );
-    if (errno == ERANGE || start == end) {
+    long val = std::strtol(start, &end, 10);
+    if (errno == ERANGE || start == end
+        || val > INT_MAX || val < -INT_MAX) {
       errno = 0;
       throw std::invalid_argument
         ("Invalid date format: \"" + std::string(str) 
          +"\" (argument #" + std::to_string(i+1) + ").");
     }
+    ints[i] = static_cast<int>(std::abs(val));
     start = *end ? end+1 : end; // never step past the terminator
   }
 
   secs = std::strtod(start, &end);
-  if (errno == ERANGE || start == end) {
+  if (errno == ERANGE || start == end || !(std::abs(secs) < INT_MAX)) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \"" + std::string(str) + "\" (argument #6)");
@@ -234,17 +246,19 @@ template<typename T>
   double secs;
 
   for (int i = 0; i < 4; ++i) {
-    ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-    if (errno == ERANGE || start == end) {
+    long val = std::strtol(start, &end, 10);
+    if (errno == ERANGE || start == end
+        || val > INT_MAX || val < -INT_MAX) {
       errno = 0;
       throw std::invalid_argument
         ("Invalid date format: \"" + std::string(str) 
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
+    ints[i] = static_cast<int>(std::abs(val));
     start = *end ? end+1 : end; // never step past the terminator
   }
   secs = std::strtod(start, &end);
-  if (errno == ERANGE || start == end) {
+  if (errno == ERANGE || start == end || !(std::abs(secs) < INT_MAX)) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #5)");
-- 
2.43.0


From 7402b1cec8a23f582ef7c9392e207cc75cbb7ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:32 +0000
Subject: [PATCH 13/21] fix: strftime_ymd_hmfs writes 60 seconds and loses
 microseconds

Five decimals cannot hold microseconds (59.999999 became 60.00000); also, the
seconds field was not zero-padded, unlike every other field.
---
 src/datetime_write.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/datetime_write.hpp b/src/datetime_write.hpp
index 484b79e..1642050 100644
--- a/src/datetime_write.hpp
+++ b/src/datetime_write.hpp
@@ -23,12 +23,13 @@
 namespace ngpt {
 
 /// Format a double to an std::string using std::fixed and a precision on
-/// n digits
+/// n digits; the string is (zero-)padded to a width of w chars
 inline std::string
-_d2s_(double d, int n=2) noexcept
+_d2s_(double d, int n=2, int w=0) noexcept
 {
   std::stringstream stream;
-  stream << std::fixed << std::setprecision(n) << d;
+  stream << std::fixed << std::setprecision(n)
+         << std::setfill('0') << std::setw(w) << d;
   return stream.str();
 }
 
@@ -66,7 +67,7 @@ template<typename T>
        + _i2s_((ymd.__dom).as_underlying_type(), 2) + ' '
        + _i2s_(std::get<0>(hmsf).as_underlying_type(),2) + ':'
        + _i2s_(std::get<1>(hmsf).as_underlying_type(),2) + ':'
-       + _d2s_(secs, 5);
+       + _d2s_(secs, 6, 9);
 }
 template<typename T>
   std::string
-- 
2.43.0


From 422d075e990ab39fd3594cb6207c0cd291577898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:32 +0000
Subject: [PATCH 14/21] fix: datetime::stringify adds sub-second ticks as if
 they were seconds

The seconds of the minute were missing, and the raw number of ticks was added
to the fraction instead.
---
 src/dtcalendar.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index c84720b..95182d9 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -15,12 +15,12 @@
 #define __DTCALENDAR_NGPT__HPP__
 
 #include <cassert>
+#include <iomanip>  // std::setprecision
+#include <sstream>  // std::ostringstream
 #include "dtfund.hpp"
 
 #ifdef DEBUG
 # include <iostream>
-# include <iomanip>  // std::setprecision
-# include <sstream>  // std::ostringstream
 #endif
 
 namespace ngpt
@@ -734,11 +734,10 @@ public:
   {
     auto ymd { this->as_ymd() };
     auto hms { this->as_hmsf() };
-    S st { std::get<3>(hms) };
-    double fsec { st.as_underlying_type() / S::template sec_factor<double>() };
+    double fsec { std::get<3>(hms) / S::template sec_factor<double>() };
     std::ostringstream out;
     out << std::fixed << std::setprecision(9) 
-        << (fsec + static_cast<double>(st.as_underlying_type()));
+        << (fsec + static_cast<double>(std::get<2>(hms).as_underlying_type()));
 
     return std::string {
                  std::to_string( ymd.__year.as_underlying_type() )
-- 
2.43.0


From 6882d2dfab67361678e5f387d0c4bc5e7abc0073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:55 +0000
Subject: [PATCH 15/21] fix: casting milliseconds to microseconds overflowed
 beyond 292 years

The numerator was multiplied by the whole factor of the target (1000000)
before dividing by the factor of the source (1000).
---
 src/dtfund.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dtfund.hpp b/src/dtfund.hpp
index ac3b2a2..38c9970 100644
--- a/src/dtfund.hpp
+++ b/src/dtfund.hpp
@@ -2114,9 +2114,10 @@ template<typename Ssrc,
   // could overflow (e.g. microseconds to milliseconds for more than 292 years)
   constexpr long src { Ssrc::template sec_factor<long>() };
   constexpr long trg { Strg::template sec_factor<long>() };
+  // when casting to more precission, do not multiply by more than the ratio
+  // (e.g. milliseconds to microseconds)
   if constexpr (src > trg) return Strg {s.__member_ref__() / (src / trg)};
-  auto numerator { s.__member_ref__() * trg };
-  return Strg {numerator / src};
+  else return Strg {s.__member_ref__() * (trg / src)};
 }
 
 /// For user-defined literals, i am going to replace long with
-- 
2.43.0


From 21d3ff5171aaf0781eb555198119f4a44d0bed31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:24 +0000
Subject: [PATCH 16/21] fix: dat(year, month): 12*year overflowed an int for
 years beyond 178 million

---
 src/dat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dat.cpp b/src/dat.cpp
index 5fd60f7..8301899 100644
--- a/src/dat.cpp
+++ b/src/dat.cpp
@@ -74,7 +74,7 @@ ngpt::dat(ngpt::year iy, ngpt::month im) noexcept
   constexpr int NDAT { (int) (sizeof changes / sizeof changes[0]) };
 
   // Combine year and month to form a date-ordered integer...
-  int m = 12*iy.as_underlying_type() + im.as_underlying_type();
+  long m = 12L*iy.as_underlying_type() + im.as_underlying_type();
   // ...and use it to find the preceding table entry.
   int idx = NDAT-1;
   for (; idx >= 0; idx--) {
-- 
2.43.0


From 84c9d36e934b3b08d925bd7884cc42866475dd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:35 +0000
Subject: [PATCH 17/21] fix: compute differences of valid dates without a
 negative intermediate

delta_sec and delta_date subtracted the times of day before adding the
days, so with USE_DATETIME_CHECKS a valid, non-negative difference was
aborted by the non-negative check of the (sub)seconds types.
---
 src/dtcalendar.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index 95182d9..dc26139 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -596,7 +596,8 @@ public:
   constexpr S
   delta_sec(const datetime& d) const noexcept
   {
-    return (m_sec - d.m_sec) + mjd_sec_diff<S>(m_mjd, d.m_mjd);
+    // add before subtracting; m_sec - d.m_sec alone can be negative
+    return (mjd_sec_diff<S>(m_mjd, d.m_mjd) + m_sec) - d.m_sec;
   }
 
   /// Overload equality operator.
@@ -672,9 +673,14 @@ public:
   constexpr datetime_interval<S>
   delta_date(const datetime& d) const noexcept
   {
-    datetime_interval<S> dt { m_mjd - d.m_mjd, m_sec - d.m_sec };
-    dt.normalize();
-    return dt;
+    // borrow a day if needed; m_sec - d.m_sec alone can be negative
+    modified_julian_day days { m_mjd - d.m_mjd };
+    S secs { m_sec };
+    if (secs < d.m_sec) {
+      --days;
+      secs += S{S::max_in_day};
+    }
+    return datetime_interval<S> { days, secs - d.m_sec };
   }
 
   /// Cast to double (i.e. fractional) Modified Julian Date.
@@ -897,7 +903,7 @@ template<typename S1,
 {
   S1 diff  = mjd_sec_diff<S1>(d1.mjd(), d2.mjd()); // days dif in S1
   S1 s2sec = ngpt::cast_to<S2, S1>(d2.sec());      // cast d2 secs to S1
-  return diff + (d1.sec() - s2sec);
+  return (diff + d1.sec()) - s2sec;  // d1.sec() - s2sec can be negative
 }
 
 /// Difference of two datetime instances in seconds, when they are of different
@@ -928,7 +934,7 @@ template<typename S1,
 {
   S2 diff  = mjd_sec_diff<S2>(d1.mjd(), d2.mjd()); // days dif in S2
   S2 s1sec = ngpt::cast_to<S1, S2>(d1.sec());      // cast d1 secs to S2
-  return diff + (s1sec - d2.sec());
+  return (diff + s1sec) - d2.sec();  // s1sec - d2.sec() can be negative
 }
 
 /// Because we have a function of type:
-- 
2.43.0


From 66586c79315feab2482fef35b0ac1f24b0303a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:35 +0000
Subject: [PATCH 18/21] fix: remove finer seconds over midnight without casting
 a negative time of day

remove_seconds cast the (negative) rest to the date's own type before
normalizing it, which USE_DATETIME_CHECKS aborts.
---
 src/dtcalendar.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index dc26139..03bfcf8 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -850,7 +850,8 @@ private:
   {
     T sect = ngpt::cast_to<S, T>(m_sec);
     sect -= sec;
-    m_sec = ngpt::cast_to<T, S>(sect);
+    // do not cast_to S here; sect can be negative (i.e. in a previous day)
+    m_sec = sect.as_underlying_type() / (T::max_in_day / S::max_in_day);
     this->normalize();
 #ifdef USE_DATETIME_CHECKS
     assert(m_mjd >= modified_julian_day{0} && m_sec >= S{0});
-- 
2.43.0


From 46a6118cca0ac9cc0623836000ebc0655174d066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:30 +0000
Subject: [PATCH 19/21] fix: text writers follow the global locale

In a program that has set e.g. std::locale::global(std::locale("de_DE.UTF-8"))
the year was written as 2.016 and the seconds as 15,250000.
---
 src/datetime_write.hpp | 3 +++
 src/dtcalendar.hpp     | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/datetime_write.hpp b/src/datetime_write.hpp
index 1642050..1ec8ea1 100644
--- a/src/datetime_write.hpp
+++ b/src/datetime_write.hpp
@@ -15,6 +15,7 @@
 
 #include <iostream>
 #include <iomanip>
+#include <locale>
 #include <sstream>
 #include <stdexcept>
 #include "dtfund.hpp"
@@ -28,6 +29,7 @@ inline std::string
 _d2s_(double d, int n=2, int w=0) noexcept
 {
   std::stringstream stream;
+  stream.imbue(std::locale::classic()); // whatever the program's locale
   stream << std::fixed << std::setprecision(n)
          << std::setfill('0') << std::setw(w) << d;
   return stream.str();
@@ -38,6 +40,7 @@ inline std::string
 _i2s_(int i, int w=2) noexcept
 {
   std::stringstream stream;
+  stream.imbue(std::locale::classic()); // whatever the program's locale
   stream << std::setfill('0') << std::setw(w) << i;
   return stream.str();
 }
diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index 03bfcf8..ef936e0 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -17,6 +17,7 @@
 #include <cassert>
 #include <iomanip>  // std::setprecision
 #include <sstream>  // std::ostringstream
+#include <locale>
 #include "dtfund.hpp"
 
 #ifdef DEBUG
@@ -742,6 +743,7 @@ public:
     auto hms { this->as_hmsf() };
     double fsec { std::get<3>(hms) / S::template sec_factor<double>() };
     std::ostringstream out;
+    out.imbue(std::locale::classic()); // whatever the program's locale
     out << std::fixed << std::setprecision(9) 
         << (fsec + static_cast<double>(std::get<2>(hms).as_underlying_type()));
 
-- 
2.43.0


From a9efc30c83741186ca52284c7a1bd52263571f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:31 +0000
Subject: [PATCH 20/21] fix: text readers lose the fraction of seconds in
 locales with a decimal comma

std::strtod follows the locale of the program; after setlocale(LC_ALL,
"de_DE.UTF-8") it stopped at the '.' of 12:30:15.25.
---
 src/datetime_read.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index ce70c07..cd8308b 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -19,6 +19,7 @@
 #include <cmath>
 #include <cstdlib>
 #include <cctype>         // for std::isalpha
+#include <locale.h>       // for newlocale
 #include <stdexcept>
 #include "dtfund.hpp"
 #include "dtcalendar.hpp"
@@ -29,6 +30,15 @@
 
 namespace ngpt {
 
+/// Same as std::strtod, but the decimal point is a '.' whatever locale the 
+/// program has set (in many of them, std::strtod would stop at the '.')
+inline double
+_s2d_(const char* str, char** end) noexcept
+{
+  static const locale_t c_locale = newlocale(LC_ALL_MASK, "C", (locale_t)0);
+  return strtod_l(str, end, c_locale);
+}
+
 /// @brief Read from YYYY-MM-DD
 ///
 /// Read and return a date from a c-string of type: YYYY-MM-DD, where the 
@@ -137,7 +147,7 @@ template<typename T>
     ints[i] = static_cast<int>(std::abs(val));
     start = *end ? end+1 : end; // never step past the terminator
   }
-  secs = std::strtod(start, &end);
+  secs = _s2d_(start, &end);
   if (errno == ERANGE || start == end || !(std::abs(secs) < INT_MAX)) {
     errno = 0;
     throw std::invalid_argument
@@ -209,7 +219,7 @@ template<typename T>
     start = *end ? end+1 : end; // never step past the terminator
   }
 
-  secs = std::strtod(start, &end);
+  secs = _s2d_(start, &end);
   if (errno == ERANGE || start == end || !(std::abs(secs) < INT_MAX)) {
     errno = 0;
     throw std::invalid_argument
@@ -257,7 +267,7 @@ template<typename T>
     ints[i] = static_cast<int>(std::abs(val));
     start = *end ? end+1 : end; // never step past the terminator
   }
-  secs = std::strtod(start, &end);
+  secs = _s2d_(start, &end);
   if (errno == ERANGE || start == end || !(std::abs(secs) < INT_MAX)) {
     errno = 0;
     throw std::invalid_argument
-- 
2.43.0


From 888881cb55baa61bed0d114adb8c4d846218de66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:31 +0000
Subject: [PATCH 21/21] fix: which month names are read depends on the locale

In the Turkish locales std::tolower('I') is not 'i' and APRIL was refused; the
readers' std::isalpha and std::tolower (given negative chars) vary likewise.
---
 src/datetime_read.hpp | 8 +++-----
 src/dtfund.cpp        | 8 +++++++-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index cd8308b..a8506f6 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -18,7 +18,6 @@
 #include <climits>
 #include <cmath>
 #include <cstdlib>
-#include <cctype>         // for std::isalpha
 #include <locale.h>       // for newlocale
 #include <stdexcept>
 #include "dtfund.hpp"
@@ -195,14 +194,13 @@ template<typename T>
   ints[0] = static_cast<int>(std::abs(yr));
   start = *end ? end+1 : end; // never step past the terminator
 
-  if ( *start && !std::isalpha(static_cast<unsigned char>(*start)) ) ++start;
+  // skip anything but an (ASCII) letter; std::isalpha follows the locale
+  if ( *start && !((*start >= 'A' && *start <= 'Z')
+                || (*start >= 'a' && *start <= 'z')) ) ++start;
   for (int i = 0; i < 3; ++i) { // copy up to the terminator
     month_str[i] = *start;
     if (*start) ++start;
   }
-  month_str[0] = std::toupper(month_str[0]);
-  month_str[1] = std::tolower(month_str[1]);
-  month_str[2] = std::tolower(month_str[2]);
   month mnt {month_str};
   if (*start) ++start;
 
diff --git a/src/dtfund.cpp b/src/dtfund.cpp
index db899d1..e7f1fc1 100644
--- a/src/dtfund.cpp
+++ b/src/dtfund.cpp
@@ -82,12 +82,18 @@ ngpt::cal2mjd(ngpt::year y, ngpt::month m, ngpt::day_of_month d)
   return ngpt::modified_julian_day{mjd};
 }
 
+/// Lower-case an (ASCII) letter. Not std::tolower, which follows the program's
+/// locale; e.g. the Turkish locales do not regard 'i' as the lower case of 'I'
+static char
+__lower__(char c) noexcept
+{ return (c >= 'A' && c <= 'Z') ? static_cast<char>(c - 'A' + 'a') : c; }
+
 int
 __lower_strncmp__(const char *str1, const char *str2, std::size_t n=0)
 {
   if (!n) n = std::max(std::strlen(str1), std::strlen(str2));
   for (std::size_t i = 0; i < n; i++) 
-    if ( !(std::tolower(str1[i]) == std::tolower(str2[i])) ) 
+    if ( !(__lower__(str1[i]) == __lower__(str2[i])) ) 
       return 1;
   return 0;
 }
-- 
2.43.0

