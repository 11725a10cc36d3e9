// A second translation unit of the same program: every header again, in
// another order than the drivers include them.  That the program links and
// behaves like the drivers alone is part of C20.
#include "gnsstm.hpp"
#include "datetime_write.hpp"
#include "datetime_read.hpp"
#include "dtcalendar.hpp"
#include "dtfund.hpp"
#include <string>
using namespace ngpt;

long second_unit(const char* text) {
  auto t = strptime_ymd_hms<milliseconds>(text);
  auto u = strptime_ymd<seconds>(text);
  std::string s = strftime_ymd_hmfs(t) + strftime_ymd_hms(u) + t.stringify();
  auto d = delta_date(t, t.add(modified_julian_day{3}, milliseconds{5}));
  return static_cast<long>(s.size()) + d.days().as_underlying_type() + dat(t) + cal2mjd(2000, 1, 1) + month{"jan"}.as_underlying_type()
    + delta_sec(t, t).as_underlying_type() + cast_to<seconds, microseconds>(seconds{5}).as_underlying_type() + (year{5} < year{6})
    + ydoy2mjd(year{2000}, day_of_year{5}).as_underlying_type() + is_leap(2000) + t.as_ymd().to_ydoy().__doy.as_underlying_type();
}
