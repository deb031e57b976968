// A calendar and time zones written independently of the C library, for zones given as POSIX TZ strings.
#pragma once
#include <cstdarg>
#include "jn.hpp"
#include <cstdlib>
#include <ctime>
namespace tz {
typedef long L;
inline L fdiv(L a, L b) { L q = a / b; return q * b > a ? q - 1 : q; }
inline L days(L y, L m) { y += fdiv(m, 12); m -= fdiv(m, 12) * 12; L n = 365 * (y - 1970) + fdiv(y - 1969, 4) - fdiv(y - 1901, 100) + fdiv(y - 1601, 400); static const int D[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334}; bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; return n + D[m] + (m > 1 && leap); }  // of the first of month m (0..11, any) of year y since 1970-01-01
struct F { L y; int mon, day, h, m, s, wd, yd; };
inline F fields(L t) { L d = fdiv(t, 86400); int r = (int)(t - d * 86400); L y = 1970 + d / 366 - 2; while (days(y + 1, 0) <= d) y++; int m = 0; while (m < 11 && days(y, m + 1) <= d) m++; return F{y, m, (int)(d - days(y, m)) + 1, r / 3600, r / 60 % 60, r % 60, (int)(((d + 4) % 7 + 7) % 7), (int)(d - days(y, 0))}; }
inline L seconds(L y, L mon, L day, L h, L m, L s) { return (days(y, mon) + day - 1) * 86400 + h * 3600 + m * 60 + s; }
struct Zone { const char *tz; L std; const char *name; bool dst; const char *dname; int sm, sw, em, ew; L sh, eh; };  // rules: week w (5: last) sunday of month, at local hour
static const Zone ZONES[] = {
    {"UTC0", 0, "UTC", false, "", 0, 0, 0, 0, 0, 0}, {"ICT-7", 7 * 3600, "ICT", false, "", 0, 0, 0, 0, 0, 0}, {"NPT-5:45", 5 * 3600 + 45 * 60, "NPT", false, "", 0, 0, 0, 0, 0, 0}, {"NST3:30", -(3 * 3600 + 1800), "NST", false, "", 0, 0, 0, 0, 0, 0},
    {"EST5EDT,M3.2.0,M11.1.0", -5 * 3600, "EST", true, "EDT", 2, 2, 10, 1, 2, 2}, {"NZST-12NZDT,M9.5.0,M4.1.0/3", 12 * 3600, "NZST", true, "NZDT", 8, 5, 3, 1, 2, 3}};
inline L sunday(L y, int mon, int w) { L d = days(y, mon); L wd = ((d + 4) % 7 + 7) % 7; d += (7 - wd) % 7 + 7 * (w - 1); while (d >= days(y, mon + 1)) d -= 7; return d; }
inline bool dst(const Zone &z, L t) { if (!z.dst) return false; if (t < 172800) throw mc::Skip();  /* the C library does not apply the rules to the years before 1970 */ L y = fields(t + z.std).y; L a = sunday(y, z.sm, z.sw) * 86400 + z.sh * 3600 - z.std, b = sunday(y, z.em, z.ew) * 86400 + z.eh * 3600 - z.std - 3600; return a < b ? t >= a && t < b : t >= a || t < b; }
inline L offset(const Zone &z, L t) { return z.std + (dst(z, t) ? 3600 : 0); }
inline F local(const Zone &z, L t) { return fields(t + offset(z, t)); }
// the instant of a local time; false in the hours that do not exist or exist twice
inline bool instant(const Zone &z, L loc, L &t) { int n = 0; for (int k = 0; k < (z.dst ? 2 : 1); k++) { L u = loc - z.std - 3600 * k; if (offset(z, u) == z.std + 3600 * k) { t = u; n++; } } return n == 1; }
static const char *WD[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}, *MON[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
static const char *MONTH[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
inline std::string fmt(const char *f, ...) { char b[200]; va_list v; va_start(v, f); vsnprintf(b, 200, f, v); va_end(v); return b; }
inline std::string name(const Zone &z, L t) { return dst(z, t) ? z.dname : z.name; }
inline void use(const Zone &z) { setenv("TZ", z.tz, 1); tzset(); }
}  // namespace tz
