// U02: Date.
#include <cstdarg>
#include "tz_common.hpp"
#include "library/Java/Util/Date/Date.hpp"
using namespace jav;
using namespace Java::Lang;
using tz::Zone; using tz::ZONES; using tz::F;
typedef Java::Util::Date Date; typedef std::string B; typedef long L;
static B text(const Zone &z, L t) { F f = tz::local(z, t); return tz::fmt("%s %s %02d %02d:%02d:%02d %s %ld", tz::WD[f.wd], tz::MON[f.mon], f.day, f.h, f.m, f.s, tz::name(z, t).c_str(), f.y); }
static void view(mc::Ctx &c, const Date &d, const Zone &z, L t, bool all) {
    F f = tz::local(z, t); c.eq((L)d.getTime(), t * 1000, "getTime()"); c.eq((L)d.getYear(), f.y - 1900, "getYear()"); c.eq(d.getMonth(), f.mon, "getMonth()"); c.eq(d.getDate(), f.day, "getDate()"); c.eq(d.getHours(), f.h, "getHours()"); c.eq(d.getMinutes(), f.m, "getMinutes()"); c.eq(d.getSeconds(), f.s, "getSeconds()"); c.eq(d.getDay(), f.wd, "getDay()"); if (!all) return;
    c.eq(d.getTimezoneOffset(), (int)(-tz::offset(z, t) / 60), "getTimezoneOffset()"); c.eq(S(d.toString()), text(z, t), "toString()"); F g = tz::fields(t); c.eq(S(d.toGMTString()), tz::fmt("%02d %s %ld %02d:%02d:%02d GMT", g.day, tz::MON[g.mon], g.y, g.h, g.m, g.s), "toGMTString()"); c.eq(S(d.toLocaleString()), tz::fmt("%s %02d, %ld %02d:%02d:%02d %s", tz::MON[f.mon], f.day, f.y, (f.h + 11) % 12 + 1, f.m, f.s, f.h < 12 ? "AM" : "PM"), "toLocaleString()");
}
static const L T[] = {0, 951782399, 1456704000, 1489309200 - 3601, 1489305600, 1509867000 + 7200, 1583020799, 1700000000, -1, -86400 * 365L, 4102444799L, 1506175200};
struct Set { char what; int v; };
static const Set ALL[] = {{'d', 1}, {'d', 0}, {'d', 29}, {'d', 31}, {'d', 32}, {'d', -1}, {'d', 400}, {'M', 0}, {'M', 1}, {'M', 6}, {'M', 11}, {'M', 12}, {'M', -1}, {'M', 14}, {'y', 116}, {'y', 117}, {'y', 100}, {'y', 0}, {'h', 0}, {'h', 12}, {'h', 23}, {'h', 24}, {'h', -1}, {'m', 0}, {'m', 30}, {'m', 60}, {'m', -1}, {'s', 0}, {'s', 59}, {'s', 60}, {'s', -1}, {'s', 1000}}, FEW[] = {{'d', 31}, {'d', 0}, {'M', 1}, {'M', 6}, {'y', 116}, {'h', 24}, {'h', 1}, {'m', -1}, {'s', 60}};
static void apply(Date &d, const Zone &z, L &t, const Set &s) {
    F f = tz::local(z, t); L y = f.y, M = f.mon, D = f.day, h = f.h, m = f.m, x = f.s; if (s.what == 'd') D = s.v; if (s.what == 'M') M = s.v; if (s.what == 'y') y = 1900 + s.v; if (s.what == 'h') h = s.v; if (s.what == 'm') m = s.v; if (s.what == 's') x = s.v; if (!tz::instant(z, tz::seconds(y, M, D, h, m, x), t)) throw mc::Skip();  // hours that do not exist or exist twice
    if (s.what == 'd') d.setDate(s.v); if (s.what == 'M') d.setMonth(s.v); if (s.what == 'y') d.setYear(s.v); if (s.what == 'h') d.setHours(s.v); if (s.what == 'm') d.setMinutes(s.v); if (s.what == 's') d.setSeconds(s.v);
}
static void histories(mc::Ctx &c, int depth, const Set *sets, int n, int starts) {
    const Zone &z = ZONES[c.choose(6)]; tz::use(z); int k = c.choose(starts), k2 = (k + 5) % 12; L t[2] = {T[k], T[k2]}; Date a(t[0] * 1000), b(t[1] * 1000); Date *d[2] = {&a, &b}; c.note([&] { return B(z.tz) + ": Date(" + std::to_string(t[0] * 1000) + "), Date(" + std::to_string(t[1] * 1000) + ")"; });
    for (int i = 0; i < depth; i++) { int op = c.choose(n + 3), w = op < n + 1 && n < 20 ? c.choose(2) : 0; if (op < n) { c.note([&] { return tz::fmt("date %d: set %c to %d", w, sets[op].what, sets[op].v); }); apply(*d[w], z, t[w], sets[op]); } else if (op == n) { c.note([&] { return tz::fmt("date %d: setTime", w); }); t[w] = T[(k + i + 1) % 12]; d[w]->setTime(t[w] * 1000); } else if (op == n + 1) { c.note([] { return "date 1 = date 0"; }); b = a; t[1] = t[0]; } else { c.note([] { return "date 0 = clone of a copy of date 1"; }); Date e(b); a = e.clone(); a = a; t[0] = t[1]; } }
    view(c, a, z, t[0], true); view(c, b, z, t[1], true); c.eq((bool)a.after(b), t[0] > t[1], "after()"); c.eq((bool)a.before(b), t[0] < t[1], "before()"); c.eq((bool)a.equals(b), t[0] == t[1], "equals()"); c.eq(a.compareTo(b), t[0] < t[1] ? -1 : t[0] > t[1], "compareTo()"); if (t[0] == t[1]) c.eq(a.hashCode(), b.hashCode(), "hashCode() of an equal date"); view(c, a, z, t[0], false); c.state(mc::mix(mc::mix(t[0], t[1]), z.std));
}
SCENARIO(setters, "all histories of 32 settings, setTime, assignment and copying over two dates from 12 instants in 6 time zones", 1, 2, 2) { histories(c, depth, ALL, 32, 12); }
SCENARIO(longer, "the same, longer, with 9 settings of either date from 4 (12) instants", 3, 3, 3) { histories(c, depth, FEW, 9, c.thorough ? 12 : 4); }
SCENARIO(calendar, "every day from 1970 to 2100 (1900 to 2400) at 5 hours in 6 time zones, from fields, from its time, and past the end of the month", 1, 1, 2) {
    const Zone &z = ZONES[c.choose(6)]; tz::use(z); int from = depth == 1 ? 1970 : 1900, y = from + c.choose(depth == 1 ? 131 : 501), M = c.choose(12); c.note([&] { return tz::fmt("%s %d-%02d", z.tz, y, M + 1); }); c.state(mc::mix(y * 12 + M, z.std)); static const int H[] = {0, 1, 4, 12, 23};
    for (int D = 1; D <= (depth == 1 ? 31 : 32); D++) for (int h : H) { L t; if (!tz::instant(z, tz::seconds(y, M, D, h, 7, 9), t)) continue; Date d(y - 1900, M, D, h, 7, 9); view(c, d, z, t, D % 8 == 1); if (D % 4 == 1) { Date e(t * 1000); view(c, e, z, t, false); Date f(y - 1900, M - 12, D + 1, h - 24, 7); L u; if (tz::instant(z, tz::seconds(y, M - 12, D + 1, h - 24, 7, 0), u)) view(c, f, z, u, false); c.eq((L)Date::UTC(y - 1900, M, D, h, 7, 9), tz::seconds(y, M, D, h, 7, 9) * 1000, "UTC()"); } if (h == 0) { Date g(y - 1900, M, D); if (tz::instant(z, tz::seconds(y, M, D, 0, 0, 0), t)) view(c, g, z, t, false); } }
}
SCENARIO(instants, "every half hour around the changes of the clock in 6 zones and 6 years, from the time", 1, 1, 1) {
    const Zone &z = ZONES[c.choose(6)]; tz::use(z); int y = 2007 + 5 * c.choose(6), which = c.choose(4); L t = tz::seconds(y, which == 0 ? 2 : which == 1 ? 10 : which == 2 ? 8 : 3, 1, 0, 0, 0); c.state(mc::mix(t, z.std)); c.note([&] { return tz::fmt("%s from %ld", z.tz, t); });
    for (int i = 0; i < 31 * 48; i++) { L u = t + i * 1800L; Date d(u * 1000); if (i % 8) c.eq((L)d.getTime(), u * 1000, "getTime()"); else { view(c, d, z, u, true); Date e(d); view(c, e, z, u, true); } }
}
static B cased(B s, int how) { for (char &k : s) k = how == 0 ? k : how == 1 ? (char)toupper(k) : (char)tolower(k); return s; }
SCENARIO(reading, "reading all combinations of 7 ways to write the day, 9 the time, 20 the zone, 3 the letters, 2 weekdays, 2 comments, 6 days, in 3 time zones", 1, 1, 1) {
    static const int DAY[][3] = {{2017, 2, 13}, {1999, 11, 31}, {2000, 1, 29}, {2038, 0, 19}, {1970, 6, 4}, {2009, 8, 5}}; int way = c.choose(7), time = c.choose(9), zone = c.choose(20), k = c.choose(6), look = c.choose(6), in = c.choose(3); const Zone &z = ZONES[in == 0 ? 0 : in == 1 ? 2 : 4]; tz::use(z); const int *d = DAY[k]; int y = d[0], M = d[1], D = d[2];
    int cas = look % 3; B mon = k % 2 ? tz::MON[M] : tz::MONTH[M], day; switch (way) { case 0: day = tz::fmt("%d %s %d", D, mon.c_str(), y); break; case 1: day = tz::fmt("%s %d, %d", mon.c_str(), D, y); break; case 2: day = tz::fmt("%d/%d/%d", M + 1, D, y); break; case 3: day = tz::fmt("%d-%s-%d", D, tz::MON[M], y); break; case 4: day = tz::fmt("%02d/%02d/%02d", M + 1, D, y % 100); break; case 5: day = tz::fmt("%s %02d %02d", mon.c_str(), D, y % 100); break; default: day = ""; }
    if (way == 4 || way == 5) { time_t now = ::time(nullptr); int start = (int)tz::local(z, now).y - 80; y = start / 100 * 100 + y % 100; if (y < start) y += 100; }
    struct Tm { const char *t; int h, m, s; } static const TM[] = {{"", 0, 0, 0}, {"12:35", 12, 35, 0}, {"20:45:30", 20, 45, 30}, {"0:05:09", 0, 5, 9}, {"1:45 PM", 13, 45, 0}, {"12:45 AM", 0, 45, 0}, {"12:00:01 pm", 12, 0, 1}, {"11:59:59 am", 11, 59, 59}, {"23:59:59", 23, 59, 59}}; const Tm &tm = TM[time];
    struct Zn { const char *t; int off; bool local; bool early; } static const ZN[] = {{"", 0, true, true}, {"GMT", 0, false, true}, {"UT", 0, false, true}, {"UTC", 0, false, true}, {"EST", 300, false, true}, {"EDT", 240, false, true}, {"CST", 360, false, true}, {"CDT", 300, false, true}, {"MST", 420, false, true}, {"MDT", 360, false, true}, {"PST", 480, false, true}, {"PDT", 420, false, true}, {"+7", -420, false, false}, {"-7", 420, false, false}, {"+0430", -270, false, false}, {"-0930", 570, false, false}, {"GMT+0545", -345, false, false}, {"UTC -12", 720, false, false}, {"GMT +0000", 0, false, false}, {"gmt", 0, false, true}}; const Zn &zn = ZN[zone];
    B s; if (way == 6) { if (!zn.early) throw mc::Skip(); s = tz::fmt("%s %d %s %s %d", mon.c_str(), D, tm.t, zn.t, y); } else s = day + (tm.t[0] ? B(" ") + tm.t : "") + (zn.t[0] ? B(" ") + zn.t : ""); s = cased(s, cas); if (look / 3) s = cased(tz::WD[tz::fields(tz::seconds(y, M, D, 0, 0, 0)).wd], cas) + ", " + s + " (a note)"; 
    c.note([&] { return mc::show(s) + " in " + z.tz; }); uint64_t h = in; for (char q : s) h = mc::mix(h, q); c.state(h); L t, loc = tz::seconds(y, M, D, tm.h, tm.m, tm.s); if (zn.local) { if (!tz::instant(z, loc, t)) throw mc::Skip(); } else t = loc + zn.off * 60; auto r = attempt([&] { return (L)Date::parse(String(s)); }); if (r.threw) c.fail("parse() refused " + mc::show(s)); c.eq(r.value, t * 1000, "parse()"); Date got{String(s)}; view(c, got, z, t, false);
}
// The documented rules of Date.parse.  1: read, 0: refused, -1: the documentation leaves it open.
struct Reading { L year, month, day, hour, minute, second; bool zone; L west; };
static int read(const B &s, Reading &r) {
    static const struct { const char *word; int kind; L value; } WORDS[] = {{"am", 1, 0}, {"pm", 1, 12}, {"monday", 0, 0}, {"tuesday", 0, 0}, {"wednesday", 0, 0}, {"thursday", 0, 0}, {"friday", 0, 0}, {"saturday", 0, 0}, {"sunday", 0, 0}, {"january", 2, 0}, {"february", 2, 1}, {"march", 2, 2}, {"april", 2, 3}, {"may", 2, 4}, {"june", 2, 5}, {"july", 2, 6}, {"august", 2, 7}, {"september", 2, 8}, {"october", 2, 9}, {"november", 2, 10}, {"december", 2, 11}, {"gmt", 3, 0}, {"ut", 3, 0}, {"utc", 3, 0}, {"est", 3, 300}, {"edt", 3, 240}, {"cst", 3, 360}, {"cdt", 3, 300}, {"mst", 3, 420}, {"mdt", 3, 360}, {"pst", 3, 480}, {"pdt", 3, 420}};
    const L NONE = -1; L year = NONE, month = NONE, day = NONE, hour = NONE, minute = NONE, second = NONE, west = 0; bool zone = false, open = false; char sign = 0; size_t n = s.size();
    for (size_t i = 0; i < n;) {
        char k = s[i];
        if (k <= ' ' || k == ',') { i++; continue; }
        if (k == '/' || k == ':' || k == '+' || k == '-') { sign = k; i++; continue; }
        if (isdigit(k)) {
            size_t from = i; L v = 0; while (i < n && isdigit(s[i])) v = v * 10 + (s[i++] - '0'); if (i - from > 9) return -1;
            char next = i < n ? s[i] : ' '; bool blank = next <= ' ' || next == ',';
            if ((sign == '+' || sign == '-') && year != NONE) { L m = v < 24 ? v * 60 : v % 100 + v / 100 * 60; if (sign == '+') m = -m; if (zone && west) return 0; if (m == -1) return -1; zone = true; west = m; }
            else if (v >= 70) { if (year != NONE || (!blank && next != '/')) return 0; year = v; }
            else if (next == ':') { if (hour == NONE) hour = v; else if (minute == NONE) minute = v; else return 0; }
            else if (next == '/') { if (month == NONE) { open |= !v; month = v - 1; } else if (day == NONE) day = v; else return 0; }
            else if (!blank && next != '-') return 0;
            else if (hour != NONE && minute == NONE) minute = v; else if (minute != NONE && second == NONE) second = v; else if (day == NONE) day = v; else if (year == NONE && month != NONE) year = v; else return 0;
            sign = 0; continue;
        }
        if (!isalpha(k)) return 0;
        B w; while (i < n && isalpha(s[i])) w += (char)tolower(s[i++]); sign = 0; int found = -1;
        for (int j = 0; j < 32; j++) if (B(WORDS[j].word).compare(0, w.size(), w) == 0) { if (found >= 0 && (WORDS[found].kind != WORDS[j].kind || WORDS[found].value != WORDS[j].value)) return -1; found = j; }
        if (found < 0) return 0;
        if (w.size() < 2) return -1;
        int kind = WORDS[found].kind; L v = WORDS[found].value;
        if (kind == 1) { if (hour < 1 || hour > 12) return 0; hour = hour % 12 + v; } else if (kind == 2) { if (month != NONE) return 0; month = v; } else if (kind == 3) { zone = true; west = v; }
    }
    if (year == NONE || month == NONE || day == NONE || year > 9999 || open) return year > 9999 ? -1 : open && year != NONE && month != NONE && day != NONE ? -1 : 0;
    r = {year, month, day, std::max(hour, 0L), std::max(minute, 0L), std::max(second, 0L), zone, west}; return 1;
}
SCENARIO(edited, "16 texts with every 1-2 characters changed, removed or added, read or refused by the documented rules", 0, 2, 2) {
    static const char *T[] = {"13 March 2017 10:11:12", "March 13, 2017 1:45 PM", "3/13/2017 20:45", "13-Mar-1999 EST", "Sat Aug 12 13:30:00 GMT 1995", "12/31/71 11:5 am", "2017 Mar 13 -0930", "Feb 29 00 12:59 AM", "1/2/2003 +7", "Mon, 25 Dec 1995 13:30:00 GMT+0430", "Oct 5 9:07 1988 UTC -12", "6 may 2000", "1:2:3 4/5/2006 pdt", "99 jun 7", "10:20 1/1/70", "21 Nov 2010 gmt +0000"};
    static const char K[] = {'0', '7', '1', ':', '/', '-', '+', ' ', ',', 'x', '2', '.'}; int keys = c.thorough ? 12 : 9;
    B s = T[c.choose(16)], from = s; size_t at = 0; for (int e = 0; e < depth; e++) { int how = c.choose(2 * keys + 1); size_t room = s.size() - at + (how < keys ? 1 : 0); if (!room) throw mc::Skip(); at += (size_t)c.choose((int)room); if (how < keys) s.insert(at++, 1, K[how]); else if (how < 2 * keys) s[at++] = K[how - keys]; else s.erase(at, 1); }
    const Zone &z = ZONES[3]; tz::use(z); c.note([&] { return mc::show(s) + " made from " + mc::show(from); }); uint64_t h = 0; for (char q : s) h = mc::mix(h, q); c.state(h);
    Reading r; int ok = read(s, r); if (ok < 0) throw mc::Skip(); auto got = attemptAs<Java::Lang::InterruptedException>("InterruptedException", [&] { return (L)Date::parse(String(s)); }); c.outcome((uint64_t)ok);
    if (!ok) { c.checkf(got.threw, [&] { return "parse() read " + mc::show(s) + ", which is no date, as " + std::to_string(got.value); }); c.eq(got.type, B("InterruptedException"), "exception"); return; }
    c.checkf(!got.threw, [&] { return "parse() refused " + mc::show(s); });
    if (r.year < 100) { int start = (int)tz::local(z, ::time(nullptr)).y - 80; r.year += start / 100 * 100; if (r.year < start) r.year += 100; }
    L t = tz::seconds(r.year, r.month, r.day, r.hour, r.minute, r.second); t += r.zone ? r.west * 60 : -z.std; c.eq(got.value, t * 1000, "parse()");
}
SCENARIO(malformed, "every text up to 5 (6) over 10 characters is read or refused with an InterruptedException, the same every time", 0, 5, 6) {
    static const char K[] = {'1', '9', '/', ':', 'a', '(', ')', '+', ' ', 'p'}; tz::use(ZONES[1]); B s; for (int i = 0; i < depth; i++) s += c.pick(K); c.note([&] { return mc::show(s); }); uint64_t h = 9; for (char k : s) h = mc::mix(h, k); c.state(h); auto f = [&] { return attemptAs<Java::Lang::InterruptedException>("InterruptedException", [&] { return (L)Date::parse(String(s)); }); }; auto a = f(); c.outcome(a.threw); if (a.threw) c.eq(a.type, B("InterruptedException"), "exception"); else { auto b = f(); c.check(a == b, "parse() of the same text twice differs"); }
}
static const char *BAD[] = {"", "1:45:30 UTC", "13 March", "March 2017", "Monday", "13 March 2017 13:00 PM", "13 March 2017 0:10 AM", "13 March 2017 1:2:3 4", "13 March April 2017", "1/2/3/2017", "13 March 2017 2018", "13 March 2017x", "13 March 2017 *", "13 Mrch 2017", "13 March 2017 EST+0430", "80x March 3", "1:2:3:4 13 March 2017", "13x March 2017", "13 March 2017 10:10 June"};
SCENARIO(refused, "19 texts which are no dates are refused", 1, 1, 1) { const char *s = BAD[c.choose(19)]; c.note([&] { return mc::show(B(s)); }); uint64_t h = 1; for (const char *k = s; *k; k++) h = mc::mix(h, *k); c.state(h); c.check(attempt([&] { return (L)Date::parse(s); }).threw, "parse() accepted a text which is no date"); c.check(attempt([&] { Date d{String(s)}; return 0; }).threw, "Date() accepted a text which is no date"); }
SCENARIO(now, "a date made from nothing is the present second", 1, 1, 1) { const Zone &z = ZONES[c.choose(6)]; tz::use(z); c.state(z.std); L a = ::time(nullptr); Date d; L b = ::time(nullptr); L t = d.getTime() / 1000; c.check(t >= a && t <= b, "Date() is not now"); view(c, d, z, t, true); }
int main(int argc, char **argv) { return mc::main(argc, argv); }
