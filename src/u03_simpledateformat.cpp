// U03: SimpleDateFormat and TimeZone.
#include <cstdarg>
#include "tz_common.hpp"
#include "library/Java/Text/SimpleDateFormat/SimpleDateFormat.hpp"
using namespace jav;
using namespace Java::Lang;
using tz::Zone; using tz::ZONES; using tz::F;
typedef Java::Util::Date Date; typedef Java::Util::TimeZone TimeZone; typedef Java::Text::SimpleDateFormat Format; typedef std::string B; typedef long L;
static const char *ITEM[] = {"%a", "%A", "%b", "%B", "%c", "%C", "%d", "%D", "%e", "%F", "%g", "%G", "%h", "%H", "%I", "%j", "%k", "%l", "%m", "%M", "%n", "%p", "%P", "%r", "%R", "%s", "%S", "%t", "%T", "%u", "%U", "%V", "%w", "%W", "%x", "%X", "%y", "%Y", "%z", "%Z", "%%", " ", "-", ":", "yyyy", "T", "d", "\xc3\xa9"};
static const int ITEMS = sizeof ITEM / sizeof *ITEM;
// the week and year of ISO 8601: the week with the year's first thursday is its first
static void iso(const F &f, int &week, L &year) { L thursday = tz::days(f.y, 0) + f.yd - (f.wd + 6) % 7 + 3; year = tz::fields(thursday * 86400).y; week = (int)((thursday - tz::days(year, 0)) / 7 + 1); }
static B one(char k, const Zone &z, L t) {
    F f = tz::local(z, t); int w; L g; iso(f, w, g); L o = tz::offset(z, t); int hour = (f.h + 11) % 12 + 1; using tz::fmt; using tz::fdiv;
    switch (k) {
        case 'a': return tz::WD[f.wd]; case 'A': { static const char *N[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"}; return N[f.wd]; }
        case 'b': case 'h': return tz::MON[f.mon]; case 'B': return tz::MONTH[f.mon]; case 'c': return fmt("%s %s %2d %02d:%02d:%02d %ld", tz::WD[f.wd], tz::MON[f.mon], f.day, f.h, f.m, f.s, f.y);
        case 'C': return fmt("%02ld", f.y / 100); case 'd': return fmt("%02d", f.day); case 'D': case 'x': return fmt("%02d/%02d/%02ld", f.mon + 1, f.day, f.y % 100); case 'e': return fmt("%2d", f.day); case 'F': return fmt("%ld-%02d-%02d", f.y, f.mon + 1, f.day);
        case 'g': return fmt("%02ld", g % 100); case 'G': return fmt("%ld", g); case 'H': return fmt("%02d", f.h); case 'I': return fmt("%02d", hour); case 'j': return fmt("%03d", f.yd + 1); case 'k': return fmt("%2d", f.h); case 'l': return fmt("%2d", hour);
        case 'm': return fmt("%02d", f.mon + 1); case 'M': return fmt("%02d", f.m); case 'n': return "\n"; case 'p': return f.h < 12 ? "AM" : "PM"; case 'P': return f.h < 12 ? "am" : "pm"; case 'r': return fmt("%02d:%02d:%02d %s", hour, f.m, f.s, f.h < 12 ? "AM" : "PM");
        case 'R': return fmt("%02d:%02d", f.h, f.m); case 's': return std::to_string(t); case 'S': return fmt("%02d", f.s); case 't': return "\t"; case 'T': case 'X': return fmt("%02d:%02d:%02d", f.h, f.m, f.s); case 'u': return std::to_string((f.wd + 6) % 7 + 1);
        case 'U': return fmt("%02d", (f.yd + 7 - f.wd) / 7); case 'V': return fmt("%02d", w); case 'w': return std::to_string(f.wd); case 'W': return fmt("%02d", (f.yd + 7 - (f.wd + 6) % 7) / 7); case 'y': return fmt("%02ld", f.y % 100); case 'Y': return std::to_string(f.y);
        case 'z': return fmt("%c%02ld%02ld", o < 0 ? '-' : '+', labs(o) / 3600, labs(o) / 60 % 60); case 'Z': return tz::name(z, t); case '%': return "%";
    }
    return "?";
}
static B expand(const B &p, const Zone &z, L t) { B r; for (size_t i = 0; i < p.size(); i++) if (p[i] == '%') r += one(p[++i], z, t); else r += p[i]; size_t a = r.find_first_not_of(" \t\n"), b = r.find_last_not_of(" \t\n"); return a == B::npos ? "" : r.substr(a, b - a + 1); }
static const L T[] = {0, 951782399, 1456704000, 1489305599, 1509867000, 1583020799, 1700000000, 1104537600, 1230768000 - 1, 1293839999, 4102444799L, 1506175200, 86399, 172800, 1420070400, 1388275200, -86400, 2147483648L};
static const int TS = sizeof T / sizeof *T;
// the same zones by the names of the system's database, where they agree from 2008 on
static const char *NAMED[] = {"UTC", "Asia/Ho_Chi_Minh", "Asia/Kathmandu", nullptr, "America/New_York", "Pacific/Auckland"};
static const L SHOWN = 1510000123;
struct Env {  // the time zone of the process: one of the zones, or none
    int k; explicit Env(int k) : k(k) { if (k < 6) tz::use(ZONES[k]); else { unsetenv("TZ"); tzset(); } }
    void same(mc::Ctx &c) const { const char *e = getenv("TZ"); c.eq(B(e ? e : "(none)"), B(k < 6 ? ZONES[k].tz : "(none)"), "the TZ environment variable after format()"); if (k > 5) return; struct tm v; time_t s = SHOWN; localtime_r(&s, &v); F f = tz::local(ZONES[k], SHOWN); c.eq(v.tm_hour * 60 + v.tm_min, f.h * 60 + f.m, "the local time of the process after format()"); Date d(SHOWN * 1000); c.eq(d.getHours() * 60 + d.getMinutes(), f.h * 60 + f.m, "the local time of a Date after format()"); }
};
static void formats(mc::Ctx &c, const B &p, int z, L t, const Env &env) {
    Date d(t * 1000); Format f = Format(String(p)); if (z != 0 || t % 2) f.setTimeZone(TimeZone::getTimeZone(ZONES[z].tz)); B want = expand(p, ZONES[z], t); c.eq(S(f.format(d)), want, "format()"); c.eq((L)d.getTime(), t * 1000, "getTime() after format()"); env.same(c); Format g(p.c_str()); g.setTimeZone(TimeZone::getTimeZone(ZONES[z].tz)); c.eq(S(g.format(d)), want, "format() of another formatter");
}
SCENARIO(patterns, "every sequence of up to 2 of 48 pattern items, at 18 instants, in 6 zones (1 item: in a process of 7 zones)", 0, 2, 2) {
    B p; for (int i = 0; i < depth; i++) p += ITEM[c.choose(ITEMS)]; Env env(depth < 2 ? c.choose(7) : 1); c.note([&] { return mc::show(p) + " in the process zone " + std::to_string(env.k); }); uint64_t h = env.k; for (char k : p) h = mc::mix(h, k); c.state(h); for (int z = 0; z < 6; z++) for (int k = 0; k < TS; k++) { if (depth == 2 && (k + z) % 3) continue; L t = T[k]; if (ZONES[z].dst && t < 172800) continue; c.note([&] { return "zone " + B(ZONES[z].tz) + ", date " + std::to_string(t * 1000); }); formats(c, p, z, t, env); } 
}
SCENARIO(triples, "every sequence of 3 of 48 pattern items in 6 zones", 3, 3, 3) {
    B p; for (int i = 0; i < 3; i++) p += ITEM[c.choose(ITEMS)]; Env env(2); c.note([&] { return mc::show(p); }); uint64_t h = 3; for (char k : p) h = mc::mix(h, k); c.state(h); for (int k = 0; k < (c.thorough ? TS : 1); k++) { int z = (int)((h >> 3) % 6); L t = T[c.thorough ? k : h % TS]; if (ZONES[z].dst && t < 172800) continue; Format f = Format(String(p)); f.setTimeZone(TimeZone::getTimeZone(ZONES[z].tz)); c.eq(S(f.format(Date(t * 1000))), expand(p, ZONES[z], t), "format()"); env.same(c); }
}
SCENARIO(calendar, "the dates of all days from 1970 to 2100 in 6 zones, 3 hours, with week numbers", 1, 1, 1) {
    int z = c.choose(6), y = 1970 + c.choose(131); Env env((z + 1) % 6); static const L AT[] = {0, 45296, 86399}; Format f("%F %T %j %a %G-W%V-%u %U %W %y %z %Z %I%p"); f.setTimeZone(TimeZone::getTimeZone(ZONES[z].tz)); c.note([&] { return tz::fmt("%d in %s", y, ZONES[z].tz); }); c.state(mc::mix(z, y)); B p = "%F %T %j %a %G-W%V-%u %U %W %y %z %Z %I%p";
    for (L d = tz::days(y, 0); d < tz::days(y + 1, 0); d++) { L t = d * 86400 + AT[d % 3]; if (ZONES[z].dst && t < 172800) continue; c.eq(S(f.format(Date(t * 1000))), expand(p, ZONES[z], t), "format()"); }
}
SCENARIO(changes, "every half hour around the changes of the clock in 6 zones and 6 years, with zones by their names too", 1, 1, 1) {
    int z = c.choose(6), y = 2009 + 5 * c.choose(6), which = c.choose(4), named = NAMED[z] ? c.choose(2) : 0; L t = tz::seconds(y, which == 0 ? 2 : which == 1 ? 10 : which == 2 ? 8 : 3, 1, 0, 0, 0); Env env((z + 5) % 7); B p = "%Y-%m-%dT%T%z", q = "%c %s"; Format f = Format(String(p)), g = Format(String(q)); String id(named ? NAMED[z] : ZONES[z].tz); f.setTimeZone(TimeZone::getTimeZone(id)); g.setTimeZone(TimeZone::getTimeZone(id)); c.note([&] { return tz::fmt("%s from %ld", S(id).c_str(), t); }); c.state(mc::mix(t, z * 2 + named));
    for (int i = 0; i < 31 * 48; i++) { L u = t + i * 1800L; Date d(u * 1000); c.eq(S(f.format(d)), expand(p, ZONES[z], u), "format()"); if (i % 4 == 0) c.eq(S(g.format(d)), expand(q, ZONES[z], u), "format() of another pattern"); } env.same(c);
}
SCENARIO(long_patterns, "patterns of 0 to 120 (400) of each of 8 items", 1, 1, 1) {
    static const char *IT[] = {"%A", "%c", "x", "%%", "%d", "%r ", "%B\xc3\xa9", "%Z"}; int n = c.choose(c.thorough ? 401 : 121), k = c.choose(8), z = (n + k) % 6; B p; for (int i = 0; i < n; i++) p += IT[k]; c.note([&] { return tz::fmt("%d times %s", n, IT[k]); }); c.state(mc::mix(n, k)); L t = T[(n * 5 + k) % TS]; if (ZONES[z].dst && t < 172800) t += 86400 * 365; formats(c, p, z, t, Env(3));
}
SCENARIO(histories, "all histories of formatting, changing zones and copying of two formatters and two time zones", 1, 4, 5) {
    Env env(c.choose(7)); B p[2] = {"%H:%M %z", "%d %b %Z"}; Format f[2] = {Format(String(p[0])), Format(p[1].c_str())}; int fz[2] = {0, 0}, tzid[2] = {1, 4}; TimeZone zones[2] = {TimeZone::getTimeZone(ZONES[1].tz), TimeZone::getTimeZone(ZONES[4].tz)}; L t = 1489305599;
    for (int i = 0; i < depth; i++) {
        int op = c.choose(7), w = op == 6 ? 0 : c.choose(2);
        if (op == 0) { c.note([&] { return tz::fmt("formatter %d formats", w); }); c.eq(S(f[w].format(Date(t * 1000))), expand(p[w], ZONES[fz[w]], t), "format()"); }
        else if (op == 1 || op == 2) { int s = op - 1; c.note([&] { return tz::fmt("formatter %d gets time zone %d", w, s); }); f[w].setTimeZone(zones[s]); fz[w] = tzid[s]; }
        else if (op == 3) { int k = (i * 2 + w + 1) % 6; c.note([&] { return tz::fmt("time zone %d becomes that of %s", w, ZONES[k].tz); }); zones[w] = TimeZone::getTimeZone(ZONES[k].tz); tzid[w] = k; }
        else if (op == 4) { int k = (i + w + 2) % 6; c.note([&] { return tz::fmt("setID of time zone %d to %s", w, ZONES[k].tz); }); zones[w].setID(ZONES[k].tz); tzid[w] = k; }
        else if (op == 5) { c.note([&] { return tz::fmt("formatter %d = a copy of the other", w); }); Format copy(f[1 - w]); f[w] = copy; p[w] = p[1 - w]; fz[w] = fz[1 - w]; }
        else { c.note([] { return "the date moves by half a year"; }); t += 15768000; }
    }
    for (int w = 0; w < 2; w++) { c.eq(S(zones[w].getID()), B(ZONES[tzid[w]].tz), "getID()"); c.eq(S(f[w].format(Date(t * 1000))), expand(p[w], ZONES[fz[w]], t), "format()"); } env.same(c); c.state(mc::mix(mc::mix(fz[0] * 6 + fz[1], tzid[0] * 6 + tzid[1]), mc::mix(t, (p[0] == p[1]) * 2 + (p[0][1] == 'H'))));
}
int main(int argc, char **argv) { return mc::main(argc, argv); }
