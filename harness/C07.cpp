// C07: dates as index terms: exact to the resolution, and ordered like the times.
// groups: core
#include <boost/date_time/gregorian/gregorian.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>
#include "common.h"
#include "DateTools.h"
#include "DateField.h"
// stands in for boost::posix_time::to_iso_string, which needs locale facets
SX_STUB std::string sx_stub__ZN5boost10posix_time18to_iso_string_typeIcEENSt7__cxx1112basic_stringIT_St11char_traitsIS4_ESaIS4_EEENS0_5ptimeE(boost::posix_time::ptime t) {
    boost::gregorian::date::ymd_type d = t.date().year_month_day();
    int64_t us = t.time_of_day().ticks();
    std::string r;
    auto digits = [&](int64_t v, int64_t top) { for (int64_t p = top; p; p /= 10) r += (char)('0' + v / p % 10); };
    digits(d.year, 1000); digits(d.month.as_number(), 10); digits(d.day.as_number(), 10);
    r += 'T';
    int64_t s = us / 1000000;
    digits(s / 3600, 10); digits(s / 60 % 60, 10); digits(s % 60, 10);
    if (us % 1000000) { r += '.'; digits(us % 1000000, 100000); }
    return r;
}
static const DateTools::Resolution RES[] = {DateTools::RESOLUTION_YEAR, DateTools::RESOLUTION_MONTH, DateTools::RESOLUTION_DAY, DateTools::RESOLUTION_HOUR, DateTools::RESOLUTION_MINUTE, DateTools::RESOLUTION_SECOND, DateTools::RESOLUTION_MILLISECOND};
static const int64_t DAY = 86400000LL;
static int64_t daysOf(int y, int m, int d) {         // days since 1970-01-01 in the Gregorian calendar
    y -= m <= 2;
    int64_t era = (y >= 0 ? y : y - 399) / 400;
    int yoe = (int)(y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
    return era * 146097 + (int64_t)yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468;
}
static bool leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static int monthDays(int y, int m) { static const int D[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return D[m - 1] + (m == 2 && leap(y)); }
static String two(int v, int n = 2) { String r; for (int p = n == 4 ? 1000 : n == 3 ? 100 : 10; p; p /= 10) r += (wchar_t)(L'0' + v / p % 10); return r; }
// a moment given by its parts, some of them symbolic
struct Moment {
    int y, mo, d, h, mi, s, ms;
    int64_t time() const { return daysOf(y, mo, d) * DAY + h * 3600000LL + mi * 60000LL + s * 1000LL + ms; }
    String text(int res) const {
        String t = two(y, 4);
        if (res >= 1) t += two(mo);
        if (res >= 2) t += two(d);
        if (res >= 3) t += two(h);
        if (res >= 4) t += two(mi);
        if (res >= 5) t += two(s);
        if (res >= 6) t += two(ms, 3);
        return t;
    }
    Moment cut(int res) const {
        Moment m = *this;
        if (res < 6) m.ms = 0;
        if (res < 5) m.s = 0;
        if (res < 4) m.mi = 0;
        if (res < 3) m.h = 0;
        if (res < 2) m.d = 1;
        if (res < 1) m.mo = 1;
        return m;
    }
};
static const int YEARS[] = {1970, 1969, 2000, 1999, 2004, 1900, 2100, 1601, 9999, 1400};
static Moment someMoment(int free) {
    Moment m = {YEARS[sx_choose("year", TIER(6, 10))], 1, 1, 0, 0, 0, 0};
    int late = (int)sx_choose("late", 2);
    if (late) { m.mo = 12; m.d = 31; m.h = 23; m.mi = 59; m.s = 59; m.ms = 999; }
    switch (free) {
    case 0: m.mo = (int)sx_range("month", 1, 12); m.d = late ? monthDays(m.y, m.mo) : 1; break;
    case 1: m.mo = (int[]){2, 3, 4, 12}[sx_choose("month", 4)]; m.d = (int)sx_range("day", 1, monthDays(m.y, m.mo)); break;
    case 2: m.h = (int)sx_range("hour", 0, 23); break;
    case 3: m.mi = (int)sx_range("minute", 0, 59); break;
    case 4: m.s = (int)sx_range("second", 0, 59); break;
    case 5: m.ms = (int)sx_range("millisecond", 0, 999); break;
    }
    return m;
}
// the text of a moment is its digits; reading it back gives the moment cut to the resolution
SX_ENTRY(round_trip) {
    Moment m = someMoment((int)sx_choose("part", 6));
    int res = (int)sx_choose("resolution", 7);
    int64_t t = m.time();
    String s = DateTools::timeToString(t, RES[res]);
    sx_assert(s == m.text(res), "the text of a moment are its digits down to the resolution");
    int64_t c = m.cut(res).time();
    sx_assert(DateTools::stringToTime(s) == c, "reading a date gives the moment cut to the resolution");
    sx_assert(DateTools::round(t, RES[res]) == c, "rounding cuts to the resolution");
    sx_assert(DateTools::timeToString(c, RES[res]) == s, "a rounded moment has the same text");
    sx_cover("round_trip");
}
// dates as given to the library
SX_ENTRY(dates) {
    Moment m = someMoment((int)sx_choose("part", 6));
    int res = (int)sx_choose("resolution", 7);
    boost::posix_time::ptime epoch(boost::gregorian::date(1970, 1, 1)), p = epoch + boost::posix_time::milliseconds(m.time());
    sx_assert(DateTools::dateToString(p, RES[res]) == m.text(res), "the text of a date");
    boost::posix_time::ptime q = DateTools::stringToDate(m.text(res));
    sx_assert((q - epoch).total_milliseconds() == m.cut(res).time(), "a date read from text");
    sx_assert((DateTools::round(p, RES[res]) - epoch).total_milliseconds() == m.cut(res).time(), "a rounded date");
    sx_cover("dates");
}
// texts are ordered like times, at every resolution
SX_ENTRY(order) {
    Moment m = someMoment((int)sx_choose("part", 6));
    static const int64_t STEP[] = {1, 999, 1000, 59999, 3600000, DAY, 31 * DAY, 366 * DAY};
    int64_t t = m.time(), u = t + STEP[sx_choose("step", 8)] * (int64_t)(1 + sx_choose("times", 2));
    if (u > daysOf(9999, 12, 31) * DAY + DAY - 1) sx_stop();
    int res = (int)sx_choose("resolution", 7);
    String a = DateTools::timeToString(t, RES[res]), b = DateTools::timeToString(u, RES[res]);
    sx_assert(a.compare(b) <= 0, "texts are ordered like times");
    sx_assert((a == b) == (DateTools::round(t, RES[res]) == DateTools::round(u, RES[res])), "texts are equal exactly when the rounded times are");
    sx_cover("order");
}
// texts that are no dates are refused
SX_ENTRY(bad_dates) {
    Moment m = {2004, 2, 28, 0, 0, 0, 0};
    m.y = 1996 + (int)sx_choose("year", 8);
    m.mo = (int)sx_range("month", 0, 14);
    m.d = (int)sx_range("day", 0, 33);
    bool ok = m.mo >= 1 && m.mo <= 12 && m.d >= 1 && m.d <= monthDays(m.y, m.mo);
    bool threw = false;
    int64_t t = 0;
    try { t = DateTools::stringToTime(m.text(2)); } catch (LuceneException& e) { threw = true; req(e.getType() == LuceneException::Parse, "a text that is no date is a parse error"); }
    sx_assert(threw == !ok, "exactly the days of the calendar are dates");
    if (!threw) sx_assert(t == m.time(), "the day");
    sx_cover("bad_dates");
}
// DateField: fixed length, ordered, exact
SX_ENTRY(date_field) {
    static const int64_t B[] = {0, 35, 1295, 46655, 1679615, 60466175, 2176782335LL, 78364164095LL, 2821109907455LL, 101559956668415LL, 1100000000000LL};
    int64_t t = B[sx_choose("base", 11)] + sx_range("ms", -40, 40), u = t + (int64_t[]){1, 36, 1297, 1000000007LL}[sx_choose("step", 4)];
    bool bad = t < 0, late = u > 101559956668415LL;
    if (bad) { req(THROWS(DateField::timeToString(t)), "a time before 1970 is refused"); sx_cover("early"); return; }
    if (late) { req(THROWS(DateField::timeToString(u)), "a time too late for the length is refused"); sx_cover("late"); return; }
    String a = DateField::timeToString(t), b = DateField::timeToString(u);
    req(a.size() == DateField::MAX_DATE_STRING().size() && a.size() == b.size(), "all texts have the same length");
    sx_assert(a < b, "texts are ordered like times");
    sx_assert(DateField::stringToTime(a) == t && DateField::stringToTime(b) == u, "reading gives the time");
    sx_assert(DateField::MIN_DATE_STRING() <= a && b <= DateField::MAX_DATE_STRING(), "all texts are within the bounds");
    sx_cover("date_field");
}
