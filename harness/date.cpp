// C17: dates
#include "common.hpp"
#include "vmime/utility/datetimeUtils.hpp"
namespace stub { void install(); }
static int sym(int lo, int hi) { int v = (int)vs_u16(); v -= 16384; vs_assume(vs_and(v >= lo, v <= hi)); return v; }
static bool leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static const int CUM[2][13] = { { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365 }, { 0, 31, 60, 91, 121, 152, 182, 213, 244, 274, 305, 335, 366 } };
// days since 1 January of year 1
static int days(int y, int m, int d) { int k = y - 1; return 365 * k + k / 4 - k / 100 + k / 400 + CUM[leap(y)][m - 1] + d - 1; }
static int dim(int y, int m) { return CUM[leap(y)][m] - CUM[leap(y)][m - 1]; }
static void inRange(const datetime& d, const char* label) {
	int m = d.getMonth(); vs_check(vs_and(m >= 1, m <= 12), label);
	int k = d.getDay() >= 1; k = vs_and(k, d.getDay() <= dim(d.getYear(), m)); k = vs_and(k, vs_and(d.getHour() >= 0, d.getHour() <= 23)); k = vs_and(k, vs_and(d.getMinute() >= 0, d.getMinute() <= 59)); k = vs_and(k, vs_and(d.getSecond() >= 0, d.getSecond() <= 59));
	k = vs_and(k, vs_and(d.getZone() > -6000, d.getZone() < 6000)); k = vs_and(k, d.getYear() >= 0);
	vs_check(k, label);
}
// years on either side of which the calendar changes
static const int YEARS[] = { 1999, 2000, 2001, 2003, 2004, 2099, 2100, 2101, 1899, 1903, 1904, 9998, 1582, 1970, 2038, 4999 };
static const int ZH[] = { 0, 1, 5, 9, 12, 14, 23, 24, 25, 47, 48, 72, 99 };
static int number(int lo, int hi, unsigned bit) { // one or two digits
	long dig = vs_param("dig", -1); if (dig < 0) return vs_range(lo, hi);
	return dig >> bit & 1 ? vs_range(10, hi) : vs_range(lo, hi < 9 ? hi : 9);
}
static int zone(const char* hours, const char* neg) { int z = (P("zdig", 0) ? number(0, 14, 4) : ZH[P(hours, 0)]) * 60 + (vs_param("zm", -1) >= 0 ? (int)vs_param("zm", 0) : number(0, 59, 5)); return P(neg, 0) ? -z : z; }
static datetime symDate(int y, const char* hours, const char* neg) {
	int m = P("mc", 0) ? (int)P("mc", 0) : vs_range(1, 12), d = number(1, 31, 0), h = number(0, 23, 1), mi = number(0, 59, 2), s = number(0, 59, 3), z = zone(hours, neg);
	vs_assume(d <= dim(y, m));
	return datetime(y, m, d, h, mi, s, z);
}
static int minutes(const datetime& d, int y0) { // since the start of the year before y0 (y0 - 1 .. y0 + 1)
	int y = d.getYear(), t = CUM[leap(y)][d.getMonth() - 1] + d.getDay(); if (y >= y0) t += CUM[leap(y0 - 1)][12]; if (y > y0) t += CUM[leap(y0)][12];
	vs_check(vs_and(y >= y0 - 1, y <= y0 + 1), "a date stays within a year"); return t * 1440 + d.getHour() * 60 + d.getMinute() - d.getZone();
}
static int sameInstant(const datetime& a, const datetime& b, int y0) { return vs_and(minutes(a, y0) == minutes(b, y0), a.getSecond() == b.getSecond()); }
static void obs(const char* l, const datetime& d) { char b[8]; const int v[7] = { d.getYear(), d.getMonth(), d.getDay(), d.getHour(), d.getMinute(), d.getSecond(), d.getZone() }; (void)b; for (int i = 0; i < 7; i++) vs_observe_int(l, (uint64_t)(uint32_t)v[i]); }
static int eqFields(const datetime& a, const datetime& b) {
	int k = a.getYear() == b.getYear(); k = vs_and(k, a.getMonth() == b.getMonth()); k = vs_and(k, a.getDay() == b.getDay()); k = vs_and(k, a.getHour() == b.getHour()); k = vs_and(k, a.getMinute() == b.getMinute()); k = vs_and(k, a.getSecond() == b.getSecond()); return vs_and(k, a.getZone() == b.getZone());
}
HARNESS h_date_rt() {
	stub::install();
	datetime d = symDate(YEARS[P("y", 0)], "zh", "zneg");
	string s = d.generate(); observe("s", s);
	datetime e; e.parse(s); obs("e", e);
	vs_check(eqFields(d, e), "a generated date is read back the same");
	vs_check(e == d, "a date read back equals the one generated");
	shared_ptr<component> c = d.clone(); vs_check(eqFields(dynamic_cast<datetime&>(*c), d), "a clone is the same date"); datetime f; f = d; vs_check(eqFields(f, d), "an assigned date is the same");
	vs_reach("end");
}
HARNESS h_date_utc() {
	stub::install();
	int y = YEARS[P("y", 0)]; datetime d = symDate(y, "zh", "zneg");
	datetime u = utility::datetimeUtils::toUniversalTime(d); obs("u", u);
	inRange(u, "a date in universal time has its fields in range");
	vs_check(u.getZone() == 0, "a date in universal time has zone 0");
	vs_check(sameInstant(u, d, y), "universal time is the same instant");
	vs_reach("end");
}
HARNESS h_date_local() {
	stub::install();
	int y = YEARS[P("y", 0)]; datetime d = symDate(y, "zh", "zneg"); int w = zone("wh", "wneg");
	datetime u = utility::datetimeUtils::toLocalTime(d, w); obs("u", u);
	inRange(u, "a date in local time has its fields in range");
	vs_check(u.getZone() == w, "a date in local time has the zone asked for");
	vs_check(sameInstant(u, d, y), "local time is the same instant");
	vs_reach("end");
}
HARNESS h_date_cmp() {
	stub::install();
	int y = YEARS[P("y", 0)]; datetime a = symDate(y, "zh", "zneg"), b = symDate(y + (int)P("dy", 0), "wh", "wneg");
	long i = minutes(a, y) * 60L + a.getSecond(), j = minutes(b, y) * 60L + b.getSecond();
	switch (P("op", 0)) {
	case 0: vs_check((a == b) == (i == j), "== compares instants"); break;
	case 1: vs_check((a != b) == (i != j), "!= compares instants"); break;
	case 2: vs_check((a < b) == (i < j), "< compares instants"); break;
	case 3: vs_check((a <= b) == (i <= j), "<= compares instants"); break;
	case 4: vs_check((a > b) == (i > j), "> compares instants"); break;
	case 5: vs_check((a >= b) == (i >= j), ">= compares instants"); break;
	}
	vs_reach("end");
}
HARNESS h_date_week() {
	stub::install();
	int y = sym((int)P("y", 1600), (int)P("y2", 2000)), m = (int)vs_concrete(vs_range(1, 12)), d = vs_range(1, 31); vs_assume(d <= dim(y, m));
	int n = days(y, m, d), w = (n + 1) % 7; // 1 January of year 1 is a Monday
	vs_check(utility::datetimeUtils::isLeapYear(y) == leap(y), "leap years"); vs_check(utility::datetimeUtils::getDaysInMonth(y, m) == dim(y, m), "days in a month");
	int gw = utility::datetimeUtils::getDayOfWeek(y, m, d); vs_observe_int("gw", gw); vs_check(gw == w, "the day of the week");
	if (P("week", 1)) { // the week holds the Thursday of this one
		int t = n - n % 7 + 3; // that Thursday
		int s = days(y, 1, 1), e = days(y + 1, 1, 1), p = days(y - 1, 1, 1);
		int k = t < s ? (t - p) / 7 + 1 : t >= e ? 1 : (t - s) / 7 + 1;
		int g = utility::datetimeUtils::getWeekOfYear(y, m, d, true); vs_observe_int("g", g); vs_check(g == k, "the ISO week of the year");
		int c = utility::datetimeUtils::getWeekOfYear(y, m, d); vs_check(c == (k == 1 && m == 12 ? 53 : k), "the week of the year");
	}
	vs_reach("end");
}
// any text
static const char* PRE[] = { "", "Tue, ", "Tue, 1", "Tue, 31 ", "1 Feb ", "31 Apr", "29 Feb 20", "1 Jan 2020", "1 Jan 2020 ", "1 Jan 2020 1", "1 Jan 2020 12:", "1 Jan 2020 12:34", "1 Jan 2020 12:34:", "1 Jan 2020 12:34:56", "1 Jan 2020 12:34:56 ", "1 Jan 2020 12:34:56 +", "1 Jan 2020 12:34:56 -99", "Jan 1 ", "Jan ", "1 Jan 21474836", "1 Jan 2020 12:34:56 +21474836", "42949673" };
static const char* SUF[] = { "", " 2020 12:34:56 +0200", "0", ":5", " Feb 2019 00:00:00 Z", "29 Feb 1900" };
HARNESS h_date_parse() {
	stub::install();
	string in = string(PRE[P("pfx", 0)]) + symStr(vs_choice(P("n", 2) + 1)) + SUF[P("sfx", 0)]; observe("in", in);
	datetime a; a.parse(in); obs("a", a);
	inRange(a, "a parsed date has its fields in range");
	string g = a.generate(); observe("g", g); vs_check(g.size() > 0, "a parsed date can be generated");
	datetime b(2011, 12, 13, 14, 15, 16, 17); b.parse(in); vs_check(eqFields(a, b), "what a date held before does not change what is parsed");
	datetime c(in); vs_check(eqFields(a, c), "constructing from a text is parsing it");
	static const char* AFT[] = { "9", "A", ":", " +0100", "0:0" };
	string o = "7" + in + AFT[P("aft", 0)]; datetime d; size_t np = 0; d.parse(parsingContext::getDefaultContext(), o, 1, 1 + in.size(), &np); vs_check(eqFields(a, d), "what surrounds a date does not change it"); vs_check(np == 1 + in.size(), "a date takes its whole region");
	datetime e; e.parse(g); if (a.getYear() >= 1000) vs_check(eqFields(a, e), "a parsed date survives generation");
	vs_reach("end");
}
// well-formed texts mean what RFC 822 says
static char cs(char c) { return vs_choice(2) ? c : char(c >= 'a' ? c - 32 : c + 32); }
HARNESS h_date_forms() {
	stub::install();
	static const char* MON[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
	size_t f = P("form", 0); string s; int m = 1 + vs_choice(12), D = vs_range(1, 28), y = 2020, h = 12, mi = 34, sec = 0, z = 0;
	auto two = [](int v) { string r; r += char('0' + v / 10); r += char('0' + v % 10); return r; };
	string mon = MON[m - 1]; if (f == 1) for (auto& c : mon) c = cs(c);
	string day; if (P("d1", 0)) { vs_assume(D < 10); day += char('0' + D); } else day = two(D);
	string ys = "2020";
	if (f == 2) { int v = vs_range(0, 99); vs_assume(vs_or(v < 50, v >= 70)); ys = two(v); y = v < 50 ? 2000 + v : 1900 + v; }
	if (f == 3) { int v = vs_range(0, 50); ys = "1" + two(v); y = 2000 + v; }
	if (f == 4) { h = vs_range(0, 23); mi = vs_range(0, 59); sec = vs_range(0, 59); }
	string t = two(h) + ":" + two(mi); if (f == 4) t += ":" + two(sec);
	string zs = "+0000";
	if (f == 5) { static const char* Z[] = { "UT", "GMT", "EST", "EDT", "CST", "CDT", "MST", "MDT", "PST", "PDT", "Z" }; static const int O[] = { 0, 0, -5, -4, -6, -5, -7, -6, -8, -7, 0 }; size_t k = vs_choice(11); zs = Z[k]; z = O[k] * 60; if (P("lower", 0)) for (auto& c : zs) c = char(c + 32); }
	if (f == 6) { int a = vs_range(0, 23), b = vs_range(0, 59); bool neg = vs_choice(2); zs = (neg ? "-" : "+") + two(a) + two(b); z = (a * 60 + b) * (neg ? -1 : 1); }
	if (f == 7) { unsigned k = vs_choice(24); char c = char('A' + k + (k >= 9)); zs = string(1, c); z = k < 12 ? -60 * ((int)k + 1) : 60 * ((int)k - 11); }
	if (f == 8) { static const char* W[] = { "Mon, ", "TUE ,", "wed", "Thursday, ", "\tFri,\t", " Sat ", "Sun,\r\n " }; s = W[vs_choice(7)]; if (s == "wed") s += " "; }
	if (f == 9) { unsigned k = vs_choice(3); t = k == 0 ? "12 : 34 : 56" : k == 1 ? "12 :34:56" : "12: 34 :56"; sec = 56; }
	static const char* SP[] = { " ", "  ", "\t", "\r\n " }; const char* sp = SP[P("sp", 0)];
	s += day + sp + mon + sp + ys + sp + t; if (f != 10) s += sp + zs; observe("s", s);
	datetime a; a.parse(s); obs("a", a);
	vs_check(eqFields(a, datetime(y, m, D, h, mi, sec, z)), "a well-formed date means what RFC 822 says");
	vs_reach("end");
}
