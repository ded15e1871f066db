// C15: clock readings as calendar dates and times of day.
#include "vc.h"
#include <chrono>
#include <cstring>
#define private public
#include "timestamp.h"
#undef private
using ts = abc::timestamp<>;
static bool leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static int leaps(int y) { return y / 4 - y / 100 + y / 400; }       // leap years among the years 1 to y
static int days_of(int m, bool l) { return m == 2 ? (l ? 29 : 28) : m == 4 || m == 6 || m == 9 || m == 11 ? 30 : 31; }
static int before(int m, bool l) { return m == 1 ? 0 : m == 2 ? 31 : (m == 3 ? 59 : m == 4 ? 90 : m == 5 ? 120 : m == 6 ? 151 : m == 7 ? 181 : m == 8 ? 212 : m == 9 ? 243 : m == 10 ? 273 : m == 11 ? 304 : 334) + (l ? 1 : 0); }
static int day_number(int y, int m, int d) { return 365 * (y - 1970) + leaps(y - 1) - leaps(1969) + before(m, leap(y)) + d - 1; }
static const int last_day = 11248737;     // Dec 31, 32767: the last date that a timestamp can hold
// every date in parts, so that what is left to the solver is linear: the month from March to February, in the year that began
// with the March 100 * c + 4 * f + o years after 1600 + 400 * q
static int one_of(int n, const char* name) {
	u8 x = vc_u8(name); vc_assume(x < n);
	if (x == 0) return 0; if (x == 1) return 1; if (x == 2) return 2; if (x == 3) return 3; if (x == 4) return 4; if (x == 5) return 5; if (x == 6) return 6; if (x == 7) return 7; if (x == 8) return 8; if (x == 9) return 9; if (x == 10) return 10; return 11;
}
struct date_t { int y, m, d, n; bool l; };
static date_t any(int c) {
	vc_lia(); date_t r; int q = vc_u8("q"), f = vc_u8("f"); vc_assume(q <= 77 && f < 25);
	int o = one_of(4, "o"), k = one_of(12, "month"); r.m = k < 10 ? k + 3 : k - 9;
	vc_hint((u64)q); vc_hint((u64)(q - 1)); vc_hint((u64)f); vc_hint((u64)c); vc_hint((u64)o);
	r.y = 1600 + 400 * q + 100 * c + 4 * f + o + (r.m <= 2 ? 1 : 0); vc_assume(r.y >= 1970 && r.y <= 32767);
	r.l = o == 3 && (c == 3 || f < 24);      // for January and February
	r.d = vc_u8("day"); vc_assume(r.d >= 1 && r.d <= days_of(r.m, r.l));
	r.n = 146097 * q + 36524 * c + 1461 * f + 365 * o - 135080 + (r.m > 2 ? before(r.m, false) - 59 : before(r.m, false) + 306) + r.d - 1;
	return r;
}
// lemma: the parts make up every date of the Gregorian calendar
static void lemma(int c) {
	date_t a = any(c);
	VC_CHECK("leap years", a.m > 2 || leap(a.y) == a.l);
	VC_CHECK("the number of the day", a.n == day_number(a.y, a.m, a.d));
}
static void date(int c) {
	date_t a = any(c);
	ts t(nullptr);
	t.reset_date(a.n);
	VC_CHECK("a day number gives the Gregorian date of that day", t.year() == a.y && t.month() == a.m && t.day() == a.d);
}
VC_PROOF(ts_lemma_0) { lemma(0); }
VC_PROOF(ts_lemma_1) { lemma(1); }
VC_PROOF(ts_lemma_2) { lemma(2); }
VC_PROOF(ts_lemma_3) { lemma(3); }
VC_PROOF(ts_rdate__0) { date(0); }
VC_PROOF(ts_rdate__1) { date(1); }
VC_PROOF(ts_rdate__2) { date(2); }
VC_PROOF(ts_rdate__3) { date(3); }
// the day numbers do number the days of the calendar: the last day of a year is followed by the first of the next one, months follow one another (lemma)
VC_PROOF(ts_lemma_next) {
	vc_lia(); int q = vc_u8("q"), f = vc_u8("f"); vc_assume(q <= 81 && f < 25); int c = one_of(4, "c"), o = one_of(4, "o");
	int y = 400 * q + 100 * c + 4 * f + o; vc_assume(y >= 1970 && y < 32767);
	vc_hint((u64)q); vc_hint((u64)(q - 1)); vc_hint((u64)(4 * q + c)); vc_hint((u64)(4 * q + c - 1)); vc_hint((u64)(100 * q + 25 * c + f)); vc_hint((u64)(100 * q + 25 * c + f - 1));
	VC_CHECK("years follow one another", day_number(y + 1, 1, 1) == day_number(y, 12, 31) + 1);
	VC_CHECK("counted from the epoch", day_number(1970, 1, 1) == 0 && day_number(32767, 12, 31) == last_day);
}
VC_PROOF(ts_lemma_months) {
	bool l = vc_bool("leap"); int m = one_of(11, "month") + 1;
	VC_CHECK("months follow one another", before(m + 1, l) == before(m, l) + days_of(m, l));
}
// every year from 1970 has its parts
VC_PROOF(ts_lemma_parts) {
	vc_lia(); int y = (int)(vc_u32("year") & 0x7fff); vc_assume(y >= 1969);       // the year of the March before
	int r = y - 1600, q = r / 400, c = r % 400 / 100, f = r % 100 / 4, o = r % 4;
	VC_CHECK("parts", q >= 0 && q <= 77 && c >= 0 && c < 4 && f >= 0 && f < 25 && o >= 0 && o < 4 && y == 1600 + 400 * q + 100 * c + 4 * f + o);
}
// ---------------------------------------------------------------- times of day
VC_PROOF(ts_rtime__all) {
	u64 ns = vc_u64("nanoseconds"); vc_assume(ns < 86400ull * 1000000000ull); vc_lia();
	u64 s = ns / 1000000000;
	vc_hint(s); vc_hint(s / 60); vc_hint(s / 3600);
	ts t(nullptr);
	t.reset_time((abc::time_count_t)ns);
	VC_CHECK("hours, minutes and seconds are in range", t.hours() >= 0 && t.hours() < 24 && t.minutes() >= 0 && t.minutes() < 60 && t.seconds() >= 0 && t.seconds() < 60);
	VC_CHECK("the fraction is in range", t.nanoseconds() >= 0 && t.nanoseconds() < 1000000000);
	VC_CHECK("the time of day is that of the reading", (((u64)t.hours() * 60 + (u64)t.minutes()) * 60 + (u64)t.seconds()) * 1000000000 + (u64)t.nanoseconds() == ns);
	VC_CHECK("milliseconds and microseconds are the fraction, rounded down", (u64)t.milliseconds() == (u64)t.nanoseconds() / 1000000 && (u64)t.microseconds() == (u64)t.nanoseconds() / 1000);
}
#ifndef VC_NATIVE
struct parts_t { u32 dates, times; abc::date_count_t days; abc::time_count_t ns; };
static parts_t g;
VC_CONTRACT(ts_rdate, "^abc::timestamp<.*>::reset_date\\(int\\)");
VC_CONTRACT(ts_rtime, "^abc::timestamp<.*>::reset_time\\(long\\)");
extern "C" void vccontract__ts_rdate(void*, abc::date_count_t d) { g.dates++; g.days = d; }
extern "C" void vccontract__ts_rtime(void*, abc::time_count_t n) { g.times++; g.ns = n; }
#endif
// a clock reading (from the epoch on) is its day and its time of day
VC_PROOF(ts_reading) {
	u64 ns = vc_u64("nanoseconds"); vc_assume(ns < (u64(1) << 63)); vc_lia();
	u64 day = 86400ull * 1000000000ull; vc_hint(ns / day);
	bool tp = vc_bool("time point");
	std::chrono::system_clock::time_point p{std::chrono::duration_cast<std::chrono::system_clock::duration>(std::chrono::nanoseconds((long)ns))};
#ifdef VC_NATIVE
	ts t(nullptr); if (tp) t.reset(p); else t.reset((abc::time_count_t)ns);
	ts u(nullptr); u.reset_date((int)(ns / day)); u.reset_time((long)(ns % day));
	VC_CHECK("day and time of day", t.year() == u.year() && t.month() == u.month() && t.day() == u.day() && t.hours() == u.hours() && t.minutes() == u.minutes() && t.seconds() == u.seconds() && t.nanoseconds() == u.nanoseconds());
#else
	ts t(p); memset(&g, 0, sizeof g);
	if (tp) t.reset(p); else t.reset((abc::time_count_t)ns);
	VC_CHECK("day and time of day", g.dates == 1 && g.times == 1 && (u64)g.days == ns / day && (u64)g.ns == ns % day);
#endif
}
// timestamps are ordered as their instants
VC_PROOF(ts_order) {
	static const u64 day = 86400ull * 1000000000ull; vc_lia();
	u64 d1 = vc_u32("d1"), d2 = vc_u32("d2"), n1 = vc_u64("n1"), n2 = vc_u64("n2"); vc_assume(d1 < 106751 && d2 < 106751 && n1 < day && n2 < day);
	u64 a = d1 * day + n1, b = d2 * day + n2;
	ts t(nullptr), u(nullptr); t.reset_date((int)d1); t.reset_time((long)n1); u.reset_date((int)d2); u.reset_time((long)n2);
#ifndef VC_NATIVE
	t._days_since_epoch = (int)d1; t._nanoseconds_since_midnight = (long)n1; u._days_since_epoch = (int)d2; u._nanoseconds_since_midnight = (long)n2;
#endif
	VC_CHECK("equal when they are the same instant", (t == u) == (a == b) && (t != u) == (a != b));
	VC_CHECK("ordered by their instants", (t < u) == (a < b) && (t <= u) == (a <= b) && (t > u) == (a > b) && (t >= u) == (a >= b));
}
