// C16, C17: log lines and log filters.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <streambuf>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 1
#define VC_OWN_SNPRINTF
#include "vc_stream.h"
#include "log.h"
// ---------------------------------------------------------------- C17
VC_PROOF(log_filter_enabled) {
	u8 min = vc_u8("min"), sev = vc_u8("sev"), min2 = vc_u8("min2"); u16 cat = vc_u16("cat");
	abc::log_filter f(min);
	VC_CHECK("a line is admitted exactly when it is at least as severe as configured", f.is_enabled(cat, sev) == (sev <= min));
	VC_CHECK("the filter reports its setting", f.min_severity() == min);
	u8 was = f.min_severity(min2);
	VC_CHECK("changing the setting reports the old one", was == min);
	VC_CHECK("the new setting counts from then on", f.min_severity() == min2 && f.is_enabled(cat, sev) == (sev <= min2));
	abc::log_filter g(f); VC_CHECK("a copy has the same setting", g.min_severity() == min2);
	VC_CHECK("severity order", abc::severity::is_higher(sev, min) == (sev < min) && abc::severity::is_higher_or_equal(sev, min) == (sev <= min));
}
// a line type and a filter type that record how the log uses them
struct rec_t { u32 lines, any, bin, asked; bool answer, args, flt; abc::category_t c; abc::severity_t s; abc::tag_t t; const char* f; const void* b; u64 n; abc::table_ostream* tbl; };
static rec_t rec;
struct rline {
	rline(abc::table_ostream* t) { rec.lines++; rec.args = rec.args && t == rec.tbl; }
	void put_anyv(abc::category_t c, abc::severity_t s, abc::tag_t t, const char* f, va_list) noexcept { rec.any++; rec.args = rec.args && c == rec.c && s == rec.s && t == rec.t && f == rec.f; }
	void put_binary(abc::category_t c, abc::severity_t s, abc::tag_t t, const void* b, std::size_t n) noexcept { rec.bin++; rec.args = rec.args && c == rec.c && s == rec.s && t == rec.t && b == rec.b && n == rec.n; }
};
struct rfilter { bool is_enabled(abc::category_t c, abc::severity_t s) noexcept { rec.asked++; rec.flt = rec.flt && c == rec.c && s == rec.s; return rec.answer; } };
struct rlog {
	rfilter f; bool has; 
	rlog() { memset(&rec, 0, sizeof rec); has = vc_bool("has filter"); rec.answer = vc_bool("answer"); rec.args = rec.flt = true; rec.c = vc_u16("category"); rec.s = vc_u8("severity"); rec.t = vc_u64("tag"); rec.n = vc_u64("n"); rec.f = "%s"; rec.b = "x"; }
	bool pass() { return !has || rec.answer; }
};
using rec_log = abc::log_ostream<rline, rfilter>;
#define RCHECKS \
	VC_CHECK("the filter decides on exactly this category and severity", rec.flt && rec.asked <= 1 && (!w.has || rec.asked == 1)); \
	VC_CHECK("lines carry what was passed", rec.args);
VC_PROOF(log_put_any) {
	rlog w; vc_output o; rec_log log(o.sb(), w.has ? &w.f : nullptr); rec.tbl = &log;
	VC_CHECK("the log knows its filter", log.filter() == (w.has ? &w.f : nullptr));
	log.put_any(rec.c, rec.s, rec.t, rec.f);
	RCHECKS VC_CHECK("a line is put exactly when the filter admits it", rec.any == (w.pass() ? 1 : 0) && rec.lines == rec.any && rec.bin == 0);
	VC_CHECK("the destination is touched by lines only", o.size() == 0);
}
VC_PROOF(log_put_binary) {
	rlog w; vc_output o; rec_log log(o.sb(), w.has ? &w.f : nullptr); rec.tbl = &log;
	log.put_binary(rec.c, rec.s, rec.t, rec.b, rec.n);
	RCHECKS VC_CHECK("a dump is put exactly when the filter admits it", rec.bin == (w.pass() ? 1 : 0) && rec.lines == rec.bin && rec.any == 0);
	VC_CHECK("the destination is touched by lines only", o.size() == 0);
}
VC_PROOF(log_put_blank) {
	rlog w; vc_output o; rec_log log(o.sb(), w.has ? &w.f : nullptr); rec.tbl = &log;
	log.put_blank_line(rec.c, rec.s);
	RCHECKS VC_CHECK("a blank line is put exactly when the filter admits it", rec.lines == 0 && o.size() == (w.pass() && o.cap > 0 ? 1 : 0) && (o.size() == 0 || o.data[0] == '\n'));
}
VC_PROOF(log_move) {
	rlog w; vc_output o; rec_log log0(o.sb(), w.has ? &w.f : nullptr); rec_log log(std::move(log0)); rec.tbl = &log;
	log.put_any(rec.c, rec.s, rec.t, rec.f);
	RCHECKS VC_CHECK("a moved log keeps its filter", rec.any == (w.pass() ? 1 : 0) && rec.lines == rec.any);
}
// ---------------------------------------------------------------- C16: the three line layouts, over the contracts of line_ostream (proved in line.cpp)
#ifndef VC_NATIVE
static u32 vc_puts; static bool vc_open;   // pieces since the last flush
static u64 vc_flushes, vc_dumps, vc_off; static bool vc_more, vc_full, vc_dumped;   // dumped: a dump since the last flush
extern "C" {
	u64 vcstub__pthread_self() { return vc_u64("thread"); }
	void vcstub___ZNSt6localeC1Ev(void*) {} void vcstub___ZNSt6localeD1Ev(void*) {}
	void vcstub___ZNSoC2EOSo(vc_ios*, void*, vc_ios*) { vcg.state = 0; }
	vc_ios* vcstub___ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c(vc_ios* s, char c) { if (vcg.state == 0) { if (vcg.out_len >= vcg.out_cap) vcg.state |= 1; else vcg.out[vcg.out_len++] = c; } return s; }
}
VC_CONTRACT(log_ts_now, "^abc::timestamp<.*>::timestamp\\(\\)$");
extern "C" void vccontract__log_ts_now(void* t) { vc_havoc(t, sizeof(abc::timestamp<>)); }
VC_CONTRACT(log_line_any, "abc::line_ostream<.*>::put_any\\(char const\\*, \\.\\.\\.\\)");
extern "C" void vccontract__log_line_any(void*, const char* format) {
	bool end = false;
	for (u64 k = 0; k < vc_size_of_obj(format) && !end; k++) end = format[k] == 0;
	vc_assert(end, "the format is terminated inside its buffer");
	vc_puts++;
}
VC_CONTRACT(log_line_anyv, "abc::line_ostream<.*>::put_anyv\\(");
extern "C" void vccontract__log_line_anyv(void*, const char*, void*) { vc_puts++; }
VC_CONTRACT(log_line_thread, "abc::line_ostream<.*>::put_thread_id\\(");
extern "C" void vccontract__log_line_thread(void*, u64, const char*) { vc_puts++; }
VC_CONTRACT(log_line_flush, "abc::line_ostream<.*>::flush\\(");
extern "C" void vccontract__log_line_flush(void*) { vc_flushes++; vc_puts = 0; vc_dumped = false; }
VC_CONTRACT(log_line_binary, "abc::line_ostream<.*>::put_binary\\(");
extern "C" bool vccontract__log_line_binary(void*, const void*, u64 size, u64* offset) {
	vc_assert(!vc_dumped && vc_puts >= 2, "each part of a dump has a line of its own, with the properties in front");
	u8 x = vc_u8("dump"); vc_more = false; vc_off = *offset + 16; vc_full = x == 0; vc_dumped = true;
	if (x == 0 || size <= *offset) { vc_off = *offset; return false; }          // no room, or nothing left
	if (size - *offset < 16) { *offset += 16; return false; }
	*offset += 16; vc_dumps++; vc_more = true;
	return true;
}
#endif
#ifdef VC_NATIVE
#define LOOP
#define ANY_DONE true
#define DUMP_DONE true
#else
#define ANY_DONE vc_puts >= 2 && vc_flushes == 0
#define DUMP_DONE !vc_more && (vc_full || vc_off >= n)
#define LOOP vc_more = true; vc_off = 0; VC_INVT(t, t == vc_off); VC_INV(!vc_more || vc_off <= n); VC_INV(vc_more && vc_off == 0 ? !vc_dumped && vc_puts == 0 : vc_dumped); VC_INV(vc_more || vc_full || vc_off >= n); VC_RANK(vc_more ? 1 + (n - vc_off) : 0);
#endif
#define LAYOUT(L) \
VC_PROOF(log_##L##_any) { \
	u16 c = vc_u16("category"); u8 s = vc_u8("severity"); u64 t = vc_u64("tag"); \
	vc_unroll(60); \
	abc::L##_line_ostream<abc::size::k2> line; \
	line.put_any(c, s, t, "%s", "x"); \
	VC_CHECK("the properties and the text share one line, which is flushed once, when it is destroyed", ANY_DONE); \
} \
VC_PROOF(log_##L##_binary) { \
	u16 c = vc_u16("category"); u8 s = vc_u8("severity"); u64 t = vc_u64("tag"); u64 n = vc_u64("n"); vc_assume(n <= (u64(1) << 40)); const char* d = (const char*)vc_alloc(n, "data"); \
	abc::L##_line_ostream<abc::size::k2> line; LOOP \
	line.put_binary(c, s, t, d, n); \
	VC_CHECK("the dump covers the data and ends", DUMP_DONE); \
}
LAYOUT(debug) LAYOUT(diag) LAYOUT(test)
