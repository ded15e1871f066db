// C16, C17: table lines, log lines and log filters. std::streambuf's own code is verified along.
// vc-passes: function(sroa,early-cse<memssa>,simplifycfg<sink-common-insts;hoist-common-insts>)
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <streambuf>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 1
#define VC_OWN_SNPRINTF
#include "vc_stream.h"
#include "vc_cstr.h"
#include "log.h"
// the text that the next formatted print produces
struct vc_fmt_t { const char* text; u64 len; bool error; };
static vc_fmt_t vc_fmt;
#ifndef VC_NATIVE
static u64 vc_emit(const char* b, u64 n) {
	bool full = n > vcg.out_cap - vcg.out_len;
	u64 m = full ? vcg.out_cap - vcg.out_len : n;
	vc_copy(vcg.out + vcg.out_len, b, m);
	vcg.out_len += m;
	if (full) vcg.state |= 1;
	return full ? m + 1 : n;
}
static bool vc_bad_thread_id;
extern "C" {
	void vcstub___ZNSt6localeC1Ev(void*) {} void vcstub___ZNSt6localeD1Ev(void*) {}
	void vcstub___ZNSoC2EOSo(vc_ios*, void*, vc_ios*) { vcg.state = 0; }
	// C99 vsnprintf: at most n bytes are written, the last one a terminator; the length of the whole text is returned
	int vcstub__vsnprintf(char* p, std::size_t n, const char* format, void*) {
		vc_assert(vc_valid(p, n), "vsnprintf destination holds n bytes");
		if (vc_fmt.error) { if (n > 0) vc_havoc(p, n); return -1; }
		if (n > 0) { bool fits = vc_fmt.len < n; u64 m = fits ? vc_fmt.len : n - 1; vc_copy(p, vc_fmt.text, m); p[m] = 0; }
		return (int)vc_fmt.len;
	}
	// std::ostream::write
	vc_ios* vcstub___ZNSo5writeEPKcl(vc_ios* s, const char* p, long n) {
		vc_assert(n >= 0 && vc_valid(p, (u64)n), "written text holds n bytes");
		if (vcg.state != 0) { if (vcg.state & 1) vcg.state |= 4; return s; }
		vc_emit(p, (u64)n);
		return s;
	}
	vc_ios* vcstub___ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c(vc_ios* s, char c) {
		if (vcg.state != 0) return s;
		vc_emit(&c, 1);
		return s;
	}
	int vcstub__isprint(int c) { vc_assert(c >= -1 && c <= 255, "isprint argument is a character"); return c >= 32 && c < 127; }
}
// the clock is read into any time; the parts of a time are any numbers
VC_CONTRACT(ts_now, "^abc::timestamp<.*>::timestamp\\(\\)$");
extern "C" void vccontract__ts_now(void* t) { vc_havoc(t, sizeof(abc::timestamp<>)); }
#endif
// ---------------------------------------------------------------- lines
struct text {
	char* p; u64 n;
	text(const char* name) { n = vc_u64(name); vc_assume(n < (u64(1) << 31)); p = (char*)vc_alloc(n, name); }
};
#ifdef VC_NATIVE
#include <string>
static std::string vc_keep[4]; static int vc_keepn;
// every text goes in as the argument of a format, so make it a C string first (NUL bytes become spaces)
static void fmt(text& t, bool) { for (u64 i = 0; i < t.n; i++) if (t.p[i] == 0) t.p[i] = ' '; vc_keep[vc_keepn & 3] = std::string(t.p, t.n); vc_fmt.text = vc_keep[vc_keepn & 3].c_str(); vc_keepn++; }
#define PUT(line, t, err) do { fmt(t, err); (line).put_any("%s", vc_fmt.text); } while (0)
static bool errors() { return false; }
#else
#define PUT(line, t, err) do { vc_fmt.text = (t).p; vc_fmt.len = (t).n; vc_fmt.error = (err); (line).put_any("%s", (t).p); } while (0)
static bool errors() { return vc_bool("format error"); }
#endif
template <std::size_t S> struct cap { static const u64 max = S; };
// the line holds the first m characters of a followed by b, all of them unless the line is full
#define HOLDS(got, a, an, b, bn) \
	u64 m = 0; { u64 all = (an) + (bn); bool cut = all >= S; m = cut ? (S > 0 ? S - 1 : 0) : all; } \
	VC_CHECK("the line holds the text composed, cut off where the line ends", !(j < m) || (got)[j] == (j < (an) ? (a)[j] : (b)[j - (an)])); \
	VC_CHECK("the text is terminated", (got)[m] == 0);
template <std::size_t S> static void two_pieces() {
	text a("a"), b("b"); u64 j = vc_u64("j"); vc_assume(j < (u64(1) << 33));
	bool ea = errors(), eb = errors(); u64 an = ea ? 0 : a.n, bn = eb ? 0 : b.n;
	abc::line_ostream<S> line;
	PUT(line, a, ea);
	{ const char* g = line.get(); HOLDS(g, a.p, an, a.p, 0) }
	u64 a1 = an >= S ? S - 1 : an;
	PUT(line, b, eb);
	{ const char* g = line.get(); HOLDS(g, a.p, a1, b.p, bn) }
}
VC_PROOF(line_put_17) { two_pieces<17>(); }
VC_PROOF(line_put_100) { two_pieces<100>(); }
VC_PROOF(line_put_2k) { two_pieces<2048>(); }
VC_PROOF(line_put_0) { text a("a"); abc::line_ostream<0> line; PUT(line, a, false); VC_CHECK("nothing fits", line.get()[0] == 0); PUT(line, a, errors()); line.flush(); }
#define SINK vc_output o; 
struct tbl : abc::table_ostream {
	using abc::table_ostream::table_ostream;
#ifdef VC_NATIVE
	u32 st() { return (u32)this->std::ios::rdstate(); } void st(u32 s) { this->std::ios::clear((std::ios_base::iostate)s); }
#else
	u32 st() { return vcg.state; } void st(u32 s) { vcg.state = s; }
#endif
};
template <std::size_t S> static void flushed() {
	text a("a"); u64 j = vc_u64("j"); vc_assume(j < (u64(1) << 33)); bool ea = errors(); u64 an = ea ? 0 : a.n;
	SINK; tbl table(o.sb());
	u64 m = an >= S ? S - 1 : an;
	{
		abc::line_ostream<S> line(&table);
		u32 s0 = vc_u8("state") & 7; table.st(s0);
		PUT(line, a, ea);
		bool moved = vc_bool("moved");
		if (moved) { abc::line_ostream<S> l2(std::move(line)); table.st(s0); l2.flush(); table.st(table.st() | 1); }
		else line.flush();
		u64 w = o.size();
		VC_CHECK("what is flushed is the text, ended by a line break", !(j < w) || o.data[j] == (j < m ? a.p[j] : '\n'));
		VC_CHECK("everything is flushed, once", w <= m + 1 && (s0 != 0 ? w == 0 : (w == m + 1 || w == o.cap)));
		VC_CHECK("the line is empty behind a flush", moved || line.get()[0] == 0);
		table.st(1);
	}
}
VC_PROOF(line_flush_17) { flushed<17>(); }
VC_PROOF(line_flush_2k) { flushed<2048>(); }
// destruction flushes what is pending
VC_PROOF(line_destroy) {
	const u64 S = 100; text a("a"); u64 j = vc_u64("j"); vc_assume(j < 200); u64 m = a.n >= S ? S - 1 : a.n;
	SINK; tbl table(o.sb());
	{ abc::line_ostream<S> line(&table); table.st(0); PUT(line, a, false);
	  abc::line_ostream<S> l2(std::move(line)); table.st(0);
	  const char* g = l2.get(); VC_CHECK("moving keeps the text", !(j < m) || g[j] == a.p[j]); VC_CHECK("moving keeps the length", g[m] == 0); }
	u64 w = o.size();
	VC_CHECK("what is pending is flushed exactly once", (w == m + 1 || w == o.cap) && w <= m + 1 && (!(j < w) || o.data[j] == (j < m ? a.p[j] : '\n')));
}
// ---- binary dumps
static char hexdigit(u8 v) { return (char)(v < 10 ? '0' + v : 'a' + (v - 10)); }
template <std::size_t S> static void binary(bool full) {
	text a("a"); 
	u64 n = vc_u64("n"); vc_assume(n <= (u64(1) << 40)); const u8* data = (const u8*)vc_alloc(n, "data"); u64 off = vc_u64("off"); u64 off0 = off;
	vc_assume(full == (off < n && n - off >= 16));
	abc::line_ostream<S> line;
	PUT(line, a, false);
	u64 m = a.n >= S ? S - 1 : a.n;
	vc_unroll(17);
	bool more = line.put_binary(data, n, off);
	bool put = off != off0;
	VC_CHECK("a dump advances by one chunk or not at all", off == off0 || off == off0 + 16);
	VC_CHECK("nothing is dumped from behind the data", !put || off0 < n);
	VC_CHECK("more is to come only while there is data left to dump", !more || (put && off <= n));
	VC_CHECK("the rest of the data is not forgotten", !(put && off < n) || more);
	const char* g = line.get();
	VC_CHECK("text is terminated behind the dump", g[put ? m + 72 : m] == 0);
	if (!put) return;
	for (u64 i = 0; i < 16; i += full ? 1 : 5) {
		u64 p = m + 6 + 3 * i + (i >= 8);
		bool in = n - off0 > i;
		if (in) {
			u8 d = data[off0 + i];
			VC_CHECK("a dumped byte is shown by its digits", g[p] == hexdigit(d >> 4) && g[p + 1] == hexdigit(d & 15) && g[p + 2] == ' ');
			VC_CHECK("a dumped byte is shown by its character", g[m + 56 + i] == (d >= 32 && d < 127 ? (char)d : '.'));
		}
		else VC_CHECK("the place behind the data is blank", g[p] == ' ' && g[p + 1] == ' ' && g[p + 2] == ' ' && g[m + 56 + i] == ' ');
	}
}
VC_PROOF(line_binary_17) { bool f = vc_bool("full"); binary<17>(f); }
VC_PROOF(line_binary_100) { binary<100>(true); }
VC_PROOF(line_binary_100_rest) { binary<100>(false); }
VC_PROOF(line_binary_2k) { binary<2048>(true); }
// a dump that has been put is flushed with the line
VC_PROOF(line_binary_flush) {
	const u64 S = 100; text a("a"); u64 n = vc_u64("n"); vc_assume(n <= (u64(1) << 40)); const u8* data = (const u8*)vc_alloc(n, "data"); u64 off = vc_u64("off"); u64 off0 = off;
	vc_assume(off < n && n - off >= 16);
	SINK; vc_assume(o.cap >= 200); tbl table(o.sb());
	{
		abc::line_ostream<S> line(&table); table.st(0);
		PUT(line, a, false); u64 m = a.n >= S ? S - 1 : a.n;
		vc_unroll(17);
		line.put_binary(data, n, off);
		bool put = off != off0; u64 all = m + (put ? 72 : 0);
		line.flush();
		u64 w = o.size();
		VC_CHECK("a line with a dump is flushed whole, ended by a line break", w == all + 1 && o.data[all] == '\n');
		table.st(1);
	}
}
// ---- the table itself
VC_PROOF(table_put_line) {
	text a("a"); u64 j = vc_u64("j"); vc_assume(j < (u64(1) << 33)); u64 z = vc_u64("z"); bool terminated = vc_bool("terminated");
	u64 n = a.n;
	if (terminated) { vc_assume(z < a.n && a.p[z] == 0); vc_learn(a.p, z, &vc_nonzero, nullptr); vc_cstr(a.p, z); n = z; }
	SINK; tbl table(o.sb()); u32 s0 = vc_u8("state") & 7; table.st(s0);
	table.put_line(a.p, terminated ? abc::size::strlen : a.n);
	u64 w = o.size();
	VC_CHECK("the line is put unchanged", w <= n && (!(j < w) || o.data[j] == a.p[j]));
	VC_CHECK("the line is put completely", s0 != 0 ? w == 0 : (w == n || w == o.cap));
}
VC_PROOF(table_put_blank) {
	SINK; tbl table(o.sb()); table.st(0);
	table.put_blank_line();
	VC_CHECK("a blank line is a line break", o.size() == (o.cap > 0 ? 1 : 0) && (o.size() == 0 || o.data[0] == '\n'));
}
