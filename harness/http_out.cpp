// C03: the HTTP writers.
#include "vc_cstr.h"
#include "http_common.h"
using Req = abc::http_request_ostream<Log>;
using Res = abc::http_response_ostream<Log>;
static bool is_valchar(char c) { return c == ' ' || ascii::is_abcprint(c); }
// character k of a header value is white space or part of a folded line end (CR LF in front of white space)
static bool is_valspace(const char* b, u64 k, u64 n) {
	return ascii::is_space(b[k])
		|| (b[k] == '\r' && k + 2 < n && b[k + 1] == '\n' && ascii::is_space(b[k + 2]))
		|| (b[k] == '\n' && k > 0 && k + 1 < n && b[k - 1] == '\r' && ascii::is_space(b[k + 1]));
}
static const char* vc_at;   // an arbitrary place of the text, at which the contract of the white space scanner is used

#ifndef VC_NATIVE
static bool vc_any_thunk(void*, std::size_t, u8) { return true; }
// appends b[0..n) to the sink, which may fail at any byte; returns the bytes taken from b
static u64 vc_emit(const char* b, u64 n) {
	bool full = n > vcg.out_cap - vcg.out_len;
	u64 m = full ? vcg.out_cap - vcg.out_len : n;
	vc_copy(vcg.out + vcg.out_len, b, m);
	vcg.out_len += m;
	if (full) vcg.state |= 1;
	return full ? m + 1 : n;
}
// ---- http_ostream::put_chars: writes the longest prefix of accepted chars
VC_CONTRACT(http_put_chars, "^abc::http_ostream<.*>::put_chars\\(");
extern "C" u64 vccontract__http_put_chars(void*, vc_pred_t* pred, const char* buf, u64 size) {
	vc_assert(vc_valid(buf, size), "put_chars: text holds size bytes");
	if (vcg.state != 0) return 0;
	u64 n = vc_u64("n"); vc_assume(n <= size);
	vc_learn(buf, n, &vc_pred_thunk, (void*)*pred);
	u64 r = vc_emit(buf, n);
	if (vcg.state == 0) vc_assume(n == size || !(*pred)(buf[n]));
	return r;
}
// ---- http_ostream::put_bytes: writes everything
VC_CONTRACT(http_put_bytes, "^abc::http_ostream<.*>::put_bytes\\(");
extern "C" u64 vccontract__http_put_bytes(void*, const char* buf, u64 size) {
	vc_assert(vc_valid(buf, size), "put_bytes: text holds size bytes");
	if (vcg.state != 0) return 0;
	return vc_emit(buf, size);
}
// ---- skip_spaces_in_header_value: length of the white space (folded line ends included) at the start
VC_CONTRACT(http_skip_value_spaces, "^abc::http_ostream<.*>::skip_spaces_in_header_value\\(");
extern "C" u64 vccontract__http_skip_value_spaces(void*, const char* buf, u64 size) {
	vc_assert(vc_valid(buf, size), "skip_spaces_in_header_value: text holds size bytes");
	u64 n = vc_u64("n"); vc_assume(n <= size);
	if (n < size) vc_assume(!ascii::is_space(buf[n]));
	if (size > 0 && ascii::is_abcprint(buf[0])) vc_assume(n == 0);
	if (vc_at != nullptr && vc_same_obj(vc_at, buf)) VC_ASSUME(!(vc_at >= buf && (u64)(vc_at - buf) < n) || is_valspace(buf, (u64)(vc_at - buf), n));
	return n;
}
#endif
struct sink {
	vc_output o; char* text; u64 cap, len, size, j, z; u32 s0;
	sink() {
		cap = vc_u64("cap"); text = (char*)vc_alloc(cap, "text"); j = vc_u64("j"); vc_assume(j < (u64(1) << 41)); s0 = vc_u8("state") & 7;
		z = vc_u64("len"); size = z; len = z;
		if (vc_bool("terminated")) { vc_assume(z < cap); vc_assume(text[z] == 0); vc_learn(text, z, &vc_nonzero, nullptr); vc_cstr(text, z); size = abc::size::strlen; }
		else vc_assume(z <= cap);
		vc_measure(len);
	}
};
#define WITHIN VC_INV(g.o.size() <= g.o.cap);
VC_PROOF(http_put_chars) {
	sink g; Req r(g.o.sb(), nullptr); VC_SET_STATE(r, g.s0);
	vc_assume(g.size == g.len);
	vc_table = (u8*)vc_alloc(256, "pred");
	WITHIN
	VC_INVT(t, g.s0 != 0 || VC_STATE(r) != 0 || t == g.o.size());
	VC_INVT(t, g.s0 != 0 || VC_STATE(r) == 0 || t == g.o.size() + 1);
	VC_INV(!(g.j < g.o.size()) || (g.j < g.len && g.o.data[g.j] == g.text[g.j] && vc_anypred(g.text[g.j])));
	VC_INV(g.s0 == 0 || VC_STATE(r) == g.s0);
	VC_INV(g.s0 == 0 || g.o.size() == 0);
	VC_INV(g.s0 != 0 || VC_STATE(r) == 0 || (VC_STATE(r) == 1 && g.o.size() == g.o.cap));
	VC_INVT(t, g.s0 == 0 || t == 0);
	abc::CharPredicate pr = &vc_anypred;
	vc_frame_begin(); 
	u64 n = r.put_chars(std::move(pr), g.text, g.len);
	vc_frame_end();
	u64 w = g.o.size();
	VC_CHECK("writes nothing on a bad stream", g.s0 == 0 || (n == 0 && w == 0 && VC_STATE(r) == g.s0));
	VC_CHECK("writes the text", !(g.j < w) || (g.o.data[g.j] == g.text[g.j] && vc_anypred(g.text[g.j])));
	VC_CHECK("count", n <= g.len && (g.s0 != 0 || (VC_STATE(r) == 0 ? w == n : (w == g.o.cap && n == w + 1 && VC_STATE(r) == 1))));
	VC_CHECK("stops only at the end or at a char that is not accepted", g.s0 != 0 || VC_STATE(r) != 0 || n == g.len || !vc_anypred(g.text[n]));
}
VC_PROOF(http_put_bytes) {
	sink g; Req r(g.o.sb(), nullptr); VC_SET_STATE(r, g.s0);
	vc_assume(g.size == g.len);
	WITHIN
	VC_INVT(t, g.s0 != 0 || VC_STATE(r) != 0 || t == g.o.size());
	VC_INVT(t, g.s0 != 0 || VC_STATE(r) == 0 || t == g.o.size() + 1);
	VC_INV(!(g.j < g.o.size()) || (g.j < g.len && g.o.data[g.j] == g.text[g.j]));
	VC_INV(g.s0 == 0 || VC_STATE(r) == g.s0);
	VC_INV(g.s0 == 0 || g.o.size() == 0);
	VC_INV(g.s0 != 0 || VC_STATE(r) == 0 || (VC_STATE(r) == 1 && g.o.size() == g.o.cap));
	VC_INVT(t, g.s0 == 0 || t == 0);
	u64 n = r.put_bytes(g.text, g.len);
	u64 w = g.o.size();
	VC_CHECK("writes nothing on a bad stream", g.s0 == 0 || (n == 0 && w == 0 && VC_STATE(r) == g.s0));
	VC_CHECK("writes the bytes", !(g.j < w) || g.o.data[g.j] == g.text[g.j]);
	VC_CHECK("count", n <= g.len && (g.s0 != 0 || (VC_STATE(r) == 0 ? w == g.len && n == w : (w == g.o.cap && n == w + 1 && VC_STATE(r) == 1))));
}
VC_PROOF(http_skip_value_spaces) {
	sink g; Req r(g.o.sb(), nullptr); vc_assume(g.size == g.len);
	VC_INVT(t, !(g.len > 0 && ascii::is_abcprint(g.text[0])) || t == 0);
	VC_INVT(t, t <= g.len && (!(g.j < t) || is_valspace(g.text, g.j, t)));
	vc_frame_begin();
	u64 n = r.skip_spaces_in_header_value(g.text, g.len);
	vc_frame_end();
	VC_CHECK("within the text", n <= g.len);
	VC_CHECK("stops behind the white space", n == g.len || !ascii::is_space(g.text[n]));
	VC_CHECK("skips only white space and folded line ends", !(g.j < n) || is_valspace(g.text, g.j, n));
	VC_CHECK("skips nothing in front of text", !(g.len > 0 && ascii::is_abcprint(g.text[0])) || n == 0);
}

// ---------------------------------------------------------------- public writers
#define RUN(R, ITEM, NEXT, ...) \
	u8 nx = vc_u8("next"); R r(g.o.sb(), nullptr); r.template http_state<Log>::_next = nx; VC_SET_STATE(r, g.s0); \
	bool threw = false; \
	vc_frame_begin(); vc_assigns(&r, sizeof r); \
	try { __VA_ARGS__; } catch (std::logic_error&) { threw = true; } \
	vc_frame_end(); \
	u64 w = g.o.size(); (void)w; \
	VC_CHECK("refuses an item out of order, accepts it in order", threw == (nx != (ITEM))); \
	if (threw) { VC_CHECK("refused call has no effect", w == 0 && r.next() == nx && VC_STATE(r) == g.s0); return; } \
	VC_CHECK("next item", r.next() == (NEXT)); \
	VC_CHECK("writes nothing to a bad stream", g.s0 == 0 || w == 0);
#define OUT(i) (g.o.data[i])
// text of class `cls` followed by one separator character
#define PREFIX_SEP(cls, sep) \
	VC_CHECK("everything written is legal text or the final separator", !(g.j < w) || (g.j < g.len && OUT(g.j) == g.text[g.j] && cls(OUT(g.j))) || (g.j + 1 == w && OUT(g.j) == sep)); \
	VC_CHECK("ends with exactly the separator", VC_STATE(r) != 0 || (w >= 1 && w - 1 <= g.len && OUT(w - 1) == sep && (w - 1 == g.len || !cls(g.text[w - 1])))); \
	VC_CHECK("text is unchanged", VC_STATE(r) != 0 || !(g.j + 1 < w) || OUT(g.j) == g.text[g.j]);
VC_PROOF(http_out_method) { sink g; RUN(Req, item::method, item::resource, r.put_method(g.text, g.size)) PREFIX_SEP(ascii::http::is_token, ' ') }
VC_PROOF(http_out_resource) { sink g; RUN(Req, item::resource, item::protocol, r.put_resource(g.text, g.size)) PREFIX_SEP(ascii::is_abcprint, ' ') }
VC_PROOF(http_out_status_code) { sink g; RUN(Res, item::status_code, item::reason_phrase, r.put_status_code(g.text, g.size)) PREFIX_SEP(ascii::is_digit, ' ') }
VC_PROOF(http_out_reason_phrase) {
	sink g; bool null = vc_bool("null"); u64 len = null ? 0 : g.len;
	RUN(Res, item::reason_phrase, item::header_name, r.put_reason_phrase(null ? nullptr : g.text, g.size))
	VC_CHECK("everything written is legal text or the final line break", !(g.j < w) || (g.j < len && OUT(g.j) == g.text[g.j] && ascii::is_abcprint_or_space(OUT(g.j))) || (g.j + 2 >= w && (OUT(g.j) == '\r' || (OUT(g.j) == '\n' && g.j > 0 && OUT(g.j - 1) == '\r'))) || (g.j + 1 == w && OUT(g.j) == '\r'));
	VC_CHECK("ends with exactly one line break", VC_STATE(r) != 0 || (w >= 2 && w - 2 <= len && OUT(w - 2) == '\r' && OUT(w - 1) == '\n' && (w - 2 == len || !ascii::is_abcprint_or_space(g.text[w - 2]))));
}
VC_PROOF(http_out_header_name) {
	sink g; RUN(Req, item::header_name, item::header_value, r.put_header_name(g.text, g.size))
	VC_CHECK("everything written is legal text or the final separator", !(g.j < w) || (g.j < g.len && OUT(g.j) == g.text[g.j] && ascii::http::is_token(OUT(g.j))) || (g.j == g.len && OUT(g.j) == ':') || (g.j == g.len + 1 && OUT(g.j) == ' '));
	VC_CHECK("an accepted name is the whole text and is followed by colon and space", VC_STATE(r) != 0 || (w == g.len + 2 && OUT(w - 2) == ':' && OUT(w - 1) == ' '));
	VC_CHECK("an accepted name is entirely legal", VC_STATE(r) != 0 || !(g.j < g.len) || (ascii::http::is_token(g.text[g.j]) && OUT(g.j) == g.text[g.j]));
}
static void header_value(bool terminated, bool bad) {
	sink g; vc_assume((g.size == abc::size::strlen) == terminated); vc_assume((g.s0 != 0) == bad);
	WITHIN
	VC_INV(!(g.j < g.o.size()) || is_valchar(OUT(g.j)));
	VC_INVT(t, t <= g.len && g.o.size() <= t);
	VC_INV(g.s0 == 0 || g.o.size() == 0);
	vc_at = g.text + g.j;
	VC_INVT(t, !(VC_STATE(r) == 0 && g.j < t) || (t <= g.len && (ascii::is_abcprint(g.text[g.j]) || is_valspace(g.text, g.j, t))));
	RUN(Req, item::header_value, item::header_name, r.put_header_value(g.text, g.size))
	VC_CHECK("an accepted value is entirely legal", VC_STATE(r) != 0 || !(g.j < g.len) || ascii::is_abcprint(g.text[g.j]) || is_valspace(g.text, g.j, g.len));
	VC_CHECK("everything written is legal text or the final line break", !(g.j < w) || is_valchar(OUT(g.j)) || (g.j + 1 == w && OUT(g.j) == '\r') || (g.j + 2 == w && OUT(g.j) == '\r' && OUT(g.j + 1) == '\n') || (g.j > 0 && g.j + 1 == w && OUT(g.j) == '\n' && OUT(g.j - 1) == '\r'));
	VC_CHECK("ends with exactly one line break", VC_STATE(r) != 0 || (w >= 2 && OUT(w - 2) == '\r' && OUT(w - 1) == '\n'));
}
VC_PROOF(http_out_header_value) { header_value(true, false); }
VC_PROOF(http_out_header_value_sized) { header_value(false, false); }
VC_PROOF(http_out_header_value_bad) { bool t = vc_bool("t"); header_value(t, true); }
static bool printable(void*, std::size_t, u8 c) { return ascii::is_abcprint((char)c); }
VC_PROOF(http_out_header_value_plain) {
	sink g; vc_learn(g.text, g.len, &printable, nullptr);
	WITHIN
	VC_INVT(t, g.s0 != 0 || t == g.o.size() || VC_STATE(r) != 0);
	VC_INV(!(g.j < g.o.size()) || (g.j < g.len && OUT(g.j) == g.text[g.j]));
	RUN(Req, item::header_value, item::header_name, r.put_header_value(g.text, g.size))
	VC_CHECK("printable value is written unchanged", VC_STATE(r) != 0 || (w == g.len + 2 && (!(g.j < g.len) || OUT(g.j) == g.text[g.j])));
}
template <typename R> static void protocol(u8 nextitem, bool crlf) {
	sink g; RUN(R, item::protocol, nextitem, r.put_protocol(g.text, g.size))
	u64 sep = crlf ? 2 : 1;
	VC_CHECK("everything written is a protocol text or the separator", !(g.j < w) || (g.j < 5 && OUT(g.j) == "HTTP/"[g.j]) || (g.j >= 5 && (ascii::is_digit(OUT(g.j)) || OUT(g.j) == '.')) || (g.j + sep >= w && (OUT(g.j) == ' ' || OUT(g.j) == '\r' || OUT(g.j) == '\n')));
	VC_CHECK("an accepted protocol is the whole text followed by the separator", VC_STATE(r) != 0 || (w == g.len + sep && (crlf ? OUT(w - 2) == '\r' && OUT(w - 1) == '\n' : OUT(w - 1) == ' ')));
	VC_CHECK("an accepted protocol is legal", VC_STATE(r) != 0 || !(5 <= g.j && g.j < g.len) || ((ascii::is_digit(OUT(g.j)) || OUT(g.j) == '.') && OUT(g.j) == g.text[g.j]));
}
VC_PROOF(http_out_protocol_request) { protocol<Req>(item::header_name, true); }
VC_PROOF(http_out_protocol_response) { protocol<Res>(item::status_code, false); }
VC_PROOF(http_out_end_headers) {
	sink g; RUN(Req, item::header_name, item::body, r.end_headers())
	VC_CHECK("writes one line break", (VC_STATE(r) != 0 || w == 2) && w <= 2 && (w < 1 || OUT(0) == '\r') && (w < 2 || OUT(1) == '\n'));
}
VC_PROOF(http_out_body) {
	sink g; RUN(Res, item::body, item::body, r.put_body(g.text, g.size))
	VC_CHECK("body is written unchanged", w <= g.len && (!(g.j < w) || OUT(g.j) == g.text[g.j]));
	VC_CHECK("body is written completely", VC_STATE(r) != 0 || w == g.len);
}
