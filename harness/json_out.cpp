// C07: the JSON writer.
#define VC_OWN_SNPRINTF
#include "json_common.h"
using W = abc::json_ostream<LV, Log>;
#ifndef VC_NATIVE
// ---- put_chars: appends the text; a sink that refuses a byte leaves the stream flagged
VC_CONTRACT(json_put_chars, "^abc::json_ostream<.*>::put_chars\\(");
extern "C" u64 vccontract__json_put_chars(void*, const char* buf, u64 size) {
	vc_assert(vc_valid(buf, size), "put_chars: text holds size bytes");
	u8 x = vc_u8("flush");
	if (vcg.state != 0) { if (size > 0 || (x & 1)) vcg.state |= 4; return 0; }
	bool full = size > vcg.out_cap - vcg.out_len;
	u64 m = full ? vcg.out_cap - vcg.out_len : size;
	vc_copy(vcg.out + vcg.out_len, buf, m);
	vcg.out_len += m;
	if (!full) { if (x & 1) { vcg.state = 1; vcg.flush_failed = true; } return size; }
	vcg.state = m + 1 < size || (x & 1) ? 5 : 1;
	return m + 1;
}
// printf of a double with 16 significant digits: at most 24 characters (sign, 16 digits, point, e, sign, 3 digits)
extern "C" int vcstub__snprintf(char* p, std::size_t n, const char* fmt, double d) {
	vc_assert(vc_valid(p, n), "snprintf destination holds n bytes");
	vc_assert(vc_const_len(fmt) == 6 && fmt[0] == '%' && fmt[1] == '.' && fmt[2] == '1' && fmt[3] == '6' && fmt[4] == 'l' && fmt[5] == 'g', "number format is under contract");
	u64 r = vc_u64("printed"); vc_assume(r >= 1 && r <= 24);
	char* text = (char*)vc_ghost_alloc(25, "number"); vc_havoc(text, 25); vcj.str = text; vcj.str_n = r; vc_copy(&vcj.num, &d, 8); vcj.calls++;
	u64 m = r < n ? r : n - 1;
	if (n > 0) { vc_copy(p, text, m); p[m] = 0; }
	return (int)r;
}
#endif
struct rig {
	vc_output o; u32 s0; W w; u64 L0; bool E0, top0, comma0, bk; u64 k, j, bits;
	char* text; u64 cap, len, size;
	rig() : w(o.sb(), nullptr) {
		s0 = vc_u8("state") & 7; VC_SET_STATE(w, s0);
		u64 lt = vc_u64("levels"); vc_assume(lt <= LV); w._level_top = lt - 1;
		bits = vc_u64("stack"); w._level_stack = std::bitset<LV>(bits);
		w._expect_property = vc_bool("expect"); w._skip_comma = vc_bool("skip_comma");
		k = vc_u64("k"); vc_assume(k < LV); j = vc_u64("j"); vc_assume(j < (u64(1) << 41));
		L0 = lt; E0 = w.expect_property(); top0 = lt > 0 && ((bits >> (lt - 1)) & 1); bk = (bits >> k) & 1;
		// a comma is due unless nothing stands in front: at the start of a container, or right behind a name
		comma0 = !w._skip_comma && L0 > 0 && (top0 ? E0 : true);
	}
	void arg() {
		cap = vc_u64("cap"); text = (char*)vc_alloc(cap, "text"); len = vc_u64("len"); size = len;
		vc_assume(cap < (u64(1) << 40));
		if (vc_bool("terminated")) { vc_assume(len < cap); vc_assume(text[len] == 0); vc_learn(text, len, &vc_nonzero, nullptr); vc_cstr(text, len); size = abc::size::strlen; }
		else vc_assume(len <= cap);
	}
};
// what a call has to append: pre (at most 2), text, post (at most 2)
struct out_t { char pre[2]; u64 npre; const char* t; u64 nt; char post[2]; u64 npost; };
static char exp_at(const out_t& x, u64 i) { return i < x.npre ? x.pre[i] : i < x.npre + x.nt ? x.t[i - x.npre] : x.post[i - x.npre - x.nt]; }
static void post(rig& g, const out_t& x, bool refused, u8 opens, u8 closes, bool name, bool blank) {   // opens/closes: 1 array, 2 object
	W& w = g.w; u32 s = VC_STATE(w); u64 n = g.o.size(); u64 total = x.npre + x.nt + x.npost;
	u64 L1 = w._level_top + 1; bool top1 = L1 > 0 && w._level_stack[L1 - 1];
	VC_CHECK("a flagged stream accepts nothing and stays flagged", g.s0 == 0 || (n == 0 && s != 0));
	VC_CHECK("nesting never exceeds its limits", L1 <= LV);
	VC_CHECK("outer levels are untouched", !(g.k < g.L0 && g.k < L1) || w._level_stack[g.k] == g.bk);
	if (refused) { VC_CHECK("refused: nothing is written and the stream is flagged", n == 0 && s != 0); VC_CHECK("refused: nesting is untouched", L1 == g.L0); return; }
	VC_CHECK("writes nothing but its own text", n <= total && (!(g.j < n) || g.o.data[g.j] == exp_at(x, g.j)));
	VC_CHECK("the closing of a container that is not the innermost open one is flagged", closes == 0 || (g.L0 > 0 && g.top0 == (closes == 2)) || s != 0);
	VC_CHECK("nesting deeper than the limit is flagged", opens == 0 || g.L0 < LV || s != 0);
	VC_CHECK("an allowed call is accepted when the sink takes it", g.s0 != 0 || n < total || g.o.cap < total || s == 0 || g.o.flush_failed() || (closes != 0 && !(g.L0 > 0 && g.top0 == (closes == 2))) || (opens != 0 && g.L0 == LV));
	if (s != 0) return;
	VC_CHECK("accepted: the whole text is written", n == total);
	VC_CHECK("accepted: nesting mirrors the containers", L1 == g.L0 + (opens ? 1 : 0) - (closes ? 1 : 0));
	VC_CHECK("accepted: opens the right container", !opens || top1 == (opens == 2));
	if (blank) { VC_CHECK("white space changes nothing else", w.expect_property() == g.E0 && L1 == g.L0); return; }
	VC_CHECK("accepted: a name is due next exactly inside an object that does not wait for a value", w.expect_property() == (L1 > 0 && top1 && !name));
	VC_CHECK("accepted: a comma is due next exactly behind an element", w._skip_comma == (opens != 0 || name));
}
#define VALUE_PRE out_t x; bool comma = g.comma0 && !g.top0; x.npre = comma ? 1 : 0; x.pre[0] = ','; x.npost = 0; x.t = ""; x.nt = 0;
VC_PROOF(json_put_null) { rig g; VALUE_PRE x.t = "null"; x.nt = 4; g.w.put_null(); post(g, x, g.E0, 0, 0, false, false); }
VC_PROOF(json_put_boolean) { rig g; VALUE_PRE bool v = vc_bool("value"); x.t = v ? "true" : "false"; x.nt = v ? 4 : 5; g.w.put_boolean(v); post(g, x, g.E0, 0, 0, false, false); }
static double any_double() { u64 b = vc_u64("value"); double d; std::memcpy(&d, &b, 8); return d; }
static u64 bits_of(double d) { u64 b; std::memcpy(&b, &d, 8); return b; }
VC_PROOF(json_put_number) {
	rig g; VALUE_PRE double v = any_double();
#ifndef VC_NATIVE
	vcj.calls = 0;
	g.w.put_number(v);
	if (vcj.calls) { x.t = vcj.str; x.nt = vcj.str_n; }
	VC_CHECK("the number written is the value", vcj.calls == 0 ? g.E0 : vcj.calls == 1 && vcj.num == bits_of(v));
#else
	char t[64]; x.nt = std::snprintf(t, sizeof t, "%.16lg", v); x.t = t;
	g.w.put_number(v);
#endif
	post(g, x, g.E0, 0, 0, false, false);
}
VC_PROOF(json_put_string) {
	rig g; g.arg(); VALUE_PRE x.pre[x.npre] = '"'; x.npre++; x.t = g.text; x.nt = g.len; x.npost = 1; x.post[0] = '"';
	g.w.put_string(g.text, g.size); post(g, x, g.E0, 0, 0, false, false);
}
VC_PROOF(json_put_property) {
	rig g; g.arg(); VALUE_PRE comma = g.comma0 && g.top0; x.npre = comma ? 1 : 0; x.pre[x.npre] = '"'; x.npre++; x.t = g.text; x.nt = g.len; x.npost = 2; x.post[0] = '"'; x.post[1] = ':';
	g.w.put_property(g.text, g.size); post(g, x, !g.E0, 0, 0, true, false);
}
VC_PROOF(json_put_begin_array) { rig g; VALUE_PRE x.t = "["; x.nt = 1; g.w.put_begin_array(); post(g, x, g.E0, 1, 0, false, false); }
VC_PROOF(json_put_begin_object) { rig g; VALUE_PRE x.t = "{"; x.nt = 1; g.w.put_begin_object(); post(g, x, g.E0, 2, 0, false, false); }
VC_PROOF(json_put_end_array) { rig g; VALUE_PRE x.npre = 0; x.t = "]"; x.nt = 1; g.w.put_end_array(); post(g, x, g.E0, 0, 1, false, false); }
VC_PROOF(json_put_end_object) { rig g; VALUE_PRE x.npre = 0; x.t = "}"; x.nt = 1; g.w.put_end_object(); post(g, x, !g.E0, 0, 2, false, false); }
VC_PROOF(json_put_white_space) {
	rig g; VALUE_PRE x.npre = 0; u8 c = vc_u8("which") & 3; x.t = c == 0 ? " " : c == 1 ? "\t" : c == 2 ? "\r" : "\n"; x.nt = 1;
	if (c == 0) g.w.put_space(); else if (c == 1) g.w.put_tab(); else if (c == 2) g.w.put_cr(); else g.w.put_lf();
	post(g, x, false, 0, 0, false, true);
}
// a token is written as its kind demands
VC_PROOF(json_put_token) {
	rig g; js::token_t* t; g.arg(); u64 cap = g.cap; vc_assume(cap >= 16); 
	t = (js::token_t*)vc_alloc(cap, "token"); g.text = t->value.string; vc_assume(g.len <= cap - 8 - 1); vc_assume(g.text[g.len] == 0);
	if (g.size == abc::size::strlen) { vc_learn(g.text, g.len, &vc_nonzero, nullptr); vc_cstr(g.text, g.len); }
	VALUE_PRE js::item_t i = t->item; bool refused = g.E0; u8 opens = 0, closes = 0; bool name = false, flag = false;
	vc_assume(i != it::number);     // numbers: json_put_number
	if (i == it::null) { x.t = "null"; x.nt = 4; }
	else if (i == it::boolean) { u8 b = ((u8*)&t->value)[0]; vc_assume(b <= 1); x.t = b ? "true" : "false"; x.nt = b ? 4 : 5; }
	else if (i == it::string) { x.pre[x.npre] = '"'; x.npre++; x.t = g.text; x.nt = g.len; x.npost = 1; x.post[0] = '"'; }
	else if (i == it::property) { refused = !g.E0; name = true; comma = g.comma0 && g.top0; x.npre = comma ? 1 : 0; x.pre[x.npre] = '"'; x.npre++; x.t = g.text; x.nt = g.len; x.npost = 2; x.post[0] = '"'; x.post[1] = ':'; }
	else if (i == it::begin_array) { x.t = "["; x.nt = 1; opens = 1; }
	else if (i == it::begin_object) { x.t = "{"; x.nt = 1; opens = 2; }
	else if (i == it::end_array) { x.npre = 0; x.t = "]"; x.nt = 1; closes = 1; }
	else if (i == it::end_object) { x.npre = 0; x.t = "}"; x.nt = 1; closes = 2; refused = !g.E0; }
	else refused = true;
	g.w.put_token(t, g.size); post(g, x, refused, opens, closes, name, false);
}
VC_PROOF(json_put_chars) {
	rig g; g.arg(); vc_assume(g.size == g.len); W& w = g.w; vc_measure(g.len);
	VC_INV(g.o.size() <= g.o.cap);
	VC_INVT(t, g.s0 != 0 || VC_STATE(w) != 0 || t == g.o.size());
	VC_INVT(t, g.s0 != 0 || VC_STATE(w) == 0 || t == g.o.size() + 1);
	VC_INV(!(g.j < g.o.size()) || (g.j < g.len && g.o.data[g.j] == g.text[g.j]));
	VC_INV(g.s0 == 0 || VC_STATE(w) == g.s0);
	VC_INV(g.s0 == 0 || g.o.size() == 0);
	VC_INV(g.s0 != 0 || VC_STATE(w) == 0 || (VC_STATE(w) == 1 && g.o.size() == g.o.cap));
	VC_INVT(t, g.s0 == 0 || t == 0);
	vc_frame_begin();
	u64 n = w.put_chars(g.text, g.len);
	vc_frame_end();
	u64 m = g.o.size(); u32 s = VC_STATE(w);
	VC_CHECK("writes nothing on a bad stream", g.s0 == 0 || (n == 0 && m == 0 && (s | 4) == (g.s0 | 4) && (g.len == 0 || (s & 4))));
	VC_CHECK("writes the text", !(g.j < m) || (g.j < g.len && g.o.data[g.j] == g.text[g.j]));
	VC_CHECK("all of it, or up to where the sink refuses", g.s0 != 0 || (g.len <= g.o.cap ? n == g.len && m == g.len && s == (g.o.flush_failed() ? 1u : 0u) : m == g.o.cap && n == m + 1 && (s & 1) && (n == g.len || (s & 4))));
}
VC_PROOF(json_put_char) {
	rig g; char c = (char)vc_u8("c"); out_t x; x.npre = 0; x.npost = 0; x.t = &c; x.nt = 1;
	g.w.put_char(c); post(g, x, false, 0, 0, false, true);
}
