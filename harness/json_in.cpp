// C05, C06: the JSON reader.
#include "json_common.h"
using R = abc::json_istream<LV, Log>;
#ifndef VC_NATIVE
// state in which a scan stops in front of position in_pos
static u64 vc_scan_state(bool (*pred)(char)) {
	auto l = [&]() -> u64 {
		if (vcg.in_pos >= vcg.in_len) return pred((char)0xff) ? 6 : 2;
		return pred(vcg.in[vcg.in_pos]) ? 4 : 0;
	};
	return vc_eval64(l);
}
// ---- get_chars: the longest run of accepted chars that fits (plus one 0xff for a run cut short by the end of the input)
VC_CONTRACT(json_get_chars, "^abc::json_istream<.*>::get_chars\\(");
extern "C" u64 vccontract__json_get_chars(void*, vc_pred_t* pred, char* buf, u64 size) {
	vc_assert(size >= 1, "get_chars: room for the terminator");
	vc_assert(vc_valid(buf, size), "get_chars: buffer holds size bytes");
	if (vcg.state != 0) { buf[0] = 0; return 0; }
	u64 e = vc_u64("end"); vc_assume(e >= vcg.in_pos && e <= vcg.in_len); u64 n = e - vcg.in_pos; vc_assume(n < size);
	vc_copy(buf, vcg.in + vcg.in_pos, n);
	vc_learn(vcg.in + vcg.in_pos, n, &vc_pred_thunk, (void*)*pred);
	vcg.in_pos = e;
	u64 s = vc_scan_state(*pred);
	vc_assume(s != 4 || n == size - 1);
	vcg.state = (u32)s;
	if (s == 6 && n < size - 1) { buf[n] = (char)0xff; n++; }
	buf[n] = 0;
	return n;
}
// ---- skip_chars
VC_CONTRACT(json_skip_chars, "^abc::json_istream<.*>::skip_chars\\(");
extern "C" u64 vccontract__json_skip_chars(void*, vc_pred_t* pred) {
	if (vcg.state != 0) return 0;
	u64 e = vc_u64("end"); vc_assume(e >= vcg.in_pos && e <= vcg.in_len); u64 n = e - vcg.in_pos;
	vc_learn(vcg.in + vcg.in_pos, n, &vc_pred_thunk, (void*)*pred);
	vcg.in_pos = e;
	u64 s = vc_scan_state(*pred);
	vc_assume(s != 4);
	vcg.state = (u32)s;
	return s == 6 ? n + 1 : n;
}
// ---- get_escaped_char: decodes exactly one escape sequence or fails
VC_CONTRACT(json_get_escaped_char, "^abc::json_istream<.*>::get_escaped_char\\(");
extern "C" u8 vccontract__json_get_escaped_char(void*) {
	u64 p0 = vcg.in_pos; u64 avail = vcg.in_len - p0;
	auto l = [&]() -> u64 { return vcg.state == 0 && avail >= 2 && vcg.in[p0] == '\\' ? (u64)(1 + esc_len(vcg.in + p0 + 1, avail - 1)) : 0; };
	u64 k = vc_eval64(l);
	if (k != 0) {
		auto v = [&]() -> u64 { return esc_val(vcg.in + p0 + 1); };
		vcg.in_pos = p0 + k; return (u8)vc_eval64(v);
	}
	u64 n = vc_u64("n"); vc_assume(n <= avail); vc_assume(vcg.state == 0 || n == 0); vcg.in_pos += n;
	u32 s = vc_u32("s"); vc_assume(s != 0 && s <= 7); vcg.state = s;
	return vc_u8("ech");
}
// ---- get_or_skip_string
VC_CONTRACT(json_string, "^abc::json_istream<.*>::get_or_skip_string\\(");
extern "C" u64 vccontract__json_string(void*, char* buf, u64 size) {
	if (buf != nullptr) { vc_assert(size >= 1, "get_or_skip_string: room for the terminator"); vc_assert(vc_valid(buf, size), "get_or_skip_string: buffer holds size bytes"); }
	u64 p0 = vcg.in_pos; vcj.str_pos = p0; vcj.calls++;
	u64 n = vc_u64("n"); u64 c = vc_u64("c"); vc_assume(c <= vcg.in_len - p0);
	u32 s = vc_u32("s"); vc_assume(s <= 7);
	if (vcg.state != 0) { vc_assume(c == 0 && s != 0 && n == 0); }
	else if (p0 < vcg.in_len && vcg.in[p0] == '"') { vc_assume(s != 0 || (c >= 2 && vcg.in[p0 + c - 1] == '"')); }
	else { vc_assume(c == 0 && n == 0 && (s == 0 || s == 2)); }
	if (buf != nullptr) { vc_assume(n < size); vc_havoc(buf, n); buf[n] = 0; vcj.str = (const char*)vc_snapshot(buf, n + 1); vcj.str_n = n; }
	vcg.in_pos = p0 + c; vcg.state = s;
	return n;
}
// ---- get_or_skip_number
VC_CONTRACT(json_number, "^abc::json_istream<.*>::get_or_skip_number\\(");
extern "C" void vccontract__json_number(void*, double* buf) {
	vc_assert(buf == nullptr || vc_valid(buf, 8), "get_or_skip_number: room for the number");
	u64 p0 = vcg.in_pos; u64 n = vc_u64("n"); vc_assume(n <= vcg.in_len - p0); u32 s = vc_u32("s"); vc_assume(s <= 7);
	if (vcg.state != 0) vc_assume(n == 0 && s != 0);
	else { vc_assume(s != 0 || p0 + n < vcg.in_len);
		if (p0 < vcg.in_len && (ascii::is_digit(vcg.in[p0]) || vcg.in[p0] == '+' || vcg.in[p0] == '-')) vc_assume(n >= 1); }
	vcj.num = vc_u64("num"); vcj.num_set = true;
	if (buf != nullptr) vc_copy(buf, &vcj.num, 8);
	vcg.in_pos = p0 + n; vcg.state = s;
}
#endif

VC_PROOF(json_get_chars) {
	vc_input in; u64 size = vc_u64("size"); vc_assume(size >= 1);
	char* buf = (char*)vc_alloc(size, "buf");
	vc_table = (u8*)vc_alloc(256, "pred");
	u64 j = vc_u64("j"); u32 s0 = vc_u8("state") & 7;
	R r(in.sb(), nullptr); VC_SET_STATE(r, s0);
	u64 p0 = in.pos();
	VC_INV(!(j < in.pos() - p0 && j < size) || buf[j] == in.data[p0 + j]);
	VC_INV(!(j < in.pos() - p0) || vc_anypred(in.data[p0 + j]));
	VC_RANK((in.len - in.pos()) * 2 + (VC_STATE(r) == 0 ? 1 : 0));
	VC_INV(s0 == 0 || VC_STATE(r) == s0);
	VC_INVT(t, s0 == 0 || t == 0);
	VC_INVT(t, s0 != 0 || t == in.pos() - p0 + (VC_STATE(r) == 6 ? 1 : 0));
	VC_INV(s0 != 0 || VC_STATE(r) == 0 || (VC_STATE(r) == 6 && in.pos() == in.len && vc_anypred((char)0xff)));
	VC_INV(VC_STATE(r) == s0 || VC_STATE(r) == 6);
	VC_INV(!(s0 == 0 && VC_STATE(r) == 6 && in.pos() - p0 < size) || (u8)buf[in.pos() - p0] == 0xff);
	VC_INVT(t, t < size);
	vc_measure(p0); vc_measure(in.len);
	abc::CharPredicate pr = &vc_anypred;
	vc_frame_begin(); vc_assigns(buf, size);
	u64 n = r.get_chars(std::move(pr), buf, size);
	vc_frame_end();
	u64 c = in.pos() - p0; u32 s = VC_STATE(r);
	VC_CHECK("count < size", n < size);
	VC_CHECK("terminated", buf[n] == 0);
	VC_CHECK("consumed exactly the count", n == c || (s == 6 && s0 == 0 && n == c + 1 && in.pos() == in.len));
	VC_CHECK("copied", !(j < c) || buf[j] == in.data[p0 + j]);
	VC_CHECK("every char accepted", !(j < c) || vc_anypred(in.data[p0 + j]));
	VC_CHECK("nothing happens on a bad stream", s0 == 0 || (n == 0 && s == s0));
	VC_CHECK("stops exactly where it must", s0 != 0 || (in.pos() < in.len ? s == (vc_anypred(in.data[in.pos()]) ? 4u : 0u) : s == (vc_anypred((char)0xff) ? 6u : 2u)));
	VC_CHECK("stops early only when full", s0 != 0 || s != 4 || n == size - 1);
}
VC_PROOF(json_skip_chars) {
	vc_input in; vc_table = (u8*)vc_alloc(256, "pred");
	u64 j = vc_u64("j"); u32 s0 = vc_u8("state") & 7;
	R r(in.sb(), nullptr); VC_SET_STATE(r, s0);
	u64 p0 = in.pos();
	VC_INV(!(j < in.pos() - p0) || vc_anypred(in.data[p0 + j]));
	VC_RANK((in.len - in.pos()) * 2 + (VC_STATE(r) == 0 ? 1 : 0));
	VC_INV(s0 == 0 || VC_STATE(r) == s0);
	VC_INV(s0 != 0 || VC_STATE(r) == 0 || (VC_STATE(r) == 6 && in.pos() == in.len && vc_anypred((char)0xff)));
	VC_INVT(t, s0 == 0 || t == 0);
	VC_INVT(t, s0 != 0 || t == in.pos() - p0 + (VC_STATE(r) == 6 ? 1 : 0));
	vc_measure(p0); vc_measure(in.len);
	abc::CharPredicate pr = &vc_anypred;
	u64 n = r.skip_chars(std::move(pr));
	u64 c = in.pos() - p0; u32 s = VC_STATE(r);
	VC_CHECK("count", n == c || (s == 6 && n == c + 1));
	VC_CHECK("every char accepted", !(j < c) || vc_anypred(in.data[p0 + j]));
	VC_CHECK("nothing happens on a bad stream", s0 == 0 || (n == 0 && s == s0));
	VC_CHECK("stops exactly where it must", s0 != 0 || (in.pos() < in.len ? !vc_anypred(in.data[in.pos()]) && s == 0 : s == (vc_anypred((char)0xff) ? 6u : 2u)));
}
VC_PROOF(json_get_escaped_char) {
	vc_input in; u32 s0 = vc_u8("state") & 7;
	R r(in.sb(), nullptr); VC_SET_STATE(r, s0);
	u64 p0 = in.pos(); u64 avail = in.len - p0;
	vc_measure(p0); vc_measure(in.len); vc_unroll(6);
	bool good = s0 == 0 && avail >= 2 && in.data[p0] == '\\'; int k = good ? esc_len(in.data + p0 + 1, avail - 1) : -1;
	char c = r.get_escaped_char();
	VC_CHECK("decodes exactly the supported escape sequences", (VC_STATE(r) == 0) == (k > 0));
	VC_CHECK("consumes exactly the sequence", k <= 0 || in.pos() == p0 + 1 + (u64)k);
	VC_CHECK("stays in the input", in.pos() >= p0 && in.pos() <= in.len && (s0 == 0 || in.pos() == p0));
	VC_CHECK("yields the character of the escape sequence", k <= 0 || (u8)c == esc_val(in.data + p0 + 1));
}
VC_PROOF(json_string) {
	vc_input in; u64 size = vc_u64("size"); vc_assume(size >= 1); bool skip = vc_bool("skip");
	char* buf = (char*)vc_alloc(size, "buf");
	u64 j = vc_u64("j"); u32 s0 = vc_u8("state") & 7;
	R r(in.sb(), nullptr); VC_SET_STATE(r, s0);
	u64 p0 = in.pos(); vc_measure(p0); vc_measure(in.len);
	bool quoted = p0 < in.len && in.data[p0] == '"';
	u64 L = vc_u64("plain"); vc_assume(L <= in.len - p0); if (quoted && L > 0) vc_learn(in.data + p0 + 1, L - 1, &pr_nobs, nullptr);   // the first L-1 chars of the string hold no escape
	VC_RANK((in.len - in.pos()) * 2 + (VC_STATE(r) == 0 ? 1 : 0));
	VC_INV(in.pos() >= p0 && in.pos() <= in.len);
	VC_INV(VC_STATE(r) != 0 || in.pos() >= p0 + 1);
	VC_INVT(t, skip || t < size);
	VC_INVT(t, skip || VC_STATE(r) != 0 || t <= in.pos() - p0 - 1);
	VC_INVT(t, skip || VC_STATE(r) != 0 || !(t < L) || t == in.pos() - p0 - 1);
	VC_INVT(t, skip || VC_STATE(r) != 0 || !(j < t && j + 1 < L) || buf[j] == in.data[p0 + 1 + j]);
	vc_frame_begin(); vc_assigns(buf, skip ? 0 : size);
	u64 n = r.get_or_skip_string(skip ? nullptr : buf, size);
	vc_frame_end();
	u32 s = VC_STATE(r);
	VC_CHECK("terminated within the buffer", skip || (n < size && buf[n] == 0));
	VC_CHECK("a bad stream stays bad", s0 == 0 || (s != 0 && in.pos() == p0 && n == 0));
	VC_CHECK("nothing is read unless the string is quoted", s0 != 0 || quoted || (in.pos() == p0 && n == 0 && (s == 0 || s == 2)));
	VC_CHECK("an accepted string is consumed with its quotes", s != 0 || !quoted || (in.pos() >= p0 + 2 && in.data[in.pos() - 1] == '"'));
	VC_CHECK("chars in front of the first escape are reported unchanged", s != 0 || skip || !quoted || !(j + 1 < L && j < n) || buf[j] == in.data[p0 + 1 + j]);
	VC_CHECK("a string without escapes is reported as a whole", s != 0 || skip || !quoted || !(L >= in.pos() - p0 - 1) || n == in.pos() - p0 - 2);
	VC_CHECK("stays in the input", in.pos() >= p0 && in.pos() <= in.len);
#ifdef VC_NATIVE
	if (s == 0 && quoted && !skip) {   // full decoding, on concrete inputs
		u64 k = 0, p = p0 + 1; bool ok = true;
		while (p < in.pos() - 1) { u8 c = in.data[p++]; if (c == '\\') { int e = esc_len(in.data + p, in.len - p); if (e < 0) { ok = false; break; } c = esc_val(in.data + p); p += e; } else if (c == '"') { ok = false; break; } if (k >= n || (u8)buf[k] != c) { ok = false; break; } k++; }
		vc_assert(ok && k == n, "ensures: the whole string is decoded");
	}
#endif
}
static bool pr_digit(void*, std::size_t, u8 b) { return ascii::is_digit((char)b); }
static u64 bits(const double* d) { u64 b; std::memcpy(&b, d, 8); return b; }
static bool is_sign(char c) { return c == '+' || c == '-'; }
#ifndef VC_NATIVE
extern "C" double vcstub__atof(const char* p) {
	vcj.str_n = vcg.in_pos - vcj.str_pos; vcj.str = (const char*)vc_snapshot(p, vc_size_of_obj(p)); vcj.calls++;
	vcj.num = vc_u64("atof"); double d; vc_copy(&d, &vcj.num, 8); return d;
}
#endif
static u64 peek_at(const vc_input& in, u64 i) { return i < in.len ? (u8)in.data[i] : 0; }
static void number(bool dot, bool exp) {
	// stream states other than good and discarding the number are covered by the first shape
	bool simple = !dot && !exp;
	vc_input in; bool skip = simple && vc_bool("skip"); u64 j = vc_u64("j"); u32 s0 = simple ? vc_u8("state") & 7 : 0;
	double* num = (double*)vc_alloc(8, "num");
	R r(in.sb(), nullptr); VC_SET_STATE(r, s0);
	u64 p0 = in.pos(); vc_measure(p0); vc_measure(in.len);
	// the numeral at the stream position, by the grammar
	auto f1 = [&]() -> u64 { return p0 < in.len && is_sign(in.data[p0]) ? p0 + 1 : p0; };
	u64 e1 = vc_run(in.data, vc_eval64(f1), in.len, &pr_digit);
	auto dotf = [&]() -> bool { return e1 < in.len && in.data[e1] == '.'; }; vc_assume(vc_eval(dotf) == dot);
	u64 e2 = dot ? vc_run(in.data, e1 + 1, in.len, &pr_digit) : e1;
	auto expf = [&]() -> bool { return e2 < in.len && (in.data[e2] == 'e' || in.data[e2] == 'E'); }; vc_assume(vc_eval(expf) == exp);
	auto f3 = [&]() -> u64 { return e2 + 1 < in.len && is_sign(in.data[e2 + 1]) ? e2 + 2 : e2 + 1; };
	u64 e = exp ? vc_run(in.data, vc_eval64(f3), in.len, &pr_digit) : e2;
#ifndef VC_NATIVE
	vcj.str_pos = p0; vcj.calls = 0;
#endif
	vc_frame_begin(); vc_assigns(num, skip ? 0 : 8);
	r.get_or_skip_number(skip ? nullptr : num);
	vc_frame_end();
	u32 s = VC_STATE(r); u64 n = in.pos() - p0;
	VC_ASSUME(peek_at(in, e1) + peek_at(in, e2) + peek_at(in, e) >= 0);   // (looks once more at the ends of the digit runs)
	VC_CHECK("a bad stream stays bad", s0 == 0 || (s != 0 && in.pos() == p0));
	VC_CHECK("an accepted numeral is consumed as a whole", s != 0 || in.pos() == e);
	VC_CHECK("consumes nothing but the numeral", in.pos() >= p0 && in.pos() <= e);
	VC_CHECK("an accepted numeral is followed by something", s != 0 || in.pos() < in.len);
	VC_CHECK("a leading digit or sign is consumed", s != 0 || p0 >= in.len || !(ascii::is_digit(in.data[p0]) || is_sign(in.data[p0])) || n >= 1);
#ifdef VC_NATIVE
	if (s == 0 && !skip) { std::string t(in.data + p0, n); double d = std::atof(t.c_str()); VC_CHECK("the number is the value of the numeral text", std::memcmp(&d, num, 8) == 0); }
#else
	if (s != 0 || skip) return;
	VC_CHECK("the number is computed once", vcj.calls == 1 && bits(num) == vcj.num);
	VC_CHECK("the numeral text is terminated", vcj.str[n] == 0);
	VC_CHECK("the numeral text is the text in the input", !(j < n) || vcj.str[j] == in.data[p0 + j]);
#endif
}

// every numeral is of one of the four shapes
VC_PROOF(json_number__integer) { number(false, false); }
VC_PROOF(json_number__fraction) { number(true, false); }
VC_PROOF(json_number__exponent) { number(false, true); }
VC_PROOF(json_number__fraction_exponent) { number(true, true); }

// ---------------------------------------------------------------- tokens
static u64 lvls(R& r) { return r._level_top + 1; }
static bool lvl(R& r, u64 k) { return r._level_stack[k]; }
struct rig {
	vc_input in; u32 s0; R r; u64 p0, q; u64 L0; bool E0; bool top0; u64 k; bool bk; u64 bits;
	rig() : r(in.sb(), nullptr) {
		s0 = vc_u8("state") & 7; p0 = in.pos(); vc_measure(p0); vc_measure(in.len);
		VC_SET_STATE(r, s0);
		u64 lt = vc_u64("levels"); vc_assume(lt <= LV); r._level_top = lt - 1;
		bits = vc_u64("stack"); r._level_stack = std::bitset<LV>(bits);
		r._expect_property = vc_bool("expect");
		k = vc_u64("k"); vc_assume(k < LV);
		L0 = lt; E0 = r.expect_property(); top0 = lt > 0 && ((bits >> (lt - 1)) & 1); bk = (bits >> k) & 1;
		q = vc_run(in.data, p0, in.len, &pr_sp);
	}
};
static bool lit(const vc_input& in, u64 q, u64 p, const char* t, u64 n) {
	if (q + n > p) return false;
	for (u64 i = 0; i < n; i++) if (in.data[q + i] != t[i]) return false;
	return true;
}
static void token_post(rig& g, js::item_t item) {
	R& r = g.r; u32 s = VC_STATE(r); u64 p = g.in.pos(); u64 q = g.q; const vc_input& in = g.in;
	VC_CHECK("stays in the input", p >= g.p0 && p <= in.len);
	VC_CHECK("a bad stream stays bad", g.s0 == 0 || s != 0);
	VC_CHECK("nesting never exceeds its limits", lvls(r) <= LV);
	VC_CHECK("accepted: consumes at least one char", s != 0 || (p > q && q < in.len));
	VC_CHECK("outer levels are untouched", !(g.k < g.L0 && g.k < lvls(r)) || lvl(r, g.k) == g.bk);
	if (s != 0) return;
	char c = in.data[q];
	u64 L1 = lvls(r); bool top1 = L1 > 0 && lvl(r, L1 - 1);
	bool closes = item == it::end_array || item == it::end_object, opens = item == it::begin_array || item == it::begin_object;
	VC_CHECK("accepted: the token is the one in the input",
		item == it::null ? lit(in, q, p, "null", 4) : item == it::boolean ? lit(in, q, p, "true", 4) || lit(in, q, p, "false", 5) :
		item == it::number ? ascii::is_digit(c) || is_sign(c) : item == it::string || item == it::property ? c == '"' :
		item == it::begin_array ? c == '[' : item == it::end_array ? c == ']' : item == it::begin_object ? c == '{' : item == it::end_object && c == '}');
	VC_CHECK("accepted: a name or the end of the object where a name is due, a value otherwise", g.E0 ? item == it::property || item == it::end_object : item != it::property && item != it::end_object);
	VC_CHECK("accepted: nesting mirrors the containers", L1 == g.L0 + (opens ? 1 : 0) - (closes ? 1 : 0));
	VC_CHECK("accepted: opens the right container", !opens || top1 == (item == it::begin_object));
	VC_CHECK("accepted: closes the innermost container only", !closes || (g.L0 > 0 && g.top0 == (item == it::end_object)));
	VC_CHECK("accepted: a name is due next exactly inside an object", r.expect_property() == (L1 > 0 && top1 && item != it::property));
	VC_CHECK("accepted: a name is followed by a colon", item != it::property || in.data[p - 1] == ':');
	VC_CHECK("accepted: an element is followed by a comma or the end of its container", item == it::property || opens || L1 == 0 || in.data[p - 1] == ',' || (p < in.len && in.data[p] == (top1 ? '}' : ']')));
}
VC_PROOF(json_skip_token__get) {
	rig g; u64 size = vc_u64("size"); u64 j = vc_u64("j");
	js::token_t* t = (js::token_t*)vc_alloc(size, "token");
#ifndef VC_NATIVE
	vcj.calls = 0; vcj.num_set = false; vcj.str_n = 0; vcj.str = nullptr; vc_unroll(6);
#endif
	bool threw = false;
	vc_frame_begin(); vc_assigns(t, size); vc_assigns(&g.r, sizeof(R));
	try { g.r.get_token(t, size); } catch (std::logic_error&) { threw = true; }
	vc_frame_end();
	VC_CHECK("refuses a buffer that holds no token", threw == (size < sizeof(js::token_t)));
	if (threw) { VC_CHECK("a refused call has no effect", g.in.pos() == g.p0 && VC_STATE(g.r) == g.s0); return; }
	token_post(g, t->item);
	if (VC_STATE(g.r) != 0) return;
	VC_CHECK("a boolean is reported by value", t->item != it::boolean || t->value.boolean == (g.in.data[g.q] == 't'));
#ifndef VC_NATIVE
	bool str = t->item == it::string || t->item == it::property;
	VC_CHECK("a number is reported by value", t->item != it::number || (vcj.num_set && bits(&t->value.number) == vcj.num));
	VC_CHECK("a string is read from its place", !str || (vcj.calls == 1 && vcj.str_pos == g.q));
	if (str) VC_CHECK("a string is reported as it was read", j > vcj.str_n || t->value.string[j] == vcj.str[j]);
	VC_CHECK("a string is terminated inside the token buffer", !str || (vcj.str_n + 8 < size && t->value.string[vcj.str_n] == 0));
#endif
}
VC_PROOF(json_skip_token__skip) {
	rig g;
#ifndef VC_NATIVE
	vcj.calls = 0; vcj.num_set = false; vcj.str_n = 0; vcj.str = nullptr; vc_unroll(6);
#endif
	vc_frame_begin(); vc_assigns(&g.r, sizeof(R));
	js::item_t item = g.r.get_or_skip_token(nullptr, 0);
	vc_frame_end();
	token_post(g, item);
}
#ifndef VC_NATIVE
// ---- get_or_skip_token, as used by skip_value
VC_CONTRACT(json_skip_token, "^abc::json_istream<.*>::get_or_skip_token\\(");
extern "C" u16 vccontract__json_skip_token(void* self, js::token_t* buf, u64) {
	vc_assert(buf == nullptr, "get_or_skip_token: only skipping is under contract here");
	R* r = (R*)self;
	u64 p0 = vcg.in_pos; u64 n = vc_u64("n"); vc_assume(n <= vcg.in_len - p0); u32 s = vc_u32("s"); vc_assume(s <= 7);
	vc_assume(vcg.state == 0 || s != 0);
	vc_assume(s != 0 || n >= 1);
	u16 item = vc_u16("item"); u64 L0 = r->_level_top + 1; u64 L1 = vc_u64("levels");
	vc_assert(L0 <= LV, "get_or_skip_token: nesting state is within its limits");
	vc_assume(L1 <= LV && L1 + 1 >= L0 && L1 <= L0 + 1);
	bool opens = item == it::begin_array || item == it::begin_object, closes = item == it::end_array || item == it::end_object;
	vc_assume(s != 0 || L1 == L0 + (opens ? 1 : 0) - (closes ? 1 : 0));
	r->_level_top = L1 - 1; r->_level_stack = std::bitset<LV>(vc_u64("stack")); r->_expect_property = vc_bool("expect");
	vcg.in_pos = p0 + n; vcg.state = s;
	return item;
}
#endif
VC_PROOF(json_skip_value) {
	rig g; R& r = g.r; vc_input& in = g.in;
	VC_RANK((in.len - in.pos()) * 2 + (VC_STATE(r) == 0 ? 1 : 0));
	VC_INV(in.pos() >= g.p0 && in.pos() <= in.len);
	VC_INV(lvls(r) <= LV);
	VC_INV(g.s0 == 0 || VC_STATE(r) != 0);
	js::item_t item = r.skip_value(); (void)item;
	VC_CHECK("an accepted value leaves the nesting as it was", VC_STATE(r) != 0 || lvls(r) <= g.L0);
	VC_CHECK("stays in the input", in.pos() >= g.p0 && in.pos() <= in.len);
	VC_CHECK("nesting never exceeds its limits", lvls(r) <= LV);
	VC_CHECK("a bad stream stays bad", g.s0 == 0 || VC_STATE(r) != 0);
}
