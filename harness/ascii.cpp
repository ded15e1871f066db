// C18: character classes, case conversion, hex values, string comparison.
#include "vc.h"
#include "ascii.h"
#include "size.h"
namespace ascii = abc::ascii;
// class definitions as membership tables, written down independently of the code
static bool among(char c, const char* set, unsigned n) { bool r = false; for (unsigned i = 0; i < n; i++) r |= (set[i] == c); return r; }
#define AMONG(c, lit) among(c, lit, sizeof(lit) - 1)
#define UPPER "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
#define LOWER "abcdefghijklmnopqrstuvwxyz"
#define DIGIT "0123456789"
#define SEPS " \t()<>[]{}@,;:\\/\"?="
static int u(char c) { return (unsigned char)c; }
#ifndef VC_NATIVE
VC_MERGE(among, 40, "^among\\(");
#endif
VC_PROOF(ascii_classes) {
	char c = (char)vc_u8("c"); int k = u(c);
	VC_CHECK("is_ascii", ascii::is_ascii(c) == (k < 128));
	VC_CHECK("is_digit", ascii::is_digit(c) == AMONG(c, DIGIT));
	VC_CHECK("is_hex", ascii::is_hex(c) == AMONG(c, DIGIT "ABCDEFabcdef"));
	VC_CHECK("is_upperalpha", ascii::is_upperalpha(c) == AMONG(c, UPPER));
	VC_CHECK("is_loweralpha", ascii::is_loweralpha(c) == AMONG(c, LOWER));
	VC_CHECK("is_alpha", ascii::is_alpha(c) == (AMONG(c, UPPER) || AMONG(c, LOWER)));
	VC_CHECK("is_space", ascii::is_space(c) == AMONG(c, " \t"));
	VC_CHECK("is_control", ascii::is_control(c) == (k < 32 || k == 127));
	VC_CHECK("is_stdprint", ascii::is_stdprint(c) == (k >= 32 && k <= 126));
	VC_CHECK("is_abcprint", ascii::is_abcprint(c) == (k >= 33 && k <= 126));
	VC_CHECK("is_abcprint_or_space", ascii::is_abcprint_or_space(c) == ((k >= 32 && k <= 126) || k == 9));
	VC_CHECK("http separator", ascii::http::is_separator(c) == AMONG(c, SEPS));
	VC_CHECK("http token", ascii::http::is_token(c) == (k >= 33 && k <= 126 && !AMONG(c, SEPS)));
	VC_CHECK("json space", ascii::json::is_space(c) == AMONG(c, " \t\r\n"));
	VC_CHECK("json string content", ascii::json::is_string_content(c) == !AMONG(c, "\"\\"));
}
VC_PROOF(ascii_between) {
	char c = (char)vc_u8("c"), l = (char)vc_u8("l"), h = (char)vc_u8("h");
	VC_CHECK("is_between", ascii::is_between(c, l, h) == (l <= c && c <= h));
}
VC_PROOF(ascii_case) {
	char c = (char)vc_u8("c"); unsigned i = vc_u8("i"); vc_assume(i < 26);
	static const char up[] = UPPER, lo[] = LOWER;
	VC_CHECK("to_lower maps each capital", ascii::to_lower(up[i]) == lo[i]);
	VC_CHECK("to_upper maps each small letter", ascii::to_upper(lo[i]) == up[i]);
	VC_CHECK("to_lower leaves the rest", AMONG(c, UPPER) || ascii::to_lower(c) == c);
	VC_CHECK("to_upper leaves the rest", AMONG(c, LOWER) || ascii::to_upper(c) == c);
}
VC_PROOF(ascii_hex) {
	static const char lo[] = "0123456789abcdef", up[] = "0123456789ABCDEF";
	unsigned i = vc_u8("i"); vc_assume(i < 16); char c = (char)vc_u8("c");
	VC_CHECK("hex value", ascii::hex(lo[i]) == i && ascii::hex(up[i]) == i);
	VC_CHECK("hex value is a nibble, 0 for other characters", ascii::hex(c) < 16 && (AMONG(c, "0123456789abcdefABCDEF") || ascii::hex(c) == 0));
}
// ---------------------------------------------------------------- comparison
struct two {
	char* a; char* b; u64 la, lb, n, j; bool cs, bounded;
	two(u64 fixed_n, int fixed_cs) {
		la = vc_u64("la"); lb = vc_u64("lb"); a = (char*)vc_alloc(la, "a"); b = (char*)vc_alloc(lb, "b");
		n = fixed_n ? fixed_n : vc_u64("n"); cs = fixed_cs < 0 ? vc_bool("case") : fixed_cs != 0; j = vc_u64("j");
	}
	bool eq(u64 i) const { return cs ? a[i] == b[i] : ascii::to_lower(a[i]) == ascii::to_lower(b[i]); }
};
// every string is terminated inside its buffer, or the limit keeps the comparison inside it
static bool at_nonzero(void*, std::size_t, u8 c) { return c != 0; }
static bool at_same(void* x, std::size_t i, u8 c) { two& t = *(two*)x; return t.cs ? t.a[i] == (char)c : ascii::to_lower(t.a[i]) == ascii::to_lower((char)c); }
template <typename F> static void compare(u64 fixed_n, int fixed_cs, F call) {
	two t(fixed_n, fixed_cs);
	u64 za = vc_u64("za"), zb = vc_u64("zb");        // first terminator of each, or beyond the limit
	vc_assume(za < t.la || (za == t.la && t.n <= t.la)); vc_assume(zb < t.lb || (zb == t.lb && t.n <= t.lb));
	if (za < t.la) vc_assume(t.a[za] == 0);
	if (zb < t.lb) vc_assume(t.b[zb] == 0);
	vc_learn(t.a, za, &at_nonzero, nullptr); vc_learn(t.b, zb, &at_nonzero, nullptr);
	u64 m = za < zb ? za : zb;
	VC_INVT(i, i <= za && i <= zb);
	VC_INVT(i, i <= t.n);
	VC_INVT(i, !(t.j < i && t.j < t.la && t.j < t.lb) || (t.eq(t.j) && t.a[t.j] != 0));
	vc_measure(t.n); vc_measure(za);
	vc_frame_begin();
	bool r = call(t);
	vc_frame_end();
	VC_CHECK("equal strings agree in every compared position", !r || !(t.j < t.n && t.j <= m && t.j < t.la && t.j < t.lb) || t.eq(t.j));
	VC_CHECK("strings that end at different places within the limit differ", !r || za == zb || m >= t.n);
}
template <typename F> static void compare_same(u64 fixed_n, int fixed_cs, F call) {
	two t(fixed_n, fixed_cs);
	u64 za = vc_u64("za");
	vc_assume((za < t.la && za < t.lb) || (za == t.la && t.n <= t.la && t.n <= t.lb));
	if (za < t.la) vc_assume(t.a[za] == 0);
	u64 m = za < t.n ? za + 1 : t.n;
	vc_learn(t.b, m, &at_same, &t);
	VC_INVT(i, i <= za && i <= t.n);
	vc_measure(t.n); vc_measure(za);
	bool r = call(t);
	VC_CHECK("strings that agree up to the terminator or the limit are equal", r);
}
#define CMP(name, n, cs, ...) \
	VC_PROOF(ascii_##name##_sound) { compare(n, cs, [](two& t) { return __VA_ARGS__; }); } \
	VC_PROOF(ascii_##name##_complete) { compare_same(n, cs, [](two& t) { return __VA_ARGS__; }); }
CMP(equal_full, 0, -1, ascii::are_equal(t.a, t.b, t.cs, t.n))
CMP(equal, abc::size::strlen, 1, ascii::are_equal(t.a, t.b))
CMP(equal_i, abc::size::strlen, 0, ascii::are_equal_i(t.a, t.b))
CMP(equal_n, 0, 1, ascii::are_equal_n(t.a, t.b, t.n))
CMP(equal_i_n, 0, 0, ascii::are_equal_i_n(t.a, t.b, t.n))
VC_PROOF(ascii_equal_null) {
	u64 n = vc_u64("n"); bool cs = vc_bool("cs"); char s[4] = { (char)vc_u8("s0"), (char)vc_u8("s1"), (char)vc_u8("s2"), 0 };
	VC_CHECK("null equals only null", ascii::are_equal(nullptr, nullptr, cs, n) && !ascii::are_equal(nullptr, s, cs, n) && !ascii::are_equal(s, nullptr, cs, n));
}
