#include "http_common.h"
using H = abc::http_istream<Log>;
using Req = abc::http_request_istream<Log>;
using Res = abc::http_response_istream<Log>;

// state a scan must leave, given where it stopped
static u32 stop_state(const vc_input& in, u64 pos, bool (*pred)(char)) {
	if (pos >= in.len) return 5;
	char c = in.data[pos];
	if (c & 0x80) return 5;
	return pred(c) ? 4 : 0;
}

VC_PROOF(http_get_chars) {
	vc_input in; u64 size = vc_u64("size"); vc_assume(size >= 1);
	char* buf = (char*)vc_alloc(size, "buf");
	vc_table = (u8*)vc_alloc(256, "pred"); vc_assume(!vc_anypred('\0'));
	u64 j = vc_u64("j"); u32 s0 = vc_u8("state") & 7;
	Req r(in.sb(), nullptr); VC_SET_STATE(r, s0);
	u64 p0 = in.pos();
	VC_INV(!(j < in.pos() - p0 && j < size) || buf[j] == in.data[p0 + j]);
	VC_INV(!(j < in.pos() - p0) || vc_anypred(in.data[p0 + j]));
	VC_INV(!(j < in.pos() - p0) || !(in.data[p0 + j] & 0x80));
	VC_RANK((in.len - in.pos()));
	VC_INV(s0 == 0 || VC_STATE(r) == s0);
	VC_INVT(t, s0 == 0 || t == 0);
	vc_measure(p0); vc_measure(in.len);
	abc::CharPredicate pr = &vc_anypred;
	vc_frame_begin(); vc_assigns(buf, size);
	u64 n = r.get_chars(std::move(pr), buf, size);
	vc_frame_end();
	VC_CHECK("count < size", n < size);
	VC_CHECK("terminated", buf[n] == 0);
	VC_CHECK("consumed exactly the count", in.pos() == p0 + n);
	VC_CHECK("copied", !(j < n) || buf[j] == in.data[p0 + j]);
	VC_CHECK("every char accepted", !(j < n) || vc_anypred(buf[j]));
	VC_CHECK("nothing happens on a bad stream", s0 == 0 || (n == 0 && VC_STATE(r) == s0));
	VC_CHECK("stops exactly where it must", s0 != 0 || VC_STATE(r) == stop_state(in, p0 + n, &vc_anypred));
	VC_CHECK("stops early only when full", s0 != 0 || VC_STATE(r) != 4 || n == size - 1);
}
VC_PROOF(http_skip_chars) {
	vc_input in; vc_table = (u8*)vc_alloc(256, "pred"); vc_assume(!vc_anypred('\0'));
	u64 j = vc_u64("j"); u32 s0 = vc_u8("state") & 7;
	Req r(in.sb(), nullptr); VC_SET_STATE(r, s0);
	u64 p0 = in.pos();
	VC_INV(!(j < in.pos() - p0) || vc_anypred(in.data[p0 + j]));
	VC_RANK((in.len - in.pos()));
	VC_INV(s0 == 0 || VC_STATE(r) == s0);
	VC_INVT(t, s0 == 0 || t == 0);
	vc_measure(p0); vc_measure(in.len);
	VC_INV(s0 == 0 || VC_STATE(r) == s0);
	VC_INVT(t, s0 == 0 || t == 0);
	abc::CharPredicate pr = &vc_anypred;
	u64 n = r.skip_chars(std::move(pr));
	VC_CHECK("consumed exactly the count", in.pos() == p0 + n);
	VC_CHECK("every char accepted", !(j < n) || vc_anypred(in.data[p0 + j]));
	VC_CHECK("nothing happens on a bad stream", s0 == 0 || (n == 0 && VC_STATE(r) == s0));
	VC_CHECK("stops exactly where it must", s0 != 0 || (VC_STATE(r) == stop_state(in, p0 + n, &vc_anypred) && VC_STATE(r) != 4));
}

// ---------------------------------------------------------------- public readers
// Common shape: arbitrary input, arbitrary position, arbitrary buffer size, arbitrary expected item.
template <typename R>
struct rig {
	vc_input in; u64 size; char* buf; u64 j; u32 s0; u64 p0; R r; u8 nx;
	rig(u64 minsize) : r(in.sb(), nullptr) {
		size = vc_u64("size"); vc_assume(size >= minsize);
		buf = (char*)vc_alloc(size, "buf");
		j = vc_u64("j"); s0 = vc_u8("state") & 7; nx = vc_u8("next");
		r.template http_state<Log>::_next = nx;
		VC_SET_STATE(r, s0); p0 = in.pos();
		vc_measure(p0); vc_measure(in.len); vc_measure(size);
	}
};
#define RUN(R, minsize, ITEM, CALL) RUNI(R, minsize, ITEM, CALL, )
#define RUNI(R, minsize, ITEM, CALL, ...) \
	rig<R> g(minsize); __VA_ARGS__ \
	bool threw = false; \
	VC_RANK((g.in.len - g.in.pos())); \
	VC_RANK((g.in.len - g.in.pos()) * 8 + (VC_STATE(g.r) == 0 ? 1 : 0)); \
	try { g.r.CALL(g.buf, g.size); } catch (std::logic_error&) { threw = true; } \
	VC_CHECK("refuses an item out of order, accepts it in order", threw == (g.nx != (ITEM))); \
	if (threw) { VC_CHECK("refused call has no effect", g.in.pos() == g.p0 && g.r.next() == g.nx && VC_STATE(g.r) == g.s0); return; } \
	u64 n = g.r.gcount(); (void)n;

VC_PROOF(http_in_method) {
	RUN(Req, 1, item::method, get_method)
	VC_CHECK("next item is the resource", g.r.next() == item::resource);
	VC_CHECK("terminated within the buffer", n < g.size && g.buf[n] == 0);
	VC_CHECK("method is the token at the stream position", !(g.j < n) || (g.buf[g.j] == g.in.data[g.p0 + g.j] && ascii::http::is_token(g.buf[g.j])));
	VC_CHECK("method is not truncated silently", g.s0 != 0 || VC_STATE(g.r) != 0 || !ascii::http::is_token(g.in.data[g.p0 + n]));
	VC_CHECK("stops in front of the next item", VC_STATE(g.r) != 0 || (g.in.pos() < g.in.len && !ascii::is_space(g.in.data[g.in.pos()])));
}
VC_PROOF(http_in_resource) {
	RUN(Req, 2, item::resource, get_resource)
	VC_CHECK("next item is the protocol", g.r.next() == item::protocol);
	VC_CHECK("doubly terminated within the buffer", n + 1 < g.size && g.buf[n] == 0 && g.buf[n + 1] == 0);
	VC_CHECK("resource is the printable run at the stream position", !(g.j < n) || (g.buf[g.j] == g.in.data[g.p0 + g.j] && ascii::is_abcprint(g.buf[g.j])));
	VC_CHECK("resource is not truncated silently", g.s0 != 0 || VC_STATE(g.r) != 0 || !ascii::is_abcprint(g.in.data[g.p0 + n]));
	VC_CHECK("stops in front of the next item", VC_STATE(g.r) != 0 || (g.in.pos() < g.in.len && !ascii::is_space(g.in.data[g.in.pos()])));
}
template <typename R> static void protocol(u8 nextitem, bool crlf) {
	RUN(R, 1, item::protocol, get_protocol)
	VC_CHECK("next item", g.r.next() == nextitem);
	VC_CHECK("terminated within the buffer", n < g.size && g.buf[n] == 0);
	VC_CHECK("accepted protocol is HTTP/<digits>.<digits>", VC_STATE(g.r) != 0 ||
		(n >= 6 && ascii::to_upper(g.buf[0]) == 'H' && ascii::to_upper(g.buf[1]) == 'T' && ascii::to_upper(g.buf[2]) == 'T' && ascii::to_upper(g.buf[3]) == 'P' && g.buf[4] == '/'));
	VC_CHECK("accepted protocol has only digits and a dot after the slash", VC_STATE(g.r) != 0 || !(5 <= g.j && g.j < n) || ascii::is_digit(g.buf[g.j]) || g.buf[g.j] == '.');
	VC_CHECK("accepted protocol is what was on the wire", VC_STATE(g.r) != 0 || !(g.j < n) || g.buf[g.j] == g.in.data[g.p0 + g.j]);
	VC_CHECK("accepted request line ends with CR LF", !crlf || VC_STATE(g.r) != 0 || (g.in.data[g.in.pos() - 2] == '\r' && g.in.data[g.in.pos() - 1] == '\n'));
}
VC_PROOF(http_in_protocol_request) { protocol<Req>(item::header_name, true); }
VC_PROOF(http_in_protocol_response) { protocol<Res>(item::status_code, false); }
VC_PROOF(http_in_status_code) {
	RUN(Res, 1, item::status_code, get_status_code)
	VC_CHECK("next item is the reason phrase", g.r.next() == item::reason_phrase);
	VC_CHECK("terminated within the buffer", n < g.size && g.buf[n] == 0);
	VC_CHECK("status code is the digits at the stream position", !(g.j < n) || (g.buf[g.j] == g.in.data[g.p0 + g.j] && ascii::is_digit(g.buf[g.j])));
	VC_CHECK("status code is not truncated silently", g.s0 != 0 || VC_STATE(g.r) != 0 || !ascii::is_digit(g.in.data[g.p0 + n]));
}
VC_PROOF(http_in_reason_phrase) {
	RUN(Res, 1, item::reason_phrase, get_reason_phrase)
	VC_CHECK("next item is a header", g.r.next() == item::header_name);
	VC_CHECK("terminated within the buffer", n < g.size && g.buf[n] == 0);
	VC_CHECK("reason phrase is the printable text at the stream position", !(g.j < n) || (g.buf[g.j] == g.in.data[g.p0 + g.j] && ascii::is_abcprint_or_space(g.buf[g.j])));
	VC_CHECK("accepted line ends with CR LF", VC_STATE(g.r) != 0 || (g.in.data[g.in.pos() - 2] == '\r' && g.in.data[g.in.pos() - 1] == '\n'));
}
VC_PROOF(http_in_header_name) {
	RUN(Req, 1, item::header_name, get_header_name)
	VC_CHECK("terminated within the buffer", n < g.size && g.buf[n] == 0);
	VC_CHECK("header name is the token at the stream position", !(g.j < n) || (g.buf[g.j] == g.in.data[g.p0 + g.j] && ascii::http::is_token(g.buf[g.j])));
	VC_CHECK("an empty name ends the headers, anything else is followed by its value", g.r.next() == (n == 0 ? item::body : item::header_value));
	VC_CHECK("an accepted empty name consumed CR LF", n != 0 || VC_STATE(g.r) != 0 || (g.in.pos() >= g.p0 + 2 && g.in.data[g.in.pos() - 2] == '\r' && g.in.data[g.in.pos() - 1] == '\n'));
	VC_CHECK("header name is not truncated silently", g.s0 != 0 || VC_STATE(g.r) != 0 || !ascii::http::is_token(g.in.data[g.p0 + n]));
}
VC_PROOF(http_in_header_value) {
	rig<Req> g(1);
	bool threw = false;
	VC_INV(g.in.pos() >= g.p0 && g.in.pos() <= g.in.len);
	VC_INVT(t, t == 0 || t >= g.size || g.buf[t] == 0);
	VC_INVT(t, !(g.j < t && g.j < g.size) || g.buf[g.j] == ' ' || ascii::is_abcprint(g.buf[g.j]));
	VC_INVT(t, t == 0 || g.buf[0] != ' ');
	VC_RANK((g.in.len - g.in.pos()));
	VC_RANK((g.in.len - g.in.pos()) * 8 + (VC_STATE(g.r) == 0 ? 1 : 0));
	try { g.r.get_header_value(g.buf, g.size); } catch (std::logic_error&) { threw = true; }
	VC_CHECK("refuses an item out of order, accepts it in order", threw == (g.nx != item::header_value));
	if (threw) { VC_CHECK("refused call has no effect", g.in.pos() == g.p0 && g.r.next() == g.nx && VC_STATE(g.r) == g.s0); return; }
	u64 n = g.r.gcount();
	VC_CHECK("terminated within the buffer", n < g.size && g.buf[n] == 0);
	VC_CHECK("header value holds only printable characters and single-character separators", !(g.j < n) || g.buf[g.j] == ' ' || ascii::is_abcprint(g.buf[g.j]));
	VC_CHECK("header value does not start with white space", n == 0 || g.buf[0] != ' ');
	VC_CHECK("next item", g.r.next() == item::header_name || (g.r.next() == item::header_value && (VC_STATE(g.r) & 4)));
}
VC_PROOF(http_in_body) {
	RUNI(Req, 0, item::body, get_body,
		VC_INV(g.s0 != 0 || VC_STATE(g.r) == 0 || g.in.pos() == g.in.len);
		VC_INVT(t, t == g.in.pos() - g.p0);
		VC_INVT(t, !(g.j < t && g.j < g.size) || g.buf[g.j] == g.in.data[g.p0 + g.j]);)
	VC_CHECK("next item is the body", g.r.next() == item::body);
	VC_CHECK("reports only bytes that were received", n <= g.size && g.in.pos() == g.p0 + n);
	VC_CHECK("fills the buffer unless the input ends", g.s0 != 0 || n == g.size || g.in.pos() == g.in.len);
	VC_CHECK("body bytes are passed through unchanged", !(g.j < n) || g.buf[g.j] == g.in.data[g.p0 + g.j]);
}
