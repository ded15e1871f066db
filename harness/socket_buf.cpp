// C22: stream buffers over sockets. The code of std::streambuf itself is instantiated from the libstdc++ headers and verified along.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include "vc.h"
#include "socket.h"
#ifdef VC_NATIVE
#include "log.h"
#endif
#ifndef VC_NATIVE
extern "C" { void vcstub___ZNSt6localeC1Ev(void*) {} void vcstub___ZNSt6localeD1Ev(void*) {} }
#endif
// the other end: what it sends (rx), what it has received (tx); every transfer may fail, end the connection, or stop short
struct ghost_t { const char* rx; u64 rn, rpos; char* tx; u64 tcap, tlen; u64 sends, failed, rfailed; };
static ghost_t w;
struct peer {
	std::size_t receive(void* buffer, std::size_t size, void* = nullptr) {
		vc_assert(vc_valid(buffer, size), "receives into memory that holds the size asked for");
		u64 r = vc_u64("received"); vc_assume(r <= size && r <= w.rn - w.rpos);
		if (r == 1) *(char*)buffer = w.rx[w.rpos]; else if (r > 1) vc_copy(buffer, w.rx + w.rpos, r);
		w.rpos += r; if (r == 0) w.rfailed++;
		return r;
	}
	std::size_t send(const void* buffer, std::size_t size, void* = nullptr) {
		vc_assert(vc_valid(buffer, size), "sends memory that holds the size given");
		u64 r = vc_u64("sent"); vc_assume(r <= size && r <= w.tcap - w.tlen);
		if (r == 1) w.tx[w.tlen] = *(const char*)buffer; else if (r > 1) vc_copy(w.tx + w.tlen, buffer, r);
		w.tlen += r; w.sends++; if (r < size) w.failed++;
		return r;
	}
};
struct probe : abc::socket_streambuf<peer> {
	using base = abc::socket_streambuf<peer>;
	probe(peer* p) : base(p) {}
	probe(probe&& o) : base(std::move(o)) {}
	char *gb() { return eback(); } char *gp() { return gptr(); } char *ge() { return egptr(); } char *pb() { return pbase(); } char *pp() { return pptr(); } char *pe() { return epptr(); }
	u64 pend() { return (u64)(pptr() - pbase()); } char first() { return *pbase(); }
	u64 unread() { return (u64)(egptr() - gptr()); } char next() { return *gptr(); }
};
static void setup() {
	memset(&w, 0, sizeof w);
	w.rn = vc_u64("rn"); vc_assume(w.rn <= (u64(1) << 40)); w.rx = (const char*)vc_alloc(w.rn, "rx");
	w.tcap = vc_u64("tcap");
#ifdef VC_NATIVE
	vc_assume(w.tcap <= 65536);
#endif
	vc_assume(w.tcap <= (u64(1) << 40)); w.tx = (char*)vc_ghost_alloc(w.tcap, "tx");
}
// what the reader should see after d characters have been consumed
static int expect(u64 d) { return w.rpos > d ? (int)(u8)w.rx[d] : -1; }
// any state the get side can be in: fresh, one character peeked, or one or two consumed
struct reader { u64 d = 0; bool ended = false;
	void some(std::streambuf& b, u8 upto = 4) {
		u8 k = vc_u8("history"); vc_assume(k < upto);
		if (k == 1) { int c = b.sgetc(); ended = c == -1; VC_CHECK("peeks the next character received", c == expect(d)); }
		if (k >= 2) { int c = b.sbumpc(); ended = c == -1; VC_CHECK("reads the next character received", c == expect(d)); if (c != -1) d++; }
		if (k == 3) { int c = b.sgetc(); VC_CHECK("peeks the next character received", c == expect(d)); }
	} };
VC_PROOF(ssb_sgetc) {
	setup(); peer p; probe s(&p); std::streambuf& b = s; reader r; r.some(b); u64 f = w.rfailed;
	int c = b.sgetc();
	VC_CHECK("peeks the next character received with its value, or reports the end", c == expect(r.d));
	VC_CHECK("reports the end only when nothing came", (c == -1) == (w.rfailed > f));
	VC_CHECK("nothing was sent", w.sends == 0);
	int e = b.sgetc(); VC_CHECK("peeking consumes nothing", e == expect(r.d) && (c == -1 || e == c));
}
VC_PROOF(ssb_sbumpc) {
	setup(); peer p; probe s(&p); std::streambuf& b = s; reader r; r.some(b); u64 f = w.rfailed;
	int c = b.sbumpc();
	VC_CHECK("reads the next character received with its value, or reports the end", c == expect(r.d));
	VC_CHECK("reports the end only when nothing came", (c == -1) == (w.rfailed > f));
	if (c != -1) r.d++;
	int e = b.sbumpc(); VC_CHECK("each character received is delivered once, in order", e == expect(r.d));
	VC_CHECK("nothing was sent", w.sends == 0);
}
VC_PROOF(ssb_snextc) {
	setup(); peer p; probe s(&p); std::streambuf& b = s; reader r; r.some(b);
	int c = b.snextc();
	VC_CHECK("moves on to the next character received, or reports the end", c == -1 || c == expect(r.d + 1));
}
VC_PROOF(ssb_sgetn) {
	setup(); peer p; probe s(&p); std::streambuf& b = s; u64 d0 = 0; if (vc_bool("history")) { int c = b.sbumpc(); d0 = c != -1; }
	u64 n = vc_u64("n"); vc_assume(n <= (u64(1) << 40)); char* to = (char*)vc_alloc(n, "to"); u64 j = vc_u64("j");
	const char* e0 = s.gb(); char old = j < n ? to[j] : 0; vc_measure(n);
	VC_INV(w.rpos <= w.rn); VC_INV(s.gb() == e0); VC_INV((u64)(s.ge() - e0) <= 1); VC_INV(s.gp() == s.ge());
	VC_INVT(t, w.rpos == d0 + t); VC_INVT(t, t <= n);
	VC_INVT(t, t == (u64)to + (w.rpos - d0)); VC_INV(j >= n || to[j] == (j < w.rpos - d0 ? w.rx[d0 + j] : old));
	u64 k = (u64)b.sgetn(to, (std::streamsize)n);
	VC_CHECK("delivers no more than asked for", k <= n);
	VC_CHECK("delivers what was received, in order, once", w.rpos - s.unread() == d0 + k && (j >= k || to[j] == w.rx[d0 + j]));
}
VC_PROOF(ssb_sgetn_peeked) {
	setup(); peer p; probe s(&p); std::streambuf& b = s; int c = b.sgetc();
	u64 n = vc_u64("n"); vc_assume(n <= 2); char* to = (char*)vc_alloc(n, "to"); vc_unroll(5);
	u64 k = (u64)b.sgetn(to, (std::streamsize)n);
	VC_CHECK("delivers what was received, in order, once", k <= n && w.rpos - s.unread() == k && (k < 1 || to[0] == w.rx[0]) && (k < 2 || to[1] == w.rx[1]));
	VC_CHECK("what was peeked is delivered", n == 0 || c == -1 || (k >= 1 && (int)(u8)to[0] == c));
	int e = b.sgetc(); VC_CHECK("and goes on from there", e == expect(k));
}
// three characters put with any faults between them, then a sync
VC_PROOF(ssb_put) {
	setup(); peer p; probe s(&p); std::streambuf& b = s;
	char v[3]; bool ok = true; u64 n = vc_u64("n"); vc_assume(n <= 3); vc_unroll(5);
	for (u64 k = 0; k < n; k++) { v[k] = (char)vc_u8("v"); u64 f = w.failed; int c = b.sputc(v[k]); VC_CHECK("a character is accepted, or refused when sending failed", c == (w.failed > f ? -1 : (int)(u8)v[k])); ok = ok && c != -1; }
	bool eof = vc_bool("eof"); u64 f = w.failed;
	int y = eof ? s.pubsync() : b.pubsync();
	VC_CHECK("a failed send is reported", (y == -1) == (w.failed > f));
	ok = ok && y == 0;
	VC_CHECK("when nothing failed, the other end has received exactly what was put", !ok || (w.tlen == n && (n < 1 || w.tx[0] == v[0]) && (n < 2 || w.tx[1] == v[1]) && (n < 3 || w.tx[2] == v[2])));
	VC_CHECK("no character arrives twice or out of order", w.tlen <= n &&
		(w.tlen != 1 || (n >= 1 && w.tx[0] == v[0]) || (n >= 2 && w.tx[0] == v[1]) || (n >= 3 && w.tx[0] == v[2])) &&
		(w.tlen != 2 || (w.tx[0] == v[0] && w.tx[1] == v[1]) || (n == 3 && ((w.tx[0] == v[0] && w.tx[1] == v[2]) || (w.tx[0] == v[1] && w.tx[1] == v[2])))) &&
		(w.tlen != 3 || (w.tx[0] == v[0] && w.tx[1] == v[1] && w.tx[2] == v[2])));
	u64 t = w.tlen, q = w.sends; y = b.pubsync();
	VC_CHECK("a second sync sends nothing", w.tlen == t && w.sends == q && y == 0);
	VC_CHECK("nothing was received", w.rpos == 0 && w.rfailed == 0);
}
struct eof_probe : probe { using probe::probe; int over() { return overflow(-1); } };
VC_PROOF(ssb_overflow_eof) {
	setup(); peer p; eof_probe s(&p); std::streambuf& b = s; u8 k = vc_u8("pending"); vc_assume(k < 2); char v = (char)vc_u8("v");
	if (k) b.sputc(v);
	int c = s.over();
	VC_CHECK("overflow without a character sends what is pending and nothing else", (c == -1) == (w.failed > 0) && w.tlen == (w.failed ? 0 : k) && (w.tlen == 0 || w.tx[0] == v));
}
VC_PROOF(ssb_sputn) {
	setup(); peer p; probe s(&p); std::streambuf& b = s;
	u64 n = vc_u64("n"); vc_assume(n <= (u64(1) << 40)); const char* from = (const char*)vc_alloc(n, "from"); u64 j = vc_u64("j");
	const char* e0 = s.pb(); vc_region(e0, (u64)(s.pe() - e0)); vc_measure(n);
	VC_INV(w.failed == 0); VC_INV(w.tlen <= w.tcap); VC_INV(s.pb() == e0 && s.pe() == e0 + 1 && s.pp() >= e0 && s.pp() <= s.pe());
	VC_INVT(t, w.tlen + s.pend() == t); VC_INVT(t, t <= n); VC_INV(s.pend() == 0 || s.first() == from[w.tlen]);
	VC_INVT(t, t == (u64)from + w.tlen + s.pend());
	VC_INV(j >= w.tlen || w.tx[j] == from[j]);
	u64 k = (u64)b.sputn(from, (std::streamsize)n); u64 f = w.failed;
	VC_CHECK("accepts everything, or stops when sending fails", k <= n && (k == n || f > 0));
	VC_CHECK("sent in order", w.tlen <= n && (j >= w.tlen || w.tx[j] == from[j]));
	int y = b.pubsync();
	VC_CHECK("a failed send is reported", (y == -1) == (w.failed > f));
	VC_CHECK("after a sync everything put has arrived once, in order", k < n || y == -1 || (w.tlen == n && (j >= n || w.tx[j] == from[j])));
}
VC_PROOF(ssb_move) {
	setup(); peer p; probe s0(&p); reader r; r.some(s0); u8 k = vc_u8("pending"); vc_assume(k < 2); char v = (char)vc_u8("v");
	if (k) s0.sputc(v);
	u64 q = w.rpos;
	probe s(std::move(s0)); std::streambuf& b = s;
	VC_CHECK("moving neither sends nor receives", w.rpos == q && w.sends == 0);
	int c = b.sgetc(); VC_CHECK("what was received goes on being delivered", c == expect(r.d));
	int y = b.pubsync(); VC_CHECK("what was put is sent once", (y == -1) == (w.failed > 0) && w.tlen == (w.failed ? 0 : k) && (w.tlen == 0 || w.tx[0] == v));
}
VC_PROOF(ssb_construct) {
	bool threw = false;
	try { abc::socket_streambuf<peer> s(nullptr); } catch (...) { threw = true; }
	VC_CHECK("a stream buffer needs a socket", threw);
}
