// C19: stream buffers over a caller's buffer. The code of std::streambuf itself is instantiated from the libstdc++ headers and verified along.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include "vc.h"
#include "buffer_streambuf.h"
#ifndef VC_NATIVE
extern "C" { void vcstub___ZNSt6localeC1Ev(void*) {} void vcstub___ZNSt6localeD1Ev(void*) {} }
#endif
struct probe : abc::buffer_streambuf {
	using abc::buffer_streambuf::buffer_streambuf;
	probe(probe&& o) : abc::buffer_streambuf(std::move(o)) {}
	char* gb() { return eback(); } char* gp() { return gptr(); } char* ge() { return egptr(); }
	char* pb() { return pbase(); } char* pp() { return pptr(); } char* pe() { return epptr(); }
	void at(u64 g, u64 p) { setg(eback(), eback() + g, egptr()); setp(pbase(), epptr()); pbump((int)p); }
};
// a stream buffer over arbitrary readable and writable ranges of two caller's buffers, at any position it can have reached
struct world {
	u64 gn, g0, g1, pn, p0, p1, gk, pk, j; char *g, *p; const char* oldp;
	world() {
		gn = vc_u64("gn"); g = (char*)vc_alloc(gn, "get"); g0 = vc_u64("g0"); g1 = vc_u64("g1"); vc_assume(g0 <= g1 && g1 <= gn);
		pn = vc_u64("pn"); p = (char*)vc_alloc(pn, "put"); p0 = vc_u64("p0"); p1 = vc_u64("p1"); vc_assume(p0 <= p1 && p1 <= pn);
		gk = vc_u64("gk"); vc_assume(gk <= g1 - g0); pk = vc_u64("pk"); vc_assume(pk <= p1 - p0 && pk < (u64(1) << 31));
		j = vc_u64("j"); vc_assume(j < pn); oldp = (const char*)vc_snapshot(p, pn);
	}
};
#define RANGES(s, gi, pi) \
	VC_CHECK("reads exactly the readable part", (s).gb() == w.g + w.g0 && (s).gp() == w.g + w.g0 + (gi) && (s).ge() == w.g + w.g1); \
	VC_CHECK("writes exactly the writable part", (s).pb() == w.p + w.p0 && (s).pp() == w.p + w.p0 + (pi) && (s).pe() == w.p + w.p1);
VC_PROOF(sb_construct) { world w; probe s(w.g, w.g0, w.g1, w.p, w.p0, w.p1); RANGES(s, 0, 0) }
VC_PROOF(sb_construct_ptr) { world w; probe s(w.g + w.g0, w.g + w.g1, w.p + w.p0, w.p + w.p1); RANGES(s, 0, 0) }
VC_PROOF(sb_move) {
	world w; probe s(w.g, w.g0, w.g1, w.p, w.p0, w.p1); s.at(w.gk, w.pk);
	probe t(std::move(s)); RANGES(t, w.gk, w.pk)
	probe u(std::move(t)); RANGES(u, w.gk, w.pk)
}
#define SB probe s(w.g, w.g0, w.g1, w.p, w.p0, w.p1); s.at(w.gk, w.pk); bool left = w.gk < w.g1 - w.g0, room = w.pk < w.p1 - w.p0; (void)left; (void)room; \
	std::streambuf& b = s;
VC_PROOF(sb_sgetc) {
	world w; SB
	int c = b.sgetc();
	VC_CHECK("peeks the next character or reports the end", c == (left ? (int)(u8)w.g[w.g0 + w.gk] : -1));
	RANGES(s, w.gk, w.pk)
}
VC_PROOF(sb_sbumpc) {
	world w; SB
	int c = b.sbumpc();
	VC_CHECK("reads the next character or reports the end", c == (left ? (int)(u8)w.g[w.g0 + w.gk] : -1));
	RANGES(s, w.gk + left, w.pk)
}
VC_PROOF(sb_sputc) {
	world w; SB
	char v = (char)vc_u8("v");
	vc_frame_begin(); vc_assigns(&s, sizeof s); vc_assigns(w.p + w.p0, w.p1 - w.p0);
	int c = b.sputc(v);
	vc_frame_end();
	VC_CHECK("accepts a character or refuses at the end", c == (room ? (int)(u8)v : -1));
	VC_CHECK("writes at the position and nowhere else", w.p[w.j] == (room && w.j == w.p0 + w.pk ? v : w.oldp[w.j]));
	RANGES(s, w.gk, w.pk + room)
}
VC_PROOF(sb_sgetn) {
	world w; SB
	u64 n = vc_u64("n"); vc_assume(n < (u64(1) << 31)); char* d = (char*)vc_alloc(n, "dst"); u64 k = vc_u64("k"); vc_assume(k < n);
	u64 av = w.g1 - w.g0 - w.gk, m = n < av ? n : av;
	vc_assume(av < (u64(1) << 31));
	char old = d[k];
	VC_INVT(t, s.gb() == w.g + w.g0 && s.ge() == w.g + w.g1 && s.gp() >= w.g + w.g0 + w.gk && s.gp() <= s.ge());
	VC_INVT(t, t == (u64)(s.gp() - (w.g + w.g0 + w.gk)));
	VC_INVT(t, (u64)(s.gp() - (w.g + w.g0 + w.gk)) <= n && t == (u64)d + (s.gp() - (w.g + w.g0 + w.gk)));
	VC_INV(d[k] == (k < (u64)(s.gp() - (w.g + w.g0 + w.gk)) ? w.g[w.g0 + w.gk + k] : old));
	vc_measure(n);
	vc_frame_begin(); vc_assigns(&s, sizeof s); vc_assigns(d, n);
	u64 r = (u64)b.sgetn(d, (std::streamsize)n);
	vc_frame_end();
	VC_CHECK("reads as many characters as there are", r == m);
	VC_CHECK("reads them in order", d[k] == (k < m ? w.g[w.g0 + w.gk + k] : old));
	RANGES(s, w.gk + m, w.pk)
}
VC_PROOF(sb_sputn) {
	world w; SB
	u64 n = vc_u64("n"); vc_assume(n < (u64(1) << 31)); char* d = (char*)vc_alloc(n, "src");
	u64 av = w.p1 - w.p0 - w.pk, m = n < av ? n : av; u64 p00 = w.p0 + w.pk;
	vc_assume(av < (u64(1) << 31));
	VC_INVT(t, s.pb() == w.p + w.p0 && s.pe() == w.p + w.p1 && s.pp() >= w.p + p00 && s.pp() <= s.pe());
	VC_INVT(t, t == (u64)(s.pp() - (w.p + p00)));
	VC_INVT(t, (u64)(s.pp() - (w.p + p00)) <= n && t == (u64)d + (s.pp() - (w.p + p00)));
	VC_INV(w.p[w.j] == (w.j >= p00 && w.j < (u64)(s.pp() - w.p) ? d[w.j - p00] : w.oldp[w.j]));
	vc_measure(n);
	vc_frame_begin(); vc_assigns(&s, sizeof s); vc_assigns(w.p + w.p0, w.p1 - w.p0);
	u64 r = (u64)b.sputn(d, (std::streamsize)n);
	vc_frame_end();
	VC_CHECK("accepts as many characters as fit", r == m);
	VC_CHECK("writes them in order and nothing else", w.p[w.j] == (w.j >= p00 && w.j - p00 < m ? d[w.j - p00] : w.oldp[w.j]));
	RANGES(s, w.gk, w.pk + m)
}
