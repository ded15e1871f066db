// Assumed contracts of std::istream / std::ostream over a ghost input / output sequence.
// (ISO C++ [istream.unformatted], [ostream.unformatted]; one input and one output stream per proof.)
#pragma once
#include "vc.h"

struct vc_stream_ghost {
	// input
	const char* in; u64 in_len; u64 in_pos;
	// output
	char* out; u64 out_len; u64 out_cap;   // out[0..out_len) has been accepted by the sink
	u32 state;                             // badbit=1 eofbit=2 failbit=4
	u64 flushed; bool flush_failed;
	std::streambuf* sb;
};
extern vc_stream_ghost vcg;

#ifndef VC_NATIVE
vc_stream_ghost vcg;
struct vc_ios;
extern "C" {
	// ---- state
	bool vcstub___ZNKSt9basic_iosIcSt11char_traitsIcEE4goodEv(vc_ios*) { return vcg.state == 0; }
	bool vcstub___ZNKSt9basic_iosIcSt11char_traitsIcEE3eofEv(vc_ios*) { return (vcg.state & 2) != 0; }
	bool vcstub___ZNKSt9basic_iosIcSt11char_traitsIcEE3badEv(vc_ios*) { return (vcg.state & 1) != 0; }
	bool vcstub___ZNKSt9basic_iosIcSt11char_traitsIcEE4failEv(vc_ios*) { return (vcg.state & 5) != 0; }
	bool vcstub___ZNKSt9basic_iosIcSt11char_traitsIcEEntEv(vc_ios*) { return (vcg.state & 5) != 0; }
	bool vcstub___ZNKSt9basic_iosIcSt11char_traitsIcEEcvbEv(vc_ios*) { return (vcg.state & 5) == 0; }
	u32 vcstub___ZNKSt9basic_iosIcSt11char_traitsIcEE7rdstateEv(vc_ios*) { return vcg.state; }
	void vcstub___ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate(vc_ios*, u32 s) { vcg.state = s; }
	void vcstub___ZNSt9basic_iosIcSt11char_traitsIcEE8setstateESt12_Ios_Iostate(vc_ios*, u32 s) { vcg.state |= s; }
	std::streambuf* vcstub___ZNKSt9basic_iosIcSt11char_traitsIcEE5rdbufEv(vc_ios*) { return vcg.sb; }
	std::streambuf* vcstub___ZNSt9basic_iosIcSt11char_traitsIcEE5rdbufEPSt15basic_streambufIcS1_E(vc_ios*, std::streambuf* sb) { auto o = vcg.sb; vcg.sb = sb; vcg.state = 0; return o; }
	// ---- input
	int vcstub___ZNSi4peekEv(vc_ios*) {
		if (vcg.state != 0) { vcg.state |= 4; return -1; }
		if (vcg.in_pos >= vcg.in_len) { vcg.state |= 2; return -1; }
		return (unsigned char)vcg.in[vcg.in_pos];
	}
	int vcstub___ZNSi3getEv(vc_ios*) {
		if (vcg.state != 0) { vcg.state |= 4; return -1; }
		if (vcg.in_pos >= vcg.in_len) { vcg.state |= 6; return -1; }
		return (unsigned char)vcg.in[vcg.in_pos++];
	}
	// ---- output: the sink may refuse any byte (fault), which sets badbit
	vc_ios* vcstub___ZNSo3putEc(vc_ios* s, char c) {
		if (vcg.state != 0) { if (vcg.state & 1) vcg.state |= 4; return s; }
		if (vcg.out_len >= vcg.out_cap) { vcg.state |= 1; return s; }
		vcg.out[vcg.out_len++] = c;
		return s;
	}
	// flushing may fail (fault), which sets badbit; on a flagged stream it may only add failbit
	vc_ios* vcstub___ZNSo5flushEv(vc_ios* s) {
		u8 x = vc_u8("flush");
		if (vcg.state != 0) { if (x & 1) vcg.state |= 4; return s; }
		vcg.flushed = vcg.out_len;
		if (x & 1) { vcg.state |= 1; vcg.flush_failed = true; }
		return s;
	}
	// ---- construction / destruction: no observable effect besides the state
	void vcstub___ZNSt9basic_iosIcSt11char_traitsIcEEC2Ev(vc_ios*) {}
	void vcstub___ZNSt9basic_iosIcSt11char_traitsIcEED2Ev(vc_ios*) {}
	void vcstub___ZNSt8ios_baseC2Ev(vc_ios*) {}
	void vcstub___ZNSt8ios_baseD2Ev(vc_ios*) {}
	void vcstub___ZNSt9basic_iosIcSt11char_traitsIcEE4initEPSt15basic_streambufIcS1_E(vc_ios*, std::streambuf* sb) { vcg.sb = sb; vcg.state = 0; }
	void vcstub___ZNSiC2EPSt15basic_streambufIcSt11char_traitsIcEE(vc_ios*, void*, std::streambuf* sb) { vcg.sb = sb; vcg.state = 0; }
	void vcstub___ZNSoC2EPSt15basic_streambufIcSt11char_traitsIcEE(vc_ios*, void*, std::streambuf* sb) { vcg.sb = sb; vcg.state = 0; }
	void vcstub___ZNSiD2Ev(vc_ios*, void*) {}
	void vcstub___ZNSoD2Ev(vc_ios*, void*) {}
#ifndef VC_OWN_SNPRINTF
	// ---- formatted printing into a caller's buffer: writes at most n bytes, NUL-terminated
	int vcstub__snprintf(char* p, std::size_t n, const char*) {
		vc_assert(vc_valid(p, n), "snprintf destination holds n bytes");
		if (n > 0) { vc_havoc(p, n); p[n - 1] = 0; }
		int r = (int)vc_u32("snprintf"); vc_assume(r >= -1); return r;
	}
#endif
}
#endif

// An arbitrary input sequence, positioned at an arbitrary point of itself.
struct vc_input
#ifdef VC_NATIVE
	: public std::streambuf
#endif
{
	char* data; u64 len; u64 pos0;
	vc_input() {
		len = vc_u64("in_len");
#ifdef VC_NATIVE
		vc_assume(len <= 4096);
#endif
		vc_assume(len <= (u64(1) << 40));
		pos0 = vc_u64("in_pos"); vc_assume(pos0 <= len);
		data = (char*)vc_alloc(len, "in");
#ifdef VC_NATIVE
		setg(data, data + pos0, data + len);
#else
		vcg.in = data; vcg.in_len = len; vcg.in_pos = pos0;
#endif
	}
	std::streambuf* sb() {
#ifdef VC_NATIVE
		return this;
#else
		return (std::streambuf*)this;
#endif
	}
	u64 pos() const {
#ifdef VC_NATIVE
		return u64(gptr() - eback());
#else
		return vcg.in_pos;
#endif
	}
};
struct vc_output
#ifdef VC_NATIVE
	: public std::streambuf
#endif
{
	char* data; u64 cap;
#ifdef VC_NATIVE
	u64 n = 0;
	int_type overflow(int_type c) override { if (n >= cap) return traits_type::eof(); data[n++] = (char)c; return (unsigned char)c; }
#endif
	vc_output() {
		cap = vc_u64("out_cap");
#ifdef VC_NATIVE
		vc_assume(cap <= 65536);
		data = (char*)malloc(cap + 1);
#else
		vc_assume(cap <= (u64(1) << 40));
		data = (char*)vc_ghost_alloc(cap, "out");
		vcg.out = data; vcg.out_len = 0; vcg.out_cap = cap; vcg.flushed = 0; vcg.flush_failed = false;
#endif
	}
	std::streambuf* sb() {
#ifdef VC_NATIVE
		return this;
#else
		return (std::streambuf*)this;
#endif
	}
	bool flush_failed() const {
#ifdef VC_NATIVE
		return false;
#else
		return vcg.flush_failed;
#endif
	}
	u64 size() const {
#ifdef VC_NATIVE
		return n;
#else
		return vcg.out_len;
#endif
	}
};
// current iostate of a stream whose protected members are visible
#ifdef VC_NATIVE
#define VC_STATE(r) ((u32)((r).std::ios::rdstate()))
#define VC_SET_STATE(r, s) ((r).std::ios::clear((std::ios_base::iostate)(s)))
#else
#define VC_STATE(r) (vcg.state)
#define VC_SET_STATE(r, s) (vcg.state = (s))
#endif

// where the longest run of bytes that satisfy a predicate, starting at index a, ends
static u64 vc_run(const char* data, u64 a, u64 len, bool (*pred)(void*, std::size_t, u8)) {
#ifdef VC_NATIVE
	while (a < len && pred(nullptr, 0, (u8)data[a])) a++;
	return a;
#else
	u64 e = vc_u64("run"); vc_assume(e >= a && e <= len);
	vc_learn(data + a, e - a, pred, nullptr);
	auto l = [&]() -> bool { return e >= len || !pred(nullptr, 0, (u8)data[e]); };
	vc_assume(vc_eval(l));
	return e;
#endif
}
