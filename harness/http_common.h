#pragma once
#include "vc_stream.h"
#define private public
#define protected public
#include "http.h"
using Log = abc::null_log;
namespace ascii = abc::ascii;
namespace item = abc::http::item;

#ifndef VC_NATIVE
VC_MERGE(are_equal, 24, "^abc::ascii::are_equal\\(char const\\*, char const\\*, bool");
typedef bool (*vc_pred_t)(char);
static bool vc_pred_thunk(void* ctx, std::size_t, u8 b) { return ((vc_pred_t)ctx)((char)b); }
// state left by a scan that stopped in front of position in_pos
static u64 vc_scan_state(bool (*pred)(char), bool nonascii_bad) {
	auto l = [&]() -> u64 {
		if (vcg.in_pos >= vcg.in_len) return nonascii_bad ? 5 : 2;
		char c = vcg.in[vcg.in_pos];
		if (nonascii_bad && (c & 0x80)) return 5;
		return pred(c) ? 4 : 0;
	};
	return vc_eval64(l);
}
// ---- http_istream::get_chars: reads the longest run of accepted chars that fits
VC_CONTRACT(http_get_chars, "^abc::http_istream<.*>::get_chars\\(");
extern "C" u64 vccontract__http_get_chars(void*, vc_pred_t* pred, char* buf, u64 size) {
	vc_assert(size >= 1, "get_chars: room for the terminator");
	vc_assert(!(*pred)('\0'), "get_chars: NUL is never accepted");
	vc_assert(vc_valid(buf, size), "get_chars: buffer holds size bytes");
	if (vcg.state != 0) { buf[0] = 0; return 0; }
	u64 n = vc_u64("n"); vc_assume(n <= size - 1 && n <= vcg.in_len - vcg.in_pos);
	vc_copy(buf, vcg.in + vcg.in_pos, n); buf[n] = 0;
	vc_learn(vcg.in + vcg.in_pos, n, &vc_pred_thunk, (void*)*pred);
	vcg.in_pos += n;
	u64 s = vc_scan_state(*pred, true);
	vc_assume(s != 4 || n == size - 1);
	vcg.state = (u32)s;
	return n;
}
// ---- http_istream::skip_chars: skips the longest run of accepted chars
VC_CONTRACT(http_skip_chars, "^abc::http_istream<.*>::skip_chars\\(");
extern "C" u64 vccontract__http_skip_chars(void*, vc_pred_t* pred) {
	vc_assert(!(*pred)('\0'), "skip_chars: NUL is never accepted");
	if (vcg.state != 0) return 0;
	u64 n = vc_u64("n"); vc_assume(n <= vcg.in_len - vcg.in_pos);
	vc_learn(vcg.in + vcg.in_pos, n, &vc_pred_thunk, (void*)*pred);
	vcg.in_pos += n;
	u64 s = vc_scan_state(*pred, true);
	vc_assume(s != 4);
	vcg.state = (u32)s;
	return n;
}
#endif
// an arbitrary predicate over chars
static u8* vc_table;
static bool vc_anypred(char c) { return (vc_table[(unsigned char)c] & 1) != 0; }
