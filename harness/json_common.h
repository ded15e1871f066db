#pragma once
#include "vc_cstr.h"
#include "vc_stream.h"
#define private public
#define protected public
#include "json.h"
using Log = abc::null_log;
namespace ascii = abc::ascii;
namespace js = abc::json;
namespace it = abc::json::item;
static const u64 LV = 64;
static const u64 NOLEVEL = abc::size::invalid;
typedef bool (*vc_pred_t)(char);
static u8* vc_table;
static bool vc_anypred(char c) { return (vc_table[(unsigned char)c] & 1) != 0; }
static bool pr_sp(void*, std::size_t, u8 b) { return ascii::json::is_space((char)b); }
static bool pr_nobs(void*, std::size_t, u8 b) { return b != '\\'; }
static bool is_hexc(char c) { return ascii::is_hex(c); }
static u8 hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c - 'A' + 10; }
// value of the escape sequence behind a backslash; -1 if it is not one this reader supports
static int esc_len(const char* p, u64 avail) {
	if (avail < 1) return -1;
	char c = p[0];
	if (c == '"' || c == '\\' || c == '/' || c == 'b' || c == 'f' || c == 'n' || c == 'r' || c == 't') return 1;
	if (c == 'u' && avail >= 5 && is_hexc(p[1]) && is_hexc(p[2]) && is_hexc(p[3]) && is_hexc(p[4]) && p[1] == '0' && p[2] == '0') return 5;
	return -1;
}
static u8 esc_val(const char* p) {
	char c = p[0];
	return c == 'b' ? 8 : c == 'f' ? 12 : c == 'n' ? 10 : c == 'r' ? 13 : c == 't' ? 9 : c == 'u' ? (u8)(hexv(p[3]) * 16 + hexv(p[4])) : (u8)c;
}
struct json_ghost { const char* str; u64 str_n; u64 str_pos; u64 num; u64 calls; bool num_set; };
#ifndef VC_NATIVE
static json_ghost vcj;
static bool vc_pred_thunk(void* ctx, std::size_t, u8 b) { return ((vc_pred_t)ctx)((char)b); }
#endif
