// Native replay of verifier counterexamples, and directed search, on the real compiled code.
#pragma once
#include "vc.h"
#include <csetjmp>
static jmp_buf vc_discard;   // leaves a run whose assumptions fail; not an exception, so that no handler or noexcept gets in the way
static const uint8_t* vc_d; static size_t vc_n, vc_i; static bool vc_quiet;
static std::vector<void*> vc_heap;
static std::vector<std::string> vc_log_;
static bool vc_compact;   // search mode: small numbers take one byte
static u64 vc_take(size_t w, const char* name) {
	u64 v = 0;
	if (vc_compact && w > 1) {
		u64 b = vc_i < vc_n ? vc_d[vc_i] : 0; vc_i++;
		if (b < 0xf8) { v = b; w = 0; }
		else if (b < 0xfc) { v = 0; w = 0; v = ~v - (b - 0xf8); }
	}
	for (size_t k = 0; k < w; k++) { u64 b = vc_i < vc_n ? vc_d[vc_i] : 0; vc_i++; v |= b << (8 * k); }
	char t[96]; snprintf(t, sizeof t, "%s=%llu", name, (unsigned long long)v); vc_log_.push_back(t);
	return v;
}
extern "C" {
	u64 vc_u64(const char* n) { return vc_take(8, n); }
	u32 vc_u32(const char* n) { return (u32)vc_take(4, n); }
	u16 vc_u16(const char* n) { return (u16)vc_take(2, n); }
	u8 vc_u8(const char* n) { return (u8)vc_take(1, n); }
	void vc_assume(bool c) { if (!c) longjmp(vc_discard, 1); }
	void vc_report(const char* name) {
		fprintf(stderr, "VC-FAILED: %s\n", name);
		for (auto& s : vc_log_) fprintf(stderr, "VC-INPUT: %s\n", s.c_str());
		fflush(stderr);
	}
	void vc_assert(bool c, const char* name) { if (!c) { vc_report(name); abort(); } }
	void* vc_alloc(size_t n, const char* name) {
		vc_assume(n <= (1 << 16));
		char* p = (char*)malloc(n ? n : 1); 
		if (!n) { free(p); p = (char*)malloc(1); }
		vc_heap.push_back(p);
		for (size_t k = 0; k < n; k++) { p[k] = vc_i < vc_n ? vc_d[vc_i] : 0; vc_i++; }
		std::string t = std::string(name) + "[" + std::to_string(n) + "]=";
		for (size_t k = 0; k < n && k < 80; k++) { char h[4]; snprintf(h, 4, "%02x", (unsigned char)p[k]); t += h; }
		vc_log_.push_back(t);
		return p;
	}
	void* vc_ghost_alloc(size_t n, const char*) { vc_assume(n <= (1 << 20)); void* p = calloc(1, n + 1); vc_heap.push_back(p); return p; }
	void vc_havoc(void*, size_t) {}
	void vc_copy(void* d, const void* s, size_t n) { memcpy(d, s, n); }
	void* vc_snapshot(const void* p, size_t n) { vc_assume(n <= (1 << 20)); void* q = malloc(n + 1); vc_heap.push_back(q); memcpy(q, p, n); return q; }
	void vc_register_inv(bool (*)(void*), void*) {}
	void vc_register_invt(bool (*)(void*, u64), void*) {}
	void vc_register_invt2(bool (*)(void*, u64, u64), void*) {}
	void vc_register_invq(bool (*)(void*, u64, u64, u8), void*, const void*, u64) {}
	void vc_register_rank(u64 (*)(void*), void*) {}
	void vc_measure(u64) {}
	void vc_clear_inv() {}
	void vc_unroll(size_t) {}
	void vc_noterm() {}
	void vc_join() {}
	void vc_lia() {}
	void vc_hint(u64) {}
	void vc_region(const void*, size_t) {}
	bool vc_is_symbolic() { return false; }
	bool vc_valid(const void*, size_t) { return true; }
	void vc_learn(const void* p, size_t n, bool (*f)(void*, size_t, u8), void* c) { for (size_t i = 0; i < n; i++) vc_assume(f(c, i, ((const u8*)p)[i])); }
	void vc_frame_begin() {}
	void vc_assigns(const void*, size_t) {}
	void vc_frame_end() {}
	void vc_throw() { throw std::runtime_error("vc"); }
	void vc_free(const void*) {}
	void vc_cover(const char*) {}
	bool vc_eval_pred(bool (*fn)(void*), void* ctx) { return fn(ctx); }
	u64 vc_eval_u64(u64 (*fn)(void*), void* ctx) { return fn(ctx); }
	void vc_native_reset();
	void VC_HARNESS();
	int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
		vc_compact = n > 0 && d[0] != 0; vc_d = d; vc_n = n; vc_i = 1; vc_log_.clear();
		volatile int r = 0;
		try { if (setjmp(vc_discard) == 0) { vc_native_reset(); VC_HARNESS(); } else r = -1; }
		catch (std::exception& e) { vc_report("no uncaught exception"); abort(); }
		for (void* p : vc_heap) free(p);
		vc_heap.clear();
		return r;
	}
}
