// Contracts of the C string functions, given where each string of the harness ends.
#pragma once
#include "vc.h"
struct vc_strings { const char* p[8]; u64 z[8]; bool exact[8]; u64 n; };
extern vc_strings vcs;
// the buffer at p holds a terminator at index z (an obligation at every use, not an assumption)
static inline void vc_cstr(const char* p, u64 z);
static bool vc_nonzero(void*, std::size_t, u8 c) { return c != 0; }
struct vc_not_t { char c; };
static bool vc_not_c(void* x, std::size_t, u8 c) { return c != 0 && c != (u8)((vc_not_t*)x)->c; }
static bool vc_same_as(void* x, std::size_t i, u8 c) { return c != 0 && c == (u8)(*(const char**)x)[i]; }
#ifndef VC_NATIVE
vc_strings vcs;
static inline void vc_cstr(const char* p, u64 z) { vcs.p[vcs.n] = p; vcs.z[vcs.n] = z; vcs.exact[vcs.n] = false; vcs.n++; }
// and none before it
static inline void vc_cstr_exact(const char* p, u64 z) { vc_learn(p, z, &vc_nonzero, nullptr); vc_cstr(p, z); vcs.exact[vcs.n - 1] = true; }
// how far the terminator of p is known to be away
static u64 vc_term(const char* p) {
	u64 c = vc_const_len(p); if (c != ~u64(0)) return c;
	for (u64 k = 0; k < vcs.n; k++) if (vc_same_obj(p, vcs.p[k])) {
		u64 off = (u64)(p - vcs.p[k]);
		vc_assert(off <= vcs.z[k] && vcs.p[k][vcs.z[k]] == 0, "C string argument is terminated inside its buffer");
		return vcs.z[k] - off;
	}
	vc_assert(false, "C string argument is terminated inside its buffer");
	return 0;
}
// the length of the text at p
static u64 vc_length(const char* p) {
	u64 t = vc_term(p);
	for (u64 k = 0; k < vcs.n; k++) if (vc_same_obj(p, vcs.p[k]) && vcs.exact[k]) return t;
	u64 n = vc_u64("strlen"); vc_assume(n <= t && p[n] == 0); vc_learn(p, n, &vc_nonzero, nullptr);
	return n;
}
extern "C" {
	std::size_t vcstub__strlen(const char* p) {
		u64 c = vc_const_len(p); if (c != ~u64(0)) return c;
		return vc_length(p);
	}
	char* vcstub__strchr(const char* p, int ch) {
		u64 t = vc_term(p); u64 n = vc_u64("strchr"); vc_assume(n <= t);
		bool found = vc_u8("found") & 1;
		vc_not_t* c = (vc_not_t*)vc_ghost_alloc(sizeof(vc_not_t), "ch"); c->c = (char)ch;
		vc_learn(p, n, &vc_not_c, c);
		if (found) { vc_assume(p[n] == (char)ch); return (char*)p + n; }
		vc_assume(p[n] == 0 && (char)ch != 0);
		return nullptr;
	}
	char* vcstub__strrchr(const char* p, int ch) {
		u64 z = vc_length(p);
		vc_not_t* c = (vc_not_t*)vc_ghost_alloc(sizeof(vc_not_t), "ch"); c->c = (char)ch;
		vc_assume((char)ch != 0);
		if (vc_u8("found") & 1) { u64 n = vc_u64("strrchr"); vc_assume(n < z && p[n] == (char)ch); vc_learn(p + n + 1, z - n - 1, &vc_not_c, c);
			for (u64 d = 1; d <= 5; d++) if (z - n == d) return (char*)p + (z - d);      // short ones apart
			return (char*)p + n; }
		vc_learn(p, z, &vc_not_c, c);
		return nullptr;
	}
	char* vcstub__strcpy(char* d, const char* p) {
		u64 z = vc_length(p);
		vc_assert(vc_valid(d, z + 1), "strcpy destination holds the text");
		if (z) vc_copy(d, p, z);
		d[z] = 0; return d;
	}
	int vcstub__strncmp(const char* p, const char* q, std::size_t n) {
		u64 tp = vc_valid(p, n) ? n : vc_term(p); u64 tq = vc_valid(q, n) ? n : vc_term(q);
		u64 k = vc_u64("strncmp"); vc_assume(k <= tp && k <= tq && k <= n);
		const char** c = (const char**)vc_ghost_alloc(sizeof(char*), "cmp"); *c = q;
		vc_learn(p, k, &vc_same_as, c);
		for (u64 i = 0; i < vcs.n; i++) if (vc_same_obj(p, vcs.p[i])) {   // implied: no terminator among the first k
			u64 off = (u64)(p - vcs.p[i]); auto l = [&]() -> bool { return !(off <= vcs.z[i] && vcs.z[i] - off < k && vcs.p[i][vcs.z[i]] == 0); };
			vc_assume(vc_eval(l));
		}
		if (k == n) return 0;
		if (p[k] == 0 && q[k] == 0) return 0;
		vc_assume(p[k] != q[k]);
		int r = (int)vc_u32("strncmp_r"); vc_assume(r != 0 && (r < 0) == ((u8)p[k] < (u8)q[k]));
		return r;
	}
}
#else
static inline void vc_cstr(const char*, u64) {}
static inline void vc_cstr_exact(const char*, u64) {}
#endif
