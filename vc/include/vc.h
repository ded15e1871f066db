// Specification primitives shared by the deductive verifier and the native replay of counterexamples.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <exception>
#include <stdexcept>
#include <iosfwd>
#include <istream>
#include <ostream>
#include <streambuf>
#include <iostream>
#include <fstream>
#include <iomanip>
#include <chrono>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <atomic>
#include <future>
#include <map>
#include <vector>
#include <string>
#include <algorithm>
#include <functional>
#include <type_traits>
#include <initializer_list>
#include <random>
#include <new>

typedef std::uint64_t u64; typedef std::uint32_t u32; typedef std::uint16_t u16; typedef std::uint8_t u8;

extern "C" {
	u64  vc_u64(const char* name);
	u32  vc_u32(const char* name);
	u16  vc_u16(const char* name);
	u8   vc_u8(const char* name);
	void vc_assume(bool c);
	void vc_assert(bool c, const char* name);
	void* vc_alloc(std::size_t n, const char* name);        // object of n bytes with arbitrary contents
	void* vc_ghost_alloc(std::size_t n, const char* name);  // specification-only object
	void vc_havoc(void* p, std::size_t n);
	void vc_copy(void* d, const void* s, std::size_t n);
	void* vc_snapshot(const void* p, std::size_t n);        // frozen copy of the current contents
	void vc_register_inv(bool (*fn)(void*), void* ctx);
	void vc_register_invt(bool (*fn)(void*, u64), void* ctx);
	void vc_register_invt2(bool (*fn)(void*, u64, u64), void* ctx);
	void vc_register_invq(bool (*fn)(void*, u64, u64, u8), void* ctx, const void* p, u64 n);
	void vc_register_rank(u64 (*fn)(void*), void* ctx);
	void vc_measure(u64 m);
	void vc_clear_inv();
	void vc_unroll(std::size_t k);
	void vc_noterm();
	void vc_hint(u64 x);    // a quotient in the code under test may be this value (proved where it is used)
	void vc_join();         // merge the states that leave an unrolled loop
	void vc_lia();          // decide by linear integer arithmetic first
	void vc_region(const void* p, std::size_t n);   // from now on, writes at computed positions of p's object must stay in p[0..n)
	bool vc_is_symbolic();
	bool vc_valid(const void* p, std::size_t n);
	void vc_learn(const void* p, std::size_t n, bool (*pred)(void* ctx, std::size_t i, u8 b), void* ctx);
	void vc_frame_begin();
	void vc_assigns(const void* p, std::size_t n);
	void vc_frame_end();
	void* vc_pages(u64 pos);
	u64 vc_page_of(const void* p);
	u64 vc_page_off(const void* p);
	bool vc_is_page(const void* p);
	void vc_throw();
	void vc_free(const void* p);
	void vc_cover(const char* name);
	u64 vc_size_of_obj(const void* p);
	bool vc_same_obj(const void* p, const void* q);
	u64 vc_const_len(const char* p);
}

template <typename F> static bool vc_inv_thunk(void* c) { return (*(F*)c)(); }
template <typename F> static u64 vc_rank_thunk(void* c) { return (*(F*)c)(); }
template <typename F> static bool vc_invt_thunk(void* c, u64 t) { return (*(F*)c)(t); }
template <typename F> static bool vc_invt2_thunk(void* c, u64 t, u64 u) { return (*(F*)c)(t, u); }
template <typename F> static bool vc_invq_thunk(void* c, u64 t, u64 i, u8 b) { return (*(F*)c)(t, i, b); }
template <typename F> static inline void vc_inv_q(F& f, const void* p, u64 n) { vc_register_invq(&vc_invq_thunk<F>, (void*)&f, p, n); }
// candidate loop invariant over any 64-bit quantity (pair of quantities) that the loop changes
template <typename F> static inline void vc_inv_t(F& f) { vc_register_invt(&vc_invt_thunk<F>, (void*)&f); }
template <typename F> static inline void vc_inv_t2(F& f) { vc_register_invt2(&vc_invt2_thunk<F>, (void*)&f); }
// candidate loop invariant / ranking function, written as a lambda over ghost state
template <typename F> static inline void vc_inv(F& f) { vc_register_inv(&vc_inv_thunk<F>, (void*)&f); }
template <typename F> static inline void vc_rank(F& f) { vc_register_rank(&vc_rank_thunk<F>, (void*)&f); }
static inline bool vc_bool(const char* n) { u8 b = vc_u8(n); vc_assume(b <= 1); return b == 1; }
// specification evaluated as one formula (no path split)
#define VC_CHECK(name, expr) do { auto vc_l = [&]() -> bool { return (expr); }; vc_assert(vc_eval(vc_l), name); } while (0)
#define VC_ASSUME(expr) do { auto vc_l = [&]() -> bool { return (expr); }; vc_assume(vc_eval(vc_l)); } while (0)
extern "C" bool vc_eval_pred(bool (*fn)(void*), void* ctx);
extern "C" u64 vc_eval_u64(u64 (*fn)(void*), void* ctx);
template <typename F> static inline bool vc_eval(F& f) { return vc_eval_pred(&vc_inv_thunk<F>, (void*)&f); }
template <typename F> static inline u64 vc_eval64(F& f) { return vc_eval_u64(&vc_rank_thunk<F>, (void*)&f); }

#define VC_PROOF(name) extern "C" void vcproof__##name()
#define VC_CONTRACT(name, regex) extern "C" const char vcregex__##name[]; extern "C" const char vcregex__##name[] = regex
#define VC_CAT2(a, b) a##b
#define VC_CAT(a, b) VC_CAT2(a, b)
#ifdef VC_NATIVE
#define VC_INV(...)
#define VC_INVT(...)
#define VC_INVT2(...)
#define VC_INVQ(...)
#define VC_RANK(...)
#else
#define VC_INV_(id, ...) auto id = [&]() -> bool { return (__VA_ARGS__); }; vc_inv(id)
#define VC_INV(...) VC_INV_(VC_CAT(vc_i_, __COUNTER__), __VA_ARGS__)
#define VC_INVT_(id, t, ...) auto id = [&](u64 t) -> bool { return (__VA_ARGS__); }; vc_inv_t(id)
#define VC_INVT(t, ...) VC_INVT_(VC_CAT(vc_i_, __COUNTER__), t, __VA_ARGS__)
#define VC_INVT2_(id, t, u, ...) auto id = [&](u64 t, u64 u) -> bool { return (__VA_ARGS__); }; vc_inv_t2(id)
#define VC_INVT2(t, u, ...) VC_INVT2_(VC_CAT(vc_i_, __COUNTER__), t, u, __VA_ARGS__)
// candidate quantified loop invariant: for all i < n, with b = p[i]; t is any 64-bit quantity that the loop changes (all ones for a null pointer);
// everything else the expression reads must not change while the loop runs
#define VC_INVQ_(id, p, n, t, i, b, ...) auto id = [&](u64 t, u64 i, u8 b) -> bool { return (__VA_ARGS__); }; vc_inv_q(id, p, n)
#define VC_INVQ(p, n, t, i, b, ...) VC_INVQ_(VC_CAT(vc_i_, __COUNTER__), p, n, t, i, b, __VA_ARGS__)
#define VC_RANK_(id, ...) auto id = [&]() -> u64 { return (__VA_ARGS__); }; vc_rank(id)
#define VC_RANK(...) VC_RANK_(VC_CAT(vc_i_, __COUNTER__), __VA_ARGS__)
#endif
// a read-only function whose (unrolled) body is evaluated as one formula at every call
#define VC_MERGE(name, unroll, regex) extern "C" const char vcmerge__##name##__##unroll[]; extern "C" const char vcmerge__##name##__##unroll[] = regex
#ifdef VC_NATIVE
#include "vc_native.h"
#ifndef VC_OWN_RESET
extern "C" void vc_native_reset() {}
#endif
#endif
