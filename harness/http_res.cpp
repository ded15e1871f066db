// C04: splitting a resource and looking up its parameters.
#include "vc_cstr.h"
#include "http_common.h"
using H = abc::http_request_istream<Log>;
static bool not_q(void*, std::size_t, u8 c) { return c != 0 && c != '?'; }
VC_PROOF(http_split_resource) {
	u64 size = vc_u64("size"); char* buf = (char*)vc_alloc(size, "buf");
	u64 z = vc_u64("z"); vc_assume(z < size); vc_assume(buf[z] == 0); vc_learn(buf, z, &vc_nonzero, nullptr); vc_cstr(buf, z);   // the text ends at z
	u64 q = vc_u64("q"); vc_assume(q <= z); vc_learn(buf, q, &not_q, nullptr); vc_assume(buf[q] == '?' || q == z);        // its first question mark
	u64 j = vc_u64("j"); vc_assume(j < size);
	const char* old = (const char*)vc_snapshot(buf, size);
	// everything in front of the scan position has been processed, everything behind it is untouched
	VC_INVQ(buf, size, t, i, b, b == (old[q] != '?' || i < q || i >= z || i >= t ? (u8)old[i] : i == q || old[i] == '&' ? 0 : (u8)old[i]));
	VC_INVT(t, t == ~u64(0) || (t >= q && t < z));
	VC_INVT(t, !(t < size) || (old[q] == '?' && (t == q || old[t] == '&')));
	vc_measure(z); vc_measure(size);
	vc_frame_begin(); vc_assigns(buf, z);
	H::split_resource(buf, size);
	vc_frame_end();
	VC_CHECK("text in front of the question mark and everything behind the text stays", !(j < q || j >= z) || buf[j] == old[j]);
	VC_CHECK("the first question mark becomes a terminator", !(q < z && j == q) || buf[j] == 0);
	VC_CHECK("behind it exactly the ampersands become terminators", !(q < j && j < z) || buf[j] == (old[j] == '&' ? 0 : old[j]));
}
// a split resource: terminators at z and, if there is room, behind it
struct split {
	u64 size, z, nsize, nl, j; char* buf; char* name;
	split() {
		size = vc_u64("size"); buf = (char*)vc_alloc(size, "buf"); z = vc_u64("z"); vc_assume(z < size); vc_assume(buf[z] == 0);
		vc_assume(z + 1 == size || buf[z + 1] == 0); vc_cstr(buf, z);
		nsize = vc_u64("nsize"); name = (char*)vc_alloc(nsize, "name"); nl = vc_u64("nl"); vc_assume(nl < nsize); vc_assume(name[nl] == 0);
		vc_learn(name, nl, &vc_nonzero, nullptr); vc_cstr(name, nl);
		j = vc_u64("j"); vc_assume(j < size);
		vc_measure(size); vc_measure(z);
	}
};
VC_PROOF(http_get_parameter) {
	split g;
	VC_INVT(t, t >= 1 && t <= g.z + 1);
	VC_INVT(t, t >= 1 && t <= g.size && g.buf[t - 1] == 0);
	vc_frame_begin();
	const char* r = H::get_resource_parameter(g.buf, g.size, g.name);
	vc_frame_end();
	u64 p = r == nullptr ? 0 : (u64)(r - g.buf);
	VC_CHECK("the value lies in the buffer, in front of the end of the text", r == nullptr || (p > g.nl + 1 && p <= g.z));
	VC_CHECK("the value stands behind an equal sign", r == nullptr || g.buf[p - 1] == '=');
	VC_CHECK("the parameter starts behind a terminator", r == nullptr || g.buf[p - 2 - g.nl] == 0);
	VC_CHECK("the parameter has exactly the requested name", r == nullptr || !(g.j < g.nl) || g.buf[p - 1 - g.nl + g.j] == g.name[g.j]);
}
static bool no_gap(void* x, std::size_t i, u8) { return i == 0 || ((const char*)x)[i] != 0 || ((const char*)x)[i - 1] != 0; }
VC_PROOF(http_get_parameter_found) {
	split g;
	// a parameter with that name stands at s, and no empty parameter stands in front of it
	u64 s = vc_u64("s"); vc_assume(s >= 1 && s <= g.z && g.nl < g.z - s); vc_assume(g.buf[s - 1] == 0 && g.buf[s + g.nl] == '=');
	const char** c = (const char**)vc_ghost_alloc(sizeof(char*), "c"); *c = g.name;
	vc_learn(g.buf + s, g.nl, &vc_same_as, c);
	vc_assume(g.buf[s] != 0); vc_assume(s < 2 || g.buf[s - 2] != 0);
	char* G = (char*)vc_ghost_alloc(g.size, "gapfree");     // reading G[i] brings up "no empty parameter ends at i"
	vc_learn(G, s, &no_gap, g.buf);
	VC_INVT(t, g.buf[s - 1] == 0 && t >= 1 && t <= s && g.buf[t - 1] == 0 && G[t] == G[t]);
	const char* r = H::get_resource_parameter(g.buf, g.size, g.name);
	VC_CHECK("a parameter that is present is found", r != nullptr);
}
