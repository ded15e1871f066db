// C16: printing a thread id through a stream over a local buffer.
// vc-passes: function(sroa,simplifycfg)
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <streambuf>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 1
#include "vc_stream.h"
#include "vc_cstr.h"
#include "log.h"
#ifndef VC_NATIVE
static std::streambuf* vc_tsb;
// any text of up to 40 characters; the stream cuts it off where its buffer ends (std::streambuf::xsputn: proved for C19)
static vc_ios* vc_thread_out(vc_ios* s) {
	for (u32 i = 0; i < 40; i++) { u8 c = vc_u8("thread"); if (c == 0) break; if (vc_tsb->sputc((char)c) == -1) { vcg.state |= 1; break; } }
	return s;
}
static u32 vc_puts;
extern "C" {
	void vcstub___ZNSt6localeC1Ev(void*) {} void vcstub___ZNSt6localeD1Ev(void*) {}
	void vcstub___ZNSoC2EOSo(vc_ios*, void*, vc_ios*) { vcg.state = 0; }
	void vcstub___ZNSoC1EPSt15basic_streambufIcSt11char_traitsIcEE(vc_ios*, std::streambuf* sb) { vc_tsb = sb; vcg.state = 0; }
	void vcstub___ZNSoD1Ev(vc_ios*) {}
	vc_ios* vcstub___ZNSolsEPFRSt8ios_baseS0_E(vc_ios* s, void*) { return s; }
	vc_ios* vcstub___ZNSo9_M_insertImEERSoT_(vc_ios* s, u64) { return vc_thread_out(s); }
	vc_ios* vcstub___ZNSolsEm(vc_ios* s, u64) { return vc_thread_out(s); }
	vc_ios* vcstub___ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc(vc_ios* s, const char*) { return vc_thread_out(s); }
	vc_ios* vcstub___ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c(vc_ios* s, char c) { if (vcg.state == 0 && vc_tsb->sputc(c) == -1) vcg.state |= 1; return s; }
}
// line_ostream::put_any with a "%s" format requires a terminated text
VC_CONTRACT(line_put_any, "abc::line_ostream<.*>::put_any\\(char const\\*, \\.\\.\\.\\)");
extern "C" void vccontract__line_put_any(void*, const char*, const char* text) {
	vc_puts++;
	bool end = false;
	for (u64 k = 0; k < vc_size_of_obj(text) && !end; k++) end = text[k] == 0;
	vc_assert(end, "the printed text is terminated inside its buffer");
}
#endif
VC_PROOF(thread_id_put) {
	abc::line_ostream<100> line;
	std::thread::id id; vc_havoc(&id, sizeof id);
	vc_unroll(50);
	line.put_thread_id(id);
#ifndef VC_NATIVE
	VC_CHECK("the thread id is printed once", vc_puts == 1);
#endif
}
