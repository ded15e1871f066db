// C28: requests to an endpoint, over the contracts of the HTTP streams (C01-C03) and of the string comparison (C18).
#define VC_OWN_SNPRINTF
#include "vc.h"
#include "vc_cstr.h"
#include <sys/stat.h>
#ifdef VC_NATIVE
#include <unistd.h>
static int vc_k_stat(const char* p, struct stat* s) { return stat(p, s); }
#endif
#include <iostream>
#include <fstream>
#include <future>
#include <atomic>
#include <thread>
#include <string>
#include "socket.h"
#include "http.h"
#define private public       // specifications see the count of requests in progress and the promise
#include "endpoint.h"
#undef private
using null_log = abc::null_log;
// ---------------------------------------------------------------- specification helpers
static char low(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
// p is the text lit, in any case
static bool ieq(const char* p, const char* lit, u64 n) { bool r = true; for (u64 k = 0; k <= n; k++) r = r && low(p[k]) == (k < n ? low(lit[k]) : 0); return r; }
#define IEQ(p, lit) ieq(p, lit, sizeof(lit) - 1)
static bool eq(const char* p, const char* lit, u64 n) { bool r = true; for (u64 k = 0; k <= n; k++) r = r && p[k] == (k < n ? lit[k] : 0); return r; }
#define EQ(p, lit) eq(p, lit, sizeof(lit) - 1)
// p starts with the media type lit
static bool media(const char* p, const char* lit, u64 n) { bool r = true; for (u64 k = 0; k < n; k++) r = r && p[k] == lit[k]; return r && (p[n] == 0 || p[n] == ';'); }
#define MEDIA(p, lit) media(p, lit, sizeof(lit) - 1)
#ifndef VC_NATIVE
VC_MERGE(ep_media, 32, "^media\\(");
VC_MERGE(ep_ieq, 32, "^ieq\\(");
VC_MERGE(ep_eq, 32, "^eq\\(");
#endif
struct peer { std::size_t receive(void*, std::size_t, void* = nullptr) { return 0; } std::size_t send(const void*, std::size_t n, void* = nullptr) { return n; } };
struct srv { void bind(const char*) {} void listen(int) {} peer accept() { return peer(); } };
using base = abc::endpoint<srv, peer, abc::endpoint_limits, null_log>;
struct ep : base {
	ep(abc::endpoint_config* c) : base(c, nullptr) {}
	srv create_server_socket() override { return srv(); }
	using base::process_file_request; using base::process_rest_request; using base::is_file_request; using base::send_simple_response; using base::get_content_type_from_path; using base::process_request;
	using base::set_shutdown_requested; using base::is_shutdown_requested;
};
using http_t = abc::http_server_stream<null_log>;
// a terminated text of any length
struct text { char* p; u64 z; text(const char* name) { z = vc_u64("len"); vc_assume(z < (u64(1) << 40)); p = (char*)vc_alloc(z + 1, name); 
#ifdef VC_NATIVE
	vc_assume(z < 4096);
#endif
	p[z] = 0; vc_cstr_exact(p, z);
#ifdef VC_NATIVE
	z = strlen(p);
#endif
	} };
#ifndef VC_NATIVE
// ---------------------------------------------------------------- what the response stream has been told
struct ghost_t {
	u32 stage;                     // 0 nothing, 1 protocol, 2 status, 3 reason or a header is complete, 4 header name, 5 headers ended
	u32 status; u32 name;          // status code; which header is being put
	bool clen, ctype, close; u64 clen_value; const char* ctype_value; 
	u64 sent; u32 bodies; u32 flushes;
	// snprintf
	const char* printed; u64 value;
	// file system
	u32 stats, opens; bool exists, is_open; const char *stat_path, *open_path; u64 fsize, readable, fpos; const char* data; u64 got;
	u64 j; bool j_ok;              // an arbitrary position of the body, and whether what was sent there is right
	const char* body; u64 body_len;
	// dispatch
	u32 methods, resources, protocols, asked, files, rests, promised; bool is_file; const char *m, *r;
	const char *root; u64 root_len; bool ok, done_before_flush;
};
static ghost_t g;
VC_CONTRACT(ep_http_new, "^abc::http_server_stream<.*>::http_server_stream\\(");
VC_CONTRACT(ep_http_del, "^abc::http_server_stream<.*>::~http_server_stream\\(");
VC_CONTRACT(ep_sb_new, "^abc::socket_streambuf<.*>::socket_streambuf\\(");
VC_CONTRACT(ep_sb_del, "^abc::socket_streambuf<.*>::~socket_streambuf\\(");
VC_CONTRACT(ep_promise, "^std::promise<void>::promise\\(");
VC_CONTRACT(ep_promise_del, "^std::promise<void>::~promise\\(");
VC_CONTRACT(ep_promise_set, "^std::promise<void>::set_value\\(");
VC_CONTRACT(ep_protocol, "^abc::http_response_ostream<.*>::put_protocol\\(");
VC_CONTRACT(ep_status, "^abc::http_response_ostream<.*>::put_status_code\\(");
VC_CONTRACT(ep_reason, "^abc::http_response_ostream<.*>::put_reason_phrase\\(");
VC_CONTRACT(ep_hname, "^abc::http_ostream<.*>::put_header_name\\(");
VC_CONTRACT(ep_hvalue, "^abc::http_ostream<.*>::put_header_value\\(");
VC_CONTRACT(ep_hend, "^abc::http_ostream<.*>::end_headers\\(");
VC_CONTRACT(ep_body, "^abc::http_ostream<.*>::put_body\\(");
VC_CONTRACT(ep_equal, "^abc::ascii::are_equal\\(char const\\*, char const\\*, bool, unsigned long\\)");
extern "C" {
	void vccontract__ep_http_new(void*, void*, void*) {}
	void vccontract__ep_http_del(void*) {}
	void vccontract__ep_sb_new(void*, void*, void*) {}
	void vccontract__ep_sb_del(void*) {}
	void vccontract__ep_promise(void*) {}
	void vccontract__ep_promise_del(void*) {}
	void vccontract__ep_promise_set(void*) { g.promised++; }
	void vccontract__ep_protocol(void*, const char* s, u64) { vc_assert(g.stage == 0 && EQ(s, "HTTP/1.1"), "a response starts with its protocol, once"); g.stage = 1; }
	void vccontract__ep_status(void*, const char* s, u64) { vc_assert(g.stage == 1 && s[3] == 0, "then the status code"); g.status = (s[0] - '0') * 100 + (s[1] - '0') * 10 + (s[2] - '0'); g.stage = 2; }
	void vccontract__ep_reason(void*, const char* s, u64) { vc_assert(g.stage == 2, "then the reason"); g.stage = 3; }
	void vccontract__ep_hname(void*, const char* s, u64) {
		vc_assert(g.stage == 3, "then headers"); g.stage = 4;
		g.name = EQ(s, "Content-Length") ? 1 : EQ(s, "Content-Type") ? 2 : EQ(s, "Connection") ? 3 : 0;
	}
	void vccontract__ep_hvalue(void*, const char* s, u64) {
		vc_assert(g.stage == 4, "a header has a name and a value"); g.stage = 3;
		if (g.name == 1) { vc_assert(!g.clen && s == g.printed, "the length is a printed number, put once"); g.clen = true; g.clen_value = g.value; }
		if (g.name == 2) { vc_assert(!g.ctype, "one content type"); g.ctype = true; g.ctype_value = s; }
		if (g.name == 3) { vc_assert(!g.close && EQ(s, "close"), "the connection is closed"); g.close = true; }
	}
	void vccontract__ep_hend(void*) { vc_assert(g.stage == 3 && g.clen && g.close, "the headers end after the length has been announced"); g.stage = 5; }
	void vccontract__ep_body(void*, const char* b, u64 n) {
		vc_assert(g.stage == 5, "the body comes last"); g.bodies++;
		if (g.data) {   // a part of a file
			vc_assert(vc_valid(b, n), "the part put is there");
			if (g.sent <= g.j && g.j - g.sent < n) g.j_ok = b[g.j - g.sent] == g.data[g.j];
			g.sent += n;
		}
		else { g.body = b; g.sent = n == ~u64(0) ? g.body_len : n; }
	}
	// the contract of are_equal, proved in C18
	bool vccontract__ep_equal(const char* a, const char* b, bool cs, u64 max) {
		u64 k = vc_u64("differ"); vc_assume(k <= max);
		u64 ta = vc_term(a), tb = vc_term(b), lit = vc_const_len(b); vc_assume(k <= ta && k <= tb);
		if (lit < 32 && max > 32) { auto l = [&]() -> bool { return cs ? eq(a, b, lit) : ieq(a, b, lit); }; return vc_eval(l); }     // a literal: the same, written out
		if (vc_bool("equal")) {
			VC_ASSUME(k == max || (a[k] == 0 && b[k] == 0));
			struct two { const char *a, *b; bool cs; }; two* t = (two*)vc_ghost_alloc(sizeof(two), "two"); t->a = a; t->b = b; t->cs = cs;
			vc_learn(a, k, [](void* c, std::size_t i, u8 x) -> bool { two* t = (two*)c; return x != 0 && (t->cs ? (char)x == t->b[i] : low((char)x) == low(t->b[i])); }, t);
			return true;
		}
		VC_ASSUME(k < max && (cs ? a[k] != b[k] : low(a[k]) != low(b[k])));
		return false;
	}
	int vcstub__snprintf(char* p, std::size_t n, const char* f, u64 v) {
		vc_assert(vc_valid(p, n), "snprintf destination holds n bytes"); vc_assert(EQ(f, "%zu"), "prints a size"); vc_assert(n > 20, "any size fits");
		vc_havoc(p, n); g.printed = p; g.value = v; return (int)(vc_u8("digits") & 15) + 1;
	}
	int vcstub__stat(const char* p, struct stat* s) { g.stats++; g.stat_path = p; vc_havoc(s, sizeof *s); if (!g.exists) return -1; s->st_size = (long)g.fsize; return 0; }
	void vcstub___ZNSt14basic_ifstreamIcSt11char_traitsIcEEC1EPKcSt13_Ios_Openmode(void*, const char* p, int) { g.opens++; g.open_path = p; g.is_open = true; }
	void vcstub___ZNSt14basic_ifstreamIcSt11char_traitsIcEED1Ev(void*) { g.is_open = false; }
	void* vcstub___ZNSi4readEPcl(void* f, char* p, long n) {
		vc_assert(n >= 0 && vc_valid(p, (u64)n), "reads into memory that holds the size asked for");
		u64 k = g.readable - g.fpos < (u64)n ? g.readable - g.fpos : (u64)n;
		if (k) vc_copy(p, g.data + g.fpos, k);
		g.fpos += k; g.got = k; return f;
	}
	long vcstub___ZNKSi6gcountEv(void*) { return (long)g.got; }
}
static void start() { memset(&g, 0, sizeof g); g.exists = vc_bool("exists"); }
#endif
struct cfg { text root, prefix; abc::endpoint_config c; cfg() : root("root"), prefix("prefix"), c("80", 5, root.p, prefix.p) { vc_assume(root.z <= abc::endpoint_limits::resource_size); } };
// ---------------------------------------------------------------- content types
static bool ends(const char* p, u64 z, const char* ext, u64 n) { return z >= n && ieq(p + (z - n), ext, n); }
#define ENDS(ext) ends(p.p, p.z, ext, sizeof(ext) - 1)
// where a dot stands in front of the last 2, 3 or 4 characters, or none of these
#define DOT(k) (p.z >= k && p.p[p.z - k] == '.')
static void content_types(int where) {
#ifndef VC_NATIVE
	start();
#endif
	text p("path");
#ifdef VC_NATIVE
	static const char* const exts[] = { ".html", ".css", ".js", ".txt", ".xml", ".png", ".jpeg", ".jpg", ".gif", ".bmp", ".svg", ".JPG", ".jsx", "html", ".x.js", "." };
	const char* x = exts[vc_u8("ext") % 16]; vc_assume(p.z >= strlen(x)); memcpy(p.p + (p.z - strlen(x)), x, strlen(x));
#endif
	VC_ASSUME(where == 3 ? DOT(3) : where == 4 ? DOT(4) : where == 5 ? DOT(5) : !DOT(3) && !DOT(4) && !DOT(5));
	auto want_ = [&]() -> u64 { return ENDS(".html") ? 1 : ENDS(".css") ? 2 : ENDS(".js") ? 3 : ENDS(".txt") ? 4 : ENDS(".xml") ? 5 : ENDS(".png") ? 6 : ENDS(".jpeg") || ENDS(".jpg") ? 7 : ENDS(".gif") ? 8 : ENDS(".bmp") ? 9 : ENDS(".svg") ? 10 : 0; };
	cfg c; ep e(&c.c);
	const char* r = e.get_content_type_from_path(p.p);
	u64 want = vc_eval64(want_);
	u64 got = r == nullptr ? 0 : MEDIA(r, "text/html") ? 1 : MEDIA(r, "text/css") ? 2 : MEDIA(r, "text/javascript") || MEDIA(r, "application/javascript") ? 3 : MEDIA(r, "text/plain") ? 4 : MEDIA(r, "text/xml") || MEDIA(r, "application/xml") ? 5
		: MEDIA(r, "image/png") ? 6 : MEDIA(r, "image/jpeg") ? 7 : MEDIA(r, "image/gif") ? 8 : MEDIA(r, "image/bmp") ? 9 : MEDIA(r, "image/svg+xml") ? 10 : 0;
	VC_CHECK("the content type is that of the extension", want == got);
}
VC_PROOF(ep_ctype__3) { content_types(3); }
VC_PROOF(ep_ctype__4) { content_types(4); }
VC_PROOF(ep_ctype__5) { content_types(5); }
VC_PROOF(ep_ctype__other) { content_types(0); }
// a root directory that does not fit is refused, others are accepted
VC_PROOF(ep_ctor) {
#ifndef VC_NATIVE
	start();
#endif
	text root("root"), prefix("prefix"); abc::endpoint_config c("80", 5, root.p, prefix.p);
	bool threw = false;
	try { ep e(&c); VC_CHECK("starts idle", e._requests_in_progress == 0 && !e.is_shutdown_requested()); } catch (...) { threw = true; }
	VC_CHECK("a root directory that does not fit is refused", threw == (root.z > abc::endpoint_limits::resource_size));
}
// ---------------------------------------------------------------- dispatch
#ifndef VC_NATIVE
VC_CONTRACT(ep_is_file, "^abc::endpoint<.*>::is_file_request\\(");
extern "C" bool vccontract__ep_is_file(void*, const char* m, const char* r) { g.asked++; vc_assert(m == g.m && r == g.r, "the request is classified by its method and resource"); g.is_file = vc_bool("is file"); return g.is_file; }
#endif
VC_PROOF(ep_is_file__sound) {
#ifndef VC_NATIVE
	start();
#endif
	text method("method"), res("resource"); cfg c; ep e(&c.c); u64 j = vc_u64("j"); vc_assume(j < c.prefix.z);
#ifdef VC_NATIVE
	if (vc_bool("match")) memcpy(res.p, c.prefix.p, res.z < c.prefix.z ? res.z : c.prefix.z);
#endif
	bool r = e.is_file_request(method.p, res.p);
	VC_CHECK("a file request starts with the files prefix or gets the icon", !r || (j < res.z && low(res.p[j]) == low(c.prefix.p[j])) || (IEQ(method.p, "GET") && IEQ(res.p, "/favicon.ico")));
}
#ifndef VC_NATIVE
static bool same_low(void* x, std::size_t i, u8 c) { return low((char)c) == low((*(const char**)x)[i]); }
#endif
VC_PROOF(ep_is_file__complete) {
#ifndef VC_NATIVE
	start();
#endif
	text method("method"), res("resource"); cfg c; ep e(&c.c);
	bool prefix = vc_bool("prefix");
	if (prefix) {
		vc_assume(c.prefix.z <= res.z);
#ifdef VC_NATIVE
		for (u64 k = 0; k < c.prefix.z; k++) res.p[k] = (k & 1) ? c.prefix.p[k] : abc::ascii::to_lower(c.prefix.p[k]);
#else
		const char** x = (const char**)vc_ghost_alloc(sizeof(char*), "prefix"); *x = c.prefix.p; vc_learn(res.p, c.prefix.z, &same_low, x);
#endif
	}
	else {
#ifdef VC_NATIVE
		method.p = (char*)"Get"; res.p = (char*)"/Favicon.ico";
#endif
		VC_ASSUME(IEQ(method.p, "GET") && IEQ(res.p, "/favicon.ico"));
	}
	bool r = e.is_file_request(method.p, res.p);
	VC_CHECK("every request below the files prefix, and for the icon, is a file request", r);
}
#ifndef VC_NATIVE
VC_CONTRACT(ep_simple, "^abc::endpoint<.*>::send_simple_response\\(");
extern "C" void vccontract__ep_simple(void*, void*, const char* s, const char*, const char*, const char*, u64) { vc_assert(g.stage == 0, "one response"); g.status = (s[0] - '0') * 100 + (s[1] - '0') * 10 + (s[2] - '0'); g.stage = 6; }
VC_CONTRACT(ep_ctype, "^abc::endpoint<.*>::get_content_type_from_path\\(");
extern "C" const char* vccontract__ep_ctype(void*, const char* p) { vc_assert(p == g.r, "the content type of this file"); if (vc_bool("known type")) return g.m; return nullptr; }
// the answer without a file: announced with the length of its body
VC_PROOF(ep_simple__all) {
	start(); cfg c; ep e(&c.c); peer p; abc::socket_streambuf<peer, null_log> sb(&p); http_t http(&sb);
	text reason("reason"), type("type"), body("body"); char* st = (char*)vc_alloc(4, "status"); st[3] = 0; vc_assume(st[0] >= '1' && st[0] <= '5' && st[1] >= '0' && st[1] <= '9' && st[2] >= '0' && st[2] <= '9');
	g.body_len = body.z;
	e.send_simple_response(http, st, reason.p, type.p, body.p, 1);
	VC_CHECK("complete response", g.stage == 5 && g.bodies == 1 && g.body == body.p && g.sent == body.z);
	VC_CHECK("the length is that of the body", g.clen && g.clen_value == body.z);
	VC_CHECK("the content type is the one given", g.ctype && g.ctype_value == type.p);
	VC_CHECK("the status is the one given", g.status == u32((st[0] - '0') * 100 + (st[1] - '0') * 10 + (st[2] - '0')));
}
VC_CONTRACT(ep_rest, "^abc::endpoint<.*>::process_rest_request\\(");
extern "C" void vccontract__ep_rest(ep* e, void*, const char* m, const char* r) { g.rests++; vc_assert(g.asked > 0 && !g.is_file && m == g.m && r == g.r, "the REST handler gets the requests that are not for files"); vc_assert(e->_requests_in_progress == (int)g.fpos, "the request counts as in progress"); if (vc_bool("shutdown")) e->set_shutdown_requested(); }
VC_PROOF(ep_rest__all) {
	start(); cfg c; ep e(&c.c); peer p; abc::socket_streambuf<peer, null_log> sb(&p); http_t http(&sb); text method("method"), res("resource");
	bool before = vc_bool("before"); if (before) e.set_shutdown_requested();
	e.process_rest_request(http, method.p, res.p);
	VC_CHECK("POST /shutdown, and nothing else, requests the shutdown", e.is_shutdown_requested() == (before || (IEQ(method.p, "POST") && IEQ(res.p, "/shutdown"))));
	VC_CHECK("one response", g.stage == 6);
}
VC_CONTRACT(ep_filereq, "^abc::endpoint<.*>::process_file_request\\(");
extern "C" void vccontract__ep_filereq(ep* e, void*, const char* m, const char* r, const char* p) {
	g.files++; vc_assert(g.asked > 0 && g.is_file && m == g.m && r == g.r, "the file handler gets the requests for files");
	vc_assert(e->_requests_in_progress == (int)g.fpos, "the request counts as in progress");
	vc_assert(p + g.root_len == r && (g.j >= g.root_len || p[g.j] == g.root[g.j]), "the path is the resource below the root");
}
VC_CONTRACT(ep_get_method, "^abc::http_request_istream<.*>::get_method\\(");
VC_CONTRACT(ep_get_resource, "^abc::http_request_istream<.*>::get_resource\\(");
VC_CONTRACT(ep_get_protocol, "^abc::http_request_istream<.*>::get_protocol\\(");
// C01: a reader fills at most the size given, with a terminated text
static void fill(char* b, u64 n) { vc_assert(n > 0 && vc_valid(b, n), "the buffer holds the size given"); u64 z = vc_u64("item"); vc_assume(z < n); vc_havoc(b, n); b[z] = 0; }
extern "C" {
	void vccontract__ep_get_method(void*, char* b, u64 n) { vc_assert(g.methods == 0, "items are read in order"); g.methods++; fill(b, n); g.m = b; }
	void vccontract__ep_get_resource(void*, char* b, u64 n) { vc_assert(g.methods == 1 && g.resources == 0, "items are read in order"); g.resources++; fill(b, n); g.r = b; }
	void vccontract__ep_get_protocol(void*, char* b, u64 n) { vc_assert(g.resources == 1 && g.protocols == 0, "items are read in order"); g.protocols++; fill(b, n); }
	void* vcstub___ZNSo5flushEv(void* s) { g.flushes++; vc_assert(g.files + g.rests == 1, "the response is complete before it is flushed"); vc_assert(g.promised == 0, "shutdown is announced after the response has been sent"); return s; }
}
VC_PROOF(ep_process) {
	start(); cfg c; ep e(&c.c); peer p; g.root = c.root.p; g.root_len = c.root.z; g.j = vc_u64("j");
	u32 others = vc_u32("others"); vc_assume(others < 1000); e._requests_in_progress = (int)others; g.fpos = others + 1;
	bool before = vc_bool("before"); if (before) e.set_shutdown_requested();
	e.process_request(std::move(p));
	VC_CHECK("the request is read", g.methods == 1 && g.resources == 1);
	VC_CHECK("every request is handled once, unless the endpoint is shutting down", g.files + g.rests == (before ? 0 : 1) && g.flushes == g.files + g.rests);
	VC_CHECK("requests in progress are counted", e._requests_in_progress == (int)others);
	VC_CHECK("shutdown completes with the last request in progress", g.promised == (!before && others == 0 && e.is_shutdown_requested() ? 1 : 0));
}
VC_PROOF(ep_filereq__all) {
	start(); cfg c; ep e(&c.c); peer p; abc::socket_streambuf<peer, null_log> sb(&p); http_t http(&sb);
	text method("method"), res("resource");
	char* path = (char*)vc_alloc(8, "path"); g.r = path; g.m = "some/type";
	g.fsize = vc_u64("fsize"); vc_assume(g.fsize <= (u64(1) << 40)); g.readable = vc_u64("readable"); vc_assume(g.readable <= g.fsize); g.data = (const char*)vc_alloc(g.fsize, "file"); g.j = vc_u64("j"); g.j_ok = false;
	u64 i = vc_u64("i"); vc_assume(i <= res.z);     // an arbitrary place in the resource, and whether a segment that leads up starts there
	auto up_ = [&]() -> bool { return i < res.z && res.p[i] == '.' && res.p[i + 1] == '.' && (res.p[i + 2] == '/' || res.p[i + 2] == 0) && (i == 0 || res.p[i - 1] == '/'); };
	bool up = vc_eval(up_);
	VC_INV(g.stage == 5); VC_INV(g.fpos == g.sent && g.sent <= g.readable); VC_INVT(t, t >= g.sent); VC_INVT(t, g.sent == (t < g.readable ? t : g.readable)); VC_INV(g.j >= g.sent || g.j_ok);
	VC_INVT(t, i >= t || !up);
	VC_INVT(t, t <= res.z);
	vc_measure(g.fsize); vc_measure(res.z);
	e.process_file_request(http, method.p, res.p, path);
	VC_CHECK("every request gets one response", g.stage >= 5);
	bool served = g.status == 200;
	VC_CHECK("only GET serves files", IEQ(method.p, "GET") ? g.status != 405 : g.status == 405);
	VC_CHECK("nothing above the root is looked at", (g.stats == 0 && g.opens == 0) || !up);
	VC_CHECK("only the requested path is looked at", (g.stats == 0 || g.stat_path == path) && (g.opens == 0 || g.open_path == path));
	VC_CHECK("a file that is not there is not served", !served || (g.exists && g.stats > 0));
	VC_CHECK("a served file is announced with its size and type", !served || (g.stage == 5 && g.clen && g.clen_value == g.fsize && (!g.ctype || g.ctype_value == g.m)));
	VC_CHECK("a served file is sent whole, in order, as far as it can be read", !served || (g.sent == g.readable && (g.j >= g.sent || g.j_ok)));
}
#endif
#ifdef VC_NATIVE
// the whole way on the real code: requests for files inside and outside of the root
#include <unistd.h>
struct script { static std::string in, out; static size_t at;
	std::size_t receive(void* p, std::size_t n, void* = nullptr) { size_t k = std::min(n, in.size() - at); memcpy(p, in.data() + at, k); at += k; return k; }
	std::size_t send(const void* p, std::size_t n, void* = nullptr) { out.append((const char*)p, n); return n; } };
std::string script::in, script::out; size_t script::at;
struct srv2 { void bind(const char*) {} void listen(int) {} script accept() { return script(); } };
struct ep2 : abc::endpoint<srv2, script, abc::endpoint_limits, null_log> { using endpoint::process_request; ep2(abc::endpoint_config* c) : endpoint(c, nullptr) {} srv2 create_server_socket() override { return srv2(); } };
static void put(const std::string& f, const std::string& s) { FILE* o = fopen(f.c_str(), "w"); if (o) { fwrite(s.data(), 1, s.size(), o); fclose(o); } }
static void end_to_end() {
	char dir[] = "/tmp/vc_ep_XXXXXX"; if (!mkdtemp(dir)) return; std::string d = dir;
	mkdir((d + "/root").c_str(), 0700); mkdir((d + "/root/files").c_str(), 0700); mkdir((d + "/root/files/sub").c_str(), 0700);
	std::string big; u64 n = vc_u32("n") % 5000; for (u64 i = 0; i < n; i++) big += (char)('a' + i % 23);
	put(d + "/secret.txt", "secret"); put(d + "/root/files/a.txt", big); put(d + "/root/files/sub/b.PNG", big); put(d + "/root/files/..c.css", big);
	static const char* const seg[] = { "..", "sub", "a.txt", "b.PNG", "secret.txt", "root", "files", ".", "", "..c.css" };
	std::string r = "/files"; u64 k = vc_u8("segments") % 6; int depth = 1; bool up = false;
	for (u64 i = 0; i < k; i++) { const char* s = seg[vc_u8("segment") % 10]; r += "/"; r += s; if (!strcmp(s, "..")) up = true; }
	std::string root = d + "/root"; abc::endpoint_config c("80", 5, root.c_str(), "/files/"); ep2 e(&c);
	script::in = "GET " + r + " HTTP/1.1\r\n\r\n"; script::out.clear(); script::at = 0;
	{ script s; e.process_request(std::move(s)); }
	struct stat st; bool there = r.compare(0, 7, "/files/") == 0 && !up && stat((root + r).c_str(), &st) == 0;
	bool file = there && S_ISREG(st.st_mode); std::string o = script::out; size_t h = o.find("\r\n\r\n");
	std::string cmd = "rm -rf " + d; if (d.compare(0, 11, "/tmp/vc_ep_") == 0) (void)!system(cmd.c_str());
	VC_CHECK("a complete response", h != std::string::npos);
	VC_CHECK("nothing outside of the root is served", o.find("secret") == std::string::npos && (!up || r.compare(0, 7, "/files/") != 0 || o.find(" 404 ") < h));
	if (file) { VC_CHECK("the file is served whole", o.compare(0, 12, "HTTP/1.1 200") == 0 && o.substr(h + 4) == big && o.find("Content-Length: " + std::to_string(n) + "\r\n") < h); }
	(void)depth;
}
VC_PROOF(ep_filereq__all) { end_to_end(); }
VC_PROOF(ep_process) { end_to_end(); }
VC_PROOF(ep_simple__all) { end_to_end(); }
VC_PROOF(ep_rest__all) { end_to_end(); }
#endif
