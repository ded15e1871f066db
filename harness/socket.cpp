// C21, C22: sockets over the system calls, which may fail at any point.
#include "vc.h"
#include <sys/types.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netdb.h>
#include <unistd.h>
#ifdef VC_NATIVE
#define K(name) vc_k_##name
#define vc_reset_ghost() memset(&g, 0, sizeof g)
#else
#define K(name) vcstub__##name
#define vc_reset_ghost() memset(&g, 0, sizeof g)
#endif
// every descriptor handed out so far, and whether it is still open
struct ghost_t {
	int fd[4]; bool open[4]; u32 n; u32 calls, closes; u32 lists, freed; bool list_out;
	// what the transfers get
	const void* buf; u64 size; long result; const void* addr; u64 alen; bool in_buf; u32 sends, recvs; int backlog;
};
static ghost_t g;
static addrinfo node; static sockaddr node_addr;
static bool owned(int fd) { return (g.n > 0 && g.open[0] && g.fd[0] == fd) || (g.n > 1 && g.open[1] && g.fd[1] == fd) || (g.n > 2 && g.open[2] && g.fd[2] == fd) || (g.n > 3 && g.open[3] && g.fd[3] == fd); }
static u32 nopen() { return (g.n > 0 && g.open[0]) + (g.n > 1 && g.open[1]) + (g.n > 2 && g.open[2]) + (g.n > 3 && g.open[3]); }
// a descriptor that is not in use
static int k_new() {
	int fd = (int)vc_u32("fd"); VC_ASSUME(fd >= 0 && !owned(fd));
	vc_assert(g.n < 4, "no more descriptors than expected");
	g.fd[g.n] = fd; g.open[g.n] = true; g.n++;
	return fd;
}
#define NODE vc_noterm(); VC_INV(node.ai_next == nullptr || node.ai_next == &node); VC_INVT(t, t == 0 || t == (u64)&node);
#define OWN(what) VC_CHECK(what " only on a descriptor that is open and its own", owned(fd))
extern "C" {
	int K(socket)(int, int, int) { g.calls++; if (!vc_bool("socket fails")) return k_new(); return -1; }
	int K(close)(int fd) {
		OWN("closes"); g.calls++; g.closes++;
		if (g.fd[0] == fd) g.open[0] = false;
		if (g.n > 1 && g.fd[1] == fd) g.open[1] = false;
		if (g.n > 2 && g.fd[2] == fd) g.open[2] = false;
		if (g.n > 3 && g.fd[3] == fd) g.open[3] = false;
		return vc_bool("close fails") ? -1 : 0;
	}
	int K(shutdown)(int fd, int) { OWN("shuts down"); g.calls++; return vc_bool("shutdown fails") ? -1 : 0; }
	int K(setsockopt)(int fd, int, int, const void* v, socklen_t n) { OWN("sets options"); vc_assert(vc_valid(v, n), "option value"); g.calls++; return vc_bool("setsockopt fails") ? -1 : 0; }
	// the list of addresses may have any length: one node that may follow itself after each attempt
	static int attempt(int fd, const void* a, socklen_t n) { OWN("ties"); vc_assert(vc_valid(a, n), "address holds its length"); g.calls++; g.addr = a; g.alen = n; node.ai_next = vc_bool("more") ? &node : nullptr; return vc_bool("fails") ? -1 : 0; }
	int K(bind)(int fd, const void* a, socklen_t n) { return attempt(fd, a, n); }
	int K(connect)(int fd, const void* a, socklen_t n) { return attempt(fd, a, n); }
	int K(getaddrinfo)(const char*, const char*, const addrinfo* h, addrinfo** out) {
		vc_assert(vc_valid(h, sizeof *h), "hints");
		if (vc_bool("getaddrinfo fails")) return (int)(vc_u8("why") | 1);
		vc_assert(!g.list_out, "one address list at a time"); g.lists++; g.list_out = true;
		node.ai_addr = &node_addr; node.ai_addrlen = sizeof node_addr; node.ai_next = vc_bool("more") ? &node : nullptr;
		*out = &node; return 0;
	}
	void K(freeaddrinfo)(addrinfo* l) { vc_assert(l == &node && g.list_out, "frees the list it was given, once"); g.list_out = false; g.freed++; }
	int K(listen)(int fd, int b) { g.calls++; g.backlog = b; if (fd == -1) return -1; OWN("listens"); return vc_bool("listen fails") ? -1 : 0; }
	int K(accept)(int fd, void*, void*) { g.calls++; if (fd == -1) return -1; OWN("accepts"); return vc_bool("accept fails") ? -1 : k_new(); }
	static long xfer(int fd, const void* b, u64 n, const void* a, u64 an) {
		OWN("transfers"); g.calls++; vc_assert(vc_valid(b, n), "memory holds what is transferred");
		g.buf = b; g.size = n; g.addr = a; g.alen = an; long r = (long)vc_u64("result"); vc_assume(r == -1 || (r >= 0 && (u64)r <= n)); g.result = r; return r;
	}
	long K(send)(int fd, const void* b, u64 n, int) { g.sends++; return xfer(fd, b, n, nullptr, 0); }
	long K(sendto)(int fd, const void* b, u64 n, int, const void* a, socklen_t an) { g.sends++; return xfer(fd, b, n, a, an); }
	long K(recv)(int fd, void* b, u64 n, int) { g.recvs++; return xfer(fd, b, n, nullptr, 0); }
	long K(recvfrom)(int fd, void* b, u64 n, int, void* a, socklen_t* an) { g.recvs++; return xfer(fd, b, n, a, *an); }
}
#ifdef VC_NATIVE
#define socket vc_k_socket
#define close vc_k_close
#define shutdown vc_k_shutdown
#define setsockopt vc_k_setsockopt
#define bind vc_k_bind
#define connect vc_k_connect
#define getaddrinfo(...) vc_k_getaddrinfo(__VA_ARGS__)
#define freeaddrinfo vc_k_freeaddrinfo
#define listen vc_k_listen
#define accept vc_k_accept
#define send vc_k_send
#define sendto vc_k_sendto
#define recv vc_k_recv
#define recvfrom vc_k_recvfrom
#endif
#include "socket.h"
#ifdef VC_NATIVE
#include "log.h"
#endif
using null_log = abc::null_log;
// sockets in any state: closed, or owning a descriptor
struct any_client : abc::client_socket<null_log> {
	any_client(int fd, int kind, int family) : abc::client_socket<null_log>(fd, kind, family, nullptr) {}
	any_client(any_client&& o) noexcept : abc::client_socket<null_log>(std::move(o)) {}
};
struct any_tcp : abc::tcp_client_socket<null_log> {
	any_tcp(int fd, int, int family) : abc::tcp_client_socket<null_log>(fd, family, nullptr) {}
	any_tcp(any_tcp&& o) noexcept : abc::tcp_client_socket<null_log>(std::move(o)) {}
};
struct any_server : abc::tcp_server_socket<null_log> { any_server(int family) : abc::tcp_server_socket<null_log>(family) {} };
static int some_kind() { return vc_bool("datagram") ? SOCK_DGRAM : SOCK_STREAM; }
static int some_family() { return vc_bool("ipv6") ? AF_INET6 : AF_INET; }
static int some_fd() { return vc_bool("open") ? k_new() : -1; }
// a socket that reports itself open owns exactly the one descriptor that is open; a closed one owns none
template <typename S> static bool sane(S& s, u32 others = 0) { return s.is_open() ? owned(s.fd()) && nopen() == 1 + others : s.fd() == -1 && nopen() == others; }
#define DONE() VC_CHECK("in the end every descriptor has been closed, once", nopen() == 0 && g.closes == g.n); VC_CHECK("every address list has been freed", g.lists == g.freed && !g.list_out);
VC_PROOF(sock_construct) {
	vc_reset_ghost(); int f = some_family();
	{ abc::udp_socket<null_log> u(f); abc::tcp_client_socket<null_log> c(f); abc::tcp_server_socket<null_log> s(f);
	  VC_CHECK("a new socket is closed", !u.is_open() && !c.is_open() && !s.is_open() && u.fd() == -1 && c.fd() == -1 && s.fd() == -1); }
	VC_CHECK("and touches no descriptor", g.calls == 0);
	bool threw = false; u32 bad = vc_u32("family"); vc_assume(bad != AF_INET && bad != AF_INET6);
	try { abc::udp_socket<null_log> x((int)bad); } catch (...) { threw = true; }
	VC_CHECK("unknown families are rejected", threw && g.calls == 0);
}
VC_PROOF(sock_close) {
	vc_reset_ghost(); int k = some_kind(), f = some_family(), fd = some_fd();
	{ any_client s(fd, k, f); VC_CHECK("owns what it was given", sane(s) && s.fd() == fd);
	  s.close(); VC_CHECK("closed", !s.is_open() && sane(s)); u32 n = g.calls;
	  s.close(); VC_CHECK("closing again does nothing", g.calls == n && sane(s)); }
	DONE()
}
VC_PROOF(sock_destroy) {
	vc_reset_ghost(); int k = some_kind(), f = some_family(), fd = some_fd();
	{ any_client s(fd, k, f); VC_CHECK("owns what it was given", sane(s)); }
	DONE()
}
template <typename S> static void move_one() {
	vc_reset_ghost(); int k = some_kind(), f = some_family(), fd = some_fd();
	{ S a(fd, k, f); u32 n = g.calls;
	  { S b(std::move(a)); VC_CHECK("the target owns the descriptor", b.fd() == fd && sane(b)); VC_CHECK("the source is closed", !a.is_open() && a.fd() == -1); VC_CHECK("moving touches no descriptor", g.calls == n);
	    a.close(); VC_CHECK("closing the source does nothing", g.calls == n); }
	  VC_CHECK("destroying the target closes it", nopen() == 0); n = g.calls; a.close(); VC_CHECK("closing the source does nothing", g.calls == n); }
	DONE()
}
VC_PROOF(sock_move) { move_one<any_client>(); }
VC_PROOF(sock_move_tcp) { move_one<any_tcp>(); }
template <typename S> static void move_closed() {
	vc_reset_ghost(); int f = some_family();
	{ S a(f); try { a.bind("80"); } catch (...) {} int fd = a.fd(); bool o = a.is_open(); u32 n = g.calls;
	  { S b(std::move(a)); VC_CHECK("the target owns the descriptor", b.fd() == fd && b.is_open() == o && sane(b)); VC_CHECK("the source is closed", !a.is_open() && a.fd() == -1 && g.calls == n); } }
	DONE()
}
VC_PROOF(sock_move_udp) { NODE move_closed<abc::udp_socket<null_log>>(); }
VC_PROOF(sock_move_server) { NODE move_closed<abc::tcp_server_socket<null_log>>(); }
VC_PROOF(sock_bind) {
	vc_reset_ghost(); NODE int k = some_kind(), f = some_family(), fd = some_fd(); bool threw = false;
	{ any_client s(fd, k, f); u32 n = g.calls; bool anyhost = vc_bool("any host");
	  try { if (anyhost) s.bind("80"); else s.bind("localhost", "80"); } catch (...) { threw = true; }
	  VC_CHECK("an open socket is not bound again", fd == -1 || (threw && s.fd() == fd && g.calls == n));
	  VC_CHECK("owns what it reports", sane(s));
	  VC_CHECK("open exactly when bound", fd != -1 || s.is_open() == !threw); }
	DONE()
}
VC_PROOF(sock_connect) {
	vc_reset_ghost(); NODE int k = some_kind(), f = some_family(), fd = some_fd(); bool threw = false;
	{ any_client s(fd, k, f);
	  try { s.connect("localhost", "80"); } catch (...) { threw = true; }
	  VC_CHECK("an open socket keeps its descriptor", fd == -1 || s.fd() == fd);
	  VC_CHECK("owns what it reports", sane(s));
	  VC_CHECK("open after success", threw || s.is_open()); }
	DONE()
}
VC_PROOF(sock_connect_address) {
	vc_reset_ghost(); NODE int k = some_kind(), f = some_family(), fd = some_fd(); bool threw = false;
	{ any_client s(fd, k, f); abc::socket::address a; vc_havoc(&a.value, sizeof a.value);
	  try { s.connect(a); } catch (...) { threw = true; }
	  VC_CHECK("an open socket keeps its descriptor", fd == -1 || s.fd() == fd);
	  VC_CHECK("connects to the address given", threw || (g.addr == &a.value && g.alen == a.size));
	  VC_CHECK("owns what it reports", sane(s));
	  VC_CHECK("open after success", threw || s.is_open()); }
	DONE()
}
VC_PROOF(sock_reopen) { // any later life of a closed socket
	vc_reset_ghost(); NODE int k = some_kind(), f = some_family(), fd = some_fd(); bool threw = false;
	{ any_client s(fd, k, f); s.close();
	  try { s.connect("localhost", "80"); } catch (...) { threw = true; }
	  VC_CHECK("owns what it reports", sane(s)); VC_CHECK("open after success", threw || s.is_open()); 
	  any_client t(std::move(s)); VC_CHECK("the target owns the descriptor", sane(t) && !s.is_open()); }
	DONE()
}
VC_PROOF(sock_listen) {
	vc_reset_ghost(); NODE int f = some_family(); bool bound = false, threw = false; int b = (int)vc_u32("backlog");
	{ any_server s(f); if (vc_bool("bind")) try { s.bind("80"); bound = true; } catch (...) {}
	  try { s.listen(b); } catch (...) { threw = true; }
	  VC_CHECK("only a bound socket listens", bound || threw);
	  VC_CHECK("the backlog is passed on", g.backlog == b);
	  VC_CHECK("owns what it reports", sane(s) && s.is_open() == bound); }
	DONE()
}
VC_PROOF(sock_accept) {
	vc_reset_ghost(); NODE int f = some_family(); bool bound = false, threw = false;
	{ any_server s(f); if (vc_bool("bind")) try { s.bind("80"); bound = true; } catch (...) {}
	  int fd = s.fd(); u32 n = g.n;
	  try {
		abc::tcp_client_socket<null_log> c = s.accept();
		VC_CHECK("the accepted socket owns the new descriptor", c.is_open() && g.n == n + 1 && c.fd() == g.fd[n] && owned(c.fd()) && nopen() == 2 && c.fd() != s.fd());
	  } catch (...) { threw = true; }
	  VC_CHECK("only a bound socket accepts", bound || threw);
	  VC_CHECK("a failed accept opens nothing", !threw || g.n == n);
	  VC_CHECK("the listener keeps its descriptor", s.fd() == fd && sane(s)); }
	DONE()
}
// ---------------------------------------------------------------- C22: one transfer
struct xfer_t { int k, f, fd; u64 n; char* d; abc::socket::address a; bool to; bool threw; u64 r; u32 calls;
	xfer_t() { vc_reset_ghost(); k = some_kind(); f = some_family(); fd = some_fd(); n = vc_u64("n"); vc_assume(n <= (u64(1) << 40)); d = (char*)vc_alloc(n, "data"); to = vc_bool("address"); vc_havoc(&a.value, sizeof a.value); threw = false; r = 0; } };
#define XFER(op, count) \
	xfer_t x; { any_client s(x.fd, x.k, x.f); x.calls = g.calls; \
	try { x.r = x.to ? s.op(x.d, x.n, &x.a) : s.op(x.d, x.n); } catch (...) { x.threw = true; } \
	VC_CHECK("refused on a closed socket, and with an address on a stream", x.threw == (x.fd == -1 || (x.to && x.k != SOCK_DGRAM)) && (!x.threw || g.calls == x.calls)); \
	VC_CHECK("one transfer of exactly the memory given", x.threw || (g.calls == x.calls + 1 && count == 1 && g.buf == x.d && g.size == x.n && g.addr == (x.to ? &x.a.value : nullptr) && (!x.to || g.alen == x.a.size))); \
	VC_CHECK("reports what was transferred, nothing for a failure", x.threw || x.r == (g.result < 0 ? 0 : (u64)g.result)); \
	VC_CHECK("keeps its descriptor", s.fd() == x.fd && sane(s)); } DONE()
VC_PROOF(xfer_send) { XFER(send, g.sends) }
VC_PROOF(xfer_receive) { XFER(receive, g.recvs) }
