// Shared by C20-C23: fstrm_capture under a controlled kernel boundary. The program's own main() and the real libevent run
// against real sockets; the harness decides, at every epoll_wait, what happens next: which ready event is delivered, what
// clients do, which signal arrives.
#pragma once
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "prog.hpp"
#include "ref.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <unistd.h>
using namespace ref;

namespace cap {
static const B CT = "test:x";
static B slurp(const B &p)
{
	B s;
	int fd = open(p.c_str(), O_RDONLY);
	if (fd < 0) return "";
	char b[65536];
	ssize_t n;
	while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n);
	close(fd);
	return s;
}
static bool exists(const B &p) { return access(p.c_str(), F_OK) == 0; }

// ---- what the program must do with the bytes of one connection ----
enum St { RD_READY, RD_START, RD_DATA, STOPPED, CLOSED };
struct Model {
	B ct = CT, buf;
	size_t highwater = 262144;
	St st = RD_READY;
	bool after_stop = false; // something followed STOP
	bool unspecified = false; // a control frame that does not fit into the buffer
	B replies;               // all of them, if it gets to send them
	std::vector<B> frames;
	uint64_t skip = 0;
	size_t feed(const B &b)  // returns the number of frames that became complete
	{
		size_t before = frames.size();
		buf += b;
		while (st != CLOSED) {
			if (skip) {
				size_t k = std::min<uint64_t>(skip, buf.size());
				buf.erase(0, k);
				skip -= k;
				if (skip) break;
			}
			if (st == STOPPED) { if (!buf.empty()) { after_stop = true; st = CLOSED; } break; }
			if (buf.size() < 4) break;
			uint64_t n = rd32(buf, 0);
			if (n) {
				if (st != RD_DATA) { st = CLOSED; break; }
				if (n + 4 > highwater) { skip = n + 4; continue; }
				if (buf.size() < n + 4) break;
				frames.push_back(buf.substr(4, n));
				buf.erase(0, n + 4);
				continue;
			}
			if (buf.size() < 8) break;
			n = rd32(buf, 4);
			if (n < 4 || n > 512) { st = CLOSED; break; }
			if (n + 8 > highwater) unspecified = true;
			if (buf.size() < n + 8) break;
			uint32_t type;
			L l;
			bool ok = decode(buf.substr(8, n), type, l);
			buf.erase(0, n + 8);
			if (!ok) { st = CLOSED; break; }
			if (st == RD_READY && type == READY && match(READY, l, &ct)) { st = RD_START; replies += ctl(ACCEPT, {ct}); }
			else if (st == RD_START && type == START && match(START, l, &ct)) st = RD_DATA;
			else if (st == RD_DATA && type == STOP) { st = STOPPED; replies += ctl(FINISH); }
			else st = CLOSED;
		}
		return frames.size() - before;
	}
};

// ---- clients ----
struct Client {
	int fd = -1, id = 0;
	bool eof = false, hup = false, shut = false; // closed by the program / by us / half-closed by us
	bool hard = false;                          // closed with things it did not wait for
	B got, out;                                 // received; sent but not yet accepted by the kernel
	Model m;
	size_t must = 0;                            // frames the program has certainly received
};
static std::vector<Client> C;
static B sock, outp;
static bool tcp;
static uint16_t port;
static int budget, cur_ep = -1, pend_sig;
static int order;         // the order of ready events is chosen: 1 freely, 2 with deviations from the system's
static std::vector<B> seq; // all frames in the order of their completion (if everything settles between actions)
static size_t highwater;

static int hook(int ep, void *v, int n, int timeout)
{
	struct epoll_event *e = (struct epoll_event *)v;
	cur_ep = ep;
	CHECK(prog::polls < 200000, "the program keeps polling without getting anywhere");
	if (pend_sig) { int s = pend_sig; pend_sig = 0; raise(s); return -2; }
	if (n > 0 && budget != 0) {
		if (budget > 0) budget--;
		if (!order) return n;
		int k = order == 1 ? mc::choose(n, "event") : mc::deviate(n, "event");
		std::swap(e[0], e[k]);
		return 1;
	}
	if (timeout == 0) return 0;
	if (timeout > 0 && n == 0) return 0;
	return -1;
}
static int ready()
{
	struct epoll_event e[64];
	return cur_ep < 0 ? 0 : (int)syscall(SYS_epoll_wait, cur_ep, e, 64, 0);
}
static void drain(Client &c)
{
	char b[8192];
	while (!c.hup && !c.eof && c.fd >= 0) {
		ssize_t n = recv(c.fd, b, sizeof b, MSG_DONTWAIT);
		if (n > 0) { c.got.append(b, n); continue; }
		if (n == 0 || (errno != EAGAIN && errno != EWOULDBLOCK)) c.eof = true;
		break;
	}
}
static void push(Client &c)
{
	while (!c.out.empty() && !c.hup && !c.shut) {
		ssize_t n = send(c.fd, c.out.data(), c.out.size(), MSG_DONTWAIT | MSG_NOSIGNAL);
		if (n <= 0) {
			if (n < 0 && (errno == EPIPE || errno == ECONNRESET)) c.out.clear();
			break;
		}
		c.out.erase(0, n);
	}
}
// lets the program do everything it can do
static void settle()
{
	for (;;) {
		budget = -1;
		if (prog::running()) prog::resume();
		bool more = false;
		for (auto &c : C) {
			drain(c);
			size_t k = c.out.size();
			push(c);
			if (c.out.size() != k) more = true;
		}
		if (!more || !prog::running()) {
			if (tcp && prog::running() && ready() > 0) continue;
			break;
		}
	}
	uint64_t h = seq.size();
	for (auto &c : C) {
		h = mc::mix(h, mc::hash(c.m.buf, mc::hash(c.got, c.m.frames.size())) + c.m.st * 16 + c.eof * 4 + c.hup * 2 + c.shut + 64 * c.m.skip);
	}
	mc::state(h);
	for (auto &c : C) {
		if (!c.hard && c.out.empty()) c.must = c.m.frames.size();
		mc::steps();
	}
}
// delivers one ready event
static void deliver()
{
	budget = 1;
	if (prog::running()) prog::resume();
	for (auto &c : C) drain(c);
	mc::steps();
}
static int connect_client()
{
	Client c;
	c.id = C.size();
	c.m.highwater = highwater;
	if (tcp) {
		c.fd = socket(AF_INET, SOCK_STREAM, 0);
		int one = 1;
		setsockopt(c.fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
		struct sockaddr_in a;
		memset(&a, 0, sizeof a);
		a.sin_family = AF_INET;
		a.sin_port = htons(port);
		a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		CHECK(connect(c.fd, (struct sockaddr *)&a, sizeof a) == 0, "cannot connect: %s", strerror(errno));
	} else {
		c.fd = socket(AF_UNIX, SOCK_STREAM, 0);
		struct sockaddr_un a;
		memset(&a, 0, sizeof a);
		a.sun_family = AF_UNIX;
		snprintf(a.sun_path, sizeof a.sun_path, "%s", sock.c_str());
		fcntl(c.fd, F_SETFL, O_NONBLOCK);
		CHECK(connect(c.fd, (struct sockaddr *)&a, sizeof a) == 0, "cannot connect to the listening socket: %s", strerror(errno));
	}
	// out of the way, so that the program's descriptors are the same whatever clients there are
	int f = fcntl(c.fd, F_DUPFD_CLOEXEC, prog::top + 4);
	close(c.fd);
	c.fd = f;
	C.push_back(c);
	return c.id;
}
static void tell(int i, const B &b)
{
	Client &c = C[i];
	size_t n = c.m.frames.size();
	c.m.feed(b);
	for (; n < c.m.frames.size(); n++) seq.push_back(c.m.frames[n]);
	c.out += b;
	push(c);
}
static void hang_up(int i, bool hard = false)
{
	Client &c = C[i];
	drain(c);
	if (hard) c.hard = true;
	c.hup = true;
	if (c.fd >= 0) close(c.fd);
	c.fd = -1;
}
static void half_close(int i) { shutdown(C[i].fd, SHUT_WR); C[i].shut = true; }
static void signal_(int s) { pend_sig = s; }
static bool is_prefix(const B &a, const B &b) { return a.size() <= b.size() && !memcmp(a.data(), b.data(), a.size()); }

static B hello() { return ctl(READY, {CT}); }
static B begin() { return ctl(START, {CT}); }
static B pay(int id, size_t n, unsigned salt);
// ---- start and end ----
static prog::Args base_args()
{
	if (tcp) return {"fstrm_capture", "-t", CT, "-a", "127.0.0.1", "-p", "0", "-w", outp};
	return {"fstrm_capture", "-t", CT, "-u", sock, "-w", outp};
}
// what a program that ended left open
static void close_leftovers()
{
	static bool known, mine[8192];
	std::vector<struct pollfd> p(prog::top);
	for (int i = 0; i < prog::top; i++) p[i] = {i, 0, 0};
	poll(p.data(), prog::top, 0);
	for (int i = 3; i < prog::top; i++) {
		if (p[i].revents & POLLNVAL) continue;
		if (!known) { mine[i] = true; continue; }
		if (mine[i]) continue;
		int t;
		socklen_t l = sizeof t;
		if (getsockopt(i, SOL_SOCKET, SO_TYPE, &t, &l) == 0) close(i);
		else if (syscall(SYS_epoll_ctl, i, EPOLL_CTL_DEL, 0, nullptr) < 0 && (errno == ENOENT || errno == EPERM)) close(i); // an epoll
	}
	known = true;
}
static void reset()
{
	for (auto &c : C) if (c.fd >= 0) close(c.fd);
	C.clear();
	close_leftovers();
	prog::top = 96;
	seq.clear();
	env::h = env::Hooks();
	env::forget_allocations();
	tcp = false;
	order = 0;
	port = 0;
	cur_ep = -1;
	pend_sig = 0;
	budget = -1;
	highwater = 262144;
	sock = mc::scratch() + "/s";
	outp = mc::scratch() + "/out";
	unlink(outp.c_str());
	prog::poll_hook = hook;
	prog::out = nullptr;
}
static size_t idle_blocks;
static unsigned idle_fds;
// starts the program and waits until it serves
static bool launch(const prog::Args &a)
{
	for (size_t i = 0; i + 1 < a.size(); i++) if (a[i] == "-b") highwater = atoi(a[i + 1].c_str());
	prog::start(a);
	if (!prog::running()) return false;
	idle_blocks = env::live_blocks();
	idle_fds = prog::fds();
	if (tcp) {
		for (int i = 3; i < prog::top; i++) {
			int on = 0;
			socklen_t l = sizeof on;
			struct sockaddr_in s;
			if (getsockopt(i, SOL_SOCKET, SO_ACCEPTCONN, &on, &l) == 0 && on) {
				l = sizeof s;
				getsockname(i, (struct sockaddr *)&s, &l);
				port = ntohs(s.sin_port);
			}
		}
		CHECK(port, "no listening TCP socket");
	}
	return true;
}
static void start(const prog::Args &extra = {})
{
	prog::Args a = base_args();
	a.insert(a.end(), extra.begin(), extra.end());
	CHECK(launch(a), "fstrm_capture does not start: exit status %d", prog::code);
}
// the data frames of a complete stream
static std::vector<B> parse(const B &s, const char *what)
{
	std::vector<B> f;
	B st = ctl(START, {CT});
	CHECK(s.compare(0, st.size(), st) == 0, "%s does not begin with START: %s", what, hex(s, 60).c_str());
	size_t p = st.size();
	for (;;) {
		CHECK(p + 4 <= s.size(), "%s ends without STOP (%zu bytes)", what, s.size());
		size_t n = rd32(s, p);
		if (n == 0) {
			CHECK(s.substr(p) == ctl(STOP), "%s does not end with STOP alone: %s", what, hex(s.substr(p), 60).c_str());
			return f;
		}
		CHECK(p + 4 + n <= s.size(), "%s: a frame of %zu bytes is cut off", what, n);
		f.push_back(s.substr(p + 4, n));
		p += 4 + n;
	}
}
// the frames recorded, against what each connection sent; exact: in this order
static void compare(const std::vector<B> &f, bool exact)
{
	if (exact) {
		for (size_t i = 0; i < f.size() || i < seq.size(); i++) {
			CHECK(i < f.size(), "frame %zu (%zu bytes) was not recorded: %zu of %zu", i, seq[i].size(), f.size(), seq.size());
			CHECK(i < seq.size(), "%zu frames were recorded, %zu sent; extra: %s", f.size(), seq.size(), hex(f[i]).c_str());
			CHECK(f[i] == seq[i], "frame %zu is %s (%zu bytes), should be %s (%zu bytes)", i, hex(f[i]).c_str(), f[i].size(), hex(seq[i]).c_str(), seq[i].size());
		}
		return;
	}
	std::vector<size_t> at(C.size());
	for (auto &x : f) {
		size_t i = x.size() ? (unsigned char)x[0] - 'A' : 99;
		CHECK(i < C.size(), "a frame nobody sent was recorded: %s", hex(x).c_str());
		Client &c = C[i];
		CHECK(at[i] < c.m.frames.size(), "connection %zu: %zu complete frames sent, but more recorded: %s", i, c.m.frames.size(), hex(x).c_str());
		CHECK(c.m.frames[at[i]] == x, "connection %zu: frame %zu recorded as %s (%zu), sent as %s (%zu)", i, at[i], hex(x).c_str(), x.size(),
		      hex(c.m.frames[at[i]]).c_str(), c.m.frames[at[i]].size());
		at[i]++;
	}
	for (size_t i = 0; i < C.size(); i++)
		CHECK(at[i] >= C[i].must, "connection %zu: %zu frames were received, %zu recorded", i, C[i].must, at[i]);
}
// what clients were sent and whether they are still connected (everything has settled)
static void check_replies()
{
	for (auto &c : C) {
		CHECK(is_prefix(c.got, c.m.replies), "connection %d was sent %s, expected %s", c.id, hex(c.got, 80).c_str(), hex(c.m.replies, 80).c_str());
		if (c.hup || c.hard || c.shut || c.m.unspecified) continue;
		if (c.m.st == CLOSED) CHECK(c.eof, "connection %d is not closed", c.id);
		else {
			CHECK(c.got == c.m.replies, "connection %d was sent %s so far, expected %s", c.id, hex(c.got, 80).c_str(), hex(c.m.replies, 80).c_str());
			if (c.m.st == STOPPED) CHECK(c.eof, "connection %d is not closed after FINISH", c.id);
			else CHECK(!c.eof, "connection %d was closed (state %d)", c.id, c.m.st);
		}
	}
}
static void check_prefix()
{
	B s = slurp(outp), e = ctl(START, {CT});
	for (auto &x : seq) e += frame(x);
	CHECK(is_prefix(s, e), "while running, the output (%zu bytes) is not a prefix of the stream (%zu bytes): %s", s.size(), e.size(), hex(s, 100).c_str());
}
// connections that have ended leave nothing behind
static void check_resources()
{
	unsigned open = 0;
	for (auto &c : C) if (!c.eof && !c.hup && !c.shut) open++;
	if (!open) {
		CHECK(env::live_blocks() <= idle_blocks, "%zu blocks are allocated with no connection left, %zu before", env::live_blocks(), idle_blocks);
		CHECK(prog::fds() <= idle_fds, "%u descriptors are open with no connection left, %u before", prog::fds(), idle_fds);
	}
}
static void terminate(int sig = SIGTERM)
{
	signal_(sig);
	budget = -1;
	for (int i = 0; i < 50 && prog::running(); i++) { prog::resume(); for (auto &c : C) drain(c); }
	CHECK(!prog::running(), "fstrm_capture does not end after signal %d", sig);
	for (auto &c : C) if (c.fd >= 0) { drain(c); close(c.fd); c.fd = -1; }
}
// ends everything and checks the output
static void finish(bool exact, int sig = SIGTERM)
{
	terminate(sig);
	CHECK(prog::code == 0, "exit status %d", prog::code);
	std::vector<B> f = parse(slurp(outp), "the output");
	compare(f, exact);
	for (auto &c : C) CHECK(is_prefix(c.got, c.m.replies), "connection %d was sent %s, expected %s", c.id, hex(c.got, 80).c_str(), hex(c.m.replies, 80).c_str());
	uint64_t h = f.size();
	for (auto &x : f) h = mc::hash(x, h);
	for (auto &c : C) h = mc::mix(mc::hash(c.got, h), c.m.st * 4 + c.eof * 2 + c.hup);
	mc::state(h);
	mc::outcome(std::to_string(f.size()) + " frames");
}
// every sequence of up to n messages, one at a time or all at once
static void sequences(const std::vector<B> &al, int n, bool merged, bool healthy, int first = -1)
{
	reset();
	start();
	settle();
	int h = -1, c;
	if (healthy) {
		h = connect_client();
		tell(h, hello() + begin());
		settle();
	}
	c = connect_client();
	if (first >= 0) { tell(c, al[first]); if (!merged) { settle(); check_replies(); } }
	for (int i = first >= 0; i < n; i++) {
		int k = mc::choose(al.size() + (i >= (first >= 0)), "message");
		if (k == (int)al.size()) break;
		tell(c, al[k]);
		if (!merged) {
			settle();
			check_replies();
			if (C[c].m.st == CLOSED || C[c].m.st == STOPPED) break;
		}
	}
	settle();
	check_replies();
	if (healthy) {
		tell(h, frame(pay(h, 11, 3)));
		settle();
		tell(h, ctl(STOP));
		settle();
		check_replies();
		CHECK(C[h].eof && C[h].got == C[h].m.replies, "another connection was disturbed");
	}
	check_prefix();
	check_resources();
	finish(true);
}
// payloads are tagged with their connection
static B pay(int id, size_t n, unsigned salt)
{
	B r = data(n, salt + 31 * id);
	if (n) r[0] = 'A' + id;
	if (n > 3) r[2] = 0;
	if (n > 8) { r[4] = r[5] = r[6] = r[7] = 0; }
	return r;
}
}
using namespace cap;
