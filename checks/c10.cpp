// C10: socket writers put every byte on the wire exactly once.
#include "transport.hpp"
#include <algorithm>
#include <functional>
#include <set>
#include <arpa/inet.h>
#include <cerrno>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
using namespace ref;
const char *mc_property = "C10";

// The kernel: every socket of the writer is one end of a socket pair; how much of each call is done is a choice.
struct Net {
	bool tcp = false, zero = false;
	int peer = -1, fd = -1;
	bool peer_closed = false, broken = false, eof = false;
	int sockets = 0, closes = 0, calls = 0, faults = 0, connects = 0, intr = 0, close_intr = 0;
	bool joined = false;
	B got, reply; // received by the peer; what the peer has to say
	size_t said = 0;
	int write_chunk = 0, read_chunk = 0; // fixed chunking
	bool deviate_writes = false, deviate_reads = false, deviate_setup = false, may_close = false;
	int rerr = 0, err = EPIPE; // what a broken connection answers from then on
	int kinds = 0; // 1: only short calls and interruptions
	sockaddr_storage want{};
	socklen_t want_len = 0;
	void drain()
	{
		if (peer < 0) return;
		char b[65536];
		ssize_t n;
		while ((n = recv(peer, b, sizeof b, MSG_DONTWAIT)) > 0) got.append(b, n);
	}
	void drop()
	{
		drain();
		if (peer >= 0) close(peer);
		peer = -1;
		peer_closed = true;
	}
} * net;
static volatile int sigpipes;
static const int LIMIT = 100000;
static std::function<void()> meanwhile; // another thread acts
static void called()
{
	if (meanwhile) meanwhile();
	if (++net->calls > LIMIT) mc::fail("more than %d calls for %zu bytes", LIMIT, net->got.size());
}
static int k_socket(int dom, int type, int proto)
{
	called();
	CHECK(dom == (net->tcp ? net->want.ss_family : AF_UNIX), "a socket of family %d", dom);
	CHECK((type & 0xf) == SOCK_STREAM, "a socket of type %d", type);
	if (net->deviate_setup) switch (mc::deviate(3, "socket")) {
	case 1: net->faults++; errno = EMFILE; return -1;
	case 2: net->faults += 0; if (type != SOCK_STREAM) { errno = EINVAL; return -1; } net->faults++; errno = EINVAL; return -1;
	}
	int p[2];
	if (socketpair(AF_UNIX, SOCK_STREAM | (type & SOCK_CLOEXEC), 0, p)) { perror("socketpair"); abort(); }
	int sz = 4 << 20;
	setsockopt(p[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz);
	setsockopt(p[1], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz);
	CHECK(net->fd < 0, "a second socket while one is open");
	if (net->peer >= 0) close(net->peer);
	if (net->zero) { // the process has no standard input: the lowest free descriptor is 0
		if (dup3(p[0], 0, type & SOCK_CLOEXEC ? O_CLOEXEC : 0)) abort();
		close(p[0]);
		p[0] = 0;
	}
	net->fd = p[0];
	net->peer = p[1];
	net->sockets++;
	net->broken = net->eof = net->peer_closed = net->joined = false;
	net->rerr = 0;
	net->err = EPIPE;
	return p[0];
}
static int k_connect(int fd, const struct sockaddr *a, socklen_t l)
{
	called();
	CHECK(fd == net->fd, "connect on descriptor %d", fd);
	CHECK(l >= sizeof(sa_family_t) && a->sa_family == net->want.ss_family, "connect to family %d", a->sa_family);
	if (!net->tcp) CHECK(l > offsetof(sockaddr_un, sun_path) && l <= sizeof(sockaddr_un) && !strncmp(((sockaddr_un *)a)->sun_path, ((sockaddr_un *)&net->want)->sun_path, l - offsetof(sockaddr_un, sun_path)), "connect to another path");
	else CHECK(l == net->want_len && !memcmp(a, &net->want, l), "connect to another address");
	net->connects++;
	static const int no[] = {0, ECONNREFUSED, ETIMEDOUT, ENETUNREACH, EADDRNOTAVAIL, EINTR, EAGAIN, ENOENT, EACCES};
	// EINTR: a TCP connection would be set up all the same
	int k = !net->deviate_setup ? 0 : net->tcp ? mc::deviate(5, "connect") : mc::deviate(9, "connect");
	if (k) {
		if (no[k] == EINTR) net->intr++; else net->faults++; // after EINTR it may be tried again
		errno = no[k];
		return -1;
	}
	net->joined = true;
	net->said = 0;
	if (!net->reply.empty()) {
		ssize_t n = send(net->peer, net->reply.data(), net->reply.size(), MSG_NOSIGNAL);
		if (n != (ssize_t)net->reply.size()) abort();
	}
	shutdown(net->peer, SHUT_WR); // nothing else will be said: a read of more sees end of file instead of blocking
	return 0;
}
static int k_close(int fd)
{
	called();
	CHECK(fd >= 0 && fd == net->fd, "close of descriptor %d, which is not the writer's open socket (%d)", fd, net->fd);
	net->drain();
	close(fd);
	if (fd == 0 && open("/dev/null", O_RDONLY)) abort();
	net->fd = -1;
	net->closes++;
	if (net->deviate_setup) switch (mc::deviate(3, "close")) {
	case 1: net->faults++; errno = EIO; return -1;
	case 2: net->close_intr++; errno = EINTR; return -1; // the descriptor is gone; it may be reported or not
	}
	return 0;
}
static size_t how_much(size_t total, bool dev, int chunk, const char *what, int &err, const struct msghdr *m = nullptr)
{
	err = 0;
	if (total == 0) return 0;
	size_t full = chunk && (size_t)chunk < total ? chunk : total;
	if (!dev) return full;
	if (total > 5000) { // too many: around the ends of the buffers and powers of two, and some in the middle of the buffers
		std::set<size_t> at;
		auto around = [&](size_t x) { for (size_t y : {x - 1, x, x + 1}) if (y > 0 && y < total) at.insert(y); };
		around(1);
		around(total);
		for (size_t x = 32768; x < total; x += 32768) { around(x); around(total - x); }
		size_t end = 0;
		for (size_t i = 0; m && i < m->msg_iovlen; i++) {
			size_t l = m->msg_iov[i].iov_len;
			if (l > 1000) { around(end + l / 3); around(end + l - 1000); }
			around(end += l);
		}
		std::vector<size_t> v(at.begin(), at.end());
		size_t k = mc::deviate(v.size() + 2, what);
		if (k == 0) return full;
		if (k <= v.size()) return v[k - 1];
		err = EINTR;
		return 0;
	}
	size_t shorts = total;
	int k = mc::deviate(shorts + (net->kinds == 1 ? 1 : 4), what); // 0 full, 1..shorts-1 that many, then EINTR and errors
	if (k == 0) return full;
	if (k < (int)shorts) return k;
	static const int errs[] = {EINTR, EPIPE, ECONNRESET, ENOBUFS};
	err = errs[k - shorts];
	return 0;
}
static ssize_t k_sendmsg(int fd, const struct msghdr *m, int flags)
{
	called();
	CHECK(fd == net->fd, "sendmsg on descriptor %d", fd);
	CHECK(net->joined, "data is sent on a socket that is not connected");
	if (m->msg_iovlen > 1024) { errno = EMSGSIZE; return -1; }
	std::vector<iovec> v;
	size_t total = 0;
	for (size_t i = 0; i < m->msg_iovlen; i++) total += m->msg_iov[i].iov_len;
	CHECK(total < (1u << 24), "sendmsg of %zu bytes", total);
	if (net->may_close && !net->peer_closed && mc::deviate(2, "peer-closes")) { net->faults++; net->broken = true; net->drop(); }
	if (!net->peer_closed) {
		if (net->broken) { errno = net->err; return -1; }
		int err;
		size_t n = how_much(total, net->deviate_writes, net->write_chunk, "send", err, m);
		if (err) { if (err != EINTR) { net->broken = true; net->err = err; net->faults++; } errno = err; return -1; }
		for (size_t i = 0, left = n; i < m->msg_iovlen && left; i++) {
			size_t k = std::min(left, m->msg_iov[i].iov_len);
			v.push_back({m->msg_iov[i].iov_base, k});
			left -= k;
		}
	} else v.assign(m->msg_iov, m->msg_iov + m->msg_iovlen);
	struct msghdr mm = *m;
	mm.msg_iov = v.data();
	mm.msg_iovlen = v.size();
	if (!net->peer_closed && v.empty()) return 0;
	if (!net->peer_closed && total > 40000) { // more than the socket may hold at once
		ssize_t sum = 0;
		for (auto &x : v) for (size_t o = 0; o < x.iov_len; o += 32768) {
			ssize_t k = send(fd, (char *)x.iov_base + o, std::min<size_t>(32768, x.iov_len - o), flags);
			if (k < 0) return sum ? sum : -1;
			sum += k;
			net->drain();
		}
		return sum;
	}
	ssize_t r = sendmsg(fd, &mm, flags);
	int e = errno;
	net->drain();
	errno = e;
	return r;
}
static ssize_t k_send(int fd, const void *p, size_t n, int f)
{
	struct iovec v = {(void *)p, n};
	struct msghdr m{};
	m.msg_iov = &v;
	m.msg_iovlen = 1;
	return k_sendmsg(fd, &m, f);
}
static ssize_t k_write(int fd, const void *p, size_t n) { return k_send(fd, p, n, 0); }
static ssize_t k_recv(int fd, void *p, size_t n, int f)
{
	called();
	CHECK(fd == net->fd, "read from descriptor %d", fd);
	CHECK(net->joined, "a socket that is not connected is read");
	if (net->eof) { net->faults++; if (net->rerr) { errno = net->rerr; return -1; } return 0; }
	int err;
	size_t k = n;
	if (net->deviate_reads && net->kinds != 1 && mc::deviate(2, "end-of-file")) { net->faults++; net->eof = true; return 0; }
	k = how_much(n, net->deviate_reads, net->read_chunk, "recv", err);
	if (err) { if (err != EINTR) { net->faults++; net->eof = true; net->rerr = err; } errno = err; return -1; }
	ssize_t r = recv(fd, p, k, f);
	if (r > 0) net->said += r;
	return r;
}
static ssize_t k_read(int fd, void *p, size_t n) { return k_recv(fd, p, n, 0); }
static int k_poll(struct pollfd *p, unsigned long n, int t)
{
	called();
	return poll(p, n, t < 0 || t > 1000 ? 1000 : t);
}
static std::vector<std::pair<B, int>> addresses; // of TCP writers, beyond the usual ones
static std::vector<B> names;                     // of unix sockets
static void fill_addresses()
{
	for (int p = 1; p < 65536; p++) addresses.push_back({p & 1 ? "192.0.2.1" : "2001:db8::1", p});
	for (int b = 0; b < 256; b++) for (int i = 0; i < 4; i++) {
		int q[4] = {10, 20, 30, 40};
		q[i] = b;
		addresses.push_back({std::to_string(q[0]) + "." + std::to_string(q[1]) + "." + std::to_string(q[2]) + "." + std::to_string(q[3]), 53});
	}
	for (int i = 0; i < 128; i++) for (int all = 0; all < 2; all++) {
		uint8_t a[16];
		memset(a, all ? 0x5a : 0, sizeof a);
		a[i / 8] ^= 1 << i % 8;
		char t[64];
		inet_ntop(AF_INET6, a, t, sizeof t);
		addresses.push_back({t, 1024 + i});
	}
	for (const char *x : {"::", "0.0.0.0", "255.255.255.255", "::ffff:192.0.2.1", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "2001:DB8:0:0:1::9", "fe80::1", "ff02::1"}) addresses.push_back({x, 4711});
	for (int c = 1; c < 256; c++) for (const B &x : {B(1, c), B(1, c) + "s", "/a/s" + B(1, c), "a" + B(1, c) + "s", B(107, c)}) names.push_back(x);
	for (int n = 1; n < 108; n++) { names.push_back("/" + B(n - 1, 's')); names.push_back(B(n, 's')); }
	for (const char *x : {"./s", "../s", "~/s", "//s", "/a/../s", "unix:/s", "unix:s", "file:///s", "localhost:53", "%s", "$HOME/s", "-", "--"}) names.push_back(x);
}
static struct fstrm_writer *make(Net &n, const L &ct, int addr)
{
	struct fstrm_writer_options *o = fstrm_writer_options_init();
	for (auto &c : ct) CHECK(fstrm_writer_options_add_content_type(o, c.data(), c.size()) == fstrm_res_success, "add_content_type");
	struct fstrm_writer *w;
	memset(&n.want, 0, sizeof n.want);
	if (n.tcp) {
		static const char *as[] = {"127.0.0.1", "::1", "192.0.2.77", "2001:db8::5:f"};
		static const char *ps[] = {"5300", "65535", "1", "258"};
		B ad = addr < 4 ? as[addr] : addresses[addr - 4].first, po = addr < 4 ? ps[addr] : std::to_string(addresses[addr - 4].second);
		struct fstrm_tcp_writer_options *to = fstrm_tcp_writer_options_init();
		fstrm_tcp_writer_options_set_socket_address(to, ad.c_str());
		fstrm_tcp_writer_options_set_socket_port(to, po.c_str());
		if (ad.find(':') != B::npos) {
			sockaddr_in6 *s = (sockaddr_in6 *)&n.want;
			s->sin6_family = AF_INET6;
			if (inet_pton(AF_INET6, ad.c_str(), &s->sin6_addr) != 1) abort();
			s->sin6_port = htons(atoi(po.c_str()));
			n.want_len = sizeof *s;
		} else {
			sockaddr_in *s = (sockaddr_in *)&n.want;
			s->sin_family = AF_INET;
			if (inet_pton(AF_INET, ad.c_str(), &s->sin_addr) != 1) abort();
			s->sin_port = htons(atoi(po.c_str()));
			n.want_len = sizeof *s;
		}
		w = fstrm_tcp_writer_init(to, o);
		fstrm_tcp_writer_options_destroy(&to);
	} else {
		struct fstrm_unix_writer_options *uo = fstrm_unix_writer_options_init();
		sockaddr_un *s = (sockaddr_un *)&n.want;
		s->sun_family = AF_UNIX;
		B path = addr == 1 ? "/" + B(106, 'p') : addr < 4 ? "/nowhere/sock" + std::to_string(addr) : names[addr - 4];
		strcpy(s->sun_path, path.c_str());
		fstrm_unix_writer_options_set_socket_path(uo, path.c_str());
		w = fstrm_unix_writer_init(uo, o);
		fstrm_unix_writer_options_destroy(&uo);
	}
	fstrm_writer_options_destroy(&o);
	CHECK(w, "writer_init");
	return w;
}
static B payload(int pattern, int i)
{
	switch (pattern) {
	case 0: return data(1, i + 1);
	case 1: return data(i % 5 + 1, i + 1);
	case 2: return data(i % 4 == 1 ? 70 : 3, i + 1);
	case 4: return data(5, i + 1);
	case 5: { static const size_t n[] = {70000, 1, 3, 66000, 2, 40000, 200000, 5, 65536, 131073}; static B made[10]; B &x = made[i % 10]; if (x.empty()) x = data(n[i % 10], i + 1); return x; }
	default: return data(4, i + 1);
	}
}
struct Setup { bool tcp; int count, pattern, wchunk, rchunk; bool dw, dr, ds, pc; int kinds; bool zero = false; };
static const L ct = {"ab"};
static void run(const Setup &s, int addr)
{
	Net n;
	net = &n;
	sigpipes = 0;
	n.tcp = s.tcp;
	n.zero = s.zero;
	n.write_chunk = s.wchunk;
	n.read_chunk = s.rchunk;
	n.deviate_setup = s.ds;
	n.kinds = s.kinds;
	n.reply = ctl(ACCEPT, ct) + ctl(FINISH);
	struct fstrm_writer *w = make(n, ct, addr);
	B want = ctl(READY, ct) + ctl(START, ct);
	n.deviate_reads = s.dr;
	n.may_close = s.pc;
	n.deviate_writes = s.dw && s.count == 0;
	fstrm_res r = fstrm_writer_open(w);
	mc::steps();
	n.drain();
	auto prefix = [&](const char *op) {
		CHECK(n.got == want.substr(0, n.got.size()), "%s: the peer received %s, which is no prefix of the stream (byte %zu)", op, hex(n.got, 40).c_str(), (size_t)(std::mismatch(n.got.begin(), n.got.end(), want.begin(), want.end()).first - n.got.begin()));
	};
	CHECK((r == fstrm_res_success) == (n.faults == 0) || (n.intr && r != fstrm_res_success), "open returned %d with %d faults", r, n.faults);
	if (r == fstrm_res_success) CHECK(n.got == want, "open: the peer received %s", hex(n.got, 60).c_str());
	else { prefix("open"); CHECK(n.fd < 0, "the socket is left open after a failed open"); }
	mc::state(mc::hash(n.got, n.calls));
	size_t before = want.size();
	if (r == fstrm_res_success) {
		std::vector<B> d, keep;
		std::vector<iovec> v, vkeep;
		for (int i = 0; i < s.count; i++) d.push_back(payload(s.pattern, i));
		for (auto &x : d) { v.push_back({(void *)x.data(), x.size()}); want += frame(x); }
		if (s.pattern == 4) { // pieces of one buffer, the same, overlapping, adjoining
			want = B(want, 0, before);
			static const int at[] = {0, 0, 1, 3, 0, 0, 4, 1}, ln[] = {3, 1, 2, 1, 5, 5, 1, 4};
			for (int i = 0; i < s.count; i++) { v[i].iov_base = &d[0][at[i % 8]]; v[i].iov_len = ln[i % 8]; want += frame(d[0].substr(at[i % 8], ln[i % 8])); }
		}
		keep = d;
		vkeep = v;
		n.deviate_writes = s.dw;
		int f = n.faults;
		r = s.count == 1 ? fstrm_writer_write(w, v[0].iov_base, v[0].iov_len) : fstrm_writer_writev(w, v.data(), s.count);
		mc::steps();
		n.drain();
		CHECK(d == keep, "the payload was modified");
		for (size_t i = 0; i < v.size(); i++) CHECK(v[i].iov_base == vkeep[i].iov_base && v[i].iov_len == vkeep[i].iov_len, "the caller's iovecs were modified");
		CHECK((r == fstrm_res_success) == (n.faults == f), "writev returned %d with %d faults", r, n.faults - f);
		if (r == fstrm_res_success) CHECK(n.got == want, "writev succeeded but the peer received %zu bytes instead of %zu (differs at %zu)", n.got.size(), want.size(), (size_t)(std::mismatch(n.got.begin(), n.got.end(), want.begin(), want.end()).first - n.got.begin()));
		else prefix("writev");
		mc::state(mc::hash(n.got, n.calls));
		if (s.count > 20) n.deviate_writes = false;
		bool ok = r == fstrm_res_success;
		size_t got = n.got.size();
		f = n.faults;
		want += frame("last");
		r = fstrm_writer_write(w, "last", 4);
		mc::steps();
		n.drain();
		CHECK((r == fstrm_res_success) == (ok && n.faults == f), "write returned %d", r);
		if (ok) prefix("write");
		else CHECK(n.got.size() == got, "something was written after a failed write");
		if (r != fstrm_res_success) { if (ok) got = n.got.size(); ok = false; }
		else CHECK(n.got == want, "write: the peer received other bytes");
		want += ctl(STOP);
		f = n.faults;
		r = fstrm_writer_close(w);
		mc::steps();
		CHECK((r == fstrm_res_success) == (ok && n.faults == f) || (n.close_intr && r != fstrm_res_success), "close returned %d with %d faults", r, n.faults - f);
		if (!ok) CHECK(n.got.size() == got, "something was written after a failed write");
		else prefix("close");
		if (r == fstrm_res_success) CHECK(n.got == want, "close: the peer received other bytes");
		CHECK(n.fd < 0, "the socket is left open after close");
		mc::state(mc::hash(n.got, n.calls));
		mc::outcome(r == fstrm_res_success ? "complete" : ok ? "close failed" : "write failed");
	} else {
		// it can be tried again
		n.deviate_writes = n.deviate_reads = n.deviate_setup = n.may_close = false;
		n.write_chunk = n.read_chunk = 0;
		n.got.clear();
		n.broken = n.eof = false;
		r = fstrm_writer_write(w, "again", 5);
		mc::steps();
		n.drain();
		want += frame("again");
		CHECK(r == fstrm_res_success && n.got == want, "a second attempt returned %d", r);
		mc::outcome("open failed");
	}
	n.deviate_writes = n.deviate_reads = n.deviate_setup = n.may_close = false;
	fstrm_writer_destroy(&w);
	CHECK(n.fd < 0 && n.sockets == n.closes, "%d sockets but %d closes", n.sockets, n.closes);
	CHECK(!sigpipes, "SIGPIPE was raised");
	if (n.peer >= 0) close(n.peer);
	CHECK(env::live_blocks() == 0, "%zu blocks are not released", env::live_blocks());
	net = nullptr;
}
static void refuse() // peers that answer something else, at every byte
{
	Net n;
	net = &n;
	n.tcp = mc::choose(2, "tcp");
	B good = ctl(ACCEPT, ct);
	auto bad = bad_frames(ACCEPT);
	int k = mc::choose(2, "kind");
	if (k == 0) { n.reply = good.substr(0, mc::choose(good.size(), "cut")); }
	else n.reply = bad[mc::choose(bad.size(), "bad")];
	n.read_chunk = mc::choose(3, "chunk");
	struct fstrm_writer *w = make(n, ct, 0);
	fstrm_res r = fstrm_writer_open(w);
	mc::steps();
	CHECK(r != fstrm_res_success, "open succeeded");
	n.drain();
	CHECK(n.got == ctl(READY, ct), "the peer received %s", hex(n.got, 40).c_str());
	CHECK(n.fd < 0, "the socket is left open");
	mc::state(mc::hash(n.reply, n.calls));
	n.reply = good + ctl(FINISH);
	n.got.clear();
	CHECK(fstrm_writer_write(w, "again", 5) == fstrm_res_success && fstrm_writer_close(w) == fstrm_res_success, "a second attempt");
	CHECK(n.got == ctl(READY, ct) + ctl(START, ct) + frame("again") + ctl(STOP), "a second attempt: the peer received %s", hex(n.got, 80).c_str());
	fstrm_writer_destroy(&w);
	CHECK(n.sockets == n.closes && n.fd < 0, "%d sockets but %d closes", n.sockets, n.closes);
	if (n.peer >= 0) close(n.peer);
	CHECK(env::live_blocks() == 0, "%zu blocks are not released", env::live_blocks());
	net = nullptr;
}
// Two writers, each on its own connection. At every system call of one of them (as if by another thread) the other may
// take its next step; what is accepted of each write is chosen, too.
static void independent(bool tcp0, bool tcp1, int chunk)
{
	Net n[2];
	struct fstrm_writer *w[2];
	B want[2];
	int pc[2] = {0, 0};
	bool busy[2] = {false, false};
	const L cts[2] = {{"ab"}, {"other", "cd"}};
	std::vector<B> d[2];
	for (int i = 0; i < 2; i++) {
		n[i].tcp = i ? tcp1 : tcp0;
		n[i].write_chunk = chunk ? chunk + i : 0;
		n[i].read_chunk = chunk;
		n[i].reply = ctl(ACCEPT, L{"x", i ? "cd" : "ab"}) + ctl(FINISH);
		w[i] = make(n[i], cts[i], i);
		for (int k = 0; k < 5; k++) d[i].push_back(data(3 + k + 10 * i, 100 * i + k));
	}
	auto step = [&](int i) {
		Net *saved = net;
		net = &n[i];
		busy[i] = true;
		std::vector<iovec> v;
		fstrm_res r = fstrm_res_success;
		switch (pc[i]) {
		case 0: want[i] = ctl(READY, cts[i]) + ctl(START, L{i ? "cd" : "ab"}); r = fstrm_writer_open(w[i]); break;
		case 1: for (auto &x : d[i]) { v.push_back({(void *)x.data(), x.size()}); want[i] += frame(x); } r = fstrm_writer_writev(w[i], v.data(), v.size()); break;
		case 2: want[i] += frame("single"); r = fstrm_writer_write(w[i], "single", 6); break;
		case 3: want[i] += ctl(STOP); r = fstrm_writer_close(w[i]); break;
		case 4: fstrm_writer_destroy(&w[i]); break;
		}
		n[i].drain();
		CHECK(r == fstrm_res_success, "writer %d, step %d returned %d", i, pc[i], r);
		CHECK(n[i].got == want[i], "writer %d, step %d: the peer received %s instead of %s", i, pc[i], hex(n[i].got, 60).c_str(), hex(want[i], 60).c_str());
		mc::steps();
		busy[i] = false;
		pc[i]++;
		net = saved;
	};
	meanwhile = [&] {
		int o = net == &n[0] ? 1 : 0, e = errno;
		if (busy[o] || pc[o] > 4 || !mc::deviate(2, "meanwhile")) return;
		mc::note("meanwhile writer %d takes step %d", o, pc[o]);
		step(o);
		mc::state(mc::hash(n[o].got, n[1 - o].calls * 8 + pc[o]));
		errno = e;
	};
	while (pc[0] < 5 || pc[1] < 5) {
		int i = pc[0] > 4 ? 1 : pc[1] > 4 ? 0 : pc[1] < pc[0];
		if (pc[0] < 5 && pc[1] < 5 && mc::deviate(2, "turn")) i = !i;
		step(i);
	}
	meanwhile = nullptr;
	for (int i = 0; i < 2; i++) {
		CHECK(n[i].fd < 0 && n[i].sockets == 1 && n[i].closes == 1, "writer %d: %d sockets but %d closes", i, n[i].sockets, n[i].closes);
		if (n[i].peer >= 0) close(n[i].peer);
	}
	CHECK(env::live_blocks() == 0, "%zu blocks are not released", env::live_blocks());
	net = nullptr;
	mc::outcome("complete");
}
static void on_sigpipe(int) { sigpipes++; }
void mc_setup()
{
	bool th = mc::thorough();
	mc::config.before = [] {
		env::forget_allocations();
		meanwhile = nullptr;
		if (net) { if (net->fd > 0) close(net->fd); if (net->peer >= 0) close(net->peer); net = nullptr; }
	};
	signal(SIGPIPE, on_sigpipe);
	auto &h = env::h;
	h.socket = k_socket; h.connect = k_connect; h.close = k_close; h.sendmsg = k_sendmsg; h.send = k_send; h.write = k_write;
	h.read = k_read; h.recv = k_recv; h.poll = k_poll;
	mc::config.note = "one execution = open, writev, write, close, destroy of a unix or TCP writer over a socket pair, with chosen lengths of send and receive calls, interruptions, errors, end of file, disconnects and failures of socket/connect/close; states = distinct (bytes received by the peer, calls made)";
	mc::config.assumptions = {"sendmsg/read semantics as in POSIX; sockets are blocking"};
	for (int tcp = 0; tcp < 2; tcp++) {
		B t = tcp ? "tcp " : "unix ";
		// one short write or error anywhere
		std::vector<std::pair<int, int>> one = {{1, 0}, {2, 1}, {5, 1}, {20, 2}, {127, 0}, {128, 1}, {129, 0}, {129, 2}, {256, 0}, {257, 1}, {300, 1}, {385, 0}, {130, 4}};
		for (auto &o : one) mc::scenario(t + "one short write, batch " + std::to_string(o.first) + " pattern " + std::to_string(o.second), [=] { run({(bool)tcp, o.first, o.second, 0, 0, true, false, false, false, 0}, 0); }, 1);
		// two of them
		std::vector<std::pair<int, int>> two = {{1, 1}, {2, 0}, {4, 1}, {8, 3}, {7, 2}, {8, 4}};
		if (th) { two.push_back({130, 0}); two.push_back({60, 1}); }
		for (auto &o : two) mc::scenario(t + "two short writes, batch " + std::to_string(o.first) + " pattern " + std::to_string(o.second), [=] { run({(bool)tcp, o.first, o.second, 0, 0, true, false, false, false, 0}, 0); }, 2);
		for (int b : {1, 2, 10, 31}) mc::scenario(t + "one short write of large frames, " + std::to_string(b), [=] { run({(bool)tcp, b, 5, 0, 0, true, false, false, false, 1}, 0); }, 1);
		mc::scenario(t + "two short writes of large frames", [=] { run({(bool)tcp, th ? 4 : 2, 5, 0, 0, true, false, false, false, 1}, 0); }, 2);
		mc::scenario(t + "three short writes", [=] { run({(bool)tcp, 2, 1, 0, 0, true, false, false, false, 1}, 0); }, 3);
		mc::scenario(t + "short writes in the handshake", [=] { run({(bool)tcp, 0, 0, 0, 0, true, false, false, false, 0}, 0); }, 1);
		mc::scenario(t + "short writes in the handshake, two", [=] { run({(bool)tcp, 0, 0, 0, 0, true, false, false, false, 1}, 0); }, 2);
		// fixed chunks with one deviation
		mc::scenario(t + "chunks", [=] { static const int c[] = {1, 2, 3, 4, 5, 7, 8, 9, 64, 100, 255, 256, 257}; static const int b[] = {1, 3, 128, 129, 260}; int ch = c[mc::choose(13, "chunk")]; run({(bool)tcp, b[mc::choose(5, "batch")], mc::choose(3, "pattern"), ch, mc::choose(4, "rchunk"), false, false, false, false, 0}, mc::choose(4, "address")); });
		for (int ch = 1; ch < 8; ch++) mc::scenario(t + "chunks of " + std::to_string(ch) + " with a deviation", [=] { run({(bool)tcp, 6, 1, ch, 1, true, false, false, false, 0}, 0); }, 1);
		mc::scenario(t + "reads", [=] { run({(bool)tcp, 1, 0, 0, mc::choose(4, "chunk"), false, true, false, false, 0}, 0); }, 2);
		mc::scenario(t + "setup", [=] { run({(bool)tcp, 2, 0, 0, 0, false, false, true, false, 0}, mc::choose(4, "address")); }, 3);
		mc::scenario(t + "peer closes", [=] { run({(bool)tcp, 6, 1, mc::choose(5, "chunk"), 0, false, false, false, true, 0}, 0); }, 1);
		mc::scenario(t + "descriptor 0", [=] { run({(bool)tcp, 3, 1, 0, 0, true, true, true, true, 0, true}, 0); }, th ? 2 : 1);
		mc::scenario(t + "everything", [=] { run({(bool)tcp, 3, 1, 0, 0, true, true, true, true, 0}, 0); }, 2);
	}
	for (int k = 0; k < 4; k++)
		for (int ch : {0, 5, 33}) mc::scenario(B("two writers: ") + (k & 1 ? "tcp " : "unix ") + (k & 2 ? "tcp " : "unix ") + std::to_string(ch), [=] { independent(k & 1, k & 2, ch); }, th ? 3 : 2);
	fill_addresses();
	mc::scenario("unix names", [] { run({false, 1, 0, 0, 0, false, false, false, false, 0}, 4 + mc::choose(names.size(), "name")); });
	for (size_t lo = 0; lo < addresses.size(); lo += 8000) {
		size_t k = std::min((size_t)8000, addresses.size() - lo);
		mc::scenario("tcp addresses from " + std::to_string(lo), [=] { run({true, 1, 0, 0, 0, false, false, false, false, 0}, 4 + lo + mc::choose(k, "address")); });
	}
	mc::scenario("refusing peers", refuse);
}
