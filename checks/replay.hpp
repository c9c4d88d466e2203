// Shared by C25 and C28: the connection of fstrm_replay, replaced at the socket calls.
#pragma once
#include "stream.hpp"
#include "transport.hpp"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/stat.h>
#include <sys/un.h>

// The connection: what the peer says and how much of each call is done.
struct Net {
	int fd = -1, sockets = 0, closes = 0, faults = 0, calls = 0;
	B got, reply;
	size_t said = 0;
	long drop = -1;        // the peer is gone after this many bytes
	int wchunk = 0, rchunk = 0;
	bool deviate_writes = false, deviate_reads = false, deviate_setup = false, broken = false;
	sockaddr_storage want{};
	socklen_t want_len = 0;
} net;
static void called() { if (++net.calls > 400000) mc::fail("it makes no progress"); }
static int k_socket(int dom, int type, int)
{
	called();
	CHECK(dom == net.want.ss_family && (type & 0xf) == SOCK_STREAM, "a socket of family %d, type %d", dom, type);
	if (net.deviate_setup && mc::deviate(2, "socket")) { net.faults++; errno = EMFILE; return -1; }
	CHECK(net.fd < 0, "a second connection while one is open");
	net.sockets++;
	return net.fd = open("/dev/null", O_RDWR | O_CLOEXEC);
}
static int k_connect(int fd, const struct sockaddr *a, socklen_t l)
{
	called();
	CHECK(fd == net.fd, "connect on descriptor %d", fd);
	CHECK(a->sa_family == net.want.ss_family, "connect to family %d", a->sa_family);
	if (a->sa_family == AF_UNIX) CHECK(l > offsetof(sockaddr_un, sun_path) && l <= sizeof(sockaddr_un) && !strncmp(((sockaddr_un *)a)->sun_path, ((sockaddr_un *)&net.want)->sun_path, l - offsetof(sockaddr_un, sun_path)), "connect to another path");
	else CHECK(l == net.want_len && !memcmp(a, &net.want, l), "connect to another address");
	if (net.deviate_setup) if (int d = mc::deviate(3, "connect")) { net.faults++; errno = d == 1 ? ECONNREFUSED : ENOENT; return -1; }
	return 0;
}
static int k_close(int fd)
{
	called();
	struct stat st;
	if (fd >= 0 && fd != net.fd && !fstat(fd, &st) && (S_ISREG(st.st_mode) || S_ISDIR(st.st_mode))) return close(fd); // not the connection's business
	CHECK(fd >= 0 && fd == net.fd, "close of descriptor %d, not the open connection", fd);
	close(fd);
	net.fd = -1;
	net.closes++;
	if (net.deviate_setup && mc::deviate(2, "close")) { net.faults++; errno = EIO; return -1; }
	return 0;
}
static ssize_t k_sendmsg(int fd, const struct msghdr *m, int flags)
{
	called();
	CHECK(fd == net.fd, "sendmsg on descriptor %d", fd);
	if (m->msg_iovlen > 1024) { errno = EMSGSIZE; return -1; }
	size_t total = 0;
	for (size_t i = 0; i < m->msg_iovlen; i++) total += m->msg_iov[i].iov_len;
	size_t n = total;
	if (net.wchunk && n > (size_t)net.wchunk) n = net.wchunk;
	if (net.deviate_writes && total) {
		size_t shorts = std::min(total, (size_t)2000);
		int k = mc::deviate(shorts + 2, "send"); // 1..shorts-1 that many; then an interruption, an error
		if (k >= (int)shorts) {
			if (k == (int)shorts) { errno = EINTR; return -1; }
			net.broken = true;
		} else if (k) n = k;
	}
	if (net.drop >= 0 && (long)(net.got.size() + n) > net.drop) {
		n = net.drop - net.got.size();
		if (!n && total) net.broken = true;
	}
	if (net.broken) {
		net.faults++;
		CHECK(flags & MSG_NOSIGNAL, "the program is killed by SIGPIPE");
		errno = EPIPE;
		return -1;
	}
	for (size_t i = 0, left = n; i < m->msg_iovlen && left; i++) {
		size_t k = std::min(left, m->msg_iov[i].iov_len);
		net.got.append((char *)m->msg_iov[i].iov_base, k);
		left -= k;
	}
	return n;
}
static ssize_t k_send(int fd, const void *p, size_t n, int f)
{
	struct iovec v = {(void *)p, n};
	struct msghdr m{};
	m.msg_iov = &v;
	m.msg_iovlen = 1;
	return k_sendmsg(fd, &m, f);
}
static ssize_t k_write(int fd, const void *p, size_t n) { return k_send(fd, p, n, 0); }
static ssize_t k_recv(int fd, void *p, size_t n, int)
{
	called();
	CHECK(fd == net.fd, "read from descriptor %d", fd);
	n = std::min(n, net.reply.size() - net.said);
	if (net.rchunk && n > (size_t)net.rchunk) n = net.rchunk;
	if (net.deviate_reads && n) {
		int k = mc::deviate(n + 2, "recv");
		if (k == (int)n) { errno = EINTR; return -1; }
		if (k == (int)n + 1) { net.faults++; errno = ECONNRESET; return -1; }
		if (k) n = k;
	}
	memcpy(p, net.reply.data() + net.said, n);
	net.said += n;
	return n;
}
static ssize_t k_read(int fd, void *p, size_t n) { return k_recv(fd, p, n, 0); }
static int k_poll(struct pollfd *p, unsigned long n, int)
{
	called();
	for (size_t i = 0; i < n; i++) p[i].revents = p[i].events & (POLLIN | POLLOUT);
	return n;
}
static const B T = "ty";
static void reset()
{
	if (net.fd >= 0) close(net.fd);
	net = Net();
	reset_device();
	env::h = env::Hooks();
	auto &h = env::h;
	h.fopen = h_fopen;
	h.socket = k_socket; h.connect = k_connect; h.close = k_close; h.sendmsg = k_sendmsg; h.send = k_send; h.write = k_write;
	h.read = k_read; h.recv = k_recv; h.poll = k_poll;
	h.setsockopt = [](int, int, int, const void *, socklen_t) { return 0; };
	h.shutdown = [](int, int) { return 0; };
	h.fcntl = [](int, int, long) { return 0; };
	env::forget_allocations();
	net.reply = ctl(ACCEPT, {T}) + ctl(FINISH);
}
