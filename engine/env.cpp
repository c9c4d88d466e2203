#include <sys/stat.h>
#include "env.hpp"
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_map>

namespace env {
Hooks h;
static std::unordered_map<void *, size_t> *blocks;
static size_t bytes, count;
static void add(void *p, size_t n)
{
	if (!p) return;
	if (!blocks) blocks = new std::unordered_map<void *, size_t>();
	(*blocks)[p] = n;
	bytes += n;
	count++;
}
static void del(void *p)
{
	if (!p || !blocks) return;
	auto i = blocks->find(p);
	if (i == blocks->end()) return;
	bytes -= i->second;
	blocks->erase(i);
}
size_t live_blocks() { return blocks ? blocks->size() : 0; }
size_t live_bytes() { return bytes; }
size_t allocations() { return count; }
void forget_allocations() { if (blocks) blocks->clear(); bytes = 0; }
}
using env::h;
using env::add;
using env::del;
static void alloc() { if (h.alloc) h.alloc(); }
extern "C" {
void *vp_malloc(size_t n) { alloc(); void *p = malloc(n); add(p, n); return p; }
void *vp_calloc(size_t a, size_t b) { alloc(); void *p = calloc(a, b); add(p, a * b); return p; }
void *vp_realloc(void *o, size_t n) { alloc(); void *p = realloc(o, n); if (p || n == 0) { del(o); add(p, n); } return p; }
void *vp_reallocarray(void *o, size_t a, size_t b) { return vp_realloc(o, a * b); }
void *vp_aligned_alloc(size_t a, size_t n) { alloc(); void *p = aligned_alloc(a, n); add(p, n); return p; }
int vp_posix_memalign(void **p, size_t a, size_t n) { alloc(); int r = posix_memalign(p, a, n); if (!r) add(*p, n); return r; }
void vp_free(void *p) { alloc(); del(p); free(p); }
char *vp_strdup(const char *s) { alloc(); char *p = strdup(s); add(p, strlen(s) + 1); return p; }
char *vp_strndup(const char *s, size_t n) { alloc(); char *p = strndup(s, n); add(p, strlen(p) + 1); return p; }

ssize_t vp_sendmsg(int fd, const struct msghdr *m, int f) { return h.sendmsg ? h.sendmsg(fd, m, f) : sendmsg(fd, m, f); }
ssize_t vp_write(int fd, const void *p, size_t n) { return h.write ? h.write(fd, p, n) : write(fd, p, n); }
ssize_t vp_writev(int fd, const struct iovec *v, int n)
{
	if (!h.sendmsg) return writev(fd, v, n);
	struct msghdr m;
	memset(&m, 0, sizeof m);
	m.msg_iov = const_cast<struct iovec *>(v);
	m.msg_iovlen = n;
	return h.sendmsg(fd, &m, 0);
}
ssize_t vp_send(int fd, const void *p, size_t n, int f) { return h.send ? h.send(fd, p, n, f) : send(fd, p, n, f); }
ssize_t vp_sendto(int fd, const void *p, size_t n, int f, const struct sockaddr *a, socklen_t l)
{
	if (h.send && !a) return h.send(fd, p, n, f);
	return sendto(fd, p, n, f, a, l);
}
ssize_t vp_read(int fd, void *p, size_t n) { return h.read ? h.read(fd, p, n) : read(fd, p, n); }
ssize_t vp_recv(int fd, void *p, size_t n, int f) { return h.recv ? h.recv(fd, p, n, f) : recv(fd, p, n, f); }
int vp_socket(int a, int b, int c) { return h.socket ? h.socket(a, b, c) : socket(a, b, c); }
int vp_connect(int fd, const struct sockaddr *a, socklen_t l) { return h.connect ? h.connect(fd, a, l) : connect(fd, a, l); }
int vp_close(int fd) { return h.close ? h.close(fd) : close(fd); }
int vp_shutdown(int fd, int how) { return h.shutdown ? h.shutdown(fd, how) : shutdown(fd, how); }
int vp_setsockopt(int fd, int l, int n, const void *v, socklen_t s) { return h.setsockopt ? h.setsockopt(fd, l, n, v, s) : setsockopt(fd, l, n, v, s); }
int vp_fcntl(int fd, int cmd, ...)
{
	va_list ap;
	va_start(ap, cmd);
	long a = va_arg(ap, long);
	va_end(ap);
	return h.fcntl ? h.fcntl(fd, cmd, a) : fcntl(fd, cmd, a);
}
int vp_fcntl64(int fd, int cmd, ...)
{
	va_list ap;
	va_start(ap, cmd);
	long a = va_arg(ap, long);
	va_end(ap);
	return vp_fcntl(fd, cmd, a);
}
int vp_poll(struct pollfd *p, unsigned long n, int t) { return h.poll ? h.poll(p, n, t) : poll(p, n, t); }
FILE *vp_fopen(const char *p, const char *m) { return h.fopen ? h.fopen(p, m) : fopen(p, m); }
FILE *vp_fopen64(const char *p, const char *m) { return vp_fopen(p, m); }
FILE *vp_fdopen(int fd, const char *m)
{
	if (h.fdopen) return h.fdopen(fd, m);
	struct stat st;
	if (h.fopen && !h.open && fd > 2 && !fstat(fd, &st) && (S_ISREG(st.st_mode) || S_ISDIR(st.st_mode))) { // a file that was opened in two steps
		char l[64], p[4096];
		snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
		ssize_t n = readlink(l, p, sizeof p - 1);
		if (n > 0) {
			p[n] = 0;
			FILE *f = h.fopen(p, m);
			if (f) close(fd);
			return f;
		}
	}
	return fdopen(fd, m);
}
int vp_open(const char *p, int f, ...)
{
	va_list ap;
	va_start(ap, f);
	unsigned m = va_arg(ap, unsigned);
	va_end(ap);
	return h.open ? h.open(p, f, m) : open(p, f, m);
}
int vp_open64(const char *p, int f, ...)
{
	va_list ap;
	va_start(ap, f);
	unsigned m = va_arg(ap, unsigned);
	va_end(ap);
	return vp_open(p, f, m);
}
int vp_openat(int d, const char *p, int f, ...)
{
	va_list ap;
	va_start(ap, f);
	unsigned m = va_arg(ap, unsigned);
	va_end(ap);
	return h.open && (d == AT_FDCWD || *p == '/') ? h.open(p, f, m) : openat(d, p, f, m);
}
int vp_openat64(int d, const char *p, int f, ...)
{
	va_list ap;
	va_start(ap, f);
	unsigned m = va_arg(ap, unsigned);
	va_end(ap);
	return vp_openat(d, p, f, m);
}
int vp_creat(const char *p, unsigned m) { return vp_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
// reading what there is into the first buffer that is not empty: a short read
ssize_t vp_readv(int fd, const struct iovec *v, int n)
{
	if (!h.read) return readv(fd, v, n);
	while (n > 1 && !v->iov_len) v++, n--;
	return h.read(fd, n ? v->iov_base : nullptr, n ? v->iov_len : 0);
}
ssize_t vp_recvmsg(int fd, struct msghdr *m, int f)
{
	if (!h.recv) return recvmsg(fd, m, f);
	struct iovec *v = m->msg_iov;
	size_t n = m->msg_iovlen;
	while (n > 1 && !v->iov_len) v++, n--;
	m->msg_flags = 0;
	m->msg_controllen = 0;
	return h.recv(fd, n ? v->iov_base : nullptr, n ? v->iov_len : 0, f);
}
ssize_t vp_recvfrom(int fd, void *p, size_t n, int f, struct sockaddr *a, socklen_t *l) { return h.recv && !a ? h.recv(fd, p, n, f) : recvfrom(fd, p, n, f, a, l); }
int vp_ppoll(struct pollfd *p, unsigned long n, const struct timespec *t, const sigset_t *s)
{
	return h.poll ? h.poll(p, n, t ? t->tv_sec * 1000 + t->tv_nsec / 1000000 : -1) : ppoll(p, n, t, s);
}
__attribute__((weak)) size_t vp_fread(void *p, size_t a, size_t b, FILE *f) { return h.fread ? h.fread(p, a, b, f) : fread(p, a, b, f); }
__attribute__((weak)) size_t vp_fread_unlocked(void *p, size_t a, size_t b, FILE *f) { return vp_fread(p, a, b, f); }
__attribute__((weak)) size_t vp_fwrite(const void *p, size_t a, size_t b, FILE *f) { return h.fwrite ? h.fwrite(p, a, b, f) : fwrite(p, a, b, f); }
__attribute__((weak)) size_t vp_fwrite_unlocked(const void *p, size_t a, size_t b, FILE *f) { return vp_fwrite(p, a, b, f); }
__attribute__((weak)) int vp_fflush(FILE *f) { return h.fflush ? h.fflush(f) : fflush(f); }
__attribute__((weak)) int vp_fflush_unlocked(FILE *f) { return vp_fflush(f); }
__attribute__((weak)) int vp_fclose(FILE *f) { return h.fclose ? h.fclose(f) : fclose(f); }
time_t vp_time(time_t *t) { return h.time ? h.time(t) : time(t); }
int vp_clock_gettime(clockid_t c, struct timespec *t) { if (h.time && !h.clock_gettime) { t->tv_sec = h.time(nullptr); t->tv_nsec = 0; return 0; } return h.clock_gettime ? h.clock_gettime(c, t) : clock_gettime(c, t); }
int vp_gettimeofday(struct timeval *t, void *z) { if (h.time && !h.gettimeofday) { t->tv_sec = h.time(nullptr); t->tv_usec = 0; return 0; } return h.gettimeofday ? h.gettimeofday(t, z) : gettimeofday(t, (struct timezone *)z); }
void vp_exit(int c) { if (h.exit) h.exit(c); exit(c); }
}
