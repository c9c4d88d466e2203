#include "prog.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <stdio_ext.h>
#include <ctime>
#include <poll.h>
#include <signal.h>
#include <cstring>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <fcntl.h>

extern "C" int vp_main(int, char **);
extern "C" void __asan_unpoison_memory_region(void const volatile *, size_t);
extern "C" void __sanitizer_start_switch_fiber(void **, const void *, size_t);
extern "C" void __sanitizer_finish_switch_fiber(void *, const void **, size_t *);
extern "C" char __start_vp_data[] __attribute__((weak)), __stop_vp_data[] __attribute__((weak));
extern "C" char __start_vp_bss[] __attribute__((weak)), __stop_vp_bss[] __attribute__((weak));
extern "C" void prog_switch(void **save, void *to);
asm(".text\n.globl prog_switch\n.type prog_switch,@function\nprog_switch:\n"
    "push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
    "mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
    "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n.size prog_switch,.-prog_switch\n");

namespace prog {
int code;
bool called_exit, quiet = true;
FILE *out, *in;
std::string errors;
unsigned polls;
int top = 96;
static uint64_t elapsed; // ms
int (*poll_hook)(int, void *, int, int);
static bool active, inside;
enum { STACK = 2 << 20 };
static char *stack;
static void *prog_sp, *main_sp, *fake_main, *fake_prog;
static const void *main_bottom;
static size_t main_size;
static std::vector<std::string> args;
static std::vector<char *> argv;
static Why why;

// not memcpy: red zones are part of it
__attribute__((optimize("no-tree-loop-distribute-patterns"))) static void copy(char *d, const char *s, size_t n)
{
	for (size_t i = 0; i < n; i++) ((volatile char *)d)[i] = s[i];
}
static void globals()
{
	static char *save;
	size_t a = __stop_vp_data - __start_vp_data, b = __stop_vp_bss - __start_vp_bss;
	if (!save) {
		save = (char *)mmap(nullptr, a + b + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		copy(save, __start_vp_data, a);
		copy(save + a, __start_vp_bss, b);
		return;
	}
	copy(__start_vp_data, save, a);
	copy(__start_vp_bss, save + a, b);
}
static void to_main(Why w)
{
	why = w;
	inside = false;
	int e = errno;
	if (w == ENDED) active = false;
	__sanitizer_start_switch_fiber(w == ENDED ? nullptr : &fake_prog, main_bottom, main_size);
	prog_switch(&prog_sp, main_sp);
	__sanitizer_finish_switch_fiber(fake_prog, &main_bottom, &main_size);
	inside = true;
	errno = e;
}
static void entry()
{
	__sanitizer_finish_switch_fiber(nullptr, &main_bottom, &main_size);
	code = vp_main(args.size(), argv.data());
	to_main(ENDED);
	abort();
}
// The signal mask and what is pending end with the program.
static void signals()
{
	sigset_t now, p, first;
	sigemptyset(&first);
	sigprocmask(SIG_SETMASK, nullptr, &now);
	if (!memcmp(&now, &first, 8)) return;
	sigpending(&p);
	for (int s = 1; s < 32; s++) if (sigismember(&p, s) == 1) {
		struct sigaction ign, old;
		memset(&ign, 0, sizeof ign);
		ign.sa_handler = SIG_IGN;
		sigaction(s, &ign, &old);
		sigaction(s, &old, nullptr);
	}
	sigprocmask(SIG_SETMASK, &first, nullptr);
}
static Why to_prog()
{
	int e = errno;
	inside = true;
	__sanitizer_start_switch_fiber(&fake_main, stack, STACK);
	prog_switch(&main_sp, prog_sp);
	__sanitizer_finish_switch_fiber(fake_main, nullptr, nullptr);
	if (why == ENDED) signals();
	errno = e;
	return why;
}
static void do_exit(int c)
{
	if (!inside) _exit(97);
	fflush(nullptr);
	code = c;
	called_exit = true;
	to_main(ENDED);
}
Why start(const Args &a)
{
	if (!stack) {
		char *m = (char *)mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		mprotect(m, 4096, PROT_NONE);
		stack = m + 4096;
	}
	globals();
	__asan_unpoison_memory_region(stack, STACK);
	args = a;
	argv.clear();
	for (auto &s : args) argv.push_back(&s[0]);
	argv.push_back(nullptr);
	env::h.exit = do_exit;
	code = -1;
	called_exit = false;
	active = true;
	polls = 0;
	elapsed = 0;
	errors.clear();
	uint64_t *sp = (uint64_t *)(stack + STACK);
	*--sp = 0;
	*--sp = (uint64_t)entry;
	for (int i = 0; i < 6; i++) *--sp = 0;
	prog_sp = sp;
	return to_prog();
}
Why resume() { return active ? to_prog() : ENDED; }
bool running() { return active; }
unsigned fds()
{
	std::vector<struct pollfd> p(top);
	for (int i = 0; i < top; i++) p[i] = {i, 0, 0};
	poll(p.data(), top, 0);
	unsigned n = 0;
	for (int i = 3; i < top; i++) if (!(p[i].revents & POLLNVAL)) n++;
	return n;
}
void cleanup(unsigned from)
{
	for (int i = from; i < top; i++) close(i);
}
static FILE *map(FILE *f)
{
	if (f == stdout && out) return out;
	if (f == stdin && in) return in;
	return f;
}
static int err_v(const char *f, va_list a)
{
	if (mc::replaying() || !quiet) {
		char b[8192];
		int n = vsnprintf(b, sizeof b, f, a);
		if (mc::replaying()) dprintf(2, "    | %s%s", b, n && b[n - 1] == '\n' ? "" : "\n");
		if (!quiet) errors += b;
		return n;
	}
	// Strings are still read in full.
	static char b[70000];
	return vsnprintf(b, sizeof b, f, a);
}
static int err_s(const char *s, size_t n)
{
	if (mc::replaying()) dprintf(2, "    | %.*s\n", (int)n, s);
	if (!quiet) errors.append(s, n);
	return n;
}
}
using namespace prog;
extern "C" {
// nothing is flushed
void vp__exit(int c) { if (!inside) _exit(97); code = c; called_exit = true; __fpurge(map(stdout)); to_main(ENDED); abort(); }
void vp__Exit(int c) { vp__exit(c); }
int vp_vfprintf(FILE *f, const char *m, va_list a) { return f == stderr ? err_v(m, a) : vfprintf(map(f), m, a); }
int vp_fprintf(FILE *f, const char *m, ...)
{
	va_list a;
	va_start(a, m);
	int r = vp_vfprintf(f, m, a);
	va_end(a);
	return r;
}
int vp_printf(const char *m, ...)
{
	va_list a;
	va_start(a, m);
	int r = vfprintf(map(stdout), m, a);
	va_end(a);
	return r;
}
int vp_vprintf(const char *m, va_list a) { return vfprintf(map(stdout), m, a); }
int vp_fputs(const char *s, FILE *f) { return f == stderr ? err_s(s, strlen(s)) : fputs(s, map(f)); }
int vp_puts(const char *s) { return fputs(s, map(stdout)) < 0 ? EOF : fputc('\n', map(stdout)); }
int vp_fputc(int c, FILE *f) { char b = c; return f == stderr ? (err_s(&b, 1), c) : fputc(c, map(f)); }
int vp_putc(int c, FILE *f) { return vp_fputc(c, f); }
int vp_fputc_unlocked(int c, FILE *f) { return vp_fputc(c, f); }
int vp_putc_unlocked(int c, FILE *f) { return vp_fputc(c, f); }
int vp_putchar(int c) { return fputc(c, map(stdout)); }
int vp_putchar_unlocked(int c) { return fputc(c, map(stdout)); }
void vp_perror(const char *s) { vp_fprintf(stderr, "%s: %s\n", s, strerror(errno)); }
int vp_ferror(FILE *f) { return ferror(map(f)); }
int vp_ferror_unlocked(FILE *f) { return ferror(map(f)); }
int vp_feof(FILE *f) { return feof(map(f)); }
int vp_feof_unlocked(FILE *f) { return feof(map(f)); }
void vp_clearerr(FILE *f) { clearerr(map(f)); }
int vp_setvbuf(FILE *f, char *b, int m, size_t n) { return f == stdout || f == stderr || f == stdin ? 0 : setvbuf(f, b, m, n); }
int vp_fileno(FILE *f) { return fileno(map(f)); }
size_t vp_fread(void *p, size_t a, size_t b, FILE *f) { f = map(f); return env::h.fread ? env::h.fread(p, a, b, f) : fread(p, a, b, f); }
size_t vp_fread_unlocked(void *p, size_t a, size_t b, FILE *f) { return vp_fread(p, a, b, f); }
size_t vp_fwrite(const void *p, size_t a, size_t b, FILE *f)
{
	if (f == stderr) { err_s((const char *)p, a * b); return b; }
	f = map(f);
	return env::h.fwrite ? env::h.fwrite(p, a, b, f) : fwrite(p, a, b, f);
}
size_t vp_fwrite_unlocked(const void *p, size_t a, size_t b, FILE *f) { return vp_fwrite(p, a, b, f); }
int vp_fflush(FILE *f) { f = map(f); return env::h.fflush ? env::h.fflush(f) : fflush(f); }
int vp_fflush_unlocked(FILE *f) { return vp_fflush(f); }
int vp_fclose(FILE *f) { f = map(f); return env::h.fclose ? env::h.fclose(f) : fclose(f); }

// libevent's. Its clock moves only when it waits for a time to come.
int clock_gettime(clockid_t c, struct timespec *t) throw()
{
	if (!inside || !poll_hook) return syscall(SYS_clock_gettime, c, t);
	t->tv_sec = 5000 + elapsed / 1000;
	t->tv_nsec = elapsed % 1000 * 1000000;
	return 0;
}
int epoll_wait(int ep, struct epoll_event *ev, int max, int timeout)
{
	if (!inside || !poll_hook) return syscall(SYS_epoll_wait, ep, ev, max, timeout);
	for (;;) {
		polls++;
		int n = syscall(SYS_epoll_wait, ep, ev, max, 0);
		int r = poll_hook(ep, ev, n < 0 ? 0 : n, timeout);
		if (r == 0 && timeout > 0) elapsed += timeout;
		if (r >= 0) return r;
		if (r == -2) { errno = EINTR; return -1; }
		to_main(IDLE);
	}
}
}
