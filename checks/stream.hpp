// Files in the Frame Streams format, and a device to read and write them on.
#pragma once
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "prog.hpp"
#include "ref.hpp"
#include <algorithm>
#include <cerrno>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace ref;

static inline B slurp(const B &p)
{
	B s;
	int fd = open(p.c_str(), O_RDONLY);
	if (fd < 0) return "";
	char b[65536];
	ssize_t n;
	while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n);
	close(fd);
	return s;
}
static inline void spit(const B &p, const B &s)
{
	int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t)s.size()) abort();
	close(fd);
}
// ---- what a file means ----
struct Meaning {
	enum { GOOD, MALFORMED, OPEN_ENDED } kind = OPEN_ENDED; // open-ended: cut off, or something whose treatment is not specified
	bool start = false, loose = false;                      // loose: frames after a point may or may not be seen
	L ct;
	std::vector<B> frames;
};
static inline Meaning meaning(const B &s)
{
	Meaning m;
	size_t p = 0;
	bool first = true;
	for (;;) {
		if (s.size() - p < 4) { if (first) m.kind = Meaning::MALFORMED; return m; }
		size_t n = rd32(s, p);
		if (n) {
			if (first || n > 1048576) { m.kind = Meaning::MALFORMED; return m; }
			if (s.size() - p - 4 < n) return m;
			m.frames.push_back(s.substr(p + 4, n));
			p += 4 + n;
			continue;
		}
		if (s.size() - p < 8) { if (first) m.kind = Meaning::MALFORMED; return m; }
		n = rd32(s, p + 4);
		if (n < 4 || n > 512) { m.kind = Meaning::MALFORMED; return m; }
		if (s.size() - p - 8 < n) { if (first) m.kind = Meaning::MALFORMED; return m; }
		uint32_t t;
		L l;
		B pl = s.substr(p + 8, n);
		bool ok = decode(pl, t, l);
		p += 8 + n;
		if (first) {
			if (!ok || t != START) { m.kind = Meaning::MALFORMED; return m; }
			m.start = true;
			m.ct = l;
			first = false;
			continue;
		}
		if (!ok && !known(rd32(pl, 0))) continue; // types to come are skipped
		if (!ok) { m.kind = Meaning::MALFORMED; return m; }
		if (t == STOP) { if (p == s.size() && !m.loose) m.kind = Meaning::GOOD; return m; }
		m.loose = true; // a control frame that has no business here
	}
}
// ---- the device ----
static long wbudget, rbudget;
static bool transient, close_fails, device;
static int faults, opens, open_fail_at, buffering, rchunk;
static std::string no_open; // this file cannot be opened
static bool reading_failed;
struct Dev { int fd; bool w, bad; };
static std::vector<B> failing; // reading these fails instead of reaching their end
static ssize_t c_write(void *c, const char *p, size_t n)
{
	size_t k = n;
	if (wbudget >= 0) {
		if ((long)k > wbudget) { k = wbudget; faults++; wbudget = transient ? -1 : 0; errno = ENOSPC; } else wbudget -= k;
	}
	if (k && write(((Dev *)c)->fd, p, k) != (ssize_t)k) abort();
	return k;
}
static ssize_t c_read(void *c, char *p, size_t n)
{
	if (rchunk && n > (size_t)rchunk) n = rchunk;
	if (rbudget >= 0) {
		if (rbudget == 0) { faults++; reading_failed = true; errno = EIO; return -1; }
		n = std::min((size_t)rbudget, n);
	}
	ssize_t r = read(((Dev *)c)->fd, p, n);
	if (rbudget >= 0 && r > 0) rbudget -= r;
	if (r == 0 && ((Dev *)c)->bad) { reading_failed = true; errno = EIO; return -1; }
	return r;
}
static int c_close(void *c)
{
	Dev *d = (Dev *)c;
	bool w = d->w;
	close(d->fd);
	delete d;
	if (w && close_fails) { faults++; errno = EIO; return -1; }
	return 0;
}
static FILE *h_fopen(const char *p, const char *m)
{
	if (opens++ == open_fail_at || (!no_open.empty() && no_open == p)) { faults++; errno = EMFILE; return nullptr; }
	if (!device) return fopen(p, m);
	bool w = m[0] != 'r';
	int fd = open(p, w ? O_WRONLY | O_CREAT | O_TRUNC : O_RDONLY, 0644);
	if (fd < 0) return nullptr;
	cookie_io_functions_t io = {c_read, c_write, nullptr, c_close};
	FILE *f = fopencookie(new Dev{fd, w, std::find(failing.begin(), failing.end(), p) != failing.end()}, m, io);
	if (buffering == 1) setvbuf(f, nullptr, _IONBF, 0);
	if (buffering == 2) setvbuf(f, nullptr, _IOFBF, 16);
	return f;
}
static inline void reset_device()
{
	wbudget = rbudget = -1;
	transient = close_fails = device = reading_failed = false;
	faults = opens = buffering = rchunk = 0;
	open_fail_at = -1;
	no_open.clear();
	failing.clear();
}
