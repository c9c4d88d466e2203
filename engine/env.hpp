// The environment of the code under test: its libc calls are renamed to vp_* (objcopy) and go through these hooks.
#pragma once
#include <cstdio>
#include <string>
#include <sys/socket.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>

struct pollfd; struct event_base; struct timeval; struct sigaction;
namespace env {
// allocations of the code under test
size_t live_blocks();
size_t live_bytes();
void forget_allocations();
size_t allocations(); // made so far
// hooks; null: the real call
struct Hooks {
	ssize_t (*sendmsg)(int, const struct msghdr *, int) = nullptr;
	ssize_t (*write)(int, const void *, size_t) = nullptr;
	ssize_t (*send)(int, const void *, size_t, int) = nullptr;
	ssize_t (*read)(int, void *, size_t) = nullptr;
	ssize_t (*recv)(int, void *, size_t, int) = nullptr;
	int (*socket)(int, int, int) = nullptr;
	int (*connect)(int, const struct sockaddr *, socklen_t) = nullptr;
	int (*close)(int) = nullptr;
	int (*shutdown)(int, int) = nullptr;
	int (*setsockopt)(int, int, int, const void *, socklen_t) = nullptr;
	int (*fcntl)(int, int, long) = nullptr;
	int (*poll)(struct pollfd *, unsigned long, int) = nullptr;
	FILE *(*fopen)(const char *, const char *) = nullptr;
	FILE *(*fdopen)(int, const char *) = nullptr;
	int (*open)(const char *, int, unsigned) = nullptr;
	size_t (*fread)(void *, size_t, size_t, FILE *) = nullptr;
	size_t (*fwrite)(const void *, size_t, size_t, FILE *) = nullptr;
	int (*fflush)(FILE *) = nullptr;
	int (*fclose)(FILE *) = nullptr;
	int (*ferror)(FILE *) = nullptr;
	time_t (*time)(time_t *) = nullptr;
	int (*clock_gettime)(clockid_t, struct timespec *) = nullptr;
	int (*gettimeofday)(struct timeval *, void *) = nullptr;
	void (*alloc)() = nullptr; // called by every function of malloc's family
	void (*exit)(int) = nullptr;
	int (*event_base_dispatch)(struct event_base *) = nullptr;
	int (*event_base_loop)(struct event_base *, int) = nullptr;
	int (*sigaction)(int, const struct sigaction *, struct sigaction *) = nullptr;
};
extern Hooks h;
}
