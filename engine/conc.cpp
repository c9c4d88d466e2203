#include "conc.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <vector>

extern "C" char __start_vp_data[] __attribute__((weak)), __stop_vp_data[] __attribute__((weak));
extern "C" char __start_vp_bss[] __attribute__((weak)), __stop_vp_bss[] __attribute__((weak));

namespace conc {
Options opt;
enum { MAXPATH = 8192, STACK = 128 << 10, ARENA = 32 << 20, MAXBLOCKS = 1 << 18 };
enum State { UNUSED, READY, WAIT_MUTEX, WAIT_COND, WAIT_JOIN, WAIT_PRED, DONE };
struct Fiber {
	State st;
	void *sp;
	void (*fn)(void *);
	void *(*pfn)(void *);
	void *arg, *ret;
	void *obj;              // mutex waited for
	void *cond;
	int target;             // join
	bool (*pred)(void *);
	void *parg;
	long deadline;          // -1: none
	bool timed_out, detached, in_cond, wall; // wall: the deadline is one of the wall clock
	int err;
	int seq;                // order in which condition waiters arrived
	const char *what;
	struct { uint64_t pc; const char *last; unsigned n; } copy[2]; // of the reads and writes: the one that goes through memory piece by piece
};
static Fiber F[MAXF];
static int nf, cur = -1, last_run, seq;
static long vnow, wall_offset;
static int timeouts_left, spurious_left;
static uint64_t steps_, since_hash;
static char *stacks, *arenas;
static unsigned char *shadow; // one byte per arena byte: 0 never used, 1 live, 2 freed
struct Block { uint32_t off, size; bool live; };
static Block blocks[MAXF][MAXBLOCKS];
static int nblocks[MAXF];
static uint32_t bump[MAXF], hiwater[MAXF];
static size_t live_n, live_b;
struct Region { void *p; size_t n; };
static std::vector<Region> monitors;
static std::vector<char> data0, bss0;
static void *sched_sp;
static bool inited, running;
// requests of a fiber to the scheduler
static int req_n, req_result;
static const char *req_label;

// ---- races ----
struct Gran { uint32_t epoch; uint32_t wclk; uint64_t wpc; uint8_t wf, has_w; uint8_t has_r; uint32_t rclk[MAXF]; uint64_t rpc[MAXF]; };
static Gran *gran; // one per 4 bytes of arena and globals
static uint32_t epoch;
static uint32_t vc[MAXF][MAXF];
struct SyncVC { void *p; uint32_t v[MAXF]; };
enum { MAXSYNC = 1 << 17, SYNCHASH = 1 << 18 };
static SyncVC syncs[MAXSYNC];
static uint32_t sync_slot[SYNCHASH]; // index into syncs + 1; 0 free
static int nsyncs;
enum { MAXRACY = 1024 };
struct Racy { std::atomic<int> n, frozen; std::atomic<uint64_t> pc[MAXRACY]; };
static Racy *racy;
static bool found_new;
static uint64_t racy_set[4096];
static int racy_loaded = -1;
static bool is_racy(uint64_t pc)
{
	int n = racy->frozen;
	if (n != racy_loaded) {
		memset(racy_set, 0, sizeof racy_set);
		for (int i = 0; i < n; i++) {
			uint64_t v = racy->pc[i], k = (v * 0x9e3779b97f4a7c15ULL) >> 52;
			while (racy_set[k] && racy_set[k] != v) k = (k + 1) & 4095;
			racy_set[k] = v;
		}
		racy_loaded = n;
	}
	for (uint64_t k = (pc * 0x9e3779b97f4a7c15ULL) >> 52; racy_set[k]; k = (k + 1) & 4095) if (racy_set[k] == pc) return true;
	return false;
}
enum : uint64_t { TRYLOCK = 1 }; // in the same set: some thread uses trylock
static void add_racy(uint64_t pc)
{
	if (mc::replaying()) return;
	for (int i = 0, n = racy->frozen; i < n; i++) if (racy->pc[i] == pc) return;
	found_new = true;
	for (int i = racy->frozen, n = std::min<int>(racy->n, MAXRACY); i < n; i++) if (racy->pc[i] == pc) return;
	int i = racy->n++; // workers may add the same one twice: harmless
	if (i >= MAXRACY) { fprintf(stderr, "too many racing accesses\n"); abort(); }
	racy->pc[i] = pc;
}
static uint32_t *sync_slot_of(void *p)
{
	uint32_t k = ((uintptr_t)p * 0x9e3779b97f4a7c15ULL) >> 46;
	while (sync_slot[k] && syncs[sync_slot[k] - 1].p != p) k = (k + 1) & (SYNCHASH - 1);
	return &sync_slot[k];
}
static uint32_t *sync_vc(void *p)
{
	uint32_t *slot = sync_slot_of(p);
	if (!*slot) {
		if (nsyncs >= MAXSYNC) { fprintf(stderr, "too many synchronisation objects\n"); abort(); }
		syncs[nsyncs].p = p;
		memset(syncs[nsyncs].v, 0, sizeof syncs[nsyncs].v);
		*slot = ++nsyncs;
	}
	return syncs[*slot - 1].v;
}
static void reset_syncs()
{
	while (nsyncs) { // the latest first, so that no search is cut off
		*sync_slot_of(syncs[nsyncs - 1].p) = 0;
		nsyncs--;
	}
}
static void vjoin(uint32_t *a, const uint32_t *b) { for (int i = 0; i < MAXF; i++) if (b[i] > a[i]) a[i] = b[i]; }
static void acquire(void *p) { if (cur >= 0) vjoin(vc[cur], sync_vc(p)); }
static void release(void *p) { if (cur >= 0) { vjoin(sync_vc(p), vc[cur]); vc[cur][cur]++; } }

static inline size_t globals_size() { return (__stop_vp_data - __start_vp_data) + (__stop_vp_bss - __start_vp_bss); }
static long gran_index(const void *p)
{
	const char *c = (const char *)p;
	if (c >= arenas && c < arenas + (size_t)MAXF * ARENA) return (c - arenas) / 4;
	if (c >= __start_vp_data && c < __stop_vp_data) return (long)MAXF * ARENA / 4 + (c - __start_vp_data) / 4;
	if (c >= __start_vp_bss && c < __stop_vp_bss) return (long)MAXF * ARENA / 4 + (__stop_vp_data - __start_vp_data) / 4 + 1 + (c - __start_vp_bss) / 4;
	return -1;
}
static int others_alive()
{
	int n = 0;
	for (int i = 0; i < nf; i++) if (i != cur && F[i].st != DONE && F[i].st != UNUSED) n++;
	return n;
}
extern "C" void conc_switch(void **from, void *to);
asm(".text\n.globl conc_switch\n.type conc_switch,@function\nconc_switch:\n"
    "push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
    "mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
    "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n.size conc_switch,.-conc_switch\n");

static bool copying;
static void to_scheduler()
{
	if (!copying) F[cur].copy[0].pc = F[cur].copy[1].pc = 0;
	copying = false;
	int e = errno;
	F[cur].err = e;
	conc_switch(&F[cur].sp, sched_sp);
	errno = F[cur].err;
}
static void check_live(const void *p, size_t n, bool write)
{
	const char *c = (const char *)p;
	if (c < arenas || c >= arenas + (size_t)MAXF * ARENA || n == 0) return;
	size_t o = c - arenas;
	for (size_t i = 0; i < n; i += 1)
		if (shadow[o + i] != 1) mc::fail("%s %zu bytes at offset %zu of memory that is %s", write ? "write of" : "read of", n, i, shadow[o + i] == 2 ? "freed" : "not allocated (out of bounds)");
}
static void race(const void *p, size_t n, bool write, uint64_t pc)
{
	if (n == 0) return;
	long a = gran_index(p), b = gran_index((const char *)p + n - 1);
	if (a < 0 || b < a) return;
	for (long i = a; i <= b; i++) {
		Gran &g = gran[i];
		if (g.epoch != epoch) { memset(&g, 0, sizeof g); g.epoch = epoch; }
		if (g.has_w && g.wf != cur && g.wclk > vc[cur][g.wf]) { add_racy(g.wpc); add_racy(pc); }
		if (write && (g.has_r & ~(1 << cur)))
			for (int f = 0; f < nf; f++)
				if (f != cur && (g.has_r >> f & 1) && g.rclk[f] > vc[cur][f]) { add_racy(g.rpc[f]); add_racy(pc); }
		if (write) { g.has_w = 1; g.wf = cur; g.wclk = vc[cur][cur]; g.wpc = pc; }
		else { g.has_r |= 1 << cur; g.rclk[cur] = vc[cur][cur]; g.rpc[cur] = pc; }
	}
}
static void access(const void *p, size_t n, bool write, void *ra)
{
	if (cur < 0) return;
	if (gran_index(p) < 0) return;
	check_live(p, n, write);
	if (!opt.accesses || !others_alive()) return;
	uint64_t pc = (uint64_t)ra;
	if (is_racy(pc)) {
		// A loop that copies piece by piece is treated as a call of memcpy: in two parts.
		auto &c = F[cur].copy[write];
		bool goes_on = c.pc == pc && ((const char *)p == c.last + n || (const char *)p == c.last - n);
		if (!goes_on) {
			if (F[cur].copy[!write].n) F[cur].copy[!write].pc = 0;
			c.pc = pc;
			c.n = 0;
		} else c.n++;
		c.last = (const char *)p;
		if (c.n < 2) {
			copying = true;
			yield(write ? "write" : "read");
		}
		check_live(p, n, write);
	}
	race(p, n, write, pc);
}

// ---- memory ----
static void *arena_alloc(size_t n, bool zero, size_t align = 16)
{
	int f = cur < 0 ? 0 : cur;
	size_t k = (n + 15) & ~(size_t)15;
	if (n > ARENA || bump[f] + k + 48 + align > ARENA || nblocks[f] >= MAXBLOCKS) { fprintf(stderr, "arena exhausted (%zu bytes)\n", n); mc::fail("excessive allocation: %zu bytes after %zu live", n, live_b); }
	bump[f] += 32; // red zone
	if (align > 16) bump[f] = (bump[f] + align - 1) / align * align;
	Block &b = blocks[f][nblocks[f]++];
	b.off = bump[f];
	b.size = n;
	b.live = true;
	bump[f] += k;
	if (bump[f] > hiwater[f]) hiwater[f] = bump[f];
	char *p = arenas + (size_t)f * ARENA + b.off;
	memset(p, zero ? 0 : 0xa5, n);
	memset(shadow + (size_t)f * ARENA + b.off, 1, n);
	live_n++;
	live_b += n;
	return p;
}
static Block *find(const void *p, int *fp)
{
	const char *c = (const char *)p;
	if (c < arenas || c >= arenas + (size_t)MAXF * ARENA) return nullptr;
	int f = (c - arenas) / ARENA;
	uint32_t o = (c - arenas) % ARENA;
	*fp = f;
	Block *b = std::lower_bound(blocks[f], blocks[f] + nblocks[f], o, [](const Block &x, uint32_t v) { return x.off < v; });
	return b < blocks[f] + nblocks[f] && b->off == o ? b : nullptr;
}
static void arena_free(void *p, void *ra)
{
	if (!p) return;
	int f;
	Block *b = find(p, &f);
	if (!b) mc::fail("free of something that was not allocated");
	if (!b->live) mc::fail("memory is freed twice");
	if (cur >= 0 && opt.accesses && others_alive()) {
		if (is_racy((uint64_t)ra)) yield("free");
		race(p, b->size, true, (uint64_t)ra);
	}
	b->live = false;
	live_n--;
	live_b -= b->size;
	memset(p, 0, b->size);
	memset(shadow + (size_t)f * ARENA + b->off, 2, b->size);
}
void *alloc(size_t n) { return arena_alloc(n, true); }
void dealloc(void *p) { arena_free(p, (void *)dealloc); }
__attribute__((noinline)) void scrub(void *p, size_t n) { memset(p, 0, n); asm volatile("" ::: "memory"); }
void readable(const void *p, size_t n) { check_live(p, n, false); }
size_t live_blocks() { return live_n; }
size_t live_bytes() { return live_b; }
bool is_live(const void *p) { const char *c = (const char *)p; return c >= arenas && c < arenas + (size_t)MAXF * ARENA && shadow[c - arenas] == 1; }
int self() { return cur; }
long now() { return vnow; }
uint64_t step() { return steps_; }
bool alive(int f) { return f < nf && F[f].st != DONE && F[f].st != UNUSED; }

// ---- fibers ----
static void finish(void *ret)
{
	F[cur].ret = ret;
	F[cur].st = DONE;
	vc[cur][cur]++;
	conc_switch(&F[cur].sp, sched_sp);
	abort();
}
static void trampoline()
{
	Fiber &f = F[cur];
	void *r = nullptr;
	if (f.pfn) r = f.pfn(f.arg);
	else f.fn(f.arg);
	finish(r);
}
static int new_fiber(void (*fn)(void *), void *(*pfn)(void *), void *arg)
{
	if (nf >= MAXF) mc::fail("more than %d threads", MAXF);
	int i = nf++;
	Fiber &f = F[i];
	memset(&f, 0, sizeof f);
	f.st = READY;
	f.fn = fn;
	f.pfn = pfn;
	f.arg = arg;
	f.deadline = -1;
	f.what = "start";
	char *top = stacks + (size_t)(i + 1) * (STACK + 4096) - 64;
	void **s = (void **)((uintptr_t)top & ~15ul);
	*--s = nullptr;
	*--s = (void *)trampoline; // return address of the switch: rsp is then 8 mod 16, as after a call
	for (int k = 0; k < 6; k++) *--s = nullptr;
	f.sp = s;
	memset(vc[i], 0, sizeof vc[i]);
	if (cur >= 0) { vjoin(vc[i], vc[cur]); vc[cur][cur]++; }
	vc[i][i] = 1;
	return i;
}
void yield(const char *what)
{
	if (cur < 0) return;
	F[cur].st = READY;
	F[cur].what = what;
	to_scheduler();
}
int spawn(void (*f)(void *), void *arg) { return new_fiber(f, nullptr, arg); }
void join(int t)
{
	F[cur].st = WAIT_JOIN;
	F[cur].target = t;
	F[cur].what = "join";
	to_scheduler();
	vjoin(vc[cur], vc[t]);
}
bool wait_until(bool (*pred)(void *), void *arg, long deadline, const char *what)
{
	Fiber &f = F[cur];
	f.st = WAIT_PRED;
	f.pred = pred;
	f.parg = arg;
	f.deadline = deadline;
	f.timed_out = false;
	f.what = what;
	to_scheduler();
	f.deadline = -1;
	f.pred = nullptr;
	f.parg = nullptr;
	return !f.timed_out;
}
void set_clock(long delta)
{
	wall_offset += delta;
	for (int i = 0; i < nf; i++) if (F[i].wall && F[i].deadline >= 0) F[i].deadline = std::max(vnow, F[i].deadline - delta);
	mc::note("   the wall clock is set %ld s %s", labs(delta), delta < 0 ? "back" : "forward");
}
void wait(bool (*pred)(void *), void *arg, const char *what) { wait_until(pred, arg, -1, what); }
static bool never(void *) { return false; }
void sleep(long s)
{
	if (s <= 0) { yield("sleep"); return; }
	wait_until(never, nullptr, vnow + s, "sleep");
}
int choose(int n, const char *label)
{
	if (n <= 1) return 0;
	if (cur < 0) return mc::choose(n, label);
	req_n = n;
	req_label = label;
	to_scheduler();
	return req_result;
}

// ---- synchronisation objects: their state is kept in the objects themselves ----
struct Mx { int owner; int magic; };        // owner: fiber + 1; a zero-filled mutex is a valid unlocked one
struct Cv { int clock; int magic; };
enum { MX_DEAD = 0x6d64, CV_LIVE = 0x6376, CV_DEAD = 0x6364 };
static bool mutex_free(void *m) { return ((Mx *)m)->owner == 0; }
static void obj(const void *p, size_t n, const char *what)
{
	const char *c = (const char *)p;
	if (c >= arenas && c < arenas + (size_t)MAXF * ARENA)
		for (size_t i = 0; i < n; i++) if (shadow[c - arenas + i] != 1) mc::fail("%s in memory that is %s", what, shadow[c - arenas + i] == 2 ? "freed" : "not allocated");
}
static void lock(Mx *m)
{
	obj(m, sizeof *m, "lock of a mutex");
	if (m->magic == MX_DEAD) mc::fail("lock of a destroyed mutex");
	if (cur < 0) return;
	Fiber &f = F[cur];
	f.st = WAIT_MUTEX;
	f.obj = m;
	f.timed_out = false;
	f.what = "lock";
	to_scheduler();
	f.obj = nullptr;
	m->owner = cur + 1;
	acquire(m);
}
static void unlock(Mx *m)
{
	obj(m, sizeof *m, "unlock of a mutex");
	if (cur < 0) return;
	if (m->owner != cur + 1) mc::fail("unlock of a mutex that the thread does not hold");
	if (is_racy(TRYLOCK)) yield("unlock"); // that it is held can be seen
	release(m);
	m->owner = 0;
}
static bool mono(int c) { return c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_MONOTONIC_RAW || c == CLOCK_BOOTTIME; }
static long to_deadline(int clock, const struct timespec *ts)
{
	long base = mono(clock) ? conc::opt.uptime : 1700000000L + wall_offset;
	if (ts->tv_nsec < 0 || ts->tv_nsec > 999999999) return -2;
	long d = ts->tv_sec - base + (ts->tv_nsec > conc::opt.nsec);
	return d < 0 ? 0 : d;
}
static int cond_wait(Cv *c, Mx *m, long deadline, bool wall = false)
{
	obj(c, sizeof *c, "wait on a condition variable");
	if (c->magic == CV_DEAD) mc::fail("wait on a destroyed condition variable");
	if (cur < 0) mc::fail("a wait that can never end");
	Fiber &f = F[cur];
	if (m->owner != cur + 1) mc::fail("condition wait without holding the mutex");
	f.deadline = deadline;
	f.wall = wall;
	// giving up the mutex and going to sleep is one step, but not one with what came before
	yield("cond_wait");
	release(m);
	m->owner = 0;
	f.st = WAIT_COND;
	f.cond = c;
	f.obj = m;
	f.timed_out = false;
	f.seq = ++seq;
	f.what = "cond_wait";
	to_scheduler();
	// awake and holding the mutex again
	f.cond = f.obj = nullptr;
	f.deadline = -1;
	f.wall = false;
	m->owner = cur + 1;
	acquire(m);
	return f.timed_out ? ETIMEDOUT : 0;
}
static void wake(int i, bool timeout)
{
	Fiber &f = F[i];
	f.timed_out = timeout;
	f.deadline = -1;
	f.cond = nullptr;
	f.seq = 0;
	f.st = WAIT_MUTEX;
	f.what = timeout ? "timed out" : "woken";
}
static void signal(Cv *c, bool all)
{
	obj(c, sizeof *c, "signal of a condition variable");
	if (c->magic == CV_DEAD) mc::fail("signal of a destroyed condition variable");
	if (cur < 0) return;
	yield("signal");
	int w[MAXF], n = 0;
	for (int i = 0; i < nf; i++) if (F[i].st == WAIT_COND && F[i].cond == c) w[n++] = i;
	if (!n) return;
	if (all) { for (int i = 0; i < n; i++) wake(w[i], false); return; }
	wake(w[choose(n, "wake")], false);
}
// ---- the scheduler ----
static bool enabled(int i)
{
	Fiber &f = F[i];
	switch (f.st) {
	case READY: return true;
	case WAIT_MUTEX: return mutex_free(f.obj);
	case WAIT_JOIN: return F[f.target].st == DONE;
	case WAIT_PRED: return f.timed_out || f.pred(f.parg);
	default: return false;
	}
}
static uint64_t hash_state()
{
	uint64_t h = 0x1234;
	h = mc::mix(h, nf);
	for (int i = 0; i < nf; i++) {
		Fiber &f = F[i];
		h = mc::mix(h, f.st);
		if (f.st == DONE) continue;
		h = mc::mix(h, (uint64_t)f.obj);
		h = mc::mix(h, (uint64_t)f.cond);
		h = mc::mix(h, f.target * 4 + f.timed_out * 2 + f.detached);
		if (f.wall) h = mc::mix(h, 1);
		h = mc::mix(h, (uint64_t)f.pred ^ (uint64_t)f.parg);
		h = mc::mix(h, f.deadline < 0 ? -1 : f.deadline - vnow);
		h = mc::mix(h, f.err);
		char *top = stacks + (size_t)(i + 1) * (STACK + 4096);
		h = mc::hash(f.sp, top - (char *)f.sp, h);
	}
	h = mc::mix(h, vnow);
	h = mc::mix(h, wall_offset);
	h = mc::mix(h, timeouts_left);
	h = mc::mix(h, spurious_left);
	for (int f = 0; f < MAXF; f++) {
		h = mc::mix(h, bump[f]);
		for (int i = 0; i < nblocks[f]; i++) {
			Block &b = blocks[f][i];
			if (b.live) h = mc::hash(arenas + (size_t)f * ARENA + b.off, b.size, mc::mix(h, (uint64_t)b.off << 32 | b.size));
		}
	}
	h = mc::hash(__start_vp_data, __stop_vp_data - __start_vp_data, h);
	h = mc::hash(__start_vp_bss, __stop_vp_bss - __start_vp_bss, h);
	for (auto &m : monitors) h = mc::hash(m.p, m.n, h);
	if (opt.bounded) h = mc::mix(h, mc::deviations_left() * MAXF + last_run);
	return mc::mix(h, mc::scenario_id());
}
struct PathState { uint64_t h; unsigned ran, en; };
static std::vector<PathState> path;
static void init()
{
	inited = true;
	stacks = (char *)mmap((void *)0x200000000000, (size_t)MAXF * (STACK + 4096), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
	arenas = (char *)mmap((void *)0x210000000000, (size_t)MAXF * ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
	shadow = (unsigned char *)mmap(nullptr, (size_t)MAXF * ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	gran = (Gran *)mmap(nullptr, ((size_t)MAXF * ARENA / 4 + globals_size() / 4 + 16) * sizeof(Gran), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (stacks == MAP_FAILED || arenas == MAP_FAILED || shadow == MAP_FAILED || gran == MAP_FAILED) { perror("mmap"); abort(); }
	for (int i = 0; i < MAXF; i++) mprotect(stacks + (size_t)i * (STACK + 4096), 4096, PROT_NONE);
	data0.assign(__start_vp_data, __stop_vp_data);
	bss0.assign(__start_vp_bss, __stop_vp_bss);
}
struct Early {
	Early()
	{
		racy = (Racy *)mmap(nullptr, sizeof(Racy), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		init();
	}
} early;
}
std::string mc::save_text()
{
	std::string s = "racy:";
	for (int i = 0; i < conc::racy->frozen; i++) s += " " + std::to_string((uint64_t)conc::racy->pc[i]);
	return s + "\n";
}
void mc::load_text(const std::string &t)
{
	size_t p = t.find("\nracy:");
	if (p == std::string::npos) return;
	const char *q = t.c_str() + p + 6;
	unsigned long a;
	int k;
	while (sscanf(q, " %lu%n", &a, &k) == 1) { conc::racy->pc[conc::racy->n] = a; conc::racy->n++; q += k; }
	conc::racy->frozen = conc::racy->n.load();
}
void mc::freeze() { conc::racy->frozen = std::min<int>(conc::racy->n, conc::MAXRACY); }
namespace conc {
void monitor(void *p, size_t n) { monitors.push_back({p, n}); }
static void reset()
{
	for (int f = 0; f < MAXF; f++) {
		if (hiwater[f]) { memset(arenas + (size_t)f * ARENA, 0, hiwater[f]); memset(shadow + (size_t)f * ARENA, 0, hiwater[f]); }
		nblocks[f] = bump[f] = hiwater[f] = 0;
	}
	for (int i = 0; i < nf; i++) {
		// what was used of its stack
		char *top = stacks + (size_t)(i + 1) * (STACK + 4096);
		memset(top - 24576, 0, 24576);
	}
	live_n = live_b = 0;
	memcpy(__start_vp_data, data0.data(), data0.size());
	memcpy(__start_vp_bss, bss0.data(), bss0.size());
	for (auto &m : monitors) memset(m.p, 0, m.n);
	memset(F, 0, sizeof F);
	nf = 0;
	cur = -1;
	last_run = 0;
	seq = 0;
	vnow = wall_offset = 0;
	steps_ = since_hash = 0;
	timeouts_left = opt.timeouts;
	spurious_left = opt.spurious;
	epoch++;
	reset_syncs();
	req_n = 0;
	found_new = false;
	path.clear();
	errno = 0;
}
static std::string blocked()
{
	std::string s;
	for (int i = 0; i < nf; i++) {
		static const char *n[] = {"unused", "ready", "waiting for a mutex", "waiting on a condition variable", "joining", "waiting", "ended"};
		if (F[i].st != DONE) s += " thread " + std::to_string(i) + ": " + n[F[i].st] + " (" + (F[i].what ? F[i].what : "") + ")";
	}
	return s;
}
static std::string blocked();
// At a state in which something is about to be chosen: leaves the execution if it was there before.
static void arrive(unsigned en, bool choice, uint64_t extra)
{
	since_hash = 0;
	bool fresh = mc::fresh();
	uint64_t h;
	// the states of the part of the path that is repeated are known
	static uint64_t known[MAXPATH];
	static unsigned nknown, known_serial;
	if (known_serial != mc::serial()) { known_serial = mc::serial(); nknown = 0; }
	unsigned pos = mc::position();
	if (!mc::replaying() && !fresh && pos < nknown && known[pos]) h = known[pos];
	else h = mc::mix(hash_state(), extra);
	if (choice && pos < MAXPATH) {
		if (fresh) nknown = std::min(nknown, pos);
		while (nknown < pos) known[nknown++] = 0;
		known[pos] = h;
		if (nknown < pos + 1) nknown = pos + 1;
	}
	if (!mc::replaying() && (!fresh || !mc::visited(h))) { path.push_back({h, 0, en}); return; }
	// a cycle on this very path in which every thread that could run did: it never ends
	for (size_t k = path.size(); k-- > 0;)
		if (path[k].h == h) {
			unsigned ran = 0, always = ~0u;
			for (size_t j = k; j < path.size(); j++) { ran |= path[j].ran; always &= path[j].en; }
			if (!(always & ~ran)) mc::fail("livelock: the same state recurs although every thread that can run runs:%s", blocked().c_str());
			break;
		}
	if (mc::replaying()) { path.push_back({h, 0, en}); return; }
	running = false;
	if (found_new) mc::restart();
	mc::prune();
}
static void resume(int i)
{
	cur = i;
	last_run = i;
	F[i].timed_out = F[i].st == WAIT_PRED || F[i].st == WAIT_MUTEX ? F[i].timed_out : false;
	F[i].st = READY;
	for (;;) {
		conc_switch(&sched_sp, F[i].sp);
		if (!req_n) break;
		int n = req_n;
		req_n = 0;
		// what is below the stack pointer is dead
		memset((char *)F[i].sp - 2048, 0, 2048);
		int e = cur;
		cur = -1;
		arrive(1u << i, true, i + 1);
		path.back().ran |= 1u << i;
		req_result = mc::choose(n, req_label);
		cur = e;
	}
	memset((char *)F[i].sp - 8192, 0, 8192);
	cur = -1;
}
void prepare() { reset(); }
void run(void (*body)(void *), void *arg)
{
	// monitors set up before run() keep their values: reset() was called by prepare() or is called here
	new_fiber(body, nullptr, arg);
	running = true;
	for (;;) {
		steps_++;
		mc::steps();
		int opts[MAXF * 3 + 2], n = 0;
		unsigned en = 0;
		bool all_done = true;
		int pref = -1;
		for (int i = 0; i < nf; i++) {
			if (F[i].st != DONE) all_done = false;
			if (enabled(i)) { en |= 1u << i; if (i == last_run) pref = i; }
		}
		if (all_done) break;
		if (opt.bounded && pref >= 0) opts[n++] = pref;
		for (int i = 0; i < nf; i++) if ((en >> i & 1) && !(opt.bounded && i == pref)) opts[n++] = i;
		long first = -1;
		for (int i = 0; i < nf; i++) if ((F[i].st == WAIT_COND || F[i].st == WAIT_PRED) && F[i].deadline >= 0 && !(en >> i & 1) && (first < 0 || F[i].deadline < first)) first = F[i].deadline;
		bool forced_time = false;
		if (first >= 0 && (n == 0 || timeouts_left > 0)) { opts[n++] = 100; forced_time = n == 1; }
		if (spurious_left > 0)
			for (int i = 0; i < nf; i++) if (F[i].st == WAIT_COND) opts[n++] = 200 + i;
		if (n == 0) mc::fail("deadlock:%s", blocked().c_str());
		if (steps_ > (uint64_t)opt.max_steps) mc::fail("no end after %d steps:%s", opt.max_steps, blocked().c_str());
		if (first >= 0) en |= 1u << 31;
		bool fixed = n == 1 || opt.single || (opt.bounded && pref >= 0 && mc::deviations_left() <= 0);
		if (!fixed || (!opt.single && ++since_hash > 30 && mc::fresh())) arrive(en, !fixed, 0);
		int k;
		if (fixed) k = 0;
		else if (opt.bounded && pref >= 0) k = mc::deviate(n, "switch");
		else k = mc::choose(n, "thread");
		int o = opts[k];
		if (o == 100) {
			if (!forced_time) timeouts_left--;
			vnow = first > vnow ? first : vnow;
			mc::note("-- time is %ld", vnow);
			for (int i = 0; i < nf; i++) {
				if (F[i].deadline < 0 || F[i].deadline > vnow) continue;
				if (F[i].st == WAIT_COND) wake(i, true);
				else if (F[i].st == WAIT_PRED) F[i].timed_out = true;
			}
			if (!path.empty()) path.back().ran |= 1u << 31;
			continue;
		}
		if (o >= 200) { spurious_left--; wake(o - 200, false); mc::note("-- spurious wake-up of thread %d", o - 200); continue; }
		if (mc::replaying()) mc::note("-- thread %d: %s", o, F[o].what);
		if (!path.empty()) path.back().ran |= 1u << o;
		resume(o);
	}
	running = false;
	if (found_new) mc::restart();
}
}
using namespace conc;
#define RA __builtin_return_address(0)
extern "C" {
// ---- memory functions of the code under test ----
void *vp_malloc(size_t n) { return arena_alloc(n, false); }
void *vp_calloc(size_t a, size_t b) { return arena_alloc(a * b, true); }
void vp_free(void *p) { arena_free(p, RA); }
void *vp_realloc(void *o, size_t n)
{
	if (!o) return arena_alloc(n, false);
	int f;
	Block *b = find(o, &f);
	if (!b || !b->live) mc::fail("realloc of memory that is not allocated");
	size_t k = b->size < n ? b->size : n;
	void *p = arena_alloc(n, false);
	memcpy(p, o, k);
	arena_free(o, RA);
	return p;
}
void *vp_reallocarray(void *o, size_t a, size_t b) { return vp_realloc(o, a * b); }
char *vp_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)arena_alloc(n, false); memcpy(p, s, n); return p; }
char *vp_strndup(const char *s, size_t n) { n = strnlen(s, n); char *p = (char *)arena_alloc(n + 1, false); memcpy(p, s, n); p[n] = 0; return p; }
void *vp_aligned_alloc(size_t a, size_t n) { return arena_alloc(n, false, a); }
int vp_posix_memalign(void **p, size_t a, size_t n) { *p = arena_alloc(n, false, a); return 0; }
// Copies are not atomic: one that races is done in two parts with a chance to switch in between.
static void *copy(void *d, const void *s, size_t n, void *ra)
{
	if (cur >= 0 && n) {
		check_live(s, n, false);
		check_live(d, n, true);
		bool rs = gran_index(s) >= 0, rd = gran_index(d) >= 0;
		if ((rs || rd) && opt.accesses && others_alive()) {
			bool rc = is_racy((uint64_t)ra);
			if (rc) { yield("copy"); check_live(s, n, false); check_live(d, n, true); }
			if (rs) race(s, n, false, (uint64_t)ra);
			if (rd) race(d, n, true, (uint64_t)ra);
			if (rc && n > 1) {
				char *t = (char *)d;
				size_t h = n > 8 ? (n / 2 + 7) / 8 * 8 : n / 2;
				if (h >= n) h = n / 2;
				memmove(t, s, h);
				yield("copy, second half");
				check_live(s, n, false);
				check_live(d, n, true);
				memmove(t + h, (const char *)s + h, n - h);
				return d;
			}
		}
	}
	return memmove(d, s, n);
}
void *vp_memcpy(void *d, const void *s, size_t n) { return copy(d, s, n, RA); }
void *vp_memmove(void *d, const void *s, size_t n) { return copy(d, s, n, RA); }
void *vp_memset(void *d, int c, size_t n) { access(d, n, true, RA); return memset(d, c, n); }
int vp_memcmp(const void *a, const void *b, size_t n) { access(a, n, false, RA); access(b, n, false, RA); return memcmp(a, b, n); }
// ---- instrumentation ----
#define ACC(n) \
	void __tsanw_read##n(void *p) { access(p, n, false, RA); } \
	void __tsanw_write##n(void *p) { access(p, n, true, RA); } \
	void __tsanw_unaligned_read##n(void *p) { access(p, n, false, RA); } \
	void __tsanw_unaligned_write##n(void *p) { access(p, n, true, RA); } \
	void __tsanw_volatile_read##n(void *p) { access(p, n, false, RA); } \
	void __tsanw_volatile_write##n(void *p) { access(p, n, true, RA); } \
	void __tsanw_unaligned_volatile_read##n(void *p) { access(p, n, false, RA); } \
	void __tsanw_unaligned_volatile_write##n(void *p) { access(p, n, true, RA); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsanw_read_range(void *p, size_t n) { access(p, n, false, RA); }
void __tsanw_write_range(void *p, size_t n) { access(p, n, true, RA); }
void __tsanw_init() {}
void __tsanw_func_entry(void *) {}
void __tsanw_func_exit() {}
void __tsanw_vptr_update(void *, void *) {}
void __tsanw_vptr_read(void *) {}
// atomics: always visible, always synchronising
static void at(const void *p, size_t n)
{
	if (cur < 0) return;
	if (gran_index(p) >= 0) check_live(p, n, true);
	if (others_alive()) yield("atomic");
	if (gran_index(p) >= 0) check_live(p, n, true);
	acquire((void *)p);
	release((void *)p);
}
#define ATOM(bits, T) \
	T __tsanw_atomic##bits##_load(const volatile T *p, int) { at((void *)p, sizeof(T)); return *p; } \
	void __tsanw_atomic##bits##_store(volatile T *p, T v, int) { at((void *)p, sizeof(T)); *p = v; } \
	T __tsanw_atomic##bits##_exchange(volatile T *p, T v, int) { at((void *)p, sizeof(T)); T o = *p; *p = v; return o; } \
	T __tsanw_atomic##bits##_fetch_add(volatile T *p, T v, int) { at((void *)p, sizeof(T)); T o = *p; *p = o + v; return o; } \
	T __tsanw_atomic##bits##_fetch_sub(volatile T *p, T v, int) { at((void *)p, sizeof(T)); T o = *p; *p = o - v; return o; } \
	T __tsanw_atomic##bits##_fetch_and(volatile T *p, T v, int) { at((void *)p, sizeof(T)); T o = *p; *p = o & v; return o; } \
	T __tsanw_atomic##bits##_fetch_or(volatile T *p, T v, int) { at((void *)p, sizeof(T)); T o = *p; *p = o | v; return o; } \
	T __tsanw_atomic##bits##_fetch_xor(volatile T *p, T v, int) { at((void *)p, sizeof(T)); T o = *p; *p = o ^ v; return o; } \
	T __tsanw_atomic##bits##_fetch_nand(volatile T *p, T v, int) { at((void *)p, sizeof(T)); T o = *p; *p = ~(o & v); return o; } \
	int __tsanw_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { at((void *)p, sizeof(T)); T o = *p; if (o == *e) { *p = v; return 1; } *e = o; return 0; } \
	int __tsanw_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { at((void *)p, sizeof(T)); T o = *p; if (o == *e) { *p = v; return 1; } *e = o; return 0; } \
	T __tsanw_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int, int) { at((void *)p, sizeof(T)); T o = *p; if (o == e) *p = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsanw_atomic_thread_fence(int) {}
void __tsanw_atomic_signal_fence(int) {}
// ---- threads ----
int vp_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg)
{
	int i = new_fiber(nullptr, fn, arg);
	*t = (pthread_t)(i + 1);
	return 0;
}
int vp_pthread_join(pthread_t t, void **r)
{
	int i = (int)t - 1;
	if (i < 0 || i >= nf || F[i].detached) mc::fail("join of something that is not a joinable thread");
	join(i);
	F[i].detached = true;
	if (r) *r = F[i].ret;
	return 0;
}
int vp_pthread_detach(pthread_t t) { F[(int)t - 1].detached = true; return 0; }
pthread_t vp_pthread_self() { return (pthread_t)(cur + 1); }
int vp_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
void vp_pthread_exit(void *r) { finish(r); abort(); }
int vp_pthread_setname_np(pthread_t, const char *) { return 0; }
int vp_pthread_sigmask(int, const sigset_t *, sigset_t *o) { if (o) sigemptyset(o); return 0; }
int vp_sched_yield() { yield("sched_yield"); return 0; }
int vp_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { obj(m, sizeof *m, "a mutex"); memset(m, 0, sizeof *m); return 0; }
int vp_pthread_mutex_destroy(pthread_mutex_t *m)
{
	obj(m, sizeof *m, "destruction of a mutex");
	Mx *x = (Mx *)m;
	if (x->magic == MX_DEAD) mc::fail("a mutex is destroyed twice");
	if (x->owner) mc::fail("a locked mutex is destroyed");
	x->magic = MX_DEAD;
	return 0;
}
int vp_pthread_mutex_lock(pthread_mutex_t *m) { lock((Mx *)m); return 0; }
int vp_pthread_mutex_trylock(pthread_mutex_t *m)
{
	obj(m, sizeof *m, "lock of a mutex");
	if (cur >= 0) add_racy(TRYLOCK);
	yield("trylock");
	Mx *x = (Mx *)m;
	if (x->magic == MX_DEAD) mc::fail("lock of a destroyed mutex");
	if (x->owner) return EBUSY;
	x->owner = cur + 1;
	acquire(m);
	return 0;
}
int vp_pthread_mutex_unlock(pthread_mutex_t *m) { unlock((Mx *)m); return 0; }
struct Attr { int clock; };
int vp_pthread_condattr_init(pthread_condattr_t *a) { ((Attr *)a)->clock = CLOCK_REALTIME; return 0; }
int vp_pthread_condattr_destroy(pthread_condattr_t *) { return 0; }
int vp_pthread_condattr_setclock(pthread_condattr_t *a, clockid_t c) { if (c != CLOCK_REALTIME && c != CLOCK_MONOTONIC) return EINVAL; ((Attr *)a)->clock = c; return 0; }
int vp_pthread_condattr_getclock(const pthread_condattr_t *a, clockid_t *c) { *c = ((Attr *)a)->clock; return 0; }
int vp_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a)
{
	obj(c, sizeof *c, "a condition variable");
	memset(c, 0, sizeof *c);
	((Cv *)c)->magic = CV_LIVE;
	((Cv *)c)->clock = a ? ((Attr *)a)->clock : CLOCK_REALTIME;
	return 0;
}
int vp_pthread_cond_destroy(pthread_cond_t *c)
{
	obj(c, sizeof *c, "destruction of a condition variable");
	if (((Cv *)c)->magic == CV_DEAD) mc::fail("a condition variable is destroyed twice");
	for (int i = 0; i < nf; i++) if (F[i].st == WAIT_COND && F[i].cond == c) mc::fail("a condition variable is destroyed while thread %d waits on it", i);
	((Cv *)c)->magic = CV_DEAD;
	return 0;
}
int vp_pthread_cond_signal(pthread_cond_t *c) { signal((Cv *)c, false); return 0; }
int vp_pthread_cond_broadcast(pthread_cond_t *c) { signal((Cv *)c, true); return 0; }
int vp_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait((Cv *)c, (Mx *)m, -1); }
int vp_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
	int k = ((Cv *)c)->magic == CV_LIVE ? ((Cv *)c)->clock : CLOCK_REALTIME;
	long d = to_deadline(k, ts);
	if (d == -2) return EINVAL;
	return cond_wait((Cv *)c, (Mx *)m, d, !mono(k));
}
int vp_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) { return cond_wait((Cv *)c, (Mx *)m, to_deadline(k, ts), !mono(k)); }
int vp_pthread_once(pthread_once_t *o, void (*fn)()) { if (!*(int *)o) { *(int *)o = 1; fn(); } return 0; }
int vp_pthread_spin_init(pthread_spinlock_t *s, int) { *(int *)s = 0; return 0; }
int vp_pthread_spin_destroy(pthread_spinlock_t *) { return 0; }
static bool spin_free(void *s) { return *(int *)s == 0; }
int vp_pthread_spin_lock(pthread_spinlock_t *s) { wait(spin_free, (void *)s, "spin lock"); *(int *)s = 1; acquire((void *)s); return 0; }
int vp_pthread_spin_unlock(pthread_spinlock_t *s) { release((void *)s); *(int *)s = 0; return 0; }
static bool sem_pos(void *s) { return *(int *)s > 0; }
int vp_sem_init(sem_t *s, int, unsigned v) { memset(s, 0, sizeof *s); *(int *)s = v; return 0; }
int vp_sem_destroy(sem_t *) { return 0; }
int vp_sem_post(sem_t *s) { yield("sem_post"); release(s); ++*(int *)s; return 0; }
int vp_sem_wait(sem_t *s) { wait(sem_pos, s, "sem_wait"); --*(int *)s; acquire(s); return 0; }
int vp_sem_trywait(sem_t *s) { yield("sem_trywait"); if (*(int *)s <= 0) { errno = EAGAIN; return -1; } --*(int *)s; acquire(s); return 0; }
int vp_sem_timedwait(sem_t *s, const struct timespec *ts)
{
	if (!wait_until(sem_pos, s, to_deadline(CLOCK_REALTIME, ts), "sem_timedwait")) { errno = ETIMEDOUT; return -1; }
	--*(int *)s;
	acquire(s);
	return 0;
}
int vp_clock_gettime(clockid_t c, struct timespec *ts)
{
	if (cur >= 0 && others_alive()) yield("clock");
	ts->tv_sec = (mono(c) ? conc::opt.uptime : 1700000000L + wall_offset) + vnow;
	ts->tv_nsec = conc::opt.nsec;
	return 0;
}
int vp_clock_getres(clockid_t, struct timespec *ts) { ts->tv_sec = 0; ts->tv_nsec = 1; return 0; }
time_t vp_time(time_t *t) { time_t v = 1700000000L + wall_offset + vnow; if (t) *t = v; return v; }
int vp_gettimeofday(struct timeval *t, void *) { t->tv_sec = 1700000000L + wall_offset + vnow; t->tv_usec = conc::opt.nsec / 1000; return 0; }
int vp_nanosleep(const struct timespec *ts, struct timespec *) { conc::sleep(ts->tv_sec + (ts->tv_nsec > 0)); return 0; }
int vp_clock_nanosleep(clockid_t c, int flags, const struct timespec *ts, struct timespec *)
{
	conc::sleep(flags & TIMER_ABSTIME ? to_deadline(c, ts) - vnow : ts->tv_sec + (ts->tv_nsec > 0));
	return 0;
}
unsigned vp_sleep(unsigned s) { conc::sleep(s); return 0; }
int vp_usleep(unsigned u) { conc::sleep((u + 999999) / 1000000); return 0; }
}
