// Shared by C12 and C13: the queue under a just-in-time linearisation monitor.
#pragma once
#include "conc.hpp"
#include <algorithm>
extern "C" {
#include "libmy/my_queue.h"
extern const struct my_queue_ops my_queue_mb_ops;
extern const struct my_queue_ops my_queue_mutex_ops;
}
// An abstract bounded FIFO together with what the pending operations may already have done.
enum { IDLE, PENDING, OBSERVED, EFFECTED };
enum { MAXT = 4, MAXCFG = 160 };
struct Cfg {
	uint64_t content;  // a nibble per element, first out lowest
	uint8_t len, pad[3];
	uint8_t ph[MAXT];  // phase of thread t's operation
	uint8_t obs[MAXT]; // space (insert) or count (remove) it observed
	uint8_t val[MAXT]; // what the remove took
	bool operator<(const Cfg &o) const { return memcmp(this, &o, sizeof *this) < 0; }
	bool operator==(const Cfg &o) const { return memcmp(this, &o, sizeof *this) == 0; }
};
struct Mon {
	unsigned n;
	uint8_t kind[MAXT]; // of the pending operation: 1 insert, 2 remove
	uint8_t arg[MAXT];
	Cfg c[MAXCFG];
};
static Mon M;
static unsigned cap;
static bool one_instant; // observation and effect at one instant (C13), or one after the other (C12)

__attribute__((noinline)) static void mon_set(std::vector<Cfg> &v)
{
	std::sort(v.begin(), v.end());
	v.erase(std::unique(v.begin(), v.end()), v.end());
	if (v.size() > MAXCFG) { fprintf(stderr, "too many configurations\n"); abort(); }
	memset(M.c, 0, sizeof M.c);
	M.n = v.size();
	for (size_t i = 0; i < v.size(); i++) M.c[i] = v[i];
}
__attribute__((noinline)) static void mon_close(std::vector<Cfg> &v)
{
	for (size_t i = 0; i < v.size(); i++)
		for (int t = 0; t < MAXT; t++) {
			Cfg c = v[i];
			bool changed = false;
			auto observe = [&] { c.obs[t] = M.kind[t] == 1 ? cap - c.len : c.len; c.ph[t] = OBSERVED; changed = true; };
			auto effect = [&] {
				if (M.kind[t] == 1) { if (c.len >= cap) return false; c.content |= (uint64_t)M.arg[t] << (4 * c.len); c.len++; }
				else { if (!c.len) return false; c.val[t] = c.content & 15; c.content >>= 4; c.len--; }
				c.ph[t] = EFFECTED;
				changed = true;
				return true;
			};
			if (c.ph[t] == PENDING) {
				observe();
				if (one_instant && c.obs[t]) effect();
			} else if (c.ph[t] == OBSERVED && c.obs[t] && !one_instant) effect();
			if (changed && std::find(v.begin(), v.end(), c) == v.end()) v.push_back(c);
		}
}
__attribute__((noinline)) static std::vector<Cfg> mon_get() { return std::vector<Cfg>(M.c, M.c + M.n); }
__attribute__((noinline)) static void mon_call(int t, int kind, int arg)
{
	M.kind[t] = kind;
	M.arg[t] = arg;
	std::vector<Cfg> v = mon_get();
	for (Cfg &c : v) c.ph[t] = PENDING;
	mon_close(v);
	mon_set(v);
}
__attribute__((noinline)) static std::string mon_show()
{
	std::string s;
	for (unsigned i = 0; i < M.n && i < 6; i++) {
		s += " [";
		for (int k = 0; k < M.c[i].len; k++) s += std::to_string(M.c[i].content >> (4 * k) & 15) + " ";
		s += "]";
	}
	return s;
}
// value < 0: not known; x < 0: not asked for
__attribute__((noinline)) static void mon_return(int t, bool res, long x, int val)
{
	std::vector<Cfg> v = mon_get(), w;
	for (Cfg c : v) {
		if (res ? c.ph[t] != EFFECTED : !(c.ph[t] == OBSERVED && c.obs[t] == 0)) continue;
		if (x >= 0 && x != (res ? c.obs[t] - 1 : 0)) continue;
		if (res && M.kind[t] == 2 && c.val[t] != val) continue;
		c.ph[t] = IDLE; c.obs[t] = c.val[t] = 0;
		w.push_back(c);
	}
	const char *op = M.kind[t] == 1 ? "insert" : "remove";
	if (w.empty()) mc::fail("thread %d: %s returned %s%s%s%s; no moment during the call explains that (the queue of capacity %u could be:%s)", t, op, res ? "true" : "false",
		x >= 0 ? (M.kind[t] == 1 ? ", space " : ", count ") : "", x >= 0 ? std::to_string(x).c_str() : "",
		res && M.kind[t] == 2 ? (", element " + std::to_string(val)).c_str() : "", cap, mon_show().c_str());
	M.kind[t] = M.arg[t] = 0;
	mon_close(w);
	mon_set(w);
}
// ---- elements ----
static unsigned esize;
static unsigned char pat(int id, unsigned j) { return j == 0 ? (id & 15) : (unsigned char)(id * 37 + j * 11 + (j >> 3) * 101); }
__attribute__((noinline)) static void make(unsigned char *e, int id) { for (unsigned j = 0; j < esize; j++) e[j] = pat(id, j); }

static const my_queue_ops *ops;
static my_queue *Q;
__attribute__((noinline)) static void verify(const unsigned char *e, bool r, int id)
{
	if (r) {
		CHECK(id < 16, "an element was removed that was never inserted (first byte %d)", id);
		// all ids that are congruent have the same first byte: any of them has to fit completely
		bool ok = false;
		for (int k = id; k < 64 && !ok; k += 16) { ok = true; for (unsigned j = 1; j < esize; j++) if (e[j] != pat(k, j)) { ok = false; break; } }
		CHECK(ok, "element %d was not delivered intact", id);
		for (unsigned j = esize; j < 80; j++) CHECK(e[j] == 0xee, "remove wrote beyond the element");
	} else for (unsigned j = 0; j < 80; j++) CHECK(e[j] == 0xee, "a remove that failed wrote to the caller's element");
}
__attribute__((noinline)) static void unchanged(const unsigned char *e, int id) { for (unsigned j = 0; j < esize; j++) CHECK(e[j] == pat(id, j), "insert changed the caller's element"); }
__attribute__((noinline)) static void do_insert(int t, int id, bool want)
{
	unsigned char e[80];
	memset(e, 0xee, sizeof e);
	make(e, id);
	unsigned space = 0xfffffff;
	conc::yield("call insert");
	mon_call(t, 1, id & 15);
	bool r = ops->insert(Q, e, want ? &space : nullptr);
	mc::note("thread %d: insert(%d) = %d, space %d", t, id, r, want ? (int)space : -1);
	unchanged(e, id);
	mon_return(t, r, want ? (long)space : -1, -1);
	conc::scrub(e, sizeof e);
	conc::scrub(&space, sizeof space);
}
__attribute__((noinline)) static bool do_remove(int t, bool want)
{
	unsigned char e[80];
	memset(e, 0xee, sizeof e);
	unsigned count = 0xfffffff;
	conc::yield("call remove");
	mon_call(t, 2, 0);
	bool r = ops->remove(Q, e, want ? &count : nullptr);
	mc::note("thread %d: remove = %d, count %d", t, r, want ? (int)count : -1);
	int id = r ? e[0] : -1;
	verify(e, r, id);
	mon_return(t, r, want ? (long)count : -1, id);
	conc::scrub(e, sizeof e);
	conc::scrub(&count, sizeof count);
	return r;
}
__attribute__((noinline)) static void mon_init()
{
	M.n = 1; // the empty queue
}
// Queues up to the largest input queue (16384 entries) and beyond, with elements of any size, used by one thread:
// every lap pattern against a plain deque.
__attribute__((noinline)) static void large_one(unsigned n, unsigned size, unsigned start, unsigned up, unsigned down)
{
	conc::prepare();
	my_queue *q = ops->init(n, size);
	CHECK(q, "a queue of %u entries of %u bytes is refused", n, size);
	std::vector<unsigned char> e(size + 16), want(size);
	auto mk = [&](unsigned char *p, unsigned id) { for (unsigned j = 0; j < size; j++) p[j] = (id >> (8 * (j & 3))) * 1 + (j >> 2) * 31; };
	unsigned in = 0, out = 0;
	auto ins = [&] {
		unsigned sp = 12345;
		mk(e.data(), in);
		bool r = ops->insert(q, e.data(), &sp), full = in - out == n - 1;
		CHECK(r == !full, "N=%u size=%u: insert with %u elements queued returned %d", n, size, in - out, r);
		if (r) in++;
		CHECK(sp == n - 1 - (in - out), "N=%u size=%u: insert reports space %u with %u elements queued", n, size, sp, in - out);
	};
	auto rem = [&] {
		unsigned ct = 12345;
		memset(e.data(), 0xee, e.size());
		bool r = ops->remove(q, e.data(), &ct), some = in != out;
		CHECK(r == some, "N=%u size=%u: remove with %u elements queued returned %d", n, size, in - out, r);
		if (r) { mk(want.data(), out); out++; CHECK(!memcmp(e.data(), want.data(), size), "N=%u size=%u: element %u was not delivered intact", n, size, out - 1); }
		for (unsigned j = r ? size : 0; j < e.size(); j++) CHECK(e[j] == 0xee, "remove wrote outside of the element");
		CHECK(ct == in - out, "N=%u size=%u: remove reports count %u with %u elements queued", n, size, ct, in - out);
	};
	for (unsigned i = 0; i < start; i++) { ins(); rem(); }
	for (unsigned done = 0; done < 2 * n + 3;) {
		for (unsigned i = 0; i < up; i++) ins();
		for (unsigned i = 0; i < down; i++) rem();
		done += up + down;
	}
	while (in != out) rem();
	rem();
	mc::steps(in + out);
	ops->destroy(&q);
	CHECK(conc::live_blocks() == 0, "%zu blocks are left after destroy", conc::live_blocks());
}
static void add_large()
{
	bool t = mc::thorough();
	for (unsigned n : {2u, 4u, 8u, 512u}) mc::scenario("140000 elements through N=" + std::to_string(n), [n] { for (unsigned size : {1u, 40u}) large_one(n, size, 140000 + n / 2, n, n / 2); });
	for (unsigned n = 2; n <= (t ? 1u << 17 : 1u << 15); n *= 2)
		mc::scenario("large N=" + std::to_string(n), [n, t] {
			std::vector<unsigned> sizes = {1, 3, 8, 40};
			if (n <= 4096 || t) { sizes.push_back(16); sizes.push_back(56); sizes.push_back(255); }
			if (n <= 256) for (unsigned s : {256u, 257u, 1000u, 4096u}) sizes.push_back(s);
			for (unsigned size : sizes) {
				if ((size_t)n * size > 7 << 20) continue;
				std::vector<unsigned> st = {0, n - 1};
				if (n <= 256) st.push_back(n / 2);
				for (unsigned start : st)
					for (auto ud : {std::make_pair(n, n), {n - 1, n / 2}, {n / 2 + 1, n / 2}, {3u, 1u}, {n + 2, 1u}}) large_one(n, size, start, ud.first, ud.second);
			}
		});
}
