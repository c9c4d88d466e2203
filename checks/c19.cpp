// C19: every accepted configuration works, and as configured.
#include "conc.hpp"
#include "ref.hpp"
#include <set>
extern "C" {
#include "fstrm.h"
}
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>
#define NOINLINE __attribute__((noinline))
const char *mc_property = "C19";
enum { MAXQ = 5, MAXLEN = 1100000 };
struct Cfg { unsigned hint = 8192, ft = 1, insz = 512, nq = 1, outsz = 64, notify = 32, reopen = 5; int mpsc = 0; };
static const Cfg DEF;
struct S {
	Cfg c;
	int how = 0;       // 0: set once; 1: set another value before; 2: a refused value after; 3: not set (defaults); 4: no options at all
	int len = 4;       // length of the frames used to fill the queue
	int two = 0;       // frames submitted at once by each of two producers on one queue
	bool rw = false;
	bool big = false;  // frames of very different lengths, alone and together
	int deviations = 0;
};
static S C;
struct Mon {
	uint8_t open, fail_next, block, closed_once;
	uint16_t conns;
	int32_t last_attempt, opened_at, closed_at;
	uint32_t sub[MAXQ], del[MAXQ], freed;     // submitted (accepted), delivered
	uint32_t hdr, hpos, left, pos, q;         // stream parser
	uint32_t ctl, lost;
	uint32_t bcount, blast, btotal, batches;
	uint8_t seen_start, seen_stop, strict_batch;
	long marks[4];
};
static Mon M;
static struct fstrm_iothr *IO;
static struct fstrm_iothr_queue *QH[MAXQ];
static unsigned char *PAT;  // contents: frame i of queue q has the bytes PAT[(i*7+q*13) % 251 ...]
static unsigned LEN[MAXQ][40000];
static const unsigned char *content(unsigned q, unsigned i) { return PAT + (i * 7 + q * 13) % 65521; }

// ---- transport ----
NOINLINE static void frame_begins(uint32_t len)
{
	// which queue: the first queue whose next frame has these first bytes is found when they are all there
	M.left = len;
	M.pos = 0;
	M.q = MAXQ;
}
NOINLINE static void feed(const unsigned char *p, size_t n)
{
	while (n) {
		if (M.ctl) { // control frame: 4 bytes length, then payload
			if (M.hpos < 4) { M.hdr = M.hdr << 8 | *p++; n--; if (++M.hpos == 4) { CHECK(M.hdr >= 4 && M.hdr <= 512, "control frame of %u bytes", M.hdr); M.left = M.hdr; M.pos = 0; M.hdr = 0; } continue; }
			if (M.pos < 4) M.hdr = M.hdr << 8 | *p;
			p++; n--; M.pos++;
			if (!--M.left) {
				if (M.hdr == ref::START) { CHECK(!M.seen_start, "START twice"); M.seen_start = 1; }
				else if (M.hdr == ref::STOP) { CHECK(M.seen_start && !M.seen_stop, "STOP at the wrong place"); M.seen_stop = 1; }
				else mc::fail("control frame of type %u", M.hdr);
				M.ctl = M.hdr = M.hpos = 0;
			}
			continue;
		}
		if (M.hpos < 4) {
			M.hdr = M.hdr << 8 | *p++;
			n--;
			if (++M.hpos < 4) continue;
			if (M.hdr == 0) { M.ctl = 1; M.hpos = 0; continue; }
			CHECK(M.seen_start && !M.seen_stop, "a data frame outside of START and STOP");
			M.left = M.hdr;
			M.pos = 0;
			M.q = MAXQ;
			M.bcount++;
			M.blast = M.hdr + 4;
			M.btotal += M.blast;
			continue;
		}
		if (M.q == MAXQ) {
			// whose frame is it?  The first byte tells the queue apart (contents start with it)
			unsigned q = *p >> 5;
			CHECK(q < C.c.nq && M.del[q] < M.sub[q] && LEN[q][M.del[q]] == M.hdr, "a frame of %u bytes that was not submitted, or not in this order (queue %u, %u delivered of %u)", M.hdr, q, M.del[q], M.sub[q]);
			M.q = q;
		}
		size_t k = std::min<size_t>(n, M.left);
		unsigned i = M.del[M.q];
		const unsigned char *w = content(M.q, i);
		for (size_t j = 0; j < k; j++) {
			unsigned char want = M.pos + j == 0 ? M.q << 5 | (i & 31) : w[M.pos + j];
			CHECK(p[j] == want, "frame %u of queue %u is corrupted at byte %zu", i, M.q, M.pos + j);
		}
		M.pos += k; M.left -= k; p += k; n -= k;
		if (!M.left) { M.del[M.q]++; M.hdr = M.hpos = 0; }
	}
}
static bool unblocked(void *) { return !M.block; }
static fstrm_res t_open(void *)
{
	conc::yield("open");
	CHECK(!M.open, "opened while open");
	if (M.last_attempt >= 0) CHECK(conc::now() - M.last_attempt >= (long)C.c.reopen, "opened again after %ld s; the interval is %u s", conc::now() - M.last_attempt, C.c.reopen);
	M.last_attempt = conc::now();
	conc::wait(unblocked, nullptr, "blocking open");
	M.open = 1;
	M.conns++;
	M.hdr = M.hpos = M.left = M.pos = M.ctl = M.seen_start = M.seen_stop = 0;
	return fstrm_res_success;
}
static fstrm_res t_close(void *)
{
	conc::yield("close");
	CHECK(M.open, "closed while not open");
	M.open = 0;
	M.closed_at = conc::now();
	return fstrm_res_success;
}
static fstrm_res t_destroy(void *) { return fstrm_res_success; }
static fstrm_res t_write(void *, const struct iovec *v, int n)
{
	conc::yield("write");
	CHECK(M.open, "written while not open");
	if (M.fail_next) { M.fail_next = 0; mc::note("   write fails"); return fstrm_res_failure; }
	M.bcount = M.btotal = M.blast = 0;
	for (int i = 0; i < n; i++) feed((const unsigned char *)v[i].iov_base, v[i].iov_len);
	if (M.bcount) {
		M.batches++;
		CHECK(M.bcount <= C.c.outsz, "%u frames are written at once; the output queue size is %u", M.bcount, C.c.outsz);
		CHECK(M.btotal - M.blast < C.c.hint, "%u bytes were accumulated and not written; the buffer hint is %u", M.btotal - M.blast, C.c.hint);
		if (M.strict_batch && M.del[0] < M.sub[0] && C.c.nq == 1)
			CHECK(M.bcount == C.c.outsz || M.btotal + 4 + LEN[0][M.del[0]] >= C.c.hint || M.bcount % 128 == 0,
			      "only %u frames of %u bytes in all are written at once although more are waiting; output queue size %u, buffer hint %u", M.bcount, M.btotal, C.c.outsz, C.c.hint);
	}
	return fstrm_res_success;
}
// ---- setting options ----
static unsigned other(unsigned v, unsigned a, unsigned b) { return v == a ? b : a; }
static void set_all(struct fstrm_iothr_options *o, const Cfg &c, bool need)
{
	bool ok = true;
	ok &= fstrm_iothr_options_set_buffer_hint(o, c.hint) == fstrm_res_success;
	ok &= fstrm_iothr_options_set_flush_timeout(o, c.ft) == fstrm_res_success;
	ok &= fstrm_iothr_options_set_input_queue_size(o, c.insz) == fstrm_res_success;
	ok &= fstrm_iothr_options_set_num_input_queues(o, c.nq) == fstrm_res_success;
	ok &= fstrm_iothr_options_set_output_queue_size(o, c.outsz) == fstrm_res_success;
	ok &= fstrm_iothr_options_set_queue_model(o, c.mpsc ? FSTRM_IOTHR_QUEUE_MODEL_MPSC : FSTRM_IOTHR_QUEUE_MODEL_SPSC) == fstrm_res_success;
	ok &= fstrm_iothr_options_set_queue_notify_threshold(o, c.notify) == fstrm_res_success;
	ok &= fstrm_iothr_options_set_reopen_interval(o, c.reopen) == fstrm_res_success;
	if (need) CHECK(ok, "a value within its range is refused");
}
NOINLINE static void set_others(struct fstrm_iothr_options *o, const Cfg &c)
{
	Cfg d;
	d.hint = other(c.hint, 1024, 65536); d.ft = other(c.ft, 600, 1); d.insz = other(c.insz, 2, 4096); d.nq = other(c.nq, 4, 2); d.outsz = other(c.outsz, 1024, 2);
	d.notify = other(c.notify, 1, 9999999); d.reopen = other(c.reopen, 1, 600); d.mpsc = !c.mpsc;
	set_all(o, d, true);
}
NOINLINE static void set_bad(struct fstrm_iothr_options *o)
{
	bool any = false;
	auto no = [&](fstrm_res r, const char *what) { CHECK(r != fstrm_res_success, "%s is accepted", what); };
	no(fstrm_iothr_options_set_buffer_hint(o, 1023), "buffer_hint 1023");
	no(fstrm_iothr_options_set_buffer_hint(o, 65537), "buffer_hint 65537");
	no(fstrm_iothr_options_set_flush_timeout(o, 0), "flush_timeout 0");
	no(fstrm_iothr_options_set_flush_timeout(o, 601), "flush_timeout 601");
	no(fstrm_iothr_options_set_input_queue_size(o, 1), "input_queue_size 1");
	no(fstrm_iothr_options_set_input_queue_size(o, 48), "input_queue_size 48");
	no(fstrm_iothr_options_set_input_queue_size(o, 32768), "input_queue_size 32768");
	no(fstrm_iothr_options_set_num_input_queues(o, 0), "num_input_queues 0");
	no(fstrm_iothr_options_set_output_queue_size(o, 1), "output_queue_size 1");
	no(fstrm_iothr_options_set_output_queue_size(o, 1025), "output_queue_size 1025");
	no(fstrm_iothr_options_set_queue_model(o, (fstrm_iothr_queue_model)2), "queue model 2");
	no(fstrm_iothr_options_set_queue_notify_threshold(o, 0), "queue_notify_threshold 0");
	no(fstrm_iothr_options_set_reopen_interval(o, 0), "reopen_interval 0");
	no(fstrm_iothr_options_set_reopen_interval(o, 601), "reopen_interval 601");
	(void)any;
}
NOINLINE static void setup()
{
	struct fstrm_rdwr *rdwr = fstrm_rdwr_init(nullptr);
	fstrm_rdwr_set_destroy(rdwr, t_destroy);
	fstrm_rdwr_set_open(rdwr, t_open);
	fstrm_rdwr_set_close(rdwr, t_close);
	fstrm_rdwr_set_write(rdwr, t_write);
	struct fstrm_writer *w = fstrm_writer_init(nullptr, &rdwr);
	CHECK(w, "fstrm_writer_init");
	struct fstrm_iothr_options *o = C.how == 4 ? nullptr : fstrm_iothr_options_init();
	if (C.how == 1) set_others(o, C.c);
	if (C.how < 3) set_all(o, C.c, true);
	if (C.how >= 2 && C.how < 4) set_bad(o);
	IO = fstrm_iothr_init(o, &w);
	CHECK(IO && !w, "fstrm_iothr_init fails");
	if (o) {
		set_others(o, C.c);
		fstrm_iothr_options_destroy(&o);
	}
}
static void freed(void *, void *) { M.freed++; }
NOINLINE static bool submit(unsigned q, unsigned len)
{
	unsigned i = M.sub[q];
	unsigned char *d = (unsigned char *)malloc(len);
	memcpy(d, content(q, i), len);
	d[0] = q << 5 | (i & 31);
	LEN[q][i] = len;
	M.sub[q]++;
	// the frames are not released in order to keep the state small: they come from the system's heap
	fstrm_res r = fstrm_iothr_submit(IO, QH[q], d, len, [](void *p, void *) { M.freed++; free(p); }, nullptr);
	if (r != fstrm_res_success) {
		CHECK(r == fstrm_res_again, "submit returned %d", (int)r);
		M.sub[q]--;
		free(d);
		return false;
	}
	return true;
}
static bool all_delivered(void *) { for (unsigned q = 0; q < C.c.nq && q < MAXQ; q++) if (M.del[q] != M.sub[q]) return false; return true; }
static bool delivered_mark(void *) { return M.del[0] >= (unsigned long)M.marks[0]; }
static bool is_open(void *) { return M.open && M.conns == (unsigned)M.marks[1] + 1; }
static bool has_failed(void *) { return !M.fail_next; }
static void drain(const char *when)
{
	long t = conc::now();
	CHECK(conc::wait_until(all_delivered, nullptr, t + 2 * C.c.ft + 1, "delivery"), "%s: a frame was not delivered within two flush timeouts (%u s)", when, C.c.ft);
	CHECK(conc::now() - t <= 2 * (long)C.c.ft, "%s: delivery took %ld s, the flush timeout is %u s", when, conc::now() - t, C.c.ft);
}
NOINLINE static void queues()
{
	for (unsigned q = 0; q < C.c.nq; q++) {
		struct fstrm_iothr_queue *h = fstrm_iothr_get_input_queue(IO);
		CHECK(h, "only %u of %u input queues", q, C.c.nq);
		for (unsigned k = 0; k < q && k < MAXQ; k++) CHECK(QH[k] != h, "the same input queue is returned twice");
		if (q < MAXQ) QH[q] = h;
		CHECK(fstrm_iothr_get_input_queue_idx(IO, q), "no input queue of index %u", q);
	}
	CHECK(!fstrm_iothr_get_input_queue(IO), "more than %u input queues", C.c.nq);
	CHECK(!fstrm_iothr_get_input_queue_idx(IO, C.c.nq) && !fstrm_iothr_get_input_queue_idx(IO, (size_t)-1), "an input queue for an index out of range");
}
static void body(void *)
{
	setup();
	queues();
	// the output blocks: the input queue takes as many entries as configured
	unsigned n = 0;
	while (n <= C.c.insz && submit(0, C.len)) n++;
	CHECK(n >= C.c.insz - 1 && n <= C.c.insz, "an input queue of size %u takes %u entries", C.c.insz, n);
	for (unsigned q = 1; q < C.c.nq && q < MAXQ; q++) CHECK(submit(q, 5), "an empty queue refuses a frame");
	// everything that waits is written in batches as large as configured
	M.strict_batch = 1;
	M.block = 0;
	drain("after the output came up");
	M.strict_batch = 0;
	// flush timeout
	conc::sleep(1);
	submit(0, 9);
	drain("one frame");
	if (C.big) {
		static const unsigned l[] = {1, 1020, 8192, 65531, 65532, 65533, 65536, 65537, 131072, 300000, 1048576};
		for (unsigned a : l) {
			submit(0, a);
			drain("one frame");
			for (unsigned b : l) {
				CHECK(submit(0, a) && submit(C.c.nq - 1, b) && submit(0, 3), "a queue with space refuses a frame");
				drain("three frames");
			}
		}
	}
	// the I/O thread is woken when enough entries are outstanding, and not before
	if (C.c.nq == 1 && C.c.ft == 600 && C.c.notify < C.c.insz) {
		unsigned len = C.c.hint, k = C.c.notify;
		conc::sleep(1); // the thread waits now
		long t = conc::now();
		unsigned before = M.del[0];
		if (k > 2) {
			for (unsigned i = 0; i + 1 < k; i++) CHECK(submit(0, len), "a queue with space refuses a frame");
			conc::sleep(1);
			CHECK(M.del[0] == before, "the I/O thread is woken by %u outstanding entries; the threshold is %u", k - 1, k);
			t++;
			CHECK(conc::now() == t, "time");
			CHECK(submit(0, len), "a queue with space refuses a frame");
		} else
			for (unsigned i = 0; i < 2; i++) {
				CHECK(submit(0, len), "a queue with space refuses a frame");
				// woken by each of them: it waits again
				if (k == 1 && i == 0) { conc::sleep(1); t = conc::now(); }
			}
		M.marks[0] = M.sub[0] - 1;
		CHECK(conc::wait_until(delivered_mark, nullptr, t + 1, "wake-up") && conc::now() == t, "the I/O thread is not woken by %u outstanding entries", k);
		drain("after the wake-up");
	}
	// reopen interval
	M.fail_next = 1;
	M.marks[1] = M.conns;
	{
		submit(0, 7);
		CHECK(conc::wait_until(has_failed, nullptr, conc::now() + 2 * C.c.ft + 1, "failure"), "a frame was not written within two flush timeouts");
	}
	M.del[0] = M.sub[0]; // lost
	long due = std::max<long>(M.last_attempt + C.c.reopen, conc::now());
	CHECK(conc::wait_until(is_open, nullptr, due + C.c.ft + 1, "reopening"), "the output was not opened again in time: interval %u s, flush timeout %u s, last attempt at %d, now %ld", C.c.reopen, C.c.ft, M.last_attempt, conc::now());
	submit(0, 8);
	drain("after the output was opened again");
	fstrm_iothr_destroy(&IO);
	CHECK(!M.open && M.seen_stop, "the output was not closed with STOP");
	unsigned total = 0;
	for (unsigned q = 0; q < C.c.nq && q < MAXQ; q++) total += M.sub[q];
	CHECK(M.freed == total, "%u of %u frames were released", M.freed, total);
	CHECK(conc::live_blocks() == 0, "%zu blocks are left", conc::live_blocks());
	mc::outcome("batches=" + std::to_string(M.batches));
}
// two producers on one queue, in every interleaving
static void producer(void *a)
{
	unsigned p = (unsigned)(long)a;
	for (int i = 0; i < C.two; i++) {
		static unsigned char b[2][4] = {{0x11, 1, 1, 1}, {0x22, 2, 2, 2}};
		fstrm_res r = fstrm_iothr_submit(IO, QH[0], b[p], 4, freed, nullptr);
		CHECK(r == fstrm_res_success, "a queue with space refuses a frame");
	}
}
static fstrm_res t_write2(void *, const struct iovec *v, int n)
{
	conc::yield("write");
	for (int i = 0; i < n; i++) if (v[i].iov_len == 4 && ((unsigned char *)v[i].iov_base)[0] >= 0x11) M.del[((unsigned char *)v[i].iov_base)[0] == 0x11 ? 0 : 1]++;
	return fstrm_res_success;
}
static void body2(void *)
{
	struct fstrm_rdwr *rdwr = fstrm_rdwr_init(nullptr);
	fstrm_rdwr_set_open(rdwr, t_destroy);
	fstrm_rdwr_set_close(rdwr, t_destroy);
	fstrm_rdwr_set_write(rdwr, t_write2);
	struct fstrm_writer *w = fstrm_writer_init(nullptr, &rdwr);
	struct fstrm_iothr_options *o = fstrm_iothr_options_init();
	if (C.how == 1) set_others(o, C.c);
	set_all(o, C.c, true);
	if (C.how == 2) set_bad(o);
	IO = fstrm_iothr_init(o, &w);
	set_others(o, C.c);
	fstrm_iothr_options_destroy(&o);
	QH[0] = fstrm_iothr_get_input_queue(IO);
	int a = conc::spawn(producer, (void *)0), b = conc::spawn(producer, (void *)1);
	conc::join(a);
	conc::join(b);
	fstrm_iothr_destroy(&IO);
	CHECK(M.del[0] == (unsigned)C.two && M.del[1] == (unsigned)C.two, "%u and %u of %d frames of two producers were delivered", M.del[0], M.del[1], C.two);
	CHECK(M.freed == 2u * C.two, "%u of %d frames were released", M.freed, 2 * C.two);
}
static std::string describe(const S &s)
{
	char b[200];
	snprintf(b, sizeof b, "hint=%u ft=%u in=%u nq=%u out=%u notify=%u reopen=%u %s how=%d len=%d dev=%d%s", s.c.hint, s.c.ft, s.c.insz, s.c.nq, s.c.outsz, s.c.notify, s.c.reopen, s.c.mpsc ? "mpsc" : "spsc", s.how, s.len, s.deviations, s.big ? " big" : "");
	return b;
}
static std::set<std::string> *added;
static void add(S s)
{
	if (s.c.insz > 1000) s.deviations = 0;
	std::string n = describe(s);
	if (!added->insert(n).second) return;
	mc::scenario(n, [s] {
		C = s;
		conc::opt = conc::Options();
		conc::opt.timeouts = 0;
		conc::opt.bounded = true;
		conc::opt.accesses = false;
		conc::opt.max_steps = 4000000;
		conc::prepare();
		M.last_attempt = -1;
		M.block = 1;
		conc::run(body, nullptr);
	}, s.deviations);
}
// ---- every argument of every setter ----
typedef fstrm_res (*Setter)(struct fstrm_iothr_options *, unsigned);
struct Range { const char *name; Setter f; unsigned lo, hi; bool pow2; };
static fstrm_res set_model(struct fstrm_iothr_options *o, unsigned v) { return fstrm_iothr_options_set_queue_model(o, (fstrm_iothr_queue_model)v); }
static const Range ranges[] = {
	{"buffer_hint", fstrm_iothr_options_set_buffer_hint, 1024, 65536, false},
	{"flush_timeout", fstrm_iothr_options_set_flush_timeout, 1, 600, false},
	{"input_queue_size", fstrm_iothr_options_set_input_queue_size, 2, 16384, true},
	{"num_input_queues", fstrm_iothr_options_set_num_input_queues, 1, 0xffffffffu, false},
	{"output_queue_size", fstrm_iothr_options_set_output_queue_size, 2, 1024, false},
	{"queue_notify_threshold", fstrm_iothr_options_set_queue_notify_threshold, 1, 0xffffffffu, false},
	{"reopen_interval", fstrm_iothr_options_set_reopen_interval, 1, 600, false},
	{"queue_model", set_model, 0, 1, false},
};
static int RI;
static void setter_body(void *)
{
	const Range &r = ranges[RI];
	struct fstrm_iothr_options *o = fstrm_iothr_options_init();
	for (int pass = 0; pass < 2; pass++)
		for (uint64_t k = 0; k <= 70000 + 2 * 4096; k++) {
			unsigned v = k <= 70000 ? k : k <= 70000 + 4096 ? 0xffffffffu - (unsigned)(k - 70001) : (unsigned)(1u << ((k - 74097) % 32)) + (unsigned)((k - 74097) / 32) - 64;
			bool want = v >= r.lo && v <= r.hi && (!r.pow2 || !(v & (v - 1)));
			CHECK((r.f(o, v) == fstrm_res_success) == want, "set_%s(%u) is %s", r.name, v, want ? "refused" : "accepted");
		}
	fstrm_iothr_options_destroy(&o);
	CHECK(!o, "options_destroy left the pointer");
	fstrm_iothr_options_destroy(&o);
	CHECK(conc::live_blocks() == 0, "%zu blocks are left", conc::live_blocks());
}
// ---- reader and writer options ----
static ref::B *IN, *OUT;
static size_t inpos;
static fstrm_res r_read(void *, void *p, size_t n)
{
	if (IN->size() - inpos < n) return fstrm_res_failure;
	memcpy(p, IN->data() + inpos, n);
	inpos += n;
	return fstrm_res_success;
}
static fstrm_res r_write(void *, const struct iovec *v, int n) { for (int i = 0; i < n; i++) OUT->append((const char *)v[i].iov_base, v[i].iov_len); return fstrm_res_success; }
static fstrm_res r_nop(void *) { return fstrm_res_success; }
static struct fstrm_rdwr *plain(bool rd, bool wr)
{
	struct fstrm_rdwr *r = fstrm_rdwr_init(nullptr);
	fstrm_rdwr_set_open(r, r_nop);
	fstrm_rdwr_set_close(r, r_nop);
	if (rd) fstrm_rdwr_set_read(r, r_read);
	if (wr) fstrm_rdwr_set_write(r, r_write);
	inpos = 0;
	return r;
}
static int SEL;
static void max_frame_args(void *)
{
	struct fstrm_reader_options *o = fstrm_reader_options_init();
	std::vector<uint64_t> vals;
	for (uint64_t v = 0; v < 70000; v++) vals.push_back(v);
	for (int b = 0; b < 64; b++) for (int d = -40; d <= 40; d++) vals.push_back((1ULL << b) + d);
	for (uint64_t v : vals) {
		bool want = v >= 512 && v <= 0xfffffffeULL;
		CHECK((fstrm_reader_options_set_max_frame_size(o, v) == fstrm_res_success) == want, "set_max_frame_size(%lu) is %s", (unsigned long)v, want ? "refused" : "accepted");
	}
	fstrm_reader_options_destroy(&o);
	CHECK(!o && conc::live_blocks() == 0, "reader options are left");
}
static void max_frame_body(void *)
{
	struct V { long first, second; int nopt; long limit; } vs[] = {{0, 0, 0, 1048576}, {0, 0, 1, 1048576}, {512, 0, 1, 512}, {512, 511, 1, 512}, {700, 0x1ffffffffL, 1, 700}, {700, 4096, 1, 4096}, {1048577, -1, 1, 1048577}, {0, 100, 1, 1048576}};
	{
		{
			auto &v = vs[SEL / 3];
			long d = SEL % 3 - 1;
			struct fstrm_reader_options *o = v.nopt ? fstrm_reader_options_init() : nullptr;
			if (v.first) CHECK(fstrm_reader_options_set_max_frame_size(o, v.first) == fstrm_res_success, "set_max_frame_size");
			if (v.second) fstrm_reader_options_set_max_frame_size(o, v.second);
			struct fstrm_rdwr *rw = plain(true, false);
			struct fstrm_reader *r = fstrm_reader_init(o, &rw);
			if (o) { fstrm_reader_options_set_max_frame_size(o, v.limit == 600 ? 512 : 600); fstrm_reader_options_destroy(&o); }
			*IN = ref::ctl(ref::START) + ref::frame(ref::data(v.limit + d, 3)) + ref::ctl(ref::STOP);
			const uint8_t *p;
			size_t n;
			fstrm_res q = fstrm_reader_read(r, &p, &n);
			if (d <= 0) CHECK(q == fstrm_res_success && n == (size_t)(v.limit + d), "a frame of %ld bytes is refused; the maximum is %ld", v.limit + d, v.limit);
			else CHECK(q == fstrm_res_failure, "a frame of %ld bytes: %d; the maximum is %ld", v.limit + d, (int)q, v.limit);
			fstrm_reader_destroy(&r);
		}
	}
	IN->clear();
	CHECK(conc::live_blocks() == 0, "%zu blocks are left", conc::live_blocks());
}
// lists of content types: copied, in order, of at most 256 bytes each; the options can be changed, used again and destroyed
static void ctypes_body(void *)
{
	static const size_t lens[] = {0, 1, 2, 255, 256, 257, 258, 1000};
	{
		{
			int k1 = SEL / 9 - 1, k2 = SEL % 9 - 1;
			if (k1 < 0 && k2 >= 0) return;
			struct fstrm_writer_options *wo = fstrm_writer_options_init();
			struct fstrm_reader_options *ro = fstrm_reader_options_init();
			ref::L l;
			size_t total = 4;
			for (int k : {k1, k2}) {
				if (k < 0) continue;
				unsigned char *b = (unsigned char *)conc::alloc(lens[k] + 1);
				ref::B d = ref::data(lens[k], 5 + (k == k2));
				memcpy(b, d.data(), d.size());
				fstrm_res a = fstrm_writer_options_add_content_type(wo, b, lens[k]), c = fstrm_reader_options_add_content_type(ro, b, lens[k]);
				bool want = lens[k] <= 256;
				CHECK((a == fstrm_res_success) == want && (c == fstrm_res_success) == want, "a content type of %zu bytes: writer %d, reader %d", lens[k], (int)a, (int)c);
				if (want) { l.push_back(d); total += 8 + d.size(); }
				memset(b, 'X', lens[k] + 1);
				conc::dealloc(b);
			}
			for (int round = 0; round < 2; round++) {
				struct fstrm_rdwr *rw = plain(true, true);
				struct fstrm_writer *w = fstrm_writer_init(wo, &rw);
				struct fstrm_rdwr *rr = plain(true, true);
				struct fstrm_reader *r = fstrm_reader_init(ro, &rr);
				if (round) {
					fstrm_writer_options_add_content_type(wo, "later", 5);
					fstrm_reader_options_add_content_type(ro, "later", 5);
					fstrm_writer_options_destroy(&wo);
					fstrm_reader_options_destroy(&ro);
				}
				*IN = ref::ctl(ref::ACCEPT);
				inpos = 0;
				OUT->clear();
				fstrm_res q = fstrm_writer_open(w);
				if (total > 512) CHECK(q != fstrm_res_success, "a READY frame of %zu bytes", total);
				else {
					ref::B want = ref::ctl(ref::READY, l) + ref::ctl(ref::START, l.empty() ? l : ref::L(1, l[0]));
					CHECK(q == fstrm_res_success && *OUT == want, "the writer sent %s instead of %s", ref::hex(*OUT).c_str(), ref::hex(want).c_str());
				}
				*IN = ref::ctl(ref::READY) + ref::ctl(ref::START);
				inpos = 0;
				OUT->clear();
				q = fstrm_reader_open(r);
				if (total > 512) CHECK(q != fstrm_res_success, "an ACCEPT frame of %zu bytes", total);
				else CHECK(q == fstrm_res_success && *OUT == ref::ctl(ref::ACCEPT, l), "the reader sent %s instead of %s", ref::hex(*OUT).c_str(), ref::hex(ref::ctl(ref::ACCEPT, l)).c_str());
				inpos = 0;
				*IN = ref::ctl(ref::FINISH);
				fstrm_writer_destroy(&w);
				fstrm_reader_destroy(&r);
			}
			CHECK(conc::live_blocks() == 0, "%zu blocks are left", conc::live_blocks());
		}
	}
	IN->clear();
	OUT->clear();
}
// ---- file, unix and tcp options ----
static bool exists(const std::string &p) { struct stat s; return stat(p.c_str(), &s) == 0; }
static ref::B slurp(const std::string &p)
{
	ref::B r;
	FILE *f = fopen(p.c_str(), "rb");
	if (!f) return "-";
	int c;
	while ((c = getc(f)) != EOF) r += (char)c;
	fclose(f);
	return r;
}
static void file_body(void *)
{
	std::string d = mc::scratch(), A = d + "/a", B = d + "/b";
	const uint8_t *p;
	size_t n;
	for (int way = 0; way < 4; way++) {
		unlink(A.c_str()); unlink(B.c_str());
		struct fstrm_file_options *fo = fstrm_file_options_init();
		if (way & 1) fstrm_file_options_set_file_path(fo, B.c_str());
		char *path = (char *)conc::alloc(A.size() + 1);
		strcpy(path, A.c_str());
		fstrm_file_options_set_file_path(fo, path);
		memset(path, 'x', A.size());
		conc::dealloc(path);
		struct fstrm_writer *w = fstrm_file_writer_init(fo, nullptr);
		CHECK(w, "fstrm_file_writer_init");
		struct fstrm_reader *r = fstrm_file_reader_init(fo, nullptr);
		CHECK(r, "fstrm_file_reader_init");
		if (way & 2) fstrm_file_options_set_file_path(fo, B.c_str());
		fstrm_file_options_destroy(&fo);
		CHECK(!fo, "fstrm_file_options_destroy left the pointer");
		CHECK(fstrm_writer_write(w, "data", 4) == fstrm_res_success && fstrm_writer_close(w) == fstrm_res_success, "write to a file");
		fstrm_writer_destroy(&w);
		CHECK(slurp(A) == ref::ctl(ref::START) + ref::frame("data") + ref::ctl(ref::STOP) && !exists(B), "the wrong file was written");
		CHECK(fstrm_reader_read(r, &p, &n) == fstrm_res_success && n == 4 && !memcmp(p, "data", 4), "the wrong file is read");
		fstrm_reader_destroy(&r);
		CHECK(conc::live_blocks() == 0, "%zu blocks are left", conc::live_blocks());
	}
	unlink(A.c_str());
	struct fstrm_file_options *fo = fstrm_file_options_init();
	struct fstrm_writer *w = fstrm_file_writer_init(fo, nullptr);
	if (w) { CHECK(fstrm_writer_open(w) != fstrm_res_success, "a file writer without a path opens"); fstrm_writer_destroy(&w); }
	fstrm_file_options_destroy(&fo);
}
static sockaddr_storage where;
static socklen_t where_len;
extern "C" {
int vp_socket(int, int, int) { return open("/dev/null", O_RDWR | O_CLOEXEC); }
int vp_setsockopt(int, int, int, const void *, socklen_t) { return 0; }
int vp_connect(int, const struct sockaddr *a, socklen_t n)
{
	memset(&where, 0, sizeof where);
	where_len = n;
	memcpy(&where, a, std::min<size_t>(n, sizeof where));
	errno = ECONNREFUSED;
	return -1;
}
}
static void socket_body(void *)
{
	for (int way = 0; way < 4; way++) {
		struct fstrm_unix_writer_options *uo = fstrm_unix_writer_options_init();
		if (way & 1) fstrm_unix_writer_options_set_socket_path(uo, "/elsewhere");
		char *path = (char *)conc::alloc(10);
		strcpy(path, "/some/one");
		fstrm_unix_writer_options_set_socket_path(uo, path);
		memset(path, 'x', 9);
		conc::dealloc(path);
		struct fstrm_writer *w = fstrm_unix_writer_init(uo, nullptr);
		CHECK(w, "fstrm_unix_writer_init");
		if (way & 2) fstrm_unix_writer_options_set_socket_path(uo, "/elsewhere");
		fstrm_unix_writer_options_destroy(&uo);
		CHECK(!uo, "options_destroy left the pointer");
		memset(&where, 0, sizeof where);
		CHECK(fstrm_writer_open(w) != fstrm_res_success, "opened although connect failed");
		CHECK(((sockaddr_un *)&where)->sun_family == AF_UNIX && !strcmp(((sockaddr_un *)&where)->sun_path, "/some/one"), "connected to %s", ((sockaddr_un *)&where)->sun_path);
		fstrm_writer_destroy(&w);
		CHECK(conc::live_blocks() == 0, "%zu blocks are left", conc::live_blocks());
		for (int six = 0; six < 2; six++) {
			struct fstrm_tcp_writer_options *to = fstrm_tcp_writer_options_init();
			if (way & 1) { fstrm_tcp_writer_options_set_socket_address(to, "10.9.8.7"); fstrm_tcp_writer_options_set_socket_port(to, "99"); }
			char *ad = (char *)conc::alloc(20), *po = (char *)conc::alloc(8);
			strcpy(ad, six ? "2001:db8::17" : "192.0.2.33");
			strcpy(po, "5353");
			fstrm_tcp_writer_options_set_socket_address(to, ad);
			fstrm_tcp_writer_options_set_socket_port(to, po);
			memset(ad, 'x', 19);
			memset(po, '7', 7);
			conc::dealloc(ad);
			conc::dealloc(po);
			w = fstrm_tcp_writer_init(to, nullptr);
			CHECK(w, "fstrm_tcp_writer_init");
			if (way & 2) { fstrm_tcp_writer_options_set_socket_address(to, "10.9.8.7"); fstrm_tcp_writer_options_set_socket_port(to, "99"); }
			fstrm_tcp_writer_options_destroy(&to);
			CHECK(!to, "options_destroy left the pointer");
			memset(&where, 0, sizeof where);
			CHECK(fstrm_writer_open(w) != fstrm_res_success, "opened although connect failed");
			char b[64] = "";
			int port;
			if (six) { inet_ntop(AF_INET6, &((sockaddr_in6 *)&where)->sin6_addr, b, sizeof b); port = ntohs(((sockaddr_in6 *)&where)->sin6_port); }
			else { inet_ntop(AF_INET, &((sockaddr_in *)&where)->sin_addr, b, sizeof b); port = ntohs(((sockaddr_in *)&where)->sin_port); }
			CHECK(where.ss_family == (six ? AF_INET6 : AF_INET) && !strcmp(b, six ? "2001:db8::17" : "192.0.2.33") && port == 5353, "connected to %s port %d", b, port);
			fstrm_writer_destroy(&w);
			CHECK(conc::live_blocks() == 0, "%zu blocks are left", conc::live_blocks());
		}
	}
	// what cannot work is refused
	struct fstrm_unix_writer_options *uo = fstrm_unix_writer_options_init();
	CHECK(!fstrm_unix_writer_init(uo, nullptr), "a unix writer without a path");
	for (int len : {107, 108, 109, 500}) {
		std::string p(len, 'p');
		p[0] = '/';
		fstrm_unix_writer_options_set_socket_path(uo, p.c_str());
		struct fstrm_writer *w = fstrm_unix_writer_init(uo, nullptr);
		CHECK(!!w == (len <= 107), "a unix socket path of %d bytes is %s", len, w ? "accepted" : "refused");
		if (w) {
			fstrm_writer_open(w);
			CHECK(p == std::string(((sockaddr_un *)&where)->sun_path, strnlen(((sockaddr_un *)&where)->sun_path, 108)), "connected to another path than the %d bytes given", len);
			fstrm_writer_destroy(&w);
		}
	}
	fstrm_unix_writer_options_destroy(&uo);
	struct A { const char *a, *p; bool ok; } as[] = {{nullptr, nullptr, false}, {"127.0.0.1", nullptr, false}, {nullptr, "53", false}, {"127.0.0.1", "53", true}, {"::1", "53", true}, {"127.0.0.256", "53", false}, {"localhost.", "53", false}, {"", "53", false},
		{"127.0.0.1", "x", false}, {"127.0.0.1", "65536", false}, {"127.0.0.1", "-1", false}, {"127.0.0.1", "65535", true}, {"127.0.0.1", "53x", false}, {"fe80::1::2", "53", false}};
	for (auto &a : as) {
		struct fstrm_tcp_writer_options *to = fstrm_tcp_writer_options_init();
		if (a.a) fstrm_tcp_writer_options_set_socket_address(to, a.a);
		if (a.p) fstrm_tcp_writer_options_set_socket_port(to, a.p);
		struct fstrm_writer *w = fstrm_tcp_writer_init(to, nullptr);
		CHECK(!!w == a.ok, "address %s port %s is %s", a.a ? a.a : "(none)", a.p ? a.p : "(none)", w ? "accepted" : "refused");
		fstrm_writer_destroy(&w);
		fstrm_tcp_writer_options_destroy(&to);
		CHECK(conc::live_blocks() == 0, "%zu blocks are left after address %s port %s", conc::live_blocks(), a.a ? a.a : "(none)", a.p ? a.p : "(none)");
	}
	CHECK(conc::live_blocks() == 0, "%zu blocks are left", conc::live_blocks());
}
static void simple(const char *name, void (*f)(void *), int n = 1)
{
	mc::scenario(name, [f, n] {
		SEL = mc::choose(n, "case");
		conc::opt = conc::Options();
		conc::opt.accesses = false;
		conc::opt.max_steps = 4000000;
		conc::prepare();
		if (!IN) { IN = new ref::B; OUT = new ref::B; }
		conc::run(f, nullptr);
	}, 0);
}
void mc_setup()
{
	conc::monitor(M);
	bool t = mc::thorough();
	added = new std::set<std::string>;
	PAT = (unsigned char *)malloc(65521 + MAXLEN);
	for (int i = 0; i < 65521 + MAXLEN; i++) PAT[i] = (i * 2654435761u) >> 13;
	for (int i = 0; i < 8; i++)
		mc::scenario(std::string("every argument of set_") + ranges[i].name, [i] {
			RI = i;
			conc::opt = conc::Options();
			conc::prepare();
			conc::run(setter_body, nullptr);
		}, 0);
	simple("every argument of set_max_frame_size", max_frame_args);
	simple("max_frame_size", max_frame_body, 24);
	simple("content types", ctypes_body, 81);
	simple("file options", file_body);
	simple("socket options", socket_body);
	// defaults
	for (int how : {3, 4})
		for (int len : {4, 150, 4090}) {
			S s;
			s.how = how; s.len = len; s.deviations = t ? 2 : 1;
			add(s);
		}
	// all pairs of boundary values, the others at values that make a small workload
	Cfg base;
	base.hint = 1024; base.ft = 600; base.insz = 8; base.outsz = 4; base.notify = 3; base.reopen = 2;
	struct Opt { unsigned Cfg::*m; std::vector<unsigned> v; };
	std::vector<Opt> os = {
		{&Cfg::hint, {1024, 1025, 8192, 65536}}, {&Cfg::ft, {1, 2, 600}}, {&Cfg::insz, {2, 4, 16, 1024, 16384}}, {&Cfg::nq, {1, 2, 5}}, {&Cfg::outsz, {2, 3, 64, 127, 128, 129, 1024}},
		{&Cfg::notify, {1, 2, 7, 8, 4000000000u}}, {&Cfg::reopen, {1, 5, 600}}};
	for (size_t a = 0; a < os.size(); a++)
		for (size_t b = a + 1; b < os.size(); b++)
			for (unsigned va : os[a].v)
				for (unsigned vb : os[b].v)
					for (int mpsc : {0, 1})
						for (int how : {0, 1, 2}) {
							S s;
							s.c = base;
							s.c.mpsc = mpsc;
							s.c.*os[a].m = va;
							s.c.*os[b].m = vb;
							s.how = how;
							s.deviations = t ? 2 : 1;
							if (!t && s.c.insz > 1000 && (how || mpsc)) continue;
							add(s);
							if (!how) { s.len = 300; if (s.c.insz <= 1024 || t) add(s); }
						}
	// long frames
	for (int mpsc : {0, 1})
		for (unsigned hint : {1024, 8192, 65536})
			for (unsigned out : {2, 64})
				for (unsigned nq : {1, 2}) {
					S s;
					s.c.mpsc = mpsc; s.c.hint = hint; s.c.outsz = out; s.c.nq = nq; s.c.insz = 8;
					s.big = true;
					add(s);
					s.big = false;
					for (int len : {65532, 65540, 300000}) { s.len = len; add(s); }
				}
	// with all schedules of up to one or two deviations
	for (int mpsc : {0, 1})
		for (int how : {1, 2})
			for (unsigned ft : {1, 600})
				for (unsigned notify : {1, 2, 3}) {
					S s;
					s.c = base;
					s.c.insz = 4;
					s.c.mpsc = mpsc; s.c.ft = ft; s.c.notify = notify;
					s.how = how;
					s.deviations = t ? 3 : 2;
					add(s);
				}
	for (int how : {0, 1, 2})
		for (int n : {1, 2}) {
			if (!t && n == 2 && how == 1) continue;
			S s;
			s.c = base;
			s.c.insz = 8; s.c.mpsc = 1; s.how = how; s.two = n;
			mc::scenario("two producers on one queue, " + std::to_string(n) + " frames each: " + describe(s), [s] {
				C = s;
				conc::opt = conc::Options();
				conc::opt.timeouts = 1;
				conc::prepare();
				conc::run(body2, nullptr);
			}, 0);
		}
	mc::config.note = "every argument 0..70000 and around every power of two of each setter; all pairs of boundary values of the options of the I/O thread, in both queue models, set directly, over another value, or followed by refused values, "
		"and changed and destroyed after use, each run end to end (capacity of the queue, size of batches, wake-up, flush timeout, reopening) under the non-preemptive schedule and, for the smaller ones, under all schedules with the stated number of preemptions";
	mc::config.assumptions = {"time passes only when no thread can run", "in the runs of configurations memory accesses are not switch points (C12-C18 explore those)"};
}
