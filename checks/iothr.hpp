// Shared by C14-C18: the I/O thread between controlled producers and a controlled transport.
#pragma once
#include "conc.hpp"
#include "ref.hpp"
extern "C" {
#include "fstrm.h"
}
#define NOINLINE __attribute__((noinline))
enum { MAXFR = 16, MAXQ = 4, BUFSZ = 1400, MAXCONN = 12 };
enum { F_NONE, F_SUBMITTING, F_ACCEPTED, F_REFUSED };
struct Fr {
	uint8_t st, freed, delivered, q, conn, nofree;
	uint16_t before; // frames of the same queue whose submission had returned when this one's began
	unsigned char *data;
	int32_t at; // when it was submitted
};
struct Mon {
	Fr fr[MAXFR];
	// transport
	uint8_t open, broken, destroyed, nconn, bidir, faults, phase, ctl;
	uint8_t brk[MAXCONN], opens, closes, pending_block, pace, attempts, expect_stop;
	int32_t last_attempt, closed_at;
	uint16_t nbuf, nin, inpos;
	uint8_t producers_left, shutting, steps_left, may_block, jumps;
	unsigned char buf[BUFSZ], in[200];
};
static Mon M;
struct S {
	bool mpsc = false, bidir = false, ctype = true;
	int nq = 1, nprod = 1, frames = 2, insz = 2, outsz = 4, hint = 1024, ft = 1, notify = 1, reopen = 2;
	int len0 = 3, len1 = 5;   // lengths of even and odd frames
	int faults = 0, timeouts = 1, spurious = 0, deviations = -1;
	bool retry = false;       // a producer tries again until its frame is accepted
	bool bad_args = false;    // also submissions that have to be refused
	bool nofree = false;      // some frames have no callback
	int mode = 0;             // see main_body
	int steps = 0;
	bool destroy_early = false;
	long uptime = 100000, nsec = 0; // what the clocks show at the start
	int jumps = 0;            // how often the wall clock is set
};
static S C;
static struct fstrm_iothr *IO;
static struct fstrm_iothr_queue *QH[MAXQ];

static int flen(int id) { return id & 1 ? C.len1 : C.len0; }
static unsigned char fpat(int id, int j) { return j == 0 ? 0x40 + id : (unsigned char)(id * 29 + j * 7 + (j >> 8) * 3); }

// ---- the peer: checks the stream ----
NOINLINE static void peer_send(uint32_t type)
{
	ref::L l;
	if (type == ref::ACCEPT && C.ctype) l.push_back("ty");
	ref::B b = ref::ctl(type, l);
	if (M.nin + b.size() > sizeof M.in) { fprintf(stderr, "peer buffer\n"); abort(); }
	memcpy(M.in + M.nin, b.data(), b.size());
	M.nin += b.size();
}
NOINLINE static void got_control(const unsigned char *p, size_t n)
{
	uint32_t type = 0;
	ref::L l;
	CHECK(ref::decode(ref::B((const char *)p, n), type, l), "the output contains an invalid control frame of %zu bytes", n);
	ref::L want;
	if (C.ctype) want.push_back("ty");
	switch (type) {
	case ref::READY:
		CHECK(M.bidir && M.phase == 0, "READY at the wrong place in the output");
		CHECK(l == want, "READY has the wrong content types");
		M.phase = 1;
		peer_send(ref::ACCEPT);
		break;
	case ref::START:
		CHECK(M.phase == (M.bidir ? 1 : 0), "START at the wrong place in the output");
		CHECK(!M.bidir || M.inpos == M.nin, "START before the ACCEPT was read");
		CHECK(l == want, "START has the wrong content type");
		M.phase = 2;
		break;
	case ref::STOP:
		CHECK(M.phase == 2, "STOP at the wrong place in the output");
		M.phase = 3;
		if (M.bidir) peer_send(ref::FINISH);
		break;
	default: mc::fail("control frame of type %u in the output", type);
	}
	mc::note("   output: control frame %u", type);
}
NOINLINE static void got_data(const unsigned char *p, size_t n)
{
	CHECK(M.phase == 2, "a data frame outside of START and STOP");
	int id = p[0] - 0x40;
	CHECK(id >= 0 && id < MAXFR && M.fr[id].st != F_NONE, "the output has a data frame of %zu bytes that was never submitted", n);
	Fr &f = M.fr[id];
	bool same = (int)n == flen(id);
	for (size_t j = 0; j < n && same; j++) same = p[j] == fpat(id, j);
	CHECK(same, "frame %d is corrupted in the output (%zu bytes)", id, n);
	CHECK(f.st != F_REFUSED, "frame %d was refused but is in the output", id);
	CHECK(!f.delivered, "frame %d is in the output twice", id);
	f.delivered = M.nconn;
	for (int k = 0; k < MAXFR; k++)
		if (M.fr[k].st != F_NONE && M.fr[k].q == f.q && M.fr[k].delivered && k != id)
			CHECK(!(M.fr[k].before >> id & 1), "frame %d is in the output after frame %d of the same queue, which was submitted later", id, k);
	mc::note("   output: frame %d", id);
}
NOINLINE static void parse(const unsigned char *p, size_t n)
{
	while (n > 0) {
		size_t k = std::min(n, (size_t)BUFSZ - M.nbuf);
		memcpy(M.buf + M.nbuf, p, k);
		M.nbuf += k;
		p += k;
		n -= k;
		size_t o = 0;
		for (;;) {
			size_t left = M.nbuf - o;
			if (left < 4) break;
			uint32_t len = M.buf[o] << 24 | M.buf[o + 1] << 16 | M.buf[o + 2] << 8 | M.buf[o + 3];
			if (len == 0) {
				if (left < 8) break;
				len = M.buf[o + 4] << 24 | M.buf[o + 5] << 16 | M.buf[o + 6] << 8 | M.buf[o + 7];
				CHECK(len <= 512, "the output has a control frame of %u bytes", len);
				if (left < 8 + len) break;
				got_control(M.buf + o + 8, len);
				o += 8 + len;
			} else {
				CHECK(len <= BUFSZ - 4, "the output has a data frame of %u bytes", len);
				if (left < 4 + len) break;
				got_data(M.buf + o + 4, len);
				o += 4 + len;
			}
		}
		memmove(M.buf, M.buf + o, M.nbuf - o);
		memset(M.buf + M.nbuf - o, 0, o);
		M.nbuf -= o;
	}
}
// ---- the transport ----
static bool unblocked(void *) { return !M.pending_block; }
// the output stops taking anything, once, from here until the producers are done
static void may_block(const char *what)
{
	if (!M.may_block || !M.producers_left || !conc::choose(2, what)) return;
	M.may_block = 0;
	M.pending_block = 1;
	mc::note("   %s", what);
}
static bool fault(const char *what)
{
	if (!M.faults) return false;
	if (!conc::choose(2, what)) return false;
	M.faults--;
	mc::note("   %s", what);
	return true;
}
static void mark_broken() { M.broken = 1; if (M.nconn < MAXCONN) M.brk[M.nconn] = 1; }
NOINLINE static void pace()
{
	M.attempts = M.attempts < 200 ? M.attempts + 1 : 200;
	if (M.pace && M.last_attempt >= 0)
		CHECK(conc::now() - M.last_attempt >= C.reopen, "the output is opened again %ld s after the last attempt; the interval is %d s", conc::now() - M.last_attempt, C.reopen);
	M.last_attempt = conc::now();
}
static fstrm_res t_open(void *)
{
	conc::yield("transport open");
	CHECK(!M.destroyed, "open after the transport was destroyed");
	CHECK(!M.open, "the transport is opened while it is open");
	pace();
	may_block("open blocks");
	conc::wait(unblocked, nullptr, "blocking open");
	if (fault("open fails")) { M.closed_at = conc::now(); return fstrm_res_failure; }
	if (M.nconn + 1 < MAXCONN) M.nconn++;
	M.brk[M.nconn] = 0;
	M.open = 1;
	M.opens++;
	M.broken = 0;
	M.phase = 0;
	M.nbuf = M.nin = M.inpos = 0;
	memset(M.buf, 0, sizeof M.buf);
	memset(M.in, 0, sizeof M.in);
	return fstrm_res_success;
}
static fstrm_res t_close(void *)
{
	conc::yield("transport close");
	CHECK(!M.destroyed, "close after the transport was destroyed");
	CHECK(M.open, "the transport is closed while it is not open");
	M.closes++;
	M.open = 0;
	M.closed_at = conc::now();
	if (!M.broken) {
		CHECK(M.phase == 3, "the output was closed without STOP");
		CHECK(M.nbuf == 0, "the output ends within a frame");
		CHECK(!M.bidir || M.inpos == M.nin, "the output was closed before FINISH was read");
	}
	if (fault("close fails")) return fstrm_res_failure;
	return fstrm_res_success;
}
static fstrm_res t_destroy(void *)
{
	conc::yield("transport destroy");
	CHECK(!M.destroyed, "the transport is destroyed twice");
	CHECK(!M.open, "the transport is destroyed while it is open");
	M.destroyed = 1;
	return fstrm_res_success;
}
static fstrm_res t_write(void *, const struct iovec *v, int n)
{
	conc::yield("transport write");
	CHECK(!M.destroyed, "write after the transport was destroyed");
	if (!M.open || M.broken) { mark_broken(); return fstrm_res_failure; }
	may_block("write blocks");
	conc::wait(unblocked, nullptr, "blocking write");
	int how = 0;
	if (M.faults) {
		how = conc::choose(3, "write");
		if (how) { M.faults--; mark_broken(); mc::note("   write fails %s", how == 1 ? "at once" : "after everything was sent"); }
	}
	if (how == 1) return fstrm_res_failure;
	conc::readable(v, n * sizeof *v);
	for (int i = 0; i < n; i++) {
		conc::readable(v[i].iov_base, v[i].iov_len);
		parse((const unsigned char *)v[i].iov_base, v[i].iov_len);
	}
	return how ? fstrm_res_failure : fstrm_res_success;
}
static fstrm_res t_read(void *, void *p, size_t n)
{
	conc::yield("transport read");
	CHECK(!M.destroyed, "read after the transport was destroyed");
	if (!M.open || M.broken) return fstrm_res_failure;
	may_block("read blocks");
	conc::wait(unblocked, nullptr, "blocking read");
	if (fault("read fails")) { mark_broken(); return fstrm_res_failure; }
	if ((size_t)(M.nin - M.inpos) < n) { mark_broken(); mc::note("   read of %zu bytes: the peer has nothing to say", n); return fstrm_res_failure; }
	memcpy(p, M.in + M.inpos, n);
	M.inpos += n;
	return fstrm_res_success;
}
// ---- frames ----
NOINLINE static void make_frame(int id, int q)
{
	Fr &f = M.fr[id];
	if (!f.data) f.data = (unsigned char *)conc::alloc(flen(id));
	for (int j = 0; j < flen(id); j++) f.data[j] = fpat(id, j);
	f.q = q;
	f.st = F_SUBMITTING;
	f.before = 0;
	f.at = C.mode == 4 ? conc::now() : 0;
	for (int k = 0; k < MAXFR; k++) if (k != id && M.fr[k].st == F_ACCEPTED && M.fr[k].q == q) f.before |= 1 << k;
	f.conn = M.open && !M.broken ? M.nconn : 0;
}
NOINLINE static void check_content(int id, const char *when)
{
	Fr &f = M.fr[id];
	conc::readable(f.data, flen(id));
	for (int j = 0; j < flen(id); j++) CHECK(f.data[j] == fpat(id, j), "frame %d was modified (%s)", id, when);
}
static void free_frame(void *data, void *arg)
{
	conc::yield("free callback");
	int id = (int)(long)arg - 1000;
	CHECK(id >= 0 && id < MAXFR, "the callback got the wrong user pointer");
	Fr &f = M.fr[id];
	CHECK(data == f.data, "the callback got the wrong data pointer");
	CHECK(!f.nofree, "a callback for a frame that has none");
	CHECK(f.st != F_REFUSED && f.st != F_NONE, "the callback is invoked for frame %d, which was refused", id);
	CHECK(!f.freed, "the callback is invoked twice for frame %d", id);
	check_content(id, "before its release");
	f.freed = 1;
	conc::dealloc(f.data);
	mc::note("   frame %d released", id);
	if (C.mode == 5) conc::sleep(1); // a slow callback
}
NOINLINE static void submitted(int id, fstrm_res r)
{
	Fr &f = M.fr[id];
	mc::note("   submit of frame %d: %d", id, (int)r);
	if (r == fstrm_res_success) { f.st = F_ACCEPTED; return; }
	CHECK(r == fstrm_res_again, "submit of a valid frame returned %d", (int)r);
	CHECK(!f.freed && !f.delivered, "frame %d was refused but was %s", id, f.freed ? "released" : "delivered");
	f.st = F_REFUSED;
}
NOINLINE static bool submit(int id, int q, bool keep = false)
{
	make_frame(id, q);
	// 0: with our callback; 1: without one; 2: with the library's own
	int nofree = C.nofree ? (id % 3 == 1 ? 1 : id % 5 == 2 ? 2 : 0) : 0;
	M.fr[id].nofree = nofree;
	fstrm_res r = fstrm_iothr_submit(IO, QH[q], M.fr[id].data, flen(id), nofree == 1 ? nullptr : nofree == 2 ? fstrm_free_wrapper : free_frame, (void *)(long)(1000 + id));
	submitted(id, r);
	if (r != fstrm_res_success) {
		conc::yield("refused");
		check_content(id, "after it was refused");
		if (keep) { M.fr[id].st = F_NONE; return false; }
		conc::dealloc(M.fr[id].data);
		return false;
	}
	return true;
}
static void no_free(void *, void *) { mc::fail("the callback is invoked for an invalid submission"); }
NOINLINE static void bad_submissions(int q)
{
	unsigned char *d = (unsigned char *)conc::alloc(4);
	fstrm_res r = fstrm_iothr_submit(IO, QH[q], nullptr, 4, no_free, d);
	CHECK(r == fstrm_res_invalid, "submission without data: %d", (int)r);
	r = fstrm_iothr_submit(IO, QH[q], d, 0, no_free, d);
	CHECK(r == fstrm_res_invalid, "submission of length 0: %d", (int)r);
	r = fstrm_iothr_submit(IO, QH[q], d, 0xffffffffULL, no_free, d);
	CHECK(r == fstrm_res_invalid, "submission of length 2^32-1: %d", (int)r);
	r = fstrm_iothr_submit(IO, QH[q], d, 0x100000003ULL, no_free, d);
	CHECK(r == fstrm_res_invalid, "submission of length 2^32+3: %d", (int)r);
	conc::dealloc(d);
}
static void producer(void *a)
{
	int p = (int)(long)a, q = p % C.nq;
	for (int i = 0; i < C.frames; i++) {
		int id = p * C.frames + i;
		if (C.bad_args && i == 1) bad_submissions(q);
		while (!submit(id, q, C.retry) && C.retry) {}
	}
	M.producers_left--;
	if (!M.producers_left && C.mode == 2) M.pending_block = 0;
}
NOINLINE static void setup(void)
{
	struct fstrm_writer_options *wo = fstrm_writer_options_init();
	if (C.ctype) CHECK(fstrm_writer_options_add_content_type(wo, "ty", 2) == fstrm_res_success, "content type refused");
	struct fstrm_rdwr *rdwr = fstrm_rdwr_init(nullptr);
	fstrm_rdwr_set_destroy(rdwr, t_destroy);
	fstrm_rdwr_set_open(rdwr, t_open);
	fstrm_rdwr_set_close(rdwr, t_close);
	fstrm_rdwr_set_write(rdwr, t_write);
	if (C.bidir) fstrm_rdwr_set_read(rdwr, t_read);
	struct fstrm_writer *w = fstrm_writer_init(wo, &rdwr);
	CHECK(w, "writer refused");
	fstrm_writer_options_destroy(&wo);
	struct fstrm_iothr_options *o = fstrm_iothr_options_init();
	fstrm_res r = fstrm_res_success;
	auto ok = [&](fstrm_res x) { if (x != fstrm_res_success) r = x; };
	ok(fstrm_iothr_options_set_buffer_hint(o, C.hint));
	ok(fstrm_iothr_options_set_flush_timeout(o, C.ft));
	ok(fstrm_iothr_options_set_input_queue_size(o, C.insz));
	ok(fstrm_iothr_options_set_num_input_queues(o, C.nq));
	ok(fstrm_iothr_options_set_output_queue_size(o, C.outsz));
	ok(fstrm_iothr_options_set_queue_model(o, C.mpsc ? FSTRM_IOTHR_QUEUE_MODEL_MPSC : FSTRM_IOTHR_QUEUE_MODEL_SPSC));
	ok(fstrm_iothr_options_set_queue_notify_threshold(o, C.notify));
	ok(fstrm_iothr_options_set_reopen_interval(o, C.reopen));
	CHECK(r == fstrm_res_success, "an option within its range is refused");
	IO = fstrm_iothr_init(o, &w);
	CHECK(IO, "fstrm_iothr_init fails");
	CHECK(!w, "fstrm_iothr_init left the caller its writer");
	fstrm_iothr_options_destroy(&o);
}
NOINLINE static void final_checks()
{
	CHECK(!IO, "destroy left the pointer");
	CHECK(!M.open, "the transport is open after destroy");
	CHECK(M.destroyed, "the transport was not destroyed");
	CHECK(M.opens == M.closes, "the transport was opened %d and closed %d times", M.opens, M.closes);
	for (int i = 0; i < MAXFR; i++) {
		Fr &f = M.fr[i];
		if (f.st != F_ACCEPTED) continue;
		if (f.nofree == 2) CHECK(!conc::is_live(f.data), "frame %d was accepted but never released by fstrm_free_wrapper", i);
		else if (!f.nofree) CHECK(f.freed, "frame %d was accepted but never released", i);
		else { check_content(i, "after destroy"); conc::dealloc(f.data); }
		if (f.conn && !M.brk[f.conn]) CHECK(f.delivered == f.conn, "frame %d was accepted while the output was open and working, but is not in it", i);
		if (!C.faults) CHECK(f.delivered, "frame %d was accepted but is not in the output", i);
	}
	CHECK(conc::live_blocks() == 0, "%zu blocks (%zu bytes) are left after destroy", conc::live_blocks(), conc::live_bytes());
	std::string o;
	for (int i = 0; i < MAXFR; i++) if (M.fr[i].st) o += (M.fr[i].st == F_REFUSED ? "r" : M.fr[i].delivered ? "d" : "x");
	o += " conns=" + std::to_string(M.opens);
	mc::outcome(o);
}
static bool all_delivered(void *)
{
	for (int i = 0; i < MAXFR; i++) if (M.fr[i].st == F_ACCEPTED && !M.fr[i].delivered) return false;
	return true;
}
// The thread looks at the clock at least once per flush timeout, at whole seconds.
static void due(int extra = 0)
{
	if (M.open) return;
	if (M.last_attempt < 0) CHECK(conc::now() < C.ft + extra, "at %ld s the output was never tried to be opened", conc::now());
	if (M.last_attempt < 0) return;
	long d = std::max<long>(M.last_attempt + C.reopen, M.closed_at);
	CHECK(conc::now() < d + C.ft + extra, "the output is closed since %d s, the last attempt was at %d s, the interval is %d s, and at %ld s it was not tried again", M.closed_at, M.last_attempt, C.reopen, conc::now());
}
// frames accepted while the output is closed must be let go (or delivered)
static bool all_settled(void *)
{
	for (int i = 0; i < MAXFR; i++) if (M.fr[i].st == F_ACCEPTED && !M.fr[i].nofree && !M.fr[i].delivered && !M.fr[i].freed) return false;
	return true;
}
NOINLINE static void late()
{
	for (int i = 0; i < MAXFR; i++) {
		Fr &f = M.fr[i];
		if (f.st == F_ACCEPTED && !f.delivered) CHECK(conc::now() <= f.at + 2 * C.ft, "frame %d was submitted at %d s and has not reached the output at %ld s, the flush timeout is %d s", i, f.at, conc::now(), C.ft);
	}
}
static void set_clock(bool back) { M.jumps--; conc::set_clock(back ? -5000 : 5000); }
static void main_body(void *)
{
	setup();
	for (int q = 0; q < C.nq; q++) { QH[q] = fstrm_iothr_get_input_queue(IO); CHECK(QH[q], "no input queue %d", q); }
	if (C.mode == 4) {
		// a trickle of frames: however they are spaced, each one is on time
		int id = 0, n = MAXFR - 1;
		for (int i = 0; i < C.steps; i++) {
			int k = conc::choose(id < n ? 3 : 2, "step");
			if (k == 0) break;
			if (k == 1) conc::sleep(1);
			if (k == 2) { submit(id, id % C.nq); id++; }
			late();
		}
	} else if (C.mode == 5) {
		// the queue is never empty: the thread is always busy, with callbacks that take a second each
		int id = 0;
		for (int i = 0; i < C.steps; i++) {
			while (id < MAXFR && submit(id, id % C.nq, true)) id++;
			due(C.outsz + 1);
			conc::sleep(1);
		}
	} else if (C.mode == 3) {
		// the producer is this thread: submissions and the passing of time in every order
		int id = 0;
		for (int i = 0; i < C.steps; i++) {
			int k = conc::choose(M.jumps ? 5 : id < MAXFR ? 3 : 2, "step");
			if (k == 0) break;
			if (k == 1) { conc::sleep(1); if (!C.timeouts) due(); }
			if (k == 2) { submit(id, id % C.nq); id++; }
			if (k > 2) set_clock(k == 3);
		}
		if (!C.timeouts && conc::choose(2, "settle")) {
			CHECK(conc::wait_until(all_settled, nullptr, conc::now() + 2 * C.ft + 1, "settle"), "a frame was neither delivered nor released within two flush timeouts");
			due();
		}
	} else {
		int f[8];
		for (int p = 0; p < C.nprod; p++) f[p] = conc::spawn(producer, (void *)(long)p);
		for (int p = 0; p < C.nprod; p++) conc::join(f[p]);
		if (M.jumps) { int k = conc::choose(3, "clock"); if (k) set_clock(k == 1); }
		if (C.mode == 1)
			CHECK(conc::wait_until(all_delivered, nullptr, conc::now() + 2 * C.ft + 1, "delivery"), "a frame was not delivered within two flush timeouts");
	}
	M.pending_block = 0;
	M.shutting = 1;
	fstrm_iothr_destroy(&IO);
	final_checks();
}
static void iothr_scenario(const std::string &name, S s)
{
	mc::scenario(name, [s] {
		C = s;
		conc::opt = conc::Options();
		conc::opt.timeouts = s.timeouts;
		conc::opt.spurious = s.spurious;
		conc::opt.bounded = s.deviations >= 0;
		conc::opt.uptime = s.uptime;
		conc::opt.nsec = s.nsec;
		conc::prepare();
		M.bidir = s.bidir;
		M.faults = s.faults;
		M.last_attempt = -1;
		M.producers_left = s.nprod;
		M.pace = s.timeouts == 0;
		M.jumps = s.jumps;
		M.may_block = s.mode == 2;
		conc::run(main_body, nullptr);
	}, s.deviations < 0 ? 0 : s.deviations);
}
static std::string describe(const S &s)
{
	char b[300];
	snprintf(b, sizeof b, "%s%s q=%d p=%d x%d in=%d out=%d hint=%d ft=%d notify=%d reopen=%d len=%d,%d faults=%d timeouts=%d spurious=%d%s%s%s mode=%d steps=%d%s%s", s.mpsc ? "mpsc" : "spsc", s.bidir ? " bidir" : "", s.nq, s.nprod, s.frames,
		 s.insz, s.outsz, s.hint, s.ft, s.notify, s.reopen, s.len0, s.len1, s.faults, s.timeouts, s.spurious, s.retry ? " retry" : "", s.bad_args ? " bad" : "", s.nofree ? " nofree" : "", s.mode, s.steps,
		 s.ctype ? "" : " no-ctype", s.deviations >= 0 ? (" dev=" + std::to_string(s.deviations)).c_str() : "");
	if (s.uptime != 100000 || s.nsec) snprintf(b + strlen(b), sizeof b - strlen(b), " clock=%ld.%09ld", s.uptime, s.nsec);
	if (s.jumps) snprintf(b + strlen(b), sizeof b - strlen(b), " jumps=%d", s.jumps);
	return b;
}
static void add(S s) { iothr_scenario(describe(s), s); }
