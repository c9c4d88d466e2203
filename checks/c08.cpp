// C08: a writer and a reader joined by a byte stream in both directions.
#include "conc.hpp"
#include "ref.hpp"
extern "C" {
#include "fstrm.h"
}
#define NOINLINE __attribute__((noinline))
const char *mc_property = "C08";
enum { CAP = 600, MAXS = 2, MAXFR = 4 };
struct Pipe { uint16_t n; uint8_t wclosed, rclosed; unsigned char b[CAP]; };
struct Sess { Pipe p[2]; }; // 0: to the reader, 1: to the writer
struct End { uint8_t open, gone, broken, destroyed, sess; };
struct Res {
	// writer
	uint8_t wopen, wclose, nwritten, ntried, wfault;
	// reader
	uint8_t ropen, nread, stop, rclose, early, rfault, eof, finish;
	uint8_t wstart[24], rstart[24], nwstart, nrstart;
};
struct Mon { Sess s[MAXS]; End e[2]; Res r[MAXS]; uint8_t faults, waiting; };
static Mon M;
struct S { std::vector<int> w, r; int frames = 2, cap = 7, faults = 0, sess = 1; bool early = false, batch = false, expl = true, eof_stop = false, big = false; };
static S C;
static const char *const AL[] = {"a", "b", "", "ab"};
static int flen(int s, int i) { return C.big && i == 1 ? 520 : 1 + (s * 3 + i * 4) % 9; }
static unsigned char fpat(int s, int i, int j) { return 0x41 + s * 50 + i * 7 + j % 251; }
// ---- the transport: side 0 is the writer's ----
struct W { int side, n; const unsigned char *p; };
static Pipe &out_of(int side) { return M.s[M.e[side].sess - 1].p[side]; }
static Pipe &in_of(int side) { return M.s[M.e[side].sess - 1].p[1 - side]; }
static bool room(void *a) { Pipe &p = out_of((int)(long)a); return p.rclosed || p.n < C.cap; }
static bool avail(void *a) { Pipe &p = in_of((int)(long)a); return p.wclosed || p.n; }
NOINLINE static void hang_up(int side) { End &e = M.e[side]; e.broken = 1; out_of(side).wclosed = 1; in_of(side).rclosed = 1; }
NOINLINE static bool fault(int side, const char *what)
{
	if (!M.faults || !conc::choose(2, what)) return false;
	M.faults--;
	mc::note("   %s: %s", side ? "reader" : "writer", what);
	Res &r = M.r[M.e[side].sess - 1];
	(side ? r.rfault : r.wfault) = 1;
	return true;
}
static fstrm_res t_open(void *o)
{
	int side = (int)(long)o;
	conc::yield("open");
	End &e = M.e[side];
	CHECK(!e.open, "opened while open");
	CHECK(e.sess < MAXS, "opened more often than called for");
	e.sess++;
	e.broken = 0;
	if (fault(side, "open fails")) { hang_up(side); return fstrm_res_failure; }
	e.open = 1;
	return fstrm_res_success;
}
static fstrm_res t_close(void *o)
{
	int side = (int)(long)o;
	conc::yield("close");
	CHECK(M.e[side].open, "closed while not open");
	M.e[side].open = 0;
	hang_up(side);
	if (fault(side, "close fails")) return fstrm_res_failure;
	return fstrm_res_success;
}
static fstrm_res t_destroy(void *o)
{
	int side = (int)(long)o;
	CHECK(!M.e[side].open && !M.e[side].destroyed, "transport destroyed twice or while open");
	M.e[side].destroyed = 1;
	return fstrm_res_success;
}
static bool take(Pipe &p, const unsigned char *&d, size_t &n)
{
	size_t k = std::min<size_t>(n, C.cap - p.n);
	memcpy(p.b + p.n, d, k);
	p.n += k; d += k; n -= k;
	return n == 0;
}
static fstrm_res t_write(void *o, const struct iovec *v, int cnt)
{
	int side = (int)(long)o;
	conc::yield("write");
	if (!M.e[side].open || M.e[side].broken) return fstrm_res_failure;
	if (fault(side, "write fails")) { hang_up(side); return fstrm_res_failure; }
	conc::readable(v, cnt * sizeof *v);
	for (int i = 0; i < cnt; i++) {
		const unsigned char *d = (const unsigned char *)v[i].iov_base;
		size_t n = v[i].iov_len;
		conc::readable(d, n);
		while (n) {
			conc::wait(room, o, "room");
			Pipe &p = out_of(side);
			if (p.rclosed) { M.e[side].broken = 1; return fstrm_res_failure; }
			take(p, d, n);
		}
	}
	return fstrm_res_success;
}
static fstrm_res t_read(void *o, void *buf, size_t n)
{
	int side = (int)(long)o;
	conc::yield("read");
	if (!M.e[side].open || M.e[side].broken) return fstrm_res_failure;
	if (fault(side, "read fails")) { hang_up(side); return fstrm_res_failure; }
	unsigned char *d = (unsigned char *)buf;
	while (n) {
		conc::wait(avail, o, "data");
		Pipe &p = in_of(side);
		if (!p.n) { M.e[side].broken = 1; if (side) M.r[M.e[side].sess - 1].eof = 1; return C.eof_stop ? fstrm_res_stop : fstrm_res_failure; }
		size_t k = std::min<size_t>(n, p.n);
		memcpy(d, p.b, k);
		memmove(p.b, p.b + k, p.n - k);
		p.n -= k;
		memset(p.b + p.n, 0, k);
		d += k; n -= k;
	}
	return fstrm_res_success;
}
// ---- the two applications ----
NOINLINE static struct fstrm_rdwr *rdwr_of(int side)
{
	struct fstrm_rdwr *r = fstrm_rdwr_init((void *)(long)side);
	fstrm_rdwr_set_open(r, t_open);
	fstrm_rdwr_set_close(r, t_close);
	fstrm_rdwr_set_destroy(r, t_destroy);
	fstrm_rdwr_set_read(r, t_read);
	fstrm_rdwr_set_write(r, t_write);
	return r;
}
NOINLINE static uint8_t start_of(const struct fstrm_control *c, uint8_t *b)
{
	if (!c) return 0;
	size_t n = 24;
	if (fstrm_control_encode(c, b, &n, 0) != fstrm_res_success) mc::fail("the START frame reported cannot be encoded");
	return n;
}
NOINLINE static struct fstrm_writer *make_writer()
{
	struct fstrm_writer_options *o = fstrm_writer_options_init();
	for (int i : C.w) fstrm_writer_options_add_content_type(o, AL[i], strlen(AL[i]));
	struct fstrm_rdwr *r = rdwr_of(0);
	struct fstrm_writer *w = fstrm_writer_init(o, &r);
	fstrm_writer_options_destroy(&o);
	return w;
}
NOINLINE static struct fstrm_reader *make_reader()
{
	struct fstrm_reader_options *o = fstrm_reader_options_init();
	for (int i : C.r) fstrm_reader_options_add_content_type(o, AL[i], strlen(AL[i]));
	struct fstrm_rdwr *r = rdwr_of(1);
	struct fstrm_reader *x = fstrm_reader_init(o, &r);
	fstrm_reader_options_destroy(&o);
	return x;
}
static unsigned char WD[MAXS][MAXFR][520];
static void w_start(struct fstrm_writer *w, int s)
{
	struct fstrm_control *c = nullptr;
	if (fstrm_writer_get_control(w, FSTRM_CONTROL_START, &c) == fstrm_res_success) M.r[s].nwstart = start_of(c, M.r[s].wstart);
}
static void writer_app(void *)
{
	struct fstrm_writer *w = make_writer();
	for (int s = 0; s < C.sess; s++) {
		Res &r = M.r[s];
		bool ok = true;
		if (C.expl || s > 0) {
			r.wopen = fstrm_writer_open(w) == fstrm_res_success ? 1 : 2;
			ok = r.wopen == 1;
		} else if (C.frames == 0) {
			struct fstrm_control *c;
			ok = fstrm_writer_get_control(w, FSTRM_CONTROL_START, &c) == fstrm_res_success;
		}
		if (ok && C.batch) {
			struct iovec v[MAXFR];
			for (int i = 0; i < C.frames; i++) { v[i].iov_base = WD[s][i]; v[i].iov_len = flen(s, i); }
			r.ntried = C.frames;
			if (fstrm_writer_writev(w, v, C.frames) == fstrm_res_success) r.nwritten = C.frames; else ok = false;
			conc::scrub(v, sizeof v);
		} else for (int i = 0; ok && i < C.frames; i++) {
			r.ntried = i + 1;
			if (fstrm_writer_write(w, WD[s][i], flen(s, i)) == fstrm_res_success) r.nwritten = i + 1; else ok = false;
		}
		if (ok) { w_start(w, s); if (!r.wopen) r.wopen = 1; }
		if (s == C.sess - 1 && !C.expl) { r.wclose = fstrm_writer_destroy(&w) == fstrm_res_success ? 1 : 2; return; }
		r.wclose = fstrm_writer_close(w) == fstrm_res_success ? 1 : 2;
	}
	fstrm_writer_destroy(&w);
}
NOINLINE static void check_frame(int s, int i, const uint8_t *d, size_t n)
{
	CHECK(i < C.frames, "the reader gets more frames than were written");
	CHECK(i < M.r[s].ntried, "the reader gets a frame that was not written yet");
	bool same = (int)n == flen(s, i);
	for (size_t j = 0; same && j < n; j++) same = d[j] == fpat(s, i, j);
	CHECK(same, "the reader gets another frame %d than was written (%zu bytes)", i, n);
	mc::note("   frame %d is read", i);
}
static void reader_app(void *)
{
	struct fstrm_reader *x = make_reader();
	for (int s = 0; s < C.sess; s++) {
		Res &r = M.r[s];
		bool ok = true;
		if (C.expl || s > 0) { r.ropen = fstrm_reader_open(x) == fstrm_res_success ? 1 : 2; ok = r.ropen == 1; }
		else {
			const struct fstrm_control *c;
			r.ropen = fstrm_reader_get_control(x, FSTRM_CONTROL_START, &c) == fstrm_res_success ? 1 : 2;
			ok = r.ropen == 1;
			conc::scrub(&c, sizeof c);
		}
		if (ok) {
			const struct fstrm_control *c = nullptr;
			CHECK(fstrm_reader_get_control(x, FSTRM_CONTROL_START, &c) == fstrm_res_success && c, "no START frame is reported");
			r.nrstart = start_of(c, r.rstart);
			conc::scrub(&c, sizeof c);
		}
		while (ok) {
			if (C.early && conc::choose(2, "stop reading")) { r.early = 1; mc::note("   the reader closes"); break; }
			const uint8_t *d = nullptr;
			size_t n = 0;
			fstrm_res q = fstrm_reader_read(x, &d, &n);
			if (q == fstrm_res_success) { check_frame(s, r.nread, d, n); r.nread++; }
			else {
				const struct fstrm_control *c = nullptr;
				if (q == fstrm_res_stop && fstrm_reader_get_control(x, FSTRM_CONTROL_STOP, &c) == fstrm_res_success && c && !r.eof) r.stop = 1;
				conc::scrub(&c, sizeof c);
				CHECK(q != fstrm_res_stop || r.stop || r.eof, "end of stream without STOP");
				ok = false;
			}
			conc::scrub(&d, sizeof d);
		}
		if (s == C.sess - 1 && !C.expl) { r.rclose = fstrm_reader_destroy(&x) == fstrm_res_success ? 1 : 2; return; }
		r.rclose = fstrm_reader_close(x) == fstrm_res_success ? 1 : 2;
	}
	fstrm_reader_destroy(&x);
}
NOINLINE static void final_checks()
{
	CHECK(conc::live_blocks() == 0, "%zu blocks are left", conc::live_blocks());
	std::string o;
	ref::L wl, rl, acc, st;
	for (int i : C.w) wl.push_back(AL[i]);
	for (int i : C.r) rl.push_back(AL[i]);
	for (auto &t : rl) if (ref::match(ref::READY, wl, &t)) acc.push_back(t);
	bool wcompat = wl.empty();
	for (auto &t : wl) if (ref::match(ref::ACCEPT, acc, &t)) { wcompat = true; st.push_back(t); break; }
	bool rcompat = rl.empty();
	for (auto &t : rl) if (ref::match(ref::START, st, &t)) rcompat = true;
	bool compat = wcompat && rcompat;
	for (int s = 0; s < C.sess; s++) {
		Res &r = M.r[s];
		bool faulty = r.wfault || r.rfault;
		// what holds whatever happened
		CHECK(r.ropen != 1 || compat, "the reader opened although the content types do not fit");
		CHECK(r.nread == 0 || compat, "a data frame was exchanged although the content types do not fit");
		if (r.nrstart && r.nwstart) CHECK(r.nrstart == r.nwstart && !memcmp(r.rstart, r.wstart, r.nrstart), "the two sides opened with different content types");
		if (r.nrstart) {
			ref::B w = ref::ctl_payload(ref::START, st);
			CHECK(ref::B((char *)r.rstart, r.nrstart) == w, "opened with START %s, not %s", ref::hex(ref::B((char *)r.rstart, r.nrstart)).c_str(), ref::hex(w).c_str());
		}
		if (r.stop) CHECK(r.nread == r.nwritten, "the reader saw the end of the stream after %d of %d frames", r.nread, r.nwritten);
		if (r.wclose == 1) {
			CHECK(r.wopen == 1, "the writer's close succeeds although it did not open");
			CHECK(r.stop, "the writer's close succeeds although the reader did not see STOP");
			CHECK(r.nread == r.nwritten && r.nwritten == C.frames, "the writer's close succeeds but %d of %d frames were read", r.nread, C.frames);
		}
		if (r.rclose == 1) CHECK(r.ropen == 1, "the reader's close succeeds although it did not open");
		if (!faulty && compat && !r.early) {
			CHECK(r.wopen == 1 && r.ropen == 1, "both sides fit but opening failed (writer %d, reader %d)", r.wopen, r.ropen);
			CHECK(r.nread == C.frames, "%d of %d frames were read", r.nread, C.frames);
			CHECK(r.stop, "the reader did not see the end of the stream");
			CHECK(r.wclose == 1, "the writer's close failed");
			CHECK(r.rclose == 1, "the reader's close failed");
		}
		if (!compat) {
			CHECK(r.ropen == 2, "the reader opened");
			CHECK(r.wclose == 2, "the writer's close succeeded");
		}
		o += std::to_string(r.wopen) + std::to_string(r.wclose) + std::to_string(r.ropen) + std::to_string(r.nread) + std::to_string(r.stop) + std::to_string(r.rclose) + " ";
	}
	mc::outcome(o);
}
// a side that is gone does not take part in any further session
static void leave(int side) { for (int s = 0; s < MAXS; s++) { M.s[s].p[side].wclosed = 1; M.s[s].p[1 - side].rclosed = 1; } }
static void writer_main(void *) { writer_app(nullptr); leave(0); }
static void reader_main(void *) { reader_app(nullptr); leave(1); }
static void body(void *)
{
	int a = conc::spawn(writer_main, nullptr), b = conc::spawn(reader_main, nullptr);
	conc::join(a);
	conc::join(b);
	final_checks();
}
static void add(const S &s)
{
	std::string n = "w=[", sep;
	for (int i : s.w) { n += sep + "\"" + AL[i] + "\""; sep = ","; }
	n += "] r=["; sep = "";
	for (int i : s.r) { n += sep + "\"" + AL[i] + "\""; sep = ","; }
	n += "] frames=" + std::to_string(s.frames) + " cap=" + std::to_string(s.cap) + " faults=" + std::to_string(s.faults) + " sessions=" + std::to_string(s.sess);
	n += std::string(s.early ? " early" : "") + (s.batch ? " batch" : "") + (s.expl ? "" : " implicit") + (s.eof_stop ? " eof=stop" : "") + (s.big ? " big" : "");
	mc::scenario(n, [s] {
		C = s;
		conc::opt = conc::Options();
		conc::prepare();
		M.faults = s.faults;
		for (int k = 0; k < MAXS; k++) for (int i = 0; i < MAXFR; i++) for (int j = 0; j < 520; j++) WD[k][i][j] = fpat(k, i, j);
		conc::run(body, nullptr);
	}, 0);
}
void mc_setup()
{
	conc::monitor(M);
	bool t = mc::thorough();
	std::vector<std::vector<int>> lists = {{}, {0}, {1}, {0, 1}, {1, 0}, {2}, {3}, {2, 0}, {3, 0}};
	if (t) for (auto l : std::vector<std::vector<int>>{{1, 2}, {0, 2}, {0, 3}, {3, 2}, {2, 3}, {1, 3}, {3, 1}, {2, 1}, {0, 0}, {0, 1, 3}, {3, 1, 0}, {2, 0, 1}}) lists.push_back(l);
	for (auto &w : lists)
		for (auto &r : lists) {
			S s;
			s.w = w; s.r = r;
			s.frames = 1; s.cap = 7;
			add(s);
			s.cap = 400; s.faults = 1;
			add(s);
			if (t) { s.frames = 2; s.faults = 2; s.early = true; add(s); }
		}
	for (bool expl : {true, false})
		for (bool batch : {true, false})
			for (bool eof : {true, false}) {
				for (int cap : {1, 3, 16, 600}) {
					S s;
					s.w = {0, 1}; s.r = {1};
					s.expl = expl; s.batch = batch; s.eof_stop = eof; s.cap = cap;
					for (int frames : {0, 2, 4}) {
						if (batch && frames < 2) continue;
						s.frames = frames;
						s.faults = 0; s.early = false; add(s);
						s.early = true; add(s);
						s.faults = 1; add(s);
						s.early = false; s.faults = t ? 3 : 2; add(s);
					}
					s.frames = 3; s.big = true; s.early = true; s.faults = cap > 1 ? 1 : 0;
					add(s);
				}
				if (!expl) continue;
				for (int cap : {5, 600}) {
					S s;
					s.w = {0}; s.r = {};
					s.batch = batch; s.eof_stop = eof; s.cap = cap; s.sess = 2; s.frames = 2;
					s.early = true;
					s.faults = 1;
					add(s);
					s.faults = 2;
					add(s);
				}
			}
	mc::config.note = "a real writer and a real reader on two threads, joined by two bounded byte pipes; every interleaving at every transport operation and at every blocking within one, every moment for the reader to give up, "
		"and up to the stated number of transport failures (the failing side hangs up) at every operation; states are hashed and not explored twice; deadlock and livelock are looked for in every execution";
	mc::config.assumptions = {"a transport failure is noticed by the peer as end of file after the bytes sent before it", "memory is not shared between the two sides (they are separate processes as a rule)", "two states with the same 64-bit hash are taken to be the same"};
}
