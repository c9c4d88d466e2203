// C18: input-queue handles are unique and bounded.
#include "iothr.hpp"
#include "iotwo.hpp"
const char *mc_property = "C18";
struct Got { uint8_t n; uint64_t h[8]; };
struct Mon18 { Got t[4]; uint8_t returned; uint8_t in_call; uint8_t null_seen_early; };
static Mon18 N;
struct P { int nq, threads, calls, idx, submit; bool mpsc; };
static P PP;
static int total() { int n = 0; for (auto &g : N.t) for (int i = 0; i < g.n; i++) n += g.h[i] != 0; return n; }
NOINLINE static void record(int t, fstrm_iothr_queue *q)
{
	Got &g = N.t[t];
	if (q)
		for (auto &o : N.t) for (int i = 0; i < o.n; i++) CHECK(o.h[i] != (uint64_t)q, "a handle is returned twice");
	g.h[g.n++] = (uint64_t)q;
	CHECK(total() <= PP.nq, "%d handles of %d", total(), PP.nq);
}
NOINLINE static void by_index(int)
{
	fstrm_iothr_queue *h[5];
	for (int i = 0; i < PP.nq; i++) {
		h[i] = fstrm_iothr_get_input_queue_idx(IO, i);
		CHECK(h[i], "no handle for index %d of %d", i, PP.nq);
		for (int k = 0; k < i; k++) CHECK(h[k] != h[i], "the same handle for index %d and %d", k, i);
	}
	for (int i = 0; i < PP.nq; i++) CHECK(fstrm_iothr_get_input_queue_idx(IO, i) == h[i], "another handle for the same index");
	for (size_t i : {(size_t)PP.nq, (size_t)PP.nq + 1, (size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32) + PP.nq - 1, (size_t)-1})
		CHECK(!fstrm_iothr_get_input_queue_idx(IO, i), "a handle for index %zu of %d", i, PP.nq);
	conc::scrub(h, sizeof h);
}
static void requester(void *a)
{
	int t = (int)(long)a;
	for (int i = 0; i < PP.calls; i++) {
		if (PP.idx && t == 0 && i == 0) by_index(t);
		// none may be returned only once all have been handed out (or are about to be, by a call that is still running)
		conc::yield("get");
		N.in_call |= 1 << t;
		fstrm_iothr_queue *q = fstrm_iothr_get_input_queue(IO);
		N.in_call &= ~(1 << t);
		record(t, q);
		if (!q) CHECK(total() + __builtin_popcount(N.in_call) >= PP.nq, "a request returned none although only %d of %d queues can be taken", total() + __builtin_popcount(N.in_call), PP.nq);
		if (q && PP.submit == 1) {
			int id = t * 4 + i;
			QH[t] = q;
			submit(id, t);
		}
	}
}
static void body18(void *)
{
	setup();
	int f[4];
	for (int t = 0; t < PP.threads; t++) f[t] = conc::spawn(requester, (void *)(long)t);
	for (int t = 0; t < PP.threads; t++) conc::join(f[t]);
	int want = std::min(PP.nq, PP.threads * PP.calls);
	CHECK(total() == want, "%d requests were answered with %d handles of %d", PP.threads * PP.calls, total(), PP.nq);
	for (int i = want; i < PP.nq; i++) { fstrm_iothr_queue *q = fstrm_iothr_get_input_queue(IO); CHECK(q, "no handle %d of %d", i, PP.nq); record(3, q); }
	for (int i = 0; i < 3; i++) CHECK(!fstrm_iothr_get_input_queue(IO), "a handle after all were handed out");
	// the handles are those that can be had by index
	for (int i = 0; i < PP.nq; i++) {
		bool found = false;
		for (auto &g : N.t) for (int k = 0; k < g.n; k++) found |= g.h[k] == (uint64_t)fstrm_iothr_get_input_queue_idx(IO, i);
		CHECK(found, "the queue of index %d was never handed out", i);
	}
	// each handle has a queue of its own: one that is full does not make another one full (the I/O thread is blocked)
	if (PP.submit == 2) {
		for (int i = 0; i < PP.nq; i++) QH[i] = fstrm_iothr_get_input_queue_idx(IO, i);
		int id = 8;
		for (int i = 0; i < PP.nq; i++) {
			bool r = submit(id++, i);
			CHECK(r, "the empty queue %d refuses a frame", i);
			r = submit(id++, i);
			CHECK(!r, "the full queue %d accepts a frame", i);
		}
	}
	M.pending_block = 0;
	fstrm_iothr_destroy(&IO);
	final_checks();
}
static void add18(P p, bool full_time = false)
{
	char name[120];
	snprintf(name, sizeof name, "%s queues=%d threads=%d x%d%s submit=%d", p.mpsc ? "mpsc" : "spsc", p.nq, p.threads, p.calls, p.idx ? " by-index" : "", p.submit);
	mc::scenario(name, [p] {
		PP = p;
		C = S();
		C.nq = p.nq;
		C.mpsc = p.mpsc;
		C.outsz = 4;
		C.insz = 2;
		conc::opt = conc::Options();
		conc::opt.timeouts = 0;
		conc::prepare();
		M.last_attempt = -1;
		M.pending_block = p.submit != 1; // keeps the I/O thread in its first open: only the requests interleave
		conc::run(body18, nullptr);
	});
}
// very many queues, one thread
static size_t many_out;
static fstrm_res many_ok(void *) { return fstrm_res_success; }
static fstrm_res many_write(void *, const struct iovec *v, int n) { for (int i = 0; i < n; i++) many_out += v[i].iov_len; return fstrm_res_success; }
static void body_many(void *)
{
	many_out = 0;
	struct fstrm_rdwr *rw = fstrm_rdwr_init(nullptr);
	fstrm_rdwr_set_open(rw, many_ok);
	fstrm_rdwr_set_close(rw, many_ok);
	fstrm_rdwr_set_write(rw, many_write);
	struct fstrm_writer *w = fstrm_writer_init(nullptr, &rw);
	struct fstrm_iothr_options *o = fstrm_iothr_options_init();
	fstrm_iothr_options_set_input_queue_size(o, 2);
	CHECK(fstrm_iothr_options_set_num_input_queues(o, C.nq) == fstrm_res_success, "%d input queues are refused", C.nq);
	if (C.mpsc) fstrm_iothr_options_set_queue_model(o, FSTRM_IOTHR_QUEUE_MODEL_MPSC);
	IO = fstrm_iothr_init(o, &w);
	CHECK(IO, "fstrm_iothr_init");
	fstrm_iothr_options_destroy(&o);
	std::vector<struct fstrm_iothr_queue *> h;
	for (int i = 0; i < C.nq; i++) {
		struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue(IO);
		CHECK(q, "no handle %d of %d", i, C.nq);
		h.push_back(q);
	}
	for (int i = 0; i < 300; i++) CHECK(!fstrm_iothr_get_input_queue(IO), "a handle after all %d were handed out", C.nq);
	std::vector<struct fstrm_iothr_queue *> x;
	for (int i = 0; i < C.nq; i++) x.push_back(fstrm_iothr_get_input_queue_idx(IO, i));
	CHECK(!fstrm_iothr_get_input_queue_idx(IO, C.nq), "a handle for index %d", C.nq);
	std::sort(h.begin(), h.end());
	std::sort(x.begin(), x.end());
	CHECK(std::adjacent_find(h.begin(), h.end()) == h.end(), "a handle is returned twice");
	CHECK(x == h, "the handles by index are others");
	// one frame in each, and no room for a second
	static char b = 'b';
	for (int i = 0; i < C.nq; i++) CHECK(fstrm_iothr_submit(IO, fstrm_iothr_get_input_queue_idx(IO, i), &b, 1, nullptr, nullptr) == fstrm_res_success, "the empty queue %d refuses a frame", i);
	for (int i = 0; i < C.nq; i++) CHECK(fstrm_iothr_submit(IO, fstrm_iothr_get_input_queue_idx(IO, i), &b, 1, nullptr, nullptr) == fstrm_res_again, "the full queue %d accepts a frame", i);
	fstrm_iothr_destroy(&IO);
	CHECK(many_out == ref::ctl(ref::START).size() + 5 * C.nq + ref::ctl(ref::STOP).size(), "the output holds %zu bytes after one frame from each of %d queues", many_out, C.nq);
	CHECK(conc::live_blocks() == 0, "%zu blocks are left after destroy", conc::live_blocks());
}
void mc_setup()
{
	conc::monitor(M);
	conc::monitor(N);
	bool t = mc::thorough();
	add_twos();
	for (bool mpsc : {false, true})
		for (int nq : {5, 16, 100, 255, 256, 257, 1000, 2000, 65540}) if (!mpsc || nq <= 100) mc::scenario(std::to_string(nq) + " queues, " + (mpsc ? "mpsc" : "spsc"), [=] {
			C = S();
			C.nq = nq;
			C.mpsc = mpsc;
			C.len0 = C.len1 = 1;
			conc::opt = conc::Options();
			conc::opt.single = true;
			conc::opt.accesses = false;
			conc::opt.max_steps = 10000000;
			conc::prepare();
			M.last_attempt = -1;
			conc::run(body_many, nullptr);
		});
	for (bool mpsc : {false, true})
		for (int nq = 1; nq <= 4; nq++)
			for (int threads = 1; threads <= 3; threads++)
				for (int calls = 1; calls <= (threads == 1 ? 6 : threads == 2 ? 4 : t ? 4 : 3); calls++) {
					if (mpsc && nq != 2) continue;
					for (int submit : {0, 1, 2}) {
						if (submit == 1 && (calls > 1 + t || threads > 2 || nq > 2 + t)) continue;
						add18({nq, threads, calls, calls % 2, submit, mpsc});
					}
				}
	mc::config.note = "every interleaving of up to 3 threads requesting handles (mixed with requests by index), for 1 to 4 queues; afterwards the remaining handles, the handles by index for indices in and out of range, and submissions through each handle";
	mc::config.assumptions = {"memory is sequentially consistent (interleavings only; no store buffers)", "accesses that were never seen to race (happens-before) in any explored execution are not switch points",
		"two states with the same 64-bit hash are taken to be the same"};
}
