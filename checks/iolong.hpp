#include <sys/mman.h>
// A long life of the I/O thread: tens of thousands of frames and connections, under the schedule without preemptions.
// Frames carry their number; the output has to be exactly the sequence of the accepted ones (of those lost in a failure, a gap).
struct Long { bool mpsc, bidir, nofree; int n, insz, outsz, notify, len, fail_every, per; };
static Long LG;
struct LMon {
	uint32_t next, released, written, lost, writes, conns;
	uint8_t open, broken, phase, fed, in[64];
	uint32_t nin, inpos, nbuf;
	unsigned char buf[4096];
};
static LMon *LM; // not part of the state: there is one execution only
static std::vector<uint8_t> *LST;
static std::vector<unsigned char *> *LDATA;
static fstrm_res l_open(void *)
{
	conc::yield("transport open");
	CHECK(!LM->open, "the transport is opened while it is open");
	LM->open = 1; LM->broken = LM->phase = 0; LM->nbuf = LM->nin = LM->inpos = 0; LM->conns++;
	return fstrm_res_success;
}
static fstrm_res l_close(void *)
{
	conc::yield("transport close");
	CHECK(LM->open, "the transport is closed while it is not open");
	CHECK(LM->broken || (LM->phase == 3 && !LM->nbuf), "the output was closed without STOP");
	LM->open = 0;
	return fstrm_res_success;
}
static void l_say(uint32_t type)
{
	ref::B b = ref::ctl(type, ref::L());
	LM->nin = b.size(); LM->inpos = 0;
	memcpy(LM->in, b.data(), b.size());
}
static fstrm_res l_read(void *, void *p, size_t n)
{
	conc::yield("transport read");
	if (LM->nin - LM->inpos < n) return fstrm_res_failure;
	memcpy(p, LM->in + LM->inpos, n);
	LM->inpos += n;
	return fstrm_res_success;
}
static void l_frame(const unsigned char *p, size_t n)
{
	CHECK(LM->phase == 2 && n == (size_t)LG.len, "a data frame of %zu bytes at the wrong place", n);
	uint32_t id;
	memcpy(&id, p, 4);
	CHECK(id < LST->size() && ((*LST)[id] == 1), "frame %u is in the output, state %d", id, id < LST->size() ? (*LST)[id] : -1);
	for (size_t i = 4; i < n; i++) CHECK(p[i] == (unsigned char)(id + i), "frame %u is corrupted", id);
	CHECK(id >= LM->next, "frame %u is in the output after frame %u", id, LM->next - 1);
	CHECK(LG.fail_every || id == LM->next, "frame %u follows frame %u in the output", id, LM->next - 1);
	(*LST)[id] = 2;
	LM->next = id + 1;
	LM->written++;
}
static fstrm_res l_write(void *, const struct iovec *v, int n)
{
	conc::yield("transport write");
	if (!LM->open || LM->broken) return fstrm_res_failure;
	if (LG.fail_every && LM->phase == 2 && ++LM->writes % LG.fail_every == 0) { LM->broken = 1; return fstrm_res_failure; }
	for (int i = 0; i < n; i++) {
		CHECK(LM->nbuf + v[i].iov_len <= sizeof LM->buf, "too much output");
		memcpy(LM->buf + LM->nbuf, v[i].iov_base, v[i].iov_len);
		LM->nbuf += v[i].iov_len;
		for (;;) {
			unsigned char *b = LM->buf;
			if (LM->nbuf < 4) break;
			uint32_t k = b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3], len = k + 4;
			if (!k) {
				if (LM->nbuf < 12) break;
				len = 8 + (b[4] << 24 | b[5] << 16 | b[6] << 8 | b[7]);
			}
			CHECK(len <= sizeof LM->buf, "a frame of %u bytes in the output", len);
			if (LM->nbuf < len) break;
			if (k) l_frame(b + 4, k);
			else {
				static const int to[] = {0, 0, 2, 3, 1, 0}; // by type: START 2, STOP 3, READY 4
				CHECK(b[11] >= 2 && b[11] <= 4, "control frame %d in the output", b[11]);
				int was = LM->phase;
				LM->phase = to[b[11]];
				CHECK(LM->phase == was + 1 || (!LG.bidir && was == 0 && LM->phase == 2), "control frame %d at the wrong place", b[11]);
				if (LM->phase == 1) l_say(ref::ACCEPT);
				if (LM->phase == 3 && LG.bidir) l_say(ref::FINISH);
			}
			memmove(b, b + len, LM->nbuf - len);
			LM->nbuf -= len;
		}
	}
	return fstrm_res_success;
}
static void l_free(void *data, void *arg)
{
	uint32_t id = (uint32_t)(uintptr_t)arg;
	CHECK(id < LST->size() && data == (*LDATA)[id], "the callback got wrong pointers");
	CHECK((*LST)[id] == 2 || (LG.fail_every && (*LST)[id] == 1), "frame %u is released, state %d", id, (*LST)[id]);
	(*LST)[id] = 3;
	LM->released++;
	delete[] (unsigned char *)data;
}
static void long_body(void *)
{
	struct fstrm_rdwr *rw = fstrm_rdwr_init(nullptr);
	fstrm_rdwr_set_open(rw, l_open);
	fstrm_rdwr_set_close(rw, l_close);
	fstrm_rdwr_set_write(rw, l_write);
	if (LG.bidir) fstrm_rdwr_set_read(rw, l_read);
	struct fstrm_writer *w = fstrm_writer_init(nullptr, &rw);
	struct fstrm_iothr_options *o = fstrm_iothr_options_init();
	fstrm_iothr_options_set_input_queue_size(o, LG.insz);
	fstrm_iothr_options_set_output_queue_size(o, LG.outsz);
	fstrm_iothr_options_set_queue_notify_threshold(o, LG.notify);
	fstrm_iothr_options_set_reopen_interval(o, 1);
	fstrm_iothr_options_set_flush_timeout(o, 1);
	if (LG.mpsc) fstrm_iothr_options_set_queue_model(o, FSTRM_IOTHR_QUEUE_MODEL_MPSC);
	IO = fstrm_iothr_init(o, &w);
	CHECK(IO, "fstrm_iothr_init");
	fstrm_iothr_options_destroy(&o);
	struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue(IO);
	CHECK(q, "no input queue");
	for (int i = 0; i < LG.n; i++) {
		unsigned char *d = new unsigned char[LG.len];
		memcpy(d, &i, 4);
		for (int j = 4; j < LG.len; j++) d[j] = i + j;
		LST->push_back(1);
		LDATA->push_back(d);
		for (int tries = 0;; tries++) {
			fstrm_res r = fstrm_iothr_submit(IO, q, d, LG.len, l_free, (void *)(uintptr_t)i);
			if (r == fstrm_res_success) break;
			CHECK(r == fstrm_res_again, "submission %d returned %d", i, (int)r);
			CHECK((*LST)[i] == 1, "frame %d was refused but used", i);
			CHECK(tries < 5, "frame %d is refused although the I/O thread had %d flush timeouts to make room", i, tries);
			conc::sleep(2);
		}
		if (i % LG.per == LG.per - 1) conc::sleep(1);
		if (i % LG.per == 0) mc::steps();
	}
	fstrm_iothr_destroy(&IO);
	CHECK(!LM->open, "the transport is open after destroy");
	CHECK(LM->released == (uint32_t)LG.n, "%u of %d accepted frames were released", LM->released, LG.n);
	CHECK(LG.fail_every || LM->written == (uint32_t)LG.n, "%u of %d accepted frames are in the output", LM->written, LG.n);
	CHECK(!LG.fail_every || LM->conns > (uint32_t)LG.n / 40 / LG.fail_every, "the output was opened %u times only", LM->conns);
	CHECK(conc::live_blocks() == 0, "%zu blocks are left after destroy", conc::live_blocks());
	mc::outcome("conns=" + std::to_string(LM->conns) + " written=" + std::to_string(LM->written));
}
static void add_long(Long l)
{
	char name[200];
	snprintf(name, sizeof name, "long: %d frames %s%s in=%d out=%d notify=%d len=%d per=%d fail-every=%d", l.n, l.mpsc ? "mpsc" : "spsc", l.bidir ? " bidir" : "", l.insz, l.outsz, l.notify, l.len, l.per, l.fail_every);
	mc::scenario(name, [l] {
		LG = l;
		conc::opt = conc::Options();
		conc::opt.bounded = true;
		conc::opt.accesses = false;
		conc::opt.single = true;
		conc::opt.max_steps = 200000000;
		conc::prepare();
		delete LM; delete LST; delete LDATA;
		LM = new LMon();
		LST = new std::vector<uint8_t>;
		LDATA = new std::vector<unsigned char *>;
		conc::run(long_body, nullptr);
	}, 0);
}
static void add_longs(int n)
{
	for (bool mpsc : {false, true}) {
		add_long({mpsc, false, false, n, 8, 4, 1, 9, 0, 5});
		add_long({mpsc, true, false, n, 64, 64, 32, 5, 0, 40});
		add_long({mpsc, mpsc, false, n / 4, 8, 4, 3, 9, 7, 6});
	}
}

// The output cannot be opened for very long.
static uint32_t out_opens, out_from, out_bytes, out_freed;
static fstrm_res o_open(void *) { conc::yield("transport open"); return ++out_opens > out_from ? fstrm_res_success : fstrm_res_failure; }
static fstrm_res o_close(void *) { return fstrm_res_success; }
static fstrm_res o_write(void *, const struct iovec *v, int n) { for (int i = 0; i < n; i++) out_bytes += v[i].iov_len; return fstrm_res_success; }
static void o_free(void *, void *) { out_freed++; }
static void outage_body(void *)
{
	struct fstrm_rdwr *rw = fstrm_rdwr_init(nullptr);
	fstrm_rdwr_set_open(rw, o_open);
	fstrm_rdwr_set_close(rw, o_close);
	fstrm_rdwr_set_write(rw, o_write);
	struct fstrm_writer *w = fstrm_writer_init(nullptr, &rw);
	struct fstrm_iothr_options *o = fstrm_iothr_options_init();
	fstrm_iothr_options_set_reopen_interval(o, 2);
	fstrm_iothr_options_set_flush_timeout(o, 1);
	fstrm_iothr_options_set_queue_notify_threshold(o, 1);
	IO = fstrm_iothr_init(o, &w);
	CHECK(IO, "fstrm_iothr_init");
	fstrm_iothr_options_destroy(&o);
	struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue(IO);
	CHECK(q, "no input queue");
	uint32_t sent = 0;
	conc::sleep(1);
	for (uint32_t i = 0; i < out_from; i++) {
		uint32_t was = out_opens;
		if (i % 7 == 0) { CHECK(fstrm_iothr_submit(IO, q, (void *)"x", 1, o_free, nullptr) == fstrm_res_success, "submission %u is refused", sent); sent++; }
		conc::sleep(3);
		CHECK(out_opens > was, "%u attempts to open the output failed and for 3 seconds there was no other one, the interval being 2", was);
		CHECK(out_opens <= was + 2, "%u attempts within 3 seconds, the interval being 2", out_opens - was);
		if (out_opens > out_from) break;
	}
	conc::sleep(4);
	CHECK(out_opens == out_from + 1, "the output was opened %u times", out_opens);
	CHECK(out_freed == sent, "%u of %u frames were released", out_freed, sent);
	CHECK(fstrm_iothr_submit(IO, q, (void *)"y", 1, o_free, nullptr) == fstrm_res_success, "a submission is refused");
	fstrm_iothr_destroy(&IO);
	CHECK(out_bytes == 12 + 5 + 12, "%u bytes of output for one frame", out_bytes);
	CHECK(out_freed == sent + 1, "%u of %u frames were released", out_freed, sent + 1);
}
static void add_outage(uint32_t n)
{
	mc::scenario("outage: " + std::to_string(n) + " attempts", [n] {
		out_from = n;
		out_opens = out_bytes = out_freed = 0;
		conc::opt = conc::Options();
		conc::opt.bounded = true;
		conc::opt.accesses = false;
		conc::opt.single = true;
		conc::opt.max_steps = 200000000;
		conc::prepare();
		conc::run(outage_body, nullptr);
		mc::outcome("reopened");
	}, 0);
}
// Frames of any length and the same buffer again and again, under the schedule without preemptions. The buffer cannot be read: only
// the transport, which keeps to the lengths, sees it. The output must be START, each accepted frame in order, STOP; every submission
// has its callback once.
static const uint32_t big_lens[] = {1, 3, 508, 1020, 1024, 65532, 65536, (1u << 24) - 4, (1u << 24), (1u << 31) - 4, 1u << 31, 0xfffffff8u, 0xfffffffbu, 0xfffffffcu, 0xfffffffeu};
struct BigState { std::vector<uint32_t> sent; std::vector<int> freed; unsigned char *mem; size_t at; uint64_t need; int phase; unsigned hdr, nhdr; ref::B ctl; };
static BigState *BS;
static int big_n, big_alone;
static bool big_cb;
static fstrm_res b_open(void *) { conc::yield("transport open"); BS->phase = 0; BS->nhdr = 0; BS->ctl = ""; BS->need = 0; return fstrm_res_success; }
static fstrm_res b_close(void *) { conc::yield("transport close"); CHECK(BS->phase == 2 && !BS->nhdr, "the output was closed inside a frame or without STOP"); BS->phase = 3; return fstrm_res_success; }
static fstrm_res b_write(void *, const struct iovec *v, int n)
{
	conc::yield("transport write");
	for (int i = 0; i < n; i++) {
		const unsigned char *p = (const unsigned char *)v[i].iov_base;
		size_t k = v[i].iov_len, j = 0;
		while (j < k) {
			if (BS->need) { // inside a frame
				CHECK(p + j >= BS->mem && p + j < BS->mem + (1ull << 33), "something else than the payload is written");
				uint64_t m = std::min<uint64_t>(k - j, BS->need);
				BS->need -= m; j += m;
				if (!BS->need) BS->at++;
				continue;
			}
			if (!BS->ctl.empty()) {
				BS->ctl += p[j++];
				size_t len = BS->ctl.size() < 5 ? 5 : 5 + ((unsigned char)BS->ctl[3] << 8 | (unsigned char)BS->ctl[4]);
				if (BS->ctl.size() == len) {
					CHECK(len == 9 && BS->ctl[8] == (BS->phase ? 3 : 2), "control frame at the wrong place");
					BS->phase++;
					BS->ctl = "";
				}
				continue;
			}
			BS->hdr = BS->hdr << 8 | p[j++];
			if (++BS->nhdr < 4) continue;
			BS->nhdr = 0;
			if (!BS->hdr) { BS->ctl = "c"; continue; }
			CHECK(BS->phase == 1 && BS->at < BS->sent.size() && BS->sent[BS->at] == BS->hdr, "frame %zu of the output has %u bytes, expected %u", BS->at, BS->hdr, BS->at < BS->sent.size() ? BS->sent[BS->at] : 0);
			BS->need = BS->hdr;
		}
	}
	return fstrm_res_success;
}
static void b_free(void *data, void *arg)
{
	size_t i = (size_t)(uintptr_t)arg;
	if (i == 77) for (i = 0; i < BS->freed.size() && BS->freed[i]; i++); // they all have the same argument
	CHECK(data == BS->mem && i < BS->freed.size(), "the callback got wrong pointers, or is called too often");
	CHECK(!BS->freed[i], "frame %zu is released twice", i);
	CHECK(BS->at > i, "frame %zu is released before it is written", i);
	BS->freed[i]++;
}
static void big_body(void *)
{
	struct fstrm_rdwr *rw = fstrm_rdwr_init(nullptr);
	fstrm_rdwr_set_open(rw, b_open);
	fstrm_rdwr_set_close(rw, b_close);
	fstrm_rdwr_set_write(rw, b_write);
	struct fstrm_writer *w = fstrm_writer_init(nullptr, &rw);
	struct fstrm_iothr_options *o = fstrm_iothr_options_init();
	static const int outs[] = {2, 3, 64};
	fstrm_iothr_options_set_output_queue_size(o, outs[mc::choose(3, "output queue")]);
	fstrm_iothr_options_set_flush_timeout(o, 1);
	static const unsigned hints[] = {1024, 8192, 1u << 24, 1u << 31, 0xffffffffu};
	fstrm_iothr_options_set_buffer_hint(o, hints[mc::choose(5, "buffer hint")]);
	IO = fstrm_iothr_init(o, &w);
	CHECK(IO, "fstrm_iothr_init");
	fstrm_iothr_options_destroy(&o);
	struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue(IO);
	CHECK(q, "no input queue");
	conc::sleep(1);
	bool same = big_cb && mc::choose(2, "same argument");
	int N = sizeof big_lens / sizeof *big_lens;
	for (int i = 0; i < big_n; i++) {
		uint32_t n = big_lens[mc::choose(N, "length")];
		BS->sent.push_back(n);
		BS->freed.push_back(0);
		CHECK(fstrm_iothr_submit(IO, q, BS->mem, n, big_cb ? b_free : nullptr, (void *)(uintptr_t)(same ? 77 : i)) == fstrm_res_success, "a frame of %u bytes is refused", n);
		if (big_alone) conc::sleep(3);
		if (big_alone) CHECK(BS->at == BS->sent.size(), "%zu of %zu frames are in the output after the flush timeout", BS->at, BS->sent.size());
	}
	fstrm_iothr_destroy(&IO);
	CHECK(BS->phase == 3, "the output was not closed");
	CHECK(BS->at == BS->sent.size(), "%zu of %zu accepted frames are in the output", BS->at, BS->sent.size());
	for (size_t i = 0; big_cb && i < BS->freed.size(); i++) CHECK(BS->freed[i] == 1, "frame %zu was not released", i);
	CHECK(conc::live_blocks() == 0, "%zu blocks are left after destroy", conc::live_blocks());
}
static void add_big(int n, bool alone, bool cb)
{
	char name[100];
	snprintf(name, sizeof name, "any length: %d frames%s%s", n, alone ? " one at a time" : "", cb ? "" : " without callback");
	mc::scenario(name, [n, alone, cb] {
		big_n = n; big_alone = alone; big_cb = cb;
		conc::opt = conc::Options();
		conc::opt.bounded = true;
		conc::opt.accesses = false;
		conc::opt.single = true;
		conc::prepare();
		static void *mem;
		if (!mem) mem = mmap(nullptr, 1ull << 33, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		CHECK(mem != MAP_FAILED, "mmap");
		delete BS;
		BS = new BigState();
		BS->mem = (unsigned char *)mem;
		conc::run(big_body, nullptr);
		mc::outcome("all");
	}, 0);
}
static void add_bigs()
{
	bool t = mc::thorough();
	add_big(t ? 4 : 3, false, true);
	add_big(2, true, true);
	add_big(2, false, false);
}
