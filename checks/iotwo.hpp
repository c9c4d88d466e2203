// Two I/O threads with configurations of their own do not influence one another.
struct TM {
	uint8_t open, broken, released[4], destroyed;
	uint16_t n;
	unsigned char out[300];
	uint64_t handle;
};
static TM T2[2];
static struct fstrm_iothr *IO2[2];
struct Two { bool m0, m1; int frames, order; };
static Two TW;
static unsigned char TD[2][4][40];
static int tlen(int o, int k) { return 3 + 4 * o + 5 * k; }
static const char *tct(int o) { return o ? "second" : "1st"; }
static fstrm_res t2_open(void *x)
{
	TM &t = T2[(long)x];
	conc::yield("transport open");
	CHECK(!t.open, "a transport is opened while it is open");
	t.open = 1;
	return fstrm_res_success;
}
static fstrm_res t2_close(void *x) { conc::yield("transport close"); T2[(long)x].open = 0; return fstrm_res_success; }
static fstrm_res t2_destroy(void *x) { T2[(long)x].destroyed++; return fstrm_res_success; }
static fstrm_res t2_write(void *x, const struct iovec *v, int n)
{
	TM &t = T2[(long)x];
	conc::yield("transport write");
	CHECK(t.open, "write to a transport that is not open");
	for (int i = 0; i < n; i++) {
		CHECK(t.n + v[i].iov_len <= sizeof t.out, "too much output");
		memcpy(t.out + t.n, v[i].iov_base, v[i].iov_len);
		t.n += v[i].iov_len;
	}
	return fstrm_res_success;
}
static void t2_free(void *data, void *arg)
{
	conc::yield("free callback");
	long a = (long)arg;
	CHECK(a >= 100 && a < 108 && data == TD[(a - 100) / 4][a % 4], "the callback got the wrong pointers");
	CHECK(!T2[(a - 100) / 4].released[a % 4]++, "the callback is invoked twice");
}
static NOINLINE void t2_make(int o)
{
	struct fstrm_rdwr *rw = fstrm_rdwr_init((void *)(long)o);
	fstrm_rdwr_set_open(rw, t2_open);
	fstrm_rdwr_set_close(rw, t2_close);
	fstrm_rdwr_set_write(rw, t2_write);
	fstrm_rdwr_set_destroy(rw, t2_destroy);
	struct fstrm_writer_options *wo = fstrm_writer_options_init();
	fstrm_writer_options_add_content_type(wo, tct(o), strlen(tct(o)));
	struct fstrm_writer *w = fstrm_writer_init(wo, &rw);
	fstrm_writer_options_destroy(&wo);
	struct fstrm_iothr_options *io = fstrm_iothr_options_init();
	fstrm_iothr_options_set_input_queue_size(io, o ? 4 : 8);
	fstrm_iothr_options_set_output_queue_size(io, o ? 2 : 5);
	fstrm_iothr_options_set_queue_notify_threshold(io, o ? 2 : 1);
	if (o ? TW.m1 : TW.m0) fstrm_iothr_options_set_queue_model(io, FSTRM_IOTHR_QUEUE_MODEL_MPSC);
	IO2[o] = fstrm_iothr_init(io, &w);
	CHECK(IO2[o], "fstrm_iothr_init");
	fstrm_iothr_options_destroy(&io);
}
static void t2_producer(void *a)
{
	int o = (int)(long)a;
	struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue(IO2[o]);
	CHECK(q, "object %d has no input queue", o);
	T2[o].handle = (uint64_t)q;
	CHECK(T2[0].handle != T2[1].handle, "both objects return the same queue");
	for (int k = 0; k < TW.frames; k++) {
		fstrm_res r = fstrm_iothr_submit(IO2[o], q, TD[o][k], tlen(o, k), t2_free, (void *)(long)(100 + 4 * o + k));
		CHECK(r == fstrm_res_success, "object %d: submission %d returned %d", o, k, (int)r);
	}
	CHECK(!fstrm_iothr_get_input_queue(IO2[o]), "object %d has another input queue", o);
	if (TW.order == 2) fstrm_iothr_destroy(&IO2[o]);
}
static NOINLINE void t2_final()
{
	for (int o = 0; o < 2; o++) {
		TM &t = T2[o];
		ref::B want = ref::ctl(ref::START, ref::L{tct(o)});
		for (int k = 0; k < TW.frames; k++) {
			want += ref::frame(ref::B((char *)TD[o][k], tlen(o, k)));
			CHECK(t.released[k] == 1, "object %d: frame %d was released %d times", o, k, t.released[k]);
			for (int j = 0; j < tlen(o, k); j++) CHECK(TD[o][k][j] == (unsigned char)(o * 90 + k * 17 + j), "object %d: frame %d was modified", o, k);
		}
		want += ref::ctl(ref::STOP);
		CHECK(ref::B((char *)t.out, t.n) == want, "object %d: the output is %s instead of %s", o, ref::hex(ref::B((char *)t.out, t.n)).c_str(), ref::hex(want).c_str());
		CHECK(t.destroyed == 1 && !t.open, "object %d: the transport was not closed and destroyed", o);
	}
	CHECK(conc::live_blocks() == 0, "%zu blocks are left after destroy", conc::live_blocks());
}
static void two_body(void *)
{
	for (int o = 0; o < 2; o++) t2_make(o);
	int f[2];
	for (int o = 0; o < 2; o++) f[o] = conc::spawn(t2_producer, (void *)(long)o);
	for (int o = 0; o < 2; o++) conc::join(f[o]);
	if (TW.order < 2) for (int o = 0; o < 2; o++) fstrm_iothr_destroy(&IO2[TW.order ? 1 - o : o]);
	t2_final();
}
static void add_two(bool m0, bool m1, int frames, int order, int dev)
{
	Two t = {m0, m1, frames, order};
	mc::scenario("two I/O threads, " + std::string(m0 ? "mpsc " : "spsc ") + (m1 ? "mpsc" : "spsc") + ", " + std::to_string(frames) + " frames, order " + std::to_string(order) + " dev=" + std::to_string(dev), [=] {
		TW = t;
		for (int o = 0; o < 2; o++) for (int k = 0; k < 4; k++) for (int j = 0; j < 40; j++) TD[o][k][j] = o * 90 + k * 17 + j;
		conc::opt = conc::Options();
		conc::opt.bounded = true;
		conc::opt.timeouts = 1;
		conc::prepare();
		conc::run(two_body, nullptr);
	}, dev);
}
static void add_twos()
{
	conc::monitor(T2);
	for (int m = 0; m < 3; m++) for (int order = 0; order < 3; order++) add_two(m & 1, m & 2, 3, order, mc::thorough() ? 2 : 1);
}
