// C09: transports are opened, closed and destroyed in balance.
#include "transport.hpp"
#include "together.hpp"
using namespace ref;
const char *mc_property = "C09";

static void final(Tr &t, size_t blocks0)
{
	CHECK(t.destroys == 1, "the transport was destroyed %d times", t.destroys);
	CHECK(t.closes == t.ok_opens, "%d successful opens but %d closes", t.ok_opens, t.closes);
	CHECK(!t.open, "the transport is left open");
	CHECK(env::live_blocks() == 0, "%zu blocks (%zu bytes) are not released", env::live_blocks(), env::live_bytes());
	mc::outcome("opens " + std::to_string(t.opens) + " faults " + std::to_string(t.faulted));
}
// what the peer sends on a connection: by default something sensible
static B peer(const std::vector<B> &alt, const char *what)
{
	return alt[mc::deviate(alt.size(), what)];
}
static void reader(bool bi, int depth, bool types)
{
	Tr t;
	t.strict = true;
	t.can_write = bi;
	B hs = (bi ? ctl(READY, L{"a"}) : B()) + ctl(START, L{"a"});
	std::vector<B> alt = {
		hs + frame("x") + ctl(STOP),
		hs, hs + frame("x"), hs + be32(3) + "x", hs + be32(0x7fffffff),
		hs + be32(0) + be32(0), hs + be32(0) + be32(6) + "abcdef", hs + ctl(STOP) + frame("y"),
		hs.substr(0, 3), hs.substr(0, 17), "", ctl(STOP), frame("data") + hs,
		bi ? ctl(READY) + ctl(READY) : ctl(READY), (bi ? ctl(READY, L{"b"}) : B()) + ctl(START, L{"b"}),
	};
	t.on_open = [&](Tr &x) { x.in = peer(alt, "peer"); x.inpos = 0; };
	t.eof_is_stop = mc::choose(2, "eof");
	struct fstrm_reader *r = t.reader(types ? L{"a", "b"} : L());
	for (int i = 0; i < depth; i++) {
		int op = mc::choose(6, "op");
		if (op == 0) break;
		int f = t.faulted;
		fstrm_res res;
		const uint8_t *d;
		size_t n;
		const struct fstrm_control *c;
		switch (op) {
		case 1: res = fstrm_reader_open(r); break;
		case 2: res = fstrm_reader_read(r, &d, &n); if (res == fstrm_res_success) { B k((const char *)d, n); } break;
		case 3: res = fstrm_reader_close(r); break;
		case 4: c = nullptr; res = fstrm_reader_get_control(r, FSTRM_CONTROL_START, &c); if (res == fstrm_res_success && c) payload_of(c); break;
		case 5: c = nullptr; res = fstrm_reader_get_control(r, FSTRM_CONTROL_STOP, &c); if (res == fstrm_res_success && c) payload_of(c); break;
		}
		mc::steps();
		if (t.faulted > f) CHECK(res != fstrm_res_success, "operation %d reported success although the transport failed", op);
		mc::state(mc::hash(t.in, mc::hash(t.out, t.inpos * 100 + t.open * 10 + op)));
	}
	fstrm_reader_destroy(&r);
	CHECK(!r, "destroy left the pointer set");
	fstrm_reader_destroy(&r);
	final(t, 0);
}
static void writer(bool bi, int depth, bool types)
{
	Tr t;
	t.strict = true;
	t.can_read = bi;
	std::vector<B> alt = {ctl(ACCEPT, L{"a"}) + ctl(FINISH), ctl(ACCEPT, L{"a"}), ctl(ACCEPT, L{"a"}) + ctl(STOP), ctl(ACCEPT, L{"a"}) + ctl(FINISH).substr(0, 9),
		ctl(ACCEPT, L{"c"}), ctl(START), ctl(ACCEPT).substr(0, 7), "", frame("x"), ctl(ACCEPT, L{"a"}) + frame("x"), be32(0) + be32(700)};
	if (bi) t.on_open = [&](Tr &x) { x.in = peer(alt, "peer"); x.inpos = 0; };
	t.eof_is_stop = mc::choose(2, "eof");
	struct fstrm_writer *w = t.writer(types ? L{"a", "b"} : L());
	static char big[1000];
	std::vector<struct iovec> v;
	for (int i = 0; i < 130; i++) v.push_back({big, (size_t)i + 1});
	for (int i = 0; i < depth; i++) {
		int op = mc::choose(7, "op");
		if (op == 0) break;
		int f = t.faulted;
		fstrm_res res;
		struct fstrm_control *c;
		switch (op) {
		case 1: res = fstrm_writer_open(w); break;
		case 2: res = fstrm_writer_write(w, "abc", 3); break;
		case 3: res = fstrm_writer_close(w); break;
		case 4: res = fstrm_writer_writev(w, v.data(), 130); break;
		case 5: c = nullptr; res = fstrm_writer_get_control(w, FSTRM_CONTROL_START, &c); if (res == fstrm_res_success && c) payload_of(c); break;
		case 6: res = fstrm_writer_write(w, "", 0); break;
		}
		mc::steps();
		if (t.faulted > f) CHECK(res != fstrm_res_success, "operation %d reported success although the transport failed", op);
		mc::state(mc::hash(t.in, mc::hash(t.out, t.inpos * 100 + t.open * 10 + op)));
	}
	fstrm_writer_destroy(&w);
	CHECK(!w, "destroy left the pointer set");
	fstrm_writer_destroy(&w);
	final(t, 0);
}
static void odd() // transports with methods missing
{
	int m = mc::choose(32, "methods"), kind = mc::choose(2, "kind");
	Tr t;
	t.strict = true;
	t.eof_is_stop = true;
	struct fstrm_rdwr *r = fstrm_rdwr_init(&t);
	if (m & 1) fstrm_rdwr_set_open(r, Tr::op_open);
	if (m & 2) fstrm_rdwr_set_close(r, Tr::op_close);
	if (m & 4) fstrm_rdwr_set_read(r, Tr::op_read);
	if (m & 8) fstrm_rdwr_set_write(r, Tr::op_write);
	if (m & 16) fstrm_rdwr_set_destroy(r, Tr::op_destroy);
	t.on_open = [&](Tr &x) { x.in = kind ? ctl(ACCEPT) + ctl(FINISH) : (m & 8 ? ctl(READY) : B()) + ctl(START) + frame("x"); x.inpos = 0; };
	// without a close method nothing can be closed
	if ((m & 1) && !(m & 2)) t.strict = false;
	fstrm_res res;
	if (kind == 0) {
		struct fstrm_reader *x = fstrm_reader_init(nullptr, &r);
		CHECK((x != nullptr) == ((m & 4) != 0), "a reader on a transport with methods %d", m);
		if (!x) { CHECK(r, "a failing init took the transport"); CHECK(t.nops == 0 && t.destroys == 0, "a failing init used the transport"); }
		else {
			const uint8_t *d;
			size_t n;
			res = fstrm_reader_read(x, &d, &n);
			if (!(m & 1)) CHECK(res != fstrm_res_success, "read without an open method");
			fstrm_reader_destroy(&x);
		}
	} else {
		struct fstrm_writer *x = fstrm_writer_init(nullptr, &r);
		CHECK((x != nullptr) == ((m & 8) != 0), "a writer on a transport with methods %d", m);
		if (!x) { CHECK(r, "a failing init took the transport"); CHECK(t.nops == 0 && t.destroys == 0, "a failing init used the transport"); }
		else {
			res = fstrm_writer_write(x, "a", 1);
			if (!(m & 1)) CHECK(res != fstrm_res_success, "write without an open method");
			fstrm_writer_destroy(&x);
		}
	}
	mc::steps(3);
	if (r) fstrm_rdwr_destroy(&r);
	CHECK(t.destroys == ((m & 16) ? 1 : 0), "the transport was destroyed %d times", t.destroys);
	if (m & 2) CHECK(t.closes == t.ok_opens, "%d successful opens but %d closes", t.ok_opens, t.closes);
	CHECK(env::live_blocks() == 0, "%zu blocks are not released", env::live_blocks());
	mc::state(m * 2 + kind);
}
// the transport object itself
static void direct()
{
	Tr t;
	t.strict = true;
	int methods = mc::choose(3, "methods");
	t.can_read = methods != 1;
	t.can_write = methods != 2;
	t.on_open = [&](Tr &x) { x.in = "abcdefgh"; x.inpos = 0; };
	struct fstrm_rdwr *r = t.make();
	int depth = mc::thorough() ? 7 : 6;
	for (int i = 0; i < depth; i++) {
		int op = mc::choose(5, "op"), f = t.faulted;
		if (op == 0) break;
		char b[4];
		struct iovec v = {b, 4};
		fstrm_res res;
		bool open = t.open;
		if (op == 1) {
			if (t.open) mc::prune(); // opening twice is the caller's mistake
			res = fstrm_rdwr_open(r);
			if (t.faulted == f) CHECK(res == fstrm_res_success, "open returned %d", res);
		} else if (op == 2) {
			res = fstrm_rdwr_close(r);
			if (t.faulted == f) CHECK(res == fstrm_res_success, "close returned %d", res);
		} else if (op == 3) {
			size_t p = t.inpos;
			res = fstrm_rdwr_read(r, b, 4);
			CHECK((res == fstrm_res_success) == (open && t.can_read && t.faulted == f && p + 4 <= 8), "read returned %d", res);
			if (res == fstrm_res_success) CHECK(!memcmp(b, t.in.data() + p, 4), "read other bytes");
			else if (t.can_read) CHECK(!t.open, "a failing read leaves the transport open");
		} else {
			memcpy(b, "wxyz", 4);
			size_t o = t.out.size();
			res = fstrm_rdwr_write(r, &v, 1);
			CHECK((res == fstrm_res_success) == (open && t.can_write && t.faulted == f), "write returned %d", res);
			if (res == fstrm_res_success) CHECK(t.out.substr(o) == "wxyz", "wrote other bytes");
			else if (t.can_write) CHECK(!t.open, "a failing write leaves the transport open");
		}
		if (t.faulted > f) CHECK(res != fstrm_res_success, "operation %d reported success although the transport failed", op);
		mc::steps();
		mc::state(mc::hash(t.out, t.inpos * 10 + t.open));
	}
	if (t.open) fstrm_rdwr_close(r);
	fstrm_rdwr_destroy(&r);
	CHECK(!r, "destroy left the pointer set");
	fstrm_rdwr_destroy(&r);
	final(t, 0);
}
void mc_setup()
{
	bool th = mc::thorough();
	mc::config.before = env::forget_allocations;
	mc::config.note = "one execution = one call history on a reader, writer or transport with up to N transport failures or misbehaving peers anywhere, ending with destroy; states = distinct (bytes in, bytes out, position, open, last call)";
	// (calls, failures)
	static const int quick[][2] = {{5, 1}, {4, 2}, {2, 3}, {0, 0}}, deep[][2] = {{6, 1}, {5, 2}, {4, 3}, {0, 0}};
	for (int ty = 0; ty < 2; ty++)
		for (auto *q = th ? deep : quick; (*q)[0]; q++) {
			int depth = (*q)[0], dev = (*q)[1];
			if (ty && dev < 3) depth--;
			std::string s = std::string(ty ? ", types" : "") + ", " + std::to_string(depth) + " calls, " + std::to_string(dev) + " failures";
			mc::scenario("reader, uni-directional" + s, [=] { reader(false, depth, ty); }, dev);
			mc::scenario("reader, bi-directional" + s, [=] { reader(true, depth, ty); }, dev);
			mc::scenario("writer, uni-directional" + s, [=] { writer(false, depth, ty); }, dev);
			mc::scenario("writer, bi-directional" + s, [=] { writer(true, depth, ty); }, dev);
		}
	mc::scenario("missing methods", odd, 0);
	mc::scenario("transport object", direct, 2);
	together::mixed();
	together::writers();
	together::readers();
}
