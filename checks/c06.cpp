// C06: a writer emits exactly the framed stream.
#include "transport.hpp"
#include "together.hpp"
#include <sys/mman.h>
using namespace ref;
const char *mc_property = "C06";

static std::string diff(const B &a, const B &b)
{
	size_t i = 0;
	while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
	return "at byte " + std::to_string(i) + " of " + std::to_string(a.size()) + "/" + std::to_string(b.size()) + ": " + hex(a.substr(i), 16) + " instead of " + hex(b.substr(i), 16);
}
struct Batch {
	std::vector<B> data, keep;
	std::vector<struct iovec> v, vkeep;
	B wire;
	void add(const B &d) { data.push_back(d); }
	void done()
	{
		keep = data;
		wire.clear();
		for (auto &d : data) { v.push_back({(void *)d.data(), d.size()}); wire += frame(d); }
		vkeep = v;
	}
	void check()
	{
		CHECK(data == keep, "the payload was modified");
		for (size_t i = 0; i < v.size(); i++) CHECK(v[i].iov_base == vkeep[i].iov_base && v[i].iov_len == vkeep[i].iov_len, "the caller's iovecs were modified");
	}
};
static int pattern(int p, int i)
{
	switch (p) {
	case 0: return 1;
	case 1: return i % 7 + 1;
	case 2: return i % 3 == 0 ? 300 : 2;
	default: return i % 50 == 49 ? 5000 : i % 4 + 1;
	}
}
static void batches(int lo, int hi)
{
	int n = lo + mc::choose(hi - lo, "batch"), p = mc::choose(4, "sizes"), again = mc::choose(2, "again");
	Tr t;
	t.can_read = false;
	t.faults = false;
	struct fstrm_writer *w = t.writer(L{"ct"});
	CHECK(fstrm_writer_open(w) == fstrm_res_success, "open");
	t.out.clear();
	t.faults = true;
	Batch b, b2;
	for (int i = 0; i < n; i++) b.add(data(pattern(p, i), i + 1));
	b.done();
	int before = t.faulted;
	fstrm_res r = fstrm_writer_writev(w, b.v.data(), n);
	mc::steps();
	b.check();
	if (t.faulted == before) {
		CHECK(r == fstrm_res_success, "writev(%d) returned %d", n, r);
		CHECK(t.out == b.wire, "writev(%d): %s", n, diff(t.out, b.wire).c_str());
		if (again) {
			for (int i = 0; i < 3; i++) b2.add(data(i + 1, 77 + i));
			b2.done();
			t.faults = false;
			CHECK(fstrm_writer_writev(w, b2.v.data(), 3) == fstrm_res_success && t.out == b.wire + b2.wire, "a batch after writev(%d): %s", n, diff(t.out, b.wire + b2.wire).c_str());
		}
	} else {
		CHECK(r != fstrm_res_success, "writev(%d) succeeded although the transport failed", n);
		CHECK(t.out == b.wire.substr(0, t.out_at_fault) && t.out.size() == t.out_at_fault, "writev(%d) with a failing transport: %s", n, diff(t.out, b.wire).c_str());
		t.faults = false;
		CHECK(fstrm_writer_write(w, "x", 1) != fstrm_res_success && t.out.size() == t.out_at_fault, "written after the transport failed");
	}
	mc::state(mc::hash(t.out, r));
	t.faults = false;
	B at = t.out;
	fstrm_writer_destroy(&w);
	CHECK(t.out == at + (before == t.faulted ? ctl(STOP) : ""), "destroy: %s", diff(t.out, at + ctl(STOP)).c_str());
}
static void sizes()
{
	static const size_t big[] = {4095, 4096, 4097, 65535, 65536, 65537, 1 << 20, (1 << 24) + 1};
	int k = mc::choose(600 + 8, "len");
	size_t n = k < 600 ? k : big[k - 600];
	Tr t;
	t.can_read = false;
	t.faults = false;
	struct fstrm_writer *w = t.writer(L());
	if (mc::choose(2, "open")) { CHECK(fstrm_writer_open(w) == fstrm_res_success && t.out == ctl(START), "open"); }
	B d = data(n, 3), keep = d, want;
	fstrm_res r = fstrm_writer_write(w, d.data(), n);
	mc::steps();
	CHECK(d == keep, "payload modified");
	CHECK((r == fstrm_res_success) == (n > 0), "write of %zu bytes returned %d", n, r);
	if (n > 0) want = ctl(START) + frame(d);
	else want = t.out.empty() ? B() : ctl(START);
	CHECK(t.out == want, "write of %zu bytes: %s", n, diff(t.out, want).c_str());
	mc::state(mc::hash(t.out, r));
	CHECK(fstrm_writer_write(w, "zz", 2) == fstrm_res_success, "write");
	CHECK(fstrm_writer_close(w) == fstrm_res_success && t.out == (n ? want : ctl(START)) + frame("zz") + ctl(STOP), "close: %s", diff(t.out, want + frame("zz") + ctl(STOP)).c_str());
	fstrm_writer_destroy(&w);
}
// frames that are pieces of one buffer: the same, overlapping, adjoining, or holding what looks like frames
static void slices(int size, int depth, bool longer)
{
	static const B buf = be32(1) + B("\0\0\0\0\0\0\0\4\0\0\0\3", 12);
	Tr t;
	t.can_read = false;
	t.faults = false;
	struct fstrm_writer *w = t.writer(L());
	CHECK(fstrm_writer_open(w) == fstrm_res_success, "open");
	t.out.clear();
	B mine = buf, want;
	std::vector<struct iovec> v;
	auto add = [&](int at, int n) { v.push_back({&mine[at], (size_t)n}); want += frame(buf.substr(at, n)); };
	if (longer) for (int i = 0; i < 126; i++) add(0, 4);
	for (int i = 0; i < depth; i++) {
		int k = mc::choose(1 + size * (size + 1) / 2, "slice");
		if (!k) break;
		k--;
		int at = 0;
		while (k >= size - at) { k -= size - at; at++; }
		add(at, k + 1);
	}
	fstrm_res r = v.size() == 1 ? fstrm_writer_write(w, v[0].iov_base, v[0].iov_len) : fstrm_writer_writev(w, v.data(), v.size());
	mc::steps(v.size());
	CHECK(r == fstrm_res_success && t.out == want, "%zu pieces of one buffer: %d, %s", v.size(), r, diff(t.out, want).c_str());
	CHECK(mine == buf, "the buffer was modified");
	mc::state(mc::hash(t.out));
	CHECK(fstrm_writer_close(w) == fstrm_res_success && t.out == want + ctl(STOP), "close: %s", diff(t.out, want + ctl(STOP)).c_str());
	fstrm_writer_destroy(&w);
}
static void huge()
{
	static const size_t sz[] = {0xffffffffu, 0xfffffffeu, 0x80000000u, 0x100000000ull, 0x100000001ull, 0x1fffffffeull, 0x200000000ull, (size_t)-1, (size_t)1 << 63};
	static char *region;
	if (!region) {
		region = (char *)mmap(nullptr, 0x100001000ull, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (region == MAP_FAILED) { perror("mmap"); abort(); }
		memcpy(region, "hugehuge", 8);
	}
	size_t n = sz[mc::choose(9, "len")];
	int pos = mc::choose(3, "pos"), count = pos + mc::choose(2, "more") + 1;
	if (count > 2 && mc::choose(2, "long")) { count = 130; pos = 129 - pos; }
	Tr t;
	t.can_read = false;
	t.faults = false;
	struct fstrm_writer *w = t.writer(L());
	CHECK(fstrm_writer_open(w) == fstrm_res_success, "open");
	t.out.clear();
	std::vector<struct iovec> v;
	B want;
	for (int i = 0; i < count; i++) {
		if (i == pos) { v.push_back({region, n}); want += be32(n) + "<" + std::to_string(n) + ":hugehuge>"; }
		else { v.push_back({(void *)"abc", 3}); want += frame("abc"); }
	}
	fstrm_res r = fstrm_writer_writev(w, v.data(), count);
	mc::steps();
	bool ok = n <= 0xffffffffu;
	CHECK((r == fstrm_res_success) == ok, "a frame of %zu bytes: result %d", n, r);
	CHECK(t.out == (ok ? want : B()), "a frame of %zu bytes: %s", n, diff(t.out, ok ? want : B()).c_str());
	CHECK(fstrm_writer_write(w, "q", 1) == fstrm_res_success, "write after a refused frame");
	CHECK(t.out == (ok ? want : B()) + frame("q"), "write after a refused frame: %s", diff(t.out, want).c_str());
	mc::state(mc::hash(t.out, n));
	fstrm_writer_destroy(&w);
}
// one batch of very many frames, then another
static void large(int n)
{
	Tr t;
	t.can_read = false;
	t.faults = false;
	struct fstrm_writer *w = t.writer(L{"ct"});
	CHECK(fstrm_writer_open(w) == fstrm_res_success, "open");
	t.out.clear();
	Batch b;
	for (int i = 0; i < n; i++) b.add(data(i % 3 + 1, i + 1));
	b.done();
	fstrm_res r = fstrm_writer_writev(w, b.v.data(), n);
	mc::steps();
	b.check();
	CHECK(r == fstrm_res_success, "writev(%d) returned %d", n, r);
	CHECK(t.out == b.wire, "writev(%d): %s", n, diff(t.out, b.wire).c_str());
	CHECK(fstrm_writer_writev(w, b.v.data(), 2) == fstrm_res_success && t.out == b.wire + frame(b.data[0]) + frame(b.data[1]), "a batch after writev(%d)", n);
	mc::state(mc::hash(t.out, n));
	fstrm_writer_destroy(&w);
}
// very many calls on one writer
static void patience(int n, int per, bool reopen)
{
	Tr t;
	t.faults = false;
	t.more = [](Tr &x) { return x.inpos ? ctl(FINISH) : B(); };
	L ct = L{"x"};
	B want;
	t.on_open = [&](Tr &x) { x.in = ctl(ACCEPT, ct); x.inpos = 0; };
	struct fstrm_writer *w = t.writer(ct);
	for (int i = 0; i < n; i++) {
		if (reopen || i == 0) {
			CHECK(fstrm_writer_open(w) == fstrm_res_success, "open %d", i);
			want += ctl(READY, ct) + ctl(START, ct);
		}
		Batch b;
		for (int k = 0; k < per; k++) b.add(data(k + 1, i + k));
		b.done();
		CHECK((per == 1 ? fstrm_writer_write(w, b.data[0].data(), 1) : fstrm_writer_writev(w, b.v.data(), per)) == fstrm_res_success, "write %d", i);
		want += b.wire;
		mc::steps();
		if (reopen) {
			CHECK(fstrm_writer_close(w) == fstrm_res_success, "close %d", i);
			want += ctl(STOP);
		}
		CHECK(t.out.size() == want.size() && !t.out.compare(t.out.size() - b.wire.size(), B::npos, want, want.size() - b.wire.size(), B::npos), "write %d", i);
	}
	CHECK(t.out == want, "%d writes: %s", n, diff(t.out, want).c_str());
	mc::state(mc::hash(t.out, n));
	fstrm_writer_destroy(&w);
}
static void zeros() // a frame of length zero at any position of a batch
{
	static const int ns[] = {1, 2, 3, 5, 127, 128, 129, 130, 200, 255, 256, 257, 300};
	int n = ns[mc::choose(13, "batch")], pos = mc::choose(n, "pos");
	Tr t;
	t.can_read = false;
	t.faults = false;
	struct fstrm_writer *w = t.writer(L());
	CHECK(fstrm_writer_open(w) == fstrm_res_success, "open");
	t.out.clear();
	Batch b;
	for (int i = 0; i < n; i++) b.add(data(i == pos ? 0 : i % 3 + 1, i));
	b.done();
	fstrm_res r = fstrm_writer_writev(w, b.v.data(), n);
	mc::steps();
	CHECK(r != fstrm_res_success, "a frame of length zero was accepted");
	CHECK(t.out.empty(), "a refused batch was sent partly: %s", hex(t.out).c_str());
	mc::state(mc::hash(t.out, n * 1000 + pos));
	b.v[pos].iov_len = 1;
	b.v[pos].iov_base = (void *)"!";
	B want;
	for (auto &v : b.v) want += frame(B((char *)v.iov_base, v.iov_len));
	CHECK(fstrm_writer_writev(w, b.v.data(), n) == fstrm_res_success && t.out == want, "the repaired batch: %s", diff(t.out, want).c_str());
	fstrm_writer_destroy(&w);
}
// all call sequences
static void sequences(bool bi)
{
	int depth = mc::thorough() ? 6 : 5;
	Tr t;
	t.can_read = bi;
	L ct = L{"x"};
	B hs = (bi ? ctl(READY, ct) : B()) + ctl(START, ct), want;
	int base_in = 0;
	t.on_open = [&](Tr &x) { x.in = ctl(ACCEPT, ct) + ctl(FINISH); x.inpos = 0; x.out.clear(); base_in++; };
	struct fstrm_writer *w = t.writer(ct);
	enum { NEW, OPEN, CLOSED, BROKEN } st = NEW;
	// called after each operation that may have opened the transport
	for (int i = 0; i < depth; i++) {
		int op = mc::choose(9, "op");
		if (op == 0) break;
		int f0 = t.faulted, o0 = t.ok_opens, tries = t.opens;
		fstrm_res r;
		B add;
		bool writes = false, invalid = false, opens = false;
		struct fstrm_control *c;
		Batch b;
		switch (op) {
		case 1: r = fstrm_writer_open(w); opens = st == NEW || st == CLOSED; break;
		case 2: add = frame("a"); writes = opens = true; r = fstrm_writer_write(w, "a", 1); break;
		case 3: b.add("bcd"); b.add("efghi"); b.done(); add = b.wire; writes = opens = true; r = fstrm_writer_writev(w, b.v.data(), 2); b.check(); break;
		case 4: for (int k = 0; k < 130; k++) b.add(data(k % 3 + 1, k)); b.done(); add = b.wire; writes = opens = true; r = fstrm_writer_writev(w, b.v.data(), 130); b.check(); break;
		case 5: invalid = opens = true; r = fstrm_writer_write(w, "a", 0); break;
		case 6: r = fstrm_writer_close(w); break;
		case 7: opens = true; r = fstrm_writer_get_control(w, FSTRM_CONTROL_START, &c); break;
		case 8: opens = true; r = fstrm_writer_writev(w, nullptr, 0); break;
		}
		mc::steps();
		bool fault = t.faulted > f0;
		if (op != 1 && st != NEW) opens = false;
		CHECK(opens || t.opens == tries, "op %d opened the transport in state %d", op, st);
		if (fault && (op != 8)) CHECK(r != fstrm_res_success, "op %d succeeded although the transport failed", op);
		if (t.ok_opens > o0) { // a new connection
			CHECK(t.ok_opens == o0 + 1, "opened more than once");
			want = hs;
			if (fault && t.out.size() < hs.size()) { want = hs.substr(0, t.out_at_fault); st = NEW; CHECK(t.out == want, "op %d after a failed open: %s", op, diff(t.out, want).c_str()); continue; }
			if (fault && !t.open && !writes) { want = t.out; st = NEW; CHECK(t.out == hs, "handshake: %s", diff(t.out, hs).c_str()); continue; }
			st = OPEN;
		} else if (opens && (st == NEW || st == CLOSED) && t.opens > tries) { // could not open
			CHECK(r != fstrm_res_success, "op %d succeeded although the transport could not be opened", op);
			if (st == CLOSED) { /* still closed */ }
			continue;
		} else if (op == 1 && (st == NEW))
			CHECK(r != fstrm_res_success, "open succeeded without opening");
		if (writes) {
			if (st == OPEN) {
				if (fault) { want = (want + add).substr(0, t.out_at_fault); st = BROKEN; }
				else { want += add; CHECK(r == fstrm_res_success, "op %d returned %d", op, r); }
			} else CHECK(r != fstrm_res_success, "op %d succeeded in state %d", op, st);
		} else if (invalid) {
			CHECK(r != fstrm_res_success, "a frame of length zero was accepted");
		} else if (op == 6) {
			if (st == OPEN) {
				if (fault) {
					CHECK(t.out == want || t.out == want + ctl(STOP), "close: %s", diff(t.out, want).c_str());
					want = t.out;
				} else { want += ctl(STOP); CHECK(r == fstrm_res_success, "close returned %d", r); }
				st = CLOSED;
			} else {
				CHECK(r != fstrm_res_success, "close succeeded in state %d", st);
				if (st == BROKEN) st = CLOSED;
			}
		} else if (op == 1 && st == OPEN) CHECK(r == fstrm_res_success, "open returned %d", r);
		CHECK(t.out == want, "op %d: %s", op, diff(t.out, want).c_str());
		mc::state(mc::hash(t.out, st * 10 + fault));
	}
	t.faults = false;
	fstrm_writer_destroy(&w);
	if (st == OPEN) want += ctl(STOP);
	CHECK(t.out == want, "destroy: %s", diff(t.out, want).c_str());
	static const char *n[] = {"new", "open", "closed", "broken"};
	mc::outcome(n[st]);
}
void mc_setup()
{
	mc::config.before = env::forget_allocations;
	mc::config.note = "one execution = one writer driven by a choice of batch/frame sizes or a call sequence, with up to one transport failure at any transport operation, output compared byte for byte; states = distinct (output, result)";
	int top = mc::thorough() ? 1400 : 600, dev = 1;
	for (int lo = 0; lo < top; lo += 50) mc::scenario("batches of " + std::to_string(lo) + "-" + std::to_string(lo + 49), [lo] { batches(lo, lo + 50); }, dev);
	mc::scenario("batches around 1024", [] { batches(1020, 1030); }, dev);
	mc::scenario("batches around 2048", [] { batches(2046, 2051); }, dev);
	for (int n : {10000, 20000, 32640, 32641, 32767, 32768, 32769, 40000, 65408, 65534, 65535, 65536, 65537, 65664, 70000, 131072, 131073, 200000}) mc::scenario("batch of " + std::to_string(n), [n] { large(n); });
	if (mc::thorough()) for (int n = 30000; n < 70000; n += 127) mc::scenario("batch of " + std::to_string(n), [n] { large(n); });
	for (int per : {1, 2, 3}) mc::scenario("70000 writes of " + std::to_string(per), [per] { patience(70000, per, false); });
	mc::scenario("66000 connections", [] { patience(66000, 1, true); });
	mc::scenario("frame sizes", sizes);
	mc::scenario("pieces of 4 bytes", [] { slices(4, mc::thorough() ? 6 : 5, false); });
	mc::scenario("pieces of 16 bytes", [] { slices(16, mc::thorough() ? 3 : 2, false); });
	mc::scenario("pieces of 4 bytes, many", [] { slices(4, mc::thorough() ? 4 : 3, true); });
	mc::scenario("huge frames", huge);
	mc::scenario("empty frames", zeros);
	mc::scenario("sequences, uni-directional", [] { sequences(false); }, mc::thorough() ? 2 : 1);
	mc::scenario("sequences, bi-directional", [] { sequences(true); }, 1);
	together::writers();
}
