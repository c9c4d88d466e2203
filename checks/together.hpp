// Objects of their own do not influence one another: several writers and readers, each on its own transport, take their
// steps in turn, and while one of them waits in its transport another one may act (as a thread of its own, or a transport
// that itself uses a writer or reader, would).
#pragma once
#include "transport.hpp"
namespace together {
using namespace ref;
struct Agent {
	bool reader, bi;
	int id, pc = 0;
	bool busy = false;
	Tr t;
	struct fstrm_writer *w = nullptr;
	struct fstrm_reader *r = nullptr;
	L ct;
	B want, last;
	const uint8_t *ptr = nullptr;
	int steps() const { return 8; }
	std::vector<B> frames;
	B me() const { return "object " + std::to_string(id) + ", step " + std::to_string(pc); }
	void init(int i, bool rd, bool b)
	{
		id = i; reader = rd; bi = b;
		t.faults = false;
		t.strict = true;
		ct = L{"type" + std::to_string(i), data(40 + i, 9 * i + 1)};
		for (int k = 0; k < 4; k++) frames.push_back(data(k == 2 ? 700 + i : 3 + i + k, 50 * i + k));
		if (reader) {
			t.can_write = bi;
			r = t.reader(ct, 1000 + i);
			t.on_open = [this](Tr &x) {
				x.in = (bi ? ctl(READY, L{"zzz", ct[1]}) : B()) + ctl(START, L{ct[1]}) + frame(frames[0]) + with_header(be32(77 + id)) + frame(frames[1]) + frame(frames[2]) + ctl(STOP);
				x.inpos = 0;
			};
		} else {
			t.can_read = bi;
			w = t.writer(ct);
			t.on_open = [this](Tr &x) { x.in = ctl(ACCEPT, L{"zzz", ct[1]}) + ctl(FINISH); x.inpos = 0; };
		}
	}
	void step()
	{
		busy = true;
		if (reader) rstep(); else wstep();
		CHECK(t.out == want, "%s: sent %s instead of %s", me().c_str(), hex(t.out, 60).c_str(), hex(want, 60).c_str());
		mc::steps();
		busy = false;
		pc++;
		mc::state(mc::hash(t.out, (id * 16 + pc) * 100003 + t.nops));
	}
	void wstep()
	{
		const L sel = bi ? L{ct[1]} : L{ct[0]};
		struct fstrm_control *c = nullptr;
		std::vector<struct iovec> v;
		auto ok = [&](fstrm_res x) { CHECK(x == fstrm_res_success, "%s returned %d", me().c_str(), x); };
		switch (pc) {
		case 0: if (bi) want = ctl(READY, ct); want += ctl(START, sel); ok(fstrm_writer_open(w)); break;
		case 1: want += frame(frames[0]); ok(fstrm_writer_write(w, frames[0].data(), frames[0].size())); break;
		case 2: for (int i = 0; i < 131; i++) { B &f = frames[i % 4]; v.push_back({(void *)f.data(), f.size()}); want += frame(f); } ok(fstrm_writer_writev(w, v.data(), v.size())); break;
		case 3: ok(fstrm_writer_get_control(w, FSTRM_CONTROL_START, &c)); CHECK(payload_of(c) == ctl_payload(START, sel), "%s: START is %s", me().c_str(), hex(payload_of(c)).c_str()); break;
		case 4: for (int i = 1; i < 4; i++) { B &f = frames[i]; v.push_back({(void *)f.data(), f.size()}); want += frame(f); } ok(fstrm_writer_writev(w, v.data(), v.size())); break;
		case 5: if (!bi) break; ok(fstrm_writer_get_control(w, FSTRM_CONTROL_ACCEPT, &c)); CHECK(payload_of(c) == ctl_payload(ACCEPT, L{"zzz", ct[1]}), "%s: ACCEPT is %s", me().c_str(), hex(payload_of(c)).c_str()); break;
		case 6: want += ctl(STOP); ok(fstrm_writer_close(w)); break;
		case 7: fstrm_writer_destroy(&w); break;
		}
	}
	void rstep()
	{
		const uint8_t *d = nullptr;
		size_t n = 0;
		const struct fstrm_control *c = nullptr;
		auto ok = [&](fstrm_res x) { CHECK(x == fstrm_res_success, "%s returned %d", me().c_str(), x); };
		// what the last read returned is valid until this object is used again
		if (ptr) CHECK(!memcmp(ptr, last.data(), last.size()), "%s: the frame that was read before changed", me().c_str());
		ptr = nullptr;
		switch (pc) {
		case 0: if (bi) want = ctl(ACCEPT, L{ct[1]}); ok(fstrm_reader_open(r)); break;
		case 1: case 2: case 3:
			last = frames[pc - 1];
			ok(fstrm_reader_read(r, &d, &n));
			CHECK(n == last.size() && !memcmp(d, last.data(), n), "%s: read %s instead of %s", me().c_str(), hex(B((const char *)d, n), 60).c_str(), hex(last, 60).c_str());
			ptr = d;
			break;
		case 4: ok(fstrm_reader_get_control(r, FSTRM_CONTROL_START, &c)); CHECK(payload_of(c) == ctl_payload(START, L{ct[1]}), "%s: START is %s", me().c_str(), hex(payload_of(c)).c_str()); break;
		case 5: CHECK(fstrm_reader_read(r, &d, &n) == fstrm_res_stop, "%s: no stop", me().c_str()); break;
		case 6: if (bi) want += ctl(FINISH); ok(fstrm_reader_close(r)); break;
		case 7: fstrm_reader_destroy(&r); break;
		}
	}
};
static void run(std::vector<std::pair<bool, bool>> kinds)
{
	std::vector<Agent> a(kinds.size());
	int nested = 0;
	auto other = [&](const char *what) { // one step of an object that is not in the middle of one, if there is one left
		std::vector<Agent *> f;
		for (auto &x : a) if (!x.busy && x.pc < x.steps()) f.push_back(&x);
		if (f.empty() || nested >= 2) return;
		int k = mc::deviate(f.size() + 1, what);
		if (!k) return;
		nested++;
		mc::note("meanwhile (%s) object %d takes step %d", what, f[k - 1]->id, f[k - 1]->pc);
		f[k - 1]->step();
		nested--;
	};
	for (size_t i = 0; i < a.size(); i++) { a[i].init(i, kinds[i].first, kinds[i].second); a[i].t.meanwhile = other; }
	for (;;) {
		std::vector<Agent *> f;
		for (auto &x : a) if (x.pc < x.steps()) f.push_back(&x);
		if (f.empty()) break;
		std::sort(f.begin(), f.end(), [](Agent *x, Agent *y) { return x->pc != y->pc ? x->pc < y->pc : x->id < y->id; });
		Agent *x = f[mc::deviate(f.size(), "turn")];
		mc::note("object %d takes step %d", x->id, x->pc);
		x->step();
	}
	uint64_t h = 0;
	for (auto &x : a) { CHECK(x.t.destroys == 1 && x.t.opens == x.t.closes, "object %d: opened %d, closed %d, destroyed %d times", x.id, x.t.opens, x.t.closes, x.t.destroys); h = mc::hash(x.t.out, h); }
	mc::state(h);
	CHECK(env::live_blocks() == 0, "%zu blocks are left", env::live_blocks());
}
static void add(const char *name, std::vector<std::pair<bool, bool>> kinds)
{
	mc::scenario(B("independent objects: ") + name, [=] { run(kinds); }, mc::thorough() ? 3 : 2);
}
static void writers(bool bi_only = false)
{
	add("two bi-directional writers", {{false, true}, {false, true}});
	if (!bi_only) add("three writers", {{false, false}, {false, true}, {false, false}});
}
static void readers(bool bi_only = false)
{
	add("two bi-directional readers", {{true, true}, {true, true}});
	if (!bi_only) add("three readers", {{true, false}, {true, true}, {true, false}});
}
static void mixed() { add("writer and reader", {{false, true}, {true, true}}); }
}
