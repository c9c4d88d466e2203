// C04: writer handshake.
#include "transport.hpp"
#include "together.hpp"
#include <map>
using namespace ref;
const char *mc_property = "C04";
static std::vector<L> own, lists, crowd;
static const std::vector<L> *offered = &lists;
static std::vector<B> bads;
static std::map<size_t, std::vector<L>> singles;

// what the peer sends: one answer
static B answer()
{
	switch (mc::choose(4, "answer")) {
	case 0: return ctl(ACCEPT, (*offered)[mc::choose(offered->size(), "accept")]);
	case 1: {
		static const int t[] = {READY, START, STOP, FINISH, 0, 6};
		int k = t[mc::choose(6, "type")];
		return with_header(be32(k) + ctl_payload(ACCEPT, lists[mc::choose(12, "list")]).substr(4));
	}
	case 2: return bads[mc::choose(bads.size(), "bad")];
	default: {
		B f = ctl(ACCEPT, lists[mc::choose(2, "which") ? 1 + 5 + 1 : 1]);
		return f.substr(0, mc::choose(f.size(), "cut"));
	}
	}
}
struct Expect { bool ok; B sent; L accept; size_t used; bool start; L start_ct; };
static Expect expect(const L &ct, const B &peer)
{
	Expect e{false, "", L(), 0, false, L()};
	if (ctl_payload(READY, ct).size() > 512) return e;
	e.sent = ctl(READY, ct);
	uint32_t t = 0;
	size_t p = 0;
	L a;
	if (!parse_ctl(peer, p, t, a) || t != ACCEPT) return e;
	if (!ct.empty()) {
		for (auto &c : ct) if (match(ACCEPT, a, &c)) { e.start_ct = L{c}; break; }
		if (e.start_ct.empty()) return e;
	}
	e.used = p;
	e.accept = a;
	e.start = true;
	e.sent += ctl(START, e.start_ct);
	e.ok = true;
	return e;
}
static void controls(struct fstrm_writer *w, const L &ct, const Expect &e, bool uni)
{
	struct fstrm_control *c = nullptr;
	if (!uni) {
		CHECK(fstrm_writer_get_control(w, FSTRM_CONTROL_READY, &c) == fstrm_res_success && payload_of(c) == ctl_payload(READY, ct), "get_control(READY) is not what was sent");
		CHECK(fstrm_writer_get_control(w, FSTRM_CONTROL_ACCEPT, &c) == fstrm_res_success && payload_of(c) == ctl_payload(ACCEPT, e.accept), "get_control(ACCEPT) is not what was received");
	} else {
		CHECK(fstrm_writer_get_control(w, FSTRM_CONTROL_READY, &c) == fstrm_res_success && !c, "get_control(READY) of a uni-directional writer");
		CHECK(fstrm_writer_get_control(w, FSTRM_CONTROL_ACCEPT, &c) == fstrm_res_success && !c, "get_control(ACCEPT) of a uni-directional writer");
	}
	CHECK(fstrm_writer_get_control(w, FSTRM_CONTROL_START, &c) == fstrm_res_success && payload_of(c) == ctl_payload(START, e.start_ct), "get_control(START) is not what was sent");
	CHECK(fstrm_writer_get_control(w, FSTRM_CONTROL_STOP, &c) != fstrm_res_success, "get_control(STOP)");
	mc::steps(4);
}
static fstrm_res implicit_open(struct fstrm_writer *w, int how)
{
	struct fstrm_control *c;
	if (how == 0) return fstrm_writer_open(w);
	return fstrm_writer_get_control(w, FSTRM_CONTROL_START, &c);
}
static void close_handshake(Tr &t, struct fstrm_writer *w, const Expect &e);
static void bidir(const L &ct)
{
	Tr t;
	B peer = answer();
	t.eof_is_stop = mc::choose(2, "eof");
	t.on_open = [&](Tr &x) { x.in = peer; x.inpos = 0; };
	struct fstrm_writer *w = t.writer(ct);
	int how = mc::choose(3, "how"); // open, get_control, write
	Expect e = expect(ct, peer);
	B payload = "some data";
	if (how == 2) {
		fstrm_res r = fstrm_writer_write(w, payload.data(), payload.size());
		mc::steps();
		if (t.faulted) {
			CHECK(r != fstrm_res_success || t.close_faults == t.faulted, "a failing transport was not reported");
			B all = e.sent + (e.ok ? frame(payload) : "");
			CHECK(t.out == all.substr(0, t.out.size()) && t.out.size() == t.out_at_fault, "sent after the transport failed");
		} else {
			CHECK((r == fstrm_res_success) == e.ok, "write returned %d, peer sent %s", r, hex(peer).c_str());
			CHECK(t.out == e.sent + (e.ok ? frame(payload) : ""), "sent %s instead of %s", hex(t.out, 600).c_str(), hex(e.sent, 600).c_str());
		}
		mc::state(mc::hash(t.out, r));
		t.faults = false;
		fstrm_writer_destroy(&w);
		return;
	}
	fstrm_res r = implicit_open(w, how);
	mc::steps();
	mc::state(mc::hash(t.out, mc::hash(peer, r + 10 * t.faulted)));
	if (t.faulted) {
		CHECK(r != fstrm_res_success || t.close_faults == t.faulted, "open succeeded although the transport failed");
		CHECK(t.out == e.sent.substr(0, t.out.size()) && t.out.size() == t.out_at_fault, "sent after the transport failed");
	} else {
		CHECK((r == fstrm_res_success) == e.ok, "open returned %d, peer sent %s", r, hex(peer, 600).c_str());
		CHECK(t.out == e.sent, "sent %s instead of %s", hex(t.out, 600).c_str(), hex(e.sent, 600).c_str());
		if (e.ok) {
			CHECK(t.inpos == e.used, "consumed %zu bytes of the peer's instead of %zu", t.inpos, e.used);
			controls(w, ct, e, false);
			CHECK(t.out == e.sent && t.opens == 1, "looking at the control frames had effects");
			close_handshake(t, w, e);
			return;
		}
	}
	// the open failed: whatever is tried now is a new attempt with a complete handshake of its own, or fails
	t.faults = false;
	peer = mc::choose(2, "retry") ? ctl(ACCEPT, L()) : B();
	t.out.clear();
	Expect e2 = expect(ct, peer);
	r = fstrm_writer_write(w, payload.data(), payload.size());
	mc::steps();
	if (r == fstrm_res_success) {
		CHECK(e2.ok && t.out == e2.sent + frame(payload), "after a failed open a write sent %s", hex(t.out, 600).c_str());
		controls(w, ct, e2, false);
	} else
		CHECK(t.out == B() || t.out == e2.sent, "after a failed open a failing write sent %s", hex(t.out, 600).c_str());
	fstrm_writer_destroy(&w);
}
static void close_handshake(Tr &t, struct fstrm_writer *w, const Expect &e)
{
	t.faults = false;
	t.out.clear();
	B fin;
	int k = mc::choose(4, "finish");
	if (k == 0) fin = ctl(FINISH);
	else if (k == 1) { static const int ty[] = {READY, ACCEPT, START, STOP, 0, 6}; fin = ctl(ty[mc::choose(6, "type")]); }
	else if (k == 2) fin = bad_frames(FINISH)[mc::choose(22, "bad")];
	else fin = ctl(FINISH).substr(0, mc::choose(12, "cut"));
	t.in += fin;
	uint32_t ty;
	L c;
	size_t p = 0;
	bool ok = parse_ctl(fin, p, ty, c) && ty == FINISH;
	fstrm_res r = fstrm_writer_close(w);
	mc::steps();
	CHECK(t.out == ctl(STOP), "close sent %s", hex(t.out).c_str());
	CHECK((r == fstrm_res_success) == ok, "close returned %d although the peer sent %s", r, hex(fin).c_str());
	if (ok) {
		struct fstrm_control *f = nullptr;
		CHECK(fstrm_writer_get_control(w, FSTRM_CONTROL_FINISH, &f) == fstrm_res_success && payload_of(f) == ctl_payload(FINISH, L()), "get_control(FINISH)");
	}
	mc::state(mc::hash(fin, ok));
	mc::outcome(ok ? "closed" : "close failed");
	fstrm_writer_destroy(&w);
	CHECK(t.out == ctl(STOP), "something was sent after close");
	(void)e;
}
static void unidir(const L &ct)
{
	Tr t;
	t.can_read = false;
	struct fstrm_writer *w = t.writer(ct);
	Expect e{true, "", L(), 0, true, ct.empty() ? L() : L{ct[0]}};
	e.sent = ctl(START, e.start_ct);
	int how = mc::choose(3, "how");
	B body;
	fstrm_res r;
	if (how == 2) { body = frame("x"); r = fstrm_writer_write(w, "x", 1); } else r = implicit_open(w, how);
	mc::steps();
	if (t.faulted) {
		CHECK(r != fstrm_res_success || t.close_faults == t.faulted, "a failing transport was not reported");
		CHECK(t.out == (e.sent + body).substr(0, t.out_at_fault), "sent after the transport failed");
	} else {
		CHECK(r == fstrm_res_success && t.out == e.sent + body, "sent %s, result %d", hex(t.out, 600).c_str(), r);
		controls(w, ct, e, true);
		t.faults = false;
		t.out.clear();
		CHECK(fstrm_writer_open(w) == fstrm_res_success && t.out.empty() && t.opens == 1, "opening an open writer had an effect");
		CHECK(fstrm_writer_close(w) == fstrm_res_success && t.out == ctl(STOP), "close");
	}
	t.faults = false;
	mc::state(mc::hash(t.out, r));
	fstrm_writer_destroy(&w);
}
void mc_setup()
{
	mc::config.before = env::forget_allocations;
	mc::config.note = "one execution = one writer (content-type list) opened against one peer answer (structured, malformed or truncated), with up to one transport failure anywhere, then closed or retried; states = distinct (sent bytes, peer bytes, result)";
	std::vector<B> al = {"a", "ab", "b", ""};
	own = all_lists(al, mc::thorough() ? 3 : 2);
	own.push_back(L{"a", "b", "ab"});
	own.push_back(L{"b", "", "a"});
	own.push_back(L{data(256, 1)});
	own.push_back(L{data(256, 1), data(244 - 8, 2)}); // READY payload of exactly 512 bytes
	own.push_back(L{data(256, 1), data(244 - 7, 2)}); // 513
	al.push_back("c");
	lists = all_lists(al, mc::thorough() ? 3 : 2);
	lists.push_back(L{"c", "ab", "b"});
	lists.push_back(L{"c", "d", "a"});
	lists.push_back(L{data(256, 1)});
	lists.push_back(L{data(236, 2)});
	lists.push_back(L{data(256, 3), data(236, 2)});
	bads = bad_frames(ACCEPT);
	for (auto &o : own) {
		std::string n;
		for (auto &x : o) n += "," + (x.size() > 9 ? std::to_string(x.size()) : x);
		mc::scenario("bi-directional [" + n + "]", [o] { offered = &lists; bidir(o); }, 1);
		mc::scenario("uni-directional [" + n + "]", [o] { unidir(o); }, mc::thorough() ? 2 : 1);
	}
	// many content types
	auto letters = [](size_t n, int from = 0) { L l; for (size_t i = 0; i < n; i++) l.push_back(B(1, (char)(from + i + 1))); return l; };
	for (size_t n : {4u, 5u, 8u, 9u, 16u, 17u, 31u, 32u, 33u, 40u, 55u, 56u})
		for (size_t at : {(size_t)0, n / 2, n - 1}) { L l(n, "z"); l[at] = "a"; crowd.push_back(l); }
	for (size_t n : {61u, 62u, 63u}) { crowd.push_back(L(n, "")); L l(n - 1, ""); l.push_back("a"); if (ctl_payload(ACCEPT, l).size() <= 512) crowd.push_back(l); }
	for (size_t n : {20u, 33u, 56u}) crowd.push_back(letters(n, 'a' - 1));
	std::vector<L> mine = {{"a"}, {"q", "a"}, {"", "a"}, letters(33, 'a' - 1), letters(56, 1), letters(57, 1), letters(100, 1), letters(200, 1)};
	for (auto &o : mine) {
		std::string n = std::to_string(o.size()) + " " + std::to_string(&o - &mine[0]);
		mc::scenario("many, bi-directional " + n, [o] { offered = &crowd; bidir(o); });
		mc::scenario("many, uni-directional " + n, [o] { offered = &crowd; unidir(o); });
	}
	// any of the writer's own content types may be the one that matches
	for (size_t n : {2u, 9u, 16u, 17u, 32u, 33u, 40u, 56u}) {
		L m = letters(n, 1);
		std::vector<L> &off = singles[n];
		for (auto &x : m) { off.push_back(L{x}); off.push_back(L{"zz", x}); off.push_back(L{x, m[0]}); off.push_back(L{x, m[n - 1]}); off.push_back(L{x, "zz"}); }
		mc::scenario("each matches " + std::to_string(n), [m, n] { offered = &singles[n]; bidir(m); });
	}
	together::writers(true);
}
