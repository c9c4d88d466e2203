// C05: reader handshake.
#include "transport.hpp"
#include "together.hpp"
#include <map>
using namespace ref;
const char *mc_property = "C05";
static std::vector<L> own, lists, slists, crowd;
static const std::vector<L> *offered = &lists, *started = &slists;
static std::map<size_t, std::vector<L>> singles;
static std::vector<B> bad_ready, bad_start;

static B ready()
{
	switch (mc::choose(4, "ready")) {
	case 0: return ctl(READY, (*offered)[mc::choose(offered->size(), "ready-list")]);
	case 1: {
		static const int t[] = {ACCEPT, START, STOP, FINISH, 0, 6};
		int k = t[mc::choose(6, "type")];
		return with_header(be32(k) + ctl_payload(ACCEPT, slists[mc::choose(4, "list")]).substr(4));
	}
	case 2: return bad_ready[mc::choose(bad_ready.size(), "bad")];
	default: {
		B f = ctl(READY, mc::choose(2, "which") ? L{"a", "b"} : L());
		return f.substr(0, mc::choose(f.size(), "cut"));
	}
	}
}
static B start()
{
	switch (mc::choose(4, "start")) {
	case 0: return ctl(START, (*started)[mc::choose(started->size(), "start-list")]);
	case 1: {
		static const int t[] = {ACCEPT, READY, STOP, FINISH, 0, 6};
		int k = t[mc::choose(6, "type")];
		return with_header(be32(k) + ctl_payload(ACCEPT, slists[mc::choose(3, "list")]).substr(4));
	}
	case 2: return bad_start[mc::choose(bad_start.size(), "bad")];
	default: {
		B f = ctl(START, mc::choose(2, "which") ? L{"a"} : L());
		return f.substr(0, mc::choose(f.size(), "cut"));
	}
	}
}
struct Expect { bool ok, sendable; B sent; L ready, accept, start; size_t used; };
static Expect expect(const L &ct, const B &in, bool bi)
{
	Expect e{false, false, "", L(), L(), L(), 0};
	uint32_t t;
	size_t p = 0;
	if (bi) {
		if (!parse_ctl(in, p, t, e.ready) || t != READY) return e;
		for (auto &c : ct) if (match(READY, e.ready, &c)) e.accept.push_back(c);
		if (ctl_payload(ACCEPT, e.accept).size() > 512) return e;
		e.sent = ctl(ACCEPT, e.accept);
	}
	if (!parse_ctl(in, p, t, e.start) || t != START) return e;
	bool m = ct.empty();
	for (auto &c : ct) if (match(START, e.start, &c)) m = true;
	e.used = p;
	e.ok = m;
	return e;
}
static void controls(struct fstrm_reader *r, const Expect &e, bool bi)
{
	const struct fstrm_control *c = nullptr;
	CHECK(fstrm_reader_get_control(r, FSTRM_CONTROL_START, &c) == fstrm_res_success && payload_of(c) == ctl_payload(START, e.start), "get_control(START) is not what was received");
	c = nullptr;
	CHECK(fstrm_reader_get_control(r, FSTRM_CONTROL_READY, &c) == fstrm_res_success && payload_of(c) == (bi ? ctl_payload(READY, e.ready) : "none"), "get_control(READY) is not what was received");
	c = nullptr;
	CHECK(fstrm_reader_get_control(r, FSTRM_CONTROL_ACCEPT, &c) == fstrm_res_success && payload_of(c) == (bi ? ctl_payload(ACCEPT, e.accept) : "none"), "get_control(ACCEPT) is not what was sent");
	c = nullptr;
	CHECK(fstrm_reader_get_control(r, FSTRM_CONTROL_STOP, &c) == fstrm_res_success && !c, "get_control(STOP) before the end of the stream");
	mc::steps(4);
}
static void run(const L &ct, bool bi)
{
	Tr t;
	t.can_write = bi;
	B peer = bi ? ready() : B();
	{
		// what follows a READY that is refused does not matter much
		uint32_t ty; L l; size_t p = 0;
		bool good = !bi || (parse_ctl(peer, p, ty, l) && ty == READY && p == peer.size());
		peer += good ? start() : ctl(START, L());
	}
	B tail = frame("data") + ctl(STOP);
	// how the reader is opened, what follows START, and how the end of the input shows: all combinations on the
	// uni-directional transport, four of them on the bi-directional one
	static const int combo[][3] = {{0, 1, 0}, {1, 0, 0}, {1, 1, 2}, {0, 0, 1}, {0, 0, 0}, {1, 1, 0}, {0, 1, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 2}, {0, 0, 2}, {1, 0, 2}};
	const int *cb = combo[mc::choose(bi && !mc::thorough() ? 4 : 12, "how")];
	t.eof_is_stop = cb[0];
	bool with_tail = cb[1];
	int how = cb[2];
	if (with_tail && expect(ct, peer + tail, bi).used != expect(ct, peer, bi).used) mc::prune(); // a cut START completed by the tail
	t.on_open = [&](Tr &x) { x.in = peer + (with_tail ? tail : ""); x.inpos = 0; };
	Expect e = expect(ct, peer + (with_tail ? tail : ""), bi);
	struct fstrm_reader *r = t.reader(ct);
	const struct fstrm_control *c = nullptr;
	const uint8_t *d = nullptr;
	size_t len = 0;
	fstrm_res res;
	if (how == 0) res = fstrm_reader_open(r);
	else if (how == 1) res = fstrm_reader_get_control(r, FSTRM_CONTROL_START, &c);
	else res = fstrm_reader_read(r, &d, &len);
	mc::steps();
	mc::state(mc::hash(t.out, mc::hash(peer, res + 10 * t.faulted)));
	if (t.faulted) {
		CHECK(res != fstrm_res_success || t.close_faults == t.faulted, "success although the transport failed");
		CHECK(t.out == e.sent.substr(0, t.out.size()) && t.out.size() == t.out_at_fault, "sent after the transport failed");
	} else {
		CHECK(t.out == e.sent, "sent %s instead of %s", hex(t.out, 600).c_str(), hex(e.sent, 600).c_str());
		bool want = e.ok && (how != 2 || with_tail);
		CHECK((res == fstrm_res_success) == want, "%s returned %d, peer sent %s", how == 0 ? "open" : how == 1 ? "get_control" : "read", res, hex(peer, 600).c_str());
		if (how == 1 && want) CHECK(payload_of(c) == ctl_payload(START, e.start), "get_control(START) is not what was received");
		if (how == 2 && want) CHECK(len == 4 && !memcmp(d, "data", 4), "read returned something else than the first frame");
		if (e.ok && want) {
			if (how != 2) CHECK(t.inpos == e.used, "consumed %zu bytes instead of %zu", t.inpos, e.used);
			controls(r, e, bi);
			CHECK(t.out == e.sent && t.opens == 1, "looking at the control frames had effects");
			t.faults = false;
			if (how != 2 && with_tail) {
				CHECK(fstrm_reader_read(r, &d, &len) == fstrm_res_success && len == 4 && !memcmp(d, "data", 4), "the first frame is not returned");
				mc::steps();
			}
			mc::outcome("opened");
		} else {
			mc::outcome("refused");
			// a second attempt on the same object against another peer
			t.faults = false;
			t.out.clear();
			peer = mc::choose(2, "retry") ? (bi ? ctl(READY, L()) : B()) + ctl(START, L()) : B();
			with_tail = false;
			t.on_open = [&](Tr &x) { x.in = peer; x.inpos = 0; };
			Expect e2 = expect(ct, peer, bi);
			int opens = t.opens;
			if (how != 2 || !e.ok) {
				res = fstrm_reader_open(r);
				mc::steps();
				CHECK(t.opens == opens + 1, "open on a reader that failed to open");
				CHECK((res == fstrm_res_success) == e2.ok, "a second open returned %d", res);
				CHECK(t.out == e2.sent, "a second open sent %s", hex(t.out, 600).c_str());
				if (e2.ok) controls(r, e2, bi);
			}
		}
	}
	t.faults = false;
	fstrm_reader_destroy(&r);
}
void mc_setup()
{
	mc::config.before = env::forget_allocations;
	mc::config.note = "one execution = one reader (content-type list) opened against one peer (READY and START structured, malformed or truncated), with up to one transport failure anywhere, then read or retried; states = distinct (sent bytes, peer bytes, result)";
	std::vector<B> al = {"a", "ab", "b", ""};
	own = all_lists({"a", "ab", ""}, 2);
	if (mc::thorough()) own = all_lists(al, 3);
	own.push_back(L{"b", "a", "ab"});
	own.push_back(L{"a", "a"});
	own.push_back(L{data(256, 1)});
	own.push_back(L{data(256, 1), data(244 - 8, 2)}); // ACCEPT payload of exactly 512 bytes
	own.push_back(L{data(256, 1), data(244 - 7, 2)}); // 513
	slists = all_lists(al, 1);
	slists.push_back(L{"c"});
	slists.push_back(L{data(256, 1)});
	slists.push_back(L{data(237, 2)});
	lists = all_lists(al, mc::thorough() ? 3 : 2);
	lists.push_back(L{"c"});
	lists.push_back(L{"c", "ab", "b"});
	lists.push_back(L{"b", "c", "a"});
	lists.push_back(L{data(256, 1)});
	lists.push_back(L{data(236, 2), data(256, 1)});
	lists.push_back(L{data(237, 2), "a"});
	bad_ready = bad_frames(READY);
	bad_start = bad_frames(START);
	for (auto &o : own) {
		std::string n;
		for (auto &x : o) n += "," + (x.size() > 9 ? std::to_string(x.size()) : x);
		mc::scenario("bi-directional [" + n + "]", [o] { offered = &lists; started = &slists; run(o, true); }, 1);
		mc::scenario("uni-directional [" + n + "]", [o] { started = &slists; run(o, false); }, mc::thorough() ? 2 : 1);
	}
	// many content types
	auto letters = [](size_t n, int from = 0) { L l; for (size_t i = 0; i < n; i++) l.push_back(B(1, (char)(from + i + 1))); return l; };
	for (size_t n : {4u, 5u, 8u, 9u, 16u, 17u, 31u, 32u, 33u, 40u, 55u, 56u})
		for (size_t at : {(size_t)0, n / 2, n - 1}) {
			if (!mc::thorough() && (at == n / 2 || n % 2 == 0) && n < 56) continue;
			 L l(n, "z"); l[at] = "a"; crowd.push_back(l); }
	for (size_t n : {61u, 62u, 63u}) { crowd.push_back(L(n, "")); L l(n - 1, ""); l.push_back("a"); if (ctl_payload(READY, l).size() <= 512) crowd.push_back(l); }
	for (size_t n : {33u, 56u}) crowd.push_back(letters(n, 'a' - 1));
	std::vector<L> mine = {{"a"}, {"q", "a"}, {"", "a"}, letters(33, 'a' - 1), letters(56, 1), letters(57, 1), letters(100, 1), letters(200, 1)};
	for (auto &o : mine) {
		std::string n = std::to_string(o.size()) + " " + std::to_string(&o - &mine[0]);
		mc::scenario("many, bi-directional " + n, [o] { offered = &crowd; started = &slists; run(o, true); });
		mc::scenario("many, uni-directional " + n, [o] { offered = &crowd; started = &slists; run(o, false); });
	}
	// any of the reader's own content types may be the one that matches
	for (size_t n : {17u, 32u, 33u, 56u, 65u, 130u, 200u}) {
		L m = letters(n, 1);
		std::vector<L> &off = singles[n];
		if (mc::thorough()) for (auto &x : m) off.push_back(L{x});
		else for (size_t i : {(size_t)0, n / 2, n - 2, n - 1}) off.push_back(L{m[i]});
		if (n <= 56) off.push_back(m);
		std::vector<L> &st = singles[1000 + n];
		for (auto &x : m) st.push_back(L{x});
		st.push_back(L{"zz"});
		for (bool bi : {true, false})
			mc::scenario(std::string(bi ? "bi" : "uni") + "-directional, each matches " + std::to_string(n), [m, n, bi] { offered = &singles[n]; started = &singles[1000 + n]; run(m, bi); });
	}
	together::readers(true);
}
