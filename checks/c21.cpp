// C21: fstrm_capture follows the handshake protocol.
#include "capture.hpp"
#include "transport.hpp"
const char *mc_property = "C21";

static std::vector<B> alphabet()
{
	std::vector<B> v = {
		hello(), begin(), ctl(STOP), frame(pay(0, 6, 1)),
		ctl(READY), ctl(START),                                  // nothing requested: anything matches
		ctl(READY, {"a", CT, "b"}), ctl(READY, {"a", "test:y"}), ctl(START, {"test:y"}), ctl(START, {CT + "x"}),
		ctl(READY, {CT.substr(0, CT.size() - 1)}), ctl(START, {""}),
		ctl(ACCEPT, {CT}), ctl(FINISH), ctl(9),
		with_header(be32(STOP) + be32(1) + be32(1) + "a"),       // STOP with a content type
		with_header(be32(START) + be32(1) + be32(CT.size()) + CT + be32(1) + be32(CT.size()) + CT),
	};
	return v;
}
// a malformed control frame at every stage of an otherwise good connection
static void malformed(int stage, bool merged)
{
	reset();
	start();
	settle();
	uint32_t type = stage == 0 ? READY : stage == 1 ? START : STOP;
	std::vector<B> bad = bad_frames(type);
	B good = ctl_payload(type, L());
	// the largest control frames that are still fine, and content types of any length
	std::vector<B> more = {
		with_header(be32(READY) + be32(1) + be32(CT.size()) + CT + be32(1) + be32(256) + data(256, 1) + be32(1) + be32(512 - 4 - 24 - 256 - CT.size()) + data(512 - 4 - 24 - 256 - CT.size(), 2)),
		with_header(be32(READY) + be32(1) + be32(256) + data(256, 1) + be32(1) + be32(512 - 4 - 24 - 256 - CT.size()) + data(512 - 4 - 24 - 256 - CT.size(), 2) + be32(1) + be32(CT.size()) + CT),
		with_header(be32(READY) + be32(1) + be32(0) + be32(1) + be32(CT.size()) + CT),
		be32(0) + be32(512) + B(512, 0), be32(0) + be32(513) + B(513, 0), be32(0) + be32(514) + B(514, 0),
		be32(0) + be32(4) + be32(type), be32(0) + be32(3) + be32(type), be32(0) + be32(0) + be32(type),
	};
	bad.insert(bad.end(), more.begin(), more.end());
	int h = connect_client(), c = connect_client();
	tell(h, hello() + begin());
	settle();
	B pre = stage == 0 ? "" : stage == 1 ? hello() : hello() + begin() + frame(pay(c, 3, 1));
	B x = bad[mc::choose(bad.size(), "bad frame")] + begin() + frame(pay(c, 4, 2));
	if (merged) tell(c, pre + x);
	else {
		tell(c, pre);
		settle();
		check_replies();
		// fields arriving separately must not matter
		size_t cut = mc::choose(3, "cut") * 4;
		if (cut) { tell(c, x.substr(0, cut)); settle(); check_replies(); }
		tell(c, x.substr(cut));
	}
	settle();
	check_replies();
	tell(h, frame(pay(h, 5, 9)) + ctl(STOP));
	settle();
	check_replies();
	check_resources();
	finish(true);
}
// a READY frame with many content types
static void crowded(size_t filler)
{
	reset();
	start();
	settle();
	size_t max = 0;
	while (4 + max * (8 + filler) + 8 + CT.size() <= 512) max++;
	size_t n = 1 + mc::choose(max, "types"), at = mc::choose(n + 1, "position"); // n: nowhere
	L l(n, B(filler, 'x'));
	if (at < n) l[at] = CT;
	int c = connect_client(), h = connect_client();
	tell(c, ctl(READY, l));
	settle();
	check_replies();
	tell(c, begin() + frame(pay(c, 5, 1)) + ctl(STOP));
	tell(h, hello() + begin() + frame(pay(h, 4, 2)) + ctl(STOP));
	settle();
	check_replies();
	check_resources();
	finish(true);
}
// the program's own content type
static void own_type(const B &t)
{
	reset();
	prog::Args a = base_args();
	a[2] = t;
	if (!launch(a)) {
		CHECK(t.size() > 256 && prog::code != 0, "fstrm_capture ends with %d for a content type of %zu bytes", prog::code, t.size());
		return;
	}
	CHECK(t.size() <= 256, "it runs with a content type of %zu bytes", t.size());
	settle();
	std::vector<L> offers = {{t}, {}, {"x", t}, {t + "x"}, {t.substr(0, t.size() / 2)}, {B(256, 'b')}, {t, t}, {""}, {t.empty() ? B("\0", 1) : t.substr(0, t.size() - 1) + (char)(t.back() ^ 1)}};
	for (auto &o : offers) if (4 + 8 * o.size() + (o.size() ? o[0].size() : 0) + (o.size() > 1 ? o[1].size() : 0) > 512) o.resize(1);
	L r = offers[mc::choose(offers.size(), "offer")], s = offers[mc::choose(offers.size(), "start")];
	if (r.size() == 1 && r[0].size() > 256) return;
	if (s.size() && s[0].size() > 256) return;
	int c = connect_client();
	C[c].m.ct = t;
	tell(c, ctl(READY, r));
	settle();
	check_replies();
	tell(c, ctl(START, s.size() > 1 ? L{s[0]} : s));
	settle();
	check_replies();
	tell(c, frame(pay(c, 5, 1)) + ctl(STOP));
	settle();
	check_replies();
	check_resources();
	terminate();
	CHECK(prog::code == 0, "exit status %d", prog::code);
	B e = ctl(START, {t});
	for (auto &f : C[c].m.frames) e += frame(f);
	e += ctl(STOP);
	CHECK(slurp(outp) == e, "the output is %s, expected %s", hex(slurp(outp), 80).c_str(), hex(e, 80).c_str());
	mc::state(mc::hash(e, mc::hash(C[c].got)));
}
// a client that does not read its replies; FINISH is sent before the connection is closed
static void late_reader(int n)
{
	reset();
	start();
	settle();
	order = 1;
	int c = connect_client();
	std::vector<B> msg = {hello(), begin()};
	for (int i = 0; i < n; i++) msg.push_back(frame(pay(c, 3 + i, i)));
	msg.push_back(ctl(STOP));
	size_t at = 0;
	while (at < msg.size() || ready() > 0) {
		bool r = ready() > 0;
		int k = r && at < msg.size() ? mc::choose(2, "send") : r ? 0 : 1;
		if (k) tell(c, msg[at++]);
		else { budget = 1; prog::resume(); mc::steps(); }
	}
	settle();
	check_replies();
	check_resources();
	finish(true);
}
// a well-behaved client waits for every answer; bytes in single pieces
static void polite(size_t chunk)
{
	reset();
	start();
	settle();
	int c = connect_client();
	std::vector<B> msg = {hello(), begin(), frame(pay(c, 9, 1)), ctl(STOP)};
	for (auto &m : msg)
		for (size_t i = 0; i < m.size(); i += chunk) { tell(c, m.substr(i, chunk)); settle(); check_replies(); }
	check_resources();
	finish(true);
}
void mc_setup()
{
	bool t = mc::thorough();
	mc::config.note = "All sequences of up to 3 (thorough: 4) messages over an alphabet of 17 matching, mismatching, out-of-order and malformed messages, sent one by one and at once, alone and beside a healthy connection; 30 malformed or boundary control frames at every stage; content types of every kind of length for the program and its clients; every order of sends and event deliveries of one exchange. The replies, the closing of connections and the output are compared with a reference state machine.";
	mc::config.assumptions = {"kernel sockets and libevent behave as documented"};
	std::vector<B> al = alphabet();
	for (int m = 0; m < 2; m++)
		for (int h = 0; h < 2; h++)
			mc::scenario(std::string("sequences") + (m ? " at once" : "") + (h ? " beside another" : ""), [=] { sequences(al, t ? 4 : 3, m, h); });
	for (int m = 0; m < 2; m++) mc::scenario(m ? "longer sequences at once" : "longer sequences", [=] { sequences(al, t ? 5 : 4, m, false, 0); });
	for (int st = 0; st < 3; st++) for (int m = 0; m < 2; m++) mc::scenario("malformed at stage " + std::to_string(st) + (m ? " at once" : ""), [=] { malformed(st, m); });
	for (size_t n : {0u, 1u, 2u, 250u, 255u, 256u, 257u}) mc::scenario("own type of " + std::to_string(n), [n] { own_type(B(n, 'a')); });
	for (int n = 0; n < (t ? 4 : 3); n++) mc::scenario("late reader " + std::to_string(n), [n] { late_reader(n); });
	for (size_t f : {0u, 1u, 8u}) mc::scenario("many types of " + std::to_string(f), [f] { crowded(f); });
	for (size_t c : {1u, 2u, 3u, 100u}) mc::scenario("polite " + std::to_string(c), [c] { polite(c); });
}
