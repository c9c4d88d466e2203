// C20: fstrm_capture records exactly what its clients sent.
#include "capture.hpp"
const char *mc_property = "C20";

static B stream(int id, const std::vector<size_t> &sizes, bool stop = true)
{
	B s = hello() + begin();
	for (size_t i = 0; i < sizes.size(); i++) s += frame(pay(id, sizes[i], i));
	if (stop) s += ctl(STOP);
	return s;
}
static void step() { settle(); check_replies(); check_prefix(); }

// one stream in up to n pieces cut anywhere, or byte by byte
static void pieces(const std::vector<size_t> &sizes, int cuts, bool settle_between)
{
	reset();
	start();
	settle();
	int c = connect_client();
	B s = stream(c, sizes);
	std::vector<size_t> at;
	size_t from = 0;
	for (int i = 0; i < cuts; i++) {
		size_t n = s.size() - from;
		size_t k = mc::choose(n, "cut");
		if (k == 0) break; // no more cuts
		at.push_back(from + k);
		from += k;
	}
	at.push_back(s.size());
	from = 0;
	for (size_t a : at) {
		tell(c, s.substr(from, a - from));
		from = a;
		if (settle_between) step();
	}
	step();
	check_resources();
	finish(true);
}
static void bytewise(const std::vector<size_t> &sizes, size_t n, bool one)
{
	reset();
	start();
	settle();
	int c = connect_client();
	B s = stream(c, sizes);
	for (size_t i = 0; i < s.size(); i += n) {
		tell(c, s.substr(i, n));
		if (one) deliver(); else { settle(); if (s.size() < 3000) { check_replies(); check_prefix(); } }
	}
	step();
	check_resources();
	finish(true);
}
// frames of many pieces, cut at positions around the sizes the event library works with
static void big(const std::vector<size_t> &sizes)
{
	reset();
	start();
	settle();
	int c = connect_client();
	B s = stream(c, sizes);
	std::vector<size_t> pos = {0};
	size_t hs = hello().size() + begin().size(), p = hs;
	for (size_t x : sizes) { for (int d : {0, 1, 3, 4, 5}) pos.push_back(p + d); p += 4 + x; }
	for (size_t q : {512u, 1024u, 4096u, 8192u, 16384u, 32768u}) for (int d : {-1, 0, 1}) for (size_t o : {(size_t)0, hs}) if (q + o + d < s.size()) pos.push_back(q + o + d);
	for (int d : {1, 4, 8, 11, 12, 13, 16}) pos.push_back(s.size() - d);
	std::sort(pos.begin(), pos.end());
	pos.erase(std::unique(pos.begin(), pos.end()), pos.end());
	size_t a = pos[mc::choose(pos.size(), "cut")], b = pos[mc::choose(pos.size(), "cut")];
	if (a > b) std::swap(a, b);
	size_t from = 0;
	for (size_t e : {a, b, s.size()}) { if (e > from) tell(c, s.substr(from, e - from)); from = std::max(from, e); step(); }
	check_resources();
	finish(true);
}
// several clients, each sending its messages (possibly in halves) in every order
static void interleave(const std::vector<std::vector<size_t>> &who, bool halves, bool pre)
{
	reset();
	start();
	settle();
	std::vector<std::vector<B>> msg;
	for (size_t i = 0; i < who.size(); i++) {
		connect_client();
		std::vector<B> m;
		auto add = [&](const B &b) {
			if (halves) { m.push_back(b.substr(0, b.size() / 2)); m.push_back(b.substr(b.size() / 2)); }
			else m.push_back(b);
		};
		if (pre) tell(i, hello() + begin());
		else { add(hello()); add(begin()); }
		for (size_t j = 0; j < who[i].size(); j++) add(frame(pay(i, who[i][j], j)));
		m.push_back(ctl(STOP));
		msg.push_back(m);
	}
	settle();
	std::vector<size_t> at(who.size());
	for (;;) {
		std::vector<int> can;
		for (size_t i = 0; i < who.size(); i++) if (at[i] < msg[i].size()) can.push_back(i);
		if (can.empty()) break;
		int c = can[mc::choose(can.size(), "client")];
		tell(c, msg[c][at[c]++]);
		step();
	}
	check_resources();
	finish(true);
}
// every order of client actions and event deliveries
static void race(int clients, bool closes, int how, std::vector<std::vector<B>> msg)
{
	reset();
	start();
	settle();
	order = how;
	std::vector<size_t> at(clients);
	std::vector<int> conn(clients, -1);
	for (;;) {
		std::vector<int> can;
		bool r = ready() > 0;
		if (r) can.push_back(-1);
		for (int i = 0; i < clients; i++) {
			if (i > 0 && conn[i - 1] < 0) continue; // they connect in their order
			if (conn[i] < 0 || at[i] < msg[i].size() + (closes ? 1 : 0)) can.push_back(i);
		}
		if (can.empty()) break;
		int c = can[how == 1 ? mc::choose(can.size(), "action") : mc::deviate(can.size(), "action")];
		if (c < 0) { deliver(); continue; }
		if (conn[c] < 0) { conn[c] = connect_client(); continue; }
		if (at[c] == msg[c].size()) { half_close(c); at[c]++; continue; }
		tell(c, msg[c][at[c]++]);
	}
	settle();
	for (auto &c : C) CHECK(c.got == c.m.replies || c.m.after_stop, "connection %d was sent %s, expected %s", c.id, hex(c.got, 80).c_str(), hex(c.m.replies, 80).c_str());
	for (auto &c : C) if (c.m.st == STOPPED || c.shut) CHECK(c.eof, "connection %d is not closed", c.id);
	if (closes) for (auto &c : C) c.eof = true;
	check_resources();
	finish(false);
}
// a client goes away at any byte; another one is not affected
static void disconnect(const std::vector<size_t> &sizes, int how, bool split)
{
	reset();
	start();
	settle();
	int a = connect_client(), b = connect_client();
	tell(b, hello() + begin());
	step();
	B s = stream(a, sizes);
	size_t k = mc::choose(s.size() + 1, "cut");
	if (split) { size_t half = k / 2; tell(a, s.substr(0, half)); step(); tell(a, s.substr(half, k - half)); } else tell(a, s.substr(0, k));
	tell(b, frame(pay(b, 9, 77)));
	if (how != 2) step();
	if (how == 0) half_close(a);
	else hang_up(a, how == 2);
	if (how == 2) { settle(); check_replies(); } else step();
	tell(b, frame(pay(b, 12, 78)));
	if (how == 2) settle(); else step();
	int d = connect_client();
	tell(d, hello() + begin() + frame(pay(d, 7, 1)) + ctl(STOP));
	settle();
	check_replies();
	CHECK(C[d].got == C[d].m.replies && C[d].eof, "a connection made after another one broke is not served");
	tell(b, ctl(STOP));
	settle();
	check_replies();
	check_resources();
	finish(how != 2);
}
// it is told to end at any step, with anything pending
static void end(int sig, bool pending)
{
	reset();
	start();
	settle();
	std::vector<std::pair<int, B>> act;
	B s0 = stream(0, {5, 300, 2}), s1 = stream(1, {8, 1}, false);
	for (size_t i = 0; i < s0.size(); i += 25) act.push_back({0, s0.substr(i, 25)});
	for (size_t i = 0, j = 1; i < s1.size(); i += 20, j += 2) act.insert(act.begin() + std::min(j, act.size()), {1, s1.substr(i, 20)});
	connect_client();
	connect_client();
	settle();
	size_t k = mc::choose(act.size() + 1, "end after");
	for (size_t i = 0; i < k; i++) { tell(act[i].first, act[i].second); if (i + 1 < k || !pending) step(); }
	if (pending) {
		// the last piece may or may not have been read
		if (mc::choose(2, "deliver")) { deliver(); for (auto &c : C) c.must = c.must; }
		finish(false, sig);
	} else finish(true, sig);
}
static void types(const B &t)
{
	reset();
	start();
	settle();
	connect_client();
	tell(0, ctl(READY, {"other", t, CT}) + ctl(START, {CT}) + frame(pay(0, 3, 1)));
	step();
	finish(true);
}
static void over_tcp(size_t chunk)
{
	reset();
	tcp = true;
	start();
	settle();
	connect_client();
	connect_client();
	B s[2] = {stream(0, {5, 3000, 2, 1}), stream(1, {700, 20000, 1})};
	for (size_t i = 0; i < std::max(s[0].size(), s[1].size()); i += chunk)
		for (int c = 0; c < 2; c++) if (i < s[c].size()) { tell(c, s[c].substr(i, chunk)); settle(); }
	// the loopback network delivers when it likes
	for (int i = 0; i < 2000 && !(C[0].eof && C[1].eof); i++) { usleep(1000); settle(); }
	check_replies();
	check_resources();
	finish(false);
}
// clients that offer many content types
static void crowded()
{
	reset();
	start();
	settle();
	size_t n = 1 + mc::choose(56, "types"), at = mc::choose(3, "position");
	L l(n, "x");
	l[at == 0 ? 0 : at == 1 ? n / 2 : n - 1] = CT;
	int c = connect_client();
	tell(c, ctl(READY, l));
	step();
	tell(c, begin() + frame(pay(c, 5, 1)) + frame(pay(c, 700, 2)) + ctl(STOP));
	step();
	check_resources();
	finish(true);
}
// many clients at once; they speak in turn, in one of several orders, and leave in another
static void crowd(bool limit)
{
	reset();
	static const int sizes[] = {5, 8, 9, 12, 16, 17, 24, 30};
	int n = sizes[mc::choose(8, "clients")], step_ = (int[]){1, n - 1, 3 % n ? 3 : 1, 7}[mc::choose(4, "order")], back = mc::choose(2, "leave");
	start(limit ? prog::Args{"-c", std::to_string(n)} : prog::Args{});
	settle();
	for (int i = 0; i < n; i++) { connect_client(); if (i % 3 == 0) settle(); }
	settle();
	std::vector<int> turn;
	for (int i = 0, k = 0; i < n; i++) { while (std::count(turn.begin(), turn.end(), k)) k = (k + 1) % n; turn.push_back(k); k = (k + step_) % n; }
	for (int k : turn) tell(k, hello());
	settle();
	check_replies();
	for (int k : turn) { tell(k, begin() + frame(pay(k, 4 + k, 1)).substr(0, k & 1 ? 5 : 8 + k)); }
	settle();
	std::reverse(turn.begin(), turn.end());
	for (int k : turn) { tell(k, frame(pay(k, 4 + k, 1)).substr(k & 1 ? 5 : 8 + k)); settle(); }
	check_replies();
	for (int r = 0; r < 3; r++)
		for (int k : turn) { tell(k, frame(pay(k, 3 + r, 10 + r))); settle(); }
	if (back) std::reverse(turn.begin(), turn.end());
	for (int k : turn) { if (k % 3) tell(k, ctl(STOP)); else half_close(k); settle(); }
	check_replies();
	check_resources();
	finish(true);
}
// many clients one after another, beside one that stays
static void succession(int how)
{
	reset();
	start();
	settle();
	int h = connect_client();
	tell(h, hello() + begin());
	settle();
	for (int i = 0; i < 70; i++) {
		int c = connect_client();
		tell(c, hello() + begin() + frame(pay(c, 4 + i % 5, i)));
		settle();
		if (how == 0 || (how == 2 && i % 2)) tell(c, ctl(STOP)); else half_close(c);
		settle();
		CHECK(C[c].eof, "connection %d is not closed", c);
		if (i % 10 == 0) { tell(h, frame(pay(h, 5, i))); settle(); }
		close(C[c].fd);
		C[c].fd = -1;
		C[c].hup = true;
	}
	tell(h, ctl(STOP));
	settle();
	check_resources();
	finish(true);
}
// thousands of frames
static void thousands(size_t size, int clients, unsigned per, unsigned total = 6000)
{
	reset();
	start();
	settle();
	for (int i = 0; i < clients; i++) { connect_client(); tell(i, hello() + begin()); settle(); }
	unsigned count = 0;
	for (unsigned r = 0; r < total / per; r++) {
		int c = r % clients;
		B m;
		for (unsigned k = 0; k < per; k++) m += frame(pay(c, size + count % 3, count)), count++;
		tell(c, m);
		settle();
	}
	for (int i = 0; i < clients; i++) tell(i, ctl(STOP));
	settle();
	check_replies();
	check_resources();
	finish(true);
}
void mc_setup()
{
	bool t = mc::thorough();
	mc::config.note = "fstrm_capture's own main() and the real event library on real sockets: one stream cut into up to 3 pieces at every position and read bytewise, frames around the library's chunk sizes, every interleaving of the messages of 2-3 clients, every order of client actions and event deliveries for short exchanges, disconnects at every byte (half-close, close, close without waiting) beside healthy connections, termination after every piece; compared with a reference model of the stream grammar.";
	mc::config.assumptions = {"kernel sockets and libevent behave as documented", "frames a client sent right before hanging up without waiting may be unread"};
	mc::scenario("one cut", [] { pieces({1, 20, 3}, 1, true); });
	mc::scenario("two cuts", [t] { pieces(t ? std::vector<size_t>{1, 20, 3, 257} : std::vector<size_t>{1, 7}, 2, true); });
	if (t) mc::scenario("three cuts", [] { pieces({1, 4}, 3, true); });
	mc::scenario("one cut, no pause", [] { pieces({1, 20, 3}, 1, false); });
	for (size_t n : {1, 2, 3, 5, 7, 13}) {
		mc::scenario("chunks of " + std::to_string(n), [n] { bytewise({1, 20, 3, 300, 2, 1, 1, 70}, n, false); });
		mc::scenario("chunks of " + std::to_string(n) + ", one event each", [n] { bytewise({1, 20, 3, 300, 2, 1, 1, 70}, n, true); });
	}
	mc::scenario("chunks of 1000", [] { bytewise({5000, 1, 9000, 3, 40000, 2}, 1000, false); });
	mc::scenario("many types", crowded);
	mc::scenario("crowd", [] { crowd(false); });
	mc::scenario("crowd as large as allowed", [] { crowd(true); });
	for (int h = 0; h < 3; h++) mc::scenario("succession " + std::to_string(h), [h] { succession(h); });
	for (unsigned per : {1u, 7u, 300u}) for (int k : {1, 3}) mc::scenario("thousands, " + std::to_string(per) + " at once, " + std::to_string(k), [=] { thousands(per == 1 ? 2 : 30, k, per); });
	for (int k : {1, 2}) mc::scenario("70000 frames of each of " + std::to_string(k), [=] { thousands(3, k, 500, 70000 * k); });
	mc::scenario("big frames", [] { big({5000, 20000, 1, 9000}); });
	mc::scenario("biggest frame", [] { big({262140, 3}); });
	if (t) mc::scenario("big frames 2", [] { big({1, 4096, 4092, 16384, 16380, 100000}); });
	mc::scenario("two clients", [] { interleave({{4, 9}, {5, 3}}, false, false); });
	mc::scenario("two clients, in halves", [t] { interleave(t ? std::vector<std::vector<size_t>>{{6, 3}, {4, 1}} : std::vector<std::vector<size_t>>{{6}, {4}}, true, true); });
	mc::scenario("three clients", [t] { interleave({{4}, {5}, {6}}, false, !t); });
	mc::scenario("two clients, big halves", [] { interleave({{6000}, {5000}}, true, true); });
	auto whole = [](int id) { return std::vector<B>{hello() + begin() + frame(pay(id, 5, 1)), frame(pay(id, 6, 2)) + ctl(STOP)}; };
	auto small = [](int id) { return std::vector<B>{hello() + begin() + frame(pay(id, 5, 1)).substr(0, 6), frame(pay(id, 5, 1)).substr(6)}; };
	auto tiny = [](int id) { return std::vector<B>{hello() + begin() + frame(pay(id, 5, 1)) + ctl(STOP)}; };
	mc::scenario("race of two, all orders", [=] { race(2, false, 1, {tiny(0), tiny(1)}); });
	mc::scenario("race of one, all orders", [=] { race(1, true, 1, {{hello(), begin(), frame(pay(0, 5, 1)), frame(pay(0, 6, 2)) + ctl(STOP)}}); });
	if (t) mc::scenario("race of two that close, all orders", [=] { race(2, true, 1, {tiny(0), tiny(1)}); });
	int d = t ? 6 : 3;
	mc::scenario("race of two", [=] { race(2, false, 2, {whole(0), whole(1)}); }, d);
	mc::scenario("race of two that close", [=] { race(2, true, 2, {small(0), small(1)}); }, d);
	mc::scenario("race of two that close 2", [=] { race(2, true, 2, {whole(0), whole(1)}); }, d);
	mc::scenario("race of three", [=] { race(3, false, 2, {tiny(0), small(1), whole(2)}); }, d);
	for (int how = 0; how < 3; how++)
		for (int split = 0; split < 2; split++)
			mc::scenario(std::string("disconnect ") + (how == 0 ? "half-close" : how == 1 ? "close" : "abrupt") + (split ? " split" : ""),
				     [=] { disconnect({4, 17, 1}, how, split); });
	for (int sig : {SIGTERM, SIGINT})
		for (int p = 0; p < 2; p++) mc::scenario(std::string("end by ") + strsignal(sig) + (p ? " pending" : ""), [=] { end(sig, p); });
	std::vector<B> al = {hello(), begin(), frame(pay(0, 5, 1)), ctl(STOP), frame(pay(0, 1, 2))};
	for (int m = 0; m < 2; m++)
		mc::scenario(m ? "message orders, at once" : "message orders", [=] { sequences(al, t ? 6 : m ? 4 : 5, m, false); });
	for (const B &x : {B(""), B("test:xx"), B(256, 'x')}) mc::scenario("content types", [x] { types(x); });
	for (size_t c : {11u, 300u, 100000u}) mc::scenario("tcp " + std::to_string(c), [c] { over_tcp(c); });
}
