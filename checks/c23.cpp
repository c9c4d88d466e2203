// C23: fstrm_capture limits hold and keep it responsive.
#include "capture.hpp"
#include "transport.hpp"
#include <sys/resource.h>
const char *mc_property = "C23";

static B num(long n) { return std::to_string(n); }
// frames of the given lengths, in chunks of the given size
static void oversize(size_t b, const std::vector<size_t> &lens, int n, const std::vector<size_t> &chunks)
{
	reset();
	start({"-b", num(b)});
	settle();
	int c = connect_client();
	size_t chunk = chunks[mc::choose(chunks.size(), "chunk")];
	tell(c, hello() + begin());
	settle();
	B s;
	for (int i = 0; i < n; i++) {
		size_t k = mc::choose(lens.size() + (i > 0), "length");
		if (k == lens.size()) break;
		s += frame(pay(c, lens[k], i));
	}
	s += frame(pay(c, 2, 99));
	for (size_t i = 0; i < s.size(); i += chunk) {
		tell(c, s.substr(i, chunk));
		settle();
		CHECK(C[c].out.empty(), "the connection stalls: %zu bytes are not read", C[c].out.size());
	}
	check_replies();
	tell(c, ctl(STOP));
	settle();
	check_replies();
	check_resources();
	finish(true);
}
// lengths that cannot be sent whole: the part that is sent must not be recorded, and others are served
static void huge(const std::vector<size_t> &bs, uint64_t more)
{
	static const uint32_t lens[] = {262141, 0x7ffffffb, 0x7ffffffc, 0x7fffffff, 0x80000000u, 0x80000001u, 0xfffffff0u, 0xfffffff7u, 0xfffffff8u, 0xfffffffau, 0xfffffffbu, 0xfffffffcu, 0xfffffffdu, 0xfffffffeu, 0xffffffffu};
	reset();
	size_t b = bs[mc::choose(bs.size(), "buffer")];
	start({"-b", num(b)});
	settle();
	int c = connect_client(), o = connect_client();
	uint32_t n = lens[mc::choose(sizeof lens / sizeof *lens, "length")];
	size_t sent = mc::choose(3, "sent");
	tell(o, hello() + begin());
	tell(c, hello() + begin() + frame(pay(c, 3, 1)));
	settle();
	B x = be32(n);
	if (sent == 1) x += frame(pay(c, 5, 2)) + ctl(STOP);
	if (sent == 2) for (int i = 0; i < 300; i++) x += frame(pay(c, 700, i)) + ctl(STOP);
	if (x.size() > n) x.resize(n);
	for (size_t i = 0; i < x.size(); i += 50000) {
		tell(c, x.substr(i, 50000));
		settle();
		CHECK(C[c].out.empty(), "the connection stalls: %zu bytes are not read", C[c].out.size());
	}
	tell(o, frame(pay(o, 4, 1)));
	settle();
	check_replies();
	if (more) {
		// all of it
		uint64_t left = (uint64_t)n - (x.size() - 4);
		B fill(1 << 17, 'f');
		while (left) {
			size_t k = std::min<uint64_t>(left, fill.size());
			tell(c, k == fill.size() ? fill : fill.substr(0, k));
			settle();
			CHECK(C[c].out.empty(), "the connection stalls: %zu bytes are not read", C[c].out.size());
			left -= k;
		}
		tell(c, frame(pay(c, 6, 3)) + ctl(STOP));
		settle();
		check_replies();
	}
	tell(o, frame(pay(o, 5, 2)) + ctl(STOP));
	settle();
	check_replies();
	if (!more) { half_close(c); settle(); CHECK(C[c].eof, "a connection that ended inside an oversized frame is not closed"); }
	check_resources();
	finish(true);
}
// ---- connection limit ----
// clients connect, talk and leave in every order; the first `limit` that have not ended are served
static void connections(int limit, int clients, int depth, int ways)
{
	reset();
	start(limit ? prog::Args{"-c", num(limit)} : prog::Args{});
	settle();
	std::vector<int> state; // 0 connected and greeted, 1 gone
	std::vector<int> sent;
	std::vector<B> says;
	for (int i = 0; i < depth; i++) {
		// actions: connect; or for a client that is there: say one more thing, leave in one of several ways
		std::vector<std::pair<int, int>> can;
		if ((int)state.size() < clients) can.push_back({-1, 0});
		for (size_t j = 0; j < state.size(); j++) if (!state[j]) for (int w = 0; w < ways; w++) can.push_back({j, w});
		int k = mc::choose(can.size() + 1, "act");
		if (k == (int)can.size()) break;
		int c = can[k].first, w = can[k].second;
		if (c < 0) {
			c = connect_client();
			state.push_back(0);
			sent.push_back(0);
			C[c].m.feed(""); // its messages count only once it is served
			B hi = hello() + begin() + frame(pay(c, 3, 0));
			C[c].out = hi;
			push(C[c]);
			says.push_back(hi);
		} else if (w == 0) { hang_up(c); state[c] = 1; }
		else if (w == 1) { B m = ctl(STOP); C[c].out += m; push(C[c]); says[c] += m; state[c] = 1; }
		else if (w == 2) { B m = ctl(READY, {CT}); C[c].out += m; push(C[c]); says[c] += m; state[c] = 1; }
		else if (w == 3) { half_close(c); state[c] = 1; }
		else if (w == 4) { B m = frame(pay(c, 4, ++sent[c])); C[c].out += m; push(C[c]); says[c] += m; }
		settle();
		// who is served now: in the order of arrival; those that are gone (and were served) make room
		int busy = 0;
		for (size_t j = 0; j < C.size(); j++) {
			bool served = !limit || busy < limit;
			if (served) {
				size_t done = C[j].m.frames.size();
				if (says[j].size()) C[j].m.feed(says[j]);
				says[j] = "";
				for (; done < C[j].m.frames.size(); done++) seq.push_back(C[j].m.frames[done]);
				if (!state[j]) busy++;
				CHECK(is_prefix(C[j].got, C[j].m.replies), "connection %zu was sent %s", j, hex(C[j].got, 80).c_str());
				if (!C[j].hup) CHECK(C[j].got == C[j].m.replies || state[j], "connection %zu (%d being served, limit %d) was sent %s, expected %s", j, busy, limit, hex(C[j].got, 60).c_str(), hex(C[j].m.replies, 60).c_str());
				if (state[j] && !C[j].hup) CHECK(C[j].eof, "connection %zu has ended but is not closed", j);
				if (!state[j]) CHECK(!C[j].eof, "connection %zu was closed", j);
			} else if (!C[j].hup) CHECK(C[j].got.empty() && !C[j].eof, "connection %zu is served beyond the limit of %d", j, limit);
		}
		mc::state(mc::mix(mc::mix(state.size(), busy), mc::hash(state.data(), state.size() * sizeof(int))) + limit);
	}
	for (size_t j = 0; j < C.size(); j++) if (C[j].fd >= 0) { drain(C[j]); if (!state[j]) hang_up(j); }
	settle();
	for (size_t j = 0; j < C.size(); j++) { C[j].m.feed(says[j]); says[j] = ""; C[j].must = 0; if (!C[j].eof && !C[j].hup) CHECK(C[j].eof, "connection %zu is not closed", j); }
	check_resources();
	// it still serves
	int z = connect_client();
	tell(z, hello() + begin() + frame(pay(z, 5, 0)) + ctl(STOP));
	settle();
	CHECK(C[z].got == C[z].m.replies && C[z].eof, "after all connections ended a new one is not served");
	for (auto &c : C) c.must = c.m.frames.size();
	finish(false);
}
// several clients arrive and leave before the program looks
static void bursts(int limit, int n)
{
	reset();
	start(limit ? prog::Args{"-c", num(limit)} : prog::Args{});
	settle();
	unsigned how = mc::choose(1 << (2 * n), "what they do");
	std::vector<int> w;
	for (int i = 0; i < n; i++) w.push_back(how >> (2 * i) & 3);
	for (int i = 0; i < n; i++) {
		int c = connect_client();
		if (w[i] == 0) { C[c].hard = true; hang_up(c, true); continue; }
		tell(c, hello() + begin() + frame(pay(c, 3 + i, i)));
		if (w[i] == 1) hang_up(c, true);
		if (w[i] == 2) tell(c, ctl(STOP));
		if (w[i] == 3) half_close(c);
	}
	settle();
	for (auto &c : C) if (!c.hup) { CHECK(c.eof, "connection %d is not closed", c.id); if (c.m.st == STOPPED) CHECK(c.got == c.m.replies, "connection %d was sent %s", c.id, hex(c.got).c_str()); }
	check_resources();
	int z = connect_client();
	tell(z, hello() + begin() + frame(pay(z, 5, 0)) + ctl(STOP));
	settle();
	CHECK(C[z].got == C[z].m.replies && C[z].eof, "a new connection is not served");
	finish(false);
}
// anything a client can send, while another one is served; with all debugging output
static void noise(int stage, bool debug)
{
	reset();
	start(debug ? prog::Args{"-ddddd"} : prog::Args{});
	settle();
	int h = connect_client();
	tell(h, hello() + begin() + frame(pay(h, 3, 1)));
	settle();
	int c = connect_client();
	B pre = stage == 0 ? "" : stage == 1 ? hello() : stage == 2 ? hello() + begin() : hello() + begin() + frame(pay(c, 2, 2)) + frame(pay(c, 2, 2)).substr(0, 5);
	std::vector<B> words = {be32(0), be32(1), be32(4), be32(5), be32(12), be32(0xffffffffu), be32(0x80000000u), "x", be32(512), be32(513), be32(START), be32(READY)};
	B x;
	for (int i = 0; i < 3; i++) x += words[mc::choose(words.size(), "word")];
	tell(c, pre);
	if (mc::choose(2, "settle")) settle();
	tell(c, x);
	settle();
	check_replies();
	tell(h, frame(pay(h, 4, 5)));
	settle();
	half_close(c);
	settle();
	CHECK(C[c].eof, "the connection is not closed");
	tell(h, ctl(STOP));
	settle();
	check_replies();
	check_resources();
	finish(true);
}
// whatever the handshake holds can be logged, at every level
static void logged(int kind)
{
	int level = mc::choose(7, "level");
	reset();
	start(level ? prog::Args{"-" + B(level, 'd')} : prog::Args{});
	settle();
	int c = connect_client();
	L l;
	if (kind == 0) { // one other content type, of every length and some contents
		size_t n = mc::choose(257, "length");
		B x = data(n, 1);
		int how = mc::choose(3, "contents");
		if (how == 1) x = B(n, '%');
		if (how == 2) for (size_t i = 0; i < n; i++) x[i] = 255 - i;
		l = {x};
	} else { // many
		size_t n = 1 + mc::choose(56, "types");
		l = L(n, B(kind == 1 ? 0 : (500 - 8 - CT.size()) / n > 8 ? (500 - 8 - CT.size()) / n - 8 : 0, '\\'));
	}
	if (mc::choose(2, "order")) l.push_back(CT); else l.insert(l.begin(), CT);
	if (ctl_payload(READY, l).size() > 512) { l = {l[0], l.back()}; if (l[0] != CT && l[1] != CT) l[0] = CT; if (ctl_payload(READY, l).size() > 512) mc::prune(); }
	tell(c, ctl(READY, l));
	settle();
	check_replies();
	tell(c, begin() + frame(pay(c, 5, 1)));
	settle();
	check_replies();
	tell(c, frame(B(300, '\\x80')) + ctl(STOP));
	settle();
	check_replies();
	check_resources();
	finish(true);
}
// no more descriptors: the connections there are go on, and a waiting one is served when there is room again
static void descriptors(int room)
{
	reset();
	start();
	settle();
	struct rlimit old, lim;
	getrlimit(RLIMIT_NOFILE, &old);
	unsigned top = 3;
	for (int i = 3; i < 96; i++) if (fcntl(i, F_GETFD) >= 0) top = i + 1;
	auto with = [&](int events) {
		for (int i = 0; i < events && ready() > 0; i++) {
			lim = old;
			lim.rlim_cur = top + room;
			setrlimit(RLIMIT_NOFILE, &lim);
			budget = 1;
			prog::resume();
			setrlimit(RLIMIT_NOFILE, &old);
			for (auto &c : C) { drain(c); push(c); }
			mc::steps();
		}
	};
	int n = room + 2;
	for (int i = 0; i < n; i++) { connect_client(); tell(i, hello() + begin() + frame(pay(i, 3 + i, 0))); }
	with(20);
	CHECK(prog::running(), "it ended with status %d", prog::code);
	int served = 0;
	for (auto &c : C) served += !c.got.empty();
	CHECK(served >= 1, "nobody is served");
	for (int i = 0; i < n; i++) tell(i, frame(pay(i, 9, 1)) + ctl(STOP));
	with(50);
	settle();
	check_replies();
	check_resources();
	finish(false);
}
// very many clients at the same time
static void crowd(int limit, int n)
{
	reset();
	prog::top = 2 * n + 200;
	struct rlimit lim;
	getrlimit(RLIMIT_NOFILE, &lim);
	if (lim.rlim_cur < (rlim_t)3 * n + 300) {
		lim.rlim_cur = std::min<rlim_t>(lim.rlim_max, 3 * n + 300);
		setrlimit(RLIMIT_NOFILE, &lim);
	}
	if (lim.rlim_cur < (rlim_t)3 * n + 300) { mc::note("too few descriptors"); mc::prune(); }
	start(limit ? prog::Args{"-c", num(limit)} : prog::Args{});
	settle();
	for (int round = 0; round < 2; round++) {
		size_t first = C.size(), served = limit ? limit : n;
		for (int i = 0; i < n; i++) {
			int c = connect_client();
			if ((size_t)i < served) tell(c, hello()); else { C[c].out = hello(); push(C[c]); }
			settle();
			CHECK(C[c].got.empty() == ((size_t)i >= served), "client %d of those there, limit %d: %s", i + 1, limit, C[c].got.empty() ? "it gets no answer" : "it gets an answer");
		}
		check_replies();
		for (size_t i = 0; i < served; i++) tell(first + i, begin() + frame(pay(first + i, 3 + i % 5, i)));
		settle();
		check_replies();
		for (size_t i = 0; i < served; i++) {
			if (i % 3 == 0) hang_up(first + i); else tell(first + i, ctl(STOP));
			settle();
			if (i + served < (size_t)n) { // one more has room
				Client &c = C[first + served + i];
				CHECK(!c.got.empty(), "%zu clients have left but only %zu of those waiting are served", i + 1, i);
				c.m.feed(hello());
			}
		}
		for (size_t i = served; i < (size_t)n; i++) hang_up(first + i);
		settle();
		check_replies();
	}
	check_resources();
	CHECK(prog::running(), "it ended");
	terminate();
	CHECK(prog::code == 0, "exit status %d", prog::code);
	std::vector<B> f = parse(slurp(outp), "the output");
	CHECK(f.size() == seq.size(), "%zu frames recorded, %zu sent", f.size(), seq.size());
	std::sort(f.begin(), f.end());
	std::sort(seq.begin(), seq.end());
	CHECK(f == seq, "other frames than those sent are recorded");
	mc::outcome("crowd");
}
// very many clients one after the other
static void procession(int limit, int n)
{
	reset();
	start(limit ? prog::Args{"-c", num(limit)} : prog::Args{});
	settle();
	for (int i = 0; i < n; i++) {
		int c = connect_client();
		tell(c, hello());
		settle();
		CHECK(C[c].got == C[c].m.replies, "client number %d is not answered", i + 1);
		if (i % 2) { tell(c, begin() + ctl(STOP)); settle(); CHECK(C[c].got == C[c].m.replies && C[c].eof, "client number %d: no FINISH", i + 1); }
		hang_up(c);
		settle();
		if (limit && i % 100 == 0) { // the limit is still what it was
			for (int k = 0; k <= limit; k++) { int d = connect_client(); C[d].out = hello(); push(C[d]); C[d].m.feed(hello()); settle(); CHECK(C[d].got.empty() == (k == limit), "after %d clients, client %d of the limit %d: %s", i + 1, k + 1, limit, C[d].got.empty() ? "no answer" : "an answer"); }
			for (size_t d = 0; d < C.size(); d++) if (C[d].fd >= 0) hang_up(d);
			settle();
		}
		check_resources();
		C.clear();
		prog::polls = 0;
	}
	terminate();
	CHECK(prog::code == 0, "exit status %d", prog::code);
	CHECK(parse(slurp(outp), "the output").empty(), "frames nobody sent");
	mc::outcome("procession");
}
void mc_setup()
{
	bool t = mc::thorough();
	mc::config.exec_timeout = t ? 200 : 100;
	mc::config.note = "Sequences of frames of every length around the buffer size, in several chunkings, for several buffer sizes; lengths up to 2^32-1 in part (thorough: in full); every order in which up to 4 clients connect, talk and leave in five ways with limits of none, 1, 2 and 3; bursts of clients; noise of 3 words at four stages of the protocol beside a healthy connection, with full debugging output; running out of descriptors. Compared with a reference model.";
	mc::config.assumptions = {"kernel sockets and libevent behave as documented", "buffers are large enough for control frames"};
	std::vector<size_t> l32, l32t;
	for (size_t i = 1; i <= 70; i++) l32.push_back(i);
	for (size_t i : {1, 2, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 60, 61, 64, 65, 96, 97}) l32t.push_back(i);
	mc::scenario("buffer of 32", [=] { oversize(32, l32, t ? 3 : 2, {1, 3, 7, 32, 64, 1000}); });
	mc::scenario("buffer of 32, sequences", [=] { oversize(32, l32t, t ? 4 : 3, {1, 5, 32, 1000}); });
	for (size_t b : {600u, 4096u, 5000u, 16384u}) {
		std::vector<size_t> l = {1};
		for (int d : {-6, -5, -4, -3, -2, -1, 0, 1, 4}) l.push_back(b + d);
		for (size_t m : {2 * b - 4, 2 * b, 2 * b + 1, 3 * b}) l.push_back(m);
		mc::scenario("buffer of " + num(b), [=] { oversize(b, l, t ? 3 : 2, {b / 2, b - 1, b, b + 4, 100000, 1000}); });
	}
	mc::scenario("default buffer", [=] { oversize(262144, {1, 262139, 262140, 262141, 262144, 300000, 600000}, 2, {65536, 262144, 1000000}); });
	mc::scenario("huge lengths", [] { huge({32, 5000, 262144, 0x7fffffff}, 0); });
	if (t) mc::scenario("huge lengths in full", [] { huge({32}, 1); });
	for (int lim = 0; lim <= 3; lim++) {
		mc::scenario("limit " + num(lim), [=] { connections(lim, t ? 5 : 4, t ? 8 : 6, 2); });
		mc::scenario("limit " + num(lim) + ", all ways", [=] { connections(lim, t ? 4 : 3, t ? 7 : 5, 5); });
		mc::scenario("burst " + num(lim), [=] { bursts(lim, t ? 6 : 4); });
	}
	for (int s = 0; s < 4; s++) for (int d = 0; d < 2; d++) mc::scenario("noise at stage " + num(s) + (d ? " debug" : ""), [=] { noise(s, d); });
	mc::scenario("one content type logged", [] { logged(0); });
	mc::scenario("content types logged", [] { logged(2); });
	mc::scenario("empty content types logged", [] { logged(1); });
	for (int n : {140, 300, t ? 1100 : 600}) { mc::scenario(num(n) + " clients", [n] { crowd(0, n); }); mc::scenario(num(n) + " clients, limit", [n] { crowd(n - 9, n); }); }
	for (int lim : {0, 1, 3}) mc::scenario("one after the other, limit " + num(lim), [=] { procession(lim, 70000); });
	for (int r : {1, 2, 3}) mc::scenario("descriptors for " + num(r), [r] { descriptors(r); });
}
