// C07: a reader returns exactly the frames in the stream.
#include "transport.hpp"
#include "together.hpp"
using namespace ref;
const char *mc_property = "C07";

struct Token {
	enum Kind { DATA, SKIP, EITHER, STOPS, BAD } kind;
	B wire, data;
};
static Token dtok(size_t n, int seed) { B d = ref::data(n, seed); return {Token::DATA, frame(d), d}; }
static B raw_ctl(const B &payload) { return be32(0) + be32(payload.size()) + payload; }
// tokens for a reader with the given maximum
static std::vector<Token> tokens(size_t max, bool more)
{
	std::vector<Token> v;
	v.push_back(dtok(1, 1));
	v.push_back(dtok(2, 2));
	v.push_back({Token::STOPS, ctl(STOP)});
	v.push_back({Token::SKIP, raw_ctl(be32(6))});
	v.push_back({Token::SKIP, raw_ctl(be32(0x102) + "xyz")});
	v.push_back({Token::BAD, raw_ctl("")});
	v.push_back({Token::BAD, be32(max + 1) + data(max + 1, 5)});
	v.push_back(dtok(max, 3));
	v.push_back({Token::EITHER, ctl(START, L{"a"})});
	v.push_back({Token::EITHER, ctl(FINISH)});
	v.push_back({Token::BAD, raw_ctl(be32(STOP) + be32(1))});
	if (more) {
		v.push_back({Token::DATA, frame(ctl(STOP)), ctl(STOP)}); // a data frame that looks like a STOP frame
		v.push_back({Token::DATA, frame(B(4, '\0')), B(4, '\0')});
		v.push_back(dtok(max - 1, 4));
		v.push_back(dtok(255, 6));
		v.push_back({Token::SKIP, raw_ctl(be32(0))});
		v.push_back({Token::SKIP, raw_ctl(be32(0xffffffffu) + data(508, 1))});
		v.push_back({Token::SKIP, raw_ctl(be32(0x02000000))});
		v.push_back({Token::EITHER, ctl(READY, L{"a", "b"})});
		v.push_back({Token::EITHER, ctl(ACCEPT)});
		v.push_back({Token::BAD, be32(0x7fffffff) + "aaaa"});
		v.push_back({Token::BAD, be32(0xffffffffu) + "aaaa"});
		v.push_back({Token::BAD, raw_ctl("abc")});
		v.push_back({Token::BAD, raw_ctl(be32(6) + data(509, 1))});
		v.push_back({Token::BAD, raw_ctl(be32(STOP) + data(509, 1))});
		v.push_back({Token::BAD, be32(0) + be32(0xffffffffu) + be32(STOP)});
		v.push_back({Token::BAD, be32(0) + be32(0x80000004u) + be32(STOP)});
		v.push_back({Token::BAD, raw_ctl(be32(STOP) + be32(1) + be32(1) + "a")});
		v.push_back({Token::BAD, raw_ctl(be32(STOP) + be32(2) + be32(0))});
		v.push_back({Token::BAD, raw_ctl(be32(STOP) + "x")});
	}
	return v;
}
static bool stop_seen(struct fstrm_reader *r)
{
	const struct fstrm_control *c = nullptr;
	fstrm_res res = fstrm_reader_get_control(r, FSTRM_CONTROL_STOP, &c);
	if (res == fstrm_res_success && c) {
		CHECK(payload_of(c) == ctl_payload(STOP, L()), "get_control(STOP) is not a STOP frame");
		return true;
	}
	return false;
}
// reads the whole stream and judges it
struct Judge {
	std::vector<Token> toks; // the tokens in the stream
	B body;
	size_t stop_at = 0;
	bool truncated = false;
};
static void drive(Tr &t, struct fstrm_reader *r, Judge &j, size_t base, int fault_base)
{
	const uint8_t *d;
	size_t n;
	size_t i = 0, pos = base;
	bool failed = false, stopped = false;
	for (size_t calls = 0; calls < j.toks.size() + 3; calls++) {
		d = nullptr;
		n = 77777;
		fstrm_res res = fstrm_reader_read(r, &d, &n);
		mc::steps();
		// what the stream allows
		bool data = false, stop = false, either = false;
		const Token *tk = nullptr;
		if (!failed && !stopped) {
			for (; i < j.toks.size(); i++) {
				tk = &j.toks[i];
				if (tk->kind == Token::SKIP) { pos += tk->wire.size(); continue; }
				if (tk->kind == Token::EITHER) { pos += tk->wire.size(); either = true; continue; }
				break;
			}
			if (i < j.toks.size()) { data = tk->kind == Token::DATA; stop = tk->kind == Token::STOPS; }
		}
		bool fault = t.faulted > fault_base;
		if (fault) { // a transport failure shows as failure at the latest when what it concerns is needed
			if (res == fstrm_res_success) CHECK(data && n == tk->data.size() && !memcmp(d, tk->data.data(), n), "read returned %zu bytes after a transport failure", n);
		} else if (data) {
			if (!(either && res != fstrm_res_success)) {
				CHECK(res == fstrm_res_success, "frame %zu: read returned %d instead of a data frame of %zu bytes", i, res, tk->data.size());
				CHECK(n == tk->data.size() && !memcmp(d, tk->data.data(), n), "frame %zu: read returned other data (%zu bytes instead of %zu)", i, n, tk->data.size());
			}
		} else if (stop) {
			if (!(either && res != fstrm_res_stop)) CHECK(res == fstrm_res_stop && stop_seen(r), "frame %zu: read returned %d at the STOP frame", i, res);
			CHECK(res != fstrm_res_success, "read succeeded at the STOP frame");
		} else {
			CHECK(res != fstrm_res_success, "read %zu succeeded with %zu bytes where there is no frame", calls, n);
			if (!t.eof_is_stop && !stopped && !failed) CHECK(res == fstrm_res_failure, "read returned %d where there is no STOP frame", res);
			if (!failed && !stopped && i < j.toks.size()) CHECK(res == fstrm_res_failure, "read returned %d at a malformed or oversized frame", res);
		}
		if (res == fstrm_res_success) { pos += tk->wire.size(); i++; }
		else if (stop && res == fstrm_res_stop && stop_seen(r)) {
			stopped = true;
			pos += tk->wire.size();
			CHECK(t.inpos == pos, "consumed %zu bytes up to and including STOP instead of %zu", t.inpos, pos);
			j.stop_at = pos;
		} else if (!stopped) failed = true;
		CHECK(stop_seen(r) == stopped, stopped ? "the STOP frame can't be inspected" : "a STOP frame is reported although none was received");
		if (stopped) CHECK(t.inpos == j.stop_at, "consumed bytes after STOP");
	}
	mc::outcome(stopped ? "stop" : failed ? "failure" : "?");
	mc::state(mc::hash(t.in, i * 4 + stopped * 2 + failed));
}
static B handshake(bool bi) { return (bi ? ctl(READY, L{"a"}) : B()) + ctl(START, L{"a"}); }
static void streams(size_t max, size_t depth, bool more, bool bi, int first)
{
	auto tk = tokens(max ? max : 1048576, more);
	Tr t;
	t.can_write = bi;
	Judge j;
	B body;
	for (size_t i = 0; i < depth; i++) {
		int k = i == 0 ? first : mc::choose(tk.size() + 1, "token");
		if (k == (int)tk.size()) break;
		j.toks.push_back(tk[k]);
		body += tk[k].wire;
		if (tk[k].kind == Token::BAD) break;
	}
	t.eof_is_stop = mc::choose(2, "eof") == 0;
	B hs = handshake(bi);
	t.on_open = [&](Tr &x) { x.in = hs + body; x.inpos = 0; };
	t.faults = false;
	struct fstrm_reader *r = t.reader(L{"a"}, max);
	if (mc::choose(2, "open")) CHECK(fstrm_reader_open(r) == fstrm_res_success, "open");
	t.faults = t.ok_opens > 0; // opening itself is C05's
	drive(t, r, j, hs.size(), 0);
	t.faults = false;
	bool stopped = stop_seen(r);
	size_t out = t.out.size();
	if (stopped) {
		CHECK(fstrm_reader_close(r) == fstrm_res_success && t.out.substr(out) == (bi ? ctl(FINISH) : ""), "close after STOP");
		CHECK(stop_seen(r), "the STOP frame can't be inspected after close");
		out = t.out.size();
	}
	fstrm_reader_destroy(&r);
	if (stopped) CHECK(t.out.size() == out, "something was sent after close");
}
// cut the stream anywhere
static void cuts(size_t max, bool bi, int a)
{
	auto tk = tokens(max, true);
	int b = mc::choose(tk.size(), "last");
	Judge j;
	if (a >= 0) j.toks.push_back(tk[a]);
	B whole = tk[b].wire, body = a >= 0 ? tk[a].wire : "";
	if (a >= 0 && (tk[a].kind == Token::BAD || tk[a].kind == Token::STOPS)) mc::prune();
	// the positions in long runs of payload are alike: all positions near the ends, some in between
	size_t n = whole.size();
	std::vector<size_t> at;
	for (size_t i = 0; i < n; i++) if (i < 24 || n - i < 24 || i % 64 == 0 || mc::thorough()) at.push_back(i);
	size_t cut = at[mc::choose(at.size(), "cut")];
	Tr t;
	t.can_write = bi;
	t.faults = false;
	t.eof_is_stop = mc::choose(2, "eof") == 0;
	B hs = handshake(bi);
	t.on_open = [&](Tr &x) { x.in = hs + body + whole.substr(0, cut); x.inpos = 0; };
	struct fstrm_reader *r = t.reader(L(), max);
	drive(t, r, j, hs.size(), 0);
	fstrm_reader_destroy(&r);
}
// every length around every limit
static void limits(size_t max)
{
	static const long off[] = {0, -1, -2, 1, 2, 100, -100, -511, 512, 65536};
	Tr t;
	t.faults = false;
	t.can_write = false;
	t.eof_is_stop = false;
	size_t m = max ? max : 1048576;
	Judge j;
	B body;
	int count = 1 + mc::choose(3, "frames");
	for (int i = 0; i < count; i++) {
		int k = mc::choose(10 + 4, "len");
		size_t len = k < 10 ? m + off[k] : k == 10 ? 1 : k == 11 ? 2 : k == 12 ? m / 2 : m / 3 * 2;
		if (len == 0 || len > (1u << 30)) mc::prune();
		Token x = len > m ? Token{Token::BAD, be32(len) + data(len, i)} : dtok(len, i);
		j.toks.push_back(x);
		body += x.wire;
		if (x.kind == Token::BAD) break;
	}
	B hs = handshake(false);
	t.on_open = [&](Tr &x) { x.in = hs + body; x.inpos = 0; };
	struct fstrm_reader *r = t.reader(L(), max);
	drive(t, r, j, hs.size(), 0);
	fstrm_reader_destroy(&r);
}
// frames of very different lengths, with frames to ignore before and between them
static void sizes(size_t n, size_t max)
{
	static const size_t all[] = {1, 2, 255, 256, 4095, 4097, 65535, 65536, 65537, 131072, 262145, 524288, 1048575, 1048576};
	static std::vector<B> made(14);
	static const B skip[] = {raw_ctl(be32(6)), raw_ctl(be32(0x80000000u) + data(508, 3)), raw_ctl(be32(77) + "more") + raw_ctl(be32(0))};
	Tr t;
	t.faults = false;
	t.can_write = max > 0;
	t.eof_is_stop = false;
	Judge j;
	auto gap = [&] { int k = mc::choose(4, "ignored"); if (k) j.toks.push_back({Token::SKIP, skip[k - 1]}); };
	gap();
	for (size_t i = 0; i < n; i++) {
		int k = mc::choose(14, "length");
		if (made[k].empty()) made[k] = data(all[k], k);
		j.toks.push_back({Token::DATA, frame(made[k]), made[k]});
		if (i + 1 < n) gap();
	}
	bool end = mc::choose(2, "end");
	if (end) j.toks.push_back({Token::STOPS, ctl(STOP)});
	B hs = handshake(t.can_write);
	t.on_open = [&](Tr &x) {
		x.in = hs;
		for (auto &k : j.toks) x.in += k.wire;
		x.inpos = 0;
	};
	struct fstrm_reader *r = t.reader(L(), max);
	drive(t, r, j, hs.size(), 0);
	fstrm_reader_destroy(&r);
}
static void lengths(size_t lo, size_t hi) // every frame length
{
	size_t n = lo + mc::choose(hi - lo, "len");
	Tr t;
	t.faults = false;
	t.can_write = false;
	Judge j;
	j.toks.push_back(dtok(n, 1));
	j.toks.push_back(dtok(3, 2));
	j.toks.push_back(dtok(n / 2 + 1, 3));
	j.toks.push_back({Token::STOPS, ctl(STOP)});
	B body, hs = handshake(false);
	for (auto &x : j.toks) body += x.wire;
	t.on_open = [&](Tr &x) { x.in = hs + body; x.inpos = 0; };
	struct fstrm_reader *r = t.reader(L());
	drive(t, r, j, hs.size(), 0);
	fstrm_reader_destroy(&r);
}
// very many frames, of one kind or mixed, on one connection or many
static void patience(size_t n, int kind, bool bi, bool eof)
{
	Tr t;
	t.faults = false;
	t.can_write = bi;
	t.eof_is_stop = eof;
	B hs = handshake(bi), body;
	body.reserve(n * 16);
	static const B skip[] = {raw_ctl(be32(0)), raw_ctl(be32(77) + "more")};
	size_t frames = 0;
	for (size_t i = 0; i < n; i++) {
		if (kind == 1 || (kind == 2 && i % 2)) body += skip[i / 2 % 2];
		else { body += frame(data(i % 5 + 1, i)); frames++; }
	}
	body += ctl(STOP);
	t.on_open = [&](Tr &x) { x.in = hs + body; x.inpos = 0; };
	struct fstrm_reader *r = t.reader(L{"a"}, 512);
	CHECK(fstrm_reader_open(r) == fstrm_res_success, "open");
	const uint8_t *d;
	size_t len;
	for (size_t i = 0; i < n; i++) {
		if (kind == 1 || (kind == 2 && i % 2)) continue;
		B w = data(i % 5 + 1, i);
		fstrm_res res = fstrm_reader_read(r, &d, &len);
		mc::steps();
		CHECK(res == fstrm_res_success && len == w.size() && !memcmp(d, w.data(), len), "read returned %d, not frame %zu of %zu", res, i, n);
		if (i % 1000 == 0) CHECK(!stop_seen(r), "a STOP frame is reported although none was received");
	}
	fstrm_res res = fstrm_reader_read(r, &d, &len);
	CHECK(res == fstrm_res_stop && stop_seen(r) && t.inpos == t.in.size(), "after %zu frames: read returned %d at the STOP frame", n, res);
	CHECK(fstrm_reader_close(r) == fstrm_res_success, "close");
	fstrm_reader_destroy(&r);
	mc::state(mc::hash(t.in, n));
	mc::outcome("stop");
}
static void reconnect(size_t n, bool bi)
{
	Tr t;
	t.faults = false;
	t.can_write = bi;
	B hs = handshake(bi);
	size_t i;
	t.on_open = [&](Tr &x) { x.in = hs + frame(data(3, i)) + ctl(STOP); x.inpos = 0; x.out.clear(); };
	for (i = 0; i < n; i++) {
		struct fstrm_reader *r = t.reader(L{"a"}, 512);
		const uint8_t *d;
		size_t len;
		fstrm_res res = fstrm_reader_read(r, &d, &len);
		CHECK(res == fstrm_res_success && B((const char *)d, len) == data(3, i), "reader %zu: read returned %d", i, res);
		CHECK(fstrm_reader_read(r, &d, &len) == fstrm_res_stop, "reader %zu: no stop", i);
		CHECK(fstrm_reader_close(r) == fstrm_res_success, "reader %zu: close", i);
		mc::steps();
		fstrm_reader_destroy(&r);
		t.destroyed = false;
	}
	mc::state(n);
	mc::outcome("stop");
}
// all orders of calls
static void orders(bool bi)
{
	static const std::vector<std::vector<int>> bodies = {{}, {0}, {0, 1}, {0, 1, 2}, {2}, {2, 0}, {3, 0, 2, 1}, {0, 5}, {6, 0}, {1, 2, 2}};
	auto tk = tokens(512, false);
	auto &bd = bodies[mc::choose(bodies.size(), "stream")];
	Tr t;
	t.can_write = bi;
	t.faults = false;
	t.eof_is_stop = mc::choose(2, "eof") == 0;
	B hs = handshake(bi), body;
	std::vector<Token> toks;
	for (int k : bd) { toks.push_back(tk[k]); body += tk[k].wire; }
	t.on_open = [&](Tr &x) { x.in = hs + body; x.inpos = 0; };
	struct fstrm_reader *r = t.reader(L{"a"}, 512);
	enum { NEW, OPEN, STOPPED, ENDED, CLOSED } st = NEW;
	size_t i = 0;
	bool stop = false, stale = false;
	int depth = mc::thorough() ? 8 : 7, opens;
	for (int step = 0; step < depth; step++) {
		int op = mc::choose(5, "op");
		if (op == 0) break;
		opens = t.opens;
		const uint8_t *d = nullptr;
		size_t n = 0;
		fstrm_res res;
		if (op == 1) { // open
			res = fstrm_reader_open(r);
			if (st == OPEN || st == STOPPED) CHECK(res != fstrm_res_success && t.opens == opens, "open of an open reader");
			else if (st == NEW) CHECK(res == fstrm_res_success, "open returned %d", res);
			if (res == fstrm_res_success) { // a new connection, the stream starts again
				CHECK(t.opens == opens + 1, "open succeeded without opening the transport");
				stale = stop; // whether that STOP is still reported is not specified
				st = OPEN;
				i = 0;
			}
		} else if (op == 2) { // read
			res = fstrm_reader_read(r, &d, &n);
			if (st == NEW) st = OPEN;
			const Token *x = nullptr;
			if (st == OPEN) {
				while (i < toks.size() && toks[i].kind == Token::SKIP) i++;
				if (i < toks.size()) x = &toks[i];
				if (x && x->kind == Token::DATA) {
					CHECK(res == fstrm_res_success && n == x->data.size() && !memcmp(d, x->data.data(), n), "read returned %d, not data frame %zu", res, i);
					i++;
				} else if (x && x->kind == Token::STOPS) {
					CHECK(res == fstrm_res_stop, "read returned %d at STOP", res);
					st = STOPPED;
					stop = true;
					stale = false;
				} else {
					CHECK(res != fstrm_res_success, "read succeeded where there is no frame");
					st = ENDED;
				}
			} else CHECK(res != fstrm_res_success, "read succeeded in state %d", st);
		} else if (op == 3) { // close
			size_t o = t.out.size();
			res = fstrm_reader_close(r);
			CHECK((res == fstrm_res_success) == (st == OPEN || st == STOPPED), "close returned %d in state %d", res, st);
			if (st == STOPPED) CHECK(t.out.substr(o) == (bi ? ctl(FINISH) : ""), "close after STOP did not send FINISH");
			if (st != OPEN && st != STOPPED) CHECK(t.out.size() == o, "close of a closed reader sent something");
			if (st == OPEN || st == STOPPED) st = CLOSED;
			CHECK(!t.open, "close left the transport open");
		} else {
			bool s = stop_seen(r);
			if (st == NEW) st = OPEN;
			if (!stale) CHECK(s == stop, "get_control(STOP): %d instead of %d", s, stop);
			CHECK(t.opens == opens || opens == 0, "get_control opened the transport");
			const struct fstrm_control *c = nullptr;
			res = fstrm_reader_get_control(r, FSTRM_CONTROL_START, &c);
			CHECK(res == fstrm_res_success && payload_of(c) == ctl_payload(START, L{"a"}), "get_control(START) in state %d", st);
		}
		mc::steps();
		mc::state(mc::hash(body, st * 100 + i * 2 + stop));
	}
	fstrm_reader_destroy(&r);
}
void mc_setup()
{
	bool th = mc::thorough();
	mc::config.before = env::forget_allocations;
	mc::config.note = "one execution = one reader over one input stream (sequence of well-formed, unknown, malformed, oversized or truncated tokens, or one order of calls), with up to one transport failure; states = distinct (stream, position, state)";
	mc::config.assumptions = {"READY, ACCEPT, START and FINISH frames between data frames may be skipped or end the stream (the documentation forbids them there)"};
	for (int bi = 0; bi < 2; bi++)
		for (size_t f = 0; f <= tokens(512, false).size(); f++) mc::scenario("streams of 512 " + std::string(bi ? "bi" : "uni") + " " + std::to_string(f), [=] { streams(512, th ? 5 : 4, false, bi, f); }, 1);
	for (size_t f = 0; f < tokens(600, true).size(); f++) mc::scenario("streams of 600 " + std::to_string(f), [=] { streams(600, th ? 4 : 3, true, false, f); }, 1);
	for (int a = -1; a < (int)tokens(512, true).size(); a++)
		for (int bi = 0; bi < 2; bi++) mc::scenario("cuts " + std::string(bi ? "bi " : "uni ") + std::to_string(a), [=] { cuts(512, bi, a); });
	for (size_t m : {512, 513, 767, 1000, 1024, 4095, 4096, 65535, 65536, 100000, 0}) mc::scenario("limit " + std::to_string(m), [=] { limits(m); });
	mc::scenario("limit 2^32-2", [] {
		Tr t;
		t.faults = false;
		t.can_write = false;
		Judge j;
		B hs = handshake(false);
		j.toks.push_back(dtok(100000, 1));
		j.toks.push_back({Token::BAD, be32(0xffffffffu) + "abc"});
		B body = j.toks[0].wire + j.toks[1].wire;
		t.on_open = [&](Tr &x) { x.in = hs + body; x.inpos = 0; };
		struct fstrm_reader *r = t.reader(L(), 0xfffffffeu);
		drive(t, r, j, hs.size(), 0);
		fstrm_reader_destroy(&r);
	});
	for (size_t lo = 1; lo < (th ? 70000 : 3000); lo += 500) mc::scenario("lengths " + std::to_string(lo), [=] { lengths(lo, lo + 500); });
	for (size_t m : {0, 0x7fffffff}) mc::scenario("sizes, limit " + std::to_string(m), [=] { sizes(th ? 3 : 2, m); });
	for (int bi = 0; bi < 2; bi++)
		for (int k = 0; k < 3; k++)
			for (size_t n : {33000, 70000, 140000}) mc::scenario(std::to_string(n) + (k == 0 ? " data frames" : k == 1 ? " unknown control frames" : " mixed frames") + (bi ? ", bi" : ", uni"), [=] { patience(n, k, bi, k == 0); });
	for (int bi = 0; bi < 2; bi++) mc::scenario("1000 readers" + std::string(bi ? ", bi" : ", uni"), [=] { reconnect(1000, bi); });
	mc::scenario("orders, uni-directional", [] { orders(false); });
	mc::scenario("orders, bi-directional", [] { orders(true); });
	together::readers();
}
