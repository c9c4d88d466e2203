// C24: fstrm_dump shows and copies a stream faithfully.
#include "stream.hpp"
const char *mc_property = "C24";

static B inp, outp;
static B escape(const B &d)
{
	B r = " \"";
	for (unsigned char c : d) {
		if (c == '"') r += "\\\"";
		else if (c >= 0x20 && c < 0x7f) r += (char)c;
		else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
	}
	return r + "\"\n";
}
static void reset()
{
	inp = mc::scratch() + "/in";
	outp = mc::scratch() + "/out";
	unlink(inp.c_str());
	unlink(outp.c_str());
	env::h = env::Hooks();
	env::h.fopen = h_fopen;
	env::forget_allocations();
	reset_device();
	prog::quiet = false;
}
// standard output, when it may fail: all bytes it took so far, and how many more it takes
static B screen;
static long room;
static bool broken, once;
static int screen_buffering = -1;
static ssize_t screen_write(void *, const char *p, size_t n)
{
	size_t k = n;
	if (room >= 0 && (long)k > room) {
		k = room;
		broken = true;
		room = once ? -1 : 0;
		if (!k) { errno = ENOSPC; return 0; }
	} else if (room >= 0) room -= k;
	screen.append(p, k);
	return k;
}
static FILE *open_screen(long n, bool o)
{
	screen.clear();
	room = n;
	once = o;
	broken = false;
	cookie_io_functions_t f = {nullptr, screen_write, nullptr, nullptr};
	FILE *x = fopencookie(nullptr, "w", f);
	setvbuf(x, nullptr, screen_buffering == 0 ? _IOLBF : screen_buffering == 1 ? _IONBF : _IOFBF, 4096);
	return x;
}
// runs it over this file and judges everything it does
static void dump(const B &s, bool copy, bool from_stdin = false, long fail_at = -1, bool fail_once = false)
{
	spit(inp, s);
	Meaning m = meaning(s);
	char *text = nullptr;
	size_t len = 0;
	prog::out = fail_at >= 0 ? open_screen(fail_at, fail_once) : open_memstream(&text, &len);
	prog::in = from_stdin ? fopen(inp.c_str(), "r") : nullptr;
	prog::Args a = {"fstrm_dump", from_stdin ? B("-") : inp};
	if (copy) a.push_back(outp);
	unsigned fds = prog::fds();
	prog::start(a);
	CHECK(!prog::running() || prog::called_exit, "fstrm_dump does not end");
	bool unshown = fail_at >= 0 && broken; // before it ended
	fclose(prog::out);
	prog::out = prog::in = nullptr;
	if (fail_at >= 0) {
		if (unshown) CHECK(prog::code != 0, "it reports success though standard output could not be written");
		mc::steps(1);
		mc::state(mc::hash(screen, fail_at));
		mc::outcome("standard output fails: status " + std::to_string(prog::code));
		B all, seen = screen;
		for (auto &f : m.frames) all += escape(f);
		if (!unshown) CHECK(broken || (seen == all && prog::code == 0), "status %d after printing %s", prog::code, seen.c_str());
		else if (!fail_once) CHECK(all.compare(0, seen.size(), seen) == 0, "it prints %.80s", seen.c_str());
		if (broken) CHECK(prog::code != 0, "it reports success though standard output could not be written");
		return;
	}
	if (!from_stdin && !prog::called_exit) CHECK(prog::fds() <= fds, "a file was left open");
	B shown(text, len);
	free(text);
	bool success = prog::code == 0;
	mc::steps(m.frames.size() + 1);
	// what was printed: frames of the file, in order
	size_t p = 0, n = 0;
	while (p < shown.size()) {
		CHECK(n < m.frames.size(), "it prints a frame that is not in the file: %.60s", shown.c_str() + p);
		B e = escape(m.frames[n]);
		CHECK(shown.compare(p, e.size(), e) == 0, "frame %zu (%s) is printed as %.80s", n, hex(m.frames[n]).c_str(), shown.c_str() + p);
		p += e.size();
		n++;
	}
	// their lengths, and the content type
	B want;
	size_t q = 0, k = 0;
	while ((q = prog::errors.find("Data frame (", q)) != B::npos) {
		size_t v = strtoull(prog::errors.c_str() + q + 12, nullptr, 10);
		CHECK(k < m.frames.size() && v == m.frames[k].size(), "frame %zu is said to have %zu bytes", k, v);
		k++;
		q += 12;
	}
	CHECK(k == n, "%zu frames are shown but %zu announced", n, k);
	if (n || success) {
		q = prog::errors.find("CONTENT_TYPE (");
		CHECK((q != B::npos) == !m.ct.empty(), "the content type is %s", q != B::npos ? "shown though there is none" : "not shown");
		if (q != B::npos) {
			B e = escape(m.ct[0]);
			CHECK(strtoull(prog::errors.c_str() + q + 14, nullptr, 10) == m.ct[0].size() && prog::errors.find(e, q) != B::npos, "the content type is not shown: %s", prog::errors.substr(q, 80).c_str());
		}
	}
	if (m.kind == Meaning::GOOD && !faults) {
		CHECK(success, "exit status %d for a well-formed file (%zu frames)", prog::code, m.frames.size());
		CHECK(n == m.frames.size(), "%zu of %zu frames are shown", n, m.frames.size());
	}
	if (m.kind == Meaning::MALFORMED) CHECK(!success, "it reports success for a malformed file (%s)", hex(s, 100).c_str());
	if (faults) CHECK(!success, reading_failed ? "it reports success though the input could not be read" : "it reports success though the output could not be written");
	if (copy) {
		B c = slurp(outp), e = ctl(START, m.ct);
		if (success) {
			for (size_t i = 0; i < n; i++) e += frame(m.frames[i]);
			e += ctl(STOP);
			CHECK(c == e, "the copy is %s (%zu bytes), should be %s (%zu bytes)", hex(c, 60).c_str(), c.size(), hex(e, 60).c_str(), e.size());
		} else if (!transient) {
			// whatever it wrote is a beginning of a copy
			size_t i = 0, p = e.size();
			if (c.size() < p) CHECK(!memcmp(c.data(), e.data(), c.size()), "the partial copy is %s", hex(c, 60).c_str());
			else CHECK(!memcmp(c.data(), e.data(), p), "the partial copy is %s", hex(c, 60).c_str());
			while (p < c.size()) {
				B r = c.substr(p);
				B st = ctl(STOP).substr(0, r.size());
				if (r == st) break;
				CHECK(i < m.frames.size(), "the partial copy holds something else after frame %zu: %s", i, hex(r).c_str());
				B f = frame(m.frames[i++]).substr(0, r.size());
				CHECK(r.compare(0, f.size(), f) == 0, "frame %zu of the partial copy is %s", i - 1, hex(r).c_str());
				p += f.size();
			}
		}
	}
	mc::state(mc::hash(s, copy));
	mc::outcome("status " + std::to_string(prog::code) + ", " + std::to_string(n) + " frames");
}
static std::vector<B> tokens(bool more)
{
	std::vector<B> v = {
		frame("a"), frame(B("\"\\\n\0\x7f\x80", 6)), ctl(STOP), with_header(be32(6)), with_header(be32(0x103) + "xy"),
		frame(ctl(STOP)), be32(0) + be32(0), with_header(be32(STOP) + be32(1)), ctl(START, {"b"}), be32(1048577) + "zzz", frame(B(3, 0)),
	};
	if (more) {
		std::vector<B> w = {frame(data(300, 1)), ctl(FINISH), ctl(READY, {"t"}), be32(0xffffffffu) + "q", be32(0) + be32(3) + "abc", be32(0) + be32(513) + be32(9) + data(509, 2),
			with_header(be32(0)), be32(0) + be32(0xfffffffcu) + "abcd", with_header(be32(STOP) + be32(1) + be32(1) + "a"), frame(data(5000, 3)), with_header(be32(9) + data(508, 1))};
		v.insert(v.end(), w.begin(), w.end());
	}
	return v;
}
static B head(const L &l = {"type"}) { return ctl(START, l); }
static void streams(int depth, bool more, bool copy, bool stop)
{
	reset();
	auto tk = tokens(more);
	B s = head();
	for (int i = 0; i < depth; i++) {
		int k = mc::choose(tk.size() + 1, "token");
		if (k == (int)tk.size()) break;
		s += tk[k];
	}
	if (stop) s += ctl(STOP);
	dump(s, copy);
}
static void starts(bool copy)
{
	reset();
	std::vector<B> v = {
		"", be32(0), be32(0) + be32(4), head({}), head({""}), head({"x"}), head({data(256, 1)}), head({B("\0\"\n", 3)}), ctl(READY, {"x"}), ctl(STOP), ctl(FINISH), ctl(ACCEPT),
		with_header(be32(START) + be32(1) + be32(1) + "a" + be32(1) + be32(1) + "a"), with_header(be32(START) + be32(2) + be32(0)), with_header(be32(START) + be32(1) + be32(2) + "a"),
		with_header(be32(START) + be32(1) + be32(257) + data(257, 1)), with_header(be32(7)), be32(4) + be32(START), "not a frame streams file, but a text", be32(0) + be32(513) + be32(START) + B(509, 0),
		with_header(be32(START) + "x"), B(100, 0), be32(0) + be32(4) + be32(START << 24), with_header(be32(START) + be32(1)),
	};
	B s = v[mc::choose(v.size(), "start")];
	if (mc::choose(2, "rest")) s += frame("data") + ctl(STOP);
	dump(s, copy);
}
static void cut(const B &s, bool copy, int mode)
{
	reset();
	device = mode != 0;
	if (mode == 2) rchunk = 3;
	dump(s.substr(0, mc::choose(s.size() + 1, "cut")), copy, mode == 3);
}
static void bytes(bool copy)
{
	reset();
	B s = head();
	for (int i = 0; i < 256; i++) s += frame(B(1, (char)i)) + frame(B(1, (char)i) + "0f");
	B all;
	for (int i = 0; i < 256; i++) for (int j = 0; j < 256; j++) { all += (char)i; all += (char)j; }
	s += frame(all) + ctl(STOP);
	dump(s, copy);
}
static void lengths(const std::vector<size_t> &l, int n, bool copy)
{
	reset();
	B s = head();
	for (int i = 0; i < n; i++) s += frame(data(l[mc::choose(l.size(), "length")], i));
	dump(s + ctl(STOP), copy);
}
static void many(size_t n, size_t len, bool copy)
{
	reset();
	B s = head();
	for (size_t i = 0; i < n; i++) s += frame(data(len + i % 3, i));
	dump(s + ctl(STOP), copy);
}
static void faulty(const B &s, int kind, int buf)
{
	reset();
	device = true;
	buffering = buf;
	if (kind == 0 || kind == 1) { // beyond the last byte there is no fault
		wbudget = mc::choose(s.size(), "budget");
		transient = kind == 1;
	} else if (kind == 2) rbudget = mc::choose(s.size(), "budget");
	else if (kind == 3) close_fails = true;
	else open_fail_at = mc::choose(2, "open");
	dump(s, true);
}
static void unshown(const B &s, bool copy, bool o, int buf)
{
	reset();
	size_t n = 0;
	for (auto &f : meaning(s).frames) n += escape(f).size();
	screen_buffering = buf;
	size_t step = n > 1000 && !mc::thorough() ? 61 : 1;
	dump(s, copy, false, mc::choose(n / step + 1, "room") * step, o);
}
// every byte in the names of the files
static void odd_names()
{
	reset();
	if (chdir(mc::scratch().c_str())) abort();
	int c = 1 + mc::choose(255, "byte"), where = mc::choose(3, "where");
	if (c == '/') mc::prune();
	auto name = [&](char x) { return where == 0 ? B(1, c) + x : where == 1 ? x + B(1, c) : x + B(1, c) + x; };
	inp = name('i');
	bool copy = mc::choose(2, "copy");
	if (copy) outp = name('o');
	dump(head() + frame("one") + frame(data(20, c)) + ctl(STOP), copy);
	unlink(inp.c_str());
	unlink(outp.c_str());
}
static void usage()
{
	reset();
	static const std::vector<prog::Args> v = {{"fstrm_dump"}, {"fstrm_dump", "a", "b", "c"}, {"fstrm_dump", "/nonexistent/file"}, {"fstrm_dump", "/nonexistent/file", "/nonexistent/other"}, {"fstrm_dump", "IN", "/nonexistent/dir/file"}, {"fstrm_dump", "DIR"}, {"fstrm_dump", "IN", "DIR"}};
	prog::Args a = v[mc::choose(v.size(), "arguments")];
	spit(inp, head() + frame("a") + ctl(STOP));
	for (auto &x : a) { if (x == "IN") x = inp; if (x == "DIR") x = mc::scratch(); }
	prog::start(a);
	CHECK(!prog::running() && prog::code != 0, "it reports success");
}
void mc_setup()
{
	bool t = mc::thorough();
	mc::config.note = "fstrm_dump's own main() over all token sequences up to a depth, every kind of first frame, every truncation, every byte value and every pair of bytes, lengths around buffer and limit boundaries, many frames, output that fails at every byte (for good or once), on closing and opening, input that fails at every byte, standard output that fails at every byte; what it prints, copies and returns is compared with an independent reading of the file.";
	mc::config.assumptions = {"stdio behaves as documented"};
	for (int c = 0; c < 2; c++) {
		B n = c ? " copy" : "";
		mc::scenario("streams" + n, [=] { streams(t ? 4 : 3, false, c, false); });
		mc::scenario("streams, STOP" + n, [=] { streams(t ? 4 : 3, false, c, true); });
		mc::scenario("more streams" + n, [=] { streams(t ? 3 : 2, true, c, false); });
		mc::scenario("more streams, STOP" + n, [=] { streams(t ? 3 : 2, true, c, true); });
		mc::scenario("starts" + n, [=] { starts(c); });
		B s = head() + frame("one") + with_header(be32(77) + "abc") + frame(data(40, 1)) + frame(B(2, 0)) + ctl(STOP);
		for (int m = 0; m < 4; m++) mc::scenario("cut" + n + " " + std::to_string(m), [=] { cut(s, c, m); });
		mc::scenario("bytes" + n, [=] { bytes(c); });
		mc::scenario("lengths" + n, [=] { lengths({1, 2, 511, 512, 513, 1023, 1024, 4091, 4092, 4093, 4096, 4097}, 2, c); });
		mc::scenario("long" + n, [=] { lengths({65535, 65536, 1048575, 1048576, 1048577, 524289}, t ? 2 : 1, c); });
		for (size_t k : {0, 1, 127, 128, 129, 300, 1000, 33000, 66000}) mc::scenario("many " + std::to_string(k) + n, [=] { many(k, 1, c); });
		mc::scenario("many larger" + n, [=] { many(200, 1500, c); });
	}
	B s = head() + frame("one") + frame(data(40, 1)) + frame(data(30, 2)) + ctl(STOP);
	B big = head() + frame(data(4000, 1)) + frame(data(90, 1)) + frame(data(t ? 9000 : 1000, 2)) + ctl(STOP);
	for (int k = 0; k < 5; k++)
		for (int b = 0; b < 3; b++) {
			static const char *kn[] = {"output full", "one write fails", "input fails", "close fails", "open fails"};
			mc::scenario(B(kn[k]) + " " + std::to_string(b), [=] { faulty(s, k, b); });
			if (k < 3) mc::scenario(B(kn[k]) + " big " + std::to_string(b), [=] { faulty(big, k, b); });
		}
	for (int c = 0; c < 2; c++)
		for (int o = 0; o < 2; o++)
			for (int b = 0; b < 3; b++)
				for (int g = 0; g < 2; g++)
					if (!(o && b == 1)) mc::scenario(B("standard output ") + (o ? "fails once" : "is full") + (c ? " copy " : " ") + std::to_string(b) + (g ? " big" : ""), [=] { unshown(g ? big : s, c, o, b); });
	mc::scenario("odd names", odd_names);
	mc::scenario("usage", usage);
}
