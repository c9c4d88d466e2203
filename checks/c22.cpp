// C22: fstrm_capture output survives rotation, flush and shutdown.
#include "capture.hpp"
#include <dirent.h>
#include <ctime>
const char *mc_property = "C22";

// ---- the output device: real files, with a budget of bytes ----
struct File { B path, content; bool closed; };
static std::vector<File> files;    // in the order they were opened
static std::vector<size_t> first;  // index of the first frame of each file
static time_t vt;
static long wbudget, total_written;
static int close_fail_at, open_fail_at, opens, closes, faults, buffering;
static bool transient, cookies;
static int point, fire_at, fire_sig;   // a signal at the n-th call
static time_t h_time(time_t *t) { if (t) *t = vt; return vt; }
static void at_point()
{
	if (fire_at >= 0 && point++ == fire_at) { mc::note("signal %d here", fire_sig); raise(fire_sig); }
}
// The contents of a file at any instant; returns the number of complete frames. done: it is closed.
static size_t instant(const B &s, size_t from, bool done, const char *what)
{
	B e = ctl(START, {CT});
	if (s.size() < e.size()) {
		CHECK(!done && is_prefix(s, e), "%s contains %s", what, hex(s).c_str());
		return 0;
	}
	CHECK(is_prefix(e, s), "%s begins with %s", what, hex(s, 60).c_str());
	size_t p = e.size(), n = 0;
	while (p < s.size()) {
		B rest = s.substr(p);
		if (rest.size() >= 4 && rd32(rest, 0) == 0) {
			CHECK(done ? rest == ctl(STOP) : is_prefix(rest, ctl(STOP)), "%s ends with %s after %zu frames", what, hex(rest).c_str(), n);
			return n;
		}
		if (!done && is_prefix(rest, ctl(STOP))) return n;
		CHECK(from + n < seq.size(), "%s contains frame %zu of %zu: %s", what, from + n, seq.size(), hex(rest).c_str());
		B f = frame(seq[from + n]);
		if (rest.size() < f.size()) { CHECK(!done && is_prefix(rest, f), "%s: frame %zu is %s, should be a prefix of %s", what, from + n, hex(rest).c_str(), hex(f).c_str()); return n; }
		CHECK(is_prefix(f, rest), "%s: frame %zu is %s, should be %s", what, from + n, hex(rest).c_str(), hex(f).c_str());
		p += f.size();
		n++;
	}
	CHECK(!done, "%s ends without STOP (%zu frames)", what, n);
	return n;
}
static size_t from_of(size_t i)
{
	size_t n = 0;
	for (size_t j = 0; j < i; j++) n += instant(files[j].content, n, files[j].closed, "an earlier file");
	return n;
}
struct Dev { size_t idx; int fd; };
static ssize_t c_write(void *c, const char *p, size_t n)
{
	Dev *d = (Dev *)c;
	File &f = files[d->idx];
	size_t k = n;
	if (wbudget >= 0) {
		if ((long)k > wbudget) {
			k = wbudget;
			faults++;
			wbudget = transient ? -1 : 0;
			mc::note("a write of %zu bytes fails after %zu", n, k);
		} else wbudget -= k;
	}
	f.content.append(p, k);
	total_written += k;
	if (write(d->fd, p, k) != (ssize_t)k) abort();
	instant(f.content, from_of(d->idx), false, "the output file, being written,");
	if (k < n) errno = ENOSPC;
	return k;
}
static int c_close(void *c)
{
	Dev *d = (Dev *)c;
	close(d->fd);
	int r = 0;
	if (closes++ == close_fail_at) { faults++; errno = EIO; r = -1; }
	delete d;
	return r;
}
static FILE *h_fdopen(int fd, const char *mode)
{
	FILE *f;
	static char buf[256];
	if (cookies) {
		char link[64], path[4096];
		snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
		ssize_t n = readlink(link, path, sizeof path - 1);
		if (n < 0) n = 0;
		files.push_back({B(path, n), "", false});
		cookie_io_functions_t io = {nullptr, c_write, nullptr, c_close};
		f = fopencookie(new Dev{files.size() - 1, fd}, mode, io);
	} else f = fdopen(fd, mode);
	if (f && buffering == 1) setvbuf(f, nullptr, _IONBF, 0);
	if (f && buffering == 2) setvbuf(f, nullptr, _IOFBF, 64);
	(void)buf;
	return f;
}
static FILE *h_fopen(const char *p, const char *m)
{
	if (opens++ == open_fail_at) { faults++; errno = ENOSPC; return nullptr; }
	int fd = open(p, O_WRONLY | O_CREAT | (m[0] == 'a' ? O_APPEND : O_TRUNC), 0666);
	return fd < 0 ? nullptr : h_fdopen(fd, m);
}
static int h_open(const char *p, int fl, unsigned m)
{
	at_point();
	if (opens++ == open_fail_at) { faults++; errno = ENOSPC; return -1; }
	return open(p, fl, m);
}
static size_t h_fwrite(const void *p, size_t a, size_t b, FILE *f) { at_point(); size_t r = fwrite(p, a, b, f); at_point(); return r; }
static int h_fflush(FILE *f) { at_point(); return fflush(f); }
static int h_fclose(FILE *f)
{
	at_point();
	if (!cookies) {
		char link[64], path[4096];
		snprintf(link, sizeof link, "/proc/self/fd/%d", fileno(f));
		ssize_t n = readlink(link, path, sizeof path - 1);
		if (n < 0) n = 0;
		int r = fclose(f);
		B c = slurp(B(path, n));
		instant(c, from_of(files.size()), true, "a finished file");
		files.push_back({B(path, n), c, true});
		at_point();
		return r;
	}
	size_t i = files.size() - 1;
	int before = faults;
	int r = fclose(f);
	files[i].closed = faults == 0 && before == 0;
	if (files[i].closed) instant(files[i].content, from_of(i), true, "a finished file");
	return r;
}
static void prepare()
{
	reset();
	DIR *d = opendir(mc::scratch().c_str());
	while (struct dirent *e = readdir(d)) if (!strncmp(e->d_name, "out", 3)) unlink((mc::scratch() + "/" + e->d_name).c_str());
	closedir(d);
	files.clear();
	vt = 1000000000;
	wbudget = -1;
	total_written = 0;
	close_fail_at = open_fail_at = fire_at = -1;
	opens = closes = faults = buffering = point = 0;
	transient = cookies = false;
	env::h.time = h_time;
	env::h.fopen = h_fopen;
	env::h.fdopen = h_fdopen;
	env::h.open = h_open;
	env::h.fwrite = h_fwrite;
	env::h.fflush = h_fflush;
	env::h.fclose = h_fclose;
}
static B name_at(const B &pattern, time_t t)
{
	char b[4096];
	struct tm tm;
	gmtime_r(&t, &tm);
	strftime(b, sizeof b, pattern.c_str(), &tm);
	return b;
}
// the current file while it runs; flushed: it must be complete up to here
static void look(const B &cur, bool flushed)
{
	size_t from = from_of(files.size());
	B s = slurp(cur);
	size_t n = instant(s, from, false, "the current output file");
	if (flushed) {
		B e = ctl(START, {CT});
		for (size_t i = from; i < seq.size(); i++) e += frame(seq[i]);
		CHECK(s == e, "after SIGHUP the file holds %zu of %zu frames (%zu of %zu bytes)", from + n, seq.size(), s.size(), e.size());
	}
}
// ---- histories ----
struct Act { int what; int arg; }; // 0 frame of client arg, 1 half a frame, 2 SIGUSR1, 3 SIGHUP, 4 clock +arg, 5 two frames at once
static void histories(const std::vector<Act> &al, int depth, int split, bool strf, bool to_stdout, int clients, int sig, bool same_size = false)
{
	prepare();
	B pattern = mc::scratch() + (strf ? "/out-%H%M%S" : "/out");
	prog::Args x;
	outp = pattern;
	if (split) { x.push_back("-s"); x.push_back(std::to_string(split)); }
	if (strf) x.push_back("--gmtime");
	if (to_stdout) {
		B real = outp;
		outp = "-";
		prog::Args a = base_args();
		outp = real;
		prog::out = fopen(real.c_str(), "w");
		CHECK(launch(a), "fstrm_capture does not start: %d", prog::code);
	} else start(x);
	settle();
	std::vector<B> rest(clients);
	std::vector<unsigned> salt(clients);
	for (int i = 0; i < clients; i++) { connect_client(); tell(i, hello() + begin()); }
	settle();
	time_t opened = vt;
	std::vector<B> names = {name_at(pattern, vt)};
	std::vector<size_t> lo, hi; // frames before each rotation: at least, at most
	auto rotated = [&](size_t a, size_t b) { lo.push_back(a); hi.push_back(b); opened = vt; names.push_back(name_at(pattern, vt)); };
	auto frames = [&](size_t before) { // frames that completed one after another, at the same time
		for (size_t i = before; i < seq.size(); i++) if (split && vt >= opened + split) rotated(i, i + 1);
	};
	for (int i = 0; i < depth; i++) {
		int k = mc::choose(al.size() + 1, "act");
		if (k == (int)al.size()) break;
		Act a = al[k];
		size_t before = seq.size();
		bool flushed = false;
		if (a.what == 0 || a.what == 5) {
			int c = a.arg;
			B m;
			if (!rest[c].empty()) { m = rest[c]; rest[c] = ""; }
			else m = frame(pay(c, same_size ? 6 : 3 + salt[c] * 2, salt[c])), salt[c]++;
			if (a.what == 5) { m += frame(pay(c, 4 + salt[c] * 2, salt[c])); salt[c]++; }
			tell(c, m);
		} else if (a.what == 1) {
			int c = a.arg;
			if (!rest[c].empty()) mc::prune();
			B m = frame(pay(c, 30, salt[c]++));
			rest[c] = m.substr(20);
			tell(c, m.substr(0, 20));
		} else if (a.what == 2) { signal_(SIGUSR1); if (!to_stdout) rotated(seq.size(), seq.size()); }
		else if (a.what == 3) { signal_(SIGHUP); flushed = true; }
		else vt += a.arg;
		settle();
		CHECK(prog::running(), "fstrm_capture ended with status %d", prog::code);
		frames(before);
		CHECK(files.size() == lo.size(), "%zu rotations, expected %zu (the file was opened %ld s ago)", files.size(), lo.size(), (long)(vt - opened));
		look(names.back(), flushed);
		check_replies();
	}
	terminate(sig);
	CHECK(prog::code == 0, "exit status %d", prog::code);
	CHECK(files.size() == lo.size() + 1, "%zu files, expected %zu", files.size(), lo.size() + 1);
	size_t n = 0;
	for (size_t i = 0; i < files.size(); i++) {
		CHECK(files[i].path == names[i], "file %zu is called %s, expected %s", i, files[i].path.c_str(), names[i].c_str());
		n += instant(files[i].content, n, true, "a finished file");
		if (i < lo.size()) CHECK(n >= lo[i] && n <= hi[i], "file %zu ends after frame %zu, not %zu", i, n, hi[i]);
	}
	CHECK(n == seq.size(), "%zu frames recorded, %zu received", n, seq.size());
	// later files with the same name replace earlier ones
	for (size_t i = 0; i < files.size(); i++) {
		bool last = true;
		for (size_t j = i + 1; j < files.size(); j++) if (names[j] == names[i]) last = false;
		if (last) CHECK(slurp(names[i]) == files[i].content, "%s changed after it was finished", names[i].c_str());
	}
	uint64_t h = files.size();
	for (auto &f : files) h = mc::hash(f.content, h);
	mc::state(h);
	mc::outcome(std::to_string(files.size()) + " files, " + std::to_string(n) + " frames");
}
// ---- failing output ----
// a fixed history with a rotation and a flush; one fault
static void faulty(int kind, int buf, size_t fsize)
{
	prepare();
	cookies = true;
	buffering = buf;
	size_t scale = fsize < 100 ? 1 : fsize / 7;
	int n = kind <= 1 ? 160 : 4;
	if (kind <= 1 && scale > 1) {
		// around the positions where the buffers of stdio end
		static const long at[] = {0, 1, 25, 26, 27, 100, 1023, 1024, 1025, 4070, 4095, 4096, 4097, 4122, 5000, 8191, 8192, 8193, 8218, 9000, 12288, 16384, 20000, 24576};
		int k = mc::choose(sizeof at / sizeof *at, "budget");
		wbudget = at[k];
	} else if (kind <= 1) wbudget = mc::choose(n, "budget");
	else if (kind == 2) close_fail_at = mc::choose(3, "close");
	else if (kind == 3) open_fail_at = mc::choose(3, "open");
	transient = kind == 1;
	int script = mc::choose(5, "script");
	prog::Args a = base_args();
	if (!launch(a)) {
		CHECK(faults, "fstrm_capture does not start: %d", prog::code);
		CHECK(prog::code != 0, "it could not open its output but reports success");
		return;
	}
	settle();
	auto alive = [] { return prog::running(); };
	int c = connect_client();
	auto go = [&](const B &m) { if (alive()) { tell(c, m); settle(); } };
	auto sg = [&](int s) { if (alive()) { signal_(s); settle(); } };
	go(hello() + begin());
	go(frame(pay(c, fsize, 1)));
	if (script == 1 || script == 3) sg(SIGHUP);
	go(frame(pay(c, fsize + 1, 2)) + frame(pay(c, fsize, 3)));
	if (script == 2 || script == 3) sg(SIGUSR1);
	go(frame(pay(c, 3, 4)));
	if (script == 3 || script == 4) sg(SIGHUP);
	if (script == 4) { sg(SIGUSR1); go(frame(pay(c, 2, 5))); }
	if (alive()) terminate(); else for (auto &x : C) if (x.fd >= 0) close(x.fd), x.fd = -1;
	if (prog::code == 0) {
		size_t n = 0;
		for (auto &f : files) n += instant(f.content, n, true, "after success, a file");
		CHECK(n == seq.size(), "it reports success with %zu of %zu frames written", n, seq.size());
		CHECK(kind != 2 || !faults, "a file could not be closed but it reports success");
	} else CHECK(faults, "it ends with status %d though nothing failed", prog::code);
	uint64_t h = prog::code;
	for (auto &f : files) h = mc::hash(f.content, h);
	mc::state(h);
	mc::outcome("status " + std::to_string(prog::code) + (faults ? " after a fault" : ""));
}
// a signal arriving at any call the program makes while it handles messages
static void signal_anywhere(int sig)
{
	prepare();
	prog::Args x = {"-s", "5", "--gmtime"};
	outp = mc::scratch() + "/out-%H%M%S";
	fire_sig = sig;
	start(x);
	settle();
	connect_client();
	connect_client();
	tell(0, hello() + begin());
	tell(1, hello() + begin());
	settle();
	fire_at = mc::choose(40, "point");
	point = 0;
	B big = pay(1, 9000, 5);
	tell(0, frame(pay(0, 4, 1)) + frame(pay(0, 5, 2)));
	settle();
	vt += 5;
	tell(1, frame(big).substr(0, 5000));
	settle();
	tell(1, frame(big).substr(5000) + frame(pay(1, 3, 6)));
	settle();
	if (prog::running()) { tell(0, frame(pay(0, 6, 3)) + ctl(STOP)); settle(); }
	if (prog::running()) { signal_(SIGUSR1); settle(); }
	if (prog::running()) terminate(); else for (auto &x : C) if (x.fd >= 0) close(x.fd), x.fd = -1;
	CHECK(prog::code == 0, "exit status %d", prog::code);
	size_t n = 0;
	for (auto &f : files) n += instant(f.content, n, true, "a finished file");
	if (sig == SIGUSR1 || sig == SIGHUP) CHECK(n == seq.size(), "%zu of %zu frames recorded", n, seq.size());
	mc::state(mc::mix(files.size(), n) + 1000 * sig);
	mc::outcome(std::to_string(files.size()) + " files");
}
// very many rotations (or flushes) beside a client that goes on
static void patience(int n, int what, bool strf)
{
	prepare();
	B pattern = mc::scratch() + (strf ? "/out-%s" : "/out");
	outp = pattern;
	prog::Args x;
	if (what == 2) x = {"-s", "10"};
	if (strf) x.push_back("--gmtime");
	start(x);
	settle();
	connect_client();
	tell(0, hello() + begin());
	settle();
	size_t fds = (size_t)prog::fds();
	for (int i = 0; i < n; i++) {
		tell(0, frame(pay(0, 4 + i % 3, i)));
		if (what == 2) vt += 11;
		settle();
		if (what < 2) { signal_(what ? SIGHUP : SIGUSR1); settle(); }
		CHECK(prog::running(), "fstrm_capture ended with status %d after %d times", prog::code, i);
		CHECK(files.size() == (size_t)(what == 1 ? 0 : i + 1), "%zu rotations, expected %d", files.size(), i + 1);
		CHECK((size_t)prog::fds() == fds, "%zu descriptors instead of %zu after %d times", (size_t)prog::fds(), fds, i);
		if (what == 0) vt++;
		if (what == 1 && i % 50 == 0) look(name_at(pattern, 1000000000), true);
	}
	terminate();
	CHECK(prog::code == 0, "exit status %d", prog::code);
	size_t c = 0;
	for (size_t i = 0; i < files.size(); i++) c += instant(files[i].content, c, true, "a finished file");
	CHECK(c == seq.size() && c == (size_t)n, "%zu frames recorded, %d received", c, n);
	mc::outcome(std::to_string(files.size()) + " files");
}
void mc_setup()
{
	bool t = mc::thorough();
	mc::config.note = "All histories, up to a depth, of frames and partial frames of 1-2 clients, SIGUSR1, SIGHUP and clock steps (forwards by less than, exactly and more than the split interval, and backwards), ended by SIGTERM or SIGINT, writing to one name, to names made by strftime and to standard output; the file is read after every step and every finished file when it is closed. Output that fails at every byte, for good or once, at every open and close, under three buffering modes. Signals raised inside every output call.";
	mc::config.assumptions = {"kernel sockets, stdio and libevent behave as documented", "signals arrive at the program's system and library calls, not between arbitrary instructions"};
	std::vector<Act> one = {{0, 0}, {1, 0}, {2, 0}, {3, 0}, {5, 0}};
	std::vector<Act> spl = {{0, 0}, {1, 0}, {2, 0}, {4, 9}, {4, 10}, {4, 1}, {5, 0}, {4, -20}};
	std::vector<Act> two = {{0, 0}, {0, 1}, {1, 0}, {1, 1}, {2, 0}, {3, 0}};
	std::vector<Act> two_spl = {{0, 0}, {5, 1}, {1, 0}, {2, 0}, {3, 0}, {4, 10}};
	for (int s : {SIGTERM, SIGINT}) {
		B n = s == SIGTERM ? "" : " SIGINT";
		mc::scenario("one file" + n, [=] { histories(one, t ? 8 : 6, 0, false, false, 1, s); });
		mc::scenario("split" + n, [=] { histories(spl, t ? 6 : s == SIGINT ? 3 : 4, 10, true, false, 1, s); });
	}
	mc::scenario("frames of one size", [=] { histories({{0, 0}, {2, 0}, {3, 0}}, t ? 10 : 7, 0, false, false, 1, SIGTERM, true); });
	mc::scenario("two clients", [=] { histories(two, t ? 7 : 5, 0, false, false, 2, SIGTERM); });
	mc::scenario("two clients, split", [=] { histories(two_spl, t ? 6 : 4, 10, true, false, 2, SIGTERM); });
	mc::scenario("split by 1", [=] { histories({{0, 0}, {5, 0}, {4, 1}, {2, 0}}, t ? 8 : 5, 1, true, false, 1, SIGTERM); });
	mc::scenario("strftime without split", [=] { histories({{0, 0}, {4, 1}, {2, 0}, {3, 0}}, t ? 7 : 5, 0, true, false, 1, SIGTERM); });
	mc::scenario("standard output", [=] { histories(one, t ? 6 : 4, 0, false, true, 1, SIGTERM); });
	for (int k = 0; k < 3; k++)
		for (bool f : {false, true}) if (k < 2 || f) mc::scenario(B(k == 0 ? "many rotations" : k == 1 ? "many flushes" : "many splits") + (f ? ", named by the time" : ""), [=] { patience(300, k, f); });
	for (int b = 0; b < 3; b++) {
		static const char *bn[] = {"", " unbuffered", " small buffer"};
		for (int k = 0; k < 4; k++) {
			static const char *kn[] = {"device full", "one write fails", "close fails", "open fails"};
			mc::scenario(B(kn[k]) + bn[b], [=] { faulty(k, b, 5); }, 0, true);
		}
		for (int k = 0; k < 2; k++) mc::scenario(B(k ? "one large write fails" : "device full, large") + bn[b], [=] { faulty(k, b, 4200); }, 0, true);
	}
	for (int s : {SIGUSR1, SIGHUP, SIGTERM}) mc::scenario(B("signal anywhere: ") + strsignal(s), [=] { signal_anywhere(s); });
}
