// C26: fstrm_capture obeys signals whenever they arrive.
#include "capture.hpp"
#include <ctime>
#include <event2/event.h>
const char *mc_property = "C26";

// ---- instants: around every call of the system, stdio and malloc's family that the program and libevent make ----
static unsigned point, polls_after;
static int kinds;                       // how many of SIG can arrive
static const int SIG[] = {SIGTERM, SIGINT, SIGHUP, SIGUSR1};
static bool only_mild;                  // only the last two
static std::vector<int> fired;
static bool serving, in_handler, in_malloc, flood, closed; // closed: the output file
static size_t written, visible;         // bytes given to the output file; those a SIGHUP that was received covers
static unsigned archives, rotations;
static B archive(unsigned i) { return mc::scratch() + "/old-" + std::to_string(i); }
static bool split;
static bool ending() { for (int s : fired) if (s == SIGTERM || s == SIGINT) return true; return false; }
static std::vector<B> names; // of the output files, in the order they were opened
static size_t opened;           // how many, when the last SIGUSR1 arrived
// no name is used twice
static void move_away(const B &p)
{
	if (exists(p)) {
		rename(p.c_str(), archive(archives).c_str());
		for (auto &x : names) if (x == p) x = archive(archives);
		archives++;
	}
	names.push_back(p);
}
static bool output(const B &p) { return p.compare(0, outp.size(), outp) == 0 || (split && p.find("/out-") != B::npos); }
static B split_name(int i)
{
	time_t t = 1000000000 + i * 10;
	struct tm tm;
	gmtime_r(&t, &tm);
	char b[100];
	strftime(b, sizeof b, "%s", &tm);
	return mc::scratch() + "/out-" + b;
}
static void fire(int sig)
{
	if (sig == SIGUSR1) { rotations++; opened = names.size(); }
	if (sig == SIGHUP && !rotations) visible = written;
	fired.push_back(sig);
	mc::note("signal %d (%s) at instant %u", sig, strsignal(sig), point);
	in_handler = true;
	raise(sig);
	in_handler = false;
}
static void at_point()
{
	if (!serving || in_handler) return;
	point++;
	if (!mc::deviations_left()) return;
	int k = mc::deviate((only_mild ? 2 : kinds) + 1, "signal");
	if (k) fire(SIG[k - 1 + (only_mild ? 2 : 0)]);
}
static void h_alloc()
{
	if (in_handler) {
		CHECK(!in_malloc, "a signal handler that interrupted malloc calls it again");
		return;
	}
	in_malloc = true;
	at_point();
	in_malloc = false;
}
extern "C" {
void *vp_malloc(size_t);
void *vp_realloc(void *, size_t);
void vp_free(void *);
#define AROUND(call) do { at_point(); ssize_t r = syscall call; int e = errno; at_point(); errno = e; return r; } while (0)
ssize_t readv(int fd, const struct iovec *v, int n) { AROUND((SYS_readv, fd, v, n)); }
ssize_t writev(int fd, const struct iovec *v, int n) { AROUND((SYS_writev, fd, v, n)); }
int accept4(int fd, struct sockaddr *a, socklen_t *l, int f) { AROUND((SYS_accept4, fd, a, l, f)); }
int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) { AROUND((SYS_epoll_ctl, ep, op, fd, ev)); }
}
static size_t h_fwrite(const void *p, size_t a, size_t b, FILE *f) { at_point(); size_t r = fwrite(p, a, b, f); written += a * r; at_point(); return r; }
static int h_fflush(FILE *f) { at_point(); int r = fflush(f); at_point(); return r; }
static int h_fclose(FILE *f) { at_point(); int r = fclose(f); closed = true; at_point(); return r; }
static int h_open(const char *p, int fl, unsigned m) { at_point(); if (output(p)) move_away(p); int r = open(p, fl, m); closed = false; at_point(); return r; }
static FILE *h_fopen(const char *p, const char *m) { at_point(); if (output(p)) move_away(p); FILE *r = fopen(p, m); closed = false; at_point(); return r; }
static time_t vt;
static time_t h_time(time_t *t) { at_point(); if (t) *t = vt; return vt; }

static int hook26(int ep, void *v, int n, int timeout)
{
	cur_ep = ep;
	serving = true;
	CHECK(prog::polls < 20000, "the program keeps polling without getting anywhere");
	if (flood && ending()) for (auto &c : C) if (!c.hup && !c.shut && c.m.st == RD_DATA && c.out.size() < 20000) {
		B f = frame(pay(c.id, 1000, 9));
		c.m.feed(f);
		c.out += f;
		push(c);
	}
	if (ending()) {
		polls_after++;
		CHECK(polls_after < 60, "it is still running after waiting %u times since the signal to end", polls_after);
	}
	if (pend_sig) { int s = pend_sig; pend_sig = 0; fire(s); return -2; }
	struct epoll_event *e = (struct epoll_event *)v;
	at_point(); // handled before it goes to sleep
	n = syscall(SYS_epoll_wait, ep, e, 16, 0);
	if (n > 0) { at_point(); return n; }
	size_t before = fired.size();
	at_point(); // while it sleeps
	if (fired.size() != before) { errno = EINTR; return -2; }
	if (timeout >= 0) return 0;
	return -1;
}
static size_t limit;
// lets the program do all it can do
static void quiet()
{
	if (!prog::running()) return;
	std::vector<size_t> must;
	for (auto &c : C) must.push_back(c.must);
	if (flood && ending()) { // never settles
		budget = -1;
		for (int i = 0; i < 6 && prog::running(); i++) { prog::resume(); for (auto &c : C) drain(c); }
	} else settle();
	// what arrived while it was ending need not be recorded
	if (ending() || flood) for (size_t i = 0; i < C.size(); i++) C[i].must = must[i];
	// nor what it has not accepted yet
	if (limit) for (size_t i = limit; i < C.size(); i++) if (!C[0].hup) C[i].must = 0;
}
static void say(int i, const B &b) { if (!ending()) { tell(i, b); quiet(); } }
static int join_() { if (ending()) return -1; int c = connect_client(); return c; }
static const char *SCRIPT[] = {"nobody", "a silent client", "a whole stream", "half a frame", "two clients", "one waits for the other", "an oversized frame",
	"the split interval passes", "protocol errors", "a client that hangs up", "a split file without data", "a long frame"};
enum { NSCRIPTS = 12 };
static void script(int k)
{
	int a, b;
	switch (k) {
	case 0: break;
	case 1: if ((a = join_()) >= 0) quiet(); break;
	case 2: if ((a = join_()) < 0) return; say(a, hello()); say(a, begin()); say(a, frame(pay(a, 5, 1))); say(a, ctl(STOP)); break;
	case 3: if ((a = join_()) < 0) return; say(a, hello() + begin() + frame(pay(a, 5, 1)) + frame(pay(a, 50, 2)).substr(0, 20)); break;
	case 4:
		if ((a = join_()) < 0 || (b = join_()) < 0) return;
		say(a, hello() + begin());
		say(b, hello() + begin() + frame(pay(b, 7, 1)));
		say(a, frame(pay(a, 5, 1)) + frame(pay(a, 6, 2)));
		say(b, ctl(STOP));
		break;
	case 5: // connection limit of 1
		if ((a = join_()) < 0) return;
		say(a, hello() + begin());
		if ((b = join_()) < 0) return;
		say(b, hello() + begin() + frame(pay(b, 4, 1)));
		say(a, frame(pay(a, 4, 2)));
		if (!ending()) { hang_up(a); quiet(); }
		break;
	case 6:
		if ((a = join_()) < 0) return;
		say(a, hello() + begin() + be32(100000) + data(5000, 1));
		say(a, data(5000, 2));
		break;
	case 7:
		if ((a = join_()) < 0) return;
		say(a, hello() + begin() + frame(pay(a, 4, 1)));
		vt += 10;
		say(a, frame(pay(a, 5, 2)));
		break;
	case 8:
		if ((a = join_()) < 0) return;
		say(a, hello() + hello());
		if ((b = join_()) < 0) return;
		say(b, frame("x"));
		break;
	case 9:
		if ((a = join_()) < 0) return;
		say(a, hello() + begin() + frame(pay(a, 4, 1)));
		if (!ending()) { hang_up(a); quiet(); }
		break;
	case 10: if ((a = join_()) < 0) return; say(a, hello() + begin()); break;
	case 11: if ((a = join_()) < 0) return; say(a, hello() + begin()); say(a, frame(pay(a, 9000, 3))); break;
	}
}
static prog::Args extra(int k)
{
	limit = 0;
	if (k == 5) { limit = 1; return {"-c", "1"}; }
	if (k == 6) return {"-b", "3000"};
	if (split) { outp = mc::scratch() + "/out-%s"; return {"-s", "10", "--gmtime"}; }
	return {};
}
static std::vector<B> recorded()
{
	std::vector<B> f;
	for (auto &n : names) {
		std::vector<B> g = parse(slurp(n), split ? "an output file" : "the output");
		f.insert(f.end(), g.begin(), g.end());
	}
	return f;
}
static void clean()
{
	for (unsigned i = 0; i < archives; i++) unlink(archive(i).c_str());
	for (int i = 0; i < 3; i++) unlink(split_name(i).c_str());
	for (auto &c : C) if (c.fd >= 0) { close(c.fd); c.fd = -1; }
}
static void explore(int k, int n_kinds, bool mild, bool fl)
{
	archives = 8;
	reset();
	clean();
	names.clear();
	prog::poll_hook = hook26;
	fired.clear();
	kinds = n_kinds;
	only_mild = mild;
	flood = fl;
	point = polls_after = archives = rotations = 0;
	opened = 0;
	written = visible = 0;
	serving = in_handler = in_malloc = closed = false;
	split = k == 7 || k == 10;
	vt = 1000000000;
	env::h.alloc = h_alloc;
	env::h.fwrite = h_fwrite;
	env::h.fflush = h_fflush;
	env::h.fclose = h_fclose;
	env::h.open = h_open;
	env::h.fopen = h_fopen;
	env::h.time = h_time;
	prog::Args x = extra(k), a = base_args();
	a.insert(a.end(), x.begin(), x.end());
	for (size_t i = 0; i + 1 < a.size(); i++) if (a[i] == "-b") highwater = atoi(a[i + 1].c_str());
	prog::start(a);
	CHECK(prog::running() || ending(), "fstrm_capture does not start: exit status %d", prog::code);
	quiet();
	script(k);
	quiet();
	if (!ending()) {
		CHECK(prog::running(), "it ended with status %d, without having been told to", prog::code);
		if (rotations) CHECK(names.size() > opened, "SIGUSR1 was received, but no new file was opened since");
		else if (!split) CHECK(slurp(outp).size() >= visible, "after SIGHUP the file has %zu bytes; %zu had been written before", slurp(outp).size(), visible);
		if (rotations == 1 && !fl) { // another one, in the same second
			signal_(SIGUSR1);
			quiet();
			CHECK(names.size() > opened, "SIGUSR1 was received a second time, but no new file was opened since");
		}
		signal_(SIGTERM);
		prog::resume();
	}
	// nobody does anything any more
	serving = false;
	for (int i = 0; i < (fl ? 60 : 3) && prog::running(); i++) { prog::resume(); for (auto &c : C) drain(c); }
	CHECK(!prog::running(), "%s was received, but the program goes on waiting for events", strsignal(fired.back()));
	CHECK(prog::code == 0, "it ends with status %d", prog::code);
	std::vector<B> f = recorded();
	compare(f, false);
	for (auto &c : C) CHECK(is_prefix(c.got, c.m.replies), "connection %d was sent %s, expected %s", c.id, hex(c.got, 80).c_str(), hex(c.m.replies, 80).c_str());
	B o;
	for (int s : fired) o += strsignal(s) + B(", ");
	mc::outcome(o + std::to_string(f.size()) + " frames, " + std::to_string(archives) + " archived");
	mc::steps(point);
	uint64_t h = k;
	for (int s : fired) h = mc::mix(h, s);
	for (auto &c : C) h = mc::mix(mc::hash(c.got, h), c.eof);
	mc::state(mc::mix(mc::mix(f.size(), point), h));
	clean();
}
void mc_setup()
{
	event_set_mem_functions(vp_malloc, vp_realloc, vp_free);
	mc::config.note = "twelve histories of clients; SIGTERM, SIGINT, SIGHUP and SIGUSR1, alone (all histories) and in pairs, each at every instant of a run: "
		"before and after every call of epoll_wait, epoll_ctl, accept4, readv, writev, time, open, fwrite, fflush, fclose and before every call of malloc's family, "
		"made by the program or by libevent, and while it sleeps; afterwards clients pause for ever, or never";
	mc::config.assumptions = {"signals arriving before the program first waits for events, or after it has closed its output to end, are not judged",
		"instants between two consecutive such calls are equivalent"};
	bool t = mc::thorough();
	for (int k = 0; k < NSCRIPTS; k++) {
		B s = SCRIPT[k];
		mc::scenario("one signal, " + s, [=] { explore(k, 4, false, false); }, 1);
		if (k >= 2 && k != 8) mc::scenario("one signal, clients never pause, " + s, [=] { explore(k, 2, false, true); }, 1);
	}
	for (int k = 0; k < NSCRIPTS; k++) {
		B s = SCRIPT[k];
		if (t || k < 3 || k == 7) mc::scenario("two signals, " + s, [=] { explore(k, 4, false, false); }, 2);
		if (t) mc::scenario("two signals, clients never pause, " + s, [=] { explore(k, 4, false, true); }, 2);
		if (t && k < 2) mc::scenario("three signals, " + s, [=] { explore(k, 4, false, false); }, 3);
	}
}
