// C27: fstrm_capture does what its command line says, or refuses it and leaves everything alone.
#include "capture.hpp"
#include "cmdline.hpp"
#include <arpa/inet.h>
#include <dirent.h>
const char *mc_property = "C27";

// ---- where it listens is written down; addresses that this machine lacks are replaced by the loopback one ----
static int binds;
static sockaddr_storage bound;
static socklen_t bound_len;
static bool tty;
extern "C" int socket(int d, int t, int p) throw() { return syscall(SYS_socket, d == AF_INET6 ? AF_INET : d, t, p); }
extern "C" int bind(int fd, const struct sockaddr *a, socklen_t l) throw()
{
	binds++;
	memset(&bound, 0, sizeof bound);
	memcpy(&bound, a, std::min((size_t)l, sizeof bound));
	bound_len = l;
	if (a->sa_family == AF_UNIX) return syscall(SYS_bind, fd, a, l);
	struct sockaddr_in s;
	memset(&s, 0, sizeof s);
	s.sin_family = AF_INET;
	s.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	return syscall(SYS_bind, fd, (struct sockaddr *)&s, sizeof s);
}
extern "C" int vp_isatty(int) { return tty; }

static const std::vector<cmd::Opt> opts = {
	{'h', "help", cmd::FLAG}, {'d', "debug", cmd::FLAG}, {'t', "type", cmd::STRING}, {'u', "unix", cmd::STRING}, {'a', "tcp", cmd::STRING}, {'p', "port", cmd::STRING},
	{'b', "buffersize", cmd::NUMBER}, {'c', "maxconns", cmd::NUMBER}, {'w', "write", cmd::STRING}, {'s', "split", cmd::NUMBER}, {0, "localtime", cmd::FLAG}, {0, "gmtime", cmd::FLAG},
};
enum Want { SERVE, FAIL, NOTHING, ANY, TROUBLE }; // TROUBLE: it fails, but not because of the command line alone
struct Cfg {
	B ct, un, addr, port, write;
	uint16_t pn = 0;
	long b = 262144, c = -1, split = 0;
	int cal = 0; // 1 gmtime, 2 localtime
};
static time_t vt;
static bool thorough_probe; // frames as large as the buffer too, however large it is
static Want judge(const cmd::Line &l, Cfg &c)
{
	if (l.v == cmd::HELP) return NOTHING;
	if (l.v == cmd::REFUSED) return FAIL;
	bool open = l.v == cmd::OPEN;
	if (!l.has("type") || !l.has("write") || (!l.has("unix") && !l.has("tcp"))) return open ? ANY : FAIL;
	if (l.has("tcp") && !l.has("port")) return open ? ANY : FAIL;
	if (open) return ANY;
	c.ct = l.get("type"); c.un = l.get("unix"); c.addr = l.get("tcp"); c.port = l.get("port"); c.write = l.get("write");
	if (l.has("buffersize") && (!cmd::plain(l.get("buffersize"), &c.b) || c.b < 64)) return ANY;
	if (l.has("maxconns") && !cmd::plain(l.get("maxconns"), &c.c)) return ANY;
	if (l.has("split") && (!cmd::plain(l.get("split"), &c.split) || c.split > 1000000)) return ANY;
	if (c.write == "-" && (tty || l.has("split"))) return FAIL;
	if (l.has("localtime") && l.has("gmtime")) return FAIL;
	if (l.has("split") && !l.has("localtime") && !l.has("gmtime")) return FAIL;
	c.cal = l.has("gmtime") ? 1 : l.has("localtime") ? 2 : 0;
	if (l.has("unix") && l.has("tcp")) return ANY;
	if (l.has("unix")) {
		if (c.un.empty() || c.un == c.write) return ANY;
		if (c.un.size() > sizeof(sockaddr_un::sun_path) - 1) return FAIL;
	} else {
		in6_addr x;
		if (inet_pton(AF_INET, c.addr.c_str(), &x) != 1 && inet_pton(AF_INET6, c.addr.c_str(), &x) != 1) return FAIL;
		int k = cmd::port(c.port, &c.pn);
		if (k) return k == 1 ? FAIL : ANY;
	}
	if (c.write.empty() || c.ct.empty()) return ANY;
	if (c.ct.size() > 256) return TROUBLE;
	for (const B &p : {c.un, c.write}) {
		struct stat st;
		if (stat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) return TROUBLE;
		size_t k = p.rfind('/');
		if (k != B::npos && k && stat(p.substr(0, k).c_str(), &st) < 0) return TROUBLE;
	}
	return SERVE;
}
static B name_at(const Cfg &c, time_t t)
{
	if (!c.cal) return c.write;
	struct tm tm;
	if (c.cal == 1) gmtime_r(&t, &tm);
	else localtime_r(&t, &tm);
	char b[1024];
	b[strftime(b, sizeof b, c.write.c_str(), &tm)] = 0;
	return b;
}
// ---- the directory everything happens in ----
static std::map<B, B> listing()
{
	std::map<B, B> m;
	DIR *d = opendir(".");
	while (struct dirent *e = readdir(d)) {
		if (e->d_name[0] == '.') continue;
		struct stat st;
		if (lstat(e->d_name, &st) < 0) continue;
		m[e->d_name] = S_ISREG(st.st_mode) ? slurp(e->d_name) : S_ISDIR(st.st_mode) ? "(directory)" : "(socket)";
	}
	closedir(d);
	return m;
}
static void spit(const B &p, const B &s)
{
	int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t)s.size()) abort();
	close(fd);
}
static FILE *mem;
static char *mem_p;
static size_t mem_n;
static void fresh()
{
	reset();
	if (chdir(mc::scratch().c_str())) abort();
	for (auto &x : listing()) {
		if (x.second == "(directory)") rmdir(x.first.c_str());
		else unlink(x.first.c_str());
	}
	spit("S", "something else\n");
	spit("O", "what was there before\n");
	mkdir("D", 0755);
	if (mem) { fclose(mem); free(mem_p); }
	mem = open_memstream(&mem_p, &mem_n);
	prog::out = mem;
	tty = false;
	vt = 1700000000;
	env::h.fclose = [](FILE *f) { return f == mem ? fflush(f) : fclose(f); };
	env::h.time = [](time_t *t) { if (t) *t = vt; return vt; };
	binds = 0;
	thorough_probe = false;
}
static B text(const B &p)
{
	if (p == "-") { fflush(mem); return B(mem_p, mem_n); }
	return slurp(p);
}
static B show(const prog::Args &a)
{
	B s;
	for (size_t i = 1; i < a.size(); i++) s += (i > 1 ? " " : "") + (a[i].size() > 40 ? a[i].substr(0, 37) + "..." : a[i]);
	return s;
}
static Client &join(const Cfg &g)
{
	Client &c = C[connect_client()];
	c.m.ct = g.ct;
	c.m.highwater = g.b;
	return c;
}
// it runs: does it do what it was told to?
static void probe(const Cfg &g, const char *cl)
{
	CHECK(binds == 1, "%s: it listens %d times", cl, binds);
	tcp = g.un.empty();
	if (!tcp) {
		auto *u = (sockaddr_un *)&bound;
		B p(u->sun_path, bound_len - offsetof(sockaddr_un, sun_path));
		while (!p.empty() && !p.back()) p.pop_back();
		CHECK(bound.ss_family == AF_UNIX && p == g.un, "%s: it listens on %s", cl, p.c_str());
		sock = g.un;
	} else {
		in_addr a;
		in6_addr a6;
		if (inet_pton(AF_INET, g.addr.c_str(), &a) == 1) {
			auto *i = (sockaddr_in *)&bound;
			CHECK(bound.ss_family == AF_INET && !memcmp(&i->sin_addr, &a, 4) && ntohs(i->sin_port) == g.pn, "%s: it listens on another address or port (%u)", cl, ntohs(i->sin_port));
		} else {
			inet_pton(AF_INET6, g.addr.c_str(), &a6);
			auto *i = (sockaddr_in6 *)&bound;
			CHECK(bound.ss_family == AF_INET6 && !memcmp(&i->sin6_addr, &a6, 16) && ntohs(i->sin6_port) == g.pn, "%s: it listens on another address or port", cl);
		}
		for (int i = 3; i < 96; i++) {
			int on = 0;
			socklen_t l = sizeof on;
			struct sockaddr_in s;
			if (getsockopt(i, SOL_SOCKET, SO_ACCEPTCONN, &on, &l) == 0 && on) {
				l = sizeof s;
				getsockname(i, (struct sockaddr *)&s, &l);
				port = ntohs(s.sin_port);
			}
		}
	}
	B n0 = name_at(g, vt), head = ctl(START, {g.ct});
	CHECK(text(n0) == head, "%s: the output %s contains %s", cl, n0.c_str(), hex(text(n0), 60).c_str());
	// another content type
	int w = join(g).id;
	tell(w, ctl(READY, {g.ct + "x"}));
	settle();
	check_replies();
	CHECK(C[w].eof, "%s: a client with another content type is served", cl);
	// buffer size
	int c = join(g).id;
	tell(c, ctl(READY, {g.ct}) + ctl(START, {g.ct}) + frame(pay(c, 5, 1)));
	if (g.b <= 20000 || thorough_probe) tell(c, frame(pay(c, g.b - 3, 2)) + frame(pay(c, g.b - 4, 3)) + frame(pay(c, g.b - 3, 4)));
	settle();
	check_replies();
	CHECK(C[c].got == ctl(ACCEPT, {g.ct}), "%s: a client was sent %s", cl, hex(C[c].got, 60).c_str());
	// connections
	long more = std::min(g.c < 0 ? 99 : g.c, 3L), served = 0;
	for (long i = 0; i < more; i++) {
		int k = join(g).id;
		tell(k, ctl(READY, {g.ct}));
		settle();
		if (!C[k].got.empty()) served++;
	}
	long limit = g.c < 0 ? more : std::min(more, g.c - 1);
	CHECK(served == limit, "%s: %ld connections are served at a time", cl, served + 1);
	// rotation
	std::vector<B> names = {n0};
	if (g.cal) {
		vt += g.split ? g.split - 1 : 500000;
		tell(c, frame(pay(c, 6, 5)));
		settle();
		if (name_at(g, vt) != n0) CHECK(!exists(name_at(g, vt)), "%s: a new output file too early", cl);
		if (g.split) {
			vt += g.split + 2;
			B n1 = name_at(g, vt);
			tell(c, frame(pay(c, 7, 6)));
			settle();
			if (n1 != n0) {
				CHECK(exists(n1), "%s: no new output file", cl);
				names.push_back(n1);
			} else names.clear();
		}
	}
	tell(c, ctl(STOP));
	settle();
	CHECK(C[c].got == ctl(ACCEPT, {g.ct}) + ctl(FINISH), "%s: a client was sent %s", cl, hex(C[c].got, 60).c_str());
	terminate();
	CHECK(prog::code == 0, "%s: exit status %d", cl, prog::code);
	B all;
	for (auto &n : names) {
		B s = text(n);
		CHECK(s.compare(0, head.size(), head) == 0 && s.size() >= head.size() + 12 && s.substr(s.size() - 12) == ctl(STOP), "%s: the output %s (%zu bytes) is not complete", cl, n.c_str(), s.size());
		all += s.substr(head.size(), s.size() - head.size() - 12);
	}
	B e;
	for (auto &x : seq) e += frame(x);
	if (!names.empty()) CHECK(all == e, "%s: %zu bytes of frames are recorded, %zu were sent (buffer size %ld)", cl, all.size(), e.size(), g.b);
	if (g.write == "-") CHECK(!exists("-"), "%s: a file named -", cl);
}
static Want run(const prog::Args &rest)
{
	prog::Args a = {"fstrm_capture"};
	a.insert(a.end(), rest.begin(), rest.end());
	B cl = show(a);
	mc::note("%s", cl.c_str());
	cmd::Line l = cmd::read(opts, a);
	Cfg g;
	Want w = judge(l, g);
	auto before = listing();
	prog::start(a);
	bool up = prog::running() && !prog::called_exit;
	mc::steps(a.size());
	static const char *name[] = {"serves", "refused", "informs", "open", "fails"};
	uint64_t h = w;
	for (auto &x : l.val) h = mc::mix(mc::hash(x.first, h), x.second.size() + 100 * mc::hash(x.second.empty() ? B() : x.second.back()));
	mc::state(h);
	mc::outcome(name[w]);
	if (w == SERVE) {
		CHECK(up, "refused (status %d): %s", prog::code, cl.c_str());
		probe(g, cl.c_str());
		return w;
	}
	if (w == ANY) {
		if (up) terminate();
		return w;
	}
	CHECK(!up, "not refused: %s", cl.c_str());
	if (w != NOTHING) CHECK(prog::code != 0, "%s: exit status 0", cl.c_str());
	if (w == TROUBLE) return w;
	CHECK(!binds, "it listens: %s", cl.c_str());
	CHECK(text("-").empty(), "it writes to its standard output: %s", cl.c_str());
	auto after = listing();
	if (before != after) {
		for (auto &x : before) CHECK(after.count(x.first) && after[x.first] == x.second, "%s was %s: %s", x.first.c_str(), after.count(x.first) ? "changed" : "removed", cl.c_str());
		for (auto &x : after) CHECK(before.count(x.first), "%s was created: %s", x.first.c_str(), cl.c_str());
	}
	return w;
}
// which options there are
static void subsets(bool is_tty, const B &out)
{
	fresh();
	tty = is_tty;
	prog::Args a;
	auto opt = [&](const char *n, prog::Args x) { if (mc::choose(2, n)) a.insert(a.end(), x.begin(), x.end()); };
	opt("type", {"-t", "ty"});
	opt("unix", {"-u", "S"});
	opt("tcp", {"-a", "127.0.0.1"});
	opt("port", {"-p", "0"});
	opt("write", {"-w", out});
	opt("split", {"-s", "60"});
	opt("gmtime", {"--gmtime"});
	opt("localtime", {"--localtime"});
	opt("buffersize", {"-b", "600"});
	opt("maxconns", {"-c", "2"});
	opt("debug", {"-d"});
	opt("help", {"-h"});
	run(a);
}
// how each of them is written
static void spellings(bool on_tcp, bool longer)
{
	fresh();
	prog::Args a, late;
	auto opt = [&](char s, const char *l, const char *abbr, const B &v) {
		switch (mc::choose(longer ? 5 : 4, l)) {
		case 0: a.push_back(B("-") + s); a.push_back(v); break;
		case 1: a.push_back(B("--") + l + "=" + v); break;
		case 2: a.push_back(B("--") + abbr); a.push_back(v); break;
		case 3: a.push_back(B("-") + s + "=" + v); break;
		case 4: a.push_back(B("--") + l); a.push_back(v); break;
		}
	};
	opt('t', "type", "ty", "a=b");
	if (on_tcp) { opt('a', "tcp", "tc", "::1"); opt('p', "port", "p", "8053"); }
	else opt('u', "unix", "u", "./S");
	opt('w', "write", "wri", "O.%H%M%S=");
	opt('b', "buffersize", "buf", "128");
	opt('s', "split", "s", "3601");
	if (!on_tcp) opt('c', "maxconns", "m", "1");
	a.push_back(mc::choose(2, "abbreviated") ? "--g" : "--gmtime");
	CHECK(run(a) == SERVE, "the harness wrote a command line that is not accepted");
}
// options first and values later, in every order
static void orders(int n)
{
	fresh();
	struct O { const char *o; B v; };
	std::vector<O> all = {{"-t", "ty"}, {"-u", "S"}, {"-w", "O"}, {"-b", "600"}, {"-c", "2"}, {"-d", ""}, {"--local", ""}};
	all.resize(n);
	prog::Args a;
	std::vector<B> due;
	size_t at = 0;
	while (!all.empty() || at < due.size()) {
		int k = mc::choose(all.size() + (at < due.size()), "next");
		if (k == (int)all.size()) { a.push_back(due[at++]); continue; }
		a.push_back(all[k].o);
		if (!all[k].v.empty()) due.push_back(all[k].v);
		all.erase(all.begin() + k);
	}
	CHECK(run(a) == SERVE, "the harness wrote a command line that is not accepted");
}
// every sequence of tokens
static void tokens(const std::vector<B> &al, int n, prog::Args a, bool after)
{
	fresh();
	prog::Args x;
	for (int i = 0; i < n; i++) {
		int k = mc::choose(al.size() + 1, "token");
		if (k == 0) break;
		x.push_back(al[k - 1]);
	}
	if (after) x.insert(x.begin(), a.begin(), a.end());
	else x.insert(x.end(), a.begin(), a.end());
	run(x);
}
static void ports()
{
	fresh();
	static const std::vector<B> ad = {"127.0.0.1", "0.0.0.0", "192.0.2.77", "255.255.255.255", "::1", "::", "2001:db8::1", "::ffff:1.2.3.4", "", "localhost", "127.0.0", "127.0.0.256", "1.2.3.4.5", " 127.0.0.1", "127.0.0.1 ", "::g", "1:2:3", "[::1]", "127.0.0.1:53"};
	static const std::vector<B> pt = {"0", "1", "80", "255", "256", "257", "1024", "32767", "32768", "65534", "65535", "65536", "65537", "65616", "131072", "99999", "4294967296", "4294967376", "18446744073709551615", "18446744073709551696", "99999999999999999999", "-1", "80x", "x80", "x", "8 0", "80 ", "http", "1.5", "1e3", "80,81"};
	const B &x = ad[mc::choose(ad.size(), "address")], &y = pt[mc::choose(pt.size(), "port")];
	if (mc::choose(2, "spelling")) run({"-t", "ty", "-w", "O", "--tcp=" + x, "--port=" + y});
	else run({"-t", "ty", "-w", "O", "-a", x, "-p", y});
}
static void sizes()
{
	fresh();
	static const std::vector<B> bs = {"64", "65", "100", "511", "512", "1024", "4096", "10000", "65536", "100000", "262143", "262144", "262145", "1000000", ""};
	static const std::vector<B> cs = {"1", "2", "3", "4", "1000", "100000000", ""};
	const B &b = bs[mc::choose(bs.size(), "size")], &c = cs[mc::choose(cs.size(), "connections")];
	prog::Args a = {"-t", "ty", "-u", "S", "-w", "O"};
	if (!b.empty()) { a.push_back("-b"); a.push_back(b); }
	if (!c.empty()) { a.push_back("-c"); a.push_back(c); }
	thorough_probe = c == "2" || c.empty();
	CHECK(run(a) == SERVE, "the harness wrote a command line that is not accepted");
}
static void large_sizes()
{
	fresh();
	static const std::vector<B> bs = {"1048576", "4194304", "16777215", "16777216", "16777217"};
	thorough_probe = true;
	CHECK(run({"-t", "ty", "-u", "S", "-w", "O", "-b", bs[mc::choose(bs.size(), "size")]}) == SERVE, "the harness wrote a command line that is not accepted");
}
static void paths()
{
	fresh();
	size_t n = 90 + mc::choose(40, "length");
	B p;
	while (p.size() + 3 < n) p += "./";
	B q = p + B(n - p.size(), 'S');
	int kind = mc::choose(5, "kind");
	B un = q, w = "O";
	if (kind == 1) { un = "D/none/S"; w = "O"; }
	if (kind == 2) { un = "S"; w = "D/none/O"; }
	if (kind == 3) { un = "S"; w = "D"; }
	if (kind == 4) { un = "S"; w = "D/" + B(n, 'o'); }
	if (kind && kind < 4 && n > 90) mc::prune();
	run({"-t", "ty", "-u", un, "-w", w});
	if (kind == 4) unlink(w.c_str());
}
// every byte in the name of the socket and of the output
static void odd_names()
{
	fresh();
	int c = 1 + mc::choose(255, "byte"), where = mc::choose(3, "where");
	if (c == '/') mc::prune();
	B x = where == 0 ? B(1, c) + "s" : where == 1 ? "D/s" + B(1, c) : "s" + B(1, c) + "s";
	B y = where == 0 ? B(1, c) + "o" : where == 1 ? "D/o" + B(1, c) : "o" + B(1, c) + "o";
	if (mc::choose(2, "which")) run({"-t", "ty", "--unix=" + x, "-w", "O"});
	else run({"-t", "ty", "-u", "S", "--write=" + y});
	unlink(x.c_str());
	unlink(y.c_str());
}
// every byte in the content type
static void odd_types()
{
	fresh();
	int c = 1 + mc::choose(255, "byte"), where = mc::choose(4, "where");
	run({"--type=" + (where == 0 ? B(1, c) : where == 1 ? B(1, c) + "t" : where == 2 ? "t" + B(1, c) : "t" + B(1, c) + "t"), "-u", "S", "-w", "O"});
}
static void types()
{
	fresh();
	static const std::vector<size_t> ln = {1, 2, 127, 128, 254, 255, 256, 257, 258, 300, 511, 512, 513, 600, 5000};
	B t = data(ln[mc::choose(ln.size(), "length")], mc::choose(4, "bytes") * 77);
	for (char &c : t) if (!c) c = 1;
	run({"--type=" + t, "-u", "S", "-w", "O"});
}
static void names()
{
	fresh();
	static const std::vector<B> v = {"%Y%m%d-%H%M%S", "%F_%T", "O", "%%", "x%%y", "%s", "%j.%U", "%n", "O%", "-%H%M%S", "--", "%H%M%S-", "a b%S%M%H", "D/%T", "%Y%m%d%H%M%S%j%Y%m%d%H%M%S%j%Y%m%d%H%M%S%j%Y%m%d%H%M%S%j%Y%m%d%H%M%S%j", "%c,%c,%c,%c,%c,%c,%c", "%A%B%A%B%A%B%A%B%A%B%A%B"};
	const B &w = v[mc::choose(v.size(), "name")];
	static const std::vector<prog::Args> c = {{}, {"--gmtime"}, {"--localtime"}, {"--gmtime", "-s", "1"}, {"--localtime", "-s", "1"}, {"--gmtime", "-s", "3600"}, {"--localtime", "-s", "86400"}, {"--gmtime", "-s", "90061"}};
	prog::Args a = {"-t", "ty", "-u", "S", "--write=" + w}, x = c[mc::choose(c.size(), "calendar")];
	static const time_t ts[] = {1700000000, 1, 951782399, 1709164799, 4102444799, 1735689599};
	vt = ts[mc::choose(6, "time")];
	a.insert(a.end(), x.begin(), x.end());
	run(a);
	for (auto &d : {"D"}) {
		DIR *p = opendir(d);
		while (struct dirent *e = readdir(p)) if (e->d_name[0] != '.') unlink((B(d) + "/" + e->d_name).c_str());
		closedir(p);
	}
}
static void debug()
{
	fresh();
	prog::Args a = {"-t", "ty", "-u", "S", "-w", "O"};
	int n = mc::choose(9, "times");
	bool one = mc::choose(2, "joined");
	if (one && n) a.push_back("-" + B(n, 'd'));
	else for (int i = 0; i < n; i++) a.push_back(i & 1 ? "-d" : "--debug");
	CHECK(run(a) == SERVE, "the harness wrote a command line that is not accepted");
}
void mc_setup()
{
	bool t = mc::thorough();
	setenv("TZ", "XYZ-5:45", 1);
	unsetenv("ARGV_FSTRM_CAPTURE");
	unsetenv("GLOBAL_ARGV");
	tzset();
	mc::config.note = "fstrm_capture's own main(), its argument parser and the real libevent over every subset of the options, every spelling of each, every order of options and values, all sequences of tokens up to a depth, and the values at the limits; a refused command line must leave files, sockets and standard output alone and fail, and one that is accepted must be in force: address, port or path, content type, output name, buffer size, number of connections, rotation.";
	mc::config.assumptions = {"abbreviated, joined and '=' forms are those of the argument parser the programs use", "values that are not decimal numbers, repeated options and -u together with -a are not specified (only that they do not crash the program)", "bind() is redirected to the loopback address"};
	mc::scenario("subsets", [] { subsets(false, "O%H%M%S"); });
	mc::scenario("subsets, standard output", [] { subsets(false, "-"); });
	mc::scenario("subsets, terminal", [] { subsets(true, "-"); });
	mc::scenario("spellings, unix", [=] { spellings(false, t); });
	mc::scenario("spellings, tcp", [=] { spellings(true, t); });
	for (int n = 3; n <= (t ? 7 : 6); n++) mc::scenario("orders " + std::to_string(n), [=] { orders(n); });
	prog::Args base = {"-t", "ty", "-u", "S", "-w", "O"};
	std::vector<B> al = {"-d", "--", "-", "5", "-5", "x", "-x", "--bogus", "-b", "-bc", "--split", "--t", "--gmtime", "--loc", "--write=P", "-dw", "-s=9", "--=", "-?", "--version", "-", "--argv-display", "-=", "", "-h", "--max", "-tuwbctuw"};
	mc::scenario("tokens after", [=] { tokens(al, t ? 4 : 3, base, true); });
	mc::scenario("tokens before", [=] { tokens(al, t ? 3 : 2, base, false); });
	std::vector<B> small = {"-t", "-u", "-w", "S", "O", "-tu", "-d"};
	mc::scenario("few tokens", [=] { tokens(small, t ? 7 : 6, {}, true); });
	std::vector<B> file = {"-d", "--argv-file", "--argv-file=O", "-5", "5", "-b", "O", "x", "-twu"};
	mc::scenario("arguments from a file", [=] { tokens(file, t ? 5 : 4, base, true); });
	mc::scenario("beginnings of options", [] {
		fresh();
		cmd::prefixes(opts, {{"type", "ty"}, {"unix", "S"}, {"write", "O"}}, {{"type", "other"}, {"unix", "T"}, {"tcp", "::1"}, {"port", "99"}, {"buffersize", "800"}, {"maxconns", "1"}, {"write", "P"}, {"split", "60"}}, run);
	});
	mc::scenario("beginnings of options, with --gmtime", [] {
		fresh();
		cmd::prefixes(opts, {{"type", "ty"}, {"unix", "S"}, {"write", "O%S%M"}, {"gmtime", ""}}, {{"split", "60"}, {"write", "P%S%H"}}, run);
	});
	mc::scenario("ports", ports);
	mc::scenario("sizes", sizes);
	mc::scenario("large sizes", large_sizes);
	mc::scenario("paths", paths);
	mc::scenario("odd names", odd_names);
	mc::scenario("odd types", odd_types);
	mc::scenario("types", types);
	mc::scenario("names", names);
	mc::scenario("debug", debug);
}
