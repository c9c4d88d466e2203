// C28: fstrm_replay does what its command line says, or refuses it and connects to nothing.
#include "replay.hpp"
#include "cmdline.hpp"
const char *mc_property = "C28";

static const std::vector<cmd::Opt> opts = {
	{'h', "help", cmd::FLAG}, {'t', "type", cmd::STRING}, {'u', "unix", cmd::STRING}, {'a', "tcp", cmd::STRING}, {'p', "port", cmd::STRING}, {'r', "read-file", cmd::STRING, true},
};
enum Want { RUN, FAIL, NOTHING, ANY, TROUBLE };
struct Cfg { B ct, un, addr; uint16_t pn; L files; };
static int family, connects;
static sockaddr_storage peer;
static socklen_t peer_len;
static FILE *mem, *none;
static char *mem_p;
static size_t mem_n;
static Want judge(const cmd::Line &l, Cfg &c)
{
	if (l.v == cmd::HELP) return NOTHING;
	if (l.v == cmd::REFUSED) return FAIL;
	bool open = l.v == cmd::OPEN;
	bool un = l.has("unix"), tc = l.has("tcp");
	if (!l.has("type") || !l.has("read-file") || un == tc || (tc && !l.has("port"))) return open ? ANY : FAIL;
	if (open) return ANY;
	c.ct = l.get("type"); c.un = l.get("unix"); c.addr = l.get("tcp");
	c.files = l.val.at("read-file");
	if (un) {
		if (c.un.empty()) return ANY;
		if (c.un.size() > sizeof(sockaddr_un::sun_path) - 1) return FAIL;
	} else {
		in6_addr x;
		if (inet_pton(AF_INET, c.addr.c_str(), &x) != 1 && inet_pton(AF_INET6, c.addr.c_str(), &x) != 1) return FAIL;
		int k = cmd::port(l.get("port"), &c.pn);
		if (k) return k == 1 ? FAIL : ANY;
		if (!c.pn) return ANY;
	}
	if (c.ct.empty()) return ANY;
	if (c.ct.size() > 256) return TROUBLE;
	return RUN;
}
static B whole(const B &ct, const std::vector<B> &fr)
{
	B s = ctl(START, {ct});
	for (auto &f : fr) s += frame(f);
	return s + ctl(STOP);
}
static std::map<B, std::vector<B>> contents = {{"F", {"f1", "f2 longer"}}, {"G", {"g"}}, {"H", {}}, {"F=1", {"eq"}}, {"-x", {"dash"}}, {"--type", {"double dash", "x"}}};
static void fresh(const B &ct = "ty")
{
	if (chdir(mc::scratch().c_str())) abort();
	reset();
	static B written, where;
	if (written != ct || where != mc::scratch()) for (auto &x : contents) spit(x.first, whole(ct, x.second));
	written = ct;
	where = mc::scratch();
	net.reply = ctl(ACCEPT, {ct}) + ctl(FINISH);
	family = connects = 0;
	env::h.socket = [](int d, int t, int) { called(); CHECK((t & 0xf) == SOCK_STREAM, "a socket of type %d", t); family = d; net.sockets++; return net.fd = open("/dev/null", O_RDWR | O_CLOEXEC); };
	env::h.connect = [](int, const struct sockaddr *a, socklen_t l) { called(); connects++; memset(&peer, 0, sizeof peer); memcpy(&peer, a, std::min((size_t)l, sizeof peer)); peer_len = l; return 0; };
	env::h.fclose = [](FILE *f) { return f == mem ? fflush(f) : f == none ? 0 : fclose(f); };
	if (mem) { fclose(mem); free(mem_p); }
	mem = open_memstream(&mem_p, &mem_n);
	prog::out = mem;
	if (!none) none = fopen("/dev/null", "r");
	prog::in = none;
}
static B show(const prog::Args &a)
{
	B s;
	for (size_t i = 1; i < a.size(); i++) s += (i > 1 ? " " : "") + (a[i].size() > 40 ? a[i].substr(0, 37) + "..." : a[i]);
	return s;
}
static Want run(const prog::Args &rest)
{
	prog::Args a = {"fstrm_replay"};
	a.insert(a.end(), rest.begin(), rest.end());
	B text = show(a);
	const char *cl = text.c_str();
	mc::note("%s", cl);
	cmd::Line l = cmd::read(opts, a);
	Cfg g;
	Want w = judge(l, g);
	std::vector<bool> before;
	for (int i = 0; i < 96; i++) before.push_back(fcntl(i, F_GETFD) >= 0);
	prog::start(a);
	CHECK(!prog::running() || prog::called_exit, "it does not end: %s", cl);
	for (int i = 3; i < 96; i++) if (!before[i]) close(i);
	net.fd = -1;
	mc::steps(a.size());
	static const char *name[] = {"replays", "refused", "informs", "open", "fails"};
	uint64_t h = w;
	for (auto &x : l.val) { h = mc::hash(x.first, h); for (auto &y : x.second) h = mc::hash(y, h); }
	mc::state(h);
	mc::outcome(name[w]);
	fflush(mem);
	CHECK(w == NOTHING || !mem_n, "it writes to its standard output: %s", cl);
	if (w == ANY) return w;
	if (w != RUN) {
		if (w != NOTHING) CHECK(prog::code != 0, "not refused: %s", cl);
		if (w != TROUBLE) CHECK(!net.sockets && !connects, "it connects: %s", cl);
		CHECK(net.got.empty(), "it sends %s: %s", hex(net.got).c_str(), cl);
		return w;
	}
	CHECK(connects == 1, "it does not connect (status %d): %s", prog::code, cl);
	if (!g.un.empty()) {
		auto *u = (sockaddr_un *)&peer;
		B p(u->sun_path, peer_len - offsetof(sockaddr_un, sun_path));
		while (!p.empty() && !p.back()) p.pop_back();
		CHECK(family == AF_UNIX && peer.ss_family == AF_UNIX && p == g.un, "%s: it connects to %s", cl, p.c_str());
	} else {
		in_addr i4;
		in6_addr i6;
		if (inet_pton(AF_INET, g.addr.c_str(), &i4) == 1) {
			auto *i = (sockaddr_in *)&peer;
			CHECK(family == AF_INET && peer.ss_family == AF_INET && peer_len == sizeof *i && !memcmp(&i->sin_addr, &i4, 4) && ntohs(i->sin_port) == g.pn, "%s: it connects to another address or port", cl);
		} else {
			inet_pton(AF_INET6, g.addr.c_str(), &i6);
			auto *i = (sockaddr_in6 *)&peer;
			CHECK(family == AF_INET6 && peer.ss_family == AF_INET6 && peer_len == sizeof *i && !memcmp(&i->sin6_addr, &i6, 16) && ntohs(i->sin6_port) == g.pn, "%s: it connects to another address or port", cl);
		}
	}
	bool all = true;
	B e = ctl(READY, {g.ct}) + ctl(START, {g.ct});
	B ct = B(net.reply.substr(20, rd32(net.reply, 16)));
	for (auto &f : g.files) {
		auto i = contents.find(f);
		if (i == contents.end() || ct != g.ct) { all = false; continue; }
		for (auto &x : i->second) e += frame(x);
	}
	e += ctl(STOP);
	if (ct != g.ct) { CHECK(prog::code != 0 && net.got == ctl(READY, {g.ct}), "%s: it sends %s though the peer does not accept", cl, hex(net.got).c_str()); return w; }
	CHECK(net.got == e, "%s: it sends %s, not %s", cl, hex(net.got, 90).c_str(), hex(e, 90).c_str());
	if (all) CHECK(prog::code == 0, "%s: exit status %d", cl, prog::code);
	return w;
}
static void subsets()
{
	fresh();
	prog::Args a;
	auto opt = [&](const char *n, prog::Args x) { if (mc::choose(2, n)) a.insert(a.end(), x.begin(), x.end()); };
	opt("type", {"-t", "ty"});
	opt("read", {"-r", "F"});
	opt("unix", {"-u", "/s"});
	opt("tcp", {"-a", "192.0.2.1"});
	opt("port", {"-p", "77"});
	opt("more", {"-r", "G"});
	opt("help", {"-h"});
	opt("unknown", {"-d"});
	opt("stray", {"H"});
	opt("missing", {"-r", "none"});
	run(a);
}
static void spellings(bool on_tcp)
{
	fresh("a=b");
	prog::Args a;
	auto opt = [&](char s, const char *l, const char *abbr, const B &v) {
		switch (mc::choose(5, l)) {
		case 0: a.push_back(B("-") + s); a.push_back(v); break;
		case 1: a.push_back(B("--") + l + "=" + v); break;
		case 2: a.push_back(B("--") + abbr); a.push_back(v); break;
		case 3: a.push_back(B("-") + s + "=" + v); break;
		case 4: a.push_back(B("--") + l); a.push_back(v); break;
		}
	};
	opt('r', "read-file", "read", "F=1");
	opt('t', "type", "ty", "a=b");
	if (on_tcp) { opt('a', "tcp", "tc", "::1"); opt('p', "port", "p", "8053"); }
	else opt('u', "unix", "u", "./S=1");
	opt('r', "read-file", "r", "G");
	opt('r', "read-file", "read-f", "F");
	CHECK(run(a) == RUN, "the harness wrote a command line that is not accepted");
}
static void orders()
{
	fresh();
	struct O { const char *o; B v; };
	std::vector<O> all = {{"-t", "ty"}, {"-a", "::1"}, {"-p", "53"}, {"-r", "F"}, {"-r", "G"}, {"--read", "H"}};
	prog::Args a;
	std::vector<B> due;
	size_t at = 0;
	while (!all.empty() || at < due.size()) {
		int k = mc::choose(all.size() + (at < due.size()), "next");
		if (k == (int)all.size()) { a.push_back(due[at++]); continue; }
		a.push_back(all[k].o);
		if (!all[k].v.empty()) due.push_back(all[k].v);
		all.erase(all.begin() + k);
	}
	CHECK(run(a) == RUN, "the harness wrote a command line that is not accepted");
}
static void files(int n)
{
	fresh();
	static const std::vector<B> f = {"F", "G", "H", "none", "-x", "--type"};
	prog::Args a = {"-t", "ty", "-u", "/s"};
	int k = 0;
	for (; k < n; k++) {
		int c = mc::choose(f.size() + (k > 0), "file");
		if (c == (int)f.size()) break;
		if (f[c][0] == '-') a.push_back("--read-file=" + f[c]);
		else { a.push_back("-r"); a.push_back(f[c]); }
	}
	run(a);
}
static void long_lists()
{
	fresh();
	int n = mc::choose(64, "files");
	prog::Args a = {"-t", "ty", "-u", "/s"};
	int how = mc::choose(3, "how");
	static const char *f[] = {"F", "G", "H"};
	if (how == 2) { if (n) a.push_back("-" + B(n, 'r')); for (int i = 0; i < n; i++) a.push_back(f[i % 3]); }
	else if (how == 1) { for (int i = 0; i < n; i++) a.push_back("--read"); for (int i = 0; i < n; i++) a.push_back(f[i % 3]); }
	else for (int i = 0; i < n; i++) { a.push_back("-r"); a.push_back(f[i % 3]); }
	run(a);
}
static void tokens(const std::vector<B> &al, int n, prog::Args a, bool after)
{
	fresh();
	prog::Args x;
	for (int i = 0; i < n; i++) {
		int k = mc::choose(al.size() + 1, "token");
		if (k == 0) break;
		x.push_back(al[k - 1]);
	}
	if (after) x.insert(x.begin(), a.begin(), a.end());
	else x.insert(x.end(), a.begin(), a.end());
	run(x);
}
static void ports()
{
	fresh();
	static const std::vector<B> ad = {"127.0.0.1", "0.0.0.0", "192.0.2.77", "255.255.255.255", "::1", "::", "2001:db8::1", "::ffff:1.2.3.4", "", "localhost", "127.0.0", "127.0.0.256", "1.2.3.4.5", " 127.0.0.1", "127.0.0.1 ", "::g", "1:2:3", "[::1]", "127.0.0.1:53"};
	static const std::vector<B> pt = {"1", "80", "255", "256", "257", "1024", "32767", "32768", "65534", "65535", "65536", "65537", "65616", "131072", "99999", "4294967296", "4294967376", "18446744073709551615", "18446744073709551696", "99999999999999999999", "-1", "80x", "x80", "x", "8 0", "80 ", "http", "1.5", "1e3", "80,81"};
	const B &x = ad[mc::choose(ad.size(), "address")], &y = pt[mc::choose(pt.size(), "port")];
	if (mc::choose(2, "spelling")) run({"-t", "ty", "-r", "F", "--tcp=" + x, "--port=" + y});
	else run({"-t", "ty", "-r", "F", "-a", x, "-p", y});
}
static void paths()
{
	fresh();
	size_t n = 1 + mc::choose(300, "length");
	run({"-t", "ty", "-u", "/" + B(n - 1, 'S'), "-r", "F"});
}
// every byte in the name of the socket
static void odd_names()
{
	fresh();
	int c = 1 + mc::choose(255, "byte"), where = mc::choose(4, "where");
	run({"-t", "ty", "--unix=" + (where == 0 ? B(1, c) : where == 1 ? B(1, c) + "s" : where == 2 ? "/s" + B(1, c) : "s" + B(1, c) + "s"), "-r", "F"});
}
// and of the files, and in the content type
static void odd_files()
{
	fresh();
	int c = 1 + mc::choose(255, "byte"), where = mc::choose(4, "where");
	if (c == '/') mc::prune();
	B n = where == 0 ? B(1, c) : where == 1 ? B(1, c) + "f" : where == 2 ? "f" + B(1, c) : "f" + B(1, c) + "f";
	if (n == "-" || n == "." || contents.count(n)) mc::prune();
	contents[n] = {"odd", data(20, c)};
	spit(n, whole("ty", contents[n]));
	run({"-t", "ty", "-u", "/s", "-r", "F", "--read-file=" + n, "-r", "G"});
	unlink(n.c_str());
	contents.erase(n);
}
static void odd_types()
{
	int c = 1 + mc::choose(255, "byte"), where = mc::choose(4, "where");
	B t = where == 0 ? B(1, c) : where == 1 ? B(1, c) + "t" : where == 2 ? "t" + B(1, c) : "t" + B(1, c) + "t";
	fresh(t);
	run({"--type=" + t, "-u", "/s", "-r", "F"});
}
static void types()
{
	static const std::vector<size_t> ln = {1, 2, 127, 128, 254, 255, 256, 257, 258, 300, 511, 512, 513, 600, 5000};
	B t = data(ln[mc::choose(ln.size(), "length")], mc::choose(4, "bytes") * 77);
	for (char &c : t) if (!c) c = 1;
	fresh(t.size() > 256 ? "ty" : t);
	run({"--type=" + t, "-u", "/s", "-r", "F", "-r", "G"});
}
void mc_setup()
{
	bool t = mc::thorough();
	unsetenv("ARGV_FSTRM_REPLAY");
	unsetenv("GLOBAL_ARGV");
	mc::config.note = "fstrm_replay's own main() and its argument parser over every subset of the options, every spelling of each, every order of options and values, all sequences of tokens up to a depth, lists of files up to 63 long, and the values at the limits; a refused command line must fail and connect to nothing, and one that is accepted must be followed: address, port or path, content type, and the files in their order.";
	mc::config.assumptions = {"abbreviated, joined and '=' forms are those of the argument parser the programs use", "options repeated other than -r and joined values for flags are not specified (only that they do not crash the program)", "the connection is replaced at the socket calls"};
	mc::scenario("subsets", subsets);
	mc::scenario("spellings, unix", [] { spellings(false); });
	mc::scenario("spellings, tcp", [] { spellings(true); });
	mc::scenario("orders", orders);
	mc::scenario("files", [=] { files(t ? 7 : 5); });
	mc::scenario("long lists", long_lists);
	prog::Args base = {"-t", "ty", "-u", "/s", "-r", "F"};
	std::vector<B> al = {"-r", "G", "--", "-", "5", "-5", "x", "-x", "--bogus", "-rr", "--t", "--read=H", "-dw", "-r=F", "--=", "-?", "--version", "--argv-display", "-=", "", "-h", "-p", "-ptur", "-rrrrrrrrrrrr", "-tuaptuaprr"};
	mc::scenario("tokens after", [=] { tokens(al, t ? 4 : 3, base, true); });
	mc::scenario("tokens before", [=] { tokens(al, t ? 3 : 2, base, false); });
	std::vector<B> small = {"-t", "-u", "-r", "S", "F", "-tu", "--read=G", "ty"};
	mc::scenario("few tokens", [=] { tokens(small, t ? 7 : 6, {}, true); });
	std::vector<B> file = {"-r", "--argv-file", "--argv-file=F", "-5", "5", "F", "x", "-tur"};
	mc::scenario("arguments from a file", [=] { tokens(file, t ? 5 : 4, base, true); });
	mc::scenario("beginnings of options, unix", [] {
		fresh();
		cmd::prefixes(opts, {{"type", "ty"}, {"unix", "/s"}, {"read-file", "F"}}, {{"type", "other"}, {"unix", "/t"}, {"tcp", "::1"}, {"port", "99"}, {"read-file", "G"}}, run);
	});
	mc::scenario("beginnings of options, tcp", [] {
		fresh();
		cmd::prefixes(opts, {{"type", "ty"}, {"tcp", "::1"}, {"port", "53"}, {"read-file", "F"}}, {{"type", "other"}, {"unix", "/t"}, {"tcp", "192.0.2.1"}, {"port", "99"}, {"read-file", "G"}}, run);
	});
	mc::scenario("ports", ports);
	mc::scenario("paths", paths);
	mc::scenario("odd names", odd_names);
	mc::scenario("odd files", odd_files);
	mc::scenario("odd types", odd_types);
	mc::scenario("types", types);
}
