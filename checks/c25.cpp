// C25: fstrm_replay sends each file's frames once and in order.
#include "replay.hpp"
const char *mc_property = "C25";

static B type = T;
// the arguments that name the connection
static prog::Args where(int k)
{
	prog::Args a;
	memset(&net.want, 0, sizeof net.want);
	if (k == 0 || k == 1) {
		sockaddr_un *u = (sockaddr_un *)&net.want;
		u->sun_family = AF_UNIX;
		B p = k ? "/" + B(106, 'p') : B("/nowhere/sock");
		strcpy(u->sun_path, p.c_str());
		a = {k ? "--unix" : "-u", p};
		if (k) { a.push_back("-p"); a.push_back("123"); }
	} else if (k & 1) {
		sockaddr_in6 *s = (sockaddr_in6 *)&net.want;
		s->sin6_family = AF_INET6;
		inet_pton(AF_INET6, "2001:db8::77", &s->sin6_addr);
		s->sin6_port = htons(65535);
		net.want_len = sizeof *s;
		a = {"--tcp", "2001:db8::77", "--port", "65535"};
	} else {
		sockaddr_in *s = (sockaddr_in *)&net.want;
		s->sin_family = AF_INET;
		inet_pton(AF_INET, "192.0.2.9", &s->sin_addr);
		s->sin_port = htons(258);
		net.want_len = sizeof *s;
		a = {"-a", "192.0.2.9", "-p", "258"};
	}
	return a;
}

// kind: 0 a file, 1 missing, 2 a directory, 3 reading fails at the end of the text, 4 cannot be opened
struct F { B name; int kind; B text; };
// runs it and judges everything it does; accepts: the peer's first answer is acceptable; finishes: so is its last
static void replay(int place, const std::vector<F> &files, bool accepts = true, bool finishes = true)
{
	prog::Args a = {"fstrm_replay", place & 1 ? "--type" : "-t", type}, w = where(place);
	a.insert(a.end(), w.begin(), w.end());
	B want = ctl(READY, {type}) + ctl(START, {type});
	bool bad = false, good = accepts && finishes;
	size_t frames = 0;
	for (auto &f : files) {
		B path = mc::scratch() + "/" + f.name;
		a.push_back(place & 1 ? "--read-file" : "-r");
		a.push_back(path);
		if (f.kind == 2) { mkdir(path.c_str(), 0755); good = false; continue; }
		unlink(path.c_str());
		if (f.kind != 1) spit(path, f.text);
		if (f.kind == 4) no_open = path;
		if (f.kind == 3) { device = true; failing.push_back(path); }
		Meaning m = meaning(f.text);
		if (f.kind == 1 || f.kind == 4 || !m.start || !match(START, m.ct, &type)) { good = false; continue; } // skipped; the status is left open
		if (m.kind == Meaning::MALFORMED || (f.kind == 3 && m.kind != Meaning::GOOD)) bad = true;
		if (m.kind != Meaning::GOOD) good = false;
		for (auto &d : m.frames) { want += frame(d); frames++; }
	}
	want += ctl(STOP);
	std::vector<bool> before;
	for (int i = 0; i < 96; i++) before.push_back(fcntl(i, F_GETFD) >= 0);
	unsigned fds = prog::fds();
	prog::start(a);
	CHECK(!prog::running() || prog::called_exit, "fstrm_replay does not end");
	mc::steps(frames + files.size());
	bool ok = prog::code == 0, failed = net.faults || (net.drop >= 0 && net.drop < (long)want.size());
	const B &g = net.got;
	size_t same = 0;
	while (same < g.size() && same < want.size() && g[same] == want[same]) same++;
	CHECK(same == g.size(), "the peer received %zu bytes, which differ from the %zu expected ones at byte %zu: %s instead of %s", g.size(), want.size(), same, hex(g.substr(same)).c_str(), hex(want.substr(same)).c_str());
	if (!accepts) CHECK(g.size() <= ctl(READY, {type}).size(), "it goes on after a refusal");
	else if (!failed) CHECK(g.size() == want.size(), "only %zu of %zu bytes were sent", g.size(), want.size());
	CHECK(!ok || (accepts && finishes && !failed), "it reports success though %s", !accepts ? "the peer did not accept" : failed ? "the connection failed" : "the peer did not confirm the end");
	CHECK(!ok || !bad, "it reports success though it could not hand over everything in a file");
	if (good && !failed && !bad) CHECK(ok, "exit status %d though everything was handed over", prog::code);
	if (!prog::called_exit) {
		CHECK(net.fd < 0 && net.sockets == net.closes, "the connection is left open");
		CHECK(prog::fds() <= fds, "a file is left open");
	}
	for (int i = 3; i < 96; i++) if (!before[i]) close(i);
	net.fd = -1;
	mc::state(mc::hash(g, (int)prog::code));
	mc::outcome("status " + std::to_string(prog::code) + (failed ? ", connection failed" : ""));
}
static B whole(const std::vector<B> &fr, const L &ct = {T})
{
	B s = ctl(START, ct);
	for (auto &f : fr) s += frame(f);
	return s + ctl(STOP);
}
static std::vector<F> kinds()
{
	B two = whole({"one", data(40, 1)}), odd = whole({"o", "d", "d"}, {"other"});
	return {
		{"two", 0, two}, {"single", 0, whole({"x"})}, {"none", 0, whole({})}, {"untyped", 0, whole({"u", "v"}, {})}, {"large", 0, whole({data(70000, 2), "l"})},
		{"odd", 0, odd}, {"missing", 1, two}, {"empty", 0, ""}, {"dir", 2, ""}, {"cut", 0, two.substr(0, two.size() - 20)}, {"nostop", 0, two.substr(0, two.size() - 12)},
		{"broken", 0, ctl(START, {T}) + frame("b") + with_header("zz") + frame("never") + ctl(STOP)}, {"garbage", 0, "this is a text file, not a stream of frames"},
		{"future", 0, ctl(START, {T}) + frame("f1") + with_header(be32(77) + "abc") + frame("f2") + ctl(STOP)}, {"huge", 0, ctl(START, {T}) + frame("h") + be32(1048577) + "hhh"},
		{"eio", 3, ctl(START, {T}) + frame("e") + frame("io").substr(0, 5)}, {"like", 0, whole({"L"}, {T + "p"})},
	};
}
static void lists(int n, int place, int pchunk)
{
	reset();
	net.wchunk = pchunk;
	auto k = kinds();
	std::vector<F> v;
	for (int i = 0; i < n; i++) v.push_back(k[mc::choose(k.size(), "file")]);
	replay(place, v);
}
static const std::vector<F> &usual()
{
	static std::vector<F> v = {{"a", 0, whole({"one", data(30, 1)})}, {"b", 0, whole({"x", "yz", data(9, 3)})}};
	return v;
}
static std::vector<F> few()
{
	auto &u = usual();
	switch (mc::choose(4, "files")) {
	case 0: return u;
	case 1: return {u[0]};
	case 2: return {{"none", 0, whole({})}};
	default: return {u[1], {"none", 0, whole({})}, u[1]};
	}
}
static void handshake()
{
	reset();
	int place = mc::choose(4, "place"), k = mc::choose(5, "kind");
	net.rchunk = mc::choose(3, "chunk");
	std::vector<L> good = {{T}, {}, {T, "x"}, {"x", T}, {"x", "y", T}, {T, T}}, other = {{"x"}, {""}, {"t"}, {T + "p"}, {"x", "tY"}, {B("ty\0", 3)}};
	B acc = ctl(ACCEPT, {T}), fin = ctl(FINISH);
	bool a = true, f = true;
	if (k == 0) net.reply = ctl(ACCEPT, good[mc::choose(good.size(), "list")]) + fin;
	else if (k == 1) { a = false; net.reply = ctl(ACCEPT, other[mc::choose(other.size(), "list")]) + fin; }
	else if (k == 2) {
		B all = acc + fin;
		size_t n = mc::choose(all.size(), "cut");
		net.reply = all.substr(0, n);
		a = n >= acc.size();
		f = false;
	} else if (k == 3) { a = false; auto b = bad_frames(ACCEPT); b.push_back(ctl(READY, {T})); b.push_back(ctl(START, {T})); b.push_back(fin); net.reply = b[mc::choose(b.size(), "bad")] + acc + fin; }
	else { f = false; auto b = bad_frames(FINISH); b.push_back(ctl(STOP)); b.push_back(acc); b.push_back(ctl(START, {T})); net.reply = acc + b[mc::choose(b.size(), "bad")]; if (meaning(ctl(START, {T}) + net.reply.substr(acc.size())).kind == Meaning::OPEN_ENDED) f = false; }
	replay(place, few(), a, f);
}
static void dropped(int place)
{
	reset();
	auto files = few();
	size_t n = ctl(READY, {T}).size() + ctl(START, {T}).size() + ctl(STOP).size();
	for (auto &f : files) n += f.text.size() - ctl(START, {T}).size() - ctl(STOP).size();
	net.drop = mc::choose(n + 1, "drop");
	net.wchunk = mc::choose(4, "chunk");
	if (net.drop < (long)n) net.reply = ctl(ACCEPT, {T});
	replay(place, files);
}
static void short_(int place, bool w, bool r, bool s)
{
	reset();
	net.deviate_writes = w;
	net.deviate_reads = r;
	net.deviate_setup = s;
	replay(place, usual());
}
static void chunked(int place)
{
	reset();
	static const int c[] = {1, 2, 3, 4, 5, 7, 8, 11, 13, 64, 1000, 4096};
	net.wchunk = c[mc::choose(12, "chunk")];
	net.rchunk = mc::choose(5, "rchunk");
	device = mc::choose(2, "device");
	if (device) rchunk = c[mc::choose(12, "file chunk")];
	replay(place, usual());
}
static void cut(int kind)
{
	reset();
	B s = whole({"one", data(40, 1), B(2, 0)});
	replay(0, {{"first", 0, whole({"1"})}, {"cut", kind, s.substr(0, mc::choose(s.size() + 1, "cut"))}, {"last", 0, whole({"3"})}});
}
static void types()
{
	reset();
	static const std::vector<B> v = {"a", "ab", "abc", "A", "protobuf:dnstap.Dnstap", "protobuf:dnstap.Dnsta", "protobuf:dnstap.Dnstap2", data(255, 1), data(256, 1), data(256, 1).substr(0, 255) + "x"};
	B t = v[mc::choose(v.size(), "type")], u = v[mc::choose(v.size(), "file type")];
	for (char &c : t) if (!c) c = 'z';
	for (char &c : u) if (!c) c = 'z';
	type = t;
	bool more = mc::choose(2, "list");
	net.reply = ctl(ACCEPT, more && t.size() < 200 ? L{"zzz", t} : L{t}) + ctl(FINISH);
	replay(mc::choose(4, "place"), {{"f", 0, whole({"data"}, {u})}, {"g", 0, whole({"more"}, {t})}});
	type = T;
}
static void lengths(const std::vector<size_t> &l, int n, int chunk)
{
	reset();
	net.wchunk = chunk;
	std::vector<B> f;
	for (int i = 0; i < n; i++) f.push_back(data(l[mc::choose(l.size(), "length")], i + 1));
	replay(0, {{"f", 0, whole(f)}, {"g", 0, whole({"tail"})}});
}
static void many(size_t n, int files)
{
	reset();
	std::vector<F> v;
	for (int j = 0; j < files; j++) {
		std::vector<B> f;
		for (size_t i = 0; i < n; i++) f.push_back(data(1 + (i + j) % 7, i + 1000 * j));
		v.push_back({"f" + std::to_string(j), 0, whole(f)});
	}
	replay(0, v);
}
static void no_descriptors()
{
	reset();
	std::vector<F> v = {{"a", 0, whole({"one"})}, {"b", 0, whole({"two", "zwei"})}, {"c", 0, whole({"three"})}};
	v[mc::choose(3, "open")].kind = 4;
	replay(0, v);
}
static void usage()
{
	reset();
	B f = mc::scratch() + "/file";
	spit(f, whole({"x"}));
	static const B S = "/nowhere/sock";
	std::vector<prog::Args> v = {
		{}, {"-h"}, {"-t", T, "-u", S}, {"-u", S, "-r", f}, {"-t", T, "-r", f}, {"-t", T, "-u", S, "-a", "192.0.2.9", "-p", "258", "-r", f}, {"-t", T, "-a", "192.0.2.9", "-r", f}, {"-t", T, "-p", "258", "-r", f},
		{"-t", T, "-a", "192.0.2", "-p", "258", "-r", f}, {"-t", T, "-a", "localhost", "-p", "258", "-r", f}, {"-t", T, "-a", "192.0.2.9", "-p", "65536", "-r", f}, {"-t", T, "-a", "192.0.2.9", "-p", "258x", "-r", f},
		{"-t", T, "-a", "192.0.2.9", "-p", "http", "-r", f}, {"-t", T, "-a", "192.0.2.9", "-p", "-1", "-r", f}, {"-t", T, "-u", "/" + B(200, 'p'), "-r", f}, {"-t", T, "-u", "/" + B(108, 'p'), "-r", f}, {"-t", B(257, 't'), "-u", S, "-r", f},
		{"-t", T, "-u", S, "-r", f, "-z"}, {"-t", T, "-u", S, "-r"}, {"-t", T, "-u", S, "--reed-file", f}, {"-t", "-u", S, "-r", f}, {"-t", T, "-t", T, "-u", S, "-r", f, "-u"}, {"-t", T, "-a", "", "-p", "258", "-r", f},
		{"-t", T, "-a", "192.0.2.9", "-p", "99999999999999999999", "-r", f}, {"-t", T, "-a", "1:2:3", "-p", "258", "-r", f},
	};
	prog::Args a = v[mc::choose(v.size(), "arguments")];
	a.insert(a.begin(), "fstrm_replay");
	where(0);
	prog::start(a);
	CHECK(!prog::running() || prog::called_exit, "fstrm_replay does not end");
	CHECK(prog::code != 0, "it reports success");
	CHECK(net.got.empty() && !net.sockets, "it connects");
	mc::outcome("refused");
}
void mc_setup()
{
	bool t = mc::thorough();
	mc::config.note = "fstrm_replay's own main() over all lists of files of 17 kinds, handshakes of every kind, peers that vanish after every byte, short and interrupted calls, truncated and unreadable files at every byte, frame lengths around limits, content types and argument errors, over unix and TCP connections; the bytes the peer receives and the exit status are compared with an independent reading of the files.";
	mc::config.assumptions = {"the connection is replaced at the socket calls; sendmsg/read semantics as in POSIX", "a file that is skipped leaves the exit status open"};
	for (int p = 0; p < 4; p++) {
		B n = B(p < 2 ? "unix " : "tcp ") + std::to_string(p);
		mc::scenario("dropped, " + n, [=] { dropped(p); });
		mc::scenario("chunked, " + n, [=] { chunked(p); });
		mc::scenario("set-up, " + n, [=] { short_(p, false, true, true); }, 3);
		mc::scenario("short calls, " + n, [=] { short_(p, true, true, false); }, t || !(p & 1) ? 2 : 1);
		mc::scenario("pairs, " + n, [=] { lists(2, p, 3); });
	}
	mc::scenario("one", [=] { lists(1, 0, 0); });
	mc::scenario("triples", [=] { lists(3, 0, 0); });
	if (t) mc::scenario("quadruples", [=] { lists(4, 2, 0); });
	if (t) mc::scenario("three short calls", [=] { short_(2, true, true, false); }, 3);
	mc::scenario("handshake", handshake);
	mc::scenario("cut", [=] { cut(0); });
	mc::scenario("unreadable", [=] { cut(3); });
	mc::scenario("types", types);
	mc::scenario("lengths", [=] { lengths({1, 2, 511, 512, 513, 1024, 4091, 4092, 4096, 4097, 65535, 65536}, 2, 0); });
	mc::scenario("lengths, chunked", [=] { lengths({1, 2, 3, 4, 511, 512, 513}, 3, 5); });
	mc::scenario("long", [=] { lengths({65537, 524288, 1048575, 1048576, 1048577}, t ? 2 : 1, 50000); });
	for (size_t k : {1, 127, 128, 129, 1000, 33000}) mc::scenario("many " + std::to_string(k), [=] { many(k, 3); });
	mc::scenario("66000 frames", [=] { many(66000, 1); });
	mc::scenario("many files", [=] { many(2, 40); });
	mc::scenario("no descriptors", no_descriptors);
	mc::scenario("usage", usage);
}
