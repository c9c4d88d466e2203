// C11: file streams round-trip and never hide an I/O error.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "transport.hpp"
#include <cerrno>
#include <fcntl.h>
#include <map>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace ref;
const char *mc_property = "C11";

// Streams opened by the code under test are real stdio streams over the real file, with a budget of bytes after which
// the device fails.
struct Disk {
	bool wrap = false;
	long wbudget = -1, rbudget = -1; // bytes; -1: no limit
	bool close_fails = false, open_fails = false, transient = false;
	int chunk = 0, buffering = 0;
	int opens = 0, closes = 0, werrors = 0, rerrors = 0, dev_closes = 0;
	std::map<FILE *, int> live;
} * disk;
static ssize_t c_write(void *c, const char *p, size_t n)
{
	int fd = (int)(long)c;
	size_t k = n;
	if (disk->wbudget >= 0) {
		if (disk->wbudget == 0) {
			disk->werrors++;
			if (disk->transient) disk->wbudget = -1;
			errno = ENOSPC;
			return 0;
		}
		if (k > (size_t)disk->wbudget) { // to stdio a short write is an error
			k = disk->wbudget;
			disk->werrors++;
			disk->wbudget = disk->transient ? -1 : 0;
		} else disk->wbudget -= k;
	}
	return write(fd, p, k);
}
static ssize_t c_read(void *c, char *p, size_t n)
{
	int fd = (int)(long)c;
	size_t k = n;
	if (disk->chunk && k > (size_t)disk->chunk) k = disk->chunk;
	if (disk->rbudget >= 0) {
		if (disk->rbudget == 0) { disk->rerrors++; errno = EIO; return -1; }
		if (k > (size_t)disk->rbudget) k = disk->rbudget;
	}
	ssize_t r = read(fd, p, k);
	if (disk->rbudget >= 0 && r > 0) disk->rbudget -= r;
	return r;
}
static int c_close(void *c)
{
	close((int)(long)c);
	disk->dev_closes++;
	if (disk->close_fails) { errno = EIO; return -1; }
	return 0;
}
static FILE *k_fopen(const char *path, const char *mode)
{
	if (disk->open_fails) { errno = EMFILE; return nullptr; }
	FILE *f;
	if (!disk->wrap) f = fopen(path, mode);
	else {
		int fd = open(path, mode[0] == 'r' ? O_RDONLY : mode[0] == 'a' ? O_WRONLY | O_CREAT | O_APPEND : O_WRONLY | O_CREAT | O_TRUNC, 0666);
		if (fd < 0) return nullptr;
		cookie_io_functions_t io = {c_read, c_write, nullptr, c_close};
		f = fopencookie((void *)(long)fd, mode, io);
	}
	if (!f) return f;
	static char buf[256];
	if (disk->buffering == 1) setvbuf(f, nullptr, _IONBF, 0);
	if (disk->buffering == 2) setvbuf(f, nullptr, _IOFBF, 64);
	disk->opens++;
	disk->live[f] = 1;
	return f;
}
static int k_fclose(FILE *f)
{
	disk->closes++;
	if (f != stdin && f != stdout) {
		CHECK(disk->live.count(f), "fclose of a stream that is not open");
		disk->live.erase(f);
	}
	return fclose(f);
}
static void balance()
{
	CHECK(disk->live.empty() && disk->opens == disk->closes, "%d files opened but %d closed", disk->opens, disk->closes);
	CHECK(env::live_blocks() == 0, "%zu blocks are not released", env::live_blocks());
}
static std::string path() { return mc::scratch() + "/stream"; }
static B slurp(const std::string &p)
{
	B s;
	FILE *f = fopen(p.c_str(), "r");
	if (!f) return "";
	char b[65536];
	size_t n;
	while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
	fclose(f);
	return s;
}
static void spit(const std::string &p, const B &s)
{
	FILE *f = fopen(p.c_str(), "w");
	if (fwrite(s.data(), 1, s.size(), f) != s.size() || fclose(f)) abort();
}
static struct fstrm_writer *mkwriter(const std::string &p)
{
	struct fstrm_file_options *fo = fstrm_file_options_init();
	fstrm_file_options_set_file_path(fo, p.c_str());
	struct fstrm_writer *w = fstrm_file_writer_init(fo, nullptr);
	fstrm_file_options_destroy(&fo);
	CHECK(w, "file_writer_init");
	return w;
}
static struct fstrm_reader *mkreader(const std::string &p)
{
	struct fstrm_file_options *fo = fstrm_file_options_init();
	fstrm_file_options_set_file_path(fo, p.c_str());
	struct fstrm_reader_options *ro = fstrm_reader_options_init();
	fstrm_reader_options_set_max_frame_size(ro, 1 << 26);
	struct fstrm_reader *r = fstrm_file_reader_init(fo, ro);
	fstrm_reader_options_destroy(&ro);
	fstrm_file_options_destroy(&fo);
	CHECK(r, "file_reader_init");
	return r;
}
static bool stop_seen(struct fstrm_reader *r)
{
	const struct fstrm_control *c = nullptr;
	return fstrm_reader_get_control(r, FSTRM_CONTROL_STOP, &c) == fstrm_res_success && c;
}
// reads a file holding a prefix of the stream of these frames; complete: all of it
static size_t readback(const std::string &p, const std::vector<B> &frames, bool complete)
{
	struct fstrm_reader *r = mkreader(p);
	size_t i = 0;
	fstrm_res res;
	for (;;) {
		const uint8_t *d = nullptr;
		size_t n = 0;
		res = fstrm_reader_read(r, &d, &n);
		mc::steps();
		if (res != fstrm_res_success) break;
		CHECK(i < frames.size() && n == frames[i].size() && !memcmp(d, frames[i].data(), n), "read %zu returned other data (%zu bytes)", i, n);
		i++;
	}
	if (complete) {
		CHECK(res == fstrm_res_stop, "the end of the stream is reported as %d", res);
		CHECK(i == frames.size(), "%zu of %zu frames read back", i, frames.size());
		CHECK(stop_seen(r), "no STOP frame at the end");
		CHECK(fstrm_reader_close(r) == fstrm_res_success, "close after the end of the stream");
	} else {
		CHECK(!stop_seen(r), "a STOP frame is reported");
		const uint8_t *d;
		size_t n;
		CHECK(fstrm_reader_read(r, &d, &n) != fstrm_res_success, "a read after the end succeeded");
	}
	fstrm_reader_destroy(&r);
	return i;
}
static B stream(const std::vector<B> &f)
{
	B s = ctl(START);
	for (auto &x : f) s += frame(x);
	return s + ctl(STOP);
}
static fstrm_res write_all(struct fstrm_writer *w, const std::vector<B> &f, int how, int *failed)
{
	fstrm_res r = fstrm_res_success;
	*failed = 0;
	if (how == 0) {
		for (auto &x : f) if (fstrm_writer_write(w, x.data(), x.size()) != fstrm_res_success) ++*failed;
	} else {
		size_t batch = how == 1 ? f.size() : how;
		for (size_t i = 0; i < f.size(); i += batch) {
			std::vector<iovec> v;
			for (size_t k = i; k < f.size() && k < i + batch; k++) v.push_back({(void *)f[k].data(), f[k].size()});
			if (fstrm_writer_writev(w, v.data(), v.size()) != fstrm_res_success) ++*failed;
		}
	}
	mc::steps(f.size());
	return r;
}
static std::vector<std::vector<B>> loads;
static void roundtrip(const std::vector<B> &f, int how, int destroy)
{
	struct fstrm_writer *w = mkwriter(path());
	if (f.empty() && destroy < 2) CHECK(fstrm_writer_open(w) == fstrm_res_success, "open");
	int failed;
	write_all(w, f, how, &failed);
	CHECK(!failed, "write failed");
	if (destroy == 0) CHECK(fstrm_writer_close(w) == fstrm_res_success, "close");
	fstrm_writer_destroy(&w);
	B got = slurp(path());
	CHECK(got == stream(f), "the file holds %zu bytes, not the stream of %zu", got.size(), stream(f).size());
	readback(path(), f, true);
	balance();
	mc::state(mc::hash(got));
	unlink(path().c_str());
}
static void sizes(size_t lo, size_t hi)
{
	Disk d;
	disk = &d;
	size_t n = lo + mc::choose(hi - lo, "len");
	std::vector<B> f = {data(n, 1)};
	if (mc::choose(2, "more")) { f.push_back(data(1, 2)); f.push_back(data(n / 3 + 1, 3)); }
	roundtrip(f, mc::choose(2, "writev"), 0);
}
static void lists()
{
	Disk d;
	disk = &d;
	static const int s[] = {1, 3, 4, 511, 4084, 4085, 4096, 5000, 65536};
	int n = mc::choose(4, "count");
	std::vector<B> f;
	for (int i = 0; i < n; i++) f.push_back(data(s[mc::choose(9, "size")], i + 1));
	roundtrip(f, mc::choose(3, "how"), mc::choose(2, "destroy"));
}
static void counts()
{
	Disk d;
	disk = &d;
	static const int c[] = {0, 1, 2, 127, 128, 129, 255, 256, 257, 1000, 5000, 33000, 66000};
	static const int l[] = {1, 2, 31, 200};
	int n = c[mc::choose(13, "count")], k = l[mc::choose(4, "size")];
	std::vector<B> f;
	for (int i = 0; i < n; i++) f.push_back(data(k + i % 3, i + 1));
	d.wrap = mc::choose(2, "device");
	if (d.wrap) d.chunk = mc::choose(2, "chunk") * 7;
	static const int how[] = {0, 1, 7, 128, 200};
	roundtrip(f, how[mc::choose(5, "how")], 0);
}
static void write_errors(const std::vector<B> &f)
{
	Disk d;
	disk = &d;
	d.wrap = true;
	d.buffering = mc::choose(3, "buffering");
	B want = stream(f);
	int k = mc::choose(want.size() + 1, "space");
	bool cf = mc::choose(2, "close-fails");
	int how = mc::choose(3, "how");
	if (how == 2) how = 3;
	d.wbudget = k;
	d.close_fails = cf;
	d.transient = mc::choose(2, "transient");
	struct fstrm_writer *w = mkwriter(path());
	int failed;
	fstrm_res ro = fstrm_writer_open(w);
	write_all(w, f, how, &failed);
	bool some = failed || ro != fstrm_res_success;
	fstrm_res r = fstrm_writer_close(w);
	some |= r != fstrm_res_success;
	mc::steps(2);
	d.wbudget = -1;
	d.close_fails = false;
	B got = slurp(path());
	bool fault = d.werrors > 0 || cf;
	CHECK(some == fault, fault ? "the file could not be written but no call reported failure" : "a call reported failure without a fault");
	CHECK(got == want.substr(0, got.size()), "the file is no prefix of the stream");
	if (!fault) CHECK(got == want, "the file holds %zu of %zu bytes but close succeeded", got.size(), want.size());
	fstrm_writer_destroy(&w);
	CHECK(slurp(path()) == got, "destroy changed the file");
	balance();
	Disk d2;
	disk = &d2;
	size_t n = readback(path(), f, got == want);
	mc::state(mc::hash(got, n * 2 + some));
	mc::outcome(fault ? "failed" : "complete");
	disk = &d;
	unlink(path().c_str());
}
static void crash(const std::vector<B> &f)
{
	Disk d;
	disk = &d;
	d.wrap = mc::choose(2, "device");
	if (d.wrap) { d.buffering = mc::choose(3, "buffering"); d.chunk = mc::choose(3, "chunk"); }
	B want = stream(f), got;
	size_t k = mc::choose(want.size(), "size");
	got = want.substr(0, k);
	spit(path(), got);
	size_t n = readback(path(), f, false);
	// every frame that is complete is returned
	size_t p = ctl(START).size(), c = 0;
	for (auto &x : f) { p += 4 + x.size(); if (p <= k) c++; }
	CHECK(n == c, "%zu frames returned of %zu complete ones", n, c);
	balance();
	mc::state(mc::hash(got, n));
	unlink(path().c_str());
}
static void read_errors(const std::vector<B> &f)
{
	Disk d;
	disk = &d;
	d.wrap = true;
	d.buffering = mc::choose(3, "buffering");
	B want = stream(f);
	spit(path(), want);
	size_t k = mc::choose(want.size(), "readable");
	d.rbudget = k;
	d.close_fails = mc::choose(2, "close-fails");
	struct fstrm_reader *r = mkreader(path());
	size_t i = 0;
	fstrm_res res;
	const uint8_t *p;
	size_t n;
	for (;;) {
		res = fstrm_reader_read(r, &p, &n);
		mc::steps();
		if (res != fstrm_res_success) break;
		CHECK(i < f.size() && n == f[i].size() && !memcmp(p, f[i].data(), n), "read %zu returned other data", i);
		i++;
	}
	CHECK(res == fstrm_res_failure, "a read error is reported as %d", res);
	CHECK(!stop_seen(r), "a STOP frame is reported");
	d.rbudget = -1;
	if (res != fstrm_res_success && i > 0) CHECK(fstrm_reader_read(r, &p, &n) != fstrm_res_success, "a read after a read error succeeded");
	fstrm_reader_destroy(&r);
	balance();
	mc::state(mc::hash(want, k * 10 + i));
	unlink(path().c_str());
}
static void opens()
{
	Disk d;
	disk = &d;
	int kind = mc::choose(7, "kind"), wr = mc::choose(2, "writer"), how = mc::choose(2, "how");
	std::string p = path();
	bool bad = true;
	switch (kind) {
	case 0: d.open_fails = true; spit(p, stream({})); break;
	case 1: p = mc::scratch() + "/missing/file"; break;
	case 2: unlink(p.c_str()); bad = !wr; break;
	case 3: p = mc::scratch(); break;         // a directory
	case 4: spit(p, ""); bad = !wr; break;    // an empty file
	case 5: spit(p, stream({"x"})); bad = false; break;
	case 6: p = mc::scratch() + "/" + B(300, 'n'); break;
	}
	fstrm_res r;
	const uint8_t *q;
	size_t n;
	if (wr) {
		struct fstrm_writer *w = mkwriter(p);
		r = how ? fstrm_writer_open(w) : fstrm_writer_write(w, "a", 1);
		CHECK((r == fstrm_res_success) == !bad, "%s returned %d", how ? "open" : "write", r);
		if (bad) CHECK(fstrm_writer_close(w) != fstrm_res_success, "close of a writer that could not be opened");
		fstrm_writer_destroy(&w);
	} else {
		struct fstrm_reader *x = mkreader(p);
		r = how ? fstrm_reader_open(x) : fstrm_reader_read(x, &q, &n);
		CHECK((r == fstrm_res_success) == !bad, "%s returned %d", how ? "open" : "read", r);
		if (bad) CHECK(!stop_seen(x), "a STOP frame is reported");
		fstrm_reader_destroy(&x);
	}
	mc::steps();
	balance();
	mc::state(kind * 4 + wr * 2 + how);
	unlink(path().c_str());
}
static void standard() // "-" is standard input and output
{
	Disk d;
	disk = &d;
	int n = mc::choose(4, "frames"), size = mc::choose(3, "size"), cut = mc::choose(3, "cut");
	std::vector<B> f;
	static const int l[] = {1, 4096, 70000};
	for (int i = 0; i < n; i++) f.push_back(data(l[size], i + 1));
	std::string p = path();
	pid_t pid = fork();
	if (pid == 0) {
		int fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0666);
		dup2(fd, 1);
		close(fd);
		struct fstrm_writer *w = mkwriter("-");
		int failed = fstrm_writer_open(w) != fstrm_res_success, k;
		write_all(w, f, 0, &k);
		failed += k;
		failed += fstrm_writer_close(w) != fstrm_res_success;
		_exit(failed != 0);
	}
	int st;
	waitpid(pid, &st, 0);
	CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "writing to standard output failed");
	CHECK(slurp(p) == stream(f), "standard output holds something else");
	B all = stream(f);
	if (cut) all.resize(all.size() - (cut == 1 ? 1 : 13));
	spit(p, all);
	pid = fork();
	if (pid == 0) {
		int fd = open(p.c_str(), O_RDONLY);
		dup2(fd, 0);
		close(fd);
		struct fstrm_reader *r = mkreader("-");
		const uint8_t *q;
		size_t len, i = 0;
		fstrm_res res;
		while ((res = fstrm_reader_read(r, &q, &len)) == fstrm_res_success) {
			if (i >= f.size() || len != f[i].size() || memcmp(q, f[i].data(), len)) _exit(2);
			i++;
		}
		bool s = stop_seen(r);
		if (cut == 0 && (res != fstrm_res_stop || i != f.size() || !s)) _exit(3);
		if (cut && s) _exit(4);
		fstrm_reader_destroy(&r);
		_exit(0);
	}
	waitpid(pid, &st, 0);
	CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "reading standard input: code %d", WEXITSTATUS(st));
	mc::steps(n);
	mc::state(n * 100 + size * 10 + cut);
	unlink(p.c_str());
}
static void again() // a writer that is opened again starts the file again; two readers on one file are independent
{
	Disk d;
	disk = &d;
	int a = mc::choose(3, "first"), b = mc::choose(3, "second");
	struct fstrm_writer *w = mkwriter(path());
	CHECK(fstrm_writer_open(w) == fstrm_res_success, "open");
	for (int i = 0; i < a; i++) CHECK(fstrm_writer_write(w, "aaaa", 4) == fstrm_res_success, "write");
	CHECK(fstrm_writer_close(w) == fstrm_res_success, "close");
	CHECK(fstrm_writer_open(w) == fstrm_res_success, "second open");
	std::vector<B> f;
	for (int i = 0; i < b; i++) { f.push_back("bb"); CHECK(fstrm_writer_write(w, "bb", 2) == fstrm_res_success, "write"); }
	CHECK(fstrm_writer_close(w) == fstrm_res_success, "second close");
	fstrm_writer_destroy(&w);
	CHECK(slurp(path()) == stream(f), "a file that is opened again holds something else");
	struct fstrm_reader *r1 = mkreader(path()), *r2 = mkreader(path());
	const uint8_t *p;
	size_t n;
	for (int i = 0; i < b; i++) {
		CHECK(fstrm_reader_read(r1, &p, &n) == fstrm_res_success && n == 2, "read");
		CHECK(fstrm_reader_read(r2, &p, &n) == fstrm_res_success && n == 2, "read");
	}
	CHECK(fstrm_reader_read(r1, &p, &n) == fstrm_res_stop && fstrm_reader_read(r2, &p, &n) == fstrm_res_stop, "stop");
	mc::steps(a + b);
	fstrm_reader_destroy(&r1);
	fstrm_reader_destroy(&r2);
	balance();
	mc::state(a * 3 + b);
	unlink(path().c_str());
}
// two files, written and then read in every order of the calls
static void both(bool reading)
{
	Disk d;
	disk = &d;
	std::vector<B> f[2] = {{"a", data(4090, 1), "ccc"}, {data(300, 7), "y", data(5000, 3)}};
	B p[2] = {path(), path() + "2"};
	auto order = [&](auto step) {
		int pc[2] = {0, 0};
		while (pc[0] < 6 || pc[1] < 6) {
			int i = pc[0] > 5 ? 1 : pc[1] > 5 ? 0 : mc::choose(2, "turn");
			step(i, pc[i]++);
			mc::steps();
		}
	};
	struct fstrm_writer *w[2];
	auto wr = [&](int i, int k) {
		if (k == 0) { w[i] = mkwriter(p[i]); CHECK(fstrm_writer_open(w[i]) == fstrm_res_success, "open"); }
		else if (k < 4) CHECK(fstrm_writer_write(w[i], f[i][k - 1].data(), f[i][k - 1].size()) == fstrm_res_success, "write");
		else if (k == 4) { CHECK(fstrm_writer_close(w[i]) == fstrm_res_success, "close"); CHECK(slurp(p[i]) == stream(f[i]), "file %d holds something else", i); }
		else fstrm_writer_destroy(&w[i]);
	};
	struct fstrm_reader *r[2];
	const uint8_t *last[2] = {};
	auto rd = [&](int i, int k) {
		size_t n;
		const uint8_t *q;
		if (last[i]) CHECK(B((const char *)last[i], f[i][k - 2].size()) == f[i][k - 2], "the frame that was read from file %d changed", i);
		last[i] = nullptr;
		if (k == 0) { r[i] = mkreader(p[i]); CHECK(fstrm_reader_open(r[i]) == fstrm_res_success, "open"); }
		else if (k < 4) {
			CHECK(fstrm_reader_read(r[i], &q, &n) == fstrm_res_success && B((const char *)q, n) == f[i][k - 1], "file %d, frame %d: other data", i, k);
			last[i] = q;
		} else if (k == 4) CHECK(fstrm_reader_read(r[i], &q, &n) == fstrm_res_stop, "file %d: no stop", i);
		else fstrm_reader_destroy(&r[i]);
	};
	if (reading) { for (int i = 0; i < 2; i++) for (int k = 0; k < 6; k++) wr(i, k); order(rd); }
	else { order(wr); for (int i = 0; i < 2; i++) for (int k = 0; k < 6; k++) rd(i, k); }
	balance();
	mc::state(reading);
	for (auto &x : p) unlink(x.c_str());
}
// every byte in the name of the file
static void odd_names()
{
	Disk d;
	disk = &d;
	if (chdir(mc::scratch().c_str())) abort();
	int c = 1 + mc::choose(255, "byte"), where = mc::choose(4, "where");
	if (c == '/') mc::prune();
	std::string p = where == 0 ? B(1, c) : where == 1 ? B(1, c) + "f" : where == 2 ? "f" + B(1, c) : "f" + B(1, c) + "f";
	if (p == "-" || p == ".") mc::prune();
	std::vector<B> f = {"a", data(20, c)};
	struct fstrm_writer *w = mkwriter(p);
	for (auto &x : f) CHECK(fstrm_writer_write(w, x.data(), x.size()) == fstrm_res_success, "write to %s", hex(p).c_str());
	CHECK(fstrm_writer_close(w) == fstrm_res_success, "close");
	fstrm_writer_destroy(&w);
	CHECK(!access(p.c_str(), F_OK) && slurp(p) == stream(f), "the file %s holds something else", hex(p).c_str());
	readback(p, f, true);
	balance();
	mc::state(mc::hash(p));
	unlink(p.c_str());
}
void mc_setup()
{
	bool th = mc::thorough();
	mc::config.before = [] { env::forget_allocations(); };
	env::h.fopen = k_fopen;
	env::h.fclose = k_fclose;
	mc::config.note = "one execution = frames written to a real file (stdio over a device that fails after a chosen number of bytes, at close or at open) and read back, or a stream truncated or unreadable from a chosen byte on; states = distinct (file contents, result)";
	mc::config.assumptions = {"a device that failed a write keeps failing; C library buffering is the real one (unbuffered, 64 bytes, default)"};
	loads = {{}, {"a"}, {"abc", "d", data(30, 1)}, {data(200, 1), data(3, 2)}, {data(64, 1), data(60, 2), data(1, 3), data(7, 4), data(7, 5)}, {data(4096, 1), "zz"}};
	if (th) { loads.push_back({data(9000, 1), data(100, 2), data(4095, 3)}); }
	size_t top = th ? 20000 : 1500;
	for (size_t lo = 1; lo < top; lo += 250) mc::scenario("sizes from " + std::to_string(lo), [=] { sizes(lo, lo + 250); });
	for (size_t lo : {4070, 8170, 12270, 16370, 32750, 65520, 131050, 1048550}) mc::scenario("sizes from " + std::to_string(lo), [=] { sizes(lo, lo + 40); });
	mc::scenario("lists", lists);
	mc::scenario("counts", counts);
	for (size_t i = 0; i < loads.size(); i++) {
		auto f = loads[i];
		mc::scenario("write errors " + std::to_string(i), [=] { write_errors(f); });
		mc::scenario("crash " + std::to_string(i), [=] { crash(f); });
		mc::scenario("read errors " + std::to_string(i), [=] { read_errors(f); });
	}
	mc::scenario("opens", opens);
	mc::scenario("standard input and output", standard);
	mc::scenario("again", again);
	mc::scenario("odd names", odd_names);
	mc::scenario("two writers", [] { both(false); });
	mc::scenario("two readers", [] { both(true); });
}
