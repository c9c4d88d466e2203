#include "mc.hpp"
#include <atomic>
#include <cerrno>
#include <cstdlib>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <dirent.h>

extern "C" const char *__asan_default_options() __attribute__((weak));
extern "C" const char *__asan_default_options()
{
	return "detect_leaks=0:quarantine_size_mb=8:thread_local_quarantine_size_kb=64:exitcode=99:"
	       "allocator_may_return_null=1:handle_abort=0:max_allocation_size_mb=3000:"
	       "detect_stack_use_after_return=0:malloc_context_size=6:symbolize=0";
}

namespace mc {
Config config;
enum { MAXC = 8192, MAXITEM = 2048, ITEMC = 192, MAXW = 16 };

struct Scen { std::string name; std::function<void()> f; int devs; bool fork; };
static std::vector<Scen> scens;

struct Slot {
	std::atomic<int> running; // an execution is in progress
	std::atomic<int> idle;
	int scen, base, len, pos, devs;
	double t0;
	uint64_t execs, steps, prunes, diverged, choices, revisits;
	unsigned serial;
	int failed, overflow;
	char msg[8192];
	int choice[MAXC], n[MAXC];
	char dev[MAXC];
};
struct Item { int scen, base, len; int choice[ITEMC], n[ITEMC]; char dev[ITEMC]; };
struct Sample { std::atomic<int> used; char text[1600]; };
enum { NSAMPLE = 10 };
struct Shared {
	pthread_mutex_t mu;
	std::atomic<int> next, nitems, stop, idle, active, restart;
	std::atomic<uint64_t> nstates, noutcomes;
	std::atomic<int> saturated;
	Item items[MAXITEM];
	Slot slot[MAXW + 1];
	Sample sample[NSAMPLE];
};
static Shared *sh;
static std::atomic<uint64_t> *stateset, *outset;
static uint64_t state_mask, out_mask;
static Slot *me;
static int my_id;
static bool replay_mode, tier_thorough;
static std::string build_dir, scratch_dir, trace_text, last_outcome;
struct PruneEx {};

static double now()
{
	struct timespec ts;
	syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); // prog.cpp replaces clock_gettime()
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}

bool thorough() { return tier_thorough; }
bool replaying() { return replay_mode; }
const std::string &scratch() { return scratch_dir; }
int deviations_left() { return me->devs; }

static bool set_insert(std::atomic<uint64_t> *t, uint64_t mask, uint64_t h)
{
	if (h == 0) h = 1;
	uint64_t i = (h * 0x9e3779b97f4a7c15ULL) & mask;
	for (int probe = 0; probe < 256; probe++, i = (i + 1) & mask) {
		uint64_t cur = t[i].load(std::memory_order_relaxed);
		if (cur == h) return false;
		if (cur == 0) {
			if (t[i].compare_exchange_strong(cur, h)) return true;
			if (cur == h) return false;
		}
	}
	sh->saturated = 1;
	return false;
}
void state(uint64_t h) { if (set_insert(stateset, state_mask, h)) sh->nstates++; }
bool fresh() { return me->pos >= me->len && !replay_mode; }
bool visited(uint64_t h)
{
	if (sh->saturated) return false;
	if (set_insert(stateset, state_mask, h)) { sh->nstates++; return false; }
	if (sh->saturated) return false;
	me->revisits++;
	return true;
}
void restart()
{
	if (replay_mode) return;
	sh->restart = 1;
	sh->stop = 1;
	_exit(0);
}
int scenario_id() { return me->scen; }
unsigned position() { return me->pos; }
unsigned serial() { return me->serial; }
void outcome(const std::string &s)
{
	if (replay_mode) { note("outcome: %s", s.c_str()); }
	last_outcome = s;
	if (set_insert(outset, out_mask, hash(s))) sh->noutcomes++;
}
void steps(unsigned n) { me->steps += n; }

static void vnote(const char *fmt, va_list ap)
{
	char b[4096];
	vsnprintf(b, sizeof b, fmt, ap);
	trace_text += b;
	trace_text += "\n";
	if (replay_mode) { dprintf(2, "  %s\n", b); }
}
void note(const char *fmt, ...)
{
	if (!replay_mode) return;
	va_list ap; va_start(ap, fmt); vnote(fmt, ap); va_end(ap);
}
void fail(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(me->msg, sizeof me->msg, fmt, ap);
	va_end(ap);
	me->failed = 1;
	if (replay_mode) dprintf(2, "  FAILED: %s\n", me->msg);
	_exit(3);
}
void prune() { throw PruneEx(); }

static char labelbuf[1200];
static int choose_(int n, bool dev, const char *label)
{
	if (n <= 0) { fprintf(stderr, "mc: choose(%d, %s)\n", n, label); abort(); }
	if (dev && me->devs <= 0) n = 1;
	if (n == 1) return 0;
	int p = me->pos;
	if (p >= MAXC) { snprintf(me->msg, sizeof me->msg, "more than %d choices in one execution (%s)", MAXC, label); me->overflow = 1; _exit(4); }
	if (p < me->len) {
		if (me->n[p] != n) {
			// not the same tree: the execution is not deterministic
			snprintf(me->msg, sizeof me->msg, "choice %d (%s): %d alternatives, were %d", p, label, n, me->n[p]);
			me->diverged++;
			if (me->choice[p] >= n) me->choice[p] = n - 1;
			me->n[p] = n;
		}
	} else {
		me->choice[p] = 0;
		me->n[p] = n;
		me->dev[p] = dev;
		me->len = p + 1;
	}
	me->pos = p + 1;
	me->choices++;
	int v = me->choice[p];
	if (dev && v > 0) me->devs--;
	size_t l = strlen(labelbuf);
	if (l < sizeof labelbuf - 80) snprintf(labelbuf + l, sizeof labelbuf - l, " %.40s=%d", label, v);
	if (replay_mode) dprintf(2, "  [%d] %s = %d of %d\n", p, label, v, n);
	return v;
}
int choose(int n, const char *label) { return choose_(n, false, label); }
int deviate(int n, const char *label) { return choose_(n, true, label); }
void scenario(const std::string &name, std::function<void()> f, int d, bool fk) { scens.push_back({name, f, d, fk}); }

static void lock() { int r = pthread_mutex_lock(&sh->mu); if (r == EOWNERDEAD) pthread_mutex_consistent(&sh->mu); }
static void unlock() { pthread_mutex_unlock(&sh->mu); }

static void body_once()
{
	me->pos = 0;
	me->devs = scens[me->scen].devs;
	labelbuf[0] = 0;
	last_outcome.clear();
	if (config.before) config.before();
	try { scens[me->scen].f(); } catch (PruneEx &) { me->prunes++; }
}
static void take_sample(bool first)
{
	for (int i = first ? 0 : 3; i < (first ? 3 : NSAMPLE); i++) {
		int z = 0;
		if (sh->sample[i].used.load() == 0 && sh->sample[i].used.compare_exchange_strong(z, 1)) {
			snprintf(sh->sample[i].text, sizeof sh->sample[i].text, "%.300s:%.900s%s%.300s", scens[me->scen].name.c_str(),
				 labelbuf, last_outcome.empty() ? "" : " -> ", last_outcome.c_str());
			return;
		}
	}
}
// Runs the current path of the slot once; returns false if the process must end (code in *rc).
static bool execute(int *rc)
{
	me->t0 = now();
	me->running = 1;
	if (!config.fork_each && !scens[me->scen].fork) {
		body_once();
	} else {
		pid_t pid = fork();
		if (pid == 0) {
			body_once();
			// The outcome text goes back through the slot.
			snprintf(me->msg, sizeof me->msg, "%s\x01%s", labelbuf, last_outcome.c_str());
			_exit(0);
		}
		int st;
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
		if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
			if (!me->failed && !me->overflow)
				snprintf(me->msg, sizeof me->msg, "the program ended abnormally (%s %d)",
					 WIFSIGNALED(st) ? "signal" : "exit code", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
			*rc = WIFEXITED(st) ? WEXITSTATUS(st) : 98;
			if (*rc == 0) *rc = 98;
			return false;
		}
		char *sep = strchr(me->msg, 1);
		if (sep) { *sep = 0; snprintf(labelbuf, sizeof labelbuf, "%.1190s", me->msg); last_outcome = sep + 1; }
		me->msg[0] = 0;
	}
	me->running = 0;
	me->execs++;
	return true;
}
static void donate()
{
	if (sh->idle.load() == 0 || sh->nitems.load() > 32) return;
	for (int i = me->base; i < me->len && i < ITEMC; i++) {
		if (me->choice[i] + 1 >= me->n[i]) continue;
		lock();
		for (int v = me->choice[i] + 1; v < me->n[i] && sh->nitems < MAXITEM; v++) {
			Item &it = sh->items[sh->nitems];
			it.scen = me->scen;
			it.base = it.len = i + 1;
			memcpy(it.choice, me->choice, (i + 1) * sizeof(int));
			memcpy(it.n, me->n, (i + 1) * sizeof(int));
			memcpy(it.dev, me->dev, i + 1);
			it.choice[i] = v;
			sh->nitems++;
			if (v + 1 == me->n[i]) {
				// all donated
				me->base = i + 1;
				unlock();
				return;
			}
		}
		unlock();
		// could not give away all of them: keep everything (a few duplicates at worst)
		return;
	}
}
static bool get_item()
{
	bool was_idle = false;
	for (;;) {
		if (sh->stop) return false;
		lock();
		if (sh->next < (int)scens.size()) {
			me->scen = sh->next++;
			me->base = me->len = 0;
			if (was_idle) sh->idle--;
			unlock();
			return true;
		}
		if (sh->nitems > 0) {
			Item &it = sh->items[--sh->nitems];
			me->scen = it.scen;
			me->base = it.base;
			me->len = it.len;
			memcpy(me->choice, it.choice, it.len * sizeof(int));
			memcpy(me->n, it.n, it.len * sizeof(int));
			memcpy(me->dev, it.dev, it.len);
			if (was_idle) sh->idle--;
			unlock();
			return true;
		}
		if (!was_idle) { was_idle = true; sh->idle++; }
		bool done = sh->idle >= sh->active;
		unlock();
		if (done) return false;
		usleep(500);
	}
}
static void worker(bool resume)
{
	for (;;) {
		bool first = me->len == 0;
		if (!resume && !get_item()) return;
		first = me->len == 0;
		resume = false;
		me->serial++;
		for (;;) {
			if (sh->stop) return;
			int rc;
			if (!execute(&rc)) _exit(rc);
			if (first || me->execs % 1777 == 1700) { take_sample(first); first = false; }
			if (me->pos < me->len) me->len = me->pos; // only after a divergence
			donate();
			while (me->len > me->base && me->choice[me->len - 1] + 1 >= me->n[me->len - 1]) me->len--;
			if (me->len <= me->base) break;
			me->choice[me->len - 1]++;
		}
	}
}

static void rm_rf(const std::string &d)
{
	DIR *p = opendir(d.c_str());
	if (!p) return;
	while (struct dirent *e = readdir(p)) {
		if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
		std::string f = d + "/" + e->d_name;
		struct stat st;
		if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { chmod(f.c_str(), 0700); rm_rf(f); } else unlink(f.c_str());
	}
	closedir(p);
	rmdir(d.c_str());
}
static std::string base_scratch;
static pid_t spawn(int id, bool resume)
{
	Slot *s = &sh->slot[id];
	s->running = 0;
	pid_t pid = fork();
	if (pid) return pid;
	my_id = id;
	me = s;
	setpgid(0, 0);
	me->failed = 0;
	me->msg[0] = 0;
	std::string log = build_dir + "/w" + std::to_string(id) + ".err";
	int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
	if (fd >= 0) { dup2(fd, 2); if (!getenv("MC_STDOUT")) dup2(fd, 1); close(fd); }
	scratch_dir = base_scratch + "/w" + std::to_string(id);
	mkdir(scratch_dir.c_str(), 0700);
	worker(resume);
	_exit(0);
}

static std::string json(const std::string &s)
{
	std::string o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o + "\"";
}
static std::string slurp(const std::string &f, size_t max)
{
	std::string r;
	FILE *fp = fopen(f.c_str(), "r");
	if (!fp) return r;
	char b[4096];
	size_t n;
	while ((n = fread(b, 1, sizeof b, fp)) > 0) r.append(b, n);
	fclose(fp);
	if (r.size() > max) r = r.substr(0, max);
	return r;
}

// Runs one path alone. Returns 0 if it passed; otherwise fills why.
static int run_alone(const std::string &scen, const std::vector<int> &c, const std::vector<int> &n, double limit, bool verbose, std::string &why)
{
	int idx = -1;
	for (size_t i = 0; i < scens.size(); i++) if (scens[i].name == scen) idx = i;
	if (idx < 0) { why = "no such scenario: " + scen; return -1; }
	Slot *s = &sh->slot[MAXW];
	s->scen = idx;
	s->base = s->len = c.size();
	for (size_t i = 0; i < c.size(); i++) { s->choice[i] = c[i]; s->n[i] = n[i]; }
	s->failed = 0;
	s->diverged = 0;
	s->overflow = 0;
	s->msg[0] = 0;
	std::string log = build_dir + "/replay.err";
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if (pid == 0) {
		setpgid(0, 0);
		me = s;
		replay_mode = true;
		if (!verbose) {
			int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
			dup2(fd, 2); dup2(fd, 1);
		}
		scratch_dir = base_scratch + "/r";
		rm_rf(scratch_dir);
		mkdir(scratch_dir.c_str(), 0700);
		int rc;
		if (!execute(&rc)) _exit(rc);
		_exit(0);
	}
	double t = now();
	int st;
	for (;;) {
		pid_t r = waitpid(pid, &st, WNOHANG);
		if (r == pid) break;
		if (now() - t > limit) {
			kill(-pid, SIGKILL); kill(pid, SIGKILL);
			waitpid(pid, &st, 0);
			why = "the execution does not end (no progress for " + std::to_string((int)limit) + " s)";
			return 1;
		}
		usleep(1000);
	}
	if (s->overflow) { why = s->msg; return 2; }
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
	if (s->failed || s->msg[0]) why = s->msg;
	else {
		char b[200];
		if (WIFSIGNALED(st)) snprintf(b, 200, "crash: signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
		else if (WEXITSTATUS(st) == 99) snprintf(b, 200, "memory error (AddressSanitizer)");
		else snprintf(b, 200, "the process exited with code %d", WEXITSTATUS(st));
		why = b;
		std::string e = slurp(log, 100000);
		size_t p = e.find("ERROR: AddressSanitizer");
		if (p == std::string::npos) p = e.find("Assertion");
		if (p != std::string::npos) why += ": " + e.substr(p, 300);
	}
	return 1;
}

int main_(int argc, char **argv)
{
	setvbuf(stdout, nullptr, _IOLBF, 0);
	double t_start = getenv("MC_T0") ? 0 : now();
	std::string evidence, replay_file, replay_out, only;
	build_dir = ".";
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--evidence") evidence = val();
		else if (a == "--build-dir") build_dir = val();
		else if (a == "--replay") replay_file = val();
		else if (a == "--replay-out") replay_out = val();
		else if (a == "--only") only = val();
		else if (a == "--workers") config.workers = atoi(val().c_str());
		else if (a == "--thorough") tier_thorough = true;
		else if (a == "--list") only = "--list";
	}
	base_scratch = "/tmp/vp-fstrm-XXXXXX";
	if (!mkdtemp(&base_scratch[0])) { perror("mkdtemp"); return 2; }
	chmod(base_scratch.c_str(), 0700);
	sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	state_mask = (tier_thorough ? 1ULL << 29 : 1ULL << 25) - 1;
	out_mask = (1ULL << 20) - 1;
	stateset = (std::atomic<uint64_t> *)mmap(nullptr, (state_mask + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	outset = (std::atomic<uint64_t> *)mmap(nullptr, (out_mask + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (sh == MAP_FAILED || stateset == MAP_FAILED || outset == MAP_FAILED) { perror("mmap"); return 2; }
	pthread_mutexattr_t ma;
	pthread_mutexattr_init(&ma);
	pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED);
	pthread_mutexattr_setrobust(&ma, PTHREAD_MUTEX_ROBUST);
	pthread_mutex_init(&sh->mu, &ma);
	mc_setup();
	if (!only.empty()) {
		std::vector<Scen> k;
		for (auto &s : scens) {
			if (only == "--list") printf("%s\n", s.name.c_str());
			if (s.name.find(only) != std::string::npos) k.push_back(s);
		}
		if (only == "--list") { rm_rf(base_scratch); return 0; }
		scens = k;
	}
	if (!replay_file.empty()) {
		std::string t = slurp(replay_file, 10000000), name;
		std::vector<int> c, n;
		// lines: "scenario: NAME", "choices: v/n v/n ..."
		size_t p = t.find("scenario: ");
		if (p == std::string::npos) { fprintf(stderr, "bad replay file\n"); return 2; }
		name = t.substr(p + 10, t.find('\n', p) - p - 10);
		p = t.find("choices:");
		if (p != std::string::npos) {
			const char *q = t.c_str() + p + 8;
			int a, b, k;
			while (sscanf(q, " %d/%d%n", &a, &b, &k) == 2) { c.push_back(a); n.push_back(b); q += k; }
		}
		if (load_text) load_text(t);
		std::string why;
		int r = run_alone(name, c, n, config.exec_timeout * 3, true, why);
		rm_rf(base_scratch);
		if (r == 1) { printf("replay: FAILED: %s\n", why.c_str()); return 1; }
		printf("replay: %s\n", r == 0 ? "passed" : why.c_str());
		return r == 0 ? 0 : 2;
	}
	double deadline = now() + (config.deadline > 0 ? config.deadline : tier_thorough ? 3600 * 4 : 540);
	if (getenv("MC_DEADLINE")) deadline = now() + atof(getenv("MC_DEADLINE"));
	int nw = config.workers;
	if (nw > MAXW) nw = MAXW;
	pid_t pids[MAXW];
	sh->active = nw;
	if (freeze) freeze();
	for (int i = 0; i < nw; i++) pids[i] = spawn(i, false);
	int left = nw, spurious = 0, rc = 0, restarts = 0;
	bool timed_out = false;
	std::string why, vscen;
	std::vector<int> vc, vn;
	bool violation = false;
	auto suspect = [&](int id, bool hang, int st) {
		Slot *s = &sh->slot[id];
		std::string log = slurp(build_dir + "/w" + std::to_string(id) + ".err", 3000);
		if (s->overflow) { fprintf(stderr, "error: %s in %s\n", s->msg, scens[s->scen].name.c_str()); rc = 2; sh->stop = 1; return; }
		std::vector<int> c(s->choice, s->choice + s->len), n(s->n, s->n + s->len);
		std::string name = scens[s->scen].name, w1, w2, orig = s->msg;
		int a = run_alone(name, c, n, config.exec_timeout * (hang ? 3 : 1.5), false, w1);
		int b = a == 1 ? run_alone(name, c, n, config.exec_timeout * (hang ? 3 : 1.5), false, w2) : 0;
		if (a == 1 && b == 1) {
			violation = true; vscen = name; vc = c; vn = n; why = w1; sh->stop = 1;
			return;
		}
		spurious++;
		fprintf(stderr, "note: a failure in %s could not be reproduced (%s%s, status %x; %s)\n", name.c_str(), hang ? "hang " : "", orig.c_str(), st, log.c_str());
		if (getenv("MC_DEBUG")) { for (size_t i = 0; i < c.size(); i++) if (c[i]) fprintf(stderr, " %zu:%d", i, c[i]); fprintf(stderr, " of %zu\n", c.size()); }
		if (spurious > 20) { fprintf(stderr, "error: executions are not deterministic\n"); rc = 2; sh->stop = 1; return; }
		pids[id] = spawn(id, true);
		left++;
	};
	while (left > 0 || (sh->restart && !violation && !rc && !timed_out)) {
		int st;
		if (left == 0) {
			restarts++;
			for (int i = 0; i < nw; i++) {
				Slot *s = &sh->slot[i];
				s->execs = s->steps = s->prunes = s->diverged = s->choices = s->revisits = 0;
				s->len = s->base = s->pos = 0;
			}
			for (int i = 0; i < NSAMPLE; i++) sh->sample[i].used = 0;
			madvise(stateset, (state_mask + 1) * 8, MADV_REMOVE);
			madvise(outset, (out_mask + 1) * 8, MADV_REMOVE);
			sh->next = sh->nitems = sh->idle = sh->restart = sh->stop = sh->saturated = 0;
			sh->nstates = sh->noutcomes = 0;
			if (freeze) freeze();
			left = nw;
			for (int i = 0; i < nw; i++) pids[i] = spawn(i, false);
		}
		pid_t p = waitpid(-1, &st, WNOHANG);
		if (p > 0) {
			int id = -1;
			for (int i = 0; i < nw; i++) if (pids[i] == p) id = i;
			if (id < 0) continue;
			left--;
			kill(-p, SIGKILL); // whatever it left running
			pids[id] = -1;
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
			if (violation || rc || (sh->stop && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) continue;
			suspect(id, false, st);
			continue;
		}
		if (sh->stop) for (int i = 0; i < nw; i++) if (pids[i] > 0) { kill(-pids[i], SIGKILL); kill(pids[i], SIGKILL); }
		double t = now();
		if (t > deadline && !sh->stop) { timed_out = true; sh->stop = 1; continue; }
		for (int i = 0; i < nw; i++) {
			Slot *s = &sh->slot[i];
			if (pids[i] > 0 && s->running && t - s->t0 > config.exec_timeout && !sh->stop) {
				if (getenv("MC_DEBUG")) {
					char cmd[200];
					snprintf(cmd, sizeof cmd, "cat /proc/%d/status /proc/%d/wchan >/tmp/hang.%d; gdb -p %d -batch -ex 'thread apply all bt' >>/tmp/hang.%d 2>&1", pids[i], pids[i], pids[i], pids[i], pids[i]);
					if (system(cmd)) {}
				}
				kill(-pids[i], SIGKILL); kill(pids[i], SIGKILL);
				waitpid(pids[i], &st, 0);
				pids[i] = -1;
				left--;
				suspect(i, true, 0);
			}
		}
		usleep(2000);
	}
	rm_rf(base_scratch);
	uint64_t execs = 0, steps = 0, prunes = 0, diverged = 0, choices = 0, revisits = 0;
	for (int i = 0; i < nw; i++) {
		Slot *s = &sh->slot[i];
		execs += s->execs; steps += s->steps; prunes += s->prunes; diverged += s->diverged; choices += s->choices; revisits += s->revisits;
	}
	if (diverged) fprintf(stderr, "note: %llu divergences\n", (unsigned long long)diverged);
	double wall = getenv("MC_T0") ? 0 : now() - t_start;
	if (getenv("MC_T0")) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); wall = ts.tv_sec + ts.tv_nsec * 1e-9 - atof(getenv("MC_T0")); }
	if (!evidence.empty()) {
		FILE *f = fopen(evidence.c_str(), "w");
		if (!f) { perror(evidence.c_str()); return 2; }
		fprintf(f, "{\"property\": %s, \"tier\": \"%s\", \"seed\": %d, \"level\": \"model_checking\",\n \"coverage\": {\n", json(mc_property).c_str(),
			tier_thorough ? "thorough" : "quick", getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1);
		fprintf(f, "  \"states\": %llu, \"transitions\": %llu, \"traces_validated_against_impl\": %llu,\n",
			(unsigned long long)sh->nstates, (unsigned long long)(steps ? steps : choices), (unsigned long long)execs);
		fprintf(f, "  \"scenarios\": %zu, \"choice_points\": %llu, \"distinct_outcomes\": %llu, \"pruned\": %llu, \"diverged\": %llu, \"unreproduced_failures\": %d,\n", scens.size(),
			(unsigned long long)choices, (unsigned long long)sh->noutcomes, (unsigned long long)prunes, (unsigned long long)diverged, spurious);
		fprintf(f, "  \"revisited_states\": %llu, \"restarts\": %d,\n", (unsigned long long)revisits, restarts);
		fprintf(f, "  \"state_table_saturated\": %s, \"exhaustive\": %s,\n", sh->saturated ? "true" : "false", timed_out || violation ? "false" : "true");
		fprintf(f, "  \"rule\": %s,\n  \"samples\": [", json(config.note).c_str());
		bool c = false;
		for (int i = 0; i < NSAMPLE; i++) if (sh->sample[i].used && sh->sample[i].text[0]) { fprintf(f, "%s\n   %s", c ? "," : "", json(sh->sample[i].text).c_str()); c = true; }
		fprintf(f, "]},\n \"assumptions\": [");
		for (size_t i = 0; i < config.assumptions.size(); i++) fprintf(f, "%s%s", i ? ", " : "", json(config.assumptions[i]).c_str());
		fprintf(f, "],\n \"violations\": %d, \"wall_s\": %.2f}\n", violation ? 1 : 0, wall);
		fclose(f);
	}
	printf("%s: scenarios=%zu executions=%llu transitions=%llu states=%llu outcomes=%llu wall=%.1fs%s%s\n", mc_property, scens.size(), (unsigned long long)execs,
	       (unsigned long long)(steps ? steps : choices), (unsigned long long)sh->nstates, (unsigned long long)sh->noutcomes, wall,
	       timed_out ? " (deadline reached: not exhaustive)" : "", spurious ? " (unreproduced failures)" : "");
	if (violation) {
		if (replay_out.empty()) replay_out = build_dir + "/violation.txt";
		FILE *f = fopen(replay_out.c_str(), "w");
		if (f) {
			fprintf(f, "property: %s\nwhat: %s\nscenario: %s\nchoices:", mc_property, why.c_str(), vscen.c_str());
			for (size_t i = 0; i < vc.size(); i++) fprintf(f, " %d/%d", vc[i], vn[i]);
			fprintf(f, "\n%s", save_text ? save_text().c_str() : "");
			fprintf(f, "trace:\n%s\n", slurp(build_dir + "/replay.err", 200000).c_str());
			fclose(f);
		}
		printf("what: %s\nscenario: %s\n", why.c_str(), vscen.c_str());
		printf("VIOLATION property=%s replay=%s\n", mc_property, replay_out.c_str());
		return 1;
	}
	return rc;
}
}
int main(int argc, char **argv) { return mc::main_(argc, argv); }
