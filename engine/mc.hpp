// Exhaustive exploration of bounded choice trees over the real code (stateless search).
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace mc {
// Every alternative 0..n-1 is explored.
int choose(int n, const char *label = "");
// As choose(), but alternative 0 is the default and any other one uses up one of the scenario's deviations.
int deviate(int n, const char *label = "");
int deviations_left();
// The property is broken in this execution.
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// The execution is outside of what is explored (counted).
[[noreturn]] void prune();
// Shown when an execution is replayed.
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool replaying();
void state(uint64_t h);        // a reached (model + implementation observation) state
void outcome(const std::string &s); // what an execution ended with
void steps(unsigned n = 1);    // transitions: operations of the implementation compared with the reference
bool thorough();
// fork: every execution in a process of its own
void scenario(const std::string &name, std::function<void()> f, int deviations = 0, bool fork = false);
struct Config {
	bool fork_each = false;     // run every execution in a process of its own
	double exec_timeout = 20;   // seconds
	double deadline = 0;        // seconds; 0: by tier
	int workers = 8;
	void (*before)() = nullptr; // called before every execution
	std::string note;
	std::vector<std::string> assumptions;
};
extern Config config;
// For stateful exploration (conc.cpp): the next choice has not been made before / this state was reached before (and its
// continuations are, or are being, explored) / what is explored changes: start again.
bool fresh();
bool visited(uint64_t h);
void restart();
int scenario_id();
unsigned position();           // choices made so far
unsigned serial();             // changes when the next execution does not share its prefix with the last one
// Provided by conc.cpp: text for replay files, and what happens before the workers start (again).
std::string save_text() __attribute__((weak));
void load_text(const std::string &) __attribute__((weak));
void freeze() __attribute__((weak));
// scratch directory of this worker (exists, private)
const std::string &scratch();

inline uint64_t mix(uint64_t h, uint64_t v)
{
	h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdULL;
	return h ^ (h >> 32);
}
inline uint64_t hash(const void *p, size_t n, uint64_t h = 1469598103934665603ULL)
{
	const unsigned char *c = (const unsigned char *)p;
	while (n >= 8) { uint64_t v; memcpy(&v, c, 8); h = mix(h, v); c += 8; n -= 8; }
	uint64_t v = n; for (size_t i = 0; i < n; i++) v = (v << 8) | c[i];
	return mix(h, v);
}
inline uint64_t hash(const std::string &s, uint64_t h = 1469598103934665603ULL) { return hash(s.data(), s.size(), h); }
}
extern const char *mc_property;
void mc_setup();

#define CHECK(c, ...) do { if (!(c)) mc::fail(__VA_ARGS__); } while (0)
