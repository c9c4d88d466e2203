// Controlled scheduler: the threads of the code under test run as fibers, every interleaving at visible operations is
// a choice of the explorer, and a state (memory, stacks, synchronisation, monitor) that was seen before is not explored again.
#pragma once
#include "mc.hpp"
#include <cstddef>
namespace conc {
enum { MAXF = 8 };
struct Options {
	int timeouts = 1000000;   // how often time may pass although something else could run
	int spurious = 0;         // spurious wake-ups of condition waits
	bool bounded = false;     // switching away from a thread that could go on costs one deviation
	bool accesses = true;     // racing memory accesses are visible operations
	bool single = false;      // one schedule only: a thread goes on until it blocks (for very long executions; no states are kept)
	int max_steps = 200000;
	long uptime = 100000;     // what the monotonic clock shows at the start
	long nsec = 0;            // and the fraction of a second all clocks show
};
extern Options opt;
// Memory that belongs to the state: cleared before each execution, hashed at every decision.
void monitor(void *p, size_t n);
template <class T> void monitor(T &t) { monitor(&t, sizeof t); }
void prepare();            // start of an execution (clears the monitors)
// One execution: body runs as fiber 0; ends when all fibers have ended.
void run(void (*body)(void *), void *arg);
// For fibers:
int spawn(void (*f)(void *), void *arg);
void join(int fiber);
void yield(const char *what);                            // a visible operation
void wait(bool (*pred)(void *), void *arg, const char *what); // block until it holds (a visible operation)
bool wait_until(bool (*pred)(void *), void *arg, long deadline, const char *what); // false: time is up
int choose(int n, const char *label);
void sleep(long seconds);
void set_clock(long delta);                              // somebody sets the wall clock
int self();
long now();                                              // virtual seconds
uint64_t step();                                         // scheduling steps so far
bool alive(int fiber);
void *alloc(size_t n);                                   // memory whose use after release is noticed
void dealloc(void *p);
void readable(const void *p, size_t n);                   // fails unless this is allocated memory (or none of ours)
size_t live_blocks(), live_bytes();
void scrub(void *p, size_t n);                          // clears memory that does not matter any more (a smaller state)
bool is_live(const void *p);
}
