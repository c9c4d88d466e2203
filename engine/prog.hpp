// Runs a whole program (its main() renamed to vp_main) again and again inside one process: its globals are put back
// before every run, its standard streams are ours, exit() ends the run, and it can be suspended wherever it would block
// in epoll_wait.
#pragma once
#include "env.hpp"
#include "mc.hpp"
#include <string>
#include <vector>
namespace prog {
typedef std::vector<std::string> Args;
enum Why { ENDED, IDLE };
// Starts it; returns when it ended or is idle.
Why start(const Args &a);
Why resume();
bool running();
extern int code;                       // exit status
extern bool called_exit;               // ended by exit()
extern FILE *out, *in;                 // stand for its stdout and stdin (null: real)
extern bool quiet;                     // its stderr is dropped
extern std::string errors;             // if not quiet: its stderr
// Called in epoll_wait (program side) with what is ready; returns how many of them (moved to the front) are delivered;
// -1: the program stays suspended until resume(); -2: interrupted by a signal (EINTR).
struct Ready { int fd; void *ev; };
extern int (*poll_hook)(int epfd, void *events, int n, int timeout);
extern unsigned polls;
// file descriptors open, from 3 on
extern int top; // the program's descriptors are below
unsigned fds();
// everything the program left open or allocated is dropped
void cleanup(unsigned from_fd);
}
