// C17: a failed output is reopened at the configured pace.
#include "iothr.hpp"
#include "iolong.hpp"
const char *mc_property = "C17";
void mc_setup()
{
	conc::monitor(M);
	bool t = mc::thorough();
	add_longs(70000);
	for (uint32_t n : {1, 2, 5, 20, 300, 70000}) add_outage(n);
	for (bool mpsc : {false, true})
		for (bool bidir : {false, true})
			for (int reopen : {1, 2, 4})
				for (int ft : {1, 2, 3})
				{
					if (mpsc && (reopen != 2 || ft != 1)) continue;
					if (!t && ft == 3 && reopen != 2) continue;
					S s;
					s.mpsc = mpsc; s.bidir = bidir; s.reopen = reopen; s.ft = ft; s.timeouts = 0; s.mode = 3; s.insz = 4; s.outsz = 2;
					s.faults = t ? 3 : 2; s.steps = t ? 7 : reopen == 2 && ft == 1 ? (bidir || mpsc ? 4 : 5) : bidir || mpsc ? 3 : 4;
					add(s);
					if (t) {
						s.nq = 2;
						add(s);
					}
					if (!bidir && (t || ft == 1) && !mpsc) { s.nq = 1; s.faults = t ? 6 : 4; s.steps = t ? 8 : 3; add(s); }
				}
	// clocks that start low (the machine was booted a moment ago), and between two seconds
	for (long up : {0, 1, 3})
		for (int reopen : {2, 4}) {
			S s;
			s.mode = 3; s.reopen = reopen; s.insz = 4; s.outsz = 2; s.faults = 2; s.timeouts = 0; s.steps = t ? 6 : 3; s.uptime = up; s.nsec = up == 1 ? 999999999 : 0;
			add(s);
		}
	// producers that never let the queue become empty
	for (bool mpsc : {false, true})
		for (bool bidir : {false, true}) {
			S s;
			s.mpsc = mpsc; s.bidir = bidir; s.mode = 5; s.reopen = 2; s.ft = 3; s.insz = 4; s.outsz = 2; s.faults = t ? 3 : 2; s.timeouts = 0; s.steps = 12; s.deviations = t ? 2 : 0;
			add(s);
		}
	// somebody sets the wall clock
	for (int reopen : {1, 3})
		for (bool bidir : {false, true}) {
			S s;
			s.mode = 3; s.bidir = bidir; s.reopen = reopen; s.insz = 4; s.outsz = 2; s.faults = 2; s.timeouts = 0; s.steps = t ? 6 : bidir ? 3 : 4; s.jumps = t ? 2 : 1;
			add(s);
		}
	// the passing of time at any moment: pace is not judged then, the rest is
	for (bool bidir : {false, true}) {
		S s;
		s.bidir = bidir; s.mode = 3; s.reopen = 1; s.insz = 4; s.outsz = 2; s.faults = 2; s.timeouts = t ? 4 : 1; s.steps = t ? 5 : bidir ? 2 : 3;
		add(s);
	}
	mc::config.note = "every sequence of submissions, seconds passing and (up to once or twice) changes of the wall clock, every pattern of transport failures (open, read, write with nothing or everything sent, close) and every interleaving of client and I/O thread; "
		"each attempt to open must come at least the interval after the last one, and no later than one flush timeout after it is due; each connection has to carry a complete stream of its own";
	mc::config.assumptions = {"memory is sequentially consistent (interleavings only; no store buffers)", "accesses that were never seen to race (happens-before) in any explored execution are not switch points",
		"where the pace is judged, time passes (in whole seconds) only when no thread can run", "two states with the same 64-bit hash are taken to be the same"};
}
