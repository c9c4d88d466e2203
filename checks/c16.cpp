// C16: the I/O thread always terminates and never strands data.
#include "iothr.hpp"
#include "iotwo.hpp"
#include "iolong.hpp"
const char *mc_property = "C16";
void mc_setup()
{
	conc::monitor(M);
	bool t = mc::thorough();
	add_twos();
	add_longs(70000);
	for (bool mpsc : {false, true}) {
		S b;
		b.mpsc = mpsc;
		// delivery without any further call: time passes only when nothing else can run
		for (int insz : {2, 4})
			for (int notify : {1, 2})
				for (int outsz : {2, 4})
					for (int spurious : {0, 1}) {
						S s = b;
						s.mode = 1; s.timeouts = 0; s.insz = insz; s.notify = notify; s.outsz = outsz; s.spurious = spurious; s.ft = 2;
						s.frames = insz == 2 ? 5 : t ? 9 : 6;
						if (!t && outsz == 4 && spurious) continue;
						add(s);
						s.bidir = true; s.len0 = 700; s.len1 = 900;
						if (t || outsz == 2) add(s);
					}
		for (int nq : {1, 2, 3}) {
			if (!mpsc && nq == 1) continue;
			S s = b;
			s.mode = 1; s.timeouts = 0; s.nq = nq; s.nprod = 2; s.frames = t ? 3 : 2; s.insz = 4; s.ft = 2;
			add(s);
			s.insz = 2; s.spurious = 1; s.frames = t ? 3 : 2; s.outsz = 2;
			add(s);
		}
		// frames that keep coming, at any pace, do not hold up the ones before
		for (int notify : {1, 2})
			for (int ft : {1, 2, 3}) {
				S s = b;
				s.mode = 4; s.deviations = t ? 3 : 1; s.timeouts = 0; s.insz = 4; s.outsz = 16; s.notify = notify; s.ft = ft; s.steps = t ? 12 : 9;
				add(s);
			}
		{ // somebody sets the wall clock
			S s = b;
			s.mode = 1; s.timeouts = 0; s.insz = 4; s.notify = 2; s.ft = 2; s.frames = 3; s.jumps = 1;
			add(s);
		}
		// shutting down at any moment, with any wake-up lost, spurious or late
		for (int frames : {0, 1, 2})
			for (int notify : {1, 2}) {
				S s = b;
				s.frames = frames; s.insz = 4; s.notify = notify; s.timeouts = 3; s.spurious = 2; s.ft = notify;
				add(s);
				s.faults = 1; s.bidir = true; s.spurious = 0; s.timeouts = t ? 3 : 1;
				add(s);
			}
		// an output that does not take anything until the producers are done: their calls must not wait for it
		for (int nq : {1, 2}) {
			S s = b;
			s.mode = 2; s.nq = nq; s.nprod = mpsc ? 2 : nq; s.frames = nq == 2 || mpsc ? 2 : 4; s.insz = 2; s.outsz = 2;
			add(s);
			s.faults = 1;
			if (s.nprod == 2) s.timeouts = 0;
			add(s);
		}
	}
	mc::config.note = "every interleaving of the producers, the I/O thread and the destroying thread as in C14; deadlock, livelock (a fair cycle of states) and unreleased memory are looked for in every execution; "
		"where delivery is timed, time passes only when nothing else can run, and a frame that has not reached the output two flush timeouts after the last submission is a violation, even if somebody sets the wall clock meanwhile";
	mc::config.assumptions = {"memory is sequentially consistent (interleavings only; no store buffers)", "accesses that were never seen to race (happens-before) in any explored execution are not switch points",
		"time passes in whole seconds, at most the stated number of times while a thread could still run", "two states with the same 64-bit hash are taken to be the same"};
}
