// C15: each accepted frame is released exactly once; a refused one stays with the caller.
#include "iothr.hpp"
#include "iotwo.hpp"
#include "iolong.hpp"
const char *mc_property = "C15";
void mc_setup()
{
	conc::monitor(M);
	bool t = mc::thorough();
	add_twos();
	add_longs(70000);
	add_bigs();
	for (bool mpsc : {false, true}) {
		S b;
		b.mpsc = mpsc;
		b.bad_args = true;
		b.nofree = true;
		// refusals: small queues, more frames than fit; working output
		for (int insz : {2, 4})
			for (int outsz : {2, 3}) {
				S s = b;
				s.insz = insz; s.outsz = outsz; s.frames = t ? 7 : 5;
				add(s);
				s.len0 = 600; s.len1 = 1; s.timeouts = 2;
				add(s);
			}
		// failing output at any operation, reopened or not, before and after submissions
		for (bool bidir : {false, true})
			for (int reopen : {1, 3}) {
				S s = b;
				s.bidir = bidir; s.reopen = reopen; s.faults = t ? 3 : 2; s.frames = t ? 5 : 4; s.insz = 2; s.outsz = 2;
				if (!t && bidir && !mpsc) s.timeouts = 0, s.bad_args = false, s.frames = 3;
				if (t || reopen == 1 || !bidir) add(s);
			}
		// several producers
		for (int nq : {1, 2}) {
			if (!mpsc && nq == 1) continue;
			S s = b;
			s.bad_args = false;
			s.nq = nq; s.nprod = 2; s.frames = 2; s.insz = 2; s.outsz = 2;
			add(s);
			s.faults = 1; s.timeouts = 0;
			add(s);
			if (t) { s.timeouts = 2; s.faults = 2; s.frames = 3; add(s); }
		}
		// the output cannot be opened for long: everything is discarded
		S s = b;
		s.faults = t ? 6 : 4; s.frames = 3; s.mode = 3; s.steps = t ? 8 : 4; s.timeouts = 0; s.insz = 4;
		add(s);
	}
	mc::config.note = "every interleaving of the producers, the I/O thread and the destroying thread as in C14, with small queues, frames without callback, submissions that must be refused, "
		"and transport failures at any operation; payloads live in memory whose use after release is noticed at any access of the library";
	mc::config.assumptions = {"memory is sequentially consistent (interleavings only; no store buffers)", "accesses that were never seen to race (happens-before) in any explored execution are not switch points",
		"time passes in whole seconds, at most the stated number of times while a thread could still run", "two states with the same 64-bit hash are taken to be the same"};
}
