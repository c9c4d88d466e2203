// C14: accepted frames are delivered exactly once and in order.
#include "iothr.hpp"
#include "iotwo.hpp"
#include "iolong.hpp"
const char *mc_property = "C14";
void mc_setup()
{
	conc::monitor(M);
	bool t = mc::thorough();
	add_twos();
	add_longs(70000);
	add_bigs();
	for (bool mpsc : {false, true}) {
		S b;
		b.mpsc = mpsc;
		b.timeouts = t ? 2 : 1;
		// no faults
		for (int outsz : {2, 3, 4})
			for (int insz : {2, 4})
				for (int len : {3, 512, 1100}) {
					if (!t && len == 1100 && outsz != 3) continue;
					S s = b;
					s.outsz = outsz; s.insz = insz; s.len0 = len; s.len1 = len == 3 ? 5 : len + 2;
					s.frames = insz == 4 ? 5 : 3;
					add(s);
					if (outsz == 3) { s.bidir = true; s.ctype = false; s.retry = true; add(s); }
				}
		// frames that fill the buffer alone, behind and before small ones
		for (int outsz : {2, 3, 4})
			for (int big : {1019, 1020, 1021, 1100})
				for (bool first : {false, true}) {
					if (!t && outsz != 3 && big != 1020) continue;
					S s = b;
					s.outsz = outsz; s.insz = 4; s.frames = 4;
					s.len0 = first ? big : 3; s.len1 = first ? 5 : big;
					add(s);
					if (outsz == 3 && big == 1020) { s.bidir = true; s.ctype = false; s.faults = 1; s.reopen = 1; s.frames = 3; add(s); }
				}
		for (int nq : {1, 2})
			for (int outsz : {2, 4})
				for (int len : {3, 512}) {
					if (!mpsc && nq == 1) continue;
					if (!t && (outsz == 4) != (len == 512)) continue;
					S s = b;
					s.nq = nq; s.nprod = 2; s.frames = 2; s.insz = 4; s.outsz = outsz; s.len0 = len; s.len1 = len + 1;
					add(s);
					s.insz = 2;
					add(s);
				}
		// faults
		for (bool bidir : {false, true})
			for (int outsz : {2, 4}) {
				S s = b;
				s.bidir = bidir; s.faults = 2; s.frames = t ? 5 : 3; s.insz = 4; s.outsz = outsz; s.reopen = 1;
				if (!t && outsz == 4) s.faults = 1;
				add(s);
				s.nq = 2; s.nprod = 2; s.frames = 2; s.faults = 1;
				if (!t) s.timeouts = 0;
				if (t || (outsz == 2 && !(bidir && !mpsc))) add(s);
			}
		if (t) {
			S s = b;
			s.nq = 3; s.nprod = 3; s.frames = 2; s.timeouts = 1;
			add(s);
			s.nq = 1; s.nprod = 3;
			if (mpsc) add(s);
			s = b;
			s.nq = 2; s.nprod = 2; s.frames = 3; s.insz = 2; s.spurious = 1;
			add(s);
			s.spurious = 0; s.deviations = 4; s.frames = 5; s.insz = 4; s.faults = 2; s.timeouts = 3;
			add(s);
		}
	}
	mc::config.note = "every interleaving (visible operations: locks, condition variable operations, thread start and join, transport and release callbacks, and every memory access that can race) of the producers, "
		"the I/O thread and the destroying thread; any waiting thread may time out or (where stated) wake spuriously; transport failures, with nothing or everything sent, at any operation; "
		"states already seen (memory of the library, stacks, synchronisation, transport, monitor) are not explored again";
	mc::config.assumptions = {"memory is sequentially consistent (interleavings only; no store buffers)", "accesses that were never seen to race (happens-before) in any explored execution are not switch points",
		"time passes in whole seconds, at most the stated number of times while a thread could still run", "two states with the same 64-bit hash are taken to be the same"};
}
