T="Trusts the reference model in the harness, gcc and AddressSanitizer, and the stand-ins for libc calls. "
A="Exhaustive within the bounds below, on /repo's code as compiled. "+T
Bn="Exhaustive over interleavings within the bounds below (sequential consistency; scheduling at synchronisation, transport, callbacks and every access found to race by happens-before on an explored path; visited states matched by 64-bit hash). "+T
Cn="Exhaustive within the bounds below, on the program's own main() with the system calls under control. "+T
NOTE.update({
"C01":A+"All lengths 0..519 for one content type, grids of lengths for 2, 3 and up to 65, all sequences of 5 operations, questions about the object in between among them.",
"C02":A+"All strings of words and chunks up to a word bound, all truncations and single-byte changes of valid frames, payloads 0..1100, fresh and used objects, 70000 inputs of one kind before.",
"C03":A+"All types x all lists of up to 4 content types over an alphabet of prefixes, empty strings, NULs, wildcards and separators x all candidates.",
"C04":A+"All own lists x structured, malformed and truncated answers x one transport failure anywhere; own lists of up to 200 of which any may match.",
"C05":A+"All own lists x structured, malformed and truncated READY and START x one transport failure anywhere; own lists of up to 200 of which any may match.",
"C06":A+"Batches 0..400 around the internal limit of 128, frame lengths around limits, all short call sequences, one transport failure anywhere; batches up to 200000 frames, 70000 calls, 66000 connections; all sequences of overlapping pieces of one buffer.",
"C07":A+"All sequences of up to 4 (thorough 5) tokens from well-formed, unknown, malformed, oversized; all truncations; all orders of read, close, get_control; readers opened again; frames of 14 lengths up to 1 MiB with frames to ignore around them; streams of 140000 frames.",
"C08":Bn+"All pairs of lists up to 2x2, 0-3 frames, pipe capacities from 1 byte, one failure or hang-up anywhere.",
"C09":A+"All histories of up to 5 calls with one failure, 4 with two, on readers, writers and transports.",
"C10":A+"One short write or error at every byte of batches up to 385 frames, two or three in smaller ones, frames of up to 200000 bytes cut around the ends of buffers and powers of two, every fixed chunk size, every failure of set-up calls, close() interrupted, errors that persist; every TCP port, every byte of a name, every bit of an address.",
"C11":A+"Output failing at every byte, input cut or failing at every byte, three buffering modes; files of up to 66000 frames; every byte in the name.",
"C12":Bn+"A copying loop counts as one copy in two parts. Rings of 2-16 entries, every starting position and filling, several operations per side.",
"C13":Bn+"A copying loop counts as one copy in two parts. Rings of 2-8 entries, 2-3 producers and a consumer, every starting position.",
"C14":Bn+"A copying loop counts as one copy in two parts. 1-3 producers, up to 5 frames each, queue sizes 2-4, frames larger than the buffer hint, timeouts, spurious wake-ups, up to 2 transport failures; under one schedule 70000 frames and all triples of 15 lengths up to 2^32-2.",
"C15":Bn+"As C14 (also the same buffer submitted again and again) with refused submissions and frames without release callback.",
"C16":Bn+"As C14 (also 70000 frames under one schedule); deadlock and fair livelock detection, a trickle of submissions, deadlines in logical time.",
"C17":Bn+"All sequences of up to 6 submissions and seconds, all failure patterns up to 4, uptimes from 0 s, the wall clock set by up to a day; producers that never let the queue become empty; 70000 failed attempts in a row.",
"C18":Bn+"Up to 3 threads, up to 4 queues (65540 on one thread), both queue models, two I/O threads.",
"C19":A+"Setter arguments 0..70000 and powers of two; all pairs of boundary values run end to end; frames of up to 1 MiB, alone and together; wake-up threshold over all schedules of a small workload.",
"C20":Cn+"Streams cut into 3 pieces everywhere, all message orders of 2-3 clients, event orders with up to 2 deviations, a hang-up or signal after every byte.",
"C21":Cn+"All sequences of up to 3 (thorough 4) messages over 17 kinds, alone and beside a healthy connection.",
"C22":Cn+"All histories up to a depth of frames, signals and clock steps; one output failure at every write, flush, open and close; 300 rotations, flushes or splits.",
"C23":Cn+"All pairs of frame lengths around the buffer size; connection histories of up to 4 clients; limits 0-3; 600 clients at once, 70000 in turn; content types of every length at every debug level; descriptors running out.",
"C24":Cn+"All sequences of up to 3 (thorough 4) tokens, all truncations, all byte pairs, failure at every byte of input, standard output and output file; 66000 frames; every byte in the names.",
"C25":Cn+"All lists of up to 3 files (thorough 4) of 17 kinds, loss of the connection at every byte, up to 3 deviations in set-up and 2 in transfer.",
"C26":Cn+"Twelve histories of clients; every signal at every instant of each; pairs of signals at all pairs of instants for four histories (thorough: all, and three signals).",
"C27":Cn+"All subsets of 12 options, all spellings, all orders, all sequences of up to 3 (thorough 4) of 27 tokens after a complete command line and of 6 (7) of 7 tokens alone, values at the limits, every byte in names and types, buffers up to 16 MiB; bind() is redirected to the loopback address.",
"C28":Cn+"All subsets, spellings and orders of the options, lists of up to 63 files, all sequences of up to 3 (thorough 4) of 25 tokens after a complete command line and of 6 (7) of 8 tokens alone, values at the limits, every byte in names and types.",
})
