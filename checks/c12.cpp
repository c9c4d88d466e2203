// C12: the single-producer queue is a correct bounded FIFO.
#include "queue.hpp"
const char *mc_property = "C12";

struct P { unsigned n, size, start, fill, ki, kr; bool want; };
static P P_;
static void producer(void *) { for (unsigned i = 0; i < P_.ki; i++) do_insert(0, P_.fill + i, P_.want); }
static void consumer(void *) { for (unsigned i = 0; i < P_.kr; i++) do_remove(1, P_.want); }
static void body(void *)
{
	Q = ops->init(P_.n, esize);
	CHECK(Q, "a queue of %u entries of %u bytes is refused", P_.n, esize);
	unsigned char e[80];
	for (unsigned i = 0; i < P_.start; i++) { make(e, 7); CHECK(ops->insert(Q, e, nullptr), "insert into an empty queue fails"); CHECK(ops->remove(Q, e, nullptr), "remove of the only element fails"); }
	for (unsigned i = 0; i < P_.fill; i++) { do_insert(0, i, true); }
	int p = conc::spawn(producer, nullptr), c = conc::spawn(consumer, nullptr);
	conc::join(p);
	conc::join(c);
	while (do_remove(1, true)) {}
	my_queue *q = Q;
	ops->destroy(&q);
	CHECK(!q, "destroy did not clear the pointer");
	CHECK(conc::live_blocks() == 0, "%zu blocks are left after destroy", conc::live_blocks());
}
static void add(unsigned n, unsigned size, unsigned start, unsigned fill, unsigned ki, unsigned kr, bool want)
{
	P p{n, size, start, fill, ki, kr, want};
	char name[100];
	snprintf(name, sizeof name, "N=%u size=%u start=%u fill=%u inserts=%u removes=%u%s", n, size, start, fill, ki, kr, want ? "" : " no counts");
	mc::scenario(name, [p] {
		conc::opt = conc::Options();
		P_ = p;
		cap = p.n - 1;
		esize = p.size;
		one_instant = false;
		conc::prepare();
		mon_init();
		conc::run(body, nullptr);
	});
}
static void seq_body(void *)
{
	// every sequence of operations
	Q = ops->init(P_.n, esize);
	CHECK(Q, "a queue of %u entries of %u bytes is refused", P_.n, esize);
	unsigned next = 0, ctr[2] = {0, 0};
	(void)ctr;
	for (unsigned i = 0; i < P_.ki; i++) {
		conc::yield("op");
		switch (conc::choose(4, "op")) {
		case 0: do_insert(0, next++, true); break;
		case 1: do_remove(1, true); break;
		case 2: do_insert(0, next++, false); break;
		case 3: do_remove(1, false); break;
		}
		mc::steps();
	}
	while (do_remove(1, true)) {}
	ops->destroy(&Q);
	CHECK(!Q, "destroy did not clear the pointer");
	ops->destroy(&Q);
	CHECK(conc::live_blocks() == 0, "%zu blocks are left after destroy", conc::live_blocks());
}
void mc_setup()
{
	conc::monitor(M);
	ops = &my_queue_mb_ops;
	for (unsigned n : {2u, 4u})
		for (unsigned size : {1u, 8u, 13u}) {
			P p{n, size, 0, 0, mc::thorough() ? 24u : 14u, 0, true};
			mc::scenario("sequences N=" + std::to_string(n) + " size=" + std::to_string(size), [p] {
				conc::opt = conc::Options();
				P_ = p;
				cap = p.n - 1;
				esize = p.size;
				one_instant = true;
				conc::prepare();
				mon_init();
				conc::run(seq_body, nullptr);
			});
		}
	add_large();
	// sizes
	mc::scenario("sizes", [] {
		for (unsigned k = 0; k <= 70000; k++) {
			if (k > 600 && k % 997 > 2 && (k & (k - 1)) && (k & (k + 1)) && ((k - 1) & (k - 2))) continue;
			conc::prepare();
			my_queue *q = ops->init(k, 3);
			bool valid = k >= 2 && (k & (k - 1)) == 0;
			CHECK(!!q == valid, "a queue of %u entries is %s", k, q ? "accepted" : "refused");
			if (q) ops->destroy(&q);
			CHECK(conc::live_blocks() == 0, "blocks are left");
			mc::steps();
		}
		for (unsigned k = 17; k < 32; k++)
			for (int d : {-1, 1, 3}) {
				conc::prepare();
				my_queue *q = ops->init((1u << k) + d, 3);
				CHECK(!q, "a queue of %u entries is accepted", (1u << k) + d);
				CHECK(conc::live_blocks() == 0, "blocks are left");
				mc::steps();
			}
		conc::prepare();
		CHECK(!ops->init(0xffffffff, 1), "a queue of 2^32-1 entries is accepted");
	});
	bool t = mc::thorough();
	for (unsigned n : {2u, 4u, 8u, 16u}) {
		std::vector<unsigned> sizes;
		for (unsigned s = 1; s <= 64; s++) if (t || s <= 9 || s % 8 <= 1) sizes.push_back(s);
		for (unsigned size : sizes) {
			if (!t && size > 1 && size != 8 && n > 4) continue;
			if (t && n > 4 && size % 8 > 1) continue;
			for (unsigned start = 0; start < n; start++)
				for (unsigned fill = 0; fill < n; fill++) {
					bool big = size != 1 && size != 8;
					if (!t && start != 0 && start != n - 1 && (n > 4 || big)) continue;
					if (!t && n >= 8 && fill > 1 && fill < n - 2) continue;
					if (!t && big && start) continue;
					unsigned k = t ? (n <= 4 ? 3 * n + 2 : n + 3) : n == 2 ? 6 : n == 4 ? (big ? 4 : 6) : n == 8 ? 4 : 3;
					if (k + fill > 60) k = 60 - fill;
					add(n, size, start, fill, k, k, true);
					if (size == 8) add(n, size, start, fill, k, k, false);
				}
		}
	}
	mc::config.note = "every interleaving of a producer and a consumer (visible operations: call, return, each access of the queue that can race, each half of a racing copy), "
		"for every starting position and filling of the ring; each step is checked by a just-in-time linearisation monitor that keeps every abstract queue that explains what was returned so far; "
		"plus all sequential operation sequences, all sizes, and laps of large queues and elements against a plain deque";
	mc::config.assumptions = {"memory is sequentially consistent (interleavings only; no store buffers)", "accesses that were never seen to race (happens-before) in any explored execution are not switch points"};
}
