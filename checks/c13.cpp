// C13: the multi-producer queue is a correct bounded FIFO.
#include "queue.hpp"
const char *mc_property = "C13";

struct P { unsigned n, size, start, fill, np, ki, kr; bool want; };
static P P_;
static void producer(void *a) { int t = (int)(long)a; for (unsigned i = 0; i < P_.ki; i++) do_insert(t, P_.fill + t * P_.ki + i, P_.want); }
static void consumer(void *) { for (unsigned i = 0; i < P_.kr; i++) do_remove(3, P_.want); }
static void body(void *)
{
	Q = ops->init(P_.n, esize);
	CHECK(Q, "a queue of %u entries of %u bytes is refused", P_.n, esize);
	unsigned char e[80];
	for (unsigned i = 0; i < P_.start; i++) { make(e, 7); CHECK(ops->insert(Q, e, nullptr), "insert into an empty queue fails"); CHECK(ops->remove(Q, e, nullptr), "remove of the only element fails"); }
	for (unsigned i = 0; i < P_.fill; i++) do_insert(0, i, true);
	int f[4], n = 0;
	for (unsigned t = 0; t < P_.np; t++) f[n++] = conc::spawn(producer, (void *)(long)t);
	if (P_.kr) f[n++] = conc::spawn(consumer, nullptr);
	for (int i = 0; i < n; i++) conc::join(f[i]);
	while (do_remove(3, true)) {}
	my_queue *q = Q;
	ops->destroy(&q);
	CHECK(!q, "destroy did not clear the pointer");
	CHECK(conc::live_blocks() == 0, "%zu blocks are left after destroy", conc::live_blocks());
}
static void add(P p)
{
	char name[120];
	snprintf(name, sizeof name, "N=%u size=%u start=%u fill=%u producers=%u x %u removes=%u%s", p.n, p.size, p.start, p.fill, p.np, p.ki, p.kr, p.want ? "" : " no counts");
	mc::scenario(name, [p] {
		conc::opt = conc::Options();
		P_ = p;
		cap = p.n - 1;
		esize = p.size;
		one_instant = true;
		conc::prepare();
		mon_init();
		conc::run(body, nullptr);
	});
}
static void seq_body(void *)
{
	Q = ops->init(P_.n, esize);
	CHECK(Q, "a queue of %u entries of %u bytes is refused", P_.n, esize);
	unsigned next = 0;
	for (unsigned i = 0; i < P_.ki; i++) {
		switch (conc::choose(4, "op")) {
		case 0: do_insert(0, next++, true); break;
		case 1: do_remove(3, true); break;
		case 2: do_insert(1, next++, false); break;
		case 3: do_remove(3, false); break;
		}
		mc::steps();
	}
	while (do_remove(3, true)) {}
	ops->destroy(&Q);
	CHECK(!Q, "destroy did not clear the pointer");
	ops->destroy(&Q);
	CHECK(conc::live_blocks() == 0, "%zu blocks are left after destroy", conc::live_blocks());
}
void mc_setup()
{
	conc::monitor(M);
	ops = &my_queue_mutex_ops;
	bool t = mc::thorough();
	for (unsigned n : {2u, 4u})
		for (unsigned size : {1u, 8u, 13u}) {
			P p{n, size, 0, 0, 0, t ? 24u : 14u, 0, true};
			mc::scenario("sequences N=" + std::to_string(n) + " size=" + std::to_string(size), [p] {
				conc::opt = conc::Options();
				P_ = p;
				cap = p.n - 1;
				esize = p.size;
				one_instant = true;
				conc::prepare();
				mon_init();
				conc::run(seq_body, nullptr);
			});
		}
	add_large();
	mc::scenario("sizes", [] {
		for (unsigned k = 0; k <= 70000; k++) {
			if (k > 600 && k % 997 > 2 && (k & (k - 1)) && (k & (k + 1)) && ((k - 1) & (k - 2))) continue;
			conc::prepare();
			my_queue *q = ops->init(k, 3);
			bool valid = k >= 2 && (k & (k - 1)) == 0;
			CHECK(!!q == valid, "a queue of %u entries is %s", k, q ? "accepted" : "refused");
			if (q) ops->destroy(&q);
			CHECK(conc::live_blocks() == 0, "blocks are left");
			mc::steps();
		}
		for (unsigned k = 17; k < 32; k++)
			for (int d : {-1, 1, 3}) {
				conc::prepare();
				CHECK(!ops->init((1u << k) + d, 3), "a queue of %u entries is accepted", (1u << k) + d);
				mc::steps();
			}
		conc::prepare();
		CHECK(!ops->init(0xffffffff, 1), "a queue of 2^32-1 entries is accepted");
	});
	for (unsigned n : {2u, 4u, 8u})
		for (unsigned size : {1u, 2u, 8u, 13u, 32u, 64u}) {
			if (!t && n == 8 && size != 8) continue;
			for (unsigned start = 0; start < n; start++)
				for (unsigned fill = 0; fill < n; fill++) {
					if (!t && start != 0 && start != n - 1 && start != n / 2) continue;
					if (n == 8 && fill > 1 && fill < 5) continue;
					add({n, size, start, fill, 2, t ? 4u : 3u, t ? 5u : 4u, true});
					if (size == 8) add({n, size, start, fill, 2, 2, 3, false});
					if (start == n - 1 && (t || (size == 8 && n <= 4))) {
						add({n, size, start, fill, 3, t ? 2u : 1u, t ? 4u : 2u, true});
						add({n, size, start, fill, 3, t ? 3u : 2u, t ? 2u : 0u, true});
					}
				}
		}
	mc::config.note = "every interleaving of 2 or 3 producers and a consumer (visible operations: call, lock, each access of the queue that can race, each half of a racing copy), "
		"for starting positions and fillings of the ring; each step is checked by a just-in-time linearisation monitor that keeps every abstract queue that explains what was returned so far; "
		"plus all sequential operation sequences, all sizes, and laps of large queues and elements against a plain deque";
	mc::config.assumptions = {"memory is sequentially consistent (interleavings only; no store buffers)", "accesses that were never seen to race (happens-before) in any explored execution are not switch points"};
}
