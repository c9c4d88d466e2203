// C01: control frames encode canonically and round-trip.
#include "env.hpp"
#include "mc.hpp"
#include "ref.hpp"
extern "C" {
#include "fstrm.h"
}
using namespace ref;
const char *mc_property = "C01";
static const uint32_t H = FSTRM_CONTROL_FLAG_WITH_HEADER;

static L contents(struct fstrm_control *c, bool decoded = false)
{
	L r;
	size_t n = 0;
	CHECK(fstrm_control_get_num_field_content_type(c, &n) == fstrm_res_success, "get_num_field_content_type failed");
	for (size_t i = 0; i < n; i++) {
		const uint8_t *p = nullptr;
		size_t l = 0;
		CHECK(fstrm_control_get_field_content_type(c, i, &p, &l) == fstrm_res_success, "get_field_content_type(%zu) of %zu failed", i, n);
		r.push_back(B((const char *)p, l));
	}
	const uint8_t *p;
	size_t l;
	for (size_t i : {n, n + 1, (size_t)1 << 32, ((size_t)1 << 32) + (n ? n - 1 : 0), SIZE_MAX})
		CHECK(!decoded || fstrm_control_get_field_content_type(c, i, &p, &l) != fstrm_res_success, "content type %zu reported, but there are %zu", i, n);
	return r;
}
static void add(struct fstrm_control *c, const B &s)
{
	// an exact-size heap copy, so that an overread is seen
	uint8_t *p = (uint8_t *)malloc(s.size() ? s.size() : 1);
	memcpy(p, s.data(), s.size());
	fstrm_res r = fstrm_control_add_field_content_type(c, p, s.size());
	memset(p, 0xee, s.size());
	free(p);
	CHECK((r == fstrm_res_success) == (s.size() <= 256), "add_field_content_type(%zu bytes) returned %d", s.size(), r);
}
// everything that must hold for an object that holds type and the given content types
static void verify(struct fstrm_control *c, int type, const L &cts, bool decoder_too)
{
	B payload = ctl_payload(type, cts);
	bool ok = payload.size() <= 512;
	for (int hdr = 0; hdr < 2; hdr++) {
		uint32_t fl = hdr ? H : 0;
		B want = hdr ? with_header(payload) : payload;
		size_t sz = 99999;
		fstrm_res r = fstrm_control_encoded_size(c, &sz, fl);
		mc::steps();
		CHECK((r == fstrm_res_success) == ok, "encoded_size%s of a %zu byte payload returned %d", hdr ? " with header" : "", payload.size(), r);
		CHECK(!ok || sz == want.size(), "encoded_size says %zu instead of %zu bytes", sz, want.size());
		size_t n = want.size();
		for (size_t cap : {n, n + 1, n - 1, (size_t)0, (size_t)4, (size_t)8, (size_t)512, (size_t)520, n + 100}) {
			uint8_t *buf = (uint8_t *)malloc(cap ? cap : 1);
			memset(buf, 0x5a, cap ? cap : 1);
			size_t len = cap;
			r = fstrm_control_encode(c, buf, &len, fl);
			mc::steps();
			bool fits = ok && cap >= n;
			CHECK((r == fstrm_res_success) == fits, "encode of %zu bytes into %zu returned %d", n, cap, r);
			if (fits) {
				CHECK(len == n, "encode reports %zu instead of %zu bytes", len, n);
				CHECK(B((char *)buf, n) == want, "encoded as %s instead of %s", hex(B((char *)buf, n)).c_str(), hex(want).c_str());
				for (size_t i = n; i < cap; i++) CHECK(buf[i] == 0x5a, "encode wrote beyond the %zu bytes it announced", n);
			}
			free(buf);
		}
		if (ok && decoder_too) {
			struct fstrm_control *d = fstrm_control_init();
			uint8_t *in = (uint8_t *)malloc(n);
			memcpy(in, want.data(), n);
			r = fstrm_control_decode(d, in, n, fl);
			free(in);
			mc::steps();
			CHECK(r == fstrm_res_success, "decoding the encoder's output failed");
			fstrm_control_type t;
			CHECK(fstrm_control_get_type(d, &t) == fstrm_res_success && (int)t == type, "type %d decoded as %d", type, (int)t);
			CHECK(contents(d, true) == wire_ctypes(type, cts), "content types changed in the round trip");
			fstrm_control_destroy(&d);
			CHECK(d == nullptr, "destroy did not clear the pointer");
		}
	}
}
static void lists(int type, const L &cts)
{
	struct fstrm_control *c = fstrm_control_init();
	bool early = mc::choose(2, "set_type-first");
	if (early) CHECK(fstrm_control_set_type(c, (fstrm_control_type)type) == fstrm_res_success, "set_type(%d)", type);
	L eff;
	for (auto &x : cts) { add(c, x); if (x.size() <= 256) eff.push_back(x); }
	if (!early) CHECK(fstrm_control_set_type(c, (fstrm_control_type)type) == fstrm_res_success, "set_type(%d)", type);
	verify(c, type, eff, true);
	mc::state(mc::hash(ctl_payload(type, eff)));
	fstrm_control_destroy(&c);
	CHECK(env::live_blocks() == 0, "%zu allocations lost", env::live_blocks());
}
static const int types[] = {READY, ACCEPT, START, STOP, FINISH};
static void grid1() // one content type of every length
{
	int t = types[mc::choose(5, "type")];
	int n = mc::choose(mc::thorough() ? 1100 : 520, "len");
	lists(t, L{data(n, 1)});
}
static void grid2() // two: all pairs on a grid; plus the pairs around the total limit
{
	static const int g[] = {0, 1, 2, 3, 4, 7, 8, 100, 127, 128, 200, 240, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 300};
	const int N = sizeof g / sizeof *g;
	int t = types[mc::choose(5, "type")];
	if (mc::choose(2, "around") == 0)
		lists(t, L{data(g[mc::choose(N, "a")], 1), data(g[mc::choose(N, "b")], 2)});
	else {
		int a = 230 + mc::choose(27, "a"), total = 480 + mc::choose(50, "total"); // a + b + 20 = total
		int b = total - 20 - a;
		if (b < 0 || b > 256) mc::prune();
		lists(t, L{data(a, 1), data(b, 2)});
	}
}
static void gridn() // k equal content types, lengths around the limit
{
	int t = types[mc::choose(5, "type")];
	int k = mc::choose(66, "k");
	int fit = k ? (508 / k) - 8 : 0;
	if (fit < 0) fit = 0;
	int n = fit + mc::choose(4, "d") - 2;
	if (n < 0) n = 0;
	L l;
	for (int i = 0; i < k; i++) l.push_back(data(n, i));
	if (mc::choose(2, "pad") && k) { // bring the payload to exactly 510..514
		size_t p = ctl_payload(READY, l).size();
		int want = 510 + mc::choose(5, "exact");
		int last = (int)l.back().size() + want - (int)p;
		if (last >= 0 && last <= 256) l.back() = data(last, 9);
	}
	lists(t, l);
}
static void grid3()
{
	static const int g[] = {0, 1, 3, 4, 100, 161, 162, 163, 256, 257};
	int t = types[mc::choose(5, "type")];
	lists(t, L{data(g[mc::choose(10, "a")], 1), data(g[mc::choose(10, "b")], 2), data(g[mc::choose(10, "c")], 3)});
}
// all operation sequences on one object, followed by the full check
static void ops()
{
	int depth = mc::thorough() ? 6 : 5;
	struct fstrm_control *c = fstrm_control_init();
	int type = 0;
	L cts;
	for (int i = 0; i < depth; i++) {
		int op = mc::choose(12, "op");
		mc::steps();
		switch (op) {
		case 0: goto done;
		case 1: case 2: case 3: case 4:
			type = op == 1 ? READY : op == 2 ? START : op == 3 ? STOP : ACCEPT;
			CHECK(fstrm_control_set_type(c, (fstrm_control_type)type) == fstrm_res_success, "set_type");
			break;
		case 5: {
			fstrm_res r = fstrm_control_set_type(c, (fstrm_control_type)(i & 1 ? 6 : 0));
			CHECK(r != fstrm_res_success, "set_type accepts an undefined type");
			break;
		}
		case 6: add(c, "abc"); cts.push_back("abc"); break;
		case 7: add(c, data(256, 7)); cts.push_back(data(256, 7)); break;
		case 8: add(c, data(257, 7)); break;
		case 9: fstrm_control_reset(c); type = 0; cts.clear(); break;
		case 10: {
			B in = i & 1 ? ctl(START, L{"xy"}) : ctl(ACCEPT, L{"p", "qq"});
			CHECK(fstrm_control_decode(c, in.data(), in.size(), H) == fstrm_res_success, "decode");
			type = i & 1 ? START : ACCEPT;
			cts = i & 1 ? L{"xy"} : L{"p", "qq"};
			break;
		}
		case 11: { // questions in between change nothing
			for (uint32_t fl : {0u, H}) {
				size_t sz, len = 600;
				uint8_t buf[600];
				fstrm_res r = fstrm_control_encoded_size(c, &sz, fl), e = fstrm_control_encode(c, buf, &len, fl);
				size_t want = ctl_payload(type, cts).size() + (fl ? 8 : 0);
				if (!type) continue;
				bool ok = ctl_payload(type, cts).size() <= 512;
				CHECK((r == fstrm_res_success) == ok && (!ok || sz == want), "encoded_size says %d, %zu, expected %zu", (int)r, sz, want);
				CHECK((e == fstrm_res_success) == ok && (!ok || len == want), "encode says %d, %zu, expected %zu", (int)e, len, want);
			}
			contents(c);
			if (type) fstrm_control_match_field_content_type(c, (const uint8_t *)"abc", 3);
			break;
		}
		}
	}
done:
	fstrm_control_type t;
	fstrm_res r = fstrm_control_get_type(c, &t);
	CHECK((r == fstrm_res_success) == (type != 0) && (!type || (int)t == type), "get_type: %d, %d", r, (int)t);
	if (type) {
		verify(c, type, cts, true);
		CHECK(contents(c) == wire_ctypes(type, cts), "the object reports other content types than were added");
	}
	mc::state(mc::hash(ctl_payload(type, cts), type));
	fstrm_control_destroy(&c);
	CHECK(env::live_blocks() == 0, "%zu allocations lost", env::live_blocks());
}
void mc_setup()
{
	mc::config.before = env::forget_allocations;
	mc::config.note = "one execution = one control object built by a choice of operations and content-type lengths, encoded into buffers of every interesting size and decoded again; states = distinct (type, content) objects";
	mc::scenario("one content type of every length", grid1);
	mc::scenario("two content types", grid2);
	mc::scenario("many content types", gridn);
	mc::scenario("three content types", grid3);
	mc::scenario("operation sequences", ops);
}
