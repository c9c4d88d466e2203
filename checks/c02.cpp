// C02: the control-frame decoder accepts exactly the well-formed frames.
#include "env.hpp"
#include "mc.hpp"
#include "ref.hpp"
extern "C" {
#include "fstrm.h"
}
using namespace ref;
const char *mc_property = "C02";
static const uint32_t H = FSTRM_CONTROL_FLAG_WITH_HEADER;

static fstrm_res dec(struct fstrm_control *c, const B &s, uint32_t fl)
{
	uint8_t *p = (uint8_t *)malloc(s.size() ? s.size() : 1); // exact size: ASan sees an overread
	memcpy(p, s.data(), s.size());
	fstrm_res r = fstrm_control_decode(c, s.size() ? p : p + 1, s.size(), fl);
	CHECK(memcmp(p, s.data(), s.size()) == 0, "the input was modified");
	memset(p, 0xdd, s.size());
	free(p);
	mc::steps();
	return r;
}
static void judge(struct fstrm_control *c, const B &s, bool hdr, const char *how)
{
	uint32_t type = 0;
	L cts;
	bool ok = hdr ? decode_header(s, type, cts) : decode(s, type, cts);
	fstrm_res r = dec(c, s, hdr ? H : 0);
	CHECK((r == fstrm_res_success) == ok, "%s: decode(%s, %s) returned %d, should %s", how, hex(s).c_str(), hdr ? "header" : "no header", r, ok ? "succeed" : "fail");
	if (!ok) return;
	fstrm_control_type t = (fstrm_control_type)77;
	CHECK(fstrm_control_get_type(c, &t) == fstrm_res_success && (uint32_t)t == type, "%s: type %u reported as %d", how, type, (int)t);
	size_t n = 99;
	CHECK(fstrm_control_get_num_field_content_type(c, &n) == fstrm_res_success && n == cts.size(), "%s: %zu content types reported instead of %zu", how, n, cts.size());
	for (size_t i = 0; i < n; i++) {
		const uint8_t *p = nullptr;
		size_t l = 0;
		CHECK(fstrm_control_get_field_content_type(c, i, &p, &l) == fstrm_res_success && B((const char *)p, l) == cts[i], "%s: content type %zu is wrong", how, i);
	}
	const uint8_t *p;
	size_t l;
	for (size_t i : {n, n + 1, (size_t)1 << 32, ((size_t)1 << 32) + (n ? n - 1 : 0), (size_t)1 << 31, (size_t)1 << 63, SIZE_MAX, SIZE_MAX - 1})
		CHECK(fstrm_control_get_field_content_type(c, i, &p, &l) != fstrm_res_success, "%s: content type %zu reported, but there are %zu", how, i, n);
	mc::state(mc::hash(s, type));
}
static const B &dirty(int k)
{
	static const B v[] = {
		ctl_payload(READY, L{"one", "two"}),
		be32(START) + be32(1) + be32(1) + "a" + be32(1) + be32(1) + "b", // refused, but after its fields were read
		be32(9),                                                        // refused: unknown type
		be32(ACCEPT) + be32(1) + be32(3) + "abc" + be32(1) + be32(300), // refused in the second field
		ctl_payload(STOP, L()),
	};
	return v[k];
}
// the same input into objects of every history, then the object must still work
static void all_ways(const B &s, bool full)
{
	// another object is not affected
	struct fstrm_control *o = fstrm_control_init();
	judge(o, dirty(0), false, "other object");
	const uint8_t *op[2];
	size_t on[2];
	for (int i = 0; i < 2; i++) CHECK(fstrm_control_get_field_content_type(o, i, &op[i], &on[i]) == fstrm_res_success, "other object");
	for (int hdr = 0; hdr < 2; hdr++) {
		struct fstrm_control *c = fstrm_control_init();
		judge(c, s, hdr, "fresh object");
		judge(c, s, hdr, "second time");
		judge(c, dirty(0), false, "valid frame afterwards");
		judge(c, s, hdr, "object that held a frame");
		if (full)
			for (int k = 1; k < 5; k++) {
				judge(c, dirty(k), false, "preparation");
				judge(c, s, hdr, "used object");
			}
		fstrm_control_destroy(&c);
	}
	for (int i = 0; i < 2; i++) CHECK(B((const char *)op[i], on[i]) == (i ? "two" : "one"), "decode(%s): another object changed", hex(s).c_str());
	fstrm_control_type t;
	CHECK(fstrm_control_get_type(o, &t) == fstrm_res_success && t == FSTRM_CONTROL_READY, "decode(%s): the type of another object changed", hex(s).c_str());
	fstrm_control_destroy(&o);
	CHECK(env::live_blocks() == 0, "decode(%s): %zu allocations lost", hex(s).c_str(), env::live_blocks());
}
static const uint32_t words[] = {0, 1, 2, 3, 4, 5, 6, 12, 0x100, 0x101, 0x80000001u, 0xffffffffu};
static const int NW = sizeof words / sizeof *words;
static void grammar()
{
	int n = mc::choose(mc::thorough() ? 7 : 6, "words"), tail = mc::choose(5, "tail");
	B s;
	for (int i = 0; i < n; i++) s += be32(words[mc::choose(NW, "w")]);
	s += data(tail, 3);
	all_ways(s, n < 5);
}
static void fields() // structured: type, then fields with claimed and actual lengths
{
	static const uint32_t ty[] = {1, 2, 3, 4, 5, 0, 6};
	static const uint32_t ft[] = {1, 0, 2, 0x01000000};
	static const int len[] = {0, 1, 2, 3, 255, 256, 257, 300};
	B s = be32(ty[mc::choose(7, "type")]);
	int k = mc::choose(4, "fields");
	for (int i = 0; i < k; i++) {
		int l = len[mc::choose(i ? 5 : 8, "len")];
		s += be32(ft[mc::choose(i ? 2 : 4, "field")]) + be32(l + mc::choose(3, "claim") - 1) + data(l, i);
	}
	all_ways(s, k < 3);
	all_ways(with_header(s), k < 3);
	if (k < 3) {
		all_ways(be32(0) + be32(s.size() + 1) + s, false);
		all_ways(be32(0) + be32(s.size() - 1) + s, false);
		all_ways(be32(1) + be32(s.size()) + s, false);
		all_ways(be32(0x1000000) + be32(s.size()) + s, false);
	}
}
static B base_frame(int i)
{
	switch (i) {
	case 0: return ctl_payload(READY, L{"abc"});
	case 1: return ctl_payload(ACCEPT, L{"a", "", "zz"});
	case 2: return ctl_payload(START, L{"protobuf:x"});
	case 3: return ctl_payload(STOP, L());
	case 4: return ctl_payload(FINISH, L());
	case 5: return ctl_payload(START, L());
	case 6: return ctl_payload(READY, L{data(244, 1), data(244, 2)}); // 512 bytes
	default: return ctl_payload(READY, L{data(256, 5)});
	}
}
static void mutate()
{
	B s = base_frame(mc::choose(8, "base"));
	if (mc::choose(2, "header")) s = with_header(s);
	int kind = mc::choose(5, "mutation");
	size_t p;
	if (kind == 0) { // any byte to any interesting value
		static const int v[] = {0, 1, 2, 3, 4, 5, 6, 8, 16, 64, 127, 128, 254, 255};
		p = mc::choose(s.size(), "pos");
		s[p] = v[mc::choose(14, "value")];
	} else if (kind == 1) { // truncate
		s.resize(mc::choose(s.size(), "length"));
	} else if (kind == 2) { // extend
		s += data(1 + mc::choose(9, "extra"), 1);
	} else if (kind == 3) { // off by one
		p = mc::choose(s.size(), "pos");
		s[p] += mc::choose(2, "up") ? 1 : -1;
	} else { // drop or double a word
		p = mc::choose(s.size() / 4, "word") * 4;
		if (mc::choose(2, "double")) s.insert(p, s.substr(p, 4)); else s.erase(p, 4);
	}
	all_ways(s, true);
}
static void sizes() // every payload length from 0 to 1100, in several shapes
{
	int total = mc::choose(1101, "payload"), shape = mc::choose(3, "shape");
	B s;
	if (shape == 0) s = B(total, 0);
	else {
		L l;
		int left = total - 4, piece = shape == 1 ? 256 : 20;
		if (left < 0) mc::prune();
		while (left >= 8) {
			int n = left - 8 < piece ? left - 8 : piece;
			if (left - 8 - n > 0 && left - 8 - n < 8) n = left - 8 - 8 > 0 && left - 16 <= piece ? left - 16 : n - 8;
			l.push_back(data(n, left));
			left -= 8 + n;
		}
		s = ctl_payload(READY, l) + B(left, 'x');
	}
	all_ways(s, false);
	all_ways(with_header(s), false);
	if (shape == 1) { // the outer length at its limits, whatever follows
		all_ways(be32(0) + be32(512) + s, false);
		all_ways(be32(0) + be32(513) + s, false);
		all_ways(be32(0) + be32(0) + s, false);
		all_ways(be32(0) + be32(0xffffffffu) + s, false);
	}
}
static void bytes() // all strings of up to 2 bytes; all 4- and 8-byte strings over a small alphabet of bytes
{
	static const char a[] = {0, 1, 3, 4, (char)0xff};
	int n = mc::choose(13, "n");
	B s;
	if (n <= 8) for (int i = 0; i < n; i++) s += n <= 2 ? (char)mc::choose(256, "b") : a[mc::choose(n > 6 ? 4 : 5, "b")];
	else { s = be32(READY) + be32(1); for (int i = 0; i < n - 8; i++) s += a[mc::choose(5, "b")]; }
	all_ways(s, n <= 4);
}
// a long history of inputs, refused or accepted, changes nothing for the inputs that follow
static B malformed(int k)
{
	switch (k) {
	case 0: return B();
	case 1: return be32(9);
	case 2: return be32(0);
	case 3: return B("\0\0\0", 3);
	case 4: return be32(READY) + be32(7);
	case 5: return be32(READY) + be32(1);
	case 6: return be32(READY) + be32(1) + be32(300);
	case 7: return be32(READY) + be32(1) + be32(257) + data(257, 1);
	case 8: return be32(ACCEPT) + be32(1) + be32(3) + "ab";
	case 9: return be32(ACCEPT) + be32(1) + be32(3) + "abc" + be32(1) + be32(9);
	case 10: return be32(ACCEPT) + be32(1) + be32(3) + "abc" + be32(2) + be32(0);
	case 11: return be32(ACCEPT) + be32(1) + be32(3) + "abc" + "x";
	case 12: return dirty(1);
	case 13: return be32(START) + be32(1) + be32(9);
	case 14: return be32(STOP) + be32(1) + be32(1) + "a";
	case 15: return be32(FINISH) + be32(1) + be32(1) + "a";
	case 16: return be32(FINISH) + be32(0);
	case 17: return ctl_payload(READY, L{data(250, 1), data(247, 2)});
	case 18: return ctl_payload(READY, L(62, "")) + be32(1) + be32(1) + "a";
	default: return base_frame(k - 19);
	}
}
static void histories()
{
	int k = mc::choose(19 + 8, "input"), hdr = mc::choose(3, "header"), fresh = mc::choose(2, "fresh"), times = mc::thorough() ? 300000 : 70000;
	B s = malformed(k), ok = base_frame(0);
	if (hdr == 1) s = with_header(s);
	if (hdr == 2) s = be32(1) + be32(s.size()) + s; // no escape sequence
	uint32_t ty;
	L cts;
	bool good = hdr ? decode_header(s, ty, cts) : decode(s, ty, cts);
	struct fstrm_control *c = fstrm_control_init();
	uint8_t *p = (uint8_t *)malloc(s.size() + 1);
	memcpy(p, s.data(), s.size());
	for (int i = 0; i < times; i++) {
		fstrm_res r = fstrm_control_decode(c, p, s.size(), hdr ? H : 0);
		if ((r == fstrm_res_success) != good) mc::fail("decode(%s) returned %d the %dth time", hex(s).c_str(), r, i + 1);
		if (fresh) { fstrm_control_destroy(&c); c = fstrm_control_init(); }
	}
	mc::steps(times);
	free(p);
	for (int i = 0; i < 8; i++) judge(c, base_frame(i), false, "after a long history");
	for (int i = 0; i < 19; i++) judge(c, malformed(i), false, "after a long history");
	fstrm_control_destroy(&c);
	all_ways(ok, true);
}
void mc_setup()
{
	mc::config.before = env::forget_allocations;
	mc::config.note = "one execution = one input string decoded with and without the header flag into fresh and used objects and compared with the reference decoder; states = distinct accepted frames";
	mc::scenario("words", grammar);
	mc::scenario("fields", fields);
	mc::scenario("mutations", mutate);
	mc::scenario("sizes", sizes);
	mc::scenario("bytes", bytes);
	mc::scenario("histories", histories);
}
