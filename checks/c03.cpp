// C03: content-type matching is exact.
#include "env.hpp"
#include "mc.hpp"
#include "ref.hpp"
extern "C" {
#include "fstrm.h"
}
using namespace ref;
const char *mc_property = "C03";
static std::vector<B> al;
static void one(struct fstrm_control *c, int type, const L &l, const char *how)
{
	for (int k = -1; k < (int)al.size(); k++) {
		const B *m = k < 0 ? nullptr : &al[k];
		uint8_t *p = nullptr;
		if (m) { p = (uint8_t *)malloc(m->size() + (m->empty())); memcpy(p, m->data(), m->size()); }
		fstrm_res r = fstrm_control_match_field_content_type(c, p, m ? m->size() : 0);
		mc::steps();
		bool want = match(type, l, m);
		CHECK((r == fstrm_res_success) == want, "%s: type %d with %zu content types, candidate %d (%s): returned %d", how, type, l.size(), k, m ? hex(*m).c_str() : "absent", r);
		free(p);
	}
}
static void lists()
{
	int type = 1 + mc::choose(5, "type");
	int n = mc::choose(mc::thorough() ? 5 : 4, "n");
	L l;
	for (int i = 0; i < n; i++) l.push_back(al[mc::choose(al.size(), "ctype")]);
	size_t total = ctl_payload(READY, l).size();
	struct fstrm_control *c = fstrm_control_init();
	fstrm_control_set_type(c, (fstrm_control_type)type);
	for (auto &x : l) CHECK(fstrm_control_add_field_content_type(c, (const uint8_t *)x.data(), x.size()) == fstrm_res_success, "add");
	one(c, type, l, "built");
	// the same frame decoded, in an object that held something else before
	if (total <= 512) {
		B s = ctl_payload(type, l);
		CHECK(fstrm_control_decode(c, s.data(), s.size(), 0) == fstrm_res_success, "decode");
		one(c, type, l, "decoded");
	}
	mc::state(mc::hash(ctl_payload(READY, l), type));
	// changing the type changes the judgement only
	if (total <= 512 && type == READY)
		for (int t = 1; t <= 5; t++) { fstrm_control_set_type(c, (fstrm_control_type)t); one(c, t, l, "retyped"); }
	fstrm_control_reset(c);
	fstrm_control_set_type(c, FSTRM_CONTROL_ACCEPT);
	one(c, ACCEPT, L(), "after reset");
	fstrm_control_destroy(&c);
	CHECK(env::live_blocks() == 0, "allocations lost");
}
// a single content type of any length against candidates of any length: same bytes, one byte changed at any position
static void lengths()
{
	int n = mc::choose(257, "n");
	B x = data(n, 4);
	// NULs within it: what follows them counts too
	int nul = mc::choose(4, "nul");
	if (nul && n <= 2) mc::prune();
	if (nul) x[nul == 1 ? 0 : nul == 2 ? n / 2 : n - 2] = 0;
	static const int ty[] = {READY, ACCEPT, START};
	int type = ty[mc::choose(3, "type")], where = mc::choose(3, "where");
	L l;
	if (type == START && where) mc::prune();
	struct fstrm_control *c = fstrm_control_init();
	fstrm_control_set_type(c, (fstrm_control_type)type);
	for (int i = 0; i < 3; i++) l.push_back(i == where ? x : data(i == 0 ? 300 - 44 : 5, 100 + i));
	for (auto &y : l) fstrm_control_add_field_content_type(c, (const uint8_t *)y.data(), y.size());
	auto m = [&](const B &y) {
		mc::steps();
		uint8_t *p = (uint8_t *)malloc(y.size() + y.empty());
		memcpy(p, y.data(), y.size());
		bool r = fstrm_control_match_field_content_type(c, p, y.size()) == fstrm_res_success;
		free(p);
		CHECK(r == match(type, l, &y), "content type of %d bytes against %zu bytes: %d", n, y.size(), r);
	};
	m(x);
	for (int d = 1; d <= 3; d++) { m(x + B(d, 0)); m(x + B(d, 'q')); if (n >= d) m(x.substr(0, n - d)); if (n >= d) m(x.substr(d)); }
	for (int i = 0; i < n; i++) { B y = x; y[i] ^= 1; m(y); y[i] = 0; m(y); y[i] = x[i] ^ 0x80; m(y); y[i] = x[i] ^ 0x20; m(y); }
	m(x + x);
	m("");
	CHECK(fstrm_control_match_field_content_type(c, nullptr, 0) != fstrm_res_success, "an absent content type matches a frame that carries one");
	fstrm_control_destroy(&c);
}
void mc_setup()
{
	mc::config.before = env::forget_allocations;
	al = {B("a"), B("ab"), B("b"), B(""), B("a\0", 2), B("a\0b", 3), B("a\0c", 3), B("\0", 1), B("\0a", 2), B("A"), B("protobuf:dnstap.Dnstap"), B("protobuf:dnstap.Dnsta"), B("protobuf:dnstap.Dnstaq"), B("ba"), B("*"), B("a*"), B("a;x"), B("a/b"), B("b,a")};
	if (mc::thorough()) { al.push_back(data(256, 1)); B y = data(256, 1); y[255] ^= 1; al.push_back(y); }
	mc::config.note = "one execution = one frame (type x list of content types over an alphabet with shared prefixes, NULs, empty strings), built and decoded, matched against every candidate; states = distinct frames";
	mc::scenario("lists", lists);
	mc::scenario("lengths", lengths);
}
